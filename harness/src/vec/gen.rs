//! Histories over bit stores: what to call next, biased towards boundaries.
use crate::exec::*;
use harness::blk::unbits;
use harness::json::J;
use harness::op::*;
use harness::rng::Rng;
use harness::run::Recorder;

pub struct Gen<'o> {
    pub rng: Rng,
    pub m: Machine,
    pub rec: &'o mut Recorder,
    pub dump_every: u64,
    pub k: u64,
    pub maxbits: u64,
    pub oor: u64, // per cent of out-of-range requests
}


impl<'o> Gen<'o> {
    pub fn go(&mut self, op: Op) -> J { self.go_d(op, false) }
    pub fn go_d(&mut self, op: Op, force_dump: bool) -> J {
        let j = op.done();
        self.rec.cur(&j);
        self.k += 1;
        let dump = force_dump || self.dump_every <= 1 || self.k % self.dump_every == 0;
        let e = self.m.event(j, dump);
        self.rec.emit(&e);
        e
    }
    pub fn len(&mut self, r: usize) -> u64 { self.m.st(r).lens().0.min(200_000) }
    fn nb(&mut self, r: usize) -> u64 { self.m.st(r).lens().1.min(200_000) as u64 }
    fn w(&mut self, r: usize) -> usize { self.m.st(r).w() }
    fn eb(&mut self, r: usize) -> usize { self.m.st(r).eb() }
    fn kind(&mut self, r: usize) -> &'static str { self.m.st(r).kind() }

    pub fn pos(&mut self, n: u64, w: u64) -> u64 { self.rng.pos(n, w) }
    pub fn beyond(&mut self, n: u64, w: u64, eb: u64) -> u64 { self.rng.beyond(n, w, eb) }
    fn at(&mut self, n: u64, w: u64, eb: u64) -> u64 { let o = self.oor; self.rng.at(n, w, eb, o) }
    pub fn span(&mut self, n: u64, w: u64) -> (u64, u64) { let o = self.oor; self.rng.span(n, w, o) }
    pub fn size_class(&mut self, w: usize) {
        let c = self.rng.below(100);
        let (m, d) = if c < 55 { (3 * w as u64 + 3, 1) } else if c < 80 { (8 * w as u64 + 5, 2) } else if c < 94 { (700, 4) } else if c < 99 { (2500, 10) } else { (9000, 25) };
        self.maxbits = m; self.dump_every = d;
    }
    fn newlen(&mut self, w: u64, max: u64) -> u64 {
        match self.rng.below(6) { 0 => 0, 1 => self.rng.below(4), 2 | 3 => { let k = self.rng.below(max / w + 1) * w; (k + self.rng.below(3)).saturating_sub(1) } _ => self.rng.below(max + 1) }.min(max)
    }
    /// Length near the current one or anywhere.
    fn tolen(&mut self, n: u64, w: u64, max: u64) -> u64 {
        match self.rng.below(5) { 0 => n, 1 => (n + self.rng.below(2 * w)).min(max), 2 => n.saturating_sub(self.rng.below(2 * w)), _ => self.newlen(w, max) }
    }
    pub fn elem(&mut self, eb: usize) -> u64 { let x = self.rng.word(); if eb == 64 { x } else { x & ((1u64 << eb) - 1) } }
    fn wide_elem(&mut self, eb: usize, w: usize) -> u64 { // too wide for eb
        let hi = 1u64 << (eb + self.rng.below((w - eb) as u64) as usize);
        let x = self.rng.word(); (if w == 64 { x } else { x & ((1u64 << w) - 1) }) | hi
    }
    fn wv(&mut self, w: usize) -> u64 { let x = self.rng.word(); if w == 64 { x } else { x & ((1u64 << w) - 1) } }
    fn overflow_len(&mut self, w: u64, eb: u64) -> u64 { if eb == 1 { u64::MAX - self.rng.below(w - 1) } else { (u64::MAX / eb).saturating_add(1 + self.rng.below(3)) } }

    // ---- constructing
    pub fn new_bv(&mut self, r: usize, w: usize, us: i64) {
        let max = self.maxbits; let w6 = w as u64;
        let n = self.newlen(w6, max);
        let o = match self.rng.below(9) {
            0 => Op::new("bv_new", r).n(w6).set("dflt", self.rng.below(2) as i64),
            1 => Op::new("bv_cap", r).n(w6).n(n),
            2 => Op::new("bv_bcap", r).n(w6).n(n / w6),
            3 | 4 => { let v = self.wv(w); Op::new("bv_bfill", r).n(w6).n(n / w6).v(v, w) }
            5 if self.oor > 10 => {
                let x = self.overflow_len(w6, 1);
                match self.rng.below(4) { 0 => Op::new("bv_cap", r).n(w6).n(x), 1 => Op::new("bv_bcap", r).n(w6).n(usize::MAX as u64 - self.rng.below(9)),
                    2 => Op::new("bv_bfill", r).n(w6).n(usize::MAX as u64 - self.rng.below(9)).v(0, w), _ => Op::new("bv_fill", r).n(w6).n(x).n(self.rng.below(2)) }.set("big", 1)
            }
            _ => Op::new("bv_fill", r).n(w6).n(n).n(self.rng.below(2)),
        };
        let e = self.go_d(o.set("us", us), true);
        if e.n("p") == 1 || self.m.regs[r].as_ref().map_or(true, |s| s.kind() != "bv") { self.go(Op::new("bv_new", r).n(w6).set("us", us)); }
    }
    pub fn new_iv(&mut self, r: usize, w: usize, us: i64, eb: usize) {
        let w6 = w as u64; let e6 = eb as u64;
        let n = self.newlen(w6, self.maxbits) / e6;
        let o = match self.rng.below(9) {
            0 => Op::new("iv_new", r).n(w6).n(e6),
            1 => Op::new("iv_cap", r).n(w6).n(e6).n(n),
            2 => Op::new("iv_bcap", r).n(w6).n(e6).n(n * e6 / w6),
            3 | 4 => { let v = self.wv(w); Op::new("iv_bfill", r).n(w6).n(e6).n(n * e6 / w6).v(v, w) }
            5 if self.oor > 10 => {
                let x = self.overflow_len(w6, e6);
                match self.rng.below(7) {
                    0 => Op::new("iv_cap", r).n(w6).n(e6).n(x).set("big", 1),
                    1 => Op::new("iv_fill", r).n(w6).n(e6).n(x).v(0, w).set("big", 1),
                    2 => Op::new("iv_new", r).n(w6).n(if self.rng.bit() { 0 } else { w6 + 1 + self.rng.below(200) }),
                    3 => { let v = self.wv(w); Op::new("iv_bfill", r).n(w6).n(if self.rng.bit() { w6 + 1 } else { 200 }).n(n.min(3)).v(v, w) }
                    4 => Op::new("iv_fill", r).n(w6).n(if self.rng.bit() { 0 } else { w6 + 1 + self.rng.below(9) }).n(n.min(3)).v(0, w),
                    5 => Op::new("iv_cap", r).n(w6).n(if self.rng.bit() { 0 } else { w6 + 1 }).n(n),
                    _ if eb < w => { let v = self.wide_elem(eb, w); Op::new("iv_fill", r).n(w6).n(e6).n(n.max(1)).v(v, w) }
                    _ => Op::new("iv_bcap", r).n(w6).n(0).n(1),
                }
            }
            _ => { let v = self.elem(eb); Op::new("iv_fill", r).n(w6).n(e6).n(n).v(v, w) }
        };
        let e = self.go_d(o.set("us", us), true);
        let bad = self.m.regs[r].as_ref().map_or(true, |s| s.kind() != "iv" || s.eb() != eb || s.w() != w);
        if e.n("p") == 1 || bad { self.go(Op::new("iv_new", r).n(w6).n(e6).set("us", us)); }
    }
    pub fn rbits(&mut self, n: usize) -> Vec<bool> {
        let mut v = Vec::new(); 
        while v.len() < n { let x = self.rng.word(); for i in 0..64 { v.push(x >> i & 1 == 1) } }
        v.truncate(n); v
    }
    /// Any other store, made directly from bits.
    pub fn new_st(&mut self, r: usize, k: &str, w: usize, us: i64) {
        let n = match k { "prim" => w, "blocks" => (self.newlen(w as u64, self.maxbits) as usize / w) * w, _ => self.newlen(w as u64, self.maxbits) as usize };
        let b = self.rbits(n);
        let w = if k == "bools" { 8 } else { w };
        let mut o = Op::new("st_new", r).bits(&b).set("w", w as i64).set("us", us).set("vw", self.rng.below(4) as i64).set("junk", self.rng.below(1 << 30) as i64);
        o.j.set("k", J::S(k.into()));
        self.go_d(o, true);
    }
    pub fn new_any(&mut self, r: usize) -> &'static str {
        let (w, us) = self.rng.pick(&WS);
        let k = self.rng.pick(&["bv", "iv", "prim", "blocks", "bools", "obits", "oblk", "bv", "iv"]);
        match k {
            "bv" => { self.new_bv(r, w, us); for _ in 0..self.rng.below(12) { self.bv_op(r) } self.fill_random(r) }
            "iv" => { let eb = self.width(w); self.new_iv(r, w, us, eb); for _ in 0..self.rng.below(12) { self.iv_op(r) } self.fill_random(r) }
            k => self.new_st(r, k, w, us),
        }
        k
    }
    pub fn width(&mut self, w: usize) -> usize { match self.rng.below(8) { 0 => w, 1 => 1, 2 => w - 1, 3 => w / 2 + 1, 4 => w / 2, _ => self.rng.range(1, w as u64) as usize } }
    fn fill_random(&mut self, r: usize) {
        let nb = self.nb(r); let w = self.w(r);
        if nb > 40 { return; }
        for k in 0..nb { let v = self.wv(w); self.go(Op::new("set_block", r).n(k).v(v, w)); }
    }

    // ---- one operation on a bit vector
    pub fn bv_op(&mut self, r: usize) {
        let n = self.len(r); let w = self.w(r); let w6 = w as u64; let max = self.maxbits; let sm = self.rng.below(9);
        match self.rng.below(28) {
            0..=4 => { for _ in 0..self.rng.range(1, 5) { if self.len(r) < max { let x = self.rng.below(2); self.go(Op::new("push_bit", r).n(x)); } } }
            5..=8 => { for _ in 0..self.rng.range(1, 5) { self.go(Op::new("pop_bit", r)); } }
            9 | 10 => if n + 2 * w6 < max + w6 { let v = self.wv(w); self.go(Op::new("push_block", r).v(v, w)); },
            11 => { let x = self.rng.below(2); self.go(Op::new("align_block", r).n(x)); }
            12 | 13 | 14 => { let t = self.tolen(n, w6, max); let x = self.rng.below(2); self.go(Op::new("resize", r).n(t).n(x)); }
            15 | 16 => { let t = self.tolen(n, w6, max) / w6; let v = self.wv(w); self.go(Op::new("block_resize", r).n(t).v(v, w)); }
            17 | 18 => { let t = if self.rng.chance(1, 6) { self.beyond(n, w6, 1) } else { self.tolen(n, w6, max) }; self.go(Op::new("truncate", r).n(t)); }
            19 => { let t = if self.rng.chance(1, 6) { self.beyond(n, w6, 1) } else { self.tolen(n, w6, max) / w6 }; self.go(Op::new("block_truncate", r).n(t)); }
            20 => if self.rng.chance(1, 4) { self.go(Op::new("clear", r)); },
            21 => { if n < 1500 { self.go(Op::new("fmt_bin", r)); } }
            22 => { let t = if r == 1 { 2 } else { 1 }; if self.rng.bit() { self.go_d(Op::new("clone", r).n(t), true); } }
            23 if self.oor > 10 => { let x = self.overflow_len(w6, 1);
                match self.rng.below(4) { 0 => self.go(Op::new("resize", r).n(x).n((sm & 1)).set("big", 1)),
                    1 => self.go(Op::new("block_resize", r).n(usize::MAX as u64 - sm).v(0, w).set("big", 1)),
                    2 if n > w6 => self.go(Op::new("reserve", r).n(u64::MAX - sm).set("big", 1)),
                    _ => self.go(Op::new("block_reserve", r).n(usize::MAX as u64 - sm).set("big", 1)) }; }
            _ => self.span_op(r),
        }
    }

    // ---- one operation on an integer vector
    pub fn iv_op(&mut self, r: usize) {
        let n = self.len(r); let w = self.w(r); let eb = self.eb(r); let (w6, e6) = (w as u64, eb as u64);
        let l = n / e6; let max = self.maxbits; let lmax = max / e6; let sm = self.rng.below(9);
        match self.rng.below(34) {
            0..=4 => { for _ in 0..self.rng.range(1, 4) { if self.len(r) + e6 <= max { let v = self.elem(eb); self.go(Op::new("push", r).v(v, w)); } } }
            5..=7 => { for _ in 0..self.rng.range(1, 4) { self.go(Op::new("pop", r)); } }
            8..=11 => { let i = self.at(l, w6, e6); self.go(Op::new("get", r).n(i)); }
            12..=15 => { let i = self.at(l, w6, e6); let v = if eb < w && self.rng.chance(self.oor, 200) { self.wide_elem(eb, w) } else { self.elem(eb) }; self.go(Op::new("set", r).n(i).v(v, w)); }
            16 | 17 | 18 => { let t = self.tolen(l, (w6 / e6).max(1), lmax);
                let v = if eb < w && t > l && self.rng.chance(self.oor, 200) { self.wide_elem(eb, w) } else { self.elem(eb) };
                self.go(Op::new("iv_resize", r).n(t).v(v, w)); }
            19 | 20 => { let t = self.tolen(n, w6, max) / w6; let v = self.wv(w); self.go(Op::new("block_resize", r).n(t).v(v, w)); }
            21 | 22 => { let t = if self.rng.chance(1, 6) { self.beyond(l, w6, e6) } else { self.tolen(l, (w6 / e6).max(1), lmax) }; self.go(Op::new("truncate", r).n(t)); }
            23 => { let t = if self.rng.chance(1, 6) { self.beyond(n, w6, e6) } else { self.tolen(n, w6, max) / w6 }; self.go(Op::new("block_truncate", r).n(t)); }
            24 => if self.rng.chance(1, 4) { self.go(Op::new("clear", r)); },
            25 => { self.go(Op::new("iv_info", r)); }
            26 | 27 | 28 => self.random_op(r),
            29 => { let t = if r == 1 { 2 } else { 1 }; if self.rng.bit() { self.go_d(Op::new("clone", r).n(t), true); } }
            30 if self.oor > 10 => { let x = self.overflow_len(w6, e6);
                match self.rng.below(4) { 0 => { self.go(Op::new("iv_resize", r).n(x).v(0, w).set("big", 1)); }
                    1 => { self.go(Op::new("block_resize", r).n(usize::MAX as u64 - sm).v(0, w).set("big", 1)); }
                    2 if n > w6 => { let x = if e6 == 1 { u64::MAX - sm } else { u64::MAX / e6 - l + 1 + sm }; self.go(Op::new("reserve_exact", r).n(x).set("big", 1)); }
                    3 if eb < w => { let v = self.wide_elem(eb, w); self.go(Op::new("push", r).v(v, w)); } _ => {} } }
            _ => self.span_op(r),
        }
    }
    /// get_random / set_random: elements of another width at another offset.
    fn random_op(&mut self, r: usize) {
        let n = self.len(r); let nb = self.nb(r); let w = self.w(r); let w6 = w as u64;
        let bad = self.rng.chance(self.oor, 100);
        let c = if bad && self.rng.chance(1, 4) { w6 + 1 + self.rng.below(9) } else { self.width(w) as u64 * (!self.rng.chance(1, 20)) as u64 };
        let off = if n == 0 { 0 } else { match self.rng.below(4) { 0 => 0, 1 => self.pos(n, w6), _ => self.rng.below((2 * w6).min(n) + 1) } };
        let room = if c == 0 { 3 } else { (n.saturating_sub(off)) / c.max(1) };
        let j = if bad { self.beyond(room, w6, c) } else if room == 0 { return } else { self.pos(room, 1) };
        // The stretch between the last element and the end of the last block may go either way.
        let end = (j as u128) * (c as u128) + off as u128 + c as u128;
        if end > n as u128 && end <= (nb * w6) as u128 { return; }
        if end > u64::MAX as u128 && c <= w6 && c > 0 && (end as u64) <= nb * w6 { /* wraps around: must be refused */ }
        if self.rng.bit() { self.go(Op::new("get_random", r).n(off).n(c).n(j)); }
        else {
            let k = c.min(w6) as usize;
            let v = if k < w && self.rng.chance(self.oor, 200) { self.wide_elem(k, w) } else if k == 0 { 0 } else { self.elem(k) };
            self.go(Op::new("set_random", r).n(off).n(c).n(j).v(v, w));
        }
    }
    // ---- reading and writing bits, spans and blocks of any store
    pub fn span_op(&mut self, r: usize) { let n = self.len(r); let w = self.w(r) as u64; let nb = self.nb(r); self.span_op_at(r, &[], n, nb, w, 0) }
    fn span_op_at(&mut self, r: usize, path: &[(u8, u64, u64)], n: u64, nb: u64, w6: u64, nest: u64) {
        let w = w6 as usize;
        let fin = |o: Op, g: &mut Self| -> Op {
            if path.is_empty() { return o; }
            let split = if nest == 0 { 0 } else { 1 + g.rng.below(path.len() as u64) };
            let mu = g.rng.below(3) as i64;
            o.path(path).set("split", split as i64).set("mu", mu)
        };
        let o = match self.rng.below(14) {
            0 | 1 => { let i = self.at(n, w6, 1); Op::new("get_bit", r).n(i) }
            2 | 3 => { let i = self.at(n, w6, 1); let x = self.rng.below(2); Op::new("set_bit", r).n(i).n(x) }
            4 | 5 | 6 => { let (s, c) = self.span(n, w6); Op::new("get_bits", r).n(s).n(c) }
            7 | 8 | 9 => { let (s, c) = self.span(n, w6); let v = self.wv(w); Op::new("set_bits", r).n(s).n(c).v(v, w) }
            10 | 11 => { let k = self.at(nb, 1, w6); Op::new("get_block", r).n(k) }
            12 => { let k = self.at(nb, 1, w6); let v = self.wv(w); Op::new("set_block", r).n(k).v(v, w) }
            _ => if path.is_empty() { let i = self.at(n, w6, 1); Op::new("get_bit", r).n(i) } else { Op::new("slen", r) },
        };
        let o = fin(o, self);
        self.go(o);
    }
    /// A random path of ranges and the length of the window it leaves.
    fn range(&mut self, len: u64, w: u64, bad: bool) -> ((u8, u64, u64), u64) {
        let form = self.rng.below(4) as u8;
        if bad {
            let e = self.beyond(len + 1, w, 1);
            let s = self.pos(len + 1, w);
            return if self.rng.bit() { ((1, 0, e), 0) } else { ((3, s, e), 0) };
        }
        let s = self.pos(len + 1, w);
        let e = if self.rng.chance(1, 5) { len } else { s + self.rng.below(len - s + 1) };
        match form { 0 => ((0, 0, 0), len), 1 => ((1, 0, e), e), 2 => ((2, s, 0), len - s), _ => ((3, s, e), e - s) }
    }
    pub fn slice_op(&mut self, r: usize) {
        let n = self.len(r); let w = self.w(r) as u64;
        let mut path = vec![]; let mut len = n;
        let depth = self.rng.range(1, 4);
        let bad = if self.rng.chance(self.oor / 2, 100) { self.rng.below(depth) } else { 99 };
        for d in 0..depth { let (g, l) = self.range(len, w, d == bad); path.push(g); len = l; if d == bad { break; } }
        let nest = self.rng.below(2);
        for _ in 0..self.rng.range(1, 4) {
            let nb = (len + w - 1) / w;
            self.span_op_at(r, &path, len, nb, w, nest);
        }
    }
    // ---- iterators
    pub fn iter_session(&mut self, r: usize) {
        let mut live: Vec<u64> = vec![];
        let l0 = { let n = self.len(r); n / self.eb(r) as u64 };
        for _ in 0..self.rng.range(10, 60) {
            if live.is_empty() || (live.len() < 3 && self.rng.chance(1, 12)) {
                let i = (1..=4).find(|i| !live.contains(i)).unwrap();
                let into = self.rng.below(2) as i64;
                self.go(Op::new("it_new", r).n(i).set("into", into)); live.push(i); continue;
            }
            let i = self.rng.pick(&live);
            let k = match self.rng.below(12) { 0..=3 => 0, 4..=6 => self.rng.below(4), 7 | 8 => self.rng.below(l0 + 3), 9 => l0, 10 => u64::MAX - self.rng.below(l0 + 2), _ => 1u64 << self.rng.below(64) };
            match self.rng.below(28) {
                24..=27 => if self.len(r) < 400 {
                    let (w, eb) = (if self.kind(r) == "iv" { self.w(r) } else { 1 }, self.eb(r));
                    let v = if l0 > 0 && self.rng.chance(3, 4) { let p = self.rng.below(l0); unbits(&J::ints(&self.m.item(r, p))) } else { self.elem(eb) };
                    let how = if self.rng.chance(1, 3) { self.rng.pick(USING_UP) } else { self.rng.pick(PARTLY) };
                    let k = if self.rng.chance(1, 4) { self.rng.below(l0 + 3) } else { self.rng.below(6) };
                    self.go(Op::new("it_use", r).n(i).n(k).v(v, w).text("how", how));
                    if USING_UP.contains(&how) { live.retain(|x| *x != i) }
                },
                0..=5 => { self.go(Op::new("it_next", r).n(i)); }
                6..=10 => { self.go(Op::new("it_back", r).n(i)); }
                11..=13 => { self.go(Op::new("it_nth", r).n(i).n(k)); }
                14 | 15 => { let k = if k > 100_000 { l0 + 1 } else { k }; self.go(Op::new("it_nth_back", r).n(i).n(k)); }
                16 | 17 => { self.go(Op::new("it_len", r).n(i)); }
                18 => { self.go(Op::new("it_hint", r).n(i)); }
                19 => if let Some(j) = (1..=4).find(|j| !live.contains(j)) { self.go(Op::new("it_clone", r).n(i).n(j)); live.push(j); },
                20 => { self.go(Op::new("it_count", r).n(i)); live.retain(|x| *x != i); }
                21 => { self.go(Op::new("it_last", r).n(i)); live.retain(|x| *x != i); }
                _ => { let b = self.len(r) < 400 && self.rng.chance(1, 2); if b { let o = if self.rng.bit() { "it_collect" } else { "it_rev" }; self.go(Op::new(o, r).n(i)); live.retain(|x| *x != i); } }
            }
        }
        for i in live { self.m.its[i as usize] = None; }
    }
    // ---- capacity
    pub fn cap_op(&mut self, r: usize) {
        let iv = self.kind(r) == "iv"; let n = self.len(r); let w = self.w(r); let w6 = w as u64; let eb = self.eb(r) as u64; let l = n / eb; let nb = self.nb(r);
        let max = self.maxbits; let sm = self.rng.below(9);
        let (cap_e, cap_b) = { let c = self.m.st(r).caps(); (c.0.min(100_000), c.1.min(100_000) as u64) };
        match self.rng.below(20) {
            0..=2 => { // ask for room around what there is
                let k = match self.rng.below(6) { 0 => 0, 1 => cap_e.saturating_sub(l), 2 => cap_e.saturating_sub(l) + 1, 3 => (cap_e.saturating_sub(l)).saturating_sub(1), 4 => self.rng.below(max / eb + 1), _ => self.rng.below(2 * w6) };
                let o = if self.rng.bit() { "reserve" } else { "reserve_exact" }; self.go(Op::new(o, r).n(k.min(max / eb + w6)));
                if self.rng.bit() { self.fill_up(r); }
            }
            3 | 4 => { let k = match self.rng.below(4) { 0 => cap_b.saturating_sub(nb), 1 => cap_b.saturating_sub(nb) + 1, 2 => self.rng.below(max / w6 + 1), _ => self.rng.below(3) };
                let o = if self.rng.bit() { "block_reserve" } else { "block_reserve_exact" }; self.go(Op::new(o, r).n(k.min(max / w6 + 4)));
                if self.rng.bit() { self.fill_up(r); } }
            5 | 6 => { self.go(Op::new("shrink_to_fit", r)); }
            7 => { self.go(Op::new("clear", r)); if self.rng.bit() { self.fill_up(r); } }
            8 => { let x = if iv { u64::MAX / eb - l } else { u64::MAX - n }; 
                let bump = self.rng.range(1, 9);
                let o = if self.rng.bit() { "reserve" } else { "reserve_exact" };
                let k = x.saturating_add(bump); // len + k elements take 2^64 bits or more, or len + k does not fit
                if k > x { self.go(Op::new(o, r).n(k).set("big", 1)); } else if l > 0 { self.go(Op::new(o, r).n(u64::MAX).set("big", 1)); } }
            9 => { let o = if self.rng.bit() { "block_reserve" } else { "block_reserve_exact" }; if nb > 0 || w > 8 { self.go(Op::new(o, r).n(usize::MAX as u64 - sm).set("big", 1)); } }
            10 => { self.fill_up(r) }
            11 => { self.go_d(Op::new("clone", r).n(if r == 1 { 2 } else { 1 }), true); }
            _ => if iv { self.iv_op(r) } else { self.bv_op(r) },
        }
    }
    /// Push until the reported capacity is used up (or a while).
    fn fill_up(&mut self, r: usize) {
        let iv = self.kind(r) == "iv"; let eb = self.eb(r); let w = self.w(r);
        for _ in 0..40 {
            let l = self.len(r) / eb as u64;
            let c = self.m.st(r).caps().0;
            if l >= c { break; }
            if iv { let v = self.elem(eb); self.go(Op::new("push", r).v(v, w)); }
            else if c - l > 50 { let v = self.wv(w); self.go(Op::new("push_block", r).v(v, w)); }
            else { let x = self.rng.below(2); self.go(Op::new("push_bit", r).n(x)); }
        }
    }
    // ---- two routes to the same contents
    pub fn same_session(&mut self, iv: bool) {
        let (w, us) = self.rng.pick(&WS); let w6 = w as u64;
        self.size_class(w); self.maxbits = self.maxbits.min(700); self.dump_every = 1;
        let eb = if iv { self.width(w) } else { 1 }; let e6 = eb as u64;
        for _ in 0..4 {
            let lmax = self.maxbits / e6;
            let tl = self.newlen(w6, lmax);
            let target: Vec<u64> = (0..tl).map(|_| self.elem(eb)).collect();
            for r in 1..=3usize {
                let mut t = target.clone();
                if self.rng.chance(1, 4) && r > 1 { match self.rng.below(4) { // a near miss
                    0 => { t.pop(); } 1 => { let v = self.elem(eb); t.push(v) }
                    2 if !t.is_empty() => { let i = self.pos(tl, 1) as usize; t[i] ^= 1u64 << self.rng.below(e6) }
                    _ => { t.push(0) } } }
                if iv { self.new_iv(r, w, us, eb) } else { self.new_bv(r, w, us) }
                for _ in 0..self.rng.below(10) { if iv { self.iv_op(r) } else { self.bv_op(r) } }
                self.steer(r, &t);
            }
            self.go(Op::new("cmp", 1).n(1).n(2).n(3));
            self.go(Op::new("cmp", 1).n(2).n(3).n(1));
            if self.rng.bit() { self.go_d(Op::new("clone", 1).n(2), true); let o = self.rng.range(1, 2) as usize; if iv { self.iv_op(o) } else { self.bv_op(o) }
                self.go(Op::new("cmp", 1).n(1).n(2).n(3)); }
        }
    }
    /// Bring a vector, whatever it holds, to the contents t.
    fn steer(&mut self, r: usize, t: &[u64]) {
        let iv = self.kind(r) == "iv"; let eb = self.eb(r); let e6 = eb as u64; let w = self.w(r); let tl = t.len() as u64;
        let max = 3 * self.maxbits;
        if self.rng.bit() && self.len(r) < max { // grow well past it first
            let ones = if eb == 64 { !0 } else { (1u64 << eb) - 1 };
            let to = tl + self.rng.below(2 * w as u64 / e6 + 3);
            if iv { self.go(Op::new("iv_resize", r).n(to).v(ones, w)); } else { self.go(Op::new("resize", r).n(to).n(1)); }
        }
        let l = self.len(r) / e6;
        if l > tl { match self.rng.below(4) {
            0 => { self.go(Op::new("truncate", r).n(tl)); }
            1 => { let v = self.elem(eb); if iv { self.go(Op::new("iv_resize", r).n(tl).v(v, w)); } else { self.go(Op::new("resize", r).n(tl).n(v & 1)); } }
            2 => { let nb = (tl * e6 + w as u64 - 1) / w as u64; self.go(Op::new("block_truncate", r).n(nb)); let x = self.len(r) / e6; if x > tl { self.go(Op::new("truncate", r).n(tl)); } }
            _ => { for _ in 0..60 { if self.len(r) / e6 <= tl { break; } if iv { self.go(Op::new("pop", r)); } else { self.go(Op::new("pop_bit", r)); } }
                   if self.len(r) / e6 > tl { self.go(Op::new("truncate", r).n(tl)); } }
        } }
        let l = (self.len(r) / e6).min(tl);
        let by_block = self.rng.chance(1, 3);
        if by_block {
            let mut b: Vec<bool> = vec![]; for v in &t[..l as usize] { for i in 0..eb { b.push(v >> i & 1 == 1) } }
            for k in 0..((b.len() + w - 1) / w) {
                let junk = self.rng.word();
                let mut x = 0u64; for i in 0..w { let bit = if k * w + i < b.len() { b[k * w + i] } else { junk >> i & 1 == 1 }; x |= (bit as u64) << i }
                self.go(Op::new("set_block", r).n(k as u64).v(x, w));
            }
            // bits beyond l in the last block of a longer prefix are rewritten below
        }
        for i in 0..l { let v = t[i as usize];
            let same = if iv { self.m.st(r).get(i) == v } else { let q = self.m.st(r).query(&[], 0, 0, crate::stores::Q::GetBit(i)); q[0] as u64 == v };
            if same { continue; }
            if iv { if self.rng.chance(3, 4) { self.go(Op::new("set", r).n(i).v(v, w)); } else { self.go(Op::new("set_bits", r).n(i * e6).n(e6).v(v, w)); } }
            else { self.go(Op::new("set_bit", r).n(i).n(v)); }
        }
        while self.rec.left > -2000 {
            let l = self.len(r) / e6; if l >= tl { break; }
            let v = t[l as usize];
            if iv { self.go(Op::new("push", r).v(v, w)); } else { self.go(Op::new("push_bit", r).n(v)); }
        }
    }
    /// One session of the given profile.
    pub fn session(&mut self, profile: &str) {
        let (w, us) = self.rng.pick(&WS);
        self.size_class(w);
        self.m.track_caps = profile == "C13";
        match profile {
            "C01" => { self.oor = 5; self.new_bv(1, w, us); self.new_bv(2, w, us);
                let k = if self.maxbits > 2000 { 30 } else { 90 };
                for _ in 0..k { let r = self.rng.pick(&[1usize, 1, 1, 2]); self.bv_op(r) } }
            "C02" => { self.oor = 6; let eb = self.width(w); self.new_iv(1, w, us, eb); self.new_iv(2, w, us, eb);
                let k = if self.maxbits > 2000 { 30 } else { 90 };
                for _ in 0..k { let r = self.rng.pick(&[1usize, 1, 1, 2]); self.iv_op(r) } }
            "C03" => { self.oor = 5; let iv = self.rng.bit(); self.same_session(iv) }
            "C04" => { self.oor = 6; self.new_any(1);
                for _ in 0..60 { self.span_op(1);
                    if self.rng.chance(1, 12) && self.m.st(1).has_push() { self.push_op(1) } } }
            "C05" => { self.oor = 10; self.new_any(1); for _ in 0..30 { self.slice_op(1) } }
            "C06" => { self.oor = 0; let iv = self.rng.bit();
                if iv { let eb = self.width(w); self.new_iv(1, w, us, eb); for _ in 0..self.rng.below(20) { self.iv_op(1) } }
                else { self.new_bv(1, w, us); for _ in 0..self.rng.below(20) { self.bv_op(1) } }
                self.fill_random(1);
                for _ in 0..2 { self.iter_session(1); if iv { self.iv_op(1) } else { self.bv_op(1) } } }
            "C12" => { self.oor = 45;
                match self.rng.below(4) {
                    0 => { self.new_bv(1, w, us); self.new_bv(2, w, us); for _ in 0..60 { let r = self.rng.pick(&[1usize, 1, 2]); self.bv_op(r) } }
                    1 => { let eb = self.width(w); self.new_iv(1, w, us, eb); self.new_iv(2, w, us, eb); for _ in 0..60 { let r = self.rng.pick(&[1usize, 1, 2]); self.iv_op(r) } }
                    _ => { self.new_any(1); for _ in 0..30 { self.span_op(1) } for _ in 0..15 { self.slice_op(1) } }
                } }
            "C13" => { self.oor = 12; let iv = self.rng.bit();
                for r in [1usize, 2] { if iv { let eb = self.width(w); self.new_iv(r, w, us, eb); } else { self.new_bv(r, w, us); } self.fill_up_caps(r) }
                for _ in 0..50 { let r = self.rng.pick(&[1usize, 1, 2]); self.cap_op(r) } }
            p => panic!("harness: profile {}", p),
        }
    }
    fn fill_up_caps(&mut self, r: usize) { if self.rng.bit() { self.fill_up(r) } }
    fn push_op(&mut self, r: usize) {
        let w = self.w(r);
        match self.rng.below(5) {
            0 => { let x = self.rng.below(2); self.go(Op::new("push_bit", r).n(x)); }
            1 => { self.go(Op::new("pop_bit", r)); }
            2 => { let x = self.rng.below(2); self.go(Op::new("align_block", r).n(x)); }
            _ => { let v = self.wv(w); self.go(Op::new("push_block", r).v(v, w)); }
        }
    }
}
