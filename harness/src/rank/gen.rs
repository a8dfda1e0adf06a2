//! Vectors described by segments, and questions about them.
use crate::wrap::*;
use harness::blk::*;
use harness::json::J;
use harness::op::*;
use harness::per_block;
use harness::rng::Rng;
use harness::run::Recorder;
use harness::users::*;
use std::rc::Rc;
use succinct::bit_vec::{BitSlice, BitSliceMut, BitVec, BitVecMut, BitVecPush, BitVector};
use succinct::int_vec::{IntVec, IntVector};
use succinct::stream::BitBuffer;

/// The store under test: its bits, how it is kept, and the window asked about.
pub struct Subject { k: String, w: i64, us: i64, bits: Vec<bool>, junk: u64, vw: i64, sl: i64, s: u64, n: u64 }

pub fn expand(segs: &[J]) -> Vec<bool> {
    let mut b = vec![];
    for g in segs { let g = g.arr(); let p = bools(&g[0]); for _ in 0..g[1].num() { b.extend_from_slice(&p) } }
    b
}
impl Subject {
    pub fn of(e: &J) -> Subject {
        let win = e.get("win").unwrap().arr();
        Subject { k: e.s("k").into(), w: e.n("w"), us: e.n("us"), bits: expand(e.get("segs").unwrap().arr()), junk: (e.n("junk") as u64).wrapping_mul(0x9E3779B97F4A7C15),
            vw: e.n("vw"), sl: e.n("sl"), s: win[0].num() as u64, n: win[1].num() as u64 }
    }
    /// Ask through the given stack of wrappers.
    pub fn ask(&self, stack: i64, qs: &[J]) -> Vec<J> { per_block!(self.w, self.us, B => self.ask_b::<B>(stack, qs)) }

    fn blocks<B: Blk>(&self) -> Vec<B> { self.bits.chunks(B::W).map(|c| B::of64(c.iter().enumerate().fold(0, |x, (i, b)| x | (*b as u64) << i))).collect() }
    fn bv<B: Blk>(&self) -> BitVector<B> {
        let mut v = BitVector::new();
        if self.vw % 2 == 0 { for b in &self.bits { v.push_bit(*b) } }
        else { for b in self.blocks::<B>() { v.push_block(b) } v.resize(self.bits.len() as u64, true); }
        v
    }
    fn ask_b<B: Blk + Wrap9 + BitVec<Block = B> + BitVecMut + succinct::rank::BitRankSupport + succinct::rank::RankSupport<Over = bool>>(&self, stack: i64, qs: &[J]) -> Vec<J> {
        if stack >= 22 { return word_rank(self.blocks::<u64>()[0], stack, qs); }
        if stack >= 20 { return prim_rank::<B>(self.blocks::<B>()[0], stack, qs); }
        match &self.k[..] {
            "bv" if self.sl == 0 => wrap(self.bv::<B>(), other(), &[stack], qs),
            "bv" => self.sliced(self.bv::<B>(), stack, qs),
            "iv" => { let mut v = IntVector::<B>::new(1 + self.vw as usize % B::W);
                let eb = v.element_bits();
                for c in self.bits.chunks(eb) { v.push(B::of64(c.iter().enumerate().fold(0, |x, (i, b)| x | (*b as u64) << i))) }
                self.sliced(v, stack, qs) }
            "blocks" => { let v = self.blocks::<B>();
                match self.vw % 3 { 0 => self.sliced(v, stack, qs), 1 => self.sliced_ro(&v[..], stack, qs), _ => { let mut v = v; self.sliced(&mut v[..], stack, qs) } } }
            "prim" => self.sliced(self.blocks::<B>()[0], stack, qs),
            "obits" => self.sliced(OnlyBits::<B>::new(self.bits.clone()), stack, qs),
            "oblk" => self.sliced(OnlyBlocks::<B>::new(&self.bits, self.junk), stack, qs),
            "buf" => self.sliced(BitBuffer::append(self.bv::<B>()), stack, qs),
            "bools" => Subject { k: "bools".into(), bits: vec![], ..*self }.bools(&self.bits, stack, qs),
            k => panic!("harness: kind {}", k),
        }
    }
    fn bools(&self, b: &[bool], stack: i64, qs: &[J]) -> Vec<J> { self.sliced(b.to_vec(), stack, qs) }
    fn sliced<T: BitVec + BitVecMut>(&self, mut t: T, stack: i64, qs: &[J]) -> Vec<J> where T::Block: Blk + Wrap9 {
        if self.sl == 3 { return er(BitSliceMut::new(&mut t, self.s..self.s + self.n), stack, qs); }
        self.sliced_ro(t, stack, qs)
    }
    fn sliced_ro<T: BitVec>(&self, t: T, stack: i64, qs: &[J]) -> Vec<J> where T::Block: Blk + Wrap9 {
        let (s, e) = (self.s, self.s + self.n);
        match self.sl {
            0 => er(t, stack, qs),
            1 | 3 => er(BitSlice::new(&t, s..e), stack, qs),
            2 => { let h = s / 2; er(BitSlice::new(&t, h..).slice(s - h..e - h), stack, qs) }
            _ => { let a = BitSlice::new(&t, ..e); er(BitSlice::new(&a, s..), stack, qs) }
        }
    }
}

fn er<'x, X: BitVec + 'x>(x: X, stack: i64, qs: &[J]) -> Vec<J> where X::Block: Blk + Wrap9 { wrap(Erased::<X::Block>(Rc::new(x)), Erased(Rc::new(other::<X::Block>())), &[stack], qs) }
fn other<B: Blk>() -> BitVector<B> { let mut v = BitVector::with_fill(3 * B::W as u64 + 700, true); v.push_bit(false); v }

pub fn perform(sub: &Subject, e: &mut J) {
    let xs = sub.ask(e.n("stack"), e.get("qs").unwrap().arr());
    e.set("xs", J::A(xs));
}

pub struct Gen<'o> { pub rng: Rng, pub rec: &'o mut Recorder, pub k: u64 }

fn q(name: &str, i: u64, c: u64) -> J { J::A(vec![J::S(name.into()), J::N(cap(i)), J::N(cap(c)), J::S(if i > CAP { i.to_string() } else { String::new() }), J::S(if c > CAP { c.to_string() } else { String::new() })]) }

impl<'o> Gen<'o> {
    fn pattern(&mut self) -> Vec<bool> {
        let n = match self.rng.below(6) { 0 => 1, 1 => 64, 2 => 8 << self.rng.below(4), _ => self.rng.range(1, 90) } as usize;
        let mut v = vec![];
        while v.len() < n { let x = self.rng.word(); for i in 0..64 { v.push(x >> i & 1 == 1) } }
        v.truncate(n); v
    }
    /// Segments with n bits altogether.
    fn segs(&mut self, n: u64) -> Vec<(Vec<bool>, u64)> {
        let mut out: Vec<(Vec<bool>, u64)> = vec![]; let mut left = n;
        while left > 0 {
            let mut p = self.pattern();
            if p.len() as u64 > left { p.truncate(left as usize); }
            let most = left / p.len() as u64;
            let c = if out.len() > 14 { most } else { match self.rng.below(5) { 0 => 1, 1 => self.rng.range(1, 5), 2 => most, _ => self.rng.range(1, most) } }.min(most).max(1);
            left -= c * p.len() as u64; out.push((p, c));
        }
        out
    }
    fn size(&mut self, big: bool) -> u64 {
        let n = match self.rng.below(20) {
            0..=7 => self.k % 700, 8..=11 => self.rng.below(700), 12..=14 => self.rng.below(6000),
            15 | 16 => { let k = self.rng.range(3, 13); ((1u64 << k) + self.rng.below(5)).saturating_sub(2) }
            17 | 18 => 512 * self.rng.range(1, 20) + self.rng.below(5) - 2,
            _ if big => if self.rng.chance(1, 4) { self.rng.below(1 << 20) } else { self.rng.below(1 << 16) },
            _ => self.rng.below(1500),
        };
        n
    }
    /// Make a subject; returns it, its record and the ranks at its segment boundaries.
    fn subject(&mut self, big: bool) -> (Subject, u64, Vec<u64>) {
        self.k += 1;
        let (w, us) = if self.rng.chance(1, 3) { (64, 0) } else { self.rng.pick(&WS) };
        let k = self.rng.pick(&["bv", "bv", "bv", "iv", "prim", "blocks", "bools", "obits", "oblk", "oblk", "buf"]);
        let mut n = self.size(big);
        let vw = self.rng.below(1 << 20);
        match k { "prim" => n = w as u64, "blocks" => n = n / w as u64 * w as u64, "iv" => { let eb = 1 + vw % w as u64; n = n / eb * eb } _ => {} }
        let w = if k == "bools" { 8 } else { w }; let us = if k == "bools" { 0 } else { us };
        let segs = self.segs(n);
        let sl = if self.rng.chance(2, 5) { self.rng.range(1, 4) } else { 0 };
        let (s, c) = if sl == 0 { (0, n) } else { let s = self.rng.pos(n + 1, w as u64); (s, if self.rng.chance(1, 4) { n - s } else { self.rng.below(n - s + 1) }) };
        let mut e = J::obj().with("op", J::S("vec".into())).with("k", J::S(k.into())).with("w", J::N(w as i64)).with("us", J::N(us)).with("junk", J::N(self.rng.below(1 << 30) as i64))
            .with("vw", J::N(vw as i64)).with("sl", J::N(sl as i64)).with("win", J::ints(&[s as i64, c as i64]));
        e.set("segs", J::A(segs.iter().map(|(p, c)| J::A(vec![J::A(p.iter().map(|b| J::N(*b as i64)).collect()), J::N(*c as i64)])).collect()));
        let sub = Subject::of(&e);
        self.rec.cur(&e); self.rec.emit(&e);
        let mut ends = vec![]; let mut o = 0; for (p, c) in &segs { o += p.len() as u64 * c; if o > s { ends.push(o - s) } }
        (sub, c, ends)
    }
    fn ask(&mut self, sub: &Subject, stack: i64, mut qs: Vec<J>) {
        if self.rng.chance(1, 3) { let (at, c) = (self.rng.below(qs.len() as u64 / 2 + 1), self.rng.below(2)); qs.insert(at as usize, q("clone", 0, c)) }
        let mut e = J::obj().with("op", J::S("ask".into())).with("stack", J::N(stack)).with("qs", J::A(qs));
        self.rec.cur(&e);
        perform(sub, &mut e);
        self.rec.emit(&e);
    }
    fn stacks(&mut self, sub: &Subject) -> Vec<(i64, u8)> {
        let is64 = sub.w == 64 && sub.us == 0;
        let mut v: Vec<(i64, u8)> = STACKS.iter().filter(|s| !s.2 || is64).map(|s| (s.0, s.1)).collect();
        if sub.k == "prim" && sub.sl == 0 { v.push((20, 1)); v.push((21, 2)); v.push((20, 1)); v.push((21, 2)); if sub.w == 64 { v.push((22, 3)); v.push((23, 4)); v.push((22, 3)) } }
        v
    }
    /// A rank position: near boundaries of everything.
    fn rpos(&mut self, n: u64, w: u64, ends: &[u64], oor: u64) -> u64 {
        if n == 0 || self.rng.chance(oor, 100) { return self.rng.beyond(n, w, 1); }
        let near = |g: &mut Rng, m: u64| (m + g.below(3)).saturating_sub(1).min(n - 1);
        match self.rng.below(8) {
            0 => { let b = [w, 64, 512, 256, 128, 2048, 8, 16][self.rng.below(8) as usize]; let m = self.rng.below(n / b + 1) * b; near(&mut self.rng, m) }
            1 if !ends.is_empty() => { let m = self.rng.pick(ends); near(&mut self.rng, m) }
            2 => { let lg = 64 - n.leading_zeros() as u64; let b = [lg * lg, lg, lg * lg * lg, lg * lg / 2 + 1][self.rng.below(4) as usize].max(1); let m = self.rng.below(n / b + 1) * b; near(&mut self.rng, m) }
            3 => n - 1 - self.rng.below(n.min(70)),
            _ => self.rng.pos(n, w),
        }
    }
    pub fn session(&mut self, profile: &str) {
        match profile {
            "C07" => {
                let (sub, n, ends) = self.subject(true);
                let st = self.stacks(&sub);
                let w = sub.w as u64;
                for _ in 0..3 {
                    let id = if self.rng.chance(1, 2) { let base: Vec<i64> = st.iter().map(|x| x.0).filter(|x| matches!(x, 1 | 8 | 20 | 21 | 22)).collect(); self.rng.pick(&base) } else { let r: Vec<i64> = st.iter().filter(|x| x.1 >= 1).map(|x| x.0).collect(); self.rng.pick(&r) };
                    let mut qs = vec![q("limit", 0, 0)];
                    if n <= 2500 || (n < 40000 && self.rng.chance(1, 8)) { qs.push(q(if self.rng.chance(1, 4) { "all_rank0" } else { "all_rank1" }, 0, 0)); }
                    else { for _ in 0..150 { let p = self.rpos(n, w, &ends, 0); qs.push(q("rank1", p, 0)) } }
                    for _ in 0..12 { let p = self.rpos(n, w, &ends, 25); let nm = self.rng.pick(&["rank1", "rank0", "rank", "rank"]); let c = self.rng.below(2); qs.push(q(nm, p, c)) }
                    for _ in 0..4 { let p = match self.rng.below(3) { 0 => n, 1 => (n / w + 1) * w - 1, _ => self.rng.beyond(n, w, 1) }; qs.push(q("rank1", p.max(n), 0)); }
                    self.ask(&sub, id, qs);
                }
            }
            "C08" => {
                let (sub, n, _) = self.subject(true);
                let st: Vec<(i64, u8)> = self.stacks(&sub).into_iter().filter(|x| x.1 >= 2).collect();
                for _ in 0..3 {
                    let (id, lvl) = self.rng.pick(&st);
                    let mut qs = vec![];
                    let only1 = lvl == 3;
                    if n <= 1200 { qs.push(q("all_sel1", 0, 0)); if !only1 { qs.push(q("all_sel0", 0, 0)) } }
                    let ones = sub.bits[sub.s as usize..(sub.s + sub.n) as usize].iter().filter(|b| **b).count() as u64;
                    for _ in 0..(if n <= 1200 { 14 } else { 60 }) {
                        let x = if only1 { 1 } else { self.rng.below(2) };
                        let m = if x == 1 { ones } else { n - ones };
                        let k = match self.rng.below(8) { 0 => m, 1 => m.saturating_sub(1), 2 => m + self.rng.below(70), 3 => self.rng.beyond(n, 64, 1), 4 => u64::MAX - self.rng.below(3), _ => self.rng.below(m + 1) };
                        if only1 || (x == 1 && self.rng.bit()) { qs.push(q("select1", k, 0)) } else if x == 0 && self.rng.bit() { qs.push(q("select0", k, 0)) } else { qs.push(q("select", k, x)) }
                    }
                    self.ask(&sub, id, qs);
                }
            }
            "C17" | "C12" => {
                let oor = if profile == "C12" { 45 } else { 8 };
                let (sub, n, ends) = self.subject(false);
                let w = sub.w as u64; let nb = (n + w - 1) / w;
                let st = self.stacks(&sub);
                for _ in 0..4 {
                    let (id, lvl) = self.rng.pick(&st);
                    let mut names = if id >= 22 { vec![] } else { vec!["bit_len", "block_len", "get_bit", "get_bits", "get_block", "get_bits", "get_block"] };
                    if lvl >= 1 { names.extend(["limit", "rank1", "rank0", "rank", "rank1"]) }
                    if lvl >= 2 { names.extend(["select1"]) }
                    if lvl == 2 || lvl == 4 { names.extend(["select0", "select", "select1"]) }
                    let mut qs = vec![];
                    for _ in 0..14 {
                        let nm = self.rng.pick(&names);
                        let (i, c) = match nm {
                            "get_bits" => self.rng.span(n, w, oor), "get_block" => (self.rng.at(nb, 1, w, oor), 0),
                            "get_bit" => (self.rng.at(n, w, 1, oor), 0),
                            "rank1" | "rank0" => (self.rpos(n, w, &ends, oor), 0),
                            "rank" => (self.rpos(n, w, &ends, oor), self.rng.below(2)),
                            "select" | "select1" | "select0" => (if self.rng.chance(1, 12) { self.rng.beyond(n, w, 1) } else { self.rng.below(n / 2 + 2) }, self.rng.below(2)),
                            _ => (0, 0),
                        };
                        qs.push(q(nm, i, c));
                    }
                    if n <= 1500 { qs.push(q("inner", 0, 0)); qs.push(q("into", 0, 0)); }
                    self.ask(&sub, id, qs);
                }
            }
            p => panic!("harness: profile {}", p),
        }
    }
}
