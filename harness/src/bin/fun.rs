//! Block arithmetic and masks, broadword operations (FunTrace), and block
//! I/O on byte streams (IoTrace).
use byteorder::{BigEndian, LittleEndian, NativeEndian, NetworkEndian};
use harness::blk::*;
use harness::json::J;
use harness::op::*;
use harness::per_block;
use harness::rng::Rng;
use harness::run::*;
use std::io::{Cursor, Error, ErrorKind, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use succinct::broadword as bw;
use succinct::storage::{Address, BlockType};

#[global_allocator]
static ALLOC: harness::alloc::Counting = harness::alloc::Counting;

fn w64(j: &J) -> u64 { unwide(j) as u64 }
fn us(x: usize) -> J { wide(x as u128) }
fn u(x: u64) -> J { wide(x as u128) }
fn opt(x: Option<usize>) -> Vec<J> { x.map_or(vec![], |x| vec![us(x)]) }

fn block_ask<B: Blk>(q: &[J], big: i64) -> Vec<J> {
    let i = || w64(&q[1]);
    let b = || B::of64(w64(&q[1]));
    let n = |k: usize| w64(&q[k]) as usize;
    match q[0].str() {
        "nbits" => vec![us(B::nbits())],
        "lg_nbits" => vec![us(B::lg_nbits())],
        "lg_nbits_mask" => vec![match big % 5 { 0 => u(B::lg_nbits_mask::<u8>() as u64), 1 => u(B::lg_nbits_mask::<u16>() as u64), 2 => u(B::lg_nbits_mask::<u32>() as u64), 3 => u(B::lg_nbits_mask::<u64>()), _ => us(B::lg_nbits_mask::<usize>()) }],
        "div_nbits" => vec![us(B::div_nbits(i()))],
        "ceil_div_nbits" => vec![us(B::ceil_div_nbits(i()))],
        "checked_div_nbits" => opt(B::checked_div_nbits(i())),
        "checked_ceil_div_nbits" => opt(B::checked_ceil_div_nbits(i())),
        "mod_nbits" => vec![us(B::mod_nbits(i()))],
        "mul_nbits" => vec![u(B::mul_nbits(i() as usize))],
        "last_block_bits" => vec![us(B::last_block_bits(i()))],
        "address" => { let a = Address::new::<B>(i()); vec![us(a.block_index), us(a.bit_offset)] }
        "bit_index" => vec![u(Address { block_index: n(1), bit_offset: n(2) }.bit_index::<B>())],
        "low_mask" => vec![u(B::low_mask(n(1)).to64())],
        "nth_mask" => vec![u(B::nth_mask(n(1)).to64())],
        "get_bit" => vec![J::ints(&[BlockType::get_bit(b(), n(2)) as i64])],
        "with_bit" => vec![u(b().with_bit(n(2), q[3].num() == 1).to64())],
        "get_bits" => vec![u(BlockType::get_bits(b(), n(2), n(3)).to64())],
        "with_bits" => vec![u(b().with_bits(n(2), n(3), B::of64(w64(&q[4]))).to64())],
        "ceil_lg" => vec![us(b().ceil_lg())],
        "floor_lg" => vec![us(b().floor_lg())],
        "ceil_div" => vec![u(b().ceil_div(B::of64(w64(&q[2]))).to64())],
        o => panic!("harness: question {}", o),
    }
}
fn word_ask(q: &[J]) -> Vec<J> {
    let x = w64(&q[1]);
    match q[0].str() {
        "count_ones" => vec![us(bw::count_ones(x))],
        "select1" => opt(bw::select1(w64(&q[2]) as usize, x)),
        "select1_raw" => vec![us(bw::select1_raw(w64(&q[2]) as usize, x))],
        "u_le8" => vec![u(bw::u_le8(x, w64(&q[2])))],
        "le8" => vec![u(bw::le8(x, w64(&q[2])))],
        "u_nz8" => vec![u(bw::u_nz8(x))],
        "l8" => vec![u(bw::L8)], "h8" => vec![u(bw::H8)],
        o => panic!("harness: question {}", o),
    }
}
fn ask(e: &J, q: &J) -> J {
    let r = catch_unwind(AssertUnwindSafe(|| if e.s("op") == "word" { word_ask(q.arr()) } else { per_block!(e.n("w"), e.n("us"), B => block_ask::<B>(q.arr(), e.n("us") + e.n("w"))) }));
    let mut o = vec![J::N(r.is_err() as i64)];
    if let Ok(v) = r { o.extend(v) }
    J::A(o)
}

// ---- block I/O ---------------------------------------------------------
/// A user's byte stream: at most `chunk` bytes a call, failing on demand.
#[derive(Default)]
struct Bytes { v: Vec<u8>, pos: usize, chunk: usize, left: Option<u64>, hic: bool, zero: bool }
impl Bytes {
    fn gate(&mut self, n: usize) -> std::io::Result<usize> {
        if self.hic { self.hic = false; return Err(Error::new(ErrorKind::Interrupted, "hiccup")) }
        let mut n = if self.chunk == 0 { n } else { n.min(self.chunk) };
        if let Some(k) = self.left { if k == 0 { return if self.zero { Ok(0) } else { Err(Error::new(ErrorKind::Other, "injected")) } } n = n.min(k as usize); }
        Ok(n)
    }
    fn took(&mut self, n: usize) { if let Some(k) = &mut self.left { *k -= n as u64 } }
}
impl Read for Bytes { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    let n = self.gate(b.len())?.min(self.v.len() - self.pos);
    b[..n].copy_from_slice(&self.v[self.pos..self.pos + n]); self.pos += n; self.took(n); Ok(n) } }
impl Write for Bytes {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = self.gate(b.len())?; self.v.extend(&b[..n]); self.took(n); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
enum Io { Mem(Vec<u8>, usize), User(Bytes) }
impl Io { fn len(&self) -> usize { match self { Io::Mem(v, _) => v.len(), Io::User(b) => b.v.len() } } fn from(&self, i: usize) -> Vec<i64> { match self { Io::Mem(v, _) => &v[i..], Io::User(b) => &b.v[i..] }.iter().map(|b| *b as i64).collect() } }

macro_rules! order { ($e:expr, $T:ident => $x:expr) => { match ($e.n("be"), $e.n("al")) { (1, 0) => { type $T = BigEndian; $x } (1, _) => { type $T = NetworkEndian; $x } (_, 0) => { type $T = LittleEndian; $x } _ => { type $T = NativeEndian; $x } } } }

fn io(cur: &mut Io, mut e: J) -> J {
    let before = cur.len();
    if let Io::User(b) = cur { b.left = e.get("f").map_or(None, |f| if f.num() < 0 { None } else { Some(f.num() as u64) }); b.hic = e.n("h") == 1; b.chunk = e.n("ch") as usize; b.zero = e.n("z") == 1 }
    match e.s("op") {
        "new" => *cur = if e.s("k") == "mem" { Io::Mem(vec![], 0) } else { Io::User(Bytes::default()) },
        "raw" => { let d: Vec<u8> = e.get("d").unwrap().arr().iter().map(|b| b.num() as u8).collect(); match cur { Io::Mem(v, _) => v.extend(d), Io::User(b) => b.v.extend(d) } }
        "put" => {
            let v = unbits(e.get("v").unwrap());
            let r = catch_unwind(AssertUnwindSafe(|| per_block!(e.n("w"), e.n("us"), B => order!(e, T => match cur { Io::Mem(s, _) => B::of64(v).write_block::<_, T>(s), Io::User(s) => B::of64(v).write_block::<_, T>(s) }))));
            e.set("p", J::N(match r { Ok(Ok(())) => 0, Ok(Err(_)) => 2, Err(_) => 1 }));
            e.set("d", J::ints(&cur.from(before)));
        }
        "get" => {
            let w = e.n("w") as usize;
            let r = catch_unwind(AssertUnwindSafe(|| per_block!(e.n("w"), e.n("us"), B => order!(e, T => match cur {
                Io::Mem(s, p) => { if e.n("al") == 0 { let mut c = Cursor::new(&s[..]); c.set_position(*p as u64); let r = <B as BlockType>::read_block::<_, T>(&mut c); *p = c.position() as usize; r }
                    else { let mut c = &s[*p..]; let r = <B as BlockType>::read_block::<_, T>(&mut c); *p = s.len() - c.len(); r } }
                Io::User(s) => <B as BlockType>::read_block::<_, T>(s) }).map(|b| b.to64()))));
            e.set("rd", J::N(match cur { Io::Mem(_, p) => *p, Io::User(b) => b.pos } as i64));
            let (p, x) = match r { Ok(Ok(x)) => (0, bits(x, w)), Ok(Err(_)) => (2, vec![]), Err(_) => (1, vec![]) };
            e.set("p", J::N(p)); e.set("x", J::ints(&x));
        }
        o => panic!("harness: op {}", o),
    }
    e.set("len", J::N(cur.len() as i64));
    e
}

// ---- generation --------------------------------------------------------
fn edge(g: &mut Rng) -> u64 { match g.below(6) { 0 => u64::MAX - g.below(140), 1 => (1u64 << g.below(64)).wrapping_add(g.below(5)).wrapping_sub(2), 2 => g.below(300), 3 => g.word(), _ => g.log() } }
fn oor(g: &mut Rng, w: u64) -> u64 { match g.below(6) { 0 => w, 1 => w + 1, 2 => u64::MAX - g.below(70), 3 => 1u64 << g.range(7, 63), _ => w + g.below(3 * w) } }
fn low(x: u64, w: usize) -> u64 { if w == 64 { x } else { x & ((1 << w) - 1) } }

fn block_question(g: &mut Rng, w: usize) -> J {
    let w6 = w as u64;
    let mut q = vec![];
    let names = ["nbits", "lg_nbits", "lg_nbits_mask", "div_nbits", "ceil_div_nbits", "checked_div_nbits", "checked_ceil_div_nbits", "mod_nbits", "mul_nbits", "last_block_bits", "address", "bit_index", "low_mask", "nth_mask", "get_bit", "with_bit", "get_bits", "with_bits", "ceil_lg", "floor_lg", "ceil_div"];
    let k = match g.below(8) { 0 | 1 => 16 + g.below(2) as usize, 2 => 20, 3 => 18 + g.below(2) as usize, 4 => 3 + g.below(7) as usize, _ => g.below(21) as usize };
    q.push(J::S(names[k].into()));
    match names[k] {
        "nbits" | "lg_nbits" | "lg_nbits_mask" => {}
        "mul_nbits" => q.push(u(edge(g) >> g.below(8))),
        "bit_index" => { q.push(u(edge(g) / w6)); q.push(u(g.below(w6))) }
        "low_mask" => q.push(u(g.below(w6 + 1))),
        "nth_mask" => q.push(u(g.below(w6))),
        "get_bit" | "with_bit" => { q.push(u(low(g.word(), w))); q.push(u(if g.chance(1, 5) { oor(g, w6) } else { g.below(w6) })); if k == 15 { q.push(J::N(g.below(2) as i64)) } }
        "get_bits" | "with_bits" => {
            q.push(u(low(g.word(), w)));
            let (s, c) = match g.below(8) { 0 => (g.below(w6 + 1), oor(g, w6)), 1 => (oor(g, w6), g.below(w6 + 1)), 2 => { let s = g.below(w6); (s, w6 - s + 1) } 3 => (w6, 0), 4 => { let s = g.below(w6 + 1); (s, w6 - s) } _ => { let s = g.below(w6 + 1); (s, g.below(w6 - s + 1)) } };
            q.push(u(s)); q.push(u(c)); if k == 17 { q.push(u(low(g.word(), w))) } }
        "ceil_lg" | "floor_lg" => q.push(u(low(edge(g), w))),
        "ceil_div" => { let n = low(edge(g), w); let d = match g.below(6) { 0 => 0, 1 => low(edge(g), w), 2 => n, 3 => low(n.wrapping_sub(1), w), _ => low(1 + g.below(20), w) }; q.push(u(n)); q.push(u(d)) }
        _ => q.push(u(edge(g))),
    }
    J::A(q)
}
fn near(g: &mut Rng, x: u64) -> u64 { let b = x.to_le_bytes(); let mut o = [0u8; 8]; for i in 0..8 { o[i] = match g.below(6) { 0 => b[i], 1 => b[i].wrapping_add(1), 2 => b[i].wrapping_sub(1), 3 => b[i] ^ 0x80, 4 => g.pick(&[0, 1, 0x7f, 0x80, 0x81, 0xff]), _ => g.next() as u8 } } u64::from_le_bytes(o) }
fn word_question(g: &mut Rng) -> J {
    let x = if g.bit() { g.word() } else { let z = g.word(); near(g, z) };
    match g.below(10) {
        0 => J::A(vec![J::S("count_ones".into()), u(x)]),
        1 => J::A(vec![J::S("u_nz8".into()), u(x)]),
        2 | 3 => { let y = near(g, x); J::A(vec![J::S("u_le8".into()), u(x), u(y)]) }
        4 | 5 => { let y = near(g, x); J::A(vec![J::S("le8".into()), u(x), u(y)]) }
        6 => { let r = g.below(64); J::A(vec![J::S("select1_raw".into()), u(x), u(r)]) }
        7 => { let r = match g.below(4) { 0 => 64 + g.below(400), 1 => edge(g), _ => x.count_ones() as u64 }; J::A(vec![J::S("select1".into()), u(x), u(r)]) }
        8 => { let r = g.below(x.count_ones() as u64 + 2); J::A(vec![J::S("select1".into()), u(x), u(r)]) }
        _ => if g.chance(1, 30) { J::A(vec![J::S("l8".into()), u(0)]) } else if g.chance(1, 30) { J::A(vec![J::S("h8".into()), u(0)]) } else { let r = g.below(70); J::A(vec![J::S("select1".into()), u(x), u(r)]) }
    }
}

fn emit(mut e: J, qs: Vec<J>, rec: &mut Recorder) {
    e.set("qs", J::A(qs.clone()));
    rec.cur(&e);
    let xs: Vec<J> = qs.iter().map(|q| ask(&e, q)).collect();
    e.set("xs", J::A(xs));
    rec.emit(&e);
}

fn record(profile: &str, mut g: Rng, shard: u64, rec: &mut Recorder) {
    match profile {
        "C14" => {
            // everything about 8-bit blocks that fits in a table, an eighth per shard
            let e8 = J::obj().with("op", J::S("block".into())).with("w", J::N(8)).with("us", J::N(0));
            for x in (0..256u64).filter(|x| x % 8 == shard % 8) {
                let mut qs = vec![];
                for s in 0..=8u64 { for c in 0..=8 - s { qs.push(J::A(vec![J::S("get_bits".into()), u(x), u(s), u(c)])); let v = low(g.next(), 8); qs.push(J::A(vec![J::S("with_bits".into()), u(x), u(s), u(c), u(v)])); } }
                for i in 0..8u64 { qs.push(J::A(vec![J::S("get_bit".into()), u(x), u(i)])); qs.push(J::A(vec![J::S("with_bit".into()), u(x), u(i), J::N(0)])); qs.push(J::A(vec![J::S("with_bit".into()), u(x), u(i), J::N(1)])); }
                qs.push(J::A(vec![J::S("ceil_lg".into()), u(x)])); qs.push(J::A(vec![J::S("floor_lg".into()), u(x)]));
                for d in (1..256u64).filter(|d| d % 4 == x / 8 % 4 || *d < 4 || *d > 250) { qs.push(J::A(vec![J::S("ceil_div".into()), u(x), u(d)])); }
                for n in ["div_nbits", "ceil_div_nbits", "checked_div_nbits", "checked_ceil_div_nbits", "mod_nbits", "last_block_bits", "address", "mul_nbits"] { qs.push(J::A(vec![J::S(n.into()), u(x)])); qs.push(J::A(vec![J::S(n.into()), u(u64::MAX - x)])); }
                emit(e8.clone(), qs, rec);
            }
            while rec.left > 0 {
                let (w, us) = g.pick(&WS);
                let qs = (0..40).map(|_| block_question(&mut g, w)).collect();
                emit(J::obj().with("op", J::S("block".into())).with("w", J::N(w as i64)).with("us", J::N(us)), qs, rec);
            }
        }
        "C15" => {
            let e = J::obj().with("op", J::S("word".into())).with("w", J::N(64)).with("us", J::N(0));
            // every pair of lanes (in varying company), an eighth per shard
            for x in (0..256u64).filter(|x| x % 8 == shard % 8) {
                let mut qs = vec![];
                for y0 in 0..32u64 {
                    let rot = g.below(8) as usize;
                    let (mut a, mut b) = ([0u8; 8], [0u8; 8]);
                    for j in 0..8 { a[(j + rot) % 8] = x as u8; b[(j + rot) % 8] = (y0 * 8 + j as u64) as u8; }
                    let (mut a, mut b) = (u64::from_le_bytes(a), u64::from_le_bytes(b));
                    if g.chance(1, 2) { let k = 8 * g.below(8); a ^= (g.next() & 255) << k; b ^= (g.next() & 255) << k }
                    qs.push(J::A(vec![J::S("u_le8".into()), u(a), u(b)])); qs.push(J::A(vec![J::S("le8".into()), u(a), u(b)]));
                    if g.chance(1, 2) { qs.push(J::A(vec![J::S("u_le8".into()), u(b), u(a)])) } else { qs.push(J::A(vec![J::S("le8".into()), u(b), u(a)])) }
                }
                let k = 8 * g.below(8);
                qs.push(J::A(vec![J::S("u_nz8".into()), u(x << k)])); qs.push(J::A(vec![J::S("u_nz8".into()), u(!(x << k))]));
                qs.push(J::A(vec![J::S("count_ones".into()), u(x << k)])); qs.push(J::A(vec![J::S("count_ones".into()), u(!(x << k))]));
                for r in 0..9 { qs.push(J::A(vec![J::S("select1".into()), u(x << k), u(r)])); qs.push(J::A(vec![J::S("select1".into()), u(!(x << k)), u(56 + r)])); }
                emit(e.clone(), qs, rec);
            }
            while rec.left > 0 { let qs = (0..40).map(|_| word_question(&mut g)).collect(); emit(e.clone(), qs, rec); }
        }
        _ => {
            let mut cur = Io::Mem(vec![], 0);
            while rec.left > 0 {
                let kind = if g.chance(1, 3) { "mem" } else { "user" };
                let mut go = |cur: &mut Io, j: J, rec: &mut Recorder| { rec.cur(&j); let e = io(cur, j); rec.emit(&e); e.n("p") };
                go(&mut cur, J::obj().with("op", J::S("new".into())).with("k", J::S(kind.into())), rec);
                let mut queue = std::collections::VecDeque::new();
                let faults = g.pick(&[0, 5, 25]);
                for _ in 0..g.range(5, 50) {
                    let (w, us) = g.pick(&WS);
                    let al = g.below(2) as i64;
                    let be = if al == 1 { g.below(2) } else { g.below(2) } as i64;
                    let mut tune = |g: &mut Rng, j: J| { let f = if kind == "user" && g.chance(faults, 100) { g.below(10) as i64 } else { -1 };
                        j.with("f", J::N(f)).with("z", J::N(g.below(2) as i64)).with("h", J::N((kind == "user" && g.chance(1, 12)) as i64)).with("ch", J::N(g.pick(&[0, 0, 1, 2, 3, 5]))) };
                    match g.below(9) {
                        0..=3 => {
                            let j = J::obj().with("op", J::S("put".into())).with("w", J::N(w as i64)).with("us", J::N(us)).with("be", J::N(be)).with("al", J::N(al)).with("v", jbits(g.word(), w));
                            let j = tune(&mut g, j); if go(&mut cur, j, rec) == 0 { queue.push_back((w, us, be, al)) } else { queue.clear() } }
                        4..=6 => { let (w, us, be, al) = if g.chance(5, 6) { queue.pop_front().unwrap_or((w, us, be, al)) } else { (w, us, be, al) };
                            let j = J::obj().with("op", J::S("get".into())).with("w", J::N(w as i64)).with("us", J::N(us)).with("be", J::N(be)).with("al", J::N(al)); let j = tune(&mut g, j); go(&mut cur, j, rec); }
                        7 => { let d: Vec<i64> = (0..g.below(9)).map(|_| (g.next() & 255) as i64).collect(); queue.clear(); go(&mut cur, J::obj().with("op", J::S("raw".into())).with("d", J::ints(&d)), rec); }
                        _ => { let j = J::obj().with("op", J::S("get".into())).with("w", J::N(w as i64)).with("us", J::N(us)).with("be", J::N(be)).with("al", J::N(al)); let j = tune(&mut g, j); go(&mut cur, j, rec); }
                    }
                }
            }
        }
    }
}

fn replay(ops: Vec<J>, rec: &mut Recorder) {
    let mut cur = Io::Mem(vec![], 0);
    for o in ops {
        if o.get("qs").is_some() { let qs = o.get("qs").unwrap().arr().to_vec(); emit(o, qs, rec) } else { rec.cur(&o); let e = io(&mut cur, o); rec.emit(&e) }
    }
}

fn main() { main_with(record, replay) }
