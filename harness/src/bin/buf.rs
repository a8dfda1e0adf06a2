//! Histories over bit buffers on every kind of store (BufTrace).
use harness::blk::*;
use harness::json::J;
use harness::op::*;
use harness::per_block;
use harness::rng::Rng;
use harness::run::*;
use harness::users::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use succinct::bit_vec::{BitSlice, BitVec, BitVecMut, BitVecPush, BitVector};
use succinct::int_vec::{IntVec, IntVector};
use succinct::coding::{Comma, Fibonacci, Lift0, Omega, UniversalCode, Unary, COMMA, DELTA, GAMMA};
use succinct::stream::{BitBuffer, BitRead, BitWrite};

#[global_allocator]
static ALLOC: harness::alloc::Counting = harness::alloc::Counting;

type Res = Result<Result<Vec<i64>, ()>, ()>; // panicked / io error / result

trait Buf {
    fn lens(&self) -> (u64, u64, usize);
    fn dump(&self) -> Vec<i64>;
    fn read(&mut self) -> Result<Vec<i64>, ()>;
    fn seek(&mut self, p: u64) -> Result<Vec<i64>, ()>;
    fn get(&self, o: &J) -> Vec<i64>;
    fn set(&mut self, o: &J);
    fn write(&mut self, x: bool) -> Result<Vec<i64>, ()>;
    fn take(&mut self, e: &J) -> Got;
    fn give(&mut self, e: &J) -> Result<(), ()>;
    fn reopen(self: Box<Self>, append: bool) -> Box<dyn Buf>;
    fn dup(&self) -> Box<dyn Buf>;
    /// clone_from another of the same type
    fn copy(&mut self, o: &dyn Buf);
    fn any(&self) -> &dyn std::any::Any;
    fn wr(&self) -> u8; // 0 read only, 1 also set, 2 also push
    fn w(&self) -> usize;
}

fn lens<T: BitVec>(b: &BitBuffer<T>) -> (u64, u64, usize) { assert_eq!(b.bit_len(), b.inner().bit_len()); (b.position(), b.bit_len(), b.block_len()) }
fn rd<T: BitVec>(b: &mut BitBuffer<T>) -> Result<Vec<i64>, ()> { b.read_bit().map(|o| o.map_or(vec![], |x| vec![x as i64])).map_err(|_| ()) }
fn sk<T: BitVec>(b: &mut BitBuffer<T>, p: u64) -> Result<Vec<i64>, ()> { b.seek(p).map(|_| vec![]).map_err(|_| ()) }
/// Integers and codewords at the cursor.
macro_rules! ints { ($($t:ident),*) => {
    const TYPES: &[&str] = &[$(stringify!($t)),*];
    fn width(t: &str) -> usize { match t { $(stringify!($t) => 8 * std::mem::size_of::<$t>(),)* _ => panic!("harness: type") } }
    fn wint<T: BitVecPush>(s: &mut BitBuffer<T>, t: &str, n: usize, be: bool, v: u64) -> std::io::Result<()> { match t { $(stringify!($t) => if be { s.write_int_be(n, v as $t) } else { s.write_int(n, v as $t) },)* _ => panic!("harness: type") } }
    fn rint<T: BitVec>(s: &mut BitBuffer<T>, t: &str, n: usize, be: bool) -> std::io::Result<Option<u64>> { match t { $(stringify!($t) => if be { s.read_int_be::<$t>(n) } else { s.read_int::<$t>(n) }.map(|o| o.map(|v| v as u64)),)* _ => panic!("harness: type") } }
} }
ints!(u8, u16, u32, u64, i8, i64);
macro_rules! codes { ($($name:expr => $code:expr),* $(,)?) => {
    const CODES: &[&str] = &[$($name),*];
    fn enc<T: BitVecPush>(s: &mut BitBuffer<T>, c: &str, v: u64) -> std::io::Result<()> { match c { $($name => $code.encode(s, v),)* _ => panic!("harness: code {}", c) } }
    fn dec<T: BitVec>(s: &mut BitBuffer<T>, c: &str) -> std::io::Result<Option<u64>> { match c { $($name => $code.decode(s),)* _ => panic!("harness: code {}", c) } }
} }
codes! { "unary" => Unary, "elias(unary)" => GAMMA, "elias(lift0(elias(unary)))" => DELTA, "omega" => Omega, "fib" => Fibonacci, "comma2" => COMMA, "comma5" => Comma(5), "lift0(elias(unary))" => Lift0(GAMMA) }
/// A code's term, and back.
fn jterm(s: &str) -> J {
    if let Some(r) = s.strip_prefix("elias(") { J::A(vec![J::S("elias".into()), jterm(&r[..r.len() - 1])]) }
    else if let Some(r) = s.strip_prefix("lift0(") { J::A(vec![J::S("lift0".into()), jterm(&r[..r.len() - 1])]) }
    else if let Some(n) = s.strip_prefix("comma") { J::A(vec![J::S("comma".into()), J::N(n.parse().unwrap())]) }
    else { J::A(vec![J::S(s.into())]) }
}
fn term(j: &J) -> String { let a = j.arr(); match a[0].str() { "comma" => format!("comma{}", a[1].num()), s if a.len() > 1 => format!("{}({})", s, term(&a[1])), s => s.into() } }
type Got = Result<Option<u64>, ()>;
fn take<T: BitVec>(s: &mut BitBuffer<T>, e: &J) -> Got { if e.s("op") == "rint" { rint(s, e.s("t"), arg(e, 0) as usize, arg(e, 1) == 1) } else { dec(s, &term(e.get("c").unwrap())) }.map_err(|_| ()) }
fn give<T: BitVecPush>(s: &mut BitBuffer<T>, e: &J) -> Result<(), ()> { if e.s("op") == "wint" { wint(s, e.s("t"), arg(e, 0) as usize, arg(e, 1) == 1, val(e, 2)) } else { enc(s, &term(e.get("c").unwrap()), unwide(e.get("v").unwrap()) as u64) }.map_err(|_| ()) }

fn gt<T: BitVec>(b: &BitBuffer<T>, o: &J) -> Vec<i64> where T::Block: Blk {
    let w = <T::Block as Blk>::W;
    match o.s("op") { "get_bit" => vec![b.get_bit(arg(o, 0)) as i64], "get_bits" => bits(b.get_bits(arg(o, 0), arg(o, 1) as usize).to64(), w), _ => bits(b.get_block(arg(o, 0) as usize).to64(), w) }
}
fn st<T: BitVecMut>(b: &mut BitBuffer<T>, o: &J) where T::Block: Blk {
    match o.s("op") { "set_bit" => b.set_bit(arg(o, 0), arg(o, 1) == 1), "set_bits" => b.set_bits(arg(o, 0), arg(o, 1) as usize, T::Block::of64(val(o, 2))), _ => b.set_block(arg(o, 0) as usize, T::Block::of64(val(o, 1))) }
}
fn re<T: BitVec>(b: BitBuffer<T>, append: bool) -> BitBuffer<T> { let v = b.into_inner(); if append { BitBuffer::append(v) } else { BitBuffer::from(v) } }

struct P<T>(BitBuffer<T>); struct M<T>(BitBuffer<T>); struct R<T>(BitBuffer<T>);
macro_rules! common { ($S:ident) => {
    fn lens(&self) -> (u64, u64, usize) { lens(&self.0) }
    fn dump(&self) -> Vec<i64> { dump_bits(self.0.inner()) }
    fn read(&mut self) -> Result<Vec<i64>, ()> { rd(&mut self.0) }
    fn seek(&mut self, p: u64) -> Result<Vec<i64>, ()> { sk(&mut self.0, p) }
    fn take(&mut self, e: &J) -> Got { take(&mut self.0, e) }
    fn get(&self, o: &J) -> Vec<i64> { gt(&self.0, o) }
    fn reopen(self: Box<Self>, append: bool) -> Box<dyn Buf> { Box::new($S(re(self.0, append))) }
    fn dup(&self) -> Box<dyn Buf> { Box::new($S(self.0.clone())) }
    fn copy(&mut self, o: &dyn Buf) { self.0.clone_from(&o.any().downcast_ref::<Self>().expect("harness: another buffer").0) }
    fn any(&self) -> &dyn std::any::Any { self }
    fn w(&self) -> usize { <T::Block as Blk>::W }
} }
fn no() -> ! { panic!("harness: read-only buffer") }
impl<T: BitVecPush + BitVecMut + Clone + 'static> Buf for P<T> where T::Block: Blk {
    common!(P);
    fn set(&mut self, o: &J) { st(&mut self.0, o) }
    fn write(&mut self, x: bool) -> Result<Vec<i64>, ()> { self.0.write_bit(x).map(|_| vec![]).map_err(|_| ()) }
    fn give(&mut self, e: &J) -> Result<(), ()> { give(&mut self.0, e) }
    fn wr(&self) -> u8 { 2 }
}
impl<T: BitVecMut + Clone + 'static> Buf for M<T> where T::Block: Blk {
    common!(M);
    fn set(&mut self, o: &J) { st(&mut self.0, o) }
    fn write(&mut self, _: bool) -> Result<Vec<i64>, ()> { no() }
    fn give(&mut self, _: &J) -> Result<(), ()> { no() }
    fn wr(&self) -> u8 { 1 }
}
impl<T: BitVec + Clone + 'static> Buf for R<T> where T::Block: Blk {
    common!(R);
    fn set(&mut self, _: &J) { no() }
    fn write(&mut self, _: bool) -> Result<Vec<i64>, ()> { no() }
    fn give(&mut self, _: &J) -> Result<(), ()> { no() }
    fn wr(&self) -> u8 { 0 }
}

fn make(e: &J) -> Box<dyn Buf> {
    let b = bools(&e.get("a").unwrap().arr()[0]);
    let app = e.s("op") == "append";
    let (w, us, vw) = (e.n("w"), e.n("us"), e.n("vw"));
    fn mk<T: BitVec>(v: T, app: bool) -> BitBuffer<T> { if app { BitBuffer::append(v) } else { BitBuffer::from(v) } }
    fn bv<B: Blk>(b: &[bool]) -> BitVector<B> { let mut v = BitVector::new(); for x in b { v.push_bit(*x) } v }
    fn blocks<B: Blk>(b: &[bool]) -> Vec<B> { b.chunks(B::W).map(|c| B::of64(c.iter().enumerate().fold(0, |x, (i, b)| x | (*b as u64) << i))).collect() }
    match e.s("k") {
        "bv" => per_block!(w, us, B => if b.is_empty() && vw % 3 == 0 { Box::new(P(BitBuffer::<BitVector<B>>::new())) } else if b.is_empty() && vw % 3 == 1 { Box::new(P(BitBuffer::<BitVector<B>>::with_capacity(vw as u64 % 100))) } else { Box::new(P(mk(bv::<B>(&b), app))) }),
        "bools" => Box::new(P(mk(b, app))),
        "obits" => per_block!(w, us, B => Box::new(P(mk(OnlyBits::<B>::new(b), app)))),
        "oblk" => per_block!(w, us, B => Box::new(M(mk(OnlyBlocks::<B>::new(&b, vw as u64 * 0x12345678901), app)))),
        "iv" => per_block!(w, us, B => { let mut v = IntVector::<B>::new(1 + vw as usize % B::W); let eb = v.element_bits(); for c in b.chunks(eb) { v.push(B::of64(c.iter().enumerate().fold(0, |x, (i, b)| x | (*b as u64) << i))) } Box::new(M(mk(v, app))) }),
        "blocks" => per_block!(w, us, B => Box::new(M(mk(blocks::<B>(&b), app)))),
        "prim" => per_block!(w, us, B => Box::new(M(mk(blocks::<B>(&b)[0], app)))),
        "buf" => per_block!(w, us, B => Box::new(M(mk(BitBuffer::from(bv::<B>(&b)), app)))),
        "slice" => per_block!(w, us, B => { let v: &'static BitVector<B> = Box::leak(Box::new({ let mut x = vec![true; 3]; x.extend(&b); x.push(true); bv::<B>(&x) })); Box::new(R(mk(BitSlice::new(v, 3..3 + b.len() as u64), app))) }),
        k => panic!("harness: kind {}", k),
    }
}

static CLONES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn perform(cur: &mut Option<Box<dyn Buf>>, mut e: J, dump: bool) -> J {
    let op = e.s("op").to_string();
    let mut ended: Result<Vec<i64>, ()> = Ok(vec![]);
    if op == "enc" {
        // the codeword alone, from a sink of its own
        let mut own = BitBuffer::from(vec![]);
        let r = catch_unwind(AssertUnwindSafe(|| give(&mut own, &e)));
        e.set("full", J::ints(&if let Ok(Ok(())) = r { dump_bits(own.inner()) } else { vec![] }));
    }
    let res: Res = catch_unwind(AssertUnwindSafe(|| {
        if op == "open" || op == "append" { *cur = Some(make(&e)); return Ok(vec![]); }
        if op == "reopen" || op == "reappend" { let c = cur.take().unwrap(); *cur = Some(c.reopen(op == "reappend")); return Ok(vec![]); }
        if op == "clone" { let mut o = cur.take().unwrap(); *cur = Some(o.dup()); let _ = o.read(); if o.wr() == 2 { let _ = o.write(true); let _ = o.seek(0); let _ = o.write(false); }
            // every other time, copied back over what became of the original
            if CLONES.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 2 == 1 { o.copy(&**cur.as_ref().unwrap()); *cur = Some(o); }
            return Ok(vec![]); }
        let b = cur.as_mut().unwrap();
        match &op[..] {
            "rint" => { ended = b.take(&e).map(|o| o.map_or(vec![-1], |v| bits(v, width(e.s("t"))))); return ended.clone() }
            "dec" => { ended = b.take(&e).map(|o| o.map_or(vec![-1], |v| wide(v as u128).arr().iter().map(|d| d.num()).collect())); return ended.clone() }
            "enc" | "wint" => {
                let from = b.lens().0;
                b.give(&e)?;
                let d = b.dump();
                return Ok(if op == "wint" { vec![] } else { d[(from as usize).min(d.len())..(b.lens().0 as usize).min(d.len())].to_vec() });
            }
            "read" => b.read(), "write" => b.write(arg(&e, 0) == 1), "seek" => b.seek(arg(&e, 0)),
            "get_bit" | "get_bits" | "get_block" => Ok(b.get(&e)),
            _ => { b.set(&e); Ok(vec![]) }
        }
    })).map_err(|_| ());
    let (p, x) = match res { Ok(Ok(x)) => (0, x), Ok(Err(())) => (2, vec![]), Err(()) => (1, vec![]) };
    let (p, x) = if p == 0 && ended == Ok(vec![-1]) { (3, vec![]) } else { (p, x) };
    e.set("p", J::N(p)); e.set("x", J::ints(&x));
    let obs = catch_unwind(AssertUnwindSafe(|| { let c = cur.as_ref().unwrap(); (c.lens(), if dump { c.dump() } else { vec![] }) }));
    match obs {
        Ok(((pos, n, nb), d)) => { e.set("pos", J::N(cap(pos))); e.set("n", J::N(cap(n))); e.set("nb", J::N(cap(nb as u64))); e.set("hd", J::N(dump as i64)); e.set("d", J::ints(&d)); }
        Err(_) => { for k in ["pos", "n", "nb"] { e.set(k, J::N(-1)) } e.set("hd", J::N(0)); e.set("d", J::ints(&[])); }
    }
    e
}

fn record(gen: &str, mut g: Rng, _: u64, rec: &mut Recorder) {
    let mut cur: Option<Box<dyn Buf>> = None;
    while rec.left > 0 {
        let (w, us) = g.pick(&WS); let w6 = w as u64;
        let max = if gen == "C10" || gen == "C11" { 300 } else { match g.below(10) { 0..=5 => 3 * w6 + 2, 6 | 7 => 10 * w6, 8 => 700, _ => 2500 } };
        let k = g.pick(&["bv", "bv", "bv", "bools", "obits", "oblk", "iv", "blocks", "prim", "buf", "slice"]);
        let vw = g.below(1 << 20);
        let mut n = match g.below(5) { 0 => 0, 1 => g.below(4), 2 => { let k = g.below(max / w6 + 1) * w6; (k + g.below(3)).saturating_sub(1) } _ => g.below(max) };
        match k { "prim" => n = w6, "blocks" => n = n / w6 * w6, "iv" => { let eb = 1 + vw % w6; n = n / eb * eb } _ => {} }
        let (w, us) = if k == "bools" { (8, 0) } else { (w, us) };
        let mut b = vec![]; while (b.len() as u64) < n { let x = g.word(); for i in 0..64 { b.push(x >> i & 1 == 1) } } b.truncate(n as usize);
        let app = g.bit() && !(k == "bv" && n == 0);
        let mut o = Op::new(if app { "append" } else { "open" }, 0).bits(&b).set("w", w as i64).set("us", us).set("vw", vw as i64);
        o.j.set("k", J::S(k.into()));
        let dmp = if max > 600 { 12 } else { 1 };
        let mut go = |cur: &mut Option<Box<dyn Buf>>, o: Op, d: bool, rec: &mut Recorder| { let j = o.done(); rec.cur(&j); let e = perform(cur, j, d); rec.emit(&e); };
        go(&mut cur, o, true, rec);
        for i in 0..g.range(20, 110) {
            let (pos, n, nb, wr) = { let c = cur.as_ref().unwrap(); match catch_unwind(AssertUnwindSafe(|| c.lens())) { Ok(l) => (l.0, l.1.min(100_000), l.2.min(100_000) as u64, c.wr()), Err(_) => break } };
            let w6 = w as u64; let oor = 8;
            let mut deed = match gen { "C09" => if g.chance(1, 8) { 1 + g.below(2) } else { 0 }, "C18" => if g.chance(1, 2) { 1 } else { 0 }, _ => if g.chance(1, 2) { 2 } else { 0 } };
            if n > max && g.bit() { deed = 0 }
            if deed > 0 {
                let give = wr == 2 && g.bit();
                if !give && pos >= n && g.chance(4, 5) { go(&mut cur, Op::new("seek", 0).n(g.below(n + 1)), false, rec); }
                let o = if deed == 1 {
                    let t = g.pick(TYPES); let tw = width(t) as u64;
                    let k = match g.below(4) { 0 => tw, 1 => w6.min(tw), 2 => g.below(3), _ => g.below(tw + 1) };
                    let v = g.word();
                    let o = Op::new(if give { "wint" } else { "rint" }, 0).n(k).n(g.below(2));
                    let mut o = if give { o.v(v, tw as usize) } else { o };
                    o.j.set("t", J::S(t.into())); o.j.set("tw", J::N(tw as i64)); o
                } else {
                    let c = g.pick(CODES);
                    let mut o = Op::new(if give { "enc" } else { "dec" }, 0);
                    o.j.set("c", jterm(c));
                    if give { let v = if c == "unary" { g.below(90) } else { match g.below(4) { 0 => g.below(4), 1 => g.below(100), 2 => { let k = g.below(60); (1u64 << k) + g.below(2) - 1 } _ => { let k = g.below(58); g.next() >> (6 + k) } } }; o.j.set("v", wide(v as u128)); }
                    o
                };
                go(&mut cur, o, i % dmp == 0, rec);
                // look at it again
                if give && g.chance(2, 3) { let p = cur.as_ref().map_or(0, |c| catch_unwind(AssertUnwindSafe(|| c.lens().0)).unwrap_or(0)); let to = if g.bit() { pos.min(p) } else { g.below(p + 1) }; go(&mut cur, Op::new("seek", 0).n(to), false, rec); }
                continue;
            }
            let o = match g.below(24) {
                0..=4 => Op::new("read", 0),
                5..=11 if wr == 2 && (n < max || pos < n) => Op::new("write", 0).n(g.below(2)),
                12..=15 => { let p = match g.below(6) { 0 => n, 1 => n + 1, 2 => 0, 3 => g.beyond(n, w6, 1), _ => g.pos(n + 1, w6) }; Op::new("seek", 0).n(p) }
                16 => if g.bit() { Op::new("reopen", 0) } else { Op::new("reappend", 0) },
                17 => if g.bit() { Op::new("clone", 0) } else { Op::new("read", 0) },
                18 => { let i = g.at(n, w6, 1, oor); Op::new("get_bit", 0).n(i) }
                19 => { let (s, c) = g.span(n, w6, oor); Op::new("get_bits", 0).n(s).n(c) }
                20 => { let i = g.at(nb, 1, w6, oor); Op::new("get_block", 0).n(i) }
                21 if wr > 0 => { let i = g.at(n, w6, 1, oor); Op::new("set_bit", 0).n(i).n(g.below(2)) }
                22 if wr > 0 => { let (s, c) = g.span(n, w6, oor); let v = g.word(); Op::new("set_bits", 0).n(s).n(c).v(v, w) }
                23 if wr > 0 => { let i = g.at(nb, 1, w6, oor); let v = g.word(); Op::new("set_block", 0).n(i).v(v, w) }
                _ => Op::new("read", 0),
            };
            go(&mut cur, o, i % dmp == 0, rec);
        }
    }
}

fn replay(ops: Vec<J>, rec: &mut Recorder) {
    let mut cur = None;
    for o in ops { rec.cur(&o); let d = o.n("hd") == 1; let e = perform(&mut cur, o, d); rec.emit(&e); }
}

fn main() { main_with(record, replay) }
