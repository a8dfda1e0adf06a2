//! Codes on streams too long to keep as bits (LongTrace).
use harness::blk::*;
use harness::json::J;
use harness::rng::Rng;
use harness::run::*;
use std::collections::VecDeque;
use std::io::{Error, ErrorKind, Result};
use std::panic::{catch_unwind, AssertUnwindSafe};
use succinct::bit_vec::{BitVec, BitVector};
use succinct::coding::*;
use succinct::stream::{BitBuffer, BitRead, BitWrite};

#[global_allocator]
static ALLOC: harness::alloc::Counting = harness::alloc::Counting;

/// A user's stream that keeps runs of equal bits: the one being read, those
/// after it, and the one being written (all that this call wrote: `log`).
#[derive(Default)]
struct Runs { head: (bool, u64), v: VecDeque<(bool, u64)>, all: u64, pos: u64, fails: bool, left: u64, log: Vec<(bool, u64)>, last: (bool, u64) }
fn join(v: &mut Vec<(bool, u64)>, x: bool) { match v.last_mut() { Some(r) if r.0 == x => r.1 += 1, _ => v.push((x, 1)) } }
impl Runs {
    #[inline(always)] fn tick(&mut self) -> Result<()> { if self.fails { self.tock() } else { Ok(()) } }
    #[cold] fn tock(&mut self) -> Result<()> { if self.left == 0 { self.fails = false; Err(Error::new(ErrorKind::Other, "injected")) } else { self.left -= 1; Ok(()) } }
    #[cold] fn next(&mut self) -> Option<bool> { while self.head.1 == 0 { self.head = self.v.pop_front()?; } Some(self.head.0) }
    #[cold] fn turn(&mut self, x: bool) { if self.last.1 > 0 { self.log.push(self.last) } self.last = (x, 0) }
    /// Pass on what a call wrote.
    fn settle(&mut self) { self.turn(false); for r in &self.log { self.v.push_back(*r); self.all += r.1 } }
}
impl BitRead for Runs {
    #[inline]
    fn read_bit(&mut self) -> Result<Option<bool>> {
        self.tick()?;
        if self.head.1 == 0 && self.next().is_none() { return Ok(None) }
        self.head.1 -= 1;
        self.pos += 1;
        Ok(Some(self.head.0))
    }
}
impl BitWrite for Runs {
    #[inline]
    fn write_bit(&mut self, x: bool) -> Result<()> {
        self.tick()?;
        if self.last.0 != x { self.turn(x) }
        self.last.1 += 1;
        Ok(())
    }
}

enum Stream { Deque(VecDeque<bool>, u64), B8(BitBuffer<BitVector<u8>>, u64), B64(BitBuffer<BitVector<u64>>, u64), Bools(BitBuffer<Vec<bool>>, u64), Runs(Runs) }
macro_rules! on { ($s:expr, $x:ident => $e:expr) => { match $s { Stream::Deque($x, _) => $e, Stream::B8($x, _) => $e, Stream::B64($x, _) => $e, Stream::Bools($x, _) => $e, Stream::Runs($x) => $e } } }
impl Stream {
    fn new(k: &str) -> Stream { match k {
        "deque" => Stream::Deque(VecDeque::new(), 0), "b8" => Stream::B8(BitBuffer::new(), 0), "b64" => Stream::B64(BitBuffer::new(), 0),
        "bools" => Stream::Bools(BitBuffer::from(vec![]), 0), "runs" => Stream::Runs(Runs::default()), k => panic!("harness: stream {}", k) } }
    fn len(&self) -> u64 { match self { Stream::Deque(d, r) => r + d.len() as u64, Stream::B8(b, _) => b.bit_len(), Stream::B64(b, _) => b.bit_len(), Stream::Bools(b, _) => b.bit_len(), Stream::Runs(u) => u.all } }
    fn rd(&self) -> u64 { match self { Stream::Deque(_, r) => *r, Stream::B8(_, r) => *r, Stream::B64(_, r) => *r, Stream::Bools(_, r) => *r, Stream::Runs(u) => u.pos } }
    /// What this call wrote, from position i on.
    fn wrote(&self, i: u64) -> Vec<(bool, u64)> {
        fn f<T: BitVec>(b: &BitBuffer<T>, i: u64) -> Vec<(bool, u64)> { let mut v = vec![]; for j in i..b.inner().bit_len() { join(&mut v, b.inner().get_bit(j)) } v }
        match self { Stream::Deque(d, r) => { let mut v = vec![]; for x in d.iter().skip((i - r) as usize) { join(&mut v, *x) } v } Stream::B8(b, _) => f(b, i), Stream::B64(b, _) => f(b, i), Stream::Bools(b, _) => f(b, i), Stream::Runs(u) => u.log.clone() } }
    fn before_write(&mut self) { let n = self.len(); match self { Stream::B8(b, _) => b.seek(n).expect("harness: seek"), Stream::B64(b, _) => b.seek(n).expect("harness: seek"), Stream::Bools(b, _) => b.seek(n).expect("harness: seek"), Stream::Runs(u) => u.log.clear(), _ => () } }
    fn before_read(&mut self) { match self { Stream::B8(b, r) => b.seek(*r).expect("harness: seek"), Stream::B64(b, r) => b.seek(*r).expect("harness: seek"), Stream::Bools(b, r) => b.seek(*r).expect("harness: seek"), _ => () } }
    fn after_read(&mut self, total: u64) { match self { Stream::Deque(d, r) => *r = total - d.len() as u64, Stream::B8(b, r) => *r = b.position(), Stream::B64(b, r) => *r = b.position(), Stream::Bools(b, r) => *r = b.position(), _ => () } }
    fn arm(&mut self, e: &J) { if let Stream::Runs(u) = self { let f = e.get("f").map(|f| f.arr()).unwrap_or(&[]); u.fails = !f.is_empty(); if u.fails { u.left = unwide(&f[0]) as u64 } } }
    fn disarm(&mut self) { if let Stream::Runs(u) = self { u.fails = false } }
    fn after_write(&mut self) { self.disarm(); if let Stream::Runs(u) = self { u.settle() } }
}

fn term(j: &J) -> String { let a = j.arr(); match a[0].str() { t @ ("unary" | "omega" | "fib") => t.into(), "comma" => format!("comma{}", a[1].num()), t => format!("{}({})", t, term(&a[1])) } }
macro_rules! codes { ($($name:expr => $code:expr),* $(,)?) => {
    fn enc(c: &str, s: &mut Stream, v: u64) -> Result<()> { match c { $($name => on!(s, x => $code.encode(x, v)),)* _ => panic!("harness: code {}", c) } }
    fn dec(c: &str, s: &mut Stream) -> Result<Option<u64>> { match c { $($name => on!(s, x => $code.decode(x)),)* _ => panic!("harness: code {}", c) } }
} }
codes! {
    "unary" => Unary, "lift0(unary)" => Lift0(Unary), "lift0(lift0(unary))" => Lift0(Lift0(Unary)), "elias(unary)" => GAMMA, "lift0(elias(unary))" => Lift0(GAMMA), "elias(lift0(unary))" => Elias(Lift0(Unary)),
    "elias(lift0(elias(unary)))" => DELTA, "omega" => Omega, "fib" => Fibonacci, "comma2" => COMMA, "comma3" => Comma(3), "comma8" => Comma(8), "comma33" => Comma(33), "comma63" => Comma(63),
    "lift0(comma2)" => Lift0(COMMA), "elias(comma2)" => Elias(COMMA),
}
fn runs(v: &[(bool, u64)]) -> J { J::A(v.iter().map(|r| J::A(vec![J::N(r.0 as i64), wide(r.1 as u128)])).collect()) }

fn perform(cur: &mut Stream, mut e: J) -> J {
    let op = e.s("op").to_string();
    let before = cur.len();
    match &op[..] {
        "new" => *cur = Stream::new(e.s("k")),
        "feed" => {
            cur.before_write();
            for r in e.get("d").unwrap().arr() {
                let (x, n) = (r.arr()[0].num() == 1, unwide(&r.arr()[1]) as u64);
                match &mut *cur { Stream::Runs(u) => { u.v.push_back((x, n)); u.all += n }
                            s => for _ in 0..n { on!(&mut *s, y => y.write_bit(x)).expect("harness: feed") } }
            }
        }
        "enc" => {
            let (c, v) = (term(e.get("c").unwrap()), unwide(e.get("v").unwrap()) as u64);
            cur.before_write(); cur.arm(&e);
            let r = catch_unwind(AssertUnwindSafe(|| enc(&c, cur, v)));
            cur.after_write();
            let d = runs(&cur.wrote(before));
            let p = match r { Ok(Ok(())) => 0, Ok(Err(_)) => 2, Err(_) => 1 };
            // what a sink that works is given
            let full = if p == 0 && matches!(cur, Stream::Runs(_)) { d.clone() } else {
                let mut u = Stream::new("runs");
                let ok = matches!(catch_unwind(AssertUnwindSafe(|| enc(&c, &mut u, v))), Ok(Ok(())));
                u.after_write();
                runs(&if ok { u.wrote(0) } else { vec![] })
            };
            e.set("full", full); e.set("p", J::N(p)); e.set("d", d);
        }
        "dec" | "rint" => {
            cur.before_read(); cur.arm(&e);
            let r = catch_unwind(AssertUnwindSafe(|| match &op[..] {
                "dec" => dec(&term(e.get("c").unwrap()), cur),
                _ => { let (n, be) = (e.n("n") as usize, e.n("be") == 1);
                    macro_rules! ri { ($t:ident) => { on!(&mut *cur, x => if be { x.read_int_be::<$t>(n) } else { x.read_int::<$t>(n) }).map(|o| o.map(|v| v as u64)) } }
                    match e.s("t") { "u8" => ri!(u8), "u16" => ri!(u16), t => panic!("harness: type {}", t) } }
            }));
            cur.disarm(); cur.after_read(before);
            let (p, x) = match r { Ok(Ok(Some(x))) => (0, x), Ok(Ok(None)) => (3, 0), Ok(Err(_)) => (2, 0), Err(_) => (1, 0) };
            e.set("p", J::N(p));
            e.set("x", if p != 0 { J::ints(&[]) } else if op == "dec" { wide(x as u128) } else { jbits(x, e.n("w") as usize) });
        }
        o => panic!("harness: op {}", o),
    }
    e.set("rd", wide(cur.rd() as u128));
    e.set("len", wide(cur.len() as u128));
    e
}

fn record(_: &str, _: Rng, _: u64, _: &mut Recorder) { panic!("harness: nothing to record") }
fn replay(ops: Vec<J>, rec: &mut Recorder) {
    patience(120);
    let mut cur = Stream::new("runs");
    for o in ops { rec.cur(&o); let e = perform(&mut cur, o); rec.emit(&e); }
}

fn main() { main_with(record, replay) }
