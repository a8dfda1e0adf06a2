//! Universal codes and integers on bit streams (CodeTrace).
use harness::blk::*;
use harness::json::J;
use harness::op::bools;
use harness::rng::Rng;
use harness::run::*;
use std::collections::VecDeque;
use std::io::{Error, ErrorKind, Result};
use std::panic::{catch_unwind, AssertUnwindSafe};
use succinct::bit_vec::{BitVec, BitVector};
use succinct::coding::*;
use succinct::stream::{BitBuffer, BitRead, BitWrite};

#[global_allocator]
static ALLOC: harness::alloc::Counting = harness::alloc::Counting;

/// A user's stream, with only the required methods, which fails on demand.
#[derive(Default)]
pub struct User { v: Vec<bool>, pos: usize, left: Option<u64>, sticky: bool, kind: u8 }
impl User {
    fn tick(&mut self) -> Result<()> {
        match self.left {
            Some(0) => { if !self.sticky { self.left = None } Err(Error::new([ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::InvalidInput, ErrorKind::NotFound][self.kind as usize % 4], "injected")) }
            Some(n) => { self.left = Some(n - 1); Ok(()) }
            None => Ok(()),
        }
    }
}
impl BitRead for User { fn read_bit(&mut self) -> Result<Option<bool>> { self.tick()?; if self.pos < self.v.len() { self.pos += 1; Ok(Some(self.v[self.pos - 1])) } else { Ok(None) } } }
impl BitWrite for User { fn write_bit(&mut self, x: bool) -> Result<()> { self.tick()?; self.v.push(x); Ok(()) } }

/// A code a user might define: n bits, least significant first.
pub struct Fixed(usize);
impl UniversalCode for Fixed {
    fn encode<W: BitWrite>(&self, w: &mut W, v: u64) -> Result<()> {
        if self.0 < 64 && v >> self.0 != 0 { return Err(Error::new(ErrorKind::InvalidInput, "too wide")) }
        for i in 0..self.0 { w.write_bit(v >> i & 1 == 1)? } Ok(())
    }
    fn decode<R: BitRead>(&self, r: &mut R) -> Result<Option<u64>> {
        let mut x = 0;
        for i in 0..self.0 { match r.read_bit()? { Some(b) => x |= (b as u64) << i, None => return if i == 0 { Ok(None) } else { Err(Error::new(ErrorKind::UnexpectedEof, "short")) } } }
        Ok(Some(x))
    }
}

enum Stream { Deque(VecDeque<bool>, u64), B8(BitBuffer<BitVector<u8>>, u64), B64(BitBuffer<BitVector<u64>>, u64), Bools(BitBuffer<Vec<bool>>, u64), User(User) }
macro_rules! on { ($s:expr, $x:ident => $e:expr) => { match $s { Stream::Deque($x, _) => $e, Stream::B8($x, _) => $e, Stream::B64($x, _) => $e, Stream::Bools($x, _) => $e, Stream::User($x) => $e } } }
impl Stream {
    fn new(k: &str, vw: i64) -> Stream { match k {
        "deque" => Stream::Deque(VecDeque::new(), 0),
        "b8" => Stream::B8(if vw & 1 == 0 { BitBuffer::new() } else { BitBuffer::from(BitVector::with_capacity(100)) }, 0),
        "b64" => Stream::B64(if vw & 1 == 0 { BitBuffer::with_capacity(70) } else { BitBuffer::append(BitVector::new()) }, 0),
        "bools" => Stream::Bools(BitBuffer::from(vec![]), 0), "user" => Stream::User(User::default()), k => panic!("harness: stream {}", k) } }
    fn len(&self) -> u64 { match self { Stream::Deque(d, r) => r + d.len() as u64, Stream::B8(b, _) => b.bit_len(), Stream::B64(b, _) => b.bit_len(), Stream::Bools(b, _) => b.bit_len(), Stream::User(u) => u.v.len() as u64 } }
    /// Bits from position i on (written in this call, so not yet read).
    fn from(&self, i: u64) -> Vec<i64> {
        fn f<T: BitVec>(b: &BitBuffer<T>, i: u64) -> Vec<i64> { (i..b.inner().bit_len()).map(|j| b.inner().get_bit(j) as i64).collect() }
        match self { Stream::Deque(d, r) => d.iter().skip((i - r) as usize).map(|b| *b as i64).collect(), Stream::B8(b, _) => f(b, i), Stream::B64(b, _) => f(b, i), Stream::Bools(b, _) => f(b, i), Stream::User(u) => u.v[i as usize..].iter().map(|b| *b as i64).collect() } }
    fn rd(&self) -> u64 { match self { Stream::Deque(_, r) => *r, Stream::B8(_, r) => *r, Stream::B64(_, r) => *r, Stream::Bools(_, r) => *r, Stream::User(u) => u.pos as u64 } }
    fn before_write(&mut self) { let n = self.len(); match self { Stream::B8(b, _) => b.seek(n).expect("harness: seek"), Stream::B64(b, _) => b.seek(n).expect("harness: seek"), Stream::Bools(b, _) => b.seek(n).expect("harness: seek"), _ => () } }
    fn before_read(&mut self) { match self { Stream::B8(b, r) => b.seek(*r).expect("harness: seek"), Stream::B64(b, r) => b.seek(*r).expect("harness: seek"), Stream::Bools(b, r) => b.seek(*r).expect("harness: seek"), _ => () } }
    fn after_read(&mut self, total: u64) { match self { Stream::Deque(d, r) => *r = total - d.len() as u64, Stream::B8(b, r) => *r = b.position(), Stream::B64(b, r) => *r = b.position(), Stream::Bools(b, r) => *r = b.position(), _ => () } }
    fn arm(&mut self, e: &J) { if let Stream::User(u) = self { u.left = if e.n("f") < 0 { None } else { Some(e.n("f") as u64) }; u.sticky = e.n("st") == 1; u.kind = e.n("fk") as u8 } }
    fn disarm(&mut self) { if let Stream::User(u) = self { u.left = None } }
}

fn term(j: &J) -> String { let a = j.arr(); match a[0].str() { t @ ("unary" | "omega" | "fib") => t.into(), t @ ("comma" | "fixed") => format!("{}{}", t, a[1].num()), t => format!("{}({})", t, term(&a[1])) } }
fn untag(s: &str) -> J {
    let mut v = vec![];
    if let Some(r) = s.strip_prefix("elias(") { v.push(J::S("elias".into())); v.push(untag(&r[..r.len() - 1])) }
    else if let Some(r) = s.strip_prefix("lift0(") { v.push(J::S("lift0".into())); v.push(untag(&r[..r.len() - 1])) }
    else if let Some(r) = s.strip_prefix("comma") { v.push(J::S("comma".into())); v.push(J::N(r.parse().unwrap())) }
    else if let Some(r) = s.strip_prefix("fixed") { v.push(J::S("fixed".into())); v.push(J::N(r.parse().unwrap())) }
    else { v.push(J::S(s.into())) }
    J::A(v)
}
macro_rules! codes { ($($name:expr => $code:expr),* $(,)?) => {
    const CODES: &[&str] = &[$($name),*];
    fn enc(c: &str, s: &mut Stream, v: u64) -> Result<()> { match c { $($name => on!(s, x => $code.encode(x, v)),)* _ => panic!("harness: code {}", c) } }
    fn dec(c: &str, s: &mut Stream) -> Result<Option<u64>> { match c { $($name => on!(s, x => $code.decode(x)),)* _ => panic!("harness: code {}", c) } }
} }
codes! {
    "unary" => Unary, "elias(unary)" => GAMMA, "elias(lift0(elias(unary)))" => DELTA, "omega" => Omega, "fib" => Fibonacci,
    "comma2" => COMMA, "comma3" => Comma(3), "comma4" => Comma(4), "comma5" => Comma(5), "comma8" => Comma(8), "comma13" => Comma(13), "comma16" => Comma(16), "comma31" => Comma(31), "comma32" => Comma(32), "comma33" => Comma(33), "comma62" => Comma(62), "comma63" => Comma(63),
    "lift0(unary)" => Lift0(Unary), "lift0(elias(unary))" => Lift0(GAMMA), "lift0(elias(lift0(elias(unary))))" => Lift0(DELTA), "lift0(omega)" => Lift0(Omega), "lift0(fib)" => Lift0(Fibonacci), "lift0(comma2)" => Lift0(COMMA),
    "elias(comma2)" => Elias(Comma(2)), "elias(comma3)" => Elias(Comma(3)), "elias(fib)" => Elias(Fibonacci), "elias(lift0(fib))" => Elias(Lift0(Fibonacci)), "elias(omega)" => Elias(Omega), "elias(lift0(omega))" => Elias(Lift0(Omega)),
    "elias(elias(unary))" => Elias(GAMMA), "elias(elias(lift0(elias(unary))))" => Elias(DELTA), "elias(lift0(elias(lift0(elias(unary)))))" => Elias(Lift0(DELTA)), "elias(lift0(unary))" => Elias(Lift0(Unary)),
    "lift0(lift0(elias(unary)))" => Lift0(Lift0(GAMMA)), "lift0(lift0(unary))" => Lift0(Lift0(Unary)), "lift0(elias(comma2))" => Lift0(Elias(COMMA)),
    "fixed7" => Fixed(7), "fixed64" => Fixed(64), "elias(fixed6)" => Elias(Fixed(6)), "elias(fixed7)" => Elias(Fixed(7)), "elias(fixed64)" => Elias(Fixed(64)), "lift0(fixed64)" => Lift0(Fixed(64)), "lift0(elias(fixed7))" => Lift0(Elias(Fixed(7))),
}
fn unaryish(c: &str) -> bool { c.ends_with("unary") || c == "lift0(unary)" || c == "lift0(lift0(unary))" }

macro_rules! ints { ($($t:ident),*) => {
    const TYPES: &[&str] = &[$(stringify!($t)),*];
    fn width(t: &str) -> usize { match t { $(stringify!($t) => 8 * std::mem::size_of::<$t>(),)* _ => panic!("harness: type") } }
    fn wint(t: &str, s: &mut Stream, n: usize, be: bool, v: u64) -> Result<()> { match t { $(stringify!($t) => on!(s, x => if be { x.write_int_be(n, v as $t) } else { x.write_int(n, v as $t) }),)* _ => panic!("harness: type") } }
    fn rint(t: &str, s: &mut Stream, n: usize, be: bool) -> Result<Option<u64>> { match t { $(stringify!($t) => on!(s, x => if be { x.read_int_be::<$t>(n) } else { x.read_int::<$t>(n) }).map(|o| o.map(|v| v as u64)),)* _ => panic!("harness: type") } }
} }
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);

fn guard<T>(f: impl FnOnce() -> Result<T>) -> (i64, Option<T>) { match catch_unwind(AssertUnwindSafe(f)) { Ok(Ok(x)) => (0, Some(x)), Ok(Err(_)) => (2, None), Err(_) => (1, None) } }
fn user(v: &[bool], f: i64, sticky: bool) -> Stream { Stream::User(User { v: v.to_vec(), pos: 0, left: if f < 0 { None } else { Some(f as u64) }, sticky, kind: f as u8 }) }
/// One decode or integer read on its own stream: [p, x, r].
fn read1(v: &[bool], f: i64, sticky: bool, act: &dyn Fn(&mut Stream) -> Result<Option<u64>>, show: &dyn Fn(u64) -> J) -> J {
    let mut s = user(v, f, sticky);
    let (p, x) = guard(|| act(&mut s));
    let (p, x) = match x { Some(None) => (3, J::ints(&[])), Some(Some(x)) => (p, show(x)), None => (p, J::ints(&[])) };
    J::A(vec![J::N(p), x, J::N(s.rd() as i64)])
}
fn write1(f: i64, sticky: bool, act: &dyn Fn(&mut Stream) -> Result<()>) -> (i64, Vec<i64>) {
    let mut s = user(&[], f, sticky);
    let (p, _) = guard(|| act(&mut s));
    (p, s.from(0))
}
/// Every truncation, every flipped bit, every failure point of one write and the read that undoes it.
fn exam(e: &mut J, write: &dyn Fn(&mut Stream) -> Result<()>, read: &dyn Fn(&mut Stream) -> Result<Option<u64>>, show: &dyn Fn(u64) -> J, flips: bool) {
    let (p, d) = write1(-1, false, write);
    e.set("p", J::N(p)); e.set("d", J::ints(&d));
    let d: Vec<bool> = d.iter().map(|x| *x == 1).collect(); let n = d.len();
    let list = |k: usize, f: &dyn Fn(usize) -> J| J::A((0..k).map(|j| f(j)).collect());
    e.set("cuts", list(n, &|j| read1(&d[..j], -1, false, read, show)));
    e.set("rfail", list(n + 1, &|j| read1(&d, j as i64, j % 2 == 0, read, show)));
    e.set("wfail", list(n + 1, &|j| { let (p, d) = write1(j as i64, j % 2 == 0, write); J::A(vec![J::N(p), J::ints(&d)]) }));
    if flips {
        e.set("flips", list(n, &|j| { let mut v = d.clone(); v[j] = !v[j]; read1(&v, -1, false, read, show) }));
        e.set("more", list(2, &|j| { let mut v = d.clone(); v.push(j == 1); read1(&v, -1, false, read, show) }));
    }
}

fn perform(cur: &mut Stream, mut e: J) -> J {
    let op = e.s("op").to_string();
    let before = cur.len();
    match &op[..] {
        "new" => *cur = Stream::new(e.s("k"), e.n("vw")),
        "exam" => {
            let (c, v) = (term(e.get("c").unwrap()), unwide(e.get("v").unwrap()) as u64);
            exam(&mut e, &|s| enc(&c, s, v), &|s| dec(&c, s), &|x| wide(x as u128), true);
        }
        "iexam" => {
            let (t, n, be, v, w) = (e.s("t").to_string(), e.n("n") as usize, e.n("be") == 1, unbits(e.get("v").unwrap()), e.n("w") as usize);
            exam(&mut e, &|s| wint(&t, s, n, be, v), &|s| rint(&t, s, n, be), &|x| jbits(x, w), false);
        }
        "probe" => {
            let c = term(e.get("c").unwrap());
            let v = bools(e.get("d").unwrap());
            let o = read1(&v, -1, false, &|s| dec(&c, s), &|x| wide(x as u128));
            let o = o.arr().to_vec();
            e.set("p", o[0].clone()); e.set("x", o[1].clone()); e.set("rd", o[2].clone());
        }
        "raw" => { cur.before_write(); for b in bools(e.get("d").unwrap()) { on!(&mut *cur, x => x.write_bit(b)).expect("harness: raw"); } }
        "enc" | "wint" => {
            if op == "enc" {
                let mut u = Stream::User(User::default());
                let (c, v) = (term(e.get("c").unwrap()), unwide(e.get("v").unwrap()) as u64);
                let ok = matches!(catch_unwind(AssertUnwindSafe(|| enc(&c, &mut u, v))), Ok(Ok(())));
                e.set("full", J::ints(&if ok { u.from(0) } else { vec![] }));
            }
            cur.before_write(); cur.arm(&e);
            let r = catch_unwind(AssertUnwindSafe(|| match &op[..] {
                "enc" => enc(&term(e.get("c").unwrap()), cur, unwide(e.get("v").unwrap()) as u64),
                _ => wint(e.s("t"), cur, e.n("n") as usize, e.n("be") == 1, unbits(e.get("v").unwrap())),
            }));
            cur.disarm();
            e.set("p", J::N(match r { Ok(Ok(())) => 0, Ok(Err(_)) => 2, Err(_) => 1 }));
            e.set("d", J::ints(&cur.from(before)));
        }
        "dec" | "rint" | "rbit" => {
            cur.before_read(); cur.arm(&e);
            let r = catch_unwind(AssertUnwindSafe(|| match &op[..] {
                "dec" => dec(&term(e.get("c").unwrap()), cur),
                "rint" => rint(e.s("t"), cur, e.n("n") as usize, e.n("be") == 1),
                _ => on!(&mut *cur, x => x.read_bit()).map(|o| o.map(|b| b as u64)),
            }));
            cur.disarm(); cur.after_read(before);
            let (p, x) = match r { Ok(Ok(Some(x))) => (0, x), Ok(Ok(None)) => (3, 0), Ok(Err(_)) => (2, 0), Err(_) => (1, 0) };
            e.set("p", J::N(p));
            e.set("x", if p != 0 { J::ints(&[]) } else { match &op[..] { "dec" => wide(x as u128), "rint" => jbits(x, e.n("w") as usize), _ => J::ints(&[x as i64]) } });
            e.set("rd", J::N(cur.rd() as i64));
        }
        o => panic!("harness: op {}", o),
    }
    e.set("len", J::N(cur.len() as i64));
    e
}

fn op(name: &str) -> J { J::obj().with("op", J::S(name.into())) }
fn fibs() -> Vec<u64> { let mut v = vec![1u64, 2]; while let Some(x) = v[v.len() - 1].checked_add(v[v.len() - 2]) { v.push(x) } v }
fn value(g: &mut Rng, c: &str) -> u64 {
    if unaryish(c) { return match g.below(20) { 0 => 0, 1 => 1, 2 => g.below(400), _ => g.below(40) } }
    match g.below(12) {
        0 => g.below(4), 1 => g.below(40), 2 => u64::MAX - g.below(3), 3 | 4 => (1u64 << g.below(64)).wrapping_add(g.below(3)).wrapping_sub(1),
        5 => { let f = fibs(); g.pick(&f).wrapping_add(g.below(3)).wrapping_sub(1) }
        6 => { let n = g.range(2, 33); let b = (1u128 << n) - 1; let mut x = 1u128; for _ in 0..g.below(64 / n + 1) { x *= b } x = x.min(u64::MAX as u128); (x as u64).wrapping_add(g.below(3)).wrapping_sub(1) }
        7 => g.word(), _ => g.log(),
    }
}
fn codeword(c: &str, v: u64) -> Vec<bool> { let mut u = Stream::User(User::default()); let r = catch_unwind(AssertUnwindSafe(|| enc(c, &mut u, v))); match (r, u) { (Ok(Ok(())), Stream::User(u)) => u.v, _ => vec![] } }
fn rnd(g: &mut Rng, n: u64) -> Vec<bool> { let m = g.below(3); (0..n).map(|_| match m { 0 => g.bit(), 1 => g.chance(1, 5), _ => g.chance(4, 5) }).collect() }

/// Streams meant to break a decoder; the code they are aimed at.
fn hostile(g: &mut Rng) -> (Vec<bool>, String) {
    let c = g.pick(CODES).to_string();
    let mut v = vec![];
    match g.below(12) {
        0 | 1 => { let n = g.below(150); v = rnd(g, n) }
        2 | 3 => { let x = value(g, &c); v = codeword(&c, x); let k = g.below(v.len() as u64 + 1); v.truncate(k as usize) }
        4 => { let x = value(g, &c); v = codeword(&c, x); if !v.is_empty() { let i = g.below(v.len() as u64) as usize; v[i] = !v[i] } let n = g.below(90); v.extend(rnd(g, n)) }
        5 => { let n = g.pick(&[1, 62, 63, 64, 65, 66, 70, 90, 91, 92, 93, 94, 130, 200]); v = vec![g.bit(); n]; let m = g.below(140); v.extend(rnd(g, m)) }
        6 => { let n = g.range(60, 68); v = vec![false; n as usize]; v.push(true); let m = g.range(58, 70); v.extend(rnd(g, m)); return (v, g.pick(&["elias(unary)", "lift0(elias(unary))", "elias(lift0(unary))", "elias(lift0(elias(unary)))"]).into()) }
        7 => { // omega: groups up to the limit
            let top = g.range(61, 66); let mut n = 1u64; let mut grp = vec![top]; while *grp.last().unwrap() > 1 { n = 63 - grp.last().unwrap().leading_zeros() as u64; grp.push(n) } let _ = n;
            for x in grp.iter().rev().filter(|x| **x > 1) { let k = 64 - x.leading_zeros(); for i in (0..k).rev() { v.push(x >> i & 1 == 1) } }
            v.push(true); let m = g.range(58, 70); v.extend(rnd(g, m)); v.push(false);
            return (v, g.pick(&["omega", "lift0(omega)", "elias(omega)", "elias(lift0(omega))"]).into()) }
        8 => { // fibonacci: alternating ones up to the largest weights
            let n = g.range(86, 96); let k = g.below(2); let sparse = g.bit(); for i in 0..n { v.push(if sparse { i == n - 1 } else { (n - 1 - i) % 2 == 0 && g.chance(9, 10) || i + 1 == n }) } if k == 0 { v.push(true) } else { let m = g.below(8); v.extend(rnd(g, m)); v.push(true); v.push(true) }
            return (v, g.pick(&["fib", "lift0(fib)", "elias(fib)", "elias(lift0(fib))"]).into()) }
        9 => { // comma: leading zero digits, overflowing digits, 2^64 - 1 and just above
            let n = g.pick(&[2u64, 3, 4, 5, 8, 13, 16, 31, 32, 33, 62, 63]); let base = (1u128 << n) - 1;
            let mut digits: Vec<u128> = vec![];
            if g.chance(1, 3) { for _ in 0..g.below(70 * 2 / n + 2) { digits.push((g.next() as u128) % base) } }
            else { let mut x = (1u128 << 64) + g.below(5) as u128 - 3; if g.chance(1, 4) { x = (g.next() as u128) << g.below(3) } while x > 0 { digits.push(x % base); x /= base } digits.reverse(); if g.chance(1, 3) { for _ in 0..g.below(4) { digits.insert(0, 0) } } }
            if g.chance(5, 6) { digits.push(base) }
            for d in digits { for i in 0..n { v.push(d >> i & 1 == 1) } }
            return (v, format!("comma{}", n)) }
        10 => { // headers naming 62..66 or enormous numbers of bits
            let h = match g.below(4) { 0 => u64::MAX - g.below(2), 1 => 64 + g.below(64), _ => g.range(61, 66) };
            let w = g.pick(&[7, 64]); for i in 0..w { v.push(h >> i & 1 == 1) } let m = g.range(58, 70); v.extend(rnd(g, m)); return (v, if w == 7 { g.pick(&["elias(fixed7)", "lift0(elias(fixed7))"]) } else { g.pick(&["elias(fixed64)", "lift0(fixed64)"]) }.into()) }
        _ => { let h = g.range(61, 67); let hc = g.pick(&["comma2", "comma3", "omega", "fib", "lift0(fib)", "lift0(omega)", "lift0(elias(lift0(elias(unary))))"]); v = codeword(hc, h); let m = g.range(58, 70); v.extend(rnd(g, m)); return (v, format!("elias({})", hc)) }
    }
    (v, c)
}

fn record(profile: &str, mut g: Rng, _: u64, rec: &mut Recorder) {
    let mut cur = Stream::new("user", 0);
    while rec.left > 0 {
        let kind = if profile == "C11" && g.bit() { "user" } else { g.pick(&["deque", "b8", "b64", "bools", "user"]) };
        let mut go = |cur: &mut Stream, j: J, rec: &mut Recorder| -> (i64, i64) { rec.cur(&j); let e = perform(cur, j); rec.emit(&e); (e.n("p"), e.n("rd")) };
        go(&mut cur, op("new").with("k", J::S(kind.into())).with("vw", J::N(g.below(4) as i64)), rec);
        // what is still to be read: a code, or an integer type, width, order
        let mut queue: VecDeque<J> = VecDeque::new();
        let hostility = match profile { "C11" => 45, _ => 3 };
        let ints = match profile { "C18" => 85, "C10" => 10, _ => 25 };
        let faults = match profile { "C11" => 25, "C10" => 3, _ => 12 };
        let max = g.pick(&[300u64, 800, 1500]);
        let fault = |g: &mut Rng, j: J, guess: u64| if kind == "user" && g.chance(faults, 100) {
            let f = match g.below(4) { 0 => 0, 1 => guess.saturating_sub(g.below(3)), _ => g.below(guess + 2) };
            j.with("f", J::N(f as i64)).with("st", J::N(g.below(2) as i64)).with("fk", J::N(g.below(4) as i64)) } else { j.with("f", J::N(-1)) };
        for _ in 0..g.range(10, 60) {
            if cur.len() > max { break }
            let writing = queue.is_empty() || g.chance(1, 2);
            if g.chance(hostility, 100) {
                let (d, c) = hostile(&mut g);
                queue.clear();
                if g.chance(2, 3) { // swallow what is left, so that it stands alone
                    while cur.rd() < cur.len() { let n = (cur.len() - cur.rd()).min(64); go(&mut cur, op("rint").with("t", J::S("u64".into())).with("w", J::N(64)).with("n", J::N(n as i64)).with("be", J::N(0)).with("f", J::N(-1)), rec); }
                }
                let n = d.len() as u64;
                go(&mut cur, op("raw").with("d", J::A(d.iter().map(|b| J::N(*b as i64)).collect())), rec);
                let j = fault(&mut g, op("dec").with("c", untag(&c)), n);
                let (p, _) = go(&mut cur, j, rec);
                if p == 0 || g.chance(1, 3) { let c = g.pick(CODES); go(&mut cur, op("dec").with("c", untag(c)).with("f", J::N(-1)), rec); }
            } else if writing {
                if g.chance(ints, 100) {
                    let t = g.pick(TYPES); let w = width(t);
                    let n = match g.below(4) { 0 => w, 1 => g.below(3).min(w as u64) as usize, _ => g.below(w as u64 + 1) as usize };
                    let be = g.below(2) as i64;
                    let v = g.word();
                    let j = op("wint").with("t", J::S(t.into())).with("w", J::N(w as i64)).with("n", J::N(n as i64)).with("be", J::N(be)).with("v", jbits(v, w));
                    let j = fault(&mut g, j, n as u64);
                    let (p, _) = go(&mut cur, j, rec);
                    // read back with the same width, or another type it fits in
                    let t2 = if g.chance(3, 4) { t } else { g.pick(&["u64", "i64", "usize"]) };
                    if p == 0 { queue.push_back(op("rint").with("t", J::S(t2.into())).with("w", J::N(width(t2) as i64)).with("n", J::N(n as i64)).with("be", J::N(be))) } else { queue.clear(); break }
                } else {
                    let c = g.pick(CODES); let v = value(&mut g, c); let guess = 1 + g.below(60);
                    let j = fault(&mut g, op("enc").with("c", untag(c)).with("v", wide(v as u128)), guess);
                    let (p, _) = go(&mut cur, j, rec);
                    if p == 0 { queue.push_back(op("dec").with("c", untag(c))) } else if p == 1 { break }
                }
            } else {
                let j = queue.pop_front().unwrap();
                let j = if g.chance(1, 40) && j.s("op") == "rint" { op("rbit").with("f", J::N(-1)) } else { fault(&mut g, j, 30) };
                let (p, _) = go(&mut cur, j, rec);
                if p != 0 && kind != "user" { queue.clear() }
            }
        }
        // read the rest back, then find the clean end
        if g.chance(3, 4) {
            while let Some(j) = queue.pop_front() { go(&mut cur, j.with("f", J::N(-1)), rec); }
            let c = g.pick(CODES);
            go(&mut cur, op("dec").with("c", untag(c)).with("f", J::N(-1)), rec);
            let t = g.pick(TYPES);
            go(&mut cur, op("rint").with("t", J::S(t.into())).with("w", J::N(width(t) as i64)).with("n", J::N(g.below(width(t) as u64 + 1) as i64)).with("be", J::N(g.below(2) as i64)).with("f", J::N(-1)), rec);
        }
    }
}

fn replay(ops: Vec<J>, rec: &mut Recorder) {
    let mut cur = Stream::new("user", 0);
    for o in ops { rec.cur(&o); let e = perform(&mut cur, o); rec.emit(&e); }
}

fn main() { main_with(record, replay) }
