//! Sequences of up to 2^64 bits, nearly all of them alike (FarTrace).
use harness::blk::*;
use harness::json::J;
use harness::op::*;
use harness::per_block;
use harness::rng::Rng;
use harness::run::*;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use succinct::bit_vec::{BitSlice, BitSliceMut, BitVec, BitVecMut, BitVecPush, BitVector};
use succinct::int_vec::{IntVec, IntVecMut, IntVector};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};
use succinct::stream::{BitBuffer, BitRead, BitWrite};

#[global_allocator]
static A: harness::alloc::Counting = harness::alloc::Counting;

/// What a user's sparse store keeps.
#[derive(Clone)]
struct Sparse { n: u64, g: bool, ex: BTreeSet<u64> }
impl Sparse {
    fn get(&self, p: u64) -> bool { self.g ^ self.ex.contains(&p) }
    fn set(&mut self, p: u64, x: bool) { if x == self.g { self.ex.remove(&p); } else { self.ex.insert(p); } }
    fn upto(&self, p: u64) -> u64 { self.ex.range(..=p).count() as u64 }
}
/// Implements only the block-level methods.
#[derive(Clone)]
struct SBlk<B>(Sparse, std::marker::PhantomData<B>);
impl<B: Blk> BitVec for SBlk<B> {
    type Block = B;
    fn bit_len(&self) -> u64 { self.0.n }
    fn get_block(&self, k: usize) -> B {
        let (k, w) = (k as u128, B::W as u128);
        assert!(k * w < self.0.n as u128, "out of bounds");
        let mut v = if self.0.g { !0u64 } else { 0 };
        let s = (k * w) as u64;
        for e in self.0.ex.range(s..=s + (w as u64 - 1).min(u64::MAX - s)) { v ^= 1 << (e - s) }
        B::of64(v)
    }
}
impl<B: Blk> BitVecMut for SBlk<B> {
    fn set_block(&mut self, k: usize, v: B) {
        let (k, w) = (k as u128, B::W as u128);
        assert!(k * w < self.0.n as u128, "out of bounds");
        for i in 0..w { if k * w + i < self.0.n as u128 { self.0.set((k * w + i) as u64, v.to64() >> i & 1 == 1) } }
    }
}
/// Implements only the bit-level methods.
#[derive(Clone)]
struct SBit<B>(Sparse, std::marker::PhantomData<B>);
impl<B: Blk> BitVec for SBit<B> {
    type Block = B;
    fn bit_len(&self) -> u64 { self.0.n }
    fn get_bit(&self, p: u64) -> bool { assert!(p < self.0.n, "out of bounds"); self.0.get(p) }
}
impl<B: Blk> BitVecMut for SBit<B> { fn set_bit(&mut self, p: u64, x: bool) { assert!(p < self.0.n, "out of bounds"); self.0.set(p, x) } }
impl<B: Blk> BitVecPush for SBit<B> {
    fn push_bit(&mut self, x: bool) { let n = self.0.n; self.0.n += 1; self.0.set(n, x) }
    fn pop_bit(&mut self) -> Option<bool> { if self.0.n == 0 { return None } self.0.n -= 1; let n = self.0.n; let x = self.0.get(n); self.0.ex.remove(&n); Some(x) }
}
/// Implements only what rank must: rank and limit.
#[derive(Clone)]
struct SRank(Sparse);
impl RankSupport for SRank {
    type Over = bool;
    fn rank(&self, p: u64, x: bool) -> u64 {
        assert!(p < self.0.n, "out of bounds");
        let e = self.0.upto(p);
        if x == self.0.g { p + 1 - e } else { e }
    }
    fn limit(&self) -> u64 { self.0.n }
}
impl BitRankSupport for SRank {}

/// The same, of symbols, of which 0 and 1 occur.
#[derive(Clone)]
struct SSym(Sparse);
impl RankSupport for SSym {
    type Over = u8;
    fn rank(&self, p: u64, x: u8) -> u64 {
        assert!(p < self.0.n, "out of bounds");
        let e = self.0.upto(p);
        if x > 1 { 0 } else if (x == 1) == self.0.g { p + 1 - e } else { e }
    }
    fn limit(&self) -> u64 { self.0.n }
}

enum Q { Len, GetBit(u64), GetBits(u64, usize), GetBlock(usize), SetBit(u64, bool), SetBits(u64, usize, u64), SetBlock(usize, u64) }
impl Q { fn write(&self) -> bool { matches!(self, Q::SetBit(..) | Q::SetBits(..) | Q::SetBlock(..)) } }

fn ro<T: BitVec + ?Sized>(t: &T, q: &Q) -> Vec<J> where T::Block: Blk {
    let w = <T::Block as Blk>::W;
    match *q {
        Q::Len => vec![wide(t.bit_len() as u128)],
        Q::GetBit(p) => vec![J::N(t.get_bit(p) as i64)],
        Q::GetBits(s, c) => jbits(t.get_bits(s, c).to64(), w).arr().to_vec(),
        Q::GetBlock(k) => jbits(t.get_block(k).to64(), w).arr().to_vec(),
        _ => panic!("harness: write through a read-only store"),
    }
}
fn rw<T: BitVecMut + ?Sized>(t: &mut T, q: &Q) -> Vec<J> where T::Block: Blk {
    match *q {
        Q::SetBit(p, x) => t.set_bit(p, x),
        Q::SetBits(s, c, v) => t.set_bits(s, c, T::Block::of64(v)),
        Q::SetBlock(k, v) => t.set_block(k, T::Block::of64(v)),
        _ => return ro(t, q),
    }
    vec![]
}
fn look<T: BitVec + ?Sized>(t: &T, p: &[(u64, u64)], nest: bool, q: &Q) -> Vec<J> where T::Block: Blk {
    if p.is_empty() { return ro(t, q); }
    let s = BitSlice::new(t, p[0].0..p[0].1);
    if nest && p.len() == 2 { return ro(&BitSlice::new(&s, p[1].0..p[1].1), q); }
    let mut s = s;
    for r in &p[1..] { s = s.slice(r.0..r.1); }
    ro(&s, q)
}
fn down<T: BitVecMut + ?Sized>(s: &mut BitSliceMut<T>, p: &[(u64, u64)], q: &Q) -> Vec<J> where T::Block: Blk {
    if p.is_empty() { return rw(s, q); }
    down(&mut s.slice_mut(p[0].0..p[0].1), &p[1..], q)
}
fn touch<T: BitVecMut + ?Sized>(t: &mut T, p: &[(u64, u64)], nest: bool, q: &Q) -> Vec<J> where T::Block: Blk {
    if p.is_empty() { return rw(t, q); }
    let mut s = BitSliceMut::new(t, p[0].0..p[0].1);
    if nest && p.len() == 2 { return rw(&mut BitSliceMut::new(&mut s, p[1].0..p[1].1), q); }
    if !q.write() && p.len() == 2 { return ro(&s.slice(p[1].0..p[1].1), q); }
    down(&mut s, &p[1..], q)
}

type X = Vec<J>;
fn nope() -> ! { panic!("harness: operation not supported by this store") }
trait Far {
    fn lens(&self) -> (u64, usize);
    fn query(&mut self, p: &[(u64, u64)], mode: i64, q: &Q) -> X;
    fn scan(&self) -> Vec<u64>;
    fn pos(&self) -> u64 { 0 }
    fn push_bit(&mut self, _: bool) { nope() }
    fn pop_bit(&mut self) -> Option<bool> { nope() }
    fn push_block(&mut self, _: u64) { nope() }
    fn align(&mut self, _: bool) { nope() }
    fn truncate(&mut self, _: u64) { nope() }
    fn resize(&mut self, _: u64, _: bool) { nope() }
    fn get(&self, _: u64) -> u64 { nope() }
    fn set(&mut self, _: u64, _: u64) { nope() }
    fn push(&mut self, _: u64) { nope() }
    fn pop(&mut self) -> Option<u64> { nope() }
    fn get_random(&self, _: u64, _: usize, _: u64) -> u64 { nope() }
    fn set_random(&mut self, _: u64, _: usize, _: u64, _: u64) { nope() }
    fn iv_resize(&mut self, _: u64, _: u64) { nope() }
    fn block_truncate(&mut self, _: usize) { nope() }
    fn block_resize(&mut self, _: usize) { nope() }
    fn compare(&self, _: &[J]) -> X { nope() }
    fn room(&mut self, _: &[J]) -> X { nope() }
    fn walk(&self, _: &[J]) -> X { nope() }
    fn items(&self) -> u64 { 0 }
    fn rank(&self, _: u64, _: bool, _: bool) -> u64 { nope() }
    fn rank_sym(&self, p: u64, x: u8, own: bool) -> u64 { self.rank(p, x == 1, own) }
    fn select_sym(&self, k: u64, x: u8, own: bool) -> Option<u64> { self.select(k, x == 1, own) }
    fn limit(&self) -> u64 { nope() }
    fn select(&self, _: u64, _: bool, _: bool) -> Option<u64> { nope() }
    fn seek(&mut self, _: u64) -> bool { nope() }
    fn read(&mut self) -> Option<bool> { nope() }
    fn write(&mut self, _: bool) { nope() }
    fn wint(&mut self, _: usize, _: bool, _: u64) { nope() }
    fn rint(&mut self, _: usize, _: bool) -> std::io::Result<Option<u64>> { nope() }
}

/// Positions of a dense store where the other bit stands.
fn scan_dense<T: BitVec>(t: &T, g: bool) -> Vec<u64> where T::Block: Blk {
    let (n, nb, w) = (t.bit_len(), t.block_len(), <T::Block as Blk>::W as u64);
    let common = if g { T::Block::of64(!0) } else { T::Block::of64(0) };
    let mut v = vec![];
    for k in 0..nb {
        let b = t.get_block(k);
        if b != common {
            let d = b.to64() ^ common.to64();
            for i in 0..w { let p = k as u64 * w + i; if d >> i & 1 == 1 && p < n { v.push(p) } }
            if v.len() > 100000 { break; }
        }
    }
    v
}
fn walk<I: Iterator + DoubleEndedIterator + ExactSizeIterator + Clone>(mut it: I, ms: &[J], f: impl Fn(I::Item) -> J) -> X {
    let o = |x: Option<I::Item>| x.map_or(J::A(vec![]), |x| f(x));
    ms.iter().map(|m| {
        let m = m.arr();
        match m[0].str() {
            "n" => { let k = unwide(&m[1]) as usize; o(if k == 0 { it.next() } else { it.nth(k) }) }
            "b" => { let k = unwide(&m[1]) as usize; o(if k == 0 { it.next_back() } else { it.nth_back(k) }) }
            "len" => wide(it.len() as u128),
            "hint" => { let h = it.size_hint(); if h.1 == Some(h.0) { wide(h.0 as u128) } else { J::ints(&[-1]) } }
            "count" => wide(it.clone().count() as u128),
            "last" => o(it.clone().last()),
            _ => nope(),
        }
    }).collect()
}

macro_rules! base { ($T:ty) => {
    fn lens(&self) -> (u64, usize) { (BitVec::bit_len(&self.0), BitVec::block_len(&self.0)) }
} }
macro_rules! query_mut { () => {
    fn query(&mut self, p: &[(u64, u64)], mode: i64, q: &Q) -> X {
        if q.write() || mode & 1 == 1 { touch(&mut self.0, p, mode & 2 == 2, q) } else { look(&self.0, p, mode & 2 == 2, q) }
    }
} }
macro_rules! query_ro { () => { fn query(&mut self, p: &[(u64, u64)], mode: i64, q: &Q) -> X { look(&self.0, p, mode & 2 == 2, q) } } }
macro_rules! pushes { ($B:ty) => {
    fn push_bit(&mut self, x: bool) { BitVecPush::push_bit(&mut self.0, x) }
    fn pop_bit(&mut self) -> Option<bool> { BitVecPush::pop_bit(&mut self.0) }
    fn push_block(&mut self, v: u64) { BitVecPush::push_block(&mut self.0, <$B>::of64(v)) }
    fn align(&mut self, x: bool) { BitVecPush::align_block(&mut self.0, x) }
} }
macro_rules! ranks { () => {
    fn rank(&self, p: u64, x: bool, own: bool) -> u64 { if !own { self.0.rank(p, x) } else if x { self.0.rank1(p) } else { self.0.rank0(p) } }
    fn limit(&self) -> u64 { self.0.limit() }
} }
macro_rules! selects { () => {
    fn select(&self, k: u64, x: bool, own: bool) -> Option<u64> { if !own { self.0.select(k, x) } else if x { self.0.select1(k) } else { self.0.select0(k) } }
} }
macro_rules! bufs { () => {
    fn pos(&self) -> u64 { self.0.position() }
    fn seek(&mut self, p: u64) -> bool { self.0.seek(p).is_ok() }
    fn read(&mut self) -> Option<bool> { self.0.read_bit().unwrap() }
    fn write(&mut self, x: bool) { self.0.write_bit(x).unwrap() }
    fn wint(&mut self, n: usize, be: bool, v: u64) { if be { self.0.write_int_be(n, v) } else { self.0.write_int(n, v) }.unwrap() }
    fn rint(&mut self, n: usize, be: bool) -> std::io::Result<Option<u64>> { if be { self.0.read_int_be(n) } else { self.0.read_int(n) } }
} }

fn hash<T: std::hash::Hash>(t: &T) -> u64 { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
/// a and its changed copy b
fn compared<T: Ord + std::hash::Hash>(a: &T, b: &T) -> X {
    use std::cmp::Ordering::*;
    let (o, r) = (a.cmp(b), b.cmp(a));
    let part = a.partial_cmp(b) == Some(o) && (a < b) == (o == Less) && (a >= b) == (o != Less) && (b == a) == (a == b);
    vec![a == b, a != b, o == Less, o == Greater, r == o.reverse() && part, hash(a) == hash(b)].into_iter().map(|x| J::N(x as i64)).collect()
}
macro_rules! compare { ($push:expr) => {
    fn compare(&self, d: &[J]) -> X {
        let mut c = self.0.clone();
        let p = unwide(&d[1]) as u64;
        match d[0].str() {
            "same" => (),
            "flip" => { let x = c.get_bit(p); c.set_bit(p, !x) }
            "twice" => { let x = c.get_bit(p); c.set_bit(p, !x); c.set_bit(p, x) }
            "cut" => c.truncate(p),
            "push" => $push(&mut c, p),
            _ => nope(),
        }
        compared(&self.0, &c)
    }
} }
macro_rules! room { ($len:expr, $eb:expr, $with:expr, $bwith:expr, $push:expr) => {
    fn room(&mut self, r: &[J]) -> X {
        let n = unwide(&r[1]) as u64;
        let (w, g) = (<B as Blk>::W as u64, self.1);
        let eb = $eb(&self.0);
        let before = self.0.block_capacity();
        match r[0].str() {
            "reserve" => self.0.reserve(n),
            "exact" => self.0.reserve_exact(n),
            "breserve" => self.0.block_reserve(n as usize),
            "bexact" => self.0.block_reserve_exact(n as usize),
            "shrink" => self.0.shrink_to_fit(),
            "clear" => self.0.clear(),
            "with" => self.0 = $with(eb as usize, n),
            "bwith" => self.0 = $bwith(eb as usize, n as usize),
            "below" => (),
            _ => nope(),
        }
        let (cap, blocks, used) = (self.0.capacity(), self.0.block_capacity(), self.0.block_len());
        let len: u64 = $len(&self.0);
        let put = match r[0].str() {
            "reserve" | "exact" | "with" => n,
            "breserve" | "bexact" | "bwith" => (used as u64 + n) * w / eb - len,
            "below" => n.min(cap.saturating_sub(len)),
            _ => 0,
        };
        let calls = harness::alloc::calls();
        for _ in 0..put { $push(&mut self.0, g) }
        let calls = harness::alloc::calls() - calls;
        [cap, blocks as u64, before as u64, put, calls, self.0.block_capacity() as u64, used as u64].iter().map(|x| wide(*x as u128)).collect()
    }
} }

struct FBv<B: Blk>(BitVector<B>, bool);
impl<B: Blk> Far for FBv<B> {
    base!(B); query_mut!(); pushes!(B);
    fn scan(&self) -> Vec<u64> { scan_dense(&self.0, self.1) }
    fn truncate(&mut self, n: u64) { self.0.truncate(n) }
    fn block_truncate(&mut self, k: usize) { self.0.block_truncate(k) }
    fn block_resize(&mut self, k: usize) { let g = self.1; self.0.block_resize(k, B::of64(if g { !0 } else { 0 })) }
    fn resize(&mut self, n: u64, x: bool) { self.0.resize(n, x) }
    compare!(|c: &mut BitVector<B>, p| c.push_bit(p == 1));
    room!(|v: &BitVector<B>| v.bit_len(), |_: &BitVector<B>| 1u64, |_, n| BitVector::with_capacity(n), |_, n| BitVector::block_with_capacity(n), |v: &mut BitVector<B>, g| v.push_bit(g));
    fn walk(&self, ms: &[J]) -> X { walk(self.0.iter(), ms, |b| J::ints(&[b as i64])) }
    fn items(&self) -> u64 { self.0.bit_len() }
}
struct FIv<B: Blk>(IntVector<B>, bool);
impl<B: Blk> Far for FIv<B> {
    base!(B); query_mut!();
    fn scan(&self) -> Vec<u64> { scan_dense(&self.0, self.1) }
    fn truncate(&mut self, n: u64) { self.0.truncate(n) }
    fn block_truncate(&mut self, k: usize) { self.0.block_truncate(k) }
    fn block_resize(&mut self, k: usize) { let g = self.1; self.0.block_resize(k, B::of64(if g { !0 } else { 0 })) }
    fn get(&self, i: u64) -> u64 { IntVec::get(&self.0, i).to64() }
    fn set(&mut self, i: u64, v: u64) { IntVecMut::set(&mut self.0, i, B::of64(v)) }
    fn push(&mut self, v: u64) { self.0.push(B::of64(v)) }
    fn pop(&mut self) -> Option<u64> { self.0.pop().map(|b| b.to64()) }
    fn get_random(&self, o: u64, c: usize, i: u64) -> u64 { self.0.get_random(o, c, i).to64() }
    fn set_random(&mut self, o: u64, c: usize, i: u64, v: u64) { self.0.set_random(o, c, i, B::of64(v)) }
    fn iv_resize(&mut self, n: u64, v: u64) { self.0.resize(n, B::of64(v)) }
    compare!(|c: &mut IntVector<B>, p: u64| c.push(B::of64(p)));
    room!(|v: &IntVector<B>| IntVec::len(v), |v: &IntVector<B>| v.element_bits() as u64, |e, n| IntVector::with_capacity(e, n), |e, n| IntVector::block_with_capacity(e, n),
          |v: &mut IntVector<B>, g: bool| { let e = v.element_bits(); v.push(B::of64(if g { !0u64 >> (64 - e) } else { 0 })) });
    fn walk(&self, ms: &[J]) -> X { walk(self.0.iter(), ms, |b| jbits(b.to64(), B::W)) }
    fn items(&self) -> u64 { IntVec::len(&self.0) }
}
/// A plain vector of blocks.
struct FVec<B: Blk>(Vec<B>, bool);
impl<B: Blk> Far for FVec<B> { base!(B); query_mut!(); fn scan(&self) -> Vec<u64> { scan_dense(&self.0, self.1) } }
struct FSBlk<B: Blk>(SBlk<B>);
impl<B: Blk> Far for FSBlk<B> { base!(B); query_mut!(); fn scan(&self) -> Vec<u64> { (self.0).0.ex.iter().cloned().collect() } }
struct FSBit<B: Blk>(SBit<B>);
impl<B: Blk> Far for FSBit<B> { base!(B); query_mut!(); pushes!(B); fn scan(&self) -> Vec<u64> { (self.0).0.ex.iter().cloned().collect() } }

struct FJac<B: Blk>(JacobsonRank<BitVector<B>>, bool);
impl<B: Blk> Far for FJac<B> { base!(B); query_ro!(); ranks!(); fn scan(&self) -> Vec<u64> { scan_dense(&self.0, self.1) } }
struct FR9(Rank9<BitVector<u64>>, bool);
impl Far for FR9 { base!(u64); query_ro!(); ranks!(); fn scan(&self) -> Vec<u64> { scan_dense(&self.0, self.1) } }
struct FSelJ<B: Blk>(BinSearchSelect<JacobsonRank<BitVector<B>>>, bool);
impl<B: Blk> Far for FSelJ<B> { base!(B); query_ro!(); ranks!(); selects!(); fn scan(&self) -> Vec<u64> { scan_dense(&self.0, self.1) } }
struct FSel9(BinSearchSelect<Rank9<BitVector<u64>>>, bool);
impl Far for FSel9 { base!(u64); query_ro!(); ranks!(); selects!(); fn scan(&self) -> Vec<u64> { scan_dense(&self.0, self.1) } }
/// Rank and select only.
struct FUsr(BinSearchSelect<SRank>);
impl Far for FUsr {
    fn lens(&self) -> (u64, usize) { let n = self.0.inner().0.n; (n, (n as u128).div_ceil(8) as usize) }
    fn query(&mut self, _: &[(u64, u64)], _: i64, _: &Q) -> X { nope() }
    fn scan(&self) -> Vec<u64> { self.0.inner().0.ex.iter().cloned().collect() }
    ranks!(); selects!();
}
struct FSym(BinSearchSelect<SSym>);
impl Far for FSym {
    fn lens(&self) -> (u64, usize) { let n = self.0.inner().0.n; (n, (n as u128).div_ceil(8) as usize) }
    fn query(&mut self, _: &[(u64, u64)], _: i64, _: &Q) -> X { nope() }
    fn scan(&self) -> Vec<u64> { self.0.inner().0.ex.iter().cloned().collect() }
    fn limit(&self) -> u64 { self.0.limit() }
    fn rank_sym(&self, p: u64, x: u8, _: bool) -> u64 { self.0.rank(p, x) }
    fn select_sym(&self, k: u64, x: u8, _: bool) -> Option<u64> { self.0.select(k, x) }
}
struct FBufV<B: Blk>(BitBuffer<BitVector<B>>, bool);
impl<B: Blk> Far for FBufV<B> { base!(B); query_mut!(); bufs!(); fn scan(&self) -> Vec<u64> { scan_dense(self.0.inner(), self.1) } }
struct FBufS<B: Blk>(BitBuffer<SBit<B>>);
impl<B: Blk> Far for FBufS<B> { base!(B); query_mut!(); bufs!(); fn scan(&self) -> Vec<u64> { (self.0.inner().0).ex.iter().cloned().collect() } }

fn dense<B: Blk>(n: u64, g: bool, ex: &BTreeSet<u64>) -> BitVector<B> {
    // with_fill does the same, one bit at a time
    if n < 1 << 18 {
        let mut v = BitVector::<B>::with_fill(n, g);
        for p in ex { v.set_bit(*p, !g) }
        return v;
    }
    let nb = (n as u128).div_ceil(B::W as u128) as usize;
    let mut v = BitVector::<B>::block_with_fill(nb, if g { B::of64(!0) } else { B::of64(0) });
    v.truncate(n);
    for p in ex { v.set_bit(*p, !g) }
    v
}
fn make(o: &J) -> Box<dyn Far> {
    let (n, g) = (unwide(o.get("len").unwrap()) as u64, o.n("g") == 1);
    let ex: BTreeSet<u64> = o.get("ex").unwrap().arr().iter().map(|p| unwide(p) as u64).collect();
    let sp = Sparse { n, g, ex: ex.clone() };
    let (w, us, eb) = (o.n("w") as usize, o.n("us"), o.n("eb") as usize);
    match o.s("k") {
        "bv" => per_block!(w, us, B => Box::new(FBv::<B>(dense(n, g, &ex), g))),
        "iv" => per_block!(w, us, B => {
            if n < 1 << 18 {
                let mut v = IntVector::<B>::with_fill(eb, n / eb as u64, B::of64(if g { !0u64 >> (64 - eb) } else { 0 }));
                for p in &ex { v.set_bit(*p, !g) }
                return Box::new(FIv::<B>(v, g));
            }
            let nb = (n as u128).div_ceil(w as u128) as usize;
            let mut v = IntVector::<B>::block_with_fill(eb, nb, if g { B::of64(!0) } else { B::of64(0) });
            v.truncate(n / eb as u64);
            for p in &ex { v.set_bit(*p, !g) }
            Box::new(FIv::<B>(v, g))
        }),
        "vec" => per_block!(w, us, B => {
            let mut v = vec![B::of64(if g { !0 } else { 0 }); (n / w as u64) as usize];
            for p in &ex { let k = (p / w as u64) as usize; v[k] = B::of64(v[k].to64() ^ (1 << (p % w as u64))) }
            Box::new(FVec::<B>(v, g))
        }),
        "sblk" => per_block!(w, us, B => Box::new(FSBlk(SBlk::<B>(sp, std::marker::PhantomData)))),
        "sbit" => per_block!(w, us, B => Box::new(FSBit(SBit::<B>(sp, std::marker::PhantomData)))),
        "jac" => per_block!(w, us, B => Box::new(FJac::<B>(JacobsonRank::new(dense(n, g, &ex)), g))),
        "rank9" => Box::new(FR9(Rank9::new(dense(n, g, &ex)), g)),
        "selj" => per_block!(w, us, B => Box::new(FSelJ::<B>(BinSearchSelect::new(JacobsonRank::new(dense(n, g, &ex))), g))),
        "sel9" => Box::new(FSel9(BinSearchSelect::new(Rank9::new(dense(n, g, &ex))), g)),
        "usr" => Box::new(FUsr(BinSearchSelect::new(SRank(sp)))),
        "sym" => Box::new(FSym(BinSearchSelect::new(SSym(sp)))),
        "bufv" => per_block!(w, us, B => Box::new(FBufV::<B>(BitBuffer::from(dense(n, g, &ex)), g))),
        "bufs" => per_block!(w, us, B => Box::new(FBufS(BitBuffer::from(SBit::<B>(sp, std::marker::PhantomData))))),
        k => panic!("harness: kind {}", k),
    }
}

/// Ok(result), or Err(1) refused, Err(2) an error returned.
fn perform(f: &mut Box<dyn Far>, o: &J) -> Result<X, i64> {
    let a = o.get("a").unwrap().arr();
    let num = |i: usize| u64::try_from(unwide(&a[i])).expect("harness: argument");
    let bit = |i: usize| a[i].num() == 1;
    let v = |i: usize| unbits(&a[i]);
    let path: Vec<(u64, u64)> = o.get("path").map_or(vec![], |p| p.arr().iter().map(|r| (unwide(&r.arr()[0]) as u64, unwide(&r.arr()[1]) as u64)).collect());
    let mode = o.n("mode");
    let w = o.n("w") as usize;
    let b = |x: Option<bool>| x.map_or(vec![], |b| vec![J::N(b as i64)]);
    let (own, q) = (mode & 1 == 1, |f: &mut Box<dyn Far>, q: Q| f.query(&path, mode, &q));
    let r = catch_unwind(AssertUnwindSafe(|| Ok(match o.s("op") {
        "slen" => q(f, Q::Len),
        "get_bit" => q(f, Q::GetBit(num(0))),
        "get_bits" => q(f, Q::GetBits(num(0), num(1) as usize)),
        "get_block" => q(f, Q::GetBlock(num(0) as usize)),
        "set_bit" => q(f, Q::SetBit(num(0), bit(1))),
        "set_bits" => q(f, Q::SetBits(num(0), num(1) as usize, v(2))),
        "set_block" => q(f, Q::SetBlock(num(0) as usize, v(1))),
        "push_bit" => { f.push_bit(bit(0)); vec![] }
        "pop_bit" => b(f.pop_bit()),
        "push_block" => { f.push_block(v(0)); vec![] }
        "align_block" => { f.align(bit(0)); vec![] }
        "truncate" | "iv_truncate" => { f.truncate(num(0)); vec![] }
        "resize" => { f.resize(num(0), bit(1)); vec![] }
        "block_truncate" => { f.block_truncate(num(0) as usize); vec![] }
        "block_resize" => { f.block_resize(num(0) as usize); vec![] }
        "get" => jbits(f.get(num(0)), w).arr().to_vec(),
        "set" => { f.set(num(0), v(1)); vec![] }
        "push" => { f.push(v(0)); vec![] }
        "pop" => f.pop().map_or(vec![], |x| vec![jbits(x, w)]),
        "get_random" => jbits(f.get_random(num(0), num(1) as usize, num(2)), w).arr().to_vec(),
        "set_random" => { f.set_random(num(0), num(1) as usize, num(2), v(3)); vec![] }
        "iv_resize" => { f.iv_resize(num(0), v(1)); vec![] }
        "compare" => f.compare(a),
        "room" => f.room(a),
        "walk" => f.walk(a[0].arr()),
        "rank" => vec![wide(f.rank_sym(num(0), a[1].num() as u8, own) as u128)],
        "limit" => vec![wide(f.limit() as u128)],
        "select" => f.select_sym(num(0), a[1].num() as u8, own).map_or(vec![], |p| vec![wide(p as u128)]),
        "seek" => { if !f.seek(num(0)) { return Err(2) } vec![] }
        "read" => b(f.read()),
        "write" => { f.write(bit(0)); vec![] }
        "wint" => { f.wint(a[0].num() as usize, bit(1), v(2)); vec![] }
        "rint" => match f.rint(a[0].num() as usize, bit(1)) { Ok(Some(x)) => jbits(x, 64).arr().to_vec(), Ok(None) => return Err(3), Err(_) => return Err(2) },
        "scan" => f.scan().iter().map(|p| wide(*p as u128)).collect(),
        n => panic!("harness: unknown operation {}", n),
    })));
    r.unwrap_or(Err(1))
}

fn replay(ops: Vec<J>, rec: &mut Recorder) {
    let mut f: Option<Box<dyn Far>> = None;
    let mut made = J::obj();
    for mut o in ops {
        if o.s("op") == "make" {
            f = None; // before the next is allocated
            let _ = &f;
            o.set("a", J::A(vec![]));
            made = o.clone();
            rec.cur(&o);
            f = Some(make(&o));
            o.set("p", J::N(0)); o.set("x", J::A(vec![]));
        } else {
            for k in ["k", "w"] { o.set(k, made.get(k).unwrap().clone()) }
            rec.cur(&o);
            match perform(f.as_mut().unwrap(), &o) {
                Ok(x) => { o.set("p", J::N(0)); o.set("x", J::A(x)) }
                Err(p) => { o.set("p", J::N(p)); o.set("x", J::A(vec![])) }
            }
        }
        let f = f.as_ref().unwrap();
        match catch_unwind(AssertUnwindSafe(|| (f.lens(), f.pos(), f.items()))) {
            Ok(((n, nb), pos, items)) => {
                o.set("n", wide(n as u128)); o.set("nb", wide(nb as u128)); o.set("pos", wide(pos as u128));
                if o.s("op") == "walk" { o.set("items", wide(items as u128)) }
            }
            Err(_) => { o.set("p", J::N(3)); }
        }
        if o.get("path").is_none() { o.set("path", J::A(vec![])) }
        rec.emit(&o);
    }
}

fn main() { main_with(|_, _: Rng, _, _| panic!("harness: nothing to record"), replay) }
