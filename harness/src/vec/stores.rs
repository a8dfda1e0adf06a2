//! Every kind of bit store of the library behind one object-safe interface.
use harness::blk::*;
pub use harness::users::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::any::Any;
use succinct::bit_vec::{BitSlice, BitSliceMut, BitVec, BitVecMut, BitVecPush, BitVector};
use succinct::int_vec::{IntVec, IntVecMut, IntVector};

#[derive(Clone, Copy, Debug)]
pub enum Q { Len, GetBit(u64), GetBlock(usize), GetBits(u64, usize), SetBit(u64, bool), SetBlock(usize, u64), SetBits(u64, usize, u64) }

#[derive(Clone, Copy, Debug)]
pub struct Rng3 { pub form: u8, pub s: u64, pub e: u64 }

pub fn ro<T: BitVec + ?Sized>(t: &T, q: Q) -> Vec<i64> where T::Block: Blk {
    let w = <T::Block as Blk>::W;
    match q {
        Q::Len => vec![cap(BitVec::bit_len(t)), BitVec::block_len(t) as i64],
        Q::GetBit(i) => vec![BitVec::get_bit(t, i) as i64],
        Q::GetBlock(k) => bits(BitVec::get_block(t, k).to64(), w),
        Q::GetBits(s, c) => bits(BitVec::get_bits(t, s, c).to64(), w),
        _ => panic!("harness: write through a read-only store"),
    }
}
pub fn rw<T: BitVecMut + ?Sized>(t: &mut T, q: Q) -> Vec<i64> where T::Block: Blk {
    match q {
        Q::SetBit(i, x) => BitVecMut::set_bit(t, i, x),
        Q::SetBlock(k, v) => BitVecMut::set_block(t, k, T::Block::of64(v)),
        Q::SetBits(s, c, v) => BitVecMut::set_bits(t, s, c, T::Block::of64(v)),
        _ => return ro(t, q),
    }
    vec![]
}

macro_rules! by_form { ($r:expr, $f:expr) => { match $r.form { 0 => $f(..), 1 => $f(..$r.e), 2 => $f($r.s..), _ => $f($r.s..$r.e) } } }

fn new_slice<'a, T: BitVec + ?Sized>(t: &'a T, r: Rng3) -> BitSlice<'a, T> {
    match r.form { 0 => BitSlice::new(t, ..), 1 => BitSlice::new(t, ..r.e), 2 => BitSlice::new(t, r.s..), _ => BitSlice::new(t, r.s..r.e) }
}
fn sub<'a, T: BitVec + ?Sized>(t: &BitSlice<'a, T>, r: Rng3) -> BitSlice<'a, T> {
    match r.form { 0 => t.slice(..), 1 => t.slice(..r.e), 2 => t.slice(r.s..), _ => t.slice(r.s..r.e) }
}
fn subs<'a, T: BitVec + ?Sized>(t: &'a T, p: &[Rng3]) -> BitSlice<'a, T> {
    let mut s = new_slice(t, p[0]);
    for r in &p[1..] { s = sub(&s, *r); }
    s
}
/// Query through a path of slices; `split` > 0 starts a second, independent slice (over the first) there.
pub fn sliced<T: BitVec + ?Sized>(t: &T, p: &[Rng3], split: usize, q: Q) -> Vec<i64> where T::Block: Blk {
    if p.is_empty() { return ro(t, q); }
    if split > 0 && split < p.len() {
        let s1 = subs(t, &p[..split]);
        let s2 = subs(&s1, &p[split..]);
        return ro(&s2, q);
    }
    ro(&subs(t, p), q)
}
fn go_mut<T: BitVecMut + ?Sized>(s: &mut BitSliceMut<T>, p: &[Rng3], q: Q) -> Vec<i64> where T::Block: Blk {
    if p.is_empty() { return rw(s, q); }
    let r = p[0];
    let mut n = match r.form { 0 => s.slice_mut(..), 1 => s.slice_mut(..r.e), 2 => s.slice_mut(r.s..), _ => s.slice_mut(r.s..r.e) };
    go_mut(&mut n, &p[1..], q)
}
/// As `sliced`, through mutable slices; `last_imm` takes the last range with `slice`; `split` nests as in `sliced`.
pub fn sliced_mut<T: BitVecMut + ?Sized>(t: &mut T, p: &[Rng3], split: usize, last_imm: bool, q: Q) -> Vec<i64> where T::Block: Blk {
    if p.is_empty() { return rw(t, q); }
    let r = p[0];
    let mut s = match r.form { 0 => BitSliceMut::new(t, ..), 1 => BitSliceMut::new(t, ..r.e), 2 => BitSliceMut::new(t, r.s..), _ => BitSliceMut::new(t, r.s..r.e) };
    if split == 1 && p.len() > 1 {
        let r = p[1];
        let mut s2 = match r.form { 0 => BitSliceMut::new(&mut s, ..), 1 => BitSliceMut::new(&mut s, ..r.e), 2 => BitSliceMut::new(&mut s, r.s..), _ => BitSliceMut::new(&mut s, r.s..r.e) };
        return go_mut(&mut s2, &p[2..], q);
    }
    if last_imm && p.len() == 2 {
        let r = p[1];
        return ro(&by_form!(r, |x| s_slice(&s, x)), q);
    }
    go_mut(&mut s, &p[1..], q)
}
fn s_slice<'a, T: BitVecMut + ?Sized, R: succinct::bit_vec::IntoRange<u64>>(s: &'a BitSliceMut<T>, r: R) -> BitSlice<'a, T> { s.slice(r) }

pub trait DynIter {
    fn next(&mut self) -> Option<Vec<i64>>;
    fn back(&mut self) -> Option<Vec<i64>>;
    fn nth(&mut self, n: usize) -> Option<Vec<i64>>;
    fn nth_back(&mut self, n: usize) -> Option<Vec<i64>>;
    fn len(&self) -> usize;
    fn hint(&self) -> (usize, Option<usize>);
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<Vec<i64>>;
    fn collect(self: Box<Self>) -> Vec<i64>;
    fn rev(self: Box<Self>) -> Vec<i64>;
    fn dup(&self) -> Box<dyn DynIter>;
    /// The ways that use the iterator up.
    fn used(self: Box<Self>, how: &str, k: usize, v: &[i64]) -> Vec<i64>;
    /// Those that may leave some of it.
    fn partly(&mut self, how: &str, k: usize, v: &[i64]) -> Vec<i64>;
}
struct It<I, F>(I, F);
impl<T: Ord + Copy, I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone + 'static, F: Fn(T) -> Vec<i64> + Copy + 'static> DynIter for It<I, F> {
    fn next(&mut self) -> Option<Vec<i64>> { self.0.next().map(self.1) }
    fn back(&mut self) -> Option<Vec<i64>> { self.0.next_back().map(self.1) }
    fn nth(&mut self, n: usize) -> Option<Vec<i64>> { self.0.nth(n).map(self.1) }
    fn nth_back(&mut self, n: usize) -> Option<Vec<i64>> { self.0.nth_back(n).map(self.1) }
    fn len(&self) -> usize { self.0.len() }
    fn hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    fn count(self: Box<Self>) -> usize { self.0.count() }
    fn last(self: Box<Self>) -> Option<Vec<i64>> { let f = self.1; self.0.last().map(f) }
    fn collect(self: Box<Self>) -> Vec<i64> { let f = self.1; let mut v = vec![]; for x in self.0 { v.extend(f(x)) } v }
    fn rev(self: Box<Self>) -> Vec<i64> { let f = self.1; let mut v = vec![]; for x in self.0.rev() { v.extend(f(x)) } v }
    fn dup(&self) -> Box<dyn DynIter> { Box::new(It(self.0.clone(), self.1)) }
    fn used(self: Box<Self>, how: &str, k: usize, v: &[i64]) -> Vec<i64> {
        let It(it, f) = *self;
        let add = |mut a: Vec<i64>, x: T| { a.extend(f(x)); a };
        match how {
            "fold" => it.fold(vec![], add),
            "for_each" => { let mut a = vec![]; it.for_each(|x| a.extend(f(x))); a }
            "rfold" => it.rfold(vec![], add),
            "step" => it.step_by(k + 1).fold(vec![], add),
            "skip" => it.skip(k).fold(vec![], add),
            "rskip" => it.rev().skip(k).fold(vec![], add),
            "max" => it.max().map_or(vec![], f),
            "min" => it.min().map_or(vec![], f),
            "sorted" => vec![it.is_sorted() as i64],
            "cmp" => { let o = it.clone().skip(k); vec![it.cmp(o) as i64] }
            "eq" => { let o = it.clone().skip(k); vec![it.eq(o) as i64] }
            "reduce" => { let mut a: Vec<i64> = vec![]; let last = it.reduce(|x, y| { if a.is_empty() { a.extend(f(x)) } a.extend(f(y)); y }); a.extend(last.map_or(vec![], f)); a }
            "ties" => { let mut a = it.clone().max_by(|_, _| std::cmp::Ordering::Equal).map_or(vec![], f); a.extend(it.clone().min_by_key(|_| 0).map_or(vec![], f));
                a.extend(it.clone().max_by_key(|x| std::cmp::Reverse(*x)).map_or(vec![], f)); a.extend(it.min_by(|x, y| y.cmp(x)).map_or(vec![], f)); a }
            "order" => { let o = || it.clone().skip(k); let j = || it.clone();
                let mut a: Vec<i64> = [j().ne(o()), j().lt(o()), j().le(o()), j().gt(o()), j().ge(o())].iter().map(|b| *b as i64).collect();
                a.push(j().partial_cmp(o()).unwrap() as i64); a }
            "cycle" => it.cycle().take(k).fold(vec![], add),
            "zip" => { let o = it.clone().skip(k); it.zip(o).fold(vec![], |a, (x, y)| add(add(a, x), y)) }
            "rstep" => it.rev().step_by(k + 1).fold(vec![], add),
            "vec" => { let v: Vec<T> = it.collect(); v.into_iter().fold(vec![], add) }
            "chain" => it.clone().skip(k).chain(it.take(k)).fold(vec![], add),
            "skip_while" => it.skip_while(|x| f(*x) != v).fold(vec![], add),
            "partition" => { let (a, b): (Vec<T>, Vec<T>) = it.partition(|x| f(*x) == v); a.into_iter().chain(b).fold(vec![], add) }
            h => panic!("harness: {}", h),
        }
    }
    fn partly(&mut self, how: &str, k: usize, v: &[i64]) -> Vec<i64> {
        let f = self.1;
        let add = |mut a: Vec<i64>, x: T| { a.extend(f(x)); a };
        let it = &mut self.0;
        match how {
            "take" => it.by_ref().take(k).fold(vec![], add),
            "rtake" => it.by_ref().rev().take(k).fold(vec![], add),
            "try_fold" => { let mut n = 0; let (Ok(a) | Err(a)) = it.try_fold(vec![], |a, x| { n += 1; let a = add(a, x); if n > k { Err(a) } else { Ok(a) } }); a }
            "try_rfold" => { let mut n = 0; let (Ok(a) | Err(a)) = it.try_rfold(vec![], |a, x| { n += 1; let a = add(a, x); if n > k { Err(a) } else { Ok(a) } }); a }
            "all" => vec![it.all(|x| f(x) == v) as i64],
            "any" => vec![it.any(|x| f(x) == v) as i64],
            "find" => it.find(|x| f(*x) == v).map_or(vec![], f),
            "position" => vec![it.position(|x| f(x) == v).map_or(-1, |p| p as i64)],
            "find_map" => it.find_map(|x| if f(x) == v { Some(f(x)) } else { None }).unwrap_or_default(),
            "take_while" => it.by_ref().take_while(|x| f(*x) != v).fold(vec![], add),
            "try_each" => { let mut a = vec![]; let _ = it.try_for_each(|x| { a.extend(f(x)); if f(x) == v { Err(()) } else { Ok(()) } }); a }
            "rfind" => it.rfind(|x| f(*x) == v).map_or(vec![], f),
            "rposition" => vec![it.rposition(|x| f(x) == v).map_or(-1, |p| p as i64)],
            h => panic!("harness: {}", h),
        }
    }
}

pub trait Store: Any {
    fn kind(&self) -> &'static str;
    fn w(&self) -> usize;
    fn eb(&self) -> usize { 1 }
    fn query(&mut self, path: &[Rng3], split: usize, mu: u8, q: Q) -> Vec<i64>;
    /// bit_len, block_len
    fn lens(&self) -> (u64, usize);
    /// All blocks (owned vectors) or all bits (others).
    fn dump(&self) -> Vec<i64>;
    fn clone_box(&self) -> Box<dyn Store>;
    /// clone_from, if the other is of the same type
    fn clone_over(&mut self, _: &dyn Store) -> bool { false }
    fn any(&self) -> &dyn Any;
    fn has_rw(&self) -> bool { true }
    fn has_push(&self) -> bool { false }
    fn push_bit(&mut self, _: bool) { nope() }
    fn pop_bit(&mut self) -> Option<bool> { nope() }
    fn align(&mut self, _: bool) { nope() }
    fn push_block(&mut self, _: u64) { nope() }
    // owned vectors
    fn caps(&self) -> (u64, usize) { nope() }
    fn resize(&mut self, _: u64, _: u64) { nope() }
    fn block_resize(&mut self, _: usize, _: u64) { nope() }
    fn reserve(&mut self, _: u64) { nope() }
    fn reserve_exact(&mut self, _: u64) { nope() }
    fn block_reserve(&mut self, _: usize) { nope() }
    fn block_reserve_exact(&mut self, _: usize) { nope() }
    fn shrink(&mut self) { nope() }
    fn truncate(&mut self, _: u64) { nope() }
    fn block_truncate(&mut self, _: usize) { nope() }
    fn clear(&mut self) { nope() }
    fn fmt_bin(&self) -> String { nope() }
    fn cmp(&self, _: &dyn Store) -> Vec<i64> { nope() }
    /// The iterator borrows the store for as long as the machine keeps both.
    unsafe fn iter(&self, _into: bool) -> Box<dyn DynIter> { nope() }
    // integer vectors
    fn get(&self, _: u64) -> u64 { nope() }
    fn set(&mut self, _: u64, _: u64) { nope() }
    fn push(&mut self, _: u64) { nope() }
    fn pop(&mut self) -> Option<u64> { nope() }
    fn get_random(&self, _: u64, _: usize, _: u64) -> u64 { nope() }
    fn set_random(&mut self, _: u64, _: usize, _: u64, _: u64) { nope() }
    fn info(&self) -> Vec<i64> { nope() }
}
fn nope() -> ! { panic!("harness: operation not supported by this store") }

fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn cmp4<T: Ord + Hash>(a: &T, b: &T) -> Vec<i64> {
    let o = |o: std::cmp::Ordering| match o { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, std::cmp::Ordering::Greater => 2 };
    let eq = a == b;
    let ne = a != b;
    vec![if eq == !ne { eq as i64 } else { 2 }, o(a.cmp(b)), a.partial_cmp(b).map_or(3, o), (hash(a) == hash(b)) as i64]
}
fn dump_blocks<T: BitVec>(t: &T) -> Vec<i64> where T::Block: Blk {
    let mut v = Vec::new();
    for i in 0..t.block_len() { v.extend(bits(t.get_block(i).to64(), <T::Block as Blk>::W)) }
    v
}

macro_rules! common { ($k:expr) => {
    fn kind(&self) -> &'static str { $k }
    fn lens(&self) -> (u64, usize) { (BitVec::bit_len(&self.0), BitVec::block_len(&self.0)) }
    fn clone_box(&self) -> Box<dyn Store> { Box::new(Self(self.0.clone())) }
    fn clone_over(&mut self, o: &dyn Store) -> bool { match o.any().downcast_ref::<Self>() { Some(o) => { self.0.clone_from(&o.0); true } None => false } }
    fn any(&self) -> &dyn Any { self }
} }
macro_rules! q_mut { () => {
    fn query(&mut self, path: &[Rng3], split: usize, mu: u8, q: Q) -> Vec<i64> {
        let write = matches!(q, Q::SetBit(..) | Q::SetBlock(..) | Q::SetBits(..));
        if write || mu > 0 { sliced_mut(&mut self.0, path, split, mu == 2 && !write, q) } else { sliced(&self.0, path, split, q) }
    }
} }
macro_rules! owned { () => {
    fn reserve(&mut self, n: u64) { self.0.reserve(n) }
    fn reserve_exact(&mut self, n: u64) { self.0.reserve_exact(n) }
    fn block_reserve(&mut self, n: usize) { self.0.block_reserve(n) }
    fn block_reserve_exact(&mut self, n: usize) { self.0.block_reserve_exact(n) }
    fn shrink(&mut self) { self.0.shrink_to_fit() }
    fn truncate(&mut self, n: u64) { self.0.truncate(n) }
    fn block_truncate(&mut self, n: usize) { self.0.block_truncate(n) }
    fn clear(&mut self) { self.0.clear() }
    fn caps(&self) -> (u64, usize) { (self.0.capacity(), self.0.block_capacity()) }
    fn block_resize(&mut self, n: usize, v: u64) { self.0.block_resize(n, B::of64(v)) }
    fn cmp(&self, o: &dyn Store) -> Vec<i64> { match o.any().downcast_ref::<Self>() { Some(o) => cmp4(&self.0, &o.0), None => nope() } }
    fn dump(&self) -> Vec<i64> { dump_blocks(&self.0) }
    fn w(&self) -> usize { B::W }
} }
macro_rules! pushes { ($b:ty) => {
    fn has_push(&self) -> bool { true }
    fn push_bit(&mut self, x: bool) { BitVecPush::push_bit(&mut self.0, x) }
    fn pop_bit(&mut self) -> Option<bool> { BitVecPush::pop_bit(&mut self.0) }
    fn align(&mut self, x: bool) { BitVecPush::align_block(&mut self.0, x) }
    fn push_block(&mut self, v: u64) { BitVecPush::push_block(&mut self.0, <$b>::of64(v)) }
} }

pub struct Bv<B: Blk>(pub BitVector<B>);
impl<B: Blk> Store for Bv<B> {
    common!("bv"); q_mut!(); owned!(); pushes!(B);
    fn resize(&mut self, n: u64, v: u64) { self.0.resize(n, v != 0) }
    fn fmt_bin(&self) -> String { format!("{:b}", self.0) }
    unsafe fn iter(&self, into: bool) -> Box<dyn DynIter> {
        let s: &'static BitVector<B> = &*(&self.0 as *const _);
        Box::new(It(if into { s.into_iter() } else { s.iter() }, |b: bool| vec![b as i64]))
    }
}

pub struct Iv<B: Blk>(pub IntVector<B>);
impl<B: Blk> Store for Iv<B> {
    common!("iv"); q_mut!(); owned!();
    fn eb(&self) -> usize { self.0.element_bits() }
    fn resize(&mut self, n: u64, v: u64) { self.0.resize(n, B::of64(v)) }
    unsafe fn iter(&self, into: bool) -> Box<dyn DynIter> {
        let s: &'static IntVector<B> = &*(&self.0 as *const _);
        Box::new(It(if into { s.into_iter() } else { s.iter() }, |b: B| bits(b.to64(), B::W)))
    }
    fn get(&self, i: u64) -> u64 { IntVec::get(&self.0, i).to64() }
    fn set(&mut self, i: u64, v: u64) { IntVecMut::set(&mut self.0, i, B::of64(v)) }
    fn push(&mut self, v: u64) { self.0.push(B::of64(v)) }
    fn pop(&mut self) -> Option<u64> { self.0.pop().map(|b| b.to64()) }
    fn get_random(&self, o: u64, c: usize, i: u64) -> u64 { self.0.get_random(o, c, i).to64() }
    fn set_random(&mut self, o: u64, c: usize, i: u64, v: u64) { self.0.set_random(o, c, i, B::of64(v)) }
    fn info(&self) -> Vec<i64> {
        vec![cap(IntVec::len(&self.0)), IntVec::is_empty(&self.0) as i64, IntVec::element_bits(&self.0) as i64,
             self.0.is_block_sized() as i64, self.0.is_aligned() as i64]
    }
}

/// One primitive block seen as a bit vector.
pub struct Prim<B: Blk + BitVec<Block = B> + BitVecMut>(pub B);
impl<B: Blk + BitVec<Block = B> + BitVecMut> Store for Prim<B> {
    common!("prim"); q_mut!();
    fn w(&self) -> usize { B::W }
    fn dump(&self) -> Vec<i64> { bits(self.0.to64(), B::W) }
}

/// A vector of blocks; `view` picks how it is presented.
pub struct Blocks<B: Blk>(pub Vec<B>, pub u8);
impl<B: Blk> Store for Blocks<B> {
    fn kind(&self) -> &'static str { "blocks" }
    fn lens(&self) -> (u64, usize) {
        match self.1 { 0 => (self.0.bit_len(), self.0.block_len()),
            1 => (self.0[..].bit_len(), self.0[..].block_len()),
            2 => { let s: &[B] = &self.0; (BitVec::bit_len(&s), BitVec::block_len(&s)) }
            _ => { let mut v = self.0.clone(); let s: &mut [B] = &mut v; (BitVec::bit_len(&s), BitVec::block_len(&s)) } }
    }
    fn clone_box(&self) -> Box<dyn Store> { Box::new(Blocks(self.0.clone(), self.1)) }
    fn any(&self) -> &dyn Any { self }
    fn w(&self) -> usize { B::W }
    fn dump(&self) -> Vec<i64> { let mut v = vec![]; for b in &self.0 { v.extend(bits(b.to64(), B::W)) } v }
    fn query(&mut self, path: &[Rng3], split: usize, mu: u8, q: Q) -> Vec<i64> {
        let write = matches!(q, Q::SetBit(..) | Q::SetBlock(..) | Q::SetBits(..));
        match (self.1, write || mu > 0) {
            (0, false) => sliced(&self.0, path, split, q),
            (0, true) => sliced_mut(&mut self.0, path, split, mu == 2 && !write, q),
            (1, false) => sliced(&self.0[..], path, split, q),
            (1, true) => sliced_mut(&mut self.0[..], path, split, mu == 2 && !write, q),
            (2, false) => { let s: &[B] = &self.0; sliced(&s, path, split, q) }
            (_, true) => { let mut s: &mut [B] = &mut self.0; sliced_mut(&mut s, path, split, mu == 2 && !write, q) }
            (_, false) => { let s: &mut [B] = &mut self.0; sliced(&s, path, split, q) }
        }
    }
}

pub struct Bools(pub Vec<bool>);
impl Store for Bools {
    common!("bools"); q_mut!(); pushes!(u8);
    fn w(&self) -> usize { 8 }
    fn dump(&self) -> Vec<i64> { self.0.iter().map(|b| *b as i64).collect() }
}

pub struct OBits<B: Blk>(pub OnlyBits<B>);
impl<B: Blk> Store for OBits<B> {
    common!("obits"); q_mut!(); pushes!(B);
    fn w(&self) -> usize { B::W }
    fn dump(&self) -> Vec<i64> { self.0.raw().iter().map(|b| *b as i64).collect() }
}

pub struct OBlk<B: Blk>(pub OnlyBlocks<B>);
impl<B: Blk> Store for OBlk<B> {
    common!("oblk"); q_mut!();
    fn w(&self) -> usize { B::W }
    fn dump(&self) -> Vec<i64> { self.0.raw() }
}
