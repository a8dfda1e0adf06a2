//! Reported and real memory of structures and their compositions (SpaceTrace).
use harness::alloc::live;
use harness::blk::*;
use harness::json::J;
use harness::rng::Rng;
use harness::run::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use succinct::bit_vec::{BitSlice, BitSliceMut, BitVec, BitVecPush, BitVector};
use succinct::int_vec::{IntVec, IntVector};
use succinct::rank::{JacobsonRank, Rank9};
use succinct::select::BinSearchSelect;
use succinct::SpaceUsage;

#[global_allocator]
static ALLOC: harness::alloc::Counting = harness::alloc::Counting;

/// Something that can be made at random, changed, and described.
trait Own: SpaceUsage {
    fn make(g: &mut Rng, d: u32) -> Self;
    fn churn(&mut self, _: &mut Rng) {}
    fn term(&self) -> J;
}
fn t(name: &str, mut rest: Vec<J>) -> J { let mut v = vec![J::S(name.into())]; v.append(&mut rest); J::A(v) }
fn n(x: usize) -> J { J::N(cap(x as u64)) }

macro_rules! flat { ($($t:ty => $e:expr),* $(,)?) => { $( impl Own for $t { fn make(g: &mut Rng, _: u32) -> Self { let f: fn(u64) -> $t = $e; f(g.next()) } fn term(&self) -> J { t("stack", vec![]) } } )* } }
flat! { () => |_| (), u8 => |x| x as u8, u16 => |x| x as u16, u32 => |x| x as u32, u64 => |x| x, usize => |x| x as usize, i8 => |x| x as i8, i16 => |x| x as i16, i32 => |x| x as i32, i64 => |x| x as i64, isize => |x| x as isize, f32 => |x| x as f32, f64 => |x| x as f64 }
/// A user's stack-only type.
#[derive(Clone, Copy, Debug)] struct Point { _x: u32, _y: u8 }
succinct::impl_stack_only_space_usage!(Point);
impl Own for Point { fn make(_: &mut Rng, _: u32) -> Self { Point { _x: 1, _y: 2 } } fn term(&self) -> J { t("stack", vec![]) } }

/// A large one; one aligned beyond a word; and a user's type holding memory.
#[derive(Clone, Copy, Debug)] struct Wide { _x: [u64; 70] }
succinct::impl_stack_only_space_usage!(Wide);
impl Own for Wide { fn make(g: &mut Rng, _: u32) -> Self { Wide { _x: [g.next(); 70] } } fn term(&self) -> J { t("stack", vec![]) } }
#[derive(Clone, Copy, Debug)] #[repr(align(64))] struct Lined { _x: u8 }
succinct::impl_stack_only_space_usage!(Lined);
impl Own for Lined { fn make(_: &mut Rng, _: u32) -> Self { Lined { _x: 1 } } fn term(&self) -> J { t("stack", vec![]) } }
#[derive(Clone, Debug)] struct Held { v: Vec<u16>, _pad: [u8; 5] }
impl SpaceUsage for Held { fn is_stack_only() -> bool { false } fn heap_bytes(&self) -> usize { self.v.heap_bytes() } }
impl Own for Held { fn make(g: &mut Rng, d: u32) -> Self { Held { v: Own::make(g, d + 1), _pad: [0; 5] } } fn churn(&mut self, g: &mut Rng) { self.v.churn(g) } fn term(&self) -> J { t("tuple", vec![J::A(vec![self.v.term()])]) } }
type V6 = (Vec<u8>, BitVector<u16>, Vec<u64>, IntVector<u8>, Held, Box<u32>);
type V12 = (V6, V6, u8, Vec<u8>, V6, Held, Lined, u16, V6, Vec<u8>, V6, V6);
type J3 = (JacobsonRank<BitVector<u8>>, Rank9<BitVector<u64>>, BinSearchSelect<Rank9<BitVector<u64>>>);

static WORDS: [u64; 9] = [1, 2, 3, 4, 5, 6, 7, 8, !0];
impl Own for &'static u64 { fn make(g: &mut Rng, _: u32) -> Self { &WORDS[g.below(9) as usize] } fn term(&self) -> J { t("stack", vec![]) } }
impl Own for &'static [u64] { fn make(g: &mut Rng, _: u32) -> Self { &WORDS[..g.below(10) as usize] } fn term(&self) -> J { t("stack", vec![]) } }
impl Own for &'static [u8] { fn make(g: &mut Rng, _: u32) -> Self { &BYTES[..g.below(10) as usize] } fn term(&self) -> J { t("stack", vec![]) } }
static BYTES: [u8; 9] = [1, 2, 3, 4, 5, 6, 7, 8, !0];
impl Own for BitSlice<'static, u64> { fn make(g: &mut Rng, _: u32) -> Self { let a = g.below(30); BitSlice::new(&WORDS[3], a..a + g.below(20)) } fn term(&self) -> J { t("stack", vec![]) } }
impl Own for BitSlice<'static, [u64]> { fn make(g: &mut Rng, _: u32) -> Self { BitSlice::new(&WORDS[..], 0..g.below(500)) } fn term(&self) -> J { t("stack", vec![]) } }

fn bits_n(g: &mut Rng, d: u32) -> u64 { match g.below(8) { 0 => 0, 1 => 1, 2 | 3 => g.below(200), 4 => g.below(1000), _ => g.below(if d == 0 { 60_000 } else { 700 }) } }
impl<B: Blk + std::fmt::Debug> Own for BitVector<B> {
    fn make(g: &mut Rng, d: u32) -> Self {
        let k = bits_n(g, d);
        let mut v = match g.below(5) { 0 => BitVector::new(), 1 => BitVector::with_capacity(k), 2 => BitVector::with_fill(k, true), 3 => BitVector::block_with_capacity((k / B::W as u64) as usize), _ => BitVector::block_with_fill((k / B::W as u64) as usize, B::of64(g.next())) };
        for _ in 0..g.below(4) { v.churn(g) }
        v
    }
    fn churn(&mut self, g: &mut Rng) {
        let k = g.below(300);
        match g.below(12) {
            0 => for _ in 0..k { self.push_bit(k & 1 == 1) }, 1 => for _ in 0..k { self.pop_bit(); }, 2 => self.reserve(k * 3), 3 => self.reserve_exact(k), 4 => self.block_reserve(k as usize / 8),
            5 => self.shrink_to_fit(), 6 => { let l = self.bit_len(); self.truncate(l / 2) } 7 => self.resize(k * 4, true), 8 => self.clear(), 9 => *self = self.clone(), 10 => for _ in 0..k / 16 { self.push_block(B::of64(k)) }, _ => self.block_reserve_exact(k as usize / 4),
        }
    }
    fn term(&self) -> J { t("store", vec![n(self.block_capacity()), n(std::mem::size_of::<B>())]) }
}
impl<B: Blk + std::fmt::Debug> Own for IntVector<B> {
    fn make(g: &mut Rng, d: u32) -> Self {
        let eb = g.range(1, B::W as u64) as usize;
        let k = bits_n(g, d) / eb as u64;
        let mut v = match g.below(4) { 0 => IntVector::new(eb), 1 => IntVector::with_capacity(eb, k), 2 => IntVector::with_fill(eb, k, B::of64(g.next() & 1)), _ => IntVector::block_with_capacity(eb, k as usize / 9) };
        for _ in 0..g.below(4) { v.churn(g) }
        v
    }
    fn churn(&mut self, g: &mut Rng) {
        let k = g.below(100);
        match g.below(9) {
            0 | 1 => for _ in 0..k { self.push(B::of64(k & 1)) }, 2 => for _ in 0..k { self.pop(); }, 3 => self.reserve(k), 4 => self.reserve_exact(k), 5 => self.shrink_to_fit(), 6 => { let l = self.len(); self.truncate(l / 2) } 7 => self.resize(k, B::of64(1)), _ => *self = self.clone(),
        }
    }
    fn term(&self) -> J { t("store", vec![n(self.block_capacity()), n(std::mem::size_of::<B>())]) }
}
impl<T: Own + std::fmt::Debug> Own for Vec<T> {
    fn make(g: &mut Rng, d: u32) -> Self {
        let k = g.below(if d == 0 { 9 } else { 4 });
        let mut v = if g.bit() { Vec::new() } else { Vec::with_capacity(g.below(12) as usize) };
        for _ in 0..k { v.push(T::make(g, d + 1)) }
        v
    }
    fn churn(&mut self, g: &mut Rng) { match g.below(5) { 0 => self.push(T::make(g, 1)), 1 => { self.pop(); } 2 => self.shrink_to_fit(), 3 => self.reserve(3), _ => if let Some(x) = self.first_mut() { x.churn(g) } } }
    fn term(&self) -> J { t("vec", vec![if std::mem::size_of::<T>() == 0 { J::N(0) } else { n(self.capacity()) }, n(std::mem::size_of::<T>()), J::A(self.iter().map(|x| x.term()).collect())]) }
}
impl<T: Own> Own for Box<T> {
    fn make(g: &mut Rng, d: u32) -> Self { Box::new(T::make(g, d + 1)) }
    fn churn(&mut self, g: &mut Rng) { (**self).churn(g) }
    fn term(&self) -> J { t("box", vec![n(std::mem::size_of::<T>()), (**self).term()]) }
}
macro_rules! tup { ($($T:ident $i:tt),+) => { impl<$($T: Own),+> Own for ($($T,)+) {
    fn make(g: &mut Rng, d: u32) -> Self { ($($T::make(g, d + 1),)+) }
    fn churn(&mut self, g: &mut Rng) { $( if g.bit() { self.$i.churn(g) } )+ }
    fn term(&self) -> J { t("tuple", vec![J::A(vec![$(self.$i.term()),+])]) }
} } }
tup!(A 0); tup!(A 0, B 1); tup!(A 0, B 1, C 2); tup!(A 0, B 1, C 2, D 3); tup!(A 0, B 1, C 2, D 3, E 4); tup!(A 0, B 1, C 2, D 3, E 4, F 5);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6); tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7); tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8); tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9, L 10); tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9, L 10, M 11);

/// Stores under rank structures: sized to meet every boundary of theirs.
fn rank_len(g: &mut Rng, d: u32, w: u64) -> u64 {
    if d > 0 { return g.below(1500) }
    match g.below(12) { 0 => g.below(4), 1 => g.below(600), 2 | 3 => { let k = g.below(300) * 64; k + g.below(3) } 4 => (1u64 << g.below(19)) + g.below(3) - 1, 5 => g.below(400_000), 6 => g.below(3000), _ => { let k = g.below(600_000 / w) * w; (k + g.below(w)).min(600_000) } }
}
fn bv_len<B: Blk>(g: &mut Rng, k: u64) -> BitVector<B> { let mut v: BitVector<B> = BitVector::with_fill(k, g.bit()); if g.bit() { v.shrink_to_fit() } else if g.bit() { v.reserve(g.below(1000)) } v }
impl<B: Blk + std::fmt::Debug> Own for JacobsonRank<BitVector<B>> {
    fn make(g: &mut Rng, d: u32) -> Self { let k = rank_len(g, d, B::W as u64); JacobsonRank::new(bv_len::<B>(g, k)) }
    fn churn(&mut self, g: &mut Rng) { let c = self.clone(); if g.bit() { *self = c } }
    fn term(&self) -> J { t("jacobson", vec![self.inner().term(), J::N(cap(self.bit_len())), n(B::W), n(self.heap_bytes().wrapping_sub(self.inner().heap_bytes()))]) }
}
impl<B: Blk + std::fmt::Debug> Own for JacobsonRank<Vec<B>> where Vec<B>: BitVec<Block = B>, B: Own {
    fn make(g: &mut Rng, d: u32) -> Self { let k = rank_len(g, d, B::W as u64) as usize / B::W; let mut v = Vec::with_capacity(k + g.below(5) as usize); v.resize(k, B::of64(g.next())); JacobsonRank::new(v) }
    fn term(&self) -> J { t("jacobson", vec![self.inner().term(), J::N(cap(self.bit_len())), n(B::W), n(self.heap_bytes().wrapping_sub(SpaceUsage::heap_bytes(self.inner())))]) }
}
impl Own for JacobsonRank<&'static [u8]> {
    fn make(g: &mut Rng, _: u32) -> Self { JacobsonRank::new(&BYTES[..g.below(10) as usize]) }
    fn term(&self) -> J { t("jacobson", vec![self.inner().term(), J::N(cap(self.bit_len())), n(8), n(self.heap_bytes())]) }
}
impl Own for Rank9<BitVector<u64>> {
    fn make(g: &mut Rng, d: u32) -> Self { let k = rank_len(g, d, 64); Rank9::new(bv_len::<u64>(g, k)) }
    fn churn(&mut self, g: &mut Rng) { let c = self.clone(); if g.bit() { *self = c } }
    fn term(&self) -> J { t("rank9", vec![self.inner().term(), J::N(cap(self.bit_len())), n(self.heap_bytes().wrapping_sub(self.inner().heap_bytes()))]) }
}
impl Own for Rank9<&'static [u64]> {
    fn make(g: &mut Rng, _: u32) -> Self { Rank9::new(&WORDS[..g.below(10) as usize]) }
    fn term(&self) -> J { t("rank9", vec![self.inner().term(), J::N(cap(self.bit_len())), n(self.heap_bytes())]) }
}
impl Own for Rank9<Vec<u64>> {
    fn make(g: &mut Rng, d: u32) -> Self { let k = rank_len(g, d, 64) as usize / 64; Rank9::new(vec![g.next(); k]) }
    fn term(&self) -> J { t("rank9", vec![self.inner().term(), J::N(cap(self.bit_len())), n(self.heap_bytes().wrapping_sub(SpaceUsage::heap_bytes(self.inner())))]) }
}
impl<R: Own + succinct::rank::RankSupport> Own for BinSearchSelect<R> {
    fn make(g: &mut Rng, d: u32) -> Self { BinSearchSelect::new(R::make(g, d)) }
    fn term(&self) -> J { t("tuple", vec![J::A(vec![self.inner().term()])]) }
}

fn observe<T: Own>(x: &T, held: i64, name: &str) -> J {
    let r = catch_unwind(AssertUnwindSafe(|| (T::stack_bytes(), x.heap_bytes(), x.total_bytes(), T::is_stack_only())));
    let e = J::obj().with("ty", J::S(name.into())).with("live", J::N(held)).with("size", n(std::mem::size_of::<T>()));
    match r {
        Ok((s, h, tot, so)) => e.with("p", J::N(0)).with("stack", n(s)).with("heap", n(h)).with("total", n(tot)).with("so", J::N(so as i64)).with("t", x.term()),
        Err(_) => e.with("p", J::N(1)),
    }
}
/// Make a value, watch it through its life, and drop it.
fn life<T: Own>(g: &mut Rng, rec: &mut Recorder, name: &str) {
    let h = J::obj().with("ty", J::S(name.into())).with("seed", J::S(g.0.to_string()));
    rec.cur(&h);
    let seed = J::S(g.0.to_string());
    let base = live();
    let r = catch_unwind(AssertUnwindSafe(|| T::make(g, 0)));
    let mut x = match r { Ok(x) => x, Err(_) => { rec.emit(&J::obj().with("ty", J::S(name.into())).with("seed", seed).with("p", J::N(1))); return } };
    let held = live() - base;
    rec.emit(&observe(&x, held, name).with("seed", seed.clone()));
    let mut total = held;
    for _ in 0..g.below(4) {
        let b = live();
        if catch_unwind(AssertUnwindSafe(|| x.churn(g))).is_err() { rec.emit(&J::obj().with("ty", J::S(name.into())).with("p", J::N(1)).with("seed", seed)); return }
        total += live() - b;
        rec.emit(&observe(&x, total, name).with("seed", seed.clone()));
    }
}

macro_rules! types { ($($T:ty),* $(,)?) => {
    const TYPES: &[&str] = &[$(stringify!($T)),*];
    fn one(name: &str, g: &mut Rng, rec: &mut Recorder) { $( if name == stringify!($T) { life::<$T>(g, rec, name); return } )* panic!("harness: type {}", name) }
} }
types! {
    (), u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, Point, &'static u64, &'static [u64], &'static [u8], BitSlice<'static, u64>, BitSlice<'static, [u64]>,
    (u8, u64), (u8,), (u32, (u8, u16), ()), (u8, u16, u32, u64, i8, i16), (f64, Vec<u8>), (Vec<u16>, Vec<u8>, u8), (u8, u8, u8, Vec<u64>), (Vec<u8>, u8, u8, u8, u8), (u8, Box<u64>, Vec<u8>, u8, u8, BitVector<u8>),
    (u8, u8, u8, u8, u8, u8, Vec<u8>), (u8, u8, u8, u8, u8, u8, u8, Vec<u8>), (Vec<u8>, u8, u8, Box<u8>, u8, u8, u8, u8, Vec<u8>), (u8, u8, u8, u8, Vec<u8>, u8, u8, u8, u8, Vec<u8>),
    (Vec<u8>, u8, u8, u8, u8, u8, u8, u8, u8, u8, Vec<u8>), (Vec<u8>, Box<u16>, u8, u8, u8, Vec<u8>, u8, u8, u8, u8, u8, Vec<u32>),
    (Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>), (Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8),
    Vec<()>, Vec<u8>, Vec<u64>, Vec<(u8, u32)>, Vec<Point>, Vec<&'static u64>, Vec<Vec<u8>>, Vec<Vec<Vec<u16>>>, Vec<(u8, Vec<u8>)>, Vec<Box<u32>>, Vec<Box<Vec<u8>>>, Vec<((u8, Vec<u8>), u8)>,
    Box<()>, Box<u64>, Box<Vec<u32>>, Box<Box<u16>>, Box<(u8, Vec<u8>)>, (Box<u8>, Box<Vec<u8>>), Box<BitVector<u16>>, Box<&'static u64>,
    BitVector<u8>, BitVector<u16>, BitVector<u32>, BitVector<u64>, BitVector<usize>, IntVector<u8>, IntVector<u16>, IntVector<u32>, IntVector<u64>, IntVector<usize>,
    Vec<BitVector<u8>>, Vec<IntVector<u64>>, (BitVector<u8>, IntVector<u32>), Vec<(BitVector<u64>, u8)>,
    JacobsonRank<BitVector<u8>>, JacobsonRank<BitVector<u16>>, JacobsonRank<BitVector<u32>>, JacobsonRank<BitVector<u64>>, JacobsonRank<BitVector<usize>>, JacobsonRank<Vec<u64>>, JacobsonRank<Vec<u8>>, JacobsonRank<&'static [u8]>,
    Rank9<BitVector<u64>>, Rank9<Vec<u64>>, Rank9<&'static [u64]>, BinSearchSelect<JacobsonRank<BitVector<u64>>>, BinSearchSelect<JacobsonRank<BitVector<u8>>>, BinSearchSelect<Rank9<BitVector<u64>>>, BinSearchSelect<u64>, BinSearchSelect<Rank9<&'static [u64]>>,
    Vec<Rank9<BitVector<u64>>>, Vec<JacobsonRank<BitVector<u16>>>, Box<Rank9<BitVector<u64>>>, (Rank9<BitVector<u64>>, JacobsonRank<BitVector<u32>>), Box<BinSearchSelect<Rank9<BitVector<u64>>>>,
    Wide, Lined, Held, (Wide, Wide), (Wide, u8, Vec<u8>), (Lined, Vec<u8>), (u8, Lined, Held), Vec<Wide>, Vec<Lined>, Vec<Held>, Box<Wide>, Box<Lined>, Box<Held>, Vec<(Wide, Vec<u8>)>, Box<(Wide, Held)>, Vec<(Lined, Box<Wide>)>,
    V6, V12, (V12, V12), (u8, V12, Wide, V6), Vec<V6>, Vec<V12>, Box<V12>, (Box<V12>, u8), Vec<Box<V6>>, J3, (J3, J3, u8), (J3, J3, J3, J3, J3, J3), Box<J3>, Vec<(Rank9<BitVector<u64>>, Rank9<BitVector<u64>>)>, (Wide, BitVector<u8>), ((Wide, Vec<u8>), (u8, Box<Held>)),
    ((Vec<u8>,), (Box<u8>,), ((Held,),)), (Vec<Vec<u8>>, Vec<Box<u8>>, Vec<BitVector<u8>>, Vec<IntVector<u16>>, Vec<Held>, Vec<V6>), BinSearchSelect<JacobsonRank<Vec<u8>>>, BinSearchSelect<Rank9<Vec<u64>>>, JacobsonRank<Vec<u16>>, JacobsonRank<Vec<u32>>, JacobsonRank<Vec<usize>>,
}

fn slices(rec: &mut Recorder) {
    let mut w = WORDS.to_vec();
    let n0 = live();
    let s = BitSliceMut::new(&mut w, 3..70);
    let held = live() - n0;
    let e = J::obj().with("ty", J::S("BitSliceMut".into())).with("live", J::N(held)).with("size", n(std::mem::size_of_val(&s))).with("p", J::N(0)).with("stack", n(<BitSliceMut<Vec<u64>> as SpaceUsage>::stack_bytes())).with("heap", n(s.heap_bytes())).with("total", n(s.total_bytes())).with("so", J::N(<BitSliceMut<Vec<u64>> as SpaceUsage>::is_stack_only() as i64)).with("t", t("stack", vec![])).with("seed", J::S("0".into()));
    rec.emit(&e);
}

fn record(_: &str, mut g: Rng, shard: u64, rec: &mut Recorder) {
    slices(rec);
    let mut k = shard as usize * 7;
    while rec.left > 0 {
        let name = if g.chance(1, 3) { g.pick(&["JacobsonRank<BitVector<u8>>", "JacobsonRank<BitVector<u16>>", "JacobsonRank<BitVector<u32>>", "JacobsonRank<BitVector<u64>>", "JacobsonRank<BitVector<usize>>", "Rank9<BitVector<u64>>"]) } else { k += 1; TYPES[k % TYPES.len()] };
        one(name, &mut g, rec);
    }
}

/// A value of a given kind and size.
fn sized(o: &J, rec: &mut Recorder) {
    rec.cur(o);
    let (k, w, us, len, extra) = (o.s("k"), o.n("w"), o.n("us"), o.n("n") as u64, o.n("x") as u64);
    fn see<T: Own>(o: &J, rec: &mut Recorder, f: impl FnOnce() -> T) {
        let b = live();
        let r = catch_unwind(AssertUnwindSafe(f));
        let held = live() - b;
        let mut e = o.clone();
        match r { Ok(x) => { let J::O(v) = observe(&x, held, o.s("k")) else { unreachable!() }; for (k, x) in v { e.set(&k, x) } } Err(_) => e.set("p", J::N(1)) }
        rec.emit(&e);
    }
    fn bv<B: Blk>(len: u64, extra: u64) -> BitVector<B> { let mut v = BitVector::<B>::with_fill(len, extra & 1 == 1); if extra > 1 { v.reserve(extra) } v }
    harness::per_block!(w, us, B => match k {
        "jac" => see(o, rec, || JacobsonRank::new(bv::<B>(len, extra))),
        "selj" => see(o, rec, || BinSearchSelect::new(JacobsonRank::new(bv::<B>(len, extra)))),
        "rank9" => see(o, rec, || Rank9::new(bv::<u64>(len, extra))),
        "rank9v" => see(o, rec, || Rank9::new(vec![extra; len as usize / 64])),
        "sel9" => see(o, rec, || BinSearchSelect::new(Rank9::new(bv::<u64>(len, extra)))),
        "bv" => see(o, rec, || match extra { 0 => BitVector::<B>::with_capacity(len), 1 => BitVector::with_fill(len, true), 2 => BitVector::block_with_capacity(len as usize), 3 => BitVector::block_with_fill(len as usize, B::of64(5)),
            4 => { let mut v = BitVector::new(); for i in 0..len { v.push_bit(i & 1 == 1) } v } 5 => { let mut v = BitVector::new(); v.reserve(len); v } 6 => { let mut v = BitVector::new(); v.reserve_exact(len); v }
            7 => { let mut v = BitVector::with_fill(2 * len, true); v.truncate(len); v.shrink_to_fit(); v } 8 => { let mut v = BitVector::with_fill(2 * len, true); v.truncate(len); v } 9 => BitVector::with_fill(2 * len, true).clone(), _ => { let mut v = BitVector::with_fill(len, true); v.clear(); v.shrink_to_fit(); v } }),
        "iv" => { let eb = 1 + extra as usize / 8 % B::W; see(o, rec, || match extra % 8 { 0 => IntVector::<B>::with_capacity(eb, len), 1 => IntVector::with_fill(eb, len, B::of64(1)), 2 => IntVector::block_with_capacity(eb, len as usize),
            3 => { let mut v = IntVector::new(eb); for _ in 0..len { v.push(B::of64(1)) } v } 4 => { let mut v = IntVector::new(eb); v.reserve(len); v } 5 => { let mut v = IntVector::new(eb); v.reserve_exact(len); v }
            6 => { let mut v = IntVector::with_fill(eb, 2 * len, B::of64(1)); v.truncate(len); v.shrink_to_fit(); v } _ => { let mut v = IntVector::with_fill(eb, len, B::of64(1)); v.clear(); v } }) }
        k => panic!("harness: kind {}", k),
    });
}

/// A value's life depends on its type and the generator's state only.
fn replay(ops: Vec<J>, rec: &mut Recorder) {
    let mut last = String::new();
    for o in ops {
        if o.get("op").is_some() { sized(&o, rec); continue }
        let s = o.s("seed").to_string();
        if s == last || s == "0" { continue }
        one(o.s("ty"), &mut Rng(s.parse().unwrap()), rec);
        last = s;
    }
}

fn main() { main_with(record, replay) }
