//! Stacks of wrappers around one store, and the questions asked through them.
use harness::blk::*;
use harness::json::J;
use harness::users::dump_bits;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use succinct::bit_vec::BitVec;
use succinct::broadword::Broadword;
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};
use succinct::stream::BitBuffer;
use succinct::{impl_bit_rank_support_adapter, impl_bit_vec_adapter, impl_rank_support_adapter,
    impl_select0_support_adapter, impl_select1_support_adapter, impl_select_support_adapter};

// User types built from the exported adapter macros.
#[derive(Clone)]
pub struct AdBits<T> { pub body: T }
impl<T: BitVec> BitVec for AdBits<T> { impl_bit_vec_adapter!(T::Block, body); }
#[derive(Clone)]
pub struct AdRank<T> { pub body: T }
impl<T: BitVec + BitRankSupport> BitVec for AdRank<T> { impl_bit_vec_adapter!(T::Block, body); }
impl<T: BitVec + BitRankSupport> RankSupport for AdRank<T> { impl_rank_support_adapter!(<T as RankSupport>::Over, body); }
impl<T: BitVec + BitRankSupport> BitRankSupport for AdRank<T> { impl_bit_rank_support_adapter!(body); }
pub struct AdSel<T> { pub body: T }
impl<T: BitVec + BitRankSupport + Select0Support + Select1Support + SelectSupport> BitVec for AdSel<T> { impl_bit_vec_adapter!(T::Block, body); }
impl<T: BitVec + BitRankSupport + Select0Support + Select1Support + SelectSupport> RankSupport for AdSel<T> { impl_rank_support_adapter!(<T as RankSupport>::Over, body); }
impl<T: BitVec + BitRankSupport + Select0Support + Select1Support + SelectSupport> BitRankSupport for AdSel<T> { impl_bit_rank_support_adapter!(body); }
impl<T: BitVec + BitRankSupport + Select0Support + Select1Support + SelectSupport> Select1Support for AdSel<T> { impl_select1_support_adapter!(body); }
impl<T: BitVec + BitRankSupport + Select0Support + Select1Support + SelectSupport> Select0Support for AdSel<T> { impl_select0_support_adapter!(body); }
impl<T: BitVec + BitRankSupport + Select0Support + Select1Support + SelectSupport> SelectSupport for AdSel<T> { impl_select_support_adapter!(<T as SelectSupport>::Over, body); }

pub struct Qy { pub name: String, pub i: u64, pub c: u64 }
pub fn qy(j: &J) -> Qy {
    let a = j.arr();
    let i = if a.len() > 3 && !a[3].str().is_empty() { a[3].str().parse().unwrap() } else { a[1].num() as u64 };
    let c = if a.len() > 4 && !a[4].str().is_empty() { a[4].str().parse().unwrap() } else { a[2].num() as u64 };
    Qy { name: a[0].str().into(), i, c }
}

pub fn guarded<F: FnOnce() -> Vec<i64>>(f: F) -> Vec<i64> {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(v) => { let mut o = vec![0]; o.extend(v); o } Err(_) => vec![1] }
}

fn opt(o: Option<u64>) -> Vec<i64> { o.map_or(vec![], |x| vec![cap(x)]) }
pub fn ask_bits<T: BitVec>(t: &T, q: &Qy) -> Vec<i64> where T::Block: Blk {
    let w = <T::Block as Blk>::W;
    match &q.name[..] {
        "bit_len" => vec![cap(t.bit_len())],
        "block_len" => vec![t.block_len() as i64],
        "get_bit" => vec![t.get_bit(q.i) as i64],
        "get_bits" => bits(t.get_bits(q.i, q.c as usize).to64(), w),
        "get_block" => bits(t.get_block(q.i as usize).to64(), w),
        n => panic!("harness: {} not answered by this wrapper", n),
    }
}
pub fn ask_rank<T: BitRankSupport>(t: &T, q: &Qy) -> Option<Vec<i64>> {
    Some(match &q.name[..] {
        "limit" => vec![cap(t.limit())],
        "rank1" => vec![cap(t.rank1(q.i))],
        "rank0" => vec![cap(t.rank0(q.i))],
        "rank" => vec![cap(t.rank(q.i, q.c == 1))],
        "all_rank1" => (0..t.limit().min(1 << 16)).map(|p| cap(t.rank1(p))).collect(),
        "all_rank0" => (0..t.limit().min(1 << 16)).map(|p| cap(t.rank0(p))).collect(),
        _ => return None,
    })
}
pub fn ask_sel<T: Select1Support + Select0Support + SelectSupport<Over = bool>>(t: &T, q: &Qy) -> Option<Vec<i64>> {
    Some(match &q.name[..] {
        "select1" => opt(t.select1(q.i)),
        "select0" => opt(t.select0(q.i)),
        "select" => opt(t.select(q.i, q.c == 1)),
        "all_sel1" => (0..1 << 16).map_while(|k| t.select1(k)).map(cap).collect(),
        "all_sel0" => (0..1 << 16).map_while(|k| t.select0(k)).map(cap).collect(),
        _ => return None,
    })
}
fn br<T: BitVec + BitRankSupport>(t: &T, q: &Qy) -> Vec<i64> where T::Block: Blk { ask_rank(t, q).unwrap_or_else(|| ask_bits(t, q)) }
fn brs<T: BitVec + BitRankSupport + Select1Support + Select0Support + SelectSupport<Over = bool>>(t: &T, q: &Qy) -> Vec<i64> where T::Block: Blk {
    ask_sel(t, q).unwrap_or_else(|| br(t, q))
}

/// Which questions a stack answers: 0 bits, 1 also rank, 2 also select.
pub const STACKS: [(i64, u8, bool); 14] = [
    (1, 1, false), (2, 2, false), (3, 0, false), (4, 0, false), (5, 2, false), (6, 2, false), (7, 1, false),
    (10, 1, false), (11, 0, false), (12, 1, false),
    (8, 1, true), (9, 2, true), (13, 1, true), (14, 1, true),
];

/// A copy of a structure, by itself or over another; the structure itself is gone.
fn again<X: Clone>(x: X, other: Option<X>) -> X {
    match other { Some(mut o) => { o.clone_from(&x); drop(x); o } None => { let y = x.clone(); drop(x); y } }
}

/// Ask questions of what mk makes of t.  o is a store to make another one of, for t's to be copied over.
pub fn run<T, X>(t: T, o: T, mk: impl Fn(T) -> X, ask: impl Fn(&X, &Qy) -> Vec<i64>, inner: impl Fn(&X) -> Vec<i64>, into: impl FnOnce(X) -> Vec<i64>,
    dup: impl Fn(X, Option<X>) -> X, qs: &[J]) -> Vec<J> {
    let x = match catch_unwind(AssertUnwindSafe(|| mk(t))) { Ok(x) => x, Err(_) => return qs.iter().map(|_| J::ints(&[2])).collect() };
    let mut out = vec![];
    let mut into = Some(into);
    let mut o = Some(o);
    let mut x = Some(x);
    for j in qs {
        let q = qy(j);
        let r = if x.is_none() { vec![2] } else { match &q.name[..] {
            "inner" => guarded(|| inner(x.as_ref().unwrap())),
            "into" => { let (f, y) = (into.take().unwrap(), x.take().unwrap()); guarded(move || f(y)) }
            "clone" => { let y = x.take().unwrap(); let o = if q.c == 1 { o.take() } else { None };
                guarded(|| { x = Some(dup(y, o.map(|o| mk(o)))); vec![] }) }
            _ => guarded(|| ask(x.as_ref().unwrap(), &q)),
        } };
        out.push(J::ints(&r));
    }
    out
}

pub fn wrap<T: BitVec + Clone>(t: T, o: T, stack: &[i64], qs: &[J]) -> Vec<J> where T::Block: Blk + Wrap9 {
    let d = |t: &T| dump_bits(t);
    match stack[0] {
        1 => run(t, o, |t| JacobsonRank::new(t), br, |x| d(x.inner()), |x| d(&x.into_inner()), again, qs),
        2 => run(t, o, |t| BinSearchSelect::new(JacobsonRank::new(t)), brs, |x| d(x.inner().inner()), |x| d(&x.into_inner().into_inner()),
            |x, o| BinSearchSelect::new(again(x.into_inner(), o.map(|o| o.into_inner()))), qs),
        3 => run(t, o, |t| BitBuffer::from(t), ask_bits, |x| d(x.inner()), |x| d(&x.into_inner()), again, qs),
        4 => run(t, o, |t| AdBits { body: t }, ask_bits, |x| d(&x.body), |x| d(&x.body), again, qs),
        5 => run(t, o, |t| BinSearchSelect::new(AdRank { body: JacobsonRank::new(t) }), brs, |x| d(x.inner().body.inner()), |x| d(&x.into_inner().body.into_inner()),
            |x, o| BinSearchSelect::new(again(x.into_inner(), o.map(|o| o.into_inner()))), qs),
        6 => run(t, o, |t| AdSel { body: BinSearchSelect::new(JacobsonRank::new(t)) }, brs, |x| d(x.body.inner().inner()), |x| d(&x.body.into_inner().into_inner()),
            |x, o| AdSel { body: BinSearchSelect::new(again(x.body.into_inner(), o.map(|o| o.body.into_inner()))) }, qs),
        7 => run(t, o, |t| JacobsonRank::new(BitBuffer::append(t)), br, |x| d(x.inner().inner()), |x| d(&x.into_inner().into_inner()), again, qs),
        10 => run(t, o, |t| JacobsonRank::new(JacobsonRank::new(t)), br, |x| d(x.inner().inner()), |x| d(&x.into_inner().into_inner()), again, qs),
        11 => run(t, o, |t| BitBuffer::from(BinSearchSelect::new(JacobsonRank::new(t))), ask_bits, |x| d(x.inner().inner().inner()), |x| d(&x.into_inner().into_inner().into_inner()),
            |x, o| BitBuffer::from(BinSearchSelect::new(again(x.into_inner().into_inner(), o.map(|o| o.into_inner().into_inner())))), qs),
        12 => run(t, o, |t| JacobsonRank::new(AdBits { body: t }), br, |x| d(&x.inner().body), |x| d(&x.into_inner().body), again, qs),
        _ => <T::Block as Wrap9>::wrap9(t, o, stack, qs),
    }
}

pub trait Wrap9: succinct::storage::BlockType { fn wrap9<T: BitVec<Block = Self> + Clone>(_: T, _: T, _: &[i64], _: &[J]) -> Vec<J> { panic!("harness: Rank9 needs u64 blocks") } }
impl Wrap9 for u8 {}
impl Wrap9 for u16 {}
impl Wrap9 for u32 {}
impl Wrap9 for harness::ublk::U32 {}
impl Wrap9 for usize {}
impl Wrap9 for u64 {
    fn wrap9<T: BitVec<Block = u64> + Clone>(t: T, o: T, stack: &[i64], qs: &[J]) -> Vec<J> {
        let d = |t: &T| dump_bits(t);
        match stack[0] {
            8 => run(t, o, |t| Rank9::new(t), br, |x| d(x.inner()), |x| d(&x.into_inner()), again, qs),
            9 => run(t, o, |t| BinSearchSelect::new(Rank9::new(t)), brs, |x| d(x.inner().inner()), |x| d(&x.into_inner().into_inner()),
                |x, o| BinSearchSelect::new(again(x.into_inner(), o.map(|o| o.into_inner()))), qs),
            13 => run(t, o, |t| Rank9::new(JacobsonRank::new(t)), br, |x| d(x.inner().inner()), |x| d(&x.into_inner().into_inner()), again, qs),
            _ => run(t, o, |t| AdRank { body: Rank9::new(t) }, br, |x| d(x.body.inner()), |x| d(&x.body.into_inner()), again, qs),
        }
    }
}

/// Rank and select structures that are single words.
pub fn prim_rank<B: Blk + BitRankSupport + RankSupport<Over = bool> + BitVec<Block = B>>(x: B, stack: i64, qs: &[J]) -> Vec<J> {
    let me = |x: &B| bits(x.to64(), B::W);
    let o = B::of64(!x.to64());
    match stack {
        20 => run(x, o, |x| x, |t, q| ask_rank(t, q).unwrap_or_else(|| ask_bits(t, q)), me, |x| me(&x), again, qs),
        21 => run(x, o, |x| BinSearchSelect::new(x), brs, |t| me(t.inner()), |t| me(&t.into_inner()), |x, o| BinSearchSelect::new(again(x.into_inner(), o.map(|o| o.into_inner()))), qs),
        n => panic!("harness: stack {}", n),
    }
}
pub fn word_rank(x: u64, stack: i64, qs: &[J]) -> Vec<J> {
    let me = |b: &Broadword| bits(b.0, 64);
    let sel = |t: &Broadword, q: &Qy| match &q.name[..] {
        "select1" => opt(t.select1(q.i)),
        "all_sel1" => (0..1 << 16).map_while(|k| t.select1(k)).map(cap).collect(),
        _ => ask_rank(t, q).unwrap(),
    };
    match stack {
        22 => run(x, !x, |x| Broadword(x), sel, me, |b| me(&b), |x, _| x, qs),
        23 => run(x, !x, |x| BinSearchSelect::new(Broadword(x)), |t, q| ask_sel(t, q).unwrap_or_else(|| ask_rank(t, q).unwrap()), |t| me(t.inner()), |t| me(&t.into_inner()),
            |x, _| x, qs),
        n => panic!("harness: stack {}", n),
    }
}

/// Any store behind one type per block type; forwards every method.
#[derive(Clone)]
pub struct Erased<'a, B: Blk>(pub Rc<dyn BitVec<Block = B> + 'a>);
impl<'a, B: Blk> BitVec for Erased<'a, B> {
    type Block = B;
    fn bit_len(&self) -> u64 { self.0.bit_len() }
    fn block_len(&self) -> usize { self.0.block_len() }
    fn get_bit(&self, i: u64) -> bool { self.0.get_bit(i) }
    fn get_bits(&self, s: u64, c: usize) -> B { self.0.get_bits(s, c) }
    fn get_block(&self, i: usize) -> B { self.0.get_block(i) }
}
