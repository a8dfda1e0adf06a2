//! A user's own block type: the trait's required methods and no more.
use byteorder::ByteOrder;
use num_traits::{Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, Num, NumCast, One, PrimInt, Saturating, ToPrimitive, Zero};
use std::io;
use std::ops::*;
use succinct::rank::{BitRankSupport, RankSupport};
use succinct::storage::BlockType;
use succinct::{BitVec, BitVecMut};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct U32(pub u32);
succinct::impl_stack_only_space_usage!(U32);

macro_rules! bin { ($($T:ident $f:ident $o:tt),*) => { $( impl $T for U32 { type Output = U32; fn $f(self, r: U32) -> U32 { U32(self.0 $o r.0) } } )* } }
bin! { Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %, BitAnd bitand &, BitOr bitor |, BitXor bitxor ^ }
macro_rules! chk { ($($T:ident $f:ident),*) => { $( impl $T for U32 { fn $f(&self, r: &U32) -> Option<U32> { self.0.$f(r.0).map(U32) } } )* } }
chk! { CheckedAdd checked_add, CheckedSub checked_sub, CheckedMul checked_mul, CheckedDiv checked_div }
impl Not for U32 { type Output = U32; fn not(self) -> U32 { U32(!self.0) } }
impl Shl<usize> for U32 { type Output = U32; fn shl(self, n: usize) -> U32 { U32(self.0 << n) } }
impl Shr<usize> for U32 { type Output = U32; fn shr(self, n: usize) -> U32 { U32(self.0 >> n) } }
impl Saturating for U32 { fn saturating_add(self, r: U32) -> U32 { U32(self.0.saturating_add(r.0)) } fn saturating_sub(self, r: U32) -> U32 { U32(self.0.saturating_sub(r.0)) } }
impl Zero for U32 { fn zero() -> U32 { U32(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for U32 { fn one() -> U32 { U32(1) } }
impl Bounded for U32 { fn min_value() -> U32 { U32(0) } fn max_value() -> U32 { U32(!0) } }
impl Num for U32 { type FromStrRadixErr = std::num::ParseIntError; fn from_str_radix(s: &str, r: u32) -> Result<U32, std::num::ParseIntError> { u32::from_str_radix(s, r).map(U32) } }
impl ToPrimitive for U32 { fn to_i64(&self) -> Option<i64> { Some(self.0 as i64) } fn to_u64(&self) -> Option<u64> { Some(self.0 as u64) } }
impl NumCast for U32 { fn from<T: ToPrimitive>(n: T) -> Option<U32> { n.to_u32().map(U32) } }
impl PrimInt for U32 {
    fn count_ones(self) -> u32 { self.0.count_ones() }
    fn count_zeros(self) -> u32 { self.0.count_zeros() }
    fn leading_zeros(self) -> u32 { self.0.leading_zeros() }
    fn trailing_zeros(self) -> u32 { self.0.trailing_zeros() }
    fn rotate_left(self, n: u32) -> U32 { U32(self.0.rotate_left(n)) }
    fn rotate_right(self, n: u32) -> U32 { U32(self.0.rotate_right(n)) }
    fn signed_shl(self, n: u32) -> U32 { U32(((self.0 as i32) << n) as u32) }
    fn signed_shr(self, n: u32) -> U32 { U32(((self.0 as i32) >> n) as u32) }
    fn unsigned_shl(self, n: u32) -> U32 { U32(self.0 << n) }
    fn unsigned_shr(self, n: u32) -> U32 { U32(self.0 >> n) }
    fn swap_bytes(self) -> U32 { U32(self.0.swap_bytes()) }
    fn from_be(x: U32) -> U32 { U32(u32::from_be(x.0)) }
    fn from_le(x: U32) -> U32 { U32(u32::from_le(x.0)) }
    fn to_be(self) -> U32 { U32(self.0.to_be()) }
    fn to_le(self) -> U32 { U32(self.0.to_le()) }
    fn pow(self, n: u32) -> U32 { U32(self.0.pow(n)) }
}

impl BlockType for U32 {
    fn read_block<R: io::Read, T: ByteOrder>(source: &mut R) -> io::Result<U32> { u32::read_block::<R, T>(source).map(U32) }
    fn write_block<W: io::Write, T: ByteOrder>(&self, sink: &mut W) -> io::Result<()> { self.0.write_block::<W, T>(sink) }
}
impl BitVec for U32 {
    type Block = U32;
    fn bit_len(&self) -> u64 { 32 }
    fn get_bit(&self, i: u64) -> bool { assert!(i < 32, "U32::get_bit: out of bounds"); self.0 >> i & 1 == 1 }
}
impl BitVecMut for U32 {
    fn set_bit(&mut self, i: u64, x: bool) { assert!(i < 32, "U32::set_bit: out of bounds"); self.0 = self.0 & !(1 << i) | (x as u32) << i }
}
impl RankSupport for U32 {
    type Over = bool;
    fn rank(&self, i: u64, x: bool) -> u64 { if x { self.rank1(i) } else { self.rank0(i) } }
    fn limit(&self) -> u64 { 32 }
}
impl BitRankSupport for U32 {
    fn rank1(&self, i: u64) -> u64 { assert!(i < 32, "U32::rank1: out of bounds"); (self.0 << (31 - i)).count_ones() as u64 }
}
