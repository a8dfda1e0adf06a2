//! Block types, and bits as integers in JSON.
use crate::json::J;
use std::hash::Hash;
use succinct::storage::BlockType;

pub trait Blk: BlockType + Copy + Hash + Ord + 'static {
    const W: usize;
    fn to64(self) -> u64;
    fn of64(x: u64) -> Self;
}
macro_rules! blk { ($($t:ident $w:expr),*) => { $( impl Blk for $t { const W: usize = $w; fn to64(self) -> u64 { self as u64 } fn of64(x: u64) -> Self { x as $t } } )* } }
blk!(u8 8, u16 16, u32 32, u64 64, usize 64);
impl Blk for crate::ublk::U32 { const W: usize = 32; fn to64(self) -> u64 { self.0 as u64 } fn of64(x: u64) -> Self { crate::ublk::U32(x as u32) } }

/// The low `w` bits of `x`, least significant first.
pub fn bits(x: u64, w: usize) -> Vec<i64> { (0..w).map(|i| (x >> i & 1) as i64).collect() }
pub fn jbits(x: u64, w: usize) -> J { J::ints(&bits(x, w)) }
pub fn unbits(j: &J) -> u64 { let mut v = 0u64; for (i, b) in j.arr().iter().enumerate() { if b.num() == 1 { v |= 1 << i; } } v }
pub const CAP: u64 = 2147483647;
pub fn cap(x: u64) -> i64 { x.min(CAP) as i64 }
/// A number as base-2^15 digits, least significant first, no leading zeros.
pub fn wide(mut x: u128) -> J { let mut v = vec![]; while x > 0 { v.push((x % 32768) as i64); x /= 32768; } J::ints(&v) }
pub fn unwide(j: &J) -> u128 { j.arr().iter().rev().fold(0u128, |a, d| a * 32768 + d.num() as u128) }
