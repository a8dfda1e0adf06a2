//! Stores a user of the library might define, implementing only the
//! required methods of its traits.
use crate::blk::*;
use succinct::bit_vec::{BitVec, BitVecMut, BitVecPush};

/// A user's type that implements only the bit-level methods.
#[derive(Clone)]
pub struct OnlyBits<B> { v: Vec<bool>, p: std::marker::PhantomData<B> }
impl<B> OnlyBits<B> { pub fn new(v: Vec<bool>) -> Self { OnlyBits { v, p: std::marker::PhantomData } } pub fn raw(&self) -> &[bool] { &self.v } }
impl<B: Blk> BitVec for OnlyBits<B> {
    type Block = B;
    fn bit_len(&self) -> u64 { self.v.len() as u64 }
    fn get_bit(&self, i: u64) -> bool { self.v[i as usize] }
}
impl<B: Blk> BitVecMut for OnlyBits<B> { fn set_bit(&mut self, i: u64, x: bool) { self.v[i as usize] = x } }
impl<B: Blk> BitVecPush for OnlyBits<B> {
    fn push_bit(&mut self, x: bool) { self.v.push(x) }
    fn pop_bit(&mut self) -> Option<bool> { self.v.pop() }
}
/// A user's type that implements only the block-level methods and keeps
/// whatever it likes in the unused bits of its last block.
#[derive(Clone)]
pub struct OnlyBlocks<B> { n: u64, v: Vec<B> }
impl<B: Blk> OnlyBlocks<B> {
    pub fn new(b: &[bool], junk: u64) -> Self {
        let mut v = Vec::new();
        for c in b.chunks(B::W) {
            let mut x = 0u64;
            for (i, b) in c.iter().enumerate() { if *b { x |= 1 << i } }
            if c.len() < B::W { x |= (junk >> c.len()) << c.len() }
            v.push(B::of64(x));
        }
        OnlyBlocks { n: b.len() as u64, v }
    }
    pub fn raw(&self) -> Vec<i64> { let mut o = vec![]; for b in &self.v { o.extend(bits(b.to64(), B::W)) } o.truncate(self.n as usize); o }
}
impl<B: Blk> BitVec for OnlyBlocks<B> {
    type Block = B;
    fn bit_len(&self) -> u64 { self.n }
    fn get_block(&self, i: usize) -> B { self.v[i] }
}
impl<B: Blk> BitVecMut for OnlyBlocks<B> {
    fn set_block(&mut self, i: usize, x: B) {
        let m = if i + 1 == self.v.len() && self.n % B::W as u64 != 0 { (1u64 << (self.n % B::W as u64)) - 1 } else { !0 };
        self.v[i] = B::of64((self.v[i].to64() & !m) | (x.to64() & m));
    }
}
impl<B: Blk> succinct::SpaceUsage for OnlyBlocks<B> { fn is_stack_only() -> bool { false } fn heap_bytes(&self) -> usize { self.v.capacity() * std::mem::size_of::<B>() } }

pub fn dump_bits<T: BitVec + ?Sized>(t: &T) -> Vec<i64> { (0..t.bit_len()).map(|i| t.get_bit(i) as i64).collect() }
