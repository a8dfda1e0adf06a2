//! Operation records: a name, a register, arguments.
use crate::blk::*;
use crate::json::J;

#[macro_export]
macro_rules! per_block { ($w:expr, $us:expr, $B:ident => $e:expr) => { match ($w, $us) {
    (8, _) => { type $B = u8; $e } (16, _) => { type $B = u16; $e } (32, 0) => { type $B = u32; $e } (32, _) => { type $B = $crate::ublk::U32; $e }
    (64, 0) => { type $B = u64; $e } _ => { type $B = usize; $e } } } }

/// Block widths, and which of the two types of that width it is: usize
/// is another 64-bit one, and a user's own another of 32.
pub const WS: [(usize, i64); 6] = [(8, 0), (16, 0), (32, 0), (32, 1), (64, 0), (64, 1)];

/// Argument i as a number; ax holds the exact text of those too big for TLC.
pub fn arg(op: &J, i: usize) -> u64 {
    if let Some(ax) = op.get("ax") { let s = ax.arr()[i].str(); if !s.is_empty() { return s.parse().unwrap(); } }
    op.get("a").unwrap().arr()[i].num() as u64
}
pub fn val(op: &J, i: usize) -> u64 { unbits(&op.get("a").unwrap().arr()[i]) }
pub fn bools(j: &J) -> Vec<bool> { j.arr().iter().map(|b| b.num() == 1).collect() }

/// An operation under construction.
#[derive(Clone)]
pub struct Op { pub j: J, pub a: Vec<J>, pub ax: Vec<J>, pub wide: bool }
impl Op {
    pub fn new(name: &str, r: usize) -> Op {
        Op { j: J::obj().with("op", J::S(name.into())).with("r", J::N(r as i64)).with("path", J::A(vec![])).with("big", J::N(0)), a: vec![], ax: vec![], wide: false }
    }
    pub fn n(mut self, x: u64) -> Op {
        self.a.push(J::N(cap(x)));
        if x > CAP { self.wide = true; self.ax.push(J::S(x.to_string())) } else { self.ax.push(J::S(String::new())) }
        self
    }
    pub fn v(mut self, x: u64, w: usize) -> Op { self.a.push(jbits(x, w)); self.ax.push(J::S(String::new())); self }
    pub fn bits(mut self, b: &[bool]) -> Op { self.a.push(J::A(b.iter().map(|b| J::N(*b as i64)).collect())); self.ax.push(J::S(String::new())); self }
    pub fn j(mut self, j: J) -> Op { self.a.push(j); self.ax.push(J::S(String::new())); self }
    pub fn text(mut self, k: &str, x: &str) -> Op { self.j.set(k, J::S(x.into())); self }
    pub fn set(mut self, k: &str, x: i64) -> Op { self.j.set(k, J::N(x)); self }
    pub fn path(mut self, p: &[(u8, u64, u64)]) -> Op {
        self.j.set("path", J::A(p.iter().map(|r| J::ints(&[r.0 as i64, cap(r.1), cap(r.2)])).collect()));
        if p.iter().any(|r| r.2 > CAP) { self.j.set("px", J::A(p.iter().map(|r| J::S(if r.2 > CAP { r.2.to_string() } else { String::new() })).collect())) }
        self
    }
    pub fn done(self) -> J { let mut j = self.j.with("a", J::A(self.a)); if self.wide { j.set("ax", J::A(self.ax)) } j }
}

