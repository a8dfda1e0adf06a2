//! The machine: registers of stores, iterators over them, and one function
//! that performs a named operation and reports everything observable.
use crate::stores::*;
use harness::alloc;
use harness::blk::*;
use harness::json::J;
use harness::op::*;
use harness::per_block;
use std::panic::{catch_unwind, AssertUnwindSafe};
use succinct::bit_vec::BitVector;
use succinct::int_vec::IntVector;

pub const NREGS: usize = 8;
pub const NITS: usize = 4;

/// The bare call, with its allocations counted.
macro_rules! m { ($e:expr) => { { let c = alloc::calls(); $e; set_al(c); vec![] } } }

pub struct Machine {
    pub regs: Vec<Option<Box<dyn Store>>>,
    pub its: Vec<Option<(usize, Box<dyn DynIter>)>>,
    pub clones: u64,
    pub track_caps: bool,
}

fn path(op: &J) -> Vec<Rng3> {
    let px: Vec<&str> = op.get("px").map_or(vec![], |p| p.arr().iter().map(|s| s.str()).collect());
    op.get("path").map_or(vec![], |p| p.arr().iter().enumerate().map(|(i, r)| {
        let r = r.arr();
        let e = if i < px.len() && !px[i].is_empty() { px[i].parse().unwrap() } else { r[2].num() as u64 };
        Rng3 { form: r[0].num() as u8, s: r[1].num() as u64, e }
    }).collect())
}

pub fn make_store(k: &str, w: i64, us: i64, view: u8, b: &[bool], junk: u64) -> Box<dyn Store> {
    fn blocks<B: Blk>(b: &[bool]) -> Vec<B> {
        b.chunks(B::W).map(|c| B::of64(c.iter().enumerate().fold(0, |x, (i, b)| x | (*b as u64) << i))).collect()
    }
    match k {
        "bools" => Box::new(Bools(b.to_vec())),
        "prim" => per_block!(w, us, B => Box::new(Prim::<B>(blocks::<B>(b)[0]))),
        "blocks" => per_block!(w, us, B => Box::new(Blocks::<B>(blocks::<B>(b), view))),
        "obits" => per_block!(w, us, B => Box::new(OBits::<B>(OnlyBits::new(b.to_vec())))),
        "oblk" => per_block!(w, us, B => Box::new(OBlk::<B>(OnlyBlocks::new(b, junk)))),
        _ => panic!("harness: kind {}", k),
    }
}

impl Machine {
    pub fn new() -> Machine { Machine { regs: (0..=NREGS).map(|_| None).collect(), its: (0..=NITS).map(|_| None).collect(), track_caps: false, clones: 0 } }
    pub fn st(&mut self, r: usize) -> &mut dyn Store { &mut **self.regs[r].as_mut().expect("harness: empty register") }

    /// Perform op (a record with op, r, a, ...): Ok(result) or Err(refused).
    pub fn perform(&mut self, op: &J) -> Result<Vec<J>, ()> {
        let name = op.s("op").to_string();
        let r = op.n("r") as usize;
        let us = op.n("us");
        if !name.starts_with("it_") && !name.starts_with("get") && !matches!(&name[..], "slen" | "fmt_bin" | "cmp" | "iv_info" | "wrap") {
            let t = if name == "clone" { arg(op, 0) as usize } else { r };
            for it in self.its.iter_mut() { if it.as_ref().map_or(false, |x| x.0 == t) { *it = None; } }
        }
        let ints = |v: Vec<i64>| v.into_iter().map(J::N).collect::<Vec<_>>();
        // Constructors write their register only if they succeed.
        let mk = |f: Box<dyn FnOnce() -> Box<dyn Store> + '_>| catch_unwind(AssertUnwindSafe(f)).map_err(|_| ());
        let made: Option<Result<Box<dyn Store>, ()>> = match &name[..] {
            "st_new" => Some(Ok(make_store(op.s("k"), op.n("w"), us, op.n("vw") as u8, &bools(&op.get("a").unwrap().arr()[0]), (op.n("junk") as u64).wrapping_mul(0x9E3779B97F4A7C15)))),
            "bv_new" => Some(per_block!(arg(op, 0), us, B => if op.n("dflt") == 1 { mk(Box::new(|| Box::new(Bv(BitVector::<B>::default())))) } else { mk(Box::new(|| Box::new(Bv(BitVector::<B>::new())))) })),
            "bv_cap" => Some(per_block!(arg(op, 0), us, B => mk(Box::new(|| Box::new(Bv(BitVector::<B>::with_capacity(arg(op, 1)))))))),
            "bv_bcap" => Some(per_block!(arg(op, 0), us, B => mk(Box::new(|| Box::new(Bv(BitVector::<B>::block_with_capacity(arg(op, 1) as usize))))))),
            "bv_fill" => Some(per_block!(arg(op, 0), us, B => mk(Box::new(|| Box::new(Bv(BitVector::<B>::with_fill(arg(op, 1), arg(op, 2) == 1))))))),
            "bv_bfill" => Some(per_block!(arg(op, 0), us, B => mk(Box::new(|| Box::new(Bv(BitVector::<B>::block_with_fill(arg(op, 1) as usize, B::of64(val(op, 2))))))))),
            "iv_new" => Some(per_block!(arg(op, 0), us, B => mk(Box::new(|| Box::new(Iv(IntVector::<B>::new(arg(op, 1) as usize))))))),
            "iv_cap" => Some(per_block!(arg(op, 0), us, B => mk(Box::new(|| Box::new(Iv(IntVector::<B>::with_capacity(arg(op, 1) as usize, arg(op, 2)))))))),
            "iv_bcap" => Some(per_block!(arg(op, 0), us, B => mk(Box::new(|| Box::new(Iv(IntVector::<B>::block_with_capacity(arg(op, 1) as usize, arg(op, 2) as usize))))))),
            "iv_fill" => Some(per_block!(arg(op, 0), us, B => mk(Box::new(|| Box::new(Iv(IntVector::<B>::with_fill(arg(op, 1) as usize, arg(op, 2), B::of64(val(op, 3))))))))),
            "iv_bfill" => Some(per_block!(arg(op, 0), us, B => mk(Box::new(|| Box::new(Iv(IntVector::<B>::block_with_fill(arg(op, 1) as usize, arg(op, 2) as usize, B::of64(val(op, 3))))))))),
            "clone" => {
                let t = arg(op, 0) as usize;
                self.clones += 1;
                // Every other one reuses what the register held.
                if t != r && self.clones % 2 == 0 {
                    if let Some(mut old) = self.regs[t].take() {
                        let s = &**self.regs[r].as_ref().expect("harness: empty register");
                        let done = catch_unwind(AssertUnwindSafe(|| old.clone_over(s)));
                        self.regs[t] = Some(old);
                        match done { Ok(true) => return Ok(vec![]), Err(_) => return Err(()), Ok(false) => {} }
                    }
                }
                let s = &**self.regs[r].as_ref().unwrap();
                Some(mk(Box::new(|| s.clone_box())))
            }
            _ => None,
        };
        if let Some(m) = made {
            let t = if name == "clone" { arg(op, 0) as usize } else { r };
            return m.map(|s| { self.regs[t] = Some(s); vec![] });
        }
        if name.starts_with("it_") { return catch_unwind(AssertUnwindSafe(|| self.iter_op(&name, r, op))).map_err(|_| ()).map(ints); }
        if name == "cmp" {
            let ix: Vec<usize> = (0..3).map(|i| arg(op, i) as usize).collect();
            return catch_unwind(AssertUnwindSafe(|| {
                let mut out = vec![];
                for i in &ix { for j in &ix {
                    out.push(J::ints(&self.regs[*i].as_ref().unwrap().cmp(&**self.regs[*j].as_ref().unwrap())));
                } }
                out
            })).map_err(|_| ());
        }
        let p = path(op);
        let (split, mu) = (op.n("split") as usize, op.n("mu") as u8);
        let s = &mut **self.regs[r].as_mut().expect("harness: empty register");
        let w = s.w();
        catch_unwind(AssertUnwindSafe(|| match &name[..] {
            "slen" => s.query(&p, split, mu, Q::Len),
            "get_bit" => s.query(&p, split, mu, Q::GetBit(arg(op, 0))),
            "get_block" => s.query(&p, split, mu, Q::GetBlock(arg(op, 0) as usize)),
            "get_bits" => s.query(&p, split, mu, Q::GetBits(arg(op, 0), arg(op, 1) as usize)),
            "set_bit" => s.query(&p, split, mu, Q::SetBit(arg(op, 0), arg(op, 1) == 1)),
            "set_block" => s.query(&p, split, mu, Q::SetBlock(arg(op, 0) as usize, val(op, 1))),
            "set_bits" => s.query(&p, split, mu, Q::SetBits(arg(op, 0), arg(op, 1) as usize, val(op, 2))),
            "push_bit" => m!(s.push_bit(arg(op, 0) == 1)),
            "pop_bit" => { let c = alloc::calls(); let x = s.pop_bit(); set_al(c); x }.map_or(vec![], |b| vec![b as i64]),
            "align_block" => m!(s.align(arg(op, 0) == 1)),
            "push_block" => m!(s.push_block(val(op, 0))),
            "resize" => m!(s.resize(arg(op, 0), arg(op, 1))),
            "iv_resize" => m!(s.resize(arg(op, 0), val(op, 1))),
            "block_resize" => m!(s.block_resize(arg(op, 0) as usize, val(op, 1))),
            "reserve" => m!(s.reserve(arg(op, 0))),
            "reserve_exact" => m!(s.reserve_exact(arg(op, 0))),
            "block_reserve" => m!(s.block_reserve(arg(op, 0) as usize)),
            "block_reserve_exact" => m!(s.block_reserve_exact(arg(op, 0) as usize)),
            "shrink_to_fit" => m!(s.shrink()),
            "truncate" => m!(s.truncate(arg(op, 0))),
            "block_truncate" => m!(s.block_truncate(arg(op, 0) as usize)),
            "clear" => m!(s.clear()),
            "fmt_bin" => s.fmt_bin().bytes().map(|c| if c == b'0' { 0 } else if c == b'1' { 1 } else { 2 }).collect(),
            "get" => bits(s.get(arg(op, 0)), w),
            "set" => m!(s.set(arg(op, 0), val(op, 1))),
            "push" => m!(s.push(val(op, 0))),
            "pop" => { let c = alloc::calls(); let x = s.pop(); set_al(c); x }.map_or(vec![], |v| bits(v, w)),
            "get_random" => bits(s.get_random(arg(op, 0), arg(op, 1) as usize, arg(op, 2)), w),
            "set_random" => m!(s.set_random(arg(op, 0), arg(op, 1) as usize, arg(op, 2), val(op, 3))),
            "iv_info" => s.info(),
            n => panic!("harness: unknown operation {}", n),
        })).map_err(|_| ()).map(ints)
    }

    /// Item p of register r.
    pub fn item(&self, r: usize, p: u64) -> Vec<i64> {
        catch_unwind(AssertUnwindSafe(|| unsafe { self.regs[r].as_ref().unwrap().iter(false) }.nth(p as usize))).ok().flatten().unwrap_or_else(|| vec![0])
    }
    fn iter_op(&mut self, name: &str, r: usize, op: &J) -> Vec<i64> {
        let i = arg(op, 0) as usize;
        if name == "it_new" {
            let s = &**self.regs[r].as_ref().unwrap();
            // The store is boxed, and every operation that may touch it first drops its iterators.
            self.its[i] = Some((r, unsafe { s.iter(op.n("into") == 1) }));
            return vec![];
        }
        if name == "it_clone" {
            let d = { let x = self.its[i].as_ref().unwrap(); (x.0, x.1.dup()) };
            self.its[arg(op, 1) as usize] = Some(d);
            return vec![];
        }
        let o = |x: Option<Vec<i64>>| x.unwrap_or_default();
        match name {
            "it_count" => return vec![self.its[i].take().unwrap().1.count() as i64],
            "it_last" => return o(self.its[i].take().unwrap().1.last()),
            "it_collect" => return self.its[i].take().unwrap().1.collect(),
            "it_rev" => return self.its[i].take().unwrap().1.rev(),
            "it_use" => {
                let (how, k) = (op.s("how"), arg(op, 1) as usize);
                let v: Vec<i64> = op.get("a").unwrap().arr()[2].arr().iter().map(|x| x.num()).collect();
                if USING_UP.contains(&how) { return self.its[i].take().unwrap().1.used(how, k, &v) }
                return self.its[i].as_mut().expect("harness: no iterator").1.partly(how, k, &v);
            }
            _ => {}
        }
        let it = &mut self.its[i].as_mut().expect("harness: no iterator").1;
        match name {
            "it_next" => o(it.next()),
            "it_back" => o(it.back()),
            "it_nth" => o(it.nth(arg(op, 1) as usize)),
            "it_nth_back" => o(it.nth_back(arg(op, 1) as usize)),
            "it_len" => vec![cap(it.len() as u64)],
            "it_hint" => { let h = it.hint(); vec![cap(h.0 as u64), h.1.map_or(-1, |x| cap(x as u64))] }
            n => panic!("harness: unknown operation {}", n),
        }
    }

    /// Perform op and complete its record: p, x, n, nb, hd, d, hc, bc, cap, al.
    pub fn event(&mut self, mut op: J, dump: bool) -> J {
        let name = op.s("op").to_string();
        AL.with(|a| a.set(0));
        let res = self.perform(&op);
        let t = if name == "clone" { arg(&op, 0) as usize } else { op.n("r") as usize };
        match res { Ok(x) => { op.set("p", J::N(0)); op.set("x", J::A(x)); } Err(()) => { op.set("p", J::N(1)); op.set("x", J::A(vec![])); } }
        let quiet = name.starts_with("it_") || name == "cmp";
        let obs = if quiet { None } else { self.regs[t].as_ref().map(|s| catch_unwind(AssertUnwindSafe(|| {
            let (n, nb) = s.lens();
            let d = if dump { Some(s.dump()) } else { None };
            let caps = if self.track_caps && matches!(s.kind(), "bv" | "iv") { Some(s.caps()) } else { None };
            (n, nb, d, caps)
        }))) };
        match obs {
            None => { op.set("n", J::N(-1)); op.set("hc", J::N(0)); }
            Some(Err(_)) => { op.set("p", J::N(3)); op.set("n", J::N(-1)); op.set("hc", J::N(0)); }
            Some(Ok((n, nb, d, caps))) => {
                op.set("n", J::N(cap(n))); op.set("nb", J::N(nb as i64));
                op.set("hd", J::N(d.is_some() as i64));
                op.set("d", J::ints(&d.unwrap_or_default()));
                op.set("hc", J::N(caps.is_some() as i64));
                if let Some((c, b)) = caps { op.set("cap", J::N(cap(c))); op.set("bc", J::N(cap(b as u64))); op.set("al", J::N(last_al())); }
            }
        }
        op
    }
}

/// Ways through an iterator: those that use it up, and those that may not.
pub const USING_UP: &[&str] = &["fold", "for_each", "rfold", "step", "skip", "rskip", "max", "min", "sorted", "cmp", "eq", "partition",
    "reduce", "ties", "order", "cycle", "zip", "rstep", "vec", "chain", "skip_while"];
pub const PARTLY: &[&str] = &["take", "rtake", "try_fold", "try_rfold", "all", "any", "find", "position", "rfind", "rposition", "find_map", "take_while", "try_each"];

fn set_al(c: u64) { AL.with(|a| a.set((alloc::calls() - c) as i64)) }
thread_local! { static AL: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }
fn last_al() -> i64 { AL.with(|a| a.get()) }

