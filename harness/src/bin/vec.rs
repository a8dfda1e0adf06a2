//! Histories over every kind of bit store (VecTrace).
#[path = "../vec/exec.rs"] mod exec;
#[path = "../vec/gen.rs"] mod gen;
#[path = "../vec/stores.rs"] mod stores;
use harness::{json::J, rng::Rng, run::*};

#[global_allocator]
static ALLOC: harness::alloc::Counting = harness::alloc::Counting;

fn record(profile: &str, rng: Rng, _shard: u64, rec: &mut Recorder) {
    let mut g = gen::Gen { rng, m: exec::Machine::new(), rec, dump_every: 1, k: 0, maxbits: 100, oor: 5 };
    while g.rec.left > 0 { g.session(profile); }
}

fn replay(ops: Vec<J>, rec: &mut Recorder) {
    let mut m = exec::Machine::new();
    for o in ops { rec.cur(&o); let d = o.n("hd") == 1; m.track_caps = o.n("hc") == 1; let e = m.event(o, d); rec.emit(&e); }
}

fn main() { main_with(record, replay) }
