//! Rank, select and wrappers over every kind of bit store (RankTrace).
#[path = "../rank/gen.rs"] mod gen;
#[path = "../rank/wrap.rs"] mod wrap;
use harness::{json::J, rng::Rng, run::*};

#[global_allocator]
static ALLOC: harness::alloc::Counting = harness::alloc::Counting;

fn record(profile: &str, rng: Rng, shard: u64, rec: &mut Recorder) {
    let mut g = gen::Gen { rng, rec, k: shard * 97 };
    while g.rec.left > 0 { g.session(profile); }
}

fn replay(ops: Vec<J>, rec: &mut Recorder) {
    let mut sub = None;
    for mut o in ops {
        rec.cur(&o);
        if o.s("op") == "vec" { sub = Some(gen::Subject::of(&o)); } else { gen::perform(sub.as_ref().unwrap(), &mut o); }
        rec.emit(&o);
    }
}

fn main() { main_with(record, replay) }
