//! The command line of a recorder, its output, and its watchdog.
use crate::json::J;
use crate::rng::Rng;
use std::fs::File;
use std::io::{BufWriter, Read, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicU64, Ordering};

static TICK: AtomicU64 = AtomicU64::new(0);

/// No call of the library takes this long (in seconds of processor time, so
/// that a busy machine makes no difference) unless it hangs.
static HANG_S: AtomicU64 = AtomicU64::new(40);
pub fn patience(s: u64) { HANG_S.store(s, Ordering::Relaxed) }

/// The trace being written, and a file with the call in progress.
pub struct Recorder { out: BufWriter<File>, cur: File, pub left: i64 }
impl Recorder {
    pub fn new(path: &str, events: i64) -> Recorder {
        Recorder { out: BufWriter::with_capacity(1 << 16, File::create(path).unwrap()), cur: File::create(format!("{}.cur", path)).unwrap(), left: events }
    }
    pub fn cur(&mut self, j: &J) {
        TICK.fetch_add(1, Ordering::Relaxed);
        let mut s = j.text(); s.push('\n');
        let _ = self.cur.set_len(0);
        let _ = self.cur.seek(SeekFrom::Start(0));
        let _ = self.cur.write_all(s.as_bytes());
    }
    pub fn emit(&mut self, j: &J) { let mut s = j.text(); s.push('\n'); self.out.write_all(s.as_bytes()).unwrap(); self.left -= 1; }
}

fn cpu_s() -> u64 {
    let mut s = String::new();
    let _ = File::open("/proc/self/stat").and_then(|mut f| f.read_to_string(&mut s));
    let f: Vec<u64> = s.rsplit(')').next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
    if f.len() > 12 { (f[11] + f[12]) / 100 } else { 0 }
}
fn watchdog() {
    std::thread::spawn(|| {
        let (mut last, mut since, mut cpu) = (0, std::time::Instant::now(), cpu_s());
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let (t, limit) = (TICK.load(Ordering::Relaxed), HANG_S.load(Ordering::Relaxed));
            if t != last { last = t; since = std::time::Instant::now(); cpu = cpu_s(); }
            else if cpu_s() - cpu > limit || since.elapsed().as_secs() > 10 * limit { eprintln!("hang"); std::process::exit(3) }
        }
    });
}

/// record <profile> <seed> <shard> <events> <out> | replay <trace> <out>
pub fn main_with(record: fn(&str, Rng, u64, &mut Recorder), replay: fn(Vec<J>, &mut Recorder)) {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("HARNESS_PANICS").is_err() { std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { String::new() };
        if m.starts_with("harness:") { eprintln!("{}", m); std::process::exit(4) }
    })); }
    watchdog();
    match &a[1][..] {
        "record" => {
            let (seed, shard, n) = (a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].parse::<i64>().unwrap());
            let mut r = Recorder::new(&a[6], n);
            record(&a[2], Rng::new(seed, shard), shard, &mut r);
            r.out.flush().unwrap();
        }
        "replay" => {
            let mut s = String::new();
            File::open(&a[2]).unwrap().read_to_string(&mut s).unwrap();
            let mut r = Recorder::new(&a[3], i64::MAX);
            replay(s.lines().filter(|l| !l.is_empty()).map(|l| J::parse(l)).collect(), &mut r);
            r.out.flush().unwrap();
        }
        c => panic!("harness: command {}", c),
    }
}
