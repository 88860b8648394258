//! Shared pieces: time and value mapping, database handles over all backend pairs, panic capture, event output.
use monolith::indexer::*;
use monolith::label::*;
use monolith::option::DbOpts;
use monolith::storage::*;
use monolith::time_point::TimePoint;
use monolith::*;
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Abstract times are offsets to `t0`, except for the extremes. Where `far` is not 0, every `STEP` of an abstract time or
/// duration stands for `far` milliseconds, so that the numbers of the specification reach chunks that are open for years.
#[derive(Clone, Copy)]
pub struct Times {
    pub t0: u64,
    pub far: u64,
}
pub const STEP: i64 = 300_000_000;
const EXTREMES: [(i64, u64); 6] = [
    (2_000_000_000, u64::MAX),
    (1_999_999_999, u64::MAX - 1),
    (1_999_999_998, i64::MAX as u64),
    (-2_000_000_000, 0),
    (-1_999_999_999, 1),
    (-1_999_999_998, 2),
];
impl Times {
    pub fn new(t0: u64) -> Times {
        Times { t0, far: 0 }
    }
    pub fn of(sc: &J) -> Times {
        Times { t0: sc["t0"].as_u64().unwrap_or(1_600_000_000_000), far: sc["far"].as_u64().unwrap_or(0) }
    }
    /// Milliseconds in an abstract difference of times.
    pub fn span(&self, d: i64) -> i64 {
        if self.far == 0 {
            return d;
        }
        let k = (d + STEP / 2).div_euclid(STEP);
        k * self.far as i64 + d - k * STEP
    }
    pub fn real(&self, a: i64) -> u64 {
        for (x, r) in EXTREMES.iter() {
            if *x == a {
                return *r;
            }
        }
        (self.t0 as i64 + self.span(a)) as u64
    }
    pub fn abs(&self, r: u64) -> i64 {
        for (x, y) in EXTREMES.iter() {
            if *y == r {
                return *x;
            }
        }
        let mut d = r as i128 - self.t0 as i128;
        if self.far > 0 {
            let k = (d + self.far as i128 / 2).div_euclid(self.far as i128);
            let rest = d - k * self.far as i128;
            if rest.abs() < STEP as i128 / 2 && k.abs() <= 5 {
                d = k * STEP as i128 + rest;
            } else {
                d *= 2_000_000_000;
            }
        }
        if d.abs() < 1_700_000_000 {
            d as i64
        } else if d > 0 {
            1_900_000_000
        } else {
            -1_900_000_000
        }
    }
}

pub fn bits(s: &str) -> f64 {
    f64::from_bits(u64::from_str_radix(s, 16).unwrap())
}
pub fn hex(v: f64) -> String {
    format!("{:016x}", v.to_bits())
}
pub fn labels(j: &J) -> Labels {
    Labels::from_vec(
        j.as_array()
            .unwrap()
            .iter()
            .map(|p| Label::new(p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string()))
            .collect(),
    )
}
pub fn labels_json(l: &Labels) -> J {
    J::Array(l.vec().iter().map(|l| json!([l.key(), l.value()])).collect())
}
pub fn points(j: &J, ts: &Times) -> Vec<TimePoint> {
    j.as_array()
        .unwrap()
        .iter()
        .map(|p| TimePoint::new(ts.real(p[0].as_i64().unwrap()), bits(p[1].as_str().unwrap())))
        .collect()
}
pub fn points_json(p: &[TimePoint], ts: &Times) -> J {
    J::Array(p.iter().map(|p| json!([ts.abs(p.timestamp), hex(p.value)])).collect())
}

pub trait Db: Send + Sync {
    fn write(&self, l: Labels, p: Vec<TimePoint>) -> Result<()>;
    fn single(&self, l: Labels, p: TimePoint) -> Result<()>;
    fn query(&self, l: Labels, s: u64, e: u64) -> Result<Vec<(Labels, Vec<TimePoint>)>>;
    /// serve over HTTP, never returns
    fn serve(&self, port: i32, workers: usize);
}
pub struct D<S, I>(pub Arc<MonolithDb<S, I>>)
where
    S: Storage + Send + Sync + 'static,
    I: Indexer + Send + Sync + 'static;
impl<S, I> Db for D<S, I>
where
    S: Storage + Send + Sync + 'static,
    I: Indexer + Send + Sync + 'static,
{
    fn write(&self, l: Labels, p: Vec<TimePoint>) -> Result<()> {
        self.0.write_time_points(l, p)
    }
    fn single(&self, l: Labels, p: TimePoint) -> Result<()> {
        self.0.write_time_point(l, p)
    }
    fn query(&self, l: Labels, s: u64, e: u64) -> Result<Vec<(Labels, Vec<TimePoint>)>> {
        self.0.query(l, s, e)
    }
    fn serve(&self, port: i32, workers: usize) {
        let mut opts = monolith::option::ServerOpts::default();
        opts.port = port;
        opts.worker_num = workers;
        let _ = monolith::server::MonolithServer::new(opts, self.0.clone()).serve();
    }
}

/// A backend singleton over the stand-in client; `name` selects the store.
pub fn tikv(name: &str, scratch: &Path) -> TiKvRawBackendSingleton {
    let f = scratch.join(format!("tikv-{}.yaml", name));
    std::fs::write(&f, format!("dry_run: false\npd_endpoints:\n - \"{}\"\n", name)).unwrap();
    let b = TiKvRawBackendSingleton::from_config_file(&f).unwrap();
    let _ = std::fs::remove_file(&f);
    b
}
pub fn open(store: &str, index: &str, dir: &Path, size: u64, name: &str) -> Result<Arc<dyn Db>> {
    let mut o = DbOpts::default();
    o.storage = store.to_string();
    o.indexer = index.to_string();
    o.base_dir = dir.to_path_buf();
    o.chunk_size = Duration::from_millis(size);
    let tmp = std::env::temp_dir();
    let ss = || Box::new(SledStorageBuilder::new());
    let si = || Box::new(SledIndexerBuilder::new());
    let ts = || TiKvStorageBuilder::new(tikv(name, &tmp)).map(Box::new);
    let ti = || TiKvIndexerBuilder::new(tikv(name, &tmp)).map(Box::new);
    Ok(match (store, index) {
        ("sled", "sled") => Arc::new(D(MonolithDb::<SledStorage, SledIndexer>::new(o, ss(), si())?)),
        ("sled", "tikv") => Arc::new(D(MonolithDb::<SledStorage, TiKvIndexer>::new(o, ss(), ti()?)?)),
        ("tikv", "sled") => Arc::new(D(MonolithDb::<TiKvStorage, SledIndexer>::new(o, ts()?, si())?)),
        _ => Arc::new(D(MonolithDb::<TiKvStorage, TiKvIndexer>::new(o, ts()?, ti()?)?)),
    })
}

/// What a call came back with: "ok", "oor" (out of range), "err" or "panic".
pub fn guard<T>(f: impl FnOnce() -> Result<T>) -> (String, Option<T>, Option<(u64, u64)>) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(t)) => ("ok".into(), Some(t), None),
        Ok(Err(MonolithErr::OutOfRangeErr(a, b))) => ("oor".into(), None, Some((a, b))),
        Ok(Err(_)) => ("err".into(), None, None),
        Err(_) => ("panic".into(), None, None),
    }
}

/// Chunk directories of a database, decoded independently of the code under test.
pub fn chunk_dirs(dir: &Path) -> Vec<(u64, u64)> {
    let mut res = vec![];
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            let ok = n.chars().all(|c| c.is_ascii_hexdigit() && !c.is_ascii_uppercase());
            if !ok || !e.path().join("metadata.json").exists() {
                continue;
            }
            if let Ok(x) = u128::from_str_radix(&n, 16) {
                res.push(((x >> 64) as u64, x as u64));
            }
        }
    }
    res.sort();
    res
}

/// Event sink: one JSON object per line, flushed line by line, so that a killed process leaves a valid prefix.
pub struct Out(Mutex<std::fs::File>);
impl Out {
    pub fn new(p: &Path) -> Out {
        Out(Mutex::new(std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap()))
    }
    pub fn ev(&self, j: J) {
        use std::io::Write;
        let mut s = j.to_string();
        s.push('\n');
        self.0.lock().unwrap().write_all(s.as_bytes()).unwrap();
    }
}

static BEAT: AtomicU64 = AtomicU64::new(0);
/// Ends the process with a "hang" event when no progress is reported for `secs`.
pub fn watchdog(out: Arc<Out>, secs: u64) {
    std::thread::spawn(move || {
        let (mut last, mut since) = (BEAT.load(SeqCst), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(50));
            let b = BEAT.load(SeqCst);
            if b != last {
                last = b;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(secs) {
                out.ev(json!({"e":"hang"}));
                std::process::exit(3);
            }
        }
    });
}
pub fn beat() {
    BEAT.fetch_add(1, SeqCst);
}

pub fn scratch_dir(base: &Path, name: &str) -> PathBuf {
    let d = base.join(name);
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub fn wait_until(timeout_ms: u64, mut f: impl FnMut() -> bool) -> bool {
    let t = Instant::now();
    while !f() {
        if t.elapsed() > Duration::from_millis(timeout_ms) {
            return false;
        }
        std::thread::sleep(Duration::from_micros(100));
    }
    true
}

/// xorshift generator: all random choices derive from the seed in the script.
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        if self.0 == 0 {
            self.0 = 1;
        }
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() >> 11) as usize % n.max(1)
    }
}
