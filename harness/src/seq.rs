//! Sequential scenarios: database calls, clock ticks, restarts, faults. See tools/ for the script format.
use crate::common::*;
use crate::crash;
use monolith::label::*;
use monolith::time_point::TimePoint;
use monolith::verif;
use serde_json::{json, Value as J};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tikv_client::{control, Fault};

/// Faults and crash points, counted over all accesses to the stores of this process.
#[derive(Clone)]
pub struct Faults {
    plan: Arc<Mutex<Vec<(usize, Fault, usize)>>>,
    die_at: Arc<AtomicUsize>,
    calls: Arc<AtomicUsize>,
    fired: Arc<AtomicUsize>,
}
impl Faults {
    pub fn new() -> Faults {
        let z = || Arc::new(AtomicUsize::new(0));
        Faults { plan: Arc::new(Mutex::new(vec![])), die_at: Arc::new(AtomicUsize::new(usize::MAX)), calls: z(), fired: z() }
    }
    fn call(&self) -> usize {
        let n = self.calls.fetch_add(1, SeqCst);
        if n == self.die_at.load(SeqCst) {
            crash::die();
        }
        let mut g = self.plan.lock().unwrap();
        match g.iter().position(|x| x.0 == n) {
            Some(i) => {
                let (_, f, kind) = g.remove(i);
                verif::set_fault_kind(kind);
                control::set_fault_kind(kind);
                if f != Fault::None {
                    self.fired.fetch_add(1, SeqCst);
                }
                match f {
                    Fault::None => 0,
                    Fault::Before => 1,
                    Fault::After => 2,
                }
            }
            None => 0,
        }
    }
    /// How many have hit so far.
    pub fn count(&self) -> usize {
        self.fired.load(SeqCst)
    }
    /// `calm`: flushing an embedded store does not fail
    pub fn install(&self, calm: bool) {
        let f = self.clone();
        control::set_hook(Some(Arc::new(move |_, _| [Fault::None, Fault::Before, Fault::After][f.call()])));
        let f = self.clone();
        verif::set_store_hook(Some(Arc::new(move |change, key| {
            if calm && change && key.is_empty() {
                return verif::Fault::None;
            }
            [verif::Fault::None, verif::Fault::Before, verif::Fault::After][f.call()]
        })));
    }
}

pub struct Run<'a> {
    sc: &'a J,
    store: String,
    index: String,
    tries: bool,
    dir: PathBuf,
    times: Times,
    clock: u64,
    deadline: u64,
    size: i64,
    db: Option<Arc<dyn Db>>,
    out: Arc<Out>,
    name: String,
    faults: Faults,
    fired_before: usize,
}

fn fault(s: &str) -> Fault {
    match s {
        "before" => Fault::Before,
        "after" => Fault::After,
        _ => Fault::None,
    }
}

impl<'a> Run<'a> {
    /// `spec` describes the database, one of several in `sc`
    pub fn new(sc: &'a J, spec: &'a J, dir: &Path, out: Arc<Out>, faults: Faults) -> Run<'a> {
        let t0 = sc["t0"].as_u64().unwrap_or(1_600_000_000_000);
        let base = spec["dirname"].as_str().unwrap_or("db");
        let d = dir.join(base);
        std::fs::create_dir_all(&d).unwrap();
        Run {
            sc,
            store: spec["store"].as_str().unwrap().to_string(),
            index: spec["index"].as_str().unwrap().to_string(),
            tries: sc["crashes"].as_bool() == Some(true),
            dir: d,
            times: Times::of(sc),
            clock: t0,
            deadline: 0,
            size: spec["size"].as_i64().unwrap(),
            db: None,
            out,
            name: format!("{}", sc["id"].as_str().unwrap()),
            faults,
            fired_before: 0,
        }
    }

    /// Range of the open chunk: a time point at 0 is outside of every chunk, and the refusal names the range.
    fn range(&self) -> Option<(u64, u64)> {
        let db = self.db.as_ref()?;
        let probe = Labels::from_vec(vec![Label::from_key_value("__probe", "p")]);
        let (_, _, r) = guard(|| db.single(probe, TimePoint::new(0, 0.0)));
        r.or_else(|| chunk_dirs(&self.dir).last().cloned())
    }
    fn range_json(&self) -> J {
        match self.range() {
            Some((a, b)) => json!([self.times.abs(a), self.times.abs(b)]),
            None => json!([-1_900_000_001i64, -1_900_000_001i64]),
        }
    }
    fn dirs_json(&self) -> J {
        J::Array(
            chunk_dirs(&self.dir).iter().map(|(a, b)| json!([self.times.abs(*a), self.times.abs(*b)])).collect(),
        )
    }
    fn listing(&self) -> Vec<String> {
        fn walk(d: &Path, res: &mut Vec<String>) {
            if let Ok(rd) = std::fs::read_dir(d) {
                for e in rd.flatten() {
                    let p = e.path();
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    if !p.is_dir() {
                        use std::hash::Hash;
                        std::fs::read(&p).unwrap_or(vec![]).hash(&mut h);
                    }
                    use std::hash::Hasher;
                    res.push(format!("{} {:x}", p.display(), h.finish()));
                    if p.is_dir() {
                        walk(&p, res)
                    }
                }
            }
        }
        let mut res = vec![];
        walk(&self.dir, &mut res);
        res.sort();
        res
    }

    pub fn db(&self) -> Option<Arc<dyn Db>> {
        self.db.clone()
    }
    pub fn times(&self) -> Times {
        self.times
    }

    /// Faults that hit the current operation.
    fn f(&self) -> usize {
        self.faults.fired.load(SeqCst) - self.fired_before
    }

    fn open(&mut self, op: &J) {
        let store = op["store"].as_str().unwrap_or(&self.store).to_string();
        let index = op["index"].as_str().unwrap_or(&self.index).to_string();
        if let Some(s) = op["size"].as_i64() {
            self.size = s;
        }
        // what the directory says about itself cannot be read for a while
        let metadata = self.dir.join("metadata.json");
        let readable = std::fs::read(&metadata).ok().filter(|_| op["garbled"].is_boolean());
        if let Some(r) = &readable {
            std::fs::write(&metadata, [&[0xc3, 0x28], &r[..]].concat()).unwrap();
        }
        let before = self.listing();
        verif::set_clock(self.clock);
        let sleeping = verif::sleepers().0;
        let (res, db, _) = guard(|| open(&store, &index, &self.dir, self.times.span(self.size) as u64, &self.name));
        let unchanged = res != "ok" && before == self.listing();
        if let Some(r) = readable {
            std::fs::write(&metadata, r).unwrap();
        }
        self.db = db;
        if self.db.is_some() {
            self.deadline = self.clock + self.times.span(self.size) as u64;
            wait_until(2000, || verif::sleepers().0 > sleeping);
        }
        self.out.ev(json!({"e":"open","store":store,"index":index,"size":self.size,"clock":self.times.abs(self.clock),
            "res":res,"range":self.range_json(),"dirs":self.dirs_json(),"unchanged":unchanged,"f":self.f()}));
    }

    /// Time passes for all databases.
    pub fn tick(runs: &mut [Run], d: u64) {
        let clock = runs[0].clock + d;
        let old: Vec<_> = runs.iter().map(|r| r.range()).collect();
        let due: Vec<bool> = runs.iter().map(|r| r.db.is_some() && clock >= r.deadline).collect();
        let (sleeping, woken) = verif::sleepers();
        verif::set_clock(clock);
        let n = due.iter().filter(|d| **d).count();
        if n > 0 {
            wait_until(10000, || verif::sleepers().1 >= woken + n);
        } else if runs.iter().any(|r| r.db.is_some()) {
            std::thread::sleep(Duration::from_millis(1));
        }
        for (k, r) in runs.iter_mut().enumerate() {
            r.clock = clock;
            if due[k] {
                r.deadline = clock + r.times.span(r.size) as u64;
                let patience = if r.sc["norotate"].is_boolean() { 300 } else { 8000 };
                let f0 = r.fired_before;
                let moved = wait_until(patience, || r.range() != old[k] || r.faults.fired.load(SeqCst) > f0);
                if moved && r.faults.fired.load(SeqCst) > f0 {
                    wait_until(200, || r.range() != old[k]);
                }
            }
        }
        wait_until(2000, || verif::sleepers().0 >= sleeping);
        for r in runs.iter() {
            r.out.ev(json!({"e":"tick","clock":r.times.abs(r.clock),"range":r.range_json(),"dirs":r.dirs_json(),"f":r.f()}));
        }
    }

    /// Executes one operation; false ends the scenario.
    pub fn op(&mut self, op: &J) -> bool {
        beat();
        self.fired_before = self.faults.fired.load(SeqCst);
        let kind = op["op"].as_str().unwrap();
        let db = self.db.clone();
        if self.tries && (kind == "write" || kind == "single") {
            let pts = if kind == "write" { op["pts"].clone() } else { json!([[op["t"], op["v"]]]) };
            self.out.ev(json!({"e":"try","ls":op["ls"],"pts":pts}));
        }
        match kind {
            "open" => {
                if self.db.is_some() {
                    self.db = None;
                    verif::stop_sleepers();
                }
                self.open(op)
            }
            // an operation that only makes sense if the attempt to open succeeded
            "write" | "single" | "query" if db.is_none() => return op["opt"].is_boolean(),
            "write" => {
                let (l, p) = (labels(&op["ls"]), points(&op["pts"], &self.times));
                let (res, _, _) = guard(|| db.unwrap().write(l, p));
                self.out.ev(json!({"e":"write","ls":op["ls"],"pts":op["pts"],"res":res,"f":self.f()}));
                return res != "panic";
            }
            "single" => {
                let l = labels(&op["ls"]);
                let p = TimePoint::new(self.times.real(op["t"].as_i64().unwrap()), bits(op["v"].as_str().unwrap()));
                let (res, _, _) = guard(|| db.unwrap().single(l, p));
                self.out.ev(json!({"e":"single","ls":op["ls"],"pts":[[op["t"],op["v"]]],"res":res,"f":self.f()}));
                return res != "panic";
            }
            "query" => {
                let (s, t) = (op["s"].as_i64().unwrap(), op["t"].as_i64().unwrap());
                let m = labels(&op["m"]);
                let (res, r, _) = guard(|| db.unwrap().query(m, self.times.real(s), self.times.real(t)));
                let rows: Vec<J> = r
                    .unwrap_or(vec![])
                    .iter()
                    .map(|(l, p)| json!({"ls":labels_json(l),"pts":points_json(p, &self.times)}))
                    .collect();
                self.out.ev(json!({"e":"query","m":op["m"],"s":s,"t":t,"res":res,"rows":rows,"f":self.f()}));
                return res != "panic";
            }
            "faults" => {
                let base = self.faults.calls.load(SeqCst);
                *self.faults.plan.lock().unwrap() = op["plan"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|p| {
                        let at = p[0].as_u64().unwrap() as usize;
                        (base + at, fault(p[1].as_str().unwrap()), p[2].as_u64().unwrap_or((base * 7 + at * 3) as u64) as usize)
                    })
                    .collect();
            }
            "crash" => {
                let n = op["n"].as_u64().unwrap();
                if op["on"] == "fs" {
                    crash::arm(self.dir.to_str().unwrap(), n as i64, op["torn"].as_bool().unwrap_or(false));
                } else {
                    self.faults.die_at.store(self.faults.calls.load(SeqCst) + n as usize - 1, SeqCst);
                }
            }
            "calls" => {
                self.out.ev(json!({"e":"calls","n":self.faults.calls.load(SeqCst)}));
            }
            "junk" => {
                let p = self.dir.join(op["path"].as_str().unwrap());
                if op["dir"].as_bool() == Some(true) {
                    std::fs::create_dir_all(&p).unwrap();
                } else {
                    if let Some(d) = p.parent() {
                        std::fs::create_dir_all(d).unwrap();
                    }
                    std::fs::write(&p, op["content"].as_str().unwrap_or("")).unwrap();
                }
            }
            "junkbytes" => {
                use std::os::unix::ffi::OsStrExt;
                let n = std::ffi::OsStr::from_bytes(&[0x66, 0xff, 0xfe]);
                std::fs::write(self.dir.join(n), "x").unwrap();
            }
            "flush" => {
                verif::sled::flush_all();
                self.out.ev(json!({"e":"flushed"}));
            }
            "sleep" => std::thread::sleep(Duration::from_millis(op["ms"].as_u64().unwrap())),
            _ => panic!("unknown op {}", kind),
        }
        true
    }
}

/// The databases of a scenario: itself, or those in "dbs", each with its own recording.
fn specs(sc: &J) -> Vec<&J> {
    match sc["dbs"].as_array() {
        Some(v) => v.iter().collect(),
        None => vec![sc],
    }
}
fn out_of(base: &Path, k: usize) -> PathBuf {
    PathBuf::from(format!("{}.db{}", base.display(), k))
}

/// Runs the operations of one process life: `ops[from..]` up to the next "stop".
pub fn run_life(sc: &J, dir: &Path, outs: Vec<Arc<Out>>, from: usize, clock: u64, persist: bool) {
    let faults = Faults::new();
    let mut runs: Vec<Run> =
        specs(sc).iter().zip(outs.iter()).map(|(s, o)| Run::new(sc, s, dir, o.clone(), faults.clone())).collect();
    let name = runs[0].name.clone();
    for r in runs.iter_mut() {
        r.clock = clock;
    }
    if persist {
        control::persist(&name, &dir.join("tikv.log"));
    }
    faults.install(sc["crashes"].as_bool() == Some(true));
    for op in sc["ops"].as_array().unwrap().iter().skip(from) {
        if op["op"] == "stop" {
            match op["how"].as_str().unwrap() {
                "flush" => verif::sled::flush_all(),
                _ => {}
            }
            for o in outs.iter() {
                o.ev(json!({"e":"stop","how":op["how"],"ls":[],"pts":[]}));
            }
            crash::die();
        }
        if op["op"] == "tick" {
            beat();
            let f = faults.fired.load(SeqCst);
            runs.iter_mut().for_each(|r| r.fired_before = f);
            let d = runs[0].times.span(op["d"].as_i64().unwrap()) as u64;
            Run::tick(&mut runs, d);
            continue;
        }
        if !runs[op["db"].as_u64().unwrap_or(0) as usize].op(op) {
            break;
        }
    }
    for (o, r) in outs.iter().zip(runs.iter_mut()) {
        o.ev(json!({"e":"end"}));
        r.db = None;
    }
    verif::stop_sleepers();
    wait_until(1000, || verif::sleepers().0 == 0);
    control::set_hook(None);
    verif::set_store_hook(None);
    control::forget(&name);
}

/// What a process that ended without warning was doing.
fn pending(out: &Path) -> Option<J> {
    let text = std::fs::read_to_string(out).unwrap();
    let last: J = serde_json::from_str(text.lines().last()?).ok()?;
    match last["e"].as_str()? {
        "stop" => None,
        "try" => Some(json!({"e":"stop","how":"kill","early":true,"ls":last["ls"],"pts":last["pts"]})),
        _ => Some(json!({"e":"stop","how":"kill","early":true,"ls":[],"pts":[]})),
    }
}

/// All scenarios of a script file, one after the other; those with restarts use one child process per life.
pub fn run(script: &Path, outp: &Path, scratch: &Path) {
    let text = std::fs::read_to_string(script).unwrap();
    let out = Arc::new(Out::new(outp));
    watchdog(out.clone(), 60);
    for line in text.lines().filter(|l| !l.trim().is_empty()) {
        beat();
        let sc: J = serde_json::from_str(line).unwrap();
        let dir = scratch_dir(scratch, sc["id"].as_str().unwrap());
        let multi = sc["dbs"].is_array();
        let outs: Vec<PathBuf> =
            if multi { (0..specs(&sc).len()).map(|k| out_of(outp, k)).collect() } else { vec![outp.to_path_buf()] };
        for (o, s) in outs.iter().zip(specs(&sc)) {
            Out::new(o).ev(json!({"e":"scenario","id":sc["id"],"store":s["store"],"index":s["index"],"size":s["size"]}));
        }
        let ops = sc["ops"].as_array().unwrap();
        if ops.iter().any(|o| o["op"] == "stop") || sc["own"].as_bool() == Some(true) {
            let f = dir.join("scenario.json");
            std::fs::write(&f, line).unwrap();
            let mut from = 0;
            let mut clock = sc["t0"].as_u64().unwrap_or(1_600_000_000_000);
            loop {
                beat();
                let st = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(&["life", f.to_str().unwrap(), outp.to_str().unwrap(), dir.to_str().unwrap()])
                    .args(&[from.to_string(), clock.to_string()])
                    .stderr(std::process::Stdio::null())
                    .status()
                    .unwrap();
                use std::os::unix::process::ExitStatusExt;
                if st.signal() != Some(9) {
                    if st.code() == Some(3) || st.success() {
                        break; // ended, or a hang that is already recorded
                    }
                    Out::new(&outs[0]).ev(json!({"e":"died"}));
                    break;
                }
                for o in outs.iter() {
                    if let Some(stop) = pending(o) {
                        Out::new(o).ev(stop);
                    }
                }
                let mut i = from;
                while i < ops.len() && ops[i]["op"] != "stop" {
                    if ops[i]["op"] == "tick" {
                        clock += Times::of(&sc).span(ops[i]["d"].as_i64().unwrap()) as u64;
                    }
                    i += 1;
                }
                from = i + 1;
                if from >= ops.len() {
                    break;
                }
            }
        } else {
            let t0 = sc["t0"].as_u64().unwrap_or(1_600_000_000_000);
            let o = if multi { outs.iter().map(|p| Arc::new(Out::new(p))).collect() } else { vec![out.clone()] };
            run_life(&sc, &dir, o, 0, t0, false);
        }
        if multi {
            for o in outs.iter() {
                for l in std::fs::read_to_string(o).unwrap().lines() {
                    out.ev(serde_json::from_str(l).unwrap());
                }
                let _ = std::fs::remove_file(o);
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
}

pub fn life(a: &[String]) {
    let sc: J = serde_json::from_str(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    let base = Path::new(&a[1]);
    let outs: Vec<Arc<Out>> = if sc["dbs"].is_array() {
        (0..specs(&sc).len()).map(|k| Arc::new(Out::new(&out_of(base, k)))).collect()
    } else {
        vec![Arc::new(Out::new(base))]
    };
    watchdog(outs[0].clone(), 30);
    run_life(&sc, Path::new(&a[2]), outs, a[3].parse().unwrap(), a[4].parse().unwrap(), true);
}
