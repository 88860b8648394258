//! Concurrent scenarios: client threads and the rotation thread of the real database are stepped one at a time from
//! scheduling point to scheduling point (locks, atomics, accesses to the stores); recorded are calls and returns.
use crate::common::*;
use monolith::label::*;
use monolith::time_point::TimePoint;
use monolith::verif::{self, Point};
use serde_json::{json, Value as J};
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use tikv_client::{control, Fault};

thread_local! {
    /// scheduler and number of the thread
    static IDX: Cell<(usize, usize)> = Cell::new((0, usize::MAX));
    static FREE: Cell<bool> = Cell::new(false);
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Running,
    Parked(Point),
    /// waits for something the scheduler does not know
    Away,
    Done,
}
struct Th {
    st: T,
    tid: i32,
    client: bool,
    /// value of `progress` when the thread found its lock taken
    blocked_at: Option<usize>,
    pinned: bool,
    prio: i64,
    quiet: u32,
}
struct St {
    th: Vec<Th>,
    turn: usize,
    progress: usize,
    rng: Rng,
}
pub struct Sched {
    id: usize,
    st: Mutex<St>,
    cv: Condvar,
    active: AtomicBool,
    log: Mutex<Vec<J>>,
}

fn gettid() -> i32 {
    extern "C" {
        fn gettid() -> i32;
    }
    unsafe { gettid() }
}
fn asleep(tid: i32) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid))
        .ok()
        .and_then(|s| s.rsplit(')').next().map(|r| r.trim_start().starts_with('S')))
        .unwrap_or(true)
}

impl Sched {
    fn new(seed: u64) -> Arc<Sched> {
        static IDS: AtomicUsize = AtomicUsize::new(1);
        Arc::new(Sched {
            id: IDS.fetch_add(1, SeqCst),
            st: Mutex::new(St { th: vec![], turn: usize::MAX, progress: 1, rng: Rng::new(seed) }),
            cv: Condvar::new(),
            active: AtomicBool::new(false),
            log: Mutex::new(vec![]),
        })
    }
    fn me(&self) -> usize {
        match IDX.with(|x| x.get()) {
            (id, i) if id == self.id => i,
            _ => usize::MAX,
        }
    }
    fn ev(&self, j: J) {
        self.log.lock().unwrap().push(j)
    }
    fn register(&self, client: bool) -> usize {
        let mut g = self.st.lock().unwrap();
        let prio = 1000 + g.rng.below(1000) as i64;
        g.th.push(Th { st: T::Running, tid: gettid(), client, blocked_at: None, pinned: false, prio, quiet: 0 });
        let i = g.th.len() - 1;
        IDX.with(|x| x.set((self.id, i)));
        i
    }
    /// Called at scheduling points; parks the thread until it is its turn.
    fn hook(&self, p: Point) -> bool {
        if !self.active.load(SeqCst) || FREE.with(|f| f.get()) {
            return false;
        }
        let i = match self.me() {
            usize::MAX => self.register(false),
            i => i,
        };
        let mut g = self.st.lock().unwrap();
        if p == Point::Blocked {
            g.th[i].blocked_at = Some(g.progress);
        } else {
            g.th[i].blocked_at = None;
        }
        g.th[i].st = T::Parked(p);
        self.cv.notify_all();
        while g.turn != i {
            if !self.active.load(SeqCst) {
                g.th[i].st = T::Running;
                return false;
            }
            g = self.cv.wait(g).unwrap();
        }
        g.turn = usize::MAX;
        g.th[i].st = T::Running;
        g.th[i].quiet = 0;
        self.cv.notify_all();
        true
    }
    fn release(&self) {
        let _g = self.st.lock().unwrap();
        self.active.store(false, SeqCst);
        self.cv.notify_all();
    }
    fn set(&self, i: usize, st: T) {
        let mut g = self.st.lock().unwrap();
        g.th[i].st = st;
        self.cv.notify_all();
    }

    /// Steps the threads until all clients are done and nothing is left to step; false: nobody can move, or so it seems.
    fn drive(&self, policy: &mut Policy) -> bool {
        let mut steps = 0;
        let mut idle: Option<Instant> = None;
        loop {
            beat();
            let mut g = self.st.lock().unwrap();
            // wait until nobody runs
            loop {
                let running: Vec<usize> = (0..g.th.len()).filter(|i| g.th[*i].st == T::Running).collect();
                if running.is_empty() {
                    break;
                }
                let (g2, to) = self.cv.wait_timeout(g, Duration::from_micros(300)).unwrap();
                g = g2;
                if to.timed_out() {
                    for i in running {
                        if g.th[i].st == T::Running && !g.th[i].pinned && asleep(g.th[i].tid) {
                            g.th[i].quiet += 1;
                            if g.th[i].quiet >= 4 {
                                g.th[i].st = T::Away;
                            }
                        }
                    }
                }
            }
            let parked: Vec<usize> = (0..g.th.len())
                .filter(|i| match g.th[*i].st {
                    T::Parked(_) => true,
                    _ => false,
                })
                .collect();
            let progress = g.progress;
            let free: Vec<usize> =
                parked.iter().cloned().filter(|i| g.th[*i].blocked_at.map(|b| b < progress).unwrap_or(true)).collect();
            let clients_done = g.th.iter().all(|t| !t.client || t.st == T::Done);
            if free.is_empty() {
                if parked.is_empty() && clients_done {
                    return true;
                }
                // only threads the scheduler does not know about can change anything
                let since = *idle.get_or_insert(Instant::now());
                if since.elapsed() > Duration::from_millis(1500) {
                    return false;
                }
                let (g2, _) = self.cv.wait_timeout(g, Duration::from_millis(5)).unwrap();
                g = g2;
                for t in g.th.iter_mut() {
                    if t.st == T::Away && !asleep(t.tid) {
                        idle = None;
                    }
                }
                if since.elapsed() > Duration::from_millis(700) {
                    g.progress += 1; // let the blocked ones look again
                }
                continue;
            }
            steps += 1;
            if steps > 20000 {
                return false;
            }
            let c = policy.choose(&free, &mut g, steps);
            let was = g.th[c].blocked_at;
            g.turn = c;
            g.th[c].st = T::Running;
            g.th[c].quiet = 0;
            self.cv.notify_all();
            // a thread that is blocked again has changed nothing
            while g.turn == c {
                g = self.cv.wait(g).unwrap();
            }
            while g.th[c].st == T::Running {
                let (g2, to) = self.cv.wait_timeout(g, Duration::from_micros(300)).unwrap();
                g = g2;
                if to.timed_out() && g.th[c].st == T::Running && !g.th[c].pinned && asleep(g.th[c].tid) {
                    g.th[c].quiet += 1;
                    if g.th[c].quiet >= 4 {
                        g.th[c].st = T::Away;
                    }
                }
            }
            let again = was.is_some() && g.th[c].st == T::Parked(Point::Blocked);
            if !again {
                idle = None;
                g.progress += 1;
                if let Some(b) = g.th[c].blocked_at {
                    let _ = b;
                    g.th[c].blocked_at = Some(g.progress);
                }
            }
            policy.len = policy.len.max(steps);
        }
    }
}

/// Priorities with a few random changes, or fully random, or as a model behaviour says.
struct Policy {
    kind: usize,
    changes: Vec<usize>,
    guide: Vec<usize>,
    pos: usize,
    len: usize,
}
impl Policy {
    fn new(kind: usize, rng: &mut Rng, len: usize, guide: Vec<usize>) -> Policy {
        let d = rng.below(4);
        let changes = (0..d).map(|_| rng.below(len.max(4)) + 1).collect();
        Policy { kind, changes, guide, pos: 0, len: 0 }
    }
    fn choose(&mut self, free: &[usize], g: &mut St, step: usize) -> usize {
        match self.kind {
            0 => {
                let top = *free.iter().max_by_key(|i| g.th[**i].prio).unwrap();
                if self.changes.contains(&step) {
                    g.th[top].prio = -(step as i64);
                    return *free.iter().max_by_key(|i| g.th[**i].prio).unwrap();
                }
                top
            }
            1 => free[g.rng.below(free.len())],
            _ => {
                // an entry is 2 * thread + 1 for a lock, 2 * thread for anything else
                while self.pos < self.guide.len() {
                    let (w, lock) = (self.guide[self.pos] / 2, self.guide[self.pos] % 2 == 1);
                    let at_lock = w < g.th.len() && g.th[w].st != T::Parked(Point::Atomic);
                    if !free.contains(&w) || (at_lock && !lock) {
                        self.pos += 1;
                        continue;
                    }
                    if at_lock || !lock {
                        self.pos += 1;
                    }
                    return w;
                }
                free[g.rng.below(free.len())]
            }
        }
    }
}

fn with_run(j: &J, run: &str) -> Labels {
    let mut v: Vec<Label> = labels(j).vec().clone();
    v.push(Label::from_key_value("run", run));
    Labels::from_vec(v)
}
fn rows_json(r: &[(Labels, Vec<TimePoint>)], run: &str, ts: &Times) -> J {
    let mut rows: Vec<(String, J)> = r
        .iter()
        .map(|(l, p)| {
            let mut ls: Vec<(String, String)> = l.vec().iter().map(|l| (l.key().clone(), l.value().clone())).collect();
            ls.retain(|x| !(x.0 == "run" && x.1 == run));
            ls.sort();
            let pairs: Vec<J> = ls.iter().map(|(k, v)| json!([k, v])).collect();
            (format!("{:?}", ls), json!({"ls":pairs,"pts":points_json(p, ts)}))
        })
        .collect();
    rows.sort_by(|a, b| a.0.cmp(&b.0));
    J::Array(rows.into_iter().map(|x| x.1).collect())
}

struct Ctx {
    db: Arc<dyn Db>,
    times: Times,
    run: String,
    sched: Arc<Sched>,
}
impl Ctx {
    fn range(&self, dir: &Path) -> (u64, u64) {
        let probe = Labels::from_vec(vec![Label::from_key_value("__probe", "p")]);
        let (_, _, r) = guard(|| self.db.single(probe, TimePoint::new(0, 0.0)));
        r.unwrap_or_else(|| chunk_dirs(dir).last().cloned().unwrap_or((0, 0)))
    }
    fn op(&self, th: usize, op: &J) -> bool {
        let ts = &self.times;
        let s = &self.sched;
        match op["op"].as_str().unwrap() {
            "write" | "single" => {
                let l = with_run(&op["ls"], &self.run);
                let mut p = points(&op["pts"], ts);
                s.ev(json!({"e":"inv","th":th,"op":op["op"],"ls":op["ls"],"pts":op["pts"]}));
                let (res, _, _) = if op["op"] == "write" {
                    guard(|| self.db.write(l, p))
                } else {
                    guard(|| self.db.single(l, p.remove(0)))
                };
                s.ev(json!({"e":"ret","th":th,"res":res,"rows":[]}));
                res != "panic"
            }
            "query" => {
                let m = with_run(&op["m"], &self.run);
                let (a, b) = (ts.real(op["s"].as_i64().unwrap()), ts.real(op["t"].as_i64().unwrap()));
                s.ev(json!({"e":"inv","th":th,"op":"query","m":op["m"],"s":op["s"],"t":op["t"]}));
                let (res, r, _) = guard(|| self.db.query(m, a, b));
                let rows = rows_json(&r.unwrap_or(vec![]), &self.run, ts);
                s.ev(json!({"e":"ret","th":th,"res":res,"rows":rows}));
                res != "panic"
            }
            "tick" => {
                let to = op["to"].as_i64().unwrap();
                s.ev(json!({"e":"tick","clock":to}));
                let i = s.me();
                let busy = {
                    let mut g = s.st.lock().unwrap();
                    if i != usize::MAX {
                        g.th[i].pinned = true;
                    }
                    g.th.iter().any(|t| !t.client && t.st != T::Away)
                };
                let arrived = || {
                    let g = s.st.lock().unwrap();
                    g.th.iter().any(|t| !t.client && (t.st != T::Away && t.st != T::Done))
                };
                let woken = verif::sleepers().1;
                verif::set_clock(ts.real(to));
                wait_until(3000, || verif::sleepers().1 > woken);
                wait_until(1000, || verif::sleepers().0 >= 1);
                if !busy && s.active.load(SeqCst) {
                    wait_until(3000, arrived);
                }
                if i != usize::MAX {
                    s.st.lock().unwrap().th[i].pinned = false;
                }
                true
            }
            o => panic!("unknown op {}", o),
        }
    }
}

/// One schedule. Returns the history, and whether it ended.
fn schedule(sc: &J, ctx: Arc<Ctx>, dir: &Path, policy: &mut Policy) -> (Vec<J>, bool) {
    let s = ctx.sched.clone();
    FREE.with(|f| f.set(true));
    let none = vec![];
    for op in sc["init"].as_array().unwrap_or(&none) {
        ctx.op(0, op);
    }
    s.active.store(true, SeqCst);
    let threads = sc["threads"].as_array().unwrap();
    let ready = Arc::new(AtomicUsize::new(0));
    let mut joins = vec![];
    let mut ticks = 0;
    for (k, ops) in threads.iter().enumerate() {
        let ops: Vec<J> = ops.as_array().unwrap().clone();
        ticks += ops.iter().filter(|o| o["op"] == "tick").count();
        let (ctx, s2, ready2) = (ctx.clone(), s.clone(), ready.clone());
        let spawned = ready.load(SeqCst);
        joins.push(std::thread::spawn(move || {
            let i = s2.register(true);
            ready2.fetch_add(1, SeqCst);
            for op in ops.iter() {
                s2.hook(Point::Atomic);
                if !ctx.op(k + 1, op) {
                    break;
                }
            }
            s2.set(i, T::Done);
        }));
        wait_until(5000, || ready.load(SeqCst) > spawned);
    }
    if !s.drive(policy) {
        let stuck = {
            let g = s.st.lock().unwrap();
            g.th.iter().filter(|t| t.client && t.st != T::Done).all(|t| t.st == T::Parked(Point::Blocked))
        };
        // no thread holds anything but what it waits for while it holds something else
        if stuck {
            return (s.log.lock().unwrap().clone(), false);
        }
        // something the scheduler does not know about: let everything run
        s.release();
        let done = || s.st.lock().unwrap().th.iter().all(|t| !t.client || t.st == T::Done);
        if !wait_until(20000, || {
            beat();
            done()
        }) {
            return (s.log.lock().unwrap().clone(), false);
        }
    }
    s.release();
    for j in joins {
        let _ = j.join();
    }
    if ticks > 0 {
        let last = s.log.lock().unwrap().iter().filter(|e| e["e"] == "tick").last().map(|e| e["clock"].as_i64().unwrap());
        let want = ctx.times.real(last.unwrap() + 1);
        wait_until(10000, || ctx.range(dir).0 == want);
    }
    let (a, b) = ctx.range(dir);
    let dirs: Vec<J> = chunk_dirs(dir)
        .iter()
        .filter(|d| d.0 >= ctx.times.t0)
        .map(|d| json!([ctx.times.abs(d.0), ctx.times.abs(d.1)]))
        .collect();
    s.ev(json!({"e":"settled","range":[ctx.times.abs(a), ctx.times.abs(b)],"dirs":dirs}));
    for op in sc["final"].as_array().unwrap_or(&none) {
        ctx.op(0, op);
    }
    let log = s.log.lock().unwrap().clone();
    (log, true)
}

pub fn run(script: &Path, outp: &Path, scratch: &Path) {
    let text = std::fs::read_to_string(script).unwrap();
    let out = Arc::new(Out::new(outp));
    watchdog(out.clone(), 60);
    for line in text.lines().filter(|l| !l.trim().is_empty()) {
        let sc: J = serde_json::from_str(line).unwrap();
        let id = sc["id"].as_str().unwrap().to_string();
        let (store, index) = (sc["store"].as_str().unwrap(), sc["index"].as_str().unwrap());
        let size = sc["size"].as_u64().unwrap();
        let runs = sc["runs"].as_u64().unwrap();
        let per_db = sc["per_db"].as_u64().unwrap_or(1000);
        let mut rng = Rng::new(sc["seed"].as_u64().unwrap_or(1));
        let guides: Vec<Vec<usize>> = sc["guides"]
            .as_array()
            .map(|g| g.iter().map(|v| v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()).collect())
            .unwrap_or(vec![]);
        let rotates = sc["threads"].to_string().contains("\"tick\"");
        let mut seen: HashSet<String> = HashSet::new();
        let mut found: Vec<(Vec<J>, usize)> = vec![];
        let mut counts: HashMap<String, usize> = HashMap::new();
        let mut len = 40;
        let mut n = 0;
        let started = Instant::now();
        let budget = Duration::from_millis(sc["budget_ms"].as_u64().unwrap_or(60000));
        let mut hung = false;
        let mut dbn = 0;
        while n < runs && !hung && started.elapsed() < budget {
            dbn += 1;
            let dir = scratch_dir(scratch, &format!("{}-{}", id, dbn));
            let name = format!("{}-{}", id, dbn);
            let mut clock = 1_600_000_000_000u64;
            verif::set_clock(clock);
            let sleeping = verif::sleepers().0;
            let db = match open(store, index, &dir, size, &name) {
                Ok(db) => db,
                Err(_) => break,
            };
            wait_until(2000, || verif::sleepers().0 > sleeping);
            let mut t0 = clock;
            for _ in 0..per_db {
                if n >= runs || started.elapsed() >= budget {
                    break;
                }
                n += 1;
                let sched = Sched::new(rng.next());
                let s2 = sched.clone();
                verif::set_scheduler(Some(Arc::new(move |p| s2.hook(p))));
                let s3 = sched.clone();
                control::set_hook(Some(Arc::new(move |_, _| {
                    s3.hook(Point::Atomic);
                    Fault::None
                })));
                let ctx = Arc::new(Ctx { db: db.clone(), times: Times::new(t0), run: format!("r{}", n), sched: sched.clone() });
                let kind = if !guides.is_empty() && n % 2 == 0 { 2 } else if rng.below(10) < 7 { 0 } else { 1 };
                let guide = if kind == 2 { guides[(n as usize / 2) % guides.len()].clone() } else { vec![] };
                let mut policy = Policy::new(kind, &mut rng, len, guide);
                let (log, ended) = schedule(&sc, ctx.clone(), &dir, &mut policy);
                len = policy.len.max(8);
                let key = J::Array(log.clone()).to_string();
                *counts.entry(key.clone()).or_insert(0) += 1;
                if seen.insert(key) {
                    found.push((log.clone(), n as usize));
                }
                verif::set_scheduler(None);
                control::set_hook(None);
                if !ended {
                    hung = true;
                    break;
                }
                if rotates {
                    let last = log.iter().filter(|e| e["e"] == "tick").last().map(|e| e["clock"].as_i64().unwrap());
                    clock = ctx.times.real(last.unwrap_or(0));
                    t0 = ctx.range(&dir).0;
                    if t0 != clock + 1 {
                        break; // the rotation did not take place; the history says so
                    }
                }
            }
            if hung {
                break;
            }
            drop(db);
            verif::stop_sleepers();
            wait_until(1000, || verif::sleepers().0 == 0);
            control::forget(&name);
            let _ = std::fs::remove_dir_all(&dir);
        }
        for (k, (log, first)) in found.iter().enumerate() {
            out.ev(json!({"e":"history","id":id,"store":store,"index":index,"size":size,"n":first,"runs":n,"distinct":found.len(),
                "times":counts[&J::Array(log.clone()).to_string()]}));
            for e in log {
                out.ev(e.clone());
            }
            if hung && k + 1 == found.len() {
                out.ev(json!({"e":"hang"}));
            }
        }
        if hung {
            std::process::exit(3);
        }
    }
}
