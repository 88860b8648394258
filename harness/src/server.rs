//! Scenarios with the server as it is shipped, in a process of its own, with its command line and the real clock.
//! Times in a script are relative to the start of the open chunk. See tools/gen_server.py for the script format.
use crate::common::*;
use crate::http::{free_port, Client};
use serde_json::{json, Value as J};
use std::net::TcpStream;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn now() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}

struct Proc(Child);
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

struct Server<'a> {
    sc: &'a J,
    dir: PathBuf,
    out: Arc<Out>,
    times: Times,
    child: Option<Proc>,
    client: Option<Client>,
    known: Vec<(u64, u64)>,
    size: u64,
    deadline: u64,
    held: Vec<TcpStream>,
}

fn shift(j: &J, base: i64) -> J {
    let s = |x: &J| {
        let a = x.as_i64().unwrap();
        if a.abs() > 1_000_000_000 {
            json!(a)
        } else {
            json!(a + base)
        }
    };
    let mut j = j.clone();
    if let Some(v) = j["series"].as_array_mut() {
        for r in v.iter_mut() {
            for p in r["pts"].as_array_mut().unwrap() {
                p[0] = s(&p[0]);
            }
        }
    }
    if let Some(v) = j["queries"].as_array_mut() {
        for q in v.iter_mut() {
            q["s"] = s(&q["s"]);
            q["t"] = s(&q["t"]);
        }
    }
    j
}

impl<'a> Server<'a> {
    fn db(&self) -> PathBuf {
        self.dir.join(self.sc["dirname"].as_str().unwrap_or("db"))
    }
    fn dirs(&self) -> Vec<(u64, u64)> {
        chunk_dirs(&self.db())
    }
    fn range(&self, r: Option<&(u64, u64)>) -> J {
        match r {
            Some((a, b)) => json!([self.times.abs(*a), self.times.abs(*b)]),
            None => json!([-1_900_000_001i64, -1_900_000_001i64]),
        }
    }
    fn dirs_json(&self, d: &[(u64, u64)]) -> J {
        J::Array(d.iter().map(|x| self.range(Some(x))).collect())
    }
    fn files(&self) -> Vec<String> {
        fn walk(d: &Path, res: &mut Vec<String>) {
            if let Ok(rd) = std::fs::read_dir(d) {
                for e in rd.flatten() {
                    let p = e.path();
                    let n = if p.is_dir() { 0 } else { std::fs::metadata(&p).map(|m| m.len()).unwrap_or(0) };
                    res.push(format!("{} {}", p.display(), n));
                    if p.is_dir() {
                        walk(&p, res)
                    }
                }
            }
        }
        let mut res = vec![];
        walk(&self.db(), &mut res);
        res.sort();
        res
    }

    /// Components of the newest chunk that have files of their own.
    fn on_disk(&self) -> Vec<&'static str> {
        let newest = match self.known.last() {
            Some(d) => *d,
            None => return vec![],
        };
        let name = format!("{:x}", (newest.0 as u128) << 64 | newest.1 as u128);
        let has = |part: &str| {
            std::fs::read_dir(self.db().join(&name).join(part)).map(|d| d.flatten().count() > 0).unwrap_or(false)
        };
        ["storage", "indexer"].iter().cloned().filter(|p| has(p)).collect()
    }

    fn start(&mut self, op: &J) -> bool {
        let sc = self.sc;
        let g = |k: &str| op[k].as_str().or(sc[k].as_str()).map(|s| s.to_string());
        let (store, index) = (g("store").unwrap(), g("index").unwrap());
        let secs = g("secs").unwrap();
        self.size = secs.parse::<u64>().unwrap_or(0).saturating_mul(1000);
        std::fs::create_dir_all(self.db()).unwrap();
        let free = free_port();
        let port = g("port").unwrap_or(free.to_string());
        let workers = g("workers");
        let yaml = g("yaml").unwrap_or("none".to_string());
        let yes = |k: &str| op[k].as_bool() == Some(true);
        let path = match op["rel"].as_u64() {
            Some(1) => sc["dirname"].as_str().unwrap_or("db").to_string(),
            Some(2) => format!("./{}/", sc["dirname"].as_str().unwrap_or("db")),
            _ => self.db().to_str().unwrap().to_string(),
        };
        let mut opts: Vec<Vec<String>> = vec![
            vec![if yes("short") { "-d" } else { "--file_dir" }.into(), path],
            vec!["--port".into(), port.clone()],
        ];
        // what is not given has a default
        if !(yes("omit") && store == "sled") {
            opts.push(vec![if yes("short") { "-s" } else { "--storage" }.into(), store.clone()]);
        }
        if !(yes("omit") && index == "sled") {
            opts.push(vec![if yes("short") { "-i" } else { "--indexer" }.into(), index.clone()]);
        }
        if !(yes("omit") && secs == "12000") {
            opts.push(vec!["--chunk_size".into(), secs.clone()]);
        }
        if let Some(w) = &workers {
            opts.push(vec!["--worker_num".into(), w.clone()]);
        }
        let (read, write) = (g("read").unwrap_or("/read".into()), g("write").unwrap_or("/write".into()));
        if g("read").is_some() {
            opts.push(vec!["--read_path".into(), read.clone()]);
        }
        if g("write").is_some() {
            opts.push(vec!["--write_path".into(), write.clone()]);
        }
        let f = self.dir.join("tikv.yaml");
        let _ = std::fs::remove_file(&f);
        let text = match yaml.as_str() {
            "dry" => Some("dry_run: true\npd_endpoints:\n - \"cluster\"\n"),
            "cluster" => Some("dry_run: false\npd_endpoints:\n - \"cluster\"\n"),
            "broken" => Some("pd_endpoints: \"one\"\ndry_run: [\n"),
            _ => None,
        };
        if let Some(t) = text {
            std::fs::write(&f, t).unwrap();
        }
        if yaml != "none" {
            opts.push(vec!["--tikv_config".into(), f.to_str().unwrap().into()]);
        }
        // the order of the options does not matter
        let mut rng = Rng::new(op["seed"].as_u64().unwrap_or(1));
        for k in (1..opts.len()).rev() {
            opts.swap(k, rng.below(k + 1));
        }
        let mut c = Command::new(std::env::current_exe().unwrap().with_file_name("monolith-server"));
        for o in opts {
            if rng.below(3) == 0 && o[0].starts_with("--") {
                c.arg(format!("{}={}", o[0], o[1]));
            } else {
                c.args(&o);
            }
        }
        c.env("MBT_TIKV_DIR", &self.dir).env("RUST_LOG", "off").current_dir(&self.dir);
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        let before = self.files();
        let old = self.dirs();
        let t = now();
        let mut p = Proc(c.spawn().unwrap());
        let mut code = None;
        let number = port.parse::<u16>().unwrap_or(free);
        wait_until(20000, || {
            beat();
            std::thread::sleep(Duration::from_millis(3));
            code = p.0.try_wait().unwrap().map(|s| s.code().unwrap_or(-1));
            code.is_some() || TcpStream::connect(("127.0.0.1", number)).is_ok()
        });
        if code.is_some() && port == free.to_string() && std::net::TcpListener::bind(("127.0.0.1", free)).is_err() {
            return false; // somebody else took the port
        }
        let ready = now();
        let dirs = self.dirs();
        let fresh = dirs.iter().filter(|d| !old.contains(d)).max().cloned();
        let clock = match fresh {
            Some(d) if t <= d.0 && d.0 <= ready => d.0,
            _ => ready,
        };
        self.known = dirs.clone();
        let disk = if fresh.is_some() { self.on_disk() } else { vec![] };
        let cluster = std::fs::metadata(self.dir.join("cluster")).map(|m| m.len() > 0).unwrap_or(false);
        let num = |s: &str| {
            let ok = !s.is_empty() && s.len() < 10 && s.bytes().all(|b| b.is_ascii_digit());
            json!({"num":ok,"n":if ok { s.parse::<i64>().unwrap() } else { 0 }})
        };
        let e = json!({"e":"start","store":store,"index":index,"size":self.size,"clock":self.times.abs(clock),
            "res":if code.is_some() {"err"} else {"ok"},"range":self.range(fresh.as_ref()),"dirs":self.dirs_json(&dirs),
            "unchanged":code.is_some() && before == self.files(),"f":0,"code":code.unwrap_or(0),
            "cli":{"storage":store,"indexer":index,"port":num(&port),"secs":num(&secs),
                "workers":num(&workers.unwrap_or("8".into())),"yaml":yaml},
            "disk":disk,"cluster":cluster});
        self.out.ev(e);
        self.deadline = clock + self.size;
        if code.is_none() {
            self.child = Some(p);
            self.client = Some(Client { port: number, times: self.times, read, write });
        }
        true
    }

    /// Start of the open chunk, as an abstract time.
    fn base(&self) -> i64 {
        self.known.last().map(|d| self.times.abs(d.0)).unwrap_or(0)
    }
    /// The event of a rotation that has been seen.
    fn rotated(&mut self, dirs: Vec<(u64, u64)>) {
        let r = *dirs.iter().filter(|d| !self.known.contains(d)).max().unwrap();
        let clock = if self.known.last().unwrap().0 < r.0 && r.0 <= now() + 1 { r.0 - 1 } else { now() };
        self.out.ev(json!({"e":"tick","clock":self.times.abs(clock),"range":self.range(Some(&r)),
            "dirs":self.dirs_json(&dirs),"f":0}));
        self.known = dirs;
        self.deadline = clock + self.size;
    }

    fn op(&mut self, op: &J) -> bool {
        beat();
        match op["op"].as_str().unwrap() {
            "start" => {
                self.start(op)
            }
            "stop" => {
                if op["how"] == "flush" {
                    // the stores' own threads come by about twice a second, later on a busy machine
                    let load = std::fs::read_to_string("/proc/loadavg").unwrap_or_default();
                    let load: f64 = load.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(8.0);
                    std::thread::sleep(Duration::from_millis((1500.0 * (load / 8.0).max(1.0).min(5.0)) as u64));
                    if self.dirs() != self.known {
                        return false;
                    }
                }
                self.child = None;
                self.client = None;
                self.held.clear();
                self.out.ev(json!({"e":"stop","how":op["how"],"ls":[],"pts":[]}));
                true
            }
            _ if self.client.is_none() => op["opt"].as_bool() == Some(true),
            // a client that stops in the middle of a request, until the server ends
            "hold" => {
                if let Ok(mut c) = TcpStream::connect(("127.0.0.1", self.client.as_ref().unwrap().port)) {
                    use std::io::Write;
                    let _ = c.write_all(b"POST /write HTTP/1.1\r\nContent-Length: 5000\r\n\r\nabc");
                    self.held.push(c);
                    std::thread::sleep(Duration::from_millis(30));
                }
                true
            }
            "rotate" => {
                let limit = self.deadline + 9000;
                while self.dirs() == self.known && now() < limit {
                    beat();
                    std::thread::sleep(Duration::from_millis(5));
                }
                let dirs = self.dirs();
                if dirs == self.known {
                    let t = now();
                    self.out.ev(json!({"e":"tick","clock":self.times.abs(t),"range":self.range(self.known.last()),
                        "dirs":self.dirs_json(&dirs),"f":0}));
                    return false;
                }
                let c = self.client.clone().unwrap();
                self.rotated(dirs);
                // the new chunk is in use once it takes a sample that is not in the range of the one before
                let b = self.times.abs(self.known[self.known.len() - 2].1 + 1).max(self.base());
                let w = shift(&json!({"op":"rw","series":[{"ls":[["probe","p"]],"pts":[[0,"3ff0000000000000"]]}]}), b);
                let r = shift(&json!({"op":"rr","queries":[{"s":0,"t":0,"m":[["probe","p"]],"types":[0]}]}), b);
                let (mut a, mut q) = (J::Null, J::Null);
                wait_until(2000, || {
                    beat();
                    a = c.run(&w);
                    q = c.run(&r);
                    std::thread::sleep(Duration::from_millis(3));
                    q["results"][0].as_array().map(|x| !x.is_empty()).unwrap_or(false)
                });
                if self.dirs() != self.known {
                    return false;
                }
                self.out.ev(a);
                self.out.ev(q);
                true
            }
            _ => {
                let e = self.client.as_ref().unwrap().run(&shift(op, self.base()));
                let dirs = self.dirs();
                if dirs != self.known {
                    // a rotation meanwhile leaves open which chunk the request met; one that is not due is wrong
                    let due = dirs.iter().max().unwrap().0 > self.deadline;
                    if !due {
                        self.rotated(dirs);
                    }
                    return false;
                }
                let silent = e["status"] == -3;
                self.out.ev(e);
                !silent
            }
        }
    }
}

pub fn run(script: &Path, outp: &Path, scratch: &Path) {
    let text = std::fs::read_to_string(script).unwrap();
    let out = Arc::new(Out::new(outp));
    watchdog(out.clone(), 90);
    for l in text.lines().filter(|l| !l.trim().is_empty()) {
        beat();
        let sc: J = serde_json::from_str(l).unwrap();
        let dir = scratch_dir(scratch, sc["id"].as_str().unwrap());
        out.ev(json!({"e":"scenario","id":sc["id"],"store":sc["store"],"index":sc["index"],"size":0}));
        let mut s = Server {
            sc: &sc,
            dir: dir.clone(),
            out: out.clone(),
            times: Times::new(now()),
            child: None,
            client: None,
            known: vec![],
            size: 0,
            deadline: 0,
            held: vec![],
        };
        for op in sc["ops"].as_array().unwrap() {
            if !s.op(op) {
                break;
            }
        }
        drop(s);
        out.ev(json!({"e":"end"}));
        let _ = std::fs::remove_dir_all(&dir);
    }
}
