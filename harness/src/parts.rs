//! Storages, indexers and chunks on their own, many of them on one shared backend; and functions they are made of.
use crate::common::*;
use monolith::chunk::{Chunk, ChunkOpts};
use monolith::indexer::*;
use monolith::label::*;
use monolith::storage::*;
use monolith::time_point::TimePoint;
use monolith::utils::{decode_chunk_dir, encode_chunk_dir, intersect_time_series_id_vec};
use monolith::*;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

trait St {
    fn put(&self, id: u64, t: u64, v: f64) -> Result<()>;
    fn get(&self, id: u64, s: u64, e: u64) -> Result<Vec<TimePoint>>;
}
struct S<T>(T);
impl<T: Storage> St for S<T> {
    fn put(&self, id: u64, t: u64, v: f64) -> Result<()> {
        self.0.write_time_point(id, t, v)
    }
    fn get(&self, id: u64, s: u64, e: u64) -> Result<Vec<TimePoint>> {
        self.0.read_time_series(id, s, e)
    }
}
trait Ix {
    fn index(&self, l: Labels, id: u64) -> Result<()>;
    fn ids(&self, l: Labels) -> Result<Vec<u64>>;
    fn rows(&self, l: Labels) -> Result<Vec<(u64, Labels)>>;
    fn exact(&self, l: Labels) -> Result<Option<u64>>;
}
struct I<T>(T);
impl<T: Indexer> Ix for I<T> {
    fn index(&self, l: Labels, id: u64) -> Result<()> {
        self.0.create_index(l, id)
    }
    fn ids(&self, l: Labels) -> Result<Vec<u64>> {
        self.0.get_series_id_contains_labels(l)
    }
    fn rows(&self, l: Labels) -> Result<Vec<(u64, Labels)>> {
        self.0.get_series_metadata_contains_labels(l)
    }
    fn exact(&self, l: Labels) -> Result<Option<u64>> {
        self.0.get_series_id_by_labels(l)
    }
}
trait Ch {
    fn insert(&self, l: Labels, p: TimePoint) -> Result<()>;
    fn select(&self, l: Labels, s: u64, e: u64) -> Result<Vec<(Labels, Vec<TimePoint>)>>;
    fn close(&self);
}
impl<A: Storage, B: Indexer> Ch for Chunk<A, B> {
    fn insert(&self, l: Labels, p: TimePoint) -> Result<()> {
        Chunk::insert(self, l, p)
    }
    fn select(&self, l: Labels, s: u64, e: u64) -> Result<Vec<(Labels, Vec<TimePoint>)>> {
        Ok(self.query(l, s, e)?.iter().map(|t| (t.meta_data().clone(), t.time_points().clone())).collect())
    }
    fn close(&self) {
        Chunk::close(self)
    }
}
enum Part {
    St(Box<dyn St>),
    Ix(Box<dyn Ix>),
    Ch(Box<dyn Ch>),
    None,
}

struct World {
    dir: PathBuf,
    backend: TiKvRawBackendSingleton,
    ts: Times,
    naming: u64,
}
/// identifiers of chunks, which are any 16 bytes: a few ways to have similar ones
fn identifier(naming: u64, c: u8) -> Vec<u8> {
    let mut id = vec![7u8; 16];
    match naming {
        1 => id[0] = c,
        2 => id = vec![0x80 + c; 16],
        3 => id[7] = 0xf0 + c,
        4 => id = vec![(if c % 2 == 0 { b'a' } else { b'A' }) + c / 2; 16],
        5 => (0..16).for_each(|k| id[k] = if k == 15 - c as usize { 0 } else { 0xff }),
        6 => id = (0..16).map(|k| (k as u8) ^ if k > 7 { c } else { 0 }).collect(),
        _ => id[15] = c,
    }
    id
}
impl World {
    fn opts(&self, op: &J) -> ChunkOpts {
        let id = identifier(self.naming, op["chunk"].as_u64().unwrap() as u8);
        let t = |k: &str| op[k].as_i64().map(|x| self.ts.real(x));
        ChunkOpts { start_time: t("start"), end_time: t("end"), identifier: id }
    }
    fn path(&self, op: &J) -> String {
        let p = self.dir.join(format!("c{}", op["chunk"]));
        std::fs::create_dir_all(&p).unwrap();
        p.to_string_lossy().to_string()
    }
    fn make(&self, op: &J) -> Result<Part> {
        let (p, o) = (self.path(op), self.opts(op));
        let o = Some(&o);
        let ts = || TiKvStorageBuilder::new(self.backend.clone());
        let ti = || TiKvIndexerBuilder::new(self.backend.clone());
        let (ss, si) = (SledStorageBuilder::new(), SledIndexerBuilder::new());
        Ok(match (op["what"].as_str().unwrap(), op["kind"].as_str().unwrap(), op["ikind"].as_str().unwrap_or("")) {
            ("storage", "sled", _) => Part::St(Box::new(S(ss.build(p, o, None)?))),
            ("storage", _, _) => Part::St(Box::new(S(ts()?.build(p, o, None)?))),
            ("index", "sled", _) => Part::Ix(Box::new(I(si.build(p, o, None)?))),
            ("index", _, _) => Part::Ix(Box::new(I(ti()?.build(p, o, None)?))),
            (_, "sled", "sled") => Part::Ch(Box::new(Chunk::new(ss.build(p.clone(), o, None)?, si.build(p, o, None)?, o.unwrap()))),
            (_, "sled", _) => Part::Ch(Box::new(Chunk::new(ss.build(p.clone(), o, None)?, ti()?.build(p, o, None)?, o.unwrap()))),
            (_, _, "sled") => Part::Ch(Box::new(Chunk::new(ts()?.build(p.clone(), o, None)?, si.build(p, o, None)?, o.unwrap()))),
            _ => Part::Ch(Box::new(Chunk::new(ts()?.build(p.clone(), o, None)?, ti()?.build(p, o, None)?, o.unwrap()))),
        })
    }
    /// finds the parts of a chunk again
    fn attach(&self, op: &J) -> Result<Option<Part>> {
        let o = self.opts(op);
        let p = PathBuf::from(self.path(op));
        let o = Some(&o);
        let ts = || -> Result<_> { TiKvStorageBuilder::new(self.backend.clone())?.read_from_chunk(&p.join("storage"), o) };
        let ti = || -> Result<_> { TiKvIndexerBuilder::new(self.backend.clone())?.read_from_chunk(&p.join("indexer"), o) };
        let ss = || -> Result<_> { SledStorageBuilder::new().read_from_chunk(&p.join("storage"), o) };
        let si = || -> Result<_> { SledIndexerBuilder::new().read_from_chunk(&p.join("indexer"), o) };
        macro_rules! chunk {
            ($s:expr, $i:expr) => {
                match ($s?, $i?) {
                    (Some(s), Some(i)) => {
                        let c = Chunk::new(s, i, o.unwrap());
                        c.close();
                        Some(Part::Ch(Box::new(c)))
                    }
                    _ => None,
                }
            };
        }
        Ok(match (op["what"].as_str().unwrap(), op["kind"].as_str().unwrap(), op["ikind"].as_str().unwrap_or("")) {
            ("storage", "sled", _) => ss()?.map(|x| Part::St(Box::new(S(x)))),
            ("storage", _, _) => ts()?.map(|x| Part::St(Box::new(S(x)))),
            ("index", "sled", _) => si()?.map(|x| Part::Ix(Box::new(I(x)))),
            ("index", _, _) => ti()?.map(|x| Part::Ix(Box::new(I(x)))),
            (_, "sled", "sled") => chunk!(ss(), si()),
            (_, "sled", _) => chunk!(ss(), ti()),
            (_, _, "sled") => chunk!(ts(), si()),
            _ => chunk!(ts(), ti()),
        })
    }
}

fn eight(j: &J) -> u64 {
    j.as_array().unwrap().iter().fold(0, |a, b| a << 8 | b.as_u64().unwrap())
}
fn id(j: &J) -> u64 {
    j.as_str().unwrap().parse().unwrap()
}

pub fn run(script: &Path, outp: &Path, scratch: &Path) {
    let text = std::fs::read_to_string(script).unwrap();
    let out = Arc::new(Out::new(outp));
    watchdog(out.clone(), 60);
    for (n, l) in text.lines().filter(|l| !l.trim().is_empty()).enumerate() {
        beat();
        let sc: J = serde_json::from_str(l).unwrap();
        let dir = scratch_dir(scratch, &format!("p{}", n));
        let name = format!("parts-{}", n);
        let ts = Times::new(sc["t0"].as_u64().unwrap_or(0));
        let w = World { dir: dir.clone(), backend: tikv(&name, scratch), ts, naming: n as u64 % 7 };
        out.ev(json!({"e":"scenario","id":sc["id"]}));
        let mut objs: HashMap<String, Part> = HashMap::new();
        for op in sc["ops"].as_array().unwrap() {
            beat();
            let mut e = op.clone();
            e["e"] = op["op"].clone();
            e.as_object_mut().unwrap().remove("op");
            let kind = op["op"].as_str().unwrap();
            let o = op["o"].as_str().unwrap_or("").to_string();
            let t = |k: &str| ts.real(op[k].as_i64().unwrap());
            let mut res = "ok".to_string();
            match kind {
                "new" => {
                    let r = guard(|| w.make(op));
                    res = r.0;
                    objs.insert(o, r.1.unwrap_or(Part::None));
                }
                "attach" => {
                    objs.insert(o.clone(), Part::None);
                    let mut r = guard(|| w.attach(op));
                    for _ in 0..50 {
                        if r.0 != "err" || (op["kind"] != "sled" && op["ikind"] != "sled") {
                            break; // files of a store that was just closed may be locked for a moment
                        }
                        std::thread::sleep(std::time::Duration::from_millis(20));
                        r = guard(|| w.attach(op));
                    }
                    res = r.0;
                    match r.1 {
                        Some(Some(p)) => {
                            objs.insert(o, p);
                        }
                        _ if res == "ok" => res = "none".to_string(),
                        _ => {}
                    }
                }
                "lists" => {
                    let lists: Vec<Vec<u64>> =
                        op["lists"].as_array().unwrap().iter().map(|l| l.as_array().unwrap().iter().map(id).collect()).collect();
                    let r = guard(|| intersect_time_series_id_vec(lists));
                    res = r.0;
                    e["got"] = json!(r.1.unwrap_or_default().iter().map(|x| x.to_string()).collect::<Vec<_>>());
                }
                "dir" => {
                    let (s, f) = (eight(&op["start"]), eight(&op["end"]));
                    let r = guard(|| decode_chunk_dir(encode_chunk_dir(s, f)));
                    res = r.0;
                    let b = r.1.unwrap_or_default();
                    e["back"] = json!([b.0.to_be_bytes(), b.1.to_be_bytes()]);
                }
                _ => match (objs.get(&o), kind) {
                    (Some(Part::St(s)), "put") => {
                        res = guard(|| s.put(id(&op["id"]), t("t"), bits(op["v"].as_str().unwrap()))).0;
                    }
                    (Some(Part::St(s)), "get") => {
                        let r = guard(|| s.get(id(&op["id"]), t("s"), t("t")));
                        res = r.0;
                        e["pts"] = points_json(&r.1.unwrap_or_default(), &ts);
                    }
                    (Some(Part::Ix(x)), "index") => res = guard(|| x.index(labels(&op["ls"]), id(&op["id"]))).0,
                    (Some(Part::Ix(x)), "find") => {
                        let r = guard(|| Ok((x.ids(labels(&op["m"]))?, x.rows(labels(&op["m"]))?)));
                        res = r.0;
                        let (ids, rows) = r.1.unwrap_or_default();
                        e["ids"] = json!(ids.iter().map(|x| x.to_string()).collect::<Vec<_>>());
                        e["rows"] = J::Array(rows.iter().map(|(i, l)| json!([i.to_string(), labels_json(l)])).collect());
                    }
                    (Some(Part::Ix(x)), "exact") => {
                        let r = guard(|| x.exact(labels(&op["ls"])));
                        res = r.0;
                        e["ids"] = json!(r.1.unwrap_or(None).iter().map(|x| x.to_string()).collect::<Vec<_>>());
                    }
                    (Some(Part::Ch(c)), "insert") => {
                        res = guard(|| c.insert(labels(&op["ls"]), TimePoint::new(t("t"), bits(op["v"].as_str().unwrap())))).0;
                    }
                    (Some(Part::Ch(c)), "select") => {
                        let r = guard(|| c.select(labels(&op["m"]), t("s"), t("t")));
                        res = r.0;
                        let rows = r.1.unwrap_or_default();
                        e["rows"] = J::Array(rows.iter().map(|(l, p)| json!([labels_json(l), points_json(p, &ts)])).collect());
                    }
                    (Some(Part::Ch(c)), "close") => {
                        res = guard(|| {
                            c.close();
                            Ok(())
                        })
                        .0
                    }
                    _ => continue, // the part could not be made
                },
            }
            e["res"] = json!(res);
            out.ev(e);
        }
        drop(objs);
        tikv_client::control::forget(&name);
        let _ = std::fs::remove_dir_all(&dir);
    }
}
