//! Write-ahead-log segments over writers that take what they like.
use crate::common::*;
use monolith::verif::wal::*;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::io::{BufWriter, Error, ErrorKind, Result, Write};
use std::path::Path;
use std::rc::Rc;
use std::sync::Arc;

/// Takes as many bytes of each buffer as the pattern says; 0 stands for an interruption, -1 for a refusal.
struct Sink {
    got: Rc<RefCell<Vec<u8>>>,
    refused: Rc<RefCell<usize>>,
    pattern: Vec<i64>,
    n: usize,
    total: usize,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let take = if self.pattern.is_empty() { i64::MAX } else { self.pattern[self.n % self.pattern.len()] };
        self.n += 1;
        if take == 0 {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        if take < 0 && self.total >= 8 {
            *self.refused.borrow_mut() += 1;
            let kinds = [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::PermissionDenied];
            return Err(Error::new(kinds[self.n % 4], "refused"));
        }
        let k = (take.unsigned_abs() as usize).min(b.len());
        self.total += k;
        self.got.borrow_mut().extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

fn nums(j: &J) -> Vec<u8> {
    j.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()
}

fn segment<W: Write>(sc: &J, w: W, got: &dyn Fn() -> Vec<u8>, refused: &RefCell<usize>, out: &Out) {
    let limit = sc["limit"].as_u64().unwrap() as usize;
    let policy = match sc["policy"].as_str().unwrap() {
        "count" => FlushPolicy::NumBased(limit),
        "size" => FlushPolicy::SizeBased(limit),
        _ => FlushPolicy::Immediate,
    };
    let (res, seg, _) = guard(move || Segment::new(policy, w));
    out.ev(json!({"e":"segment","id":sc["id"],"policy":sc["policy"],"limit":limit,"sink":sc["sink"],"res":res,"got":got()}));
    let mut seg = match seg {
        Some(s) => s,
        None => return,
    };
    for op in sc["ops"].as_array().unwrap() {
        beat();
        let mut e = json!({"e":op["op"],"sink":sc["sink"]});
        *refused.borrow_mut() = 0;
        let s = &mut seg;
        let r = match op["op"].as_str().unwrap() {
            "entry" => {
                let data = nums(&op["data"]);
                let seq = nums(&op["seq"]).iter().fold(0u64, |a, b| a << 8 | *b as u64);
                e["seq"] = op["seq"].clone();
                e["type"] = json!(0);
                e["data"] = op["data"].clone();
                let parts = op["parts"].as_u64().unwrap() as usize;
                guard(move || {
                    let mut en = Entry::new(seq, EntryType::Default);
                    if parts > 0 {
                        let size = (data.len() + parts - 1) / parts;
                        for c in data.chunks(size.max(1)) {
                            en.push(c.to_vec());
                        }
                        if data.is_empty() {
                            en.push(vec![]);
                        }
                    }
                    s.write_entry(en)
                })
                .0
            }
            "flush" => guard(move || s.flush().map_err(|e| e.into())).0,
            _ => guard(move || s.close()).0,
        };
        e["res"] = json!(if r == "err" { "error" } else { &r });
        e["got"] = json!(got());
        e["refused"] = json!(*refused.borrow());
        out.ev(e);
        if r != "ok" && *refused.borrow() == 0 {
            break;
        }
    }
    std::mem::forget(seg); // what a buffering writer does when it is dropped is not the segment's doing
}

pub fn run(script: &Path, outp: &Path, scratch: &Path) {
    let text = std::fs::read_to_string(script).unwrap();
    let out = Arc::new(Out::new(outp));
    watchdog(out.clone(), 20);
    for l in text.lines().filter(|l| !l.trim().is_empty()) {
        beat();
        let sc: J = serde_json::from_str(l).unwrap();
        if sc["sink"] == "file" {
            let p = scratch.join("segment");
            let _ = std::fs::remove_file(&p);
            let f = std::fs::OpenOptions::new().create(true).append(true).open(&p).unwrap();
            let seen = RefCell::new(0);
            segment(
                &sc,
                f,
                &|| {
                    let all = std::fs::read(&p).unwrap();
                    let new = all[*seen.borrow()..].to_vec();
                    *seen.borrow_mut() = all.len();
                    new
                },
                &RefCell::new(0),
                &out,
            );
            continue;
        }
        let got = Rc::new(RefCell::new(vec![]));
        let pattern = sc["takes"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
        let refused = Rc::new(RefCell::new(0));
        let sink = Sink { got: got.clone(), refused: refused.clone(), pattern, n: 0, total: 0 };
        let take = || got.borrow_mut().drain(..).collect::<Vec<u8>>();
        if sc["sink"] == "buffered" {
            segment(&sc, BufWriter::with_capacity(sc["buffer"].as_u64().unwrap() as usize, sink), &take, &refused, &out)
        } else {
            segment(&sc, sink, &take, &refused, &out)
        }
    }
}
