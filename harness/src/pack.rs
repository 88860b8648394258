//! Compression: series through the real compactor and decompactor, and streams of the specification through the latter.
use crate::common::*;
use monolith::compaction::*;
use monolith::time_point::TimePoint;
use serde_json::{json, Value as J};
use std::path::Path;
use std::sync::Arc;

fn eight(j: &J) -> u64 {
    j.as_array().unwrap().iter().fold(0, |a, b| a << 8 | b.as_u64().unwrap())
}
fn pts_json(p: &[TimePoint]) -> J {
    J::Array(p.iter().map(|p| json!([p.timestamp.to_be_bytes(), p.value.to_bits().to_be_bytes()])).collect())
}
fn kind(k: &str) -> CompactType {
    if k == "gorilla" {
        CompactType::Gorilla
    } else {
        CompactType::None
    }
}
fn unpack(k: &str, bytes: &[u8]) -> monolith::Result<Vec<TimePoint>> {
    Decompactor::from(kind(k), bytes.to_vec())?.decompact()
}

pub fn run(script: &Path, outp: &Path) {
    let text = std::fs::read_to_string(script).unwrap();
    let out = Arc::new(Out::new(outp));
    watchdog(out.clone(), 20);
    for l in text.lines().filter(|l| !l.trim().is_empty()) {
        beat();
        let sc: J = serde_json::from_str(l).unwrap();
        let pts: Vec<TimePoint> = sc["pts"]
            .as_array()
            .unwrap()
            .iter()
            .map(|p| TimePoint::new(eight(&p[0]), f64::from_bits(eight(&p[1]))))
            .collect();
        let k = sc["kind"].as_str().unwrap_or("gorilla");
        let mut e = json!({"id":sc["id"],"kind":k,"pts":sc["pts"]});
        let mut bytes = vec![];
        let mut res;
        if sc["bytes"].is_array() {
            e["e"] = json!("decode");
            bytes = sc["bytes"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
            res = "ok".to_string();
        } else {
            e["e"] = json!("series");
            let r = guard(|| {
                let mut c = Compactor::new(kind(k));
                if sc["how"] == "vec" {
                    bytes = c.compact_vec(pts.clone());
                } else {
                    for p in &pts {
                        c.compact(p);
                        if sc["how"] == "peek" {
                            c.get_bytes_vec();
                        }
                    }
                    bytes = c.get_bytes_vec();
                }
                Ok(())
            });
            res = r.0;
        }
        e["back"] = json!([]);
        // too long for the model checker: the samples are compared here
        if sc["long"] == true {
            let mut b = vec![];
            if res == "ok" {
                let r = guard(|| {
                    b = unpack(k, &bytes)?;
                    Ok(())
                });
                res = r.0;
            }
            let same = |x: &TimePoint, y: &TimePoint| x.timestamp == y.timestamp && x.value.to_bits() == y.value.to_bits();
            let first = pts.iter().zip(b.iter()).position(|(x, y)| !same(x, y)).unwrap_or(pts.len().min(b.len()));
            out.ev(json!({"e":"long","id":sc["id"],"kind":k,"n":pts.len(),"got":b.len(),"same":first,
                "res":if res == "err" { "error".to_string() } else { res }}));
            continue;
        }
        e["bytes"] = json!(bytes);
        if res == "ok" {
            let r = guard(|| {
                let b = unpack(k, &bytes)?;
                e["back"] = pts_json(&b);
                Ok(())
            });
            res = r.0;
        }
        e["res"] = json!(if res == "err" { "error".to_string() } else { res });
        out.ev(e);
    }
}
