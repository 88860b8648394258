//! Scenarios over HTTP: an own client (HTTP, protobuf and snappy are encoded and decoded here, independently of the
//! crates the server uses) talks to a server in this process. See tools/gen.py for the script format.
use crate::common::*;
use crate::seq::Run;
use monolith::option::ServerOpts;
use monolith::verif;
use serde_json::{json, Value as J};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::Path;
use std::sync::Arc;
use std::time::Duration;

// ---------------------------------------------------------------------------------------------------------------------
// protobuf
fn varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
fn field_varint(n: u64, v: u64, out: &mut Vec<u8>) {
    varint(n << 3, out);
    varint(v, out);
}
fn field_bytes(n: u64, b: &[u8], out: &mut Vec<u8>) {
    varint(n << 3 | 2, out);
    varint(b.len() as u64, out);
    out.extend_from_slice(b);
}
fn pair(p: &J) -> Vec<u8> {
    let mut o = vec![];
    field_bytes(1, p[0].as_str().unwrap().as_bytes(), &mut o);
    field_bytes(2, p[1].as_str().unwrap().as_bytes(), &mut o);
    o
}
const SIGNED: [(i64, i64); 3] = [(-2_000_000_010, -1), (-2_000_000_011, i64::MIN), (1_999_999_998, i64::MAX)];
fn real_i(ts: &Times, a: i64) -> i64 {
    SIGNED.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or_else(|| ts.real(a) as i64)
}
fn series(s: &J, ts: &Times) -> Vec<u8> {
    let mut o = vec![];
    for p in s["ls"].as_array().unwrap() {
        field_bytes(1, &pair(p), &mut o);
    }
    for p in s["pts"].as_array().unwrap() {
        let mut b = vec![1 << 3 | 1];
        b.extend_from_slice(&bits(p[1].as_str().unwrap()).to_le_bytes());
        field_varint(2, real_i(ts, p[0].as_i64().unwrap()) as u64, &mut b);
        field_bytes(2, &b, &mut o);
    }
    o
}
/// The top level fields of a request.
fn write_fields(op: &J, ts: &Times) -> Vec<Vec<u8>> {
    op["series"].as_array().unwrap().iter().map(|s| series(s, ts)).collect()
}
fn read_fields(op: &J, ts: &Times) -> Vec<Vec<u8>> {
    op["queries"]
        .as_array()
        .unwrap()
        .iter()
        .map(|q| {
            let mut o = vec![];
            field_varint(1, real_i(ts, q["s"].as_i64().unwrap()) as u64, &mut o);
            field_varint(2, real_i(ts, q["t"].as_i64().unwrap()) as u64, &mut o);
            for (k, p) in q["m"].as_array().unwrap().iter().enumerate() {
                let mut m = vec![];
                let ty = q["types"][k].as_u64().unwrap_or(0);
                if ty != 0 {
                    field_varint(1, ty, &mut m);
                }
                field_bytes(2, p[0].as_str().unwrap().as_bytes(), &mut m);
                field_bytes(3, p[1].as_str().unwrap().as_bytes(), &mut m);
                field_bytes(3, &m, &mut o);
            }
            o
        })
        .collect()
}
/// One message; `extra` adds fields a later version of the protocol may have.
fn message(fields: &[Vec<u8>], extra: bool) -> Vec<u8> {
    let mut o = vec![];
    for f in fields {
        field_bytes(1, f, &mut o);
        if extra {
            field_varint(15, 300, &mut o);
            field_bytes(16, b"later", &mut o);
        }
    }
    o
}

struct In<'a>(&'a [u8]);
impl<'a> In<'a> {
    fn varint(&mut self) -> Option<u64> {
        let mut r = 0u64;
        for k in 0..10 {
            let b = *self.0.get(k)?;
            r |= ((b & 0x7f) as u64) << (7 * k);
            if b < 0x80 {
                self.0 = &self.0[k + 1..];
                return Some(r);
            }
        }
        None
    }
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.0.len() {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    /// number, integer or fixed value, bytes
    fn field(&mut self) -> Option<Option<(u64, u64, &'a [u8])>> {
        if self.0.is_empty() {
            return Some(None);
        }
        let tag = self.varint()?;
        let f = tag >> 3;
        Some(Some(match tag & 7 {
            0 => (f, self.varint()?, &[]),
            1 => {
                let b = self.take(8)?;
                let mut a = [0u8; 8];
                a.copy_from_slice(b);
                (f, u64::from_le_bytes(a), &[])
            }
            2 => {
                let n = self.varint()?;
                (f, 0, self.take(n as usize)?)
            }
            5 => {
                self.take(4)?;
                (f, 0, &[])
            }
            _ => return None,
        }))
    }
}
fn read_response(b: &[u8], ts: &Times) -> Option<J> {
    let mut results = vec![];
    let mut i = In(b);
    while let Some((n, _, r)) = i.field()? {
        if n != 1 {
            continue;
        }
        let mut rows = vec![];
        let mut i = In(r);
        while let Some((n, _, s)) = i.field()? {
            if n != 1 {
                continue;
            }
            let (mut ls, mut pts) = (vec![], vec![]);
            let mut i = In(s);
            while let Some((n, _, x)) = i.field()? {
                let mut i = In(x);
                if n == 1 {
                    let (mut k, mut v) = (String::new(), String::new());
                    while let Some((n, _, x)) = i.field()? {
                        let s = String::from_utf8(x.to_vec()).ok()?;
                        if n == 1 {
                            k = s
                        } else if n == 2 {
                            v = s
                        }
                    }
                    ls.push(json!([k, v]));
                } else if n == 2 {
                    let (mut t, mut v) = (0i64, 0u64);
                    while let Some((n, x, _)) = i.field()? {
                        if n == 1 {
                            v = x
                        } else if n == 2 {
                            t = x as i64
                        }
                    }
                    pts.push(json!([ts.abs(t as u64), format!("{:016x}", v)]));
                }
            }
            rows.push(json!({"ls":ls,"pts":pts}));
        }
        results.push(J::Array(rows));
    }
    Some(J::Array(results))
}

// ---------------------------------------------------------------------------------------------------------------------
// snappy, without framing
fn literal(b: &[u8], out: &mut Vec<u8>) {
    if b.is_empty() {
        return;
    }
    let n = b.len() - 1;
    if n < 60 {
        out.push((n << 2) as u8);
    } else if n < 256 {
        out.extend_from_slice(&[60 << 2, n as u8]);
    } else {
        out.extend_from_slice(&[61 << 2, n as u8, (n >> 8) as u8]);
    }
    out.extend_from_slice(b);
}
fn compress(b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    varint(b.len() as u64, &mut out);
    let mut seen = std::collections::HashMap::new();
    let (mut i, mut from) = (0, 0);
    while i < b.len() {
        if i + 8 <= b.len() {
            let key = b[i..i + 8].to_vec();
            if let Some(&p) = seen.get(&key) {
                let d: usize = i - p;
                let mut n = 0;
                while n < 60 && i + n < b.len() && b[p + n] == b[i + n] {
                    n += 1;
                }
                if d < 65536 {
                    literal(&b[from..i], &mut out);
                    out.extend_from_slice(&[((n - 1) << 2) as u8 | 2, d as u8, (d >> 8) as u8]);
                    seen.insert(key, i);
                    i += n;
                    from = i;
                    continue;
                }
            }
            seen.insert(key, i);
        }
        i += 1;
        if i - from >= 60000 {
            literal(&b[from..i], &mut out);
            from = i;
        }
    }
    literal(&b[from..], &mut out);
    out
}
fn decompress(b: &[u8]) -> Option<Vec<u8>> {
    let mut i = In(b);
    let n = i.varint()? as usize;
    let mut out: Vec<u8> = vec![];
    while !i.0.is_empty() {
        let tag = i.take(1)?[0];
        let le = |b: &[u8]| b.iter().rev().fold(0usize, |a, x| a << 8 | *x as usize);
        let (len, off) = match tag & 3 {
            0 => {
                let l = (tag >> 2) as usize;
                let l = if l < 60 { l } else { le(i.take(l - 59)?) };
                out.extend_from_slice(i.take(l + 1)?);
                continue;
            }
            1 => (((tag >> 2) & 7) as usize + 4, ((tag >> 5) as usize) << 8 | i.take(1)?[0] as usize),
            2 => ((tag >> 2) as usize + 1, le(i.take(2)?)),
            _ => ((tag >> 2) as usize + 1, le(i.take(4)?)),
        };
        if off == 0 || off > out.len() {
            return None;
        }
        for _ in 0..len {
            out.push(out[out.len() - off]);
        }
    }
    if out.len() == n {
        Some(out)
    } else {
        None
    }
}

// ---------------------------------------------------------------------------------------------------------------------
// HTTP
const DROPPED: i64 = -1; // the connection was closed without an answer
const REFUSED: i64 = -2; // no connection
const SILENT: i64 = -3; // no answer in time
fn connect(port: u16) -> Option<TcpStream> {
    let s = TcpStream::connect(("127.0.0.1", port)).ok()?;
    s.set_read_timeout(Some(Duration::from_secs(15))).unwrap();
    s.set_write_timeout(Some(Duration::from_secs(15))).unwrap();
    s.set_nodelay(true).unwrap();
    Some(s)
}
fn lost(e: std::io::Error) -> i64 {
    match e.kind() {
        std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut => SILENT,
        _ => DROPPED,
    }
}
/// tiny_http may leave a connection in a queue until the next one comes (PoolModel.tla), so another one is opened before an
/// answer is taken for missing.  That needs a rare coincidence: what happens often is not excused.
fn patience(s: &mut TcpStream) {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    static EXCUSED: AtomicUsize = AtomicUsize::new(0);
    let _ = s.set_read_timeout(Some(Duration::from_secs(5)));
    if s.peek(&mut [0]).map_err(lost) == Err(SILENT) && EXCUSED.fetch_add(1, SeqCst) < 2 {
        if let Some(mut other) = s.peer_addr().ok().and_then(|a| connect(a.port())) {
            let _ = other.write_all(b"GET /nowhere HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n");
        }
        beat();
    }
    let _ = s.set_read_timeout(Some(Duration::from_secs(15)));
}
fn line(s: &mut TcpStream) -> std::result::Result<String, i64> {
    let mut l = vec![];
    let mut b = [0u8];
    loop {
        match s.read(&mut b) {
            Ok(0) => return Err(DROPPED),
            Ok(_) if b[0] == b'\n' => return Ok(String::from_utf8_lossy(&l).trim_end().to_string()),
            Ok(_) => l.push(b[0]),
            Err(e) => return Err(lost(e)),
        }
    }
}
/// Status and body of one response.
fn response(s: &mut TcpStream) -> std::result::Result<(i64, Vec<u8>), i64> {
    patience(s);
    loop {
        let l = line(s)?;
        let status = l.split(' ').nth(1).and_then(|x| x.parse().ok()).ok_or(DROPPED)?;
        let (mut len, mut chunked) = (0usize, false);
        loop {
            let h = line(s)?;
            if h.is_empty() {
                break;
            }
            let h = h.to_lowercase();
            if h.starts_with("content-length:") {
                len = h[15..].trim().parse().unwrap_or(0);
            }
            if h.starts_with("transfer-encoding:") && h.contains("chunked") {
                chunked = true;
            }
        }
        if status == 100 {
            continue;
        }
        let mut body = vec![];
        if chunked {
            loop {
                let n = usize::from_str_radix(line(s)?.split(';').next().unwrap().trim(), 16).map_err(|_| DROPPED)?;
                let mut b = vec![0; n];
                s.read_exact(&mut b).map_err(lost)?;
                body.extend_from_slice(&b);
                line(s)?;
                if n == 0 {
                    break;
                }
            }
        } else {
            body = vec![0; len];
            s.read_exact(&mut body).map_err(lost)?;
        }
        return Ok((status, body));
    }
}
fn header(method: &str, path: &str, more: &str, version: &str) -> Vec<u8> {
    format!("{} {} {}\r\nHost: localhost\r\n{}\r\n", method, path, version, more).into_bytes()
}
/// Sends a request in one of several legal ways and waits for the answer.
fn send(port: u16, method: &str, path: &str, body: &[u8], way: &str, rng: &mut Rng) -> (i64, Vec<u8>) {
    let mut s = match connect(port) {
        Some(s) => s,
        None => return (REFUSED, vec![]),
    };
    let len = format!("Content-Length: {}\r\n", body.len());
    let go = |s: &mut TcpStream, rng: &mut Rng| -> std::result::Result<(i64, Vec<u8>), i64> {
        let pieces = |s: &mut TcpStream, rng: &mut Rng, b: &[u8]| -> std::io::Result<()> {
            let mut i = 0;
            while i < b.len() {
                let n = (1 + rng.below(b.len())).min(b.len() - i);
                s.write_all(&b[i..i + n])?;
                s.flush()?;
                std::thread::sleep(Duration::from_millis(2));
                i += n;
            }
            Ok(())
        };
        match way {
            "split" => {
                let mut h = header(method, path, &len, "HTTP/1.1");
                h.extend_from_slice(body);
                pieces(s, rng, &h).map_err(lost)?;
            }
            "chunked" => {
                s.write_all(&header(method, path, "Transfer-Encoding: chunked\r\n", "HTTP/1.1")).map_err(lost)?;
                let mut i = 0;
                while i < body.len() {
                    let n = (1 + rng.below(body.len())).min(body.len() - i);
                    s.write_all(format!("{:x}\r\n", n).as_bytes()).map_err(lost)?;
                    s.write_all(&body[i..i + n]).map_err(lost)?;
                    s.write_all(b"\r\n").map_err(lost)?;
                    i += n;
                }
                s.write_all(b"0\r\n\r\n").map_err(lost)?;
            }
            "expect" => {
                s.write_all(&header(method, path, &format!("{}Expect: 100-continue\r\n", len), "HTTP/1.1")).map_err(lost)?;
                std::thread::sleep(Duration::from_millis(2));
                s.write_all(body).map_err(lost)?;
            }
            "close" => {
                let mut h = header(method, path, &format!("{}Connection: close\r\n", len), "HTTP/1.1");
                h.extend_from_slice(body);
                s.write_all(&h).map_err(lost)?;
            }
            "old" => {
                let mut h = header(method, path, &len, "HTTP/1.0");
                h.extend_from_slice(body);
                s.write_all(&h).map_err(lost)?;
            }
            "pipe" => {
                // a request for another path before and after, on the same connection
                let mut h = header("GET", "/nowhere", "", "HTTP/1.1");
                h.extend_from_slice(&header(method, path, &len, "HTTP/1.1"));
                h.extend_from_slice(body);
                h.extend_from_slice(&header("GET", "/nowhere", "", "HTTP/1.1"));
                s.write_all(&h).map_err(lost)?;
                response(s)?;
                let r = response(s)?;
                response(s)?;
                return Ok(r);
            }
            _ => {
                let mut h = header(method, path, &len, "HTTP/1.1");
                h.extend_from_slice(body);
                s.write_all(&h).map_err(lost)?;
            }
        }
        response(s)
    };
    match go(&mut s, rng) {
        Ok(r) => r,
        Err(e) => (e, vec![]),
    }
}

// ---------------------------------------------------------------------------------------------------------------------
#[derive(Clone)]
pub struct Client {
    pub port: u16,
    pub times: Times,
    pub read: String,
    pub write: String,
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
impl Client {
    fn path(&self, to: &str) -> String {
        match to {
            "read" => self.read.clone(),
            "write" => self.write.clone(),
            p => p.to_string(),
        }
    }
    /// A body that cannot be decoded, made from a request that can.
    fn broken(&self, op: &J, rng: &mut Rng) -> Vec<u8> {
        let fields = if op["series"].is_array() { write_fields(op, &self.times) } else { read_fields(op, &self.times) };
        let mut plain = message(&fields, false);
        match op["how"].as_str().unwrap() {
            "cut" => {
                // somewhere within the last field
                let last = message(&fields[fields.len() - 1..], false).len();
                plain.truncate(plain.len() - 1 - rng.below(last - 1));
            }
            // within the first field
            "stub" => plain.truncate(1 + rng.below(message(&fields[..1], false).len().min(6) - 1)),
            "first" => {
                let wrong: [&[u8]; 3] = [&[1 << 3 | 7, 1, 1], &[1 << 3 | 2, 0xff, 0xff, 0xff, 0xff, 0x0f], &[0x80; 14]];
                plain = [wrong[rng.below(3)], &plain].concat();
            }
            "wiretype" => plain.extend_from_slice(&[1 << 3 | 7, 1, 1]),
            "length" => plain.extend_from_slice(&[1 << 3 | 2, 0xff, 0xff, 0xff, 0xff, 0x0f]),
            "endless" => plain.extend_from_slice(&[0x80; 14]),
            "utf8" => {
                let mut f = vec![];
                if op["series"].is_array() {
                    field_bytes(1, &[0x0a, 2, 0xff, 0xfe, 0x12, 1, 0x78], &mut f);
                } else {
                    field_bytes(3, &[0x12, 2, 0xc3, 0x28, 0x1a, 1, 0x78], &mut f);
                }
                field_bytes(1, &f, &mut plain);
            }
            _ => {}
        }
        let mut b = compress(&plain);
        match op["how"].as_str().unwrap() {
            "short" => {
                let n = 1 + rng.below(b.len() - 1);
                b.truncate(b.len() - n);
            }
            "plain" => b = plain,
            "random" => {
                b = (0..1 + rng.below(200)).map(|_| rng.below(256) as u8).collect();
            }
            "flip" => {
                let i = rng.below(b.len());
                b[i] ^= 1 << rng.below(8);
            }
            "huge" => b = vec![0xff, 0xff, 0xff, 0xff, 0x0f, 0, 1],
            "badcopy" => b = vec![0x0a, 0x3e, 0xff, 0xff],
            "long" => b.extend_from_slice(&[0, 0]),
            "framed" => {
                let mut h = b"\xff\x06\x00\x00sNaPpY".to_vec();
                h.extend_from_slice(&b);
                b = h;
            }
            _ => {}
        }
        b
    }
    pub fn run(&self, op: &J) -> J {
        let mut rng = Rng::new(op["seed"].as_u64().unwrap_or(1));
        let method = op["method"].as_str().unwrap_or("POST");
        let way = op["way"].as_str().unwrap_or("plain");
        let extra = op["extra"].as_bool().unwrap_or(false);
        match op["op"].as_str().unwrap() {
            "rw" => {
                let b = compress(&message(&write_fields(op, &self.times), extra));
                let (status, _) = send(self.port, method, &self.write, &b, way, &mut rng);
                json!({"e":"rw","series":op["series"],"status":status,"usual":method == "POST","f":0})
            }
            "rr" => {
                let b = compress(&message(&read_fields(op, &self.times), extra));
                let (status, body) = send(self.port, method, &self.read, &b, way, &mut rng);
                let results = if status == 200 { decompress(&body).and_then(|b| read_response(&b, &self.times)) } else { None };
                json!({"e":"rr","queries":op["queries"],"status":status,"decoded":results.is_some(),"usual":method == "POST",
                    "results":results.unwrap_or(json!([])),"f":0})
            }
            "bad" => {
                let mut b = self.broken(op, &mut rng);
                let mut tries = 0;
                // bytes that happen to be readable are not what is wanted here
                let loose = |h: &str| h == "random" || h == "flip" || h == "plain";
                while loose(op["how"].as_str().unwrap()) && decompress(&b).is_some() && tries < 50 {
                    b = self.broken(op, &mut rng);
                    tries += 1;
                }
                let sure = tries < 50;
                if !sure {
                    return json!({"e":"end"});
                }
                let (status, _) = send(self.port, method, &self.path(op["to"].as_str().unwrap()), &b, way, &mut rng);
                json!({"e":"bad","to":op["to"],"how":op["how"],"status":status})
            }
            // anything at all; `bytes` is sent as it is
            "raw" => {
                let b = if op["bytes"].is_string() {
                    unhex(op["bytes"].as_str().unwrap())
                } else {
                    let body = op["body"].as_str().map(unhex).unwrap_or_else(|| {
                        let f = if op["series"].is_array() { write_fields(op, &self.times) } else { vec![vec![1, 2]] };
                        compress(&message(&f, false))
                    });
                    let mut h = header(method, &self.path(op["to"].as_str().unwrap_or("write")), op["headers"].as_str().unwrap_or(""), op["version"].as_str().unwrap_or("HTTP/1.1"));
                    let n = op["sent"].as_u64().unwrap_or(u64::MAX).min(body.len() as u64) as usize;
                    let n = n.saturating_sub(op["drop"].as_u64().unwrap_or(0) as usize);
                    h.extend_from_slice(&body[..n]);
                    h
                };
                let status = match connect(self.port) {
                    None => REFUSED,
                    Some(mut s) => {
                        let _ = s.write_all(&b);
                        if op["answer"].as_bool() == Some(true) {
                            let _ = s.shutdown(std::net::Shutdown::Write);
                            response(&mut s).map(|r| r.0).unwrap_or_else(|e| e)
                        } else {
                            if op["shut"].as_bool() == Some(true) {
                                let _ = s.shutdown(std::net::Shutdown::Both);
                            }
                            0
                        }
                    }
                };
                json!({"e":"raw","status":status})
            }
            o => panic!("unknown op {}", o),
        }
    }
}

pub fn free_port() -> u16 {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    static N: AtomicUsize = AtomicUsize::new(0);
    loop {
        let n = N.fetch_add(1, SeqCst);
        let port = (10000 + (std::process::id() as usize % 200) * 100 + n % 100) as u16;
        if TcpListener::bind(("127.0.0.1", port)).is_ok() {
            return port;
        }
    }
}

pub fn run(script: &Path, outp: &Path, scratch: &Path) {
    let text = std::fs::read_to_string(script).unwrap();
    let out = Arc::new(Out::new(outp));
    watchdog(out.clone(), 90);
    for l in text.lines().filter(|l| !l.trim().is_empty()) {
        beat();
        let sc: J = serde_json::from_str(l).unwrap();
        let dir = scratch_dir(scratch, sc["id"].as_str().unwrap());
        out.ev(json!({"e":"scenario","id":sc["id"],"store":sc["store"],"index":sc["index"],"size":sc["size"]}));
        let faults = crate::seq::Faults::new();
        faults.install(true);
        let mut run = Run::new(&sc, &sc, &dir, out.clone(), faults.clone());
        run.op(&json!({"op":"open"}));
        let db = match run.db() {
            Some(db) => db,
            None => continue,
        };
        let opts = ServerOpts::default();
        let port = free_port();
        let client = Client { port, times: run.times(), read: opts.read_path.into(), write: opts.write_path.into() };
        let workers = sc["workers"].as_u64().unwrap_or(4) as usize;
        let alive = std::thread::spawn(move || db.serve(port as i32, workers));
        wait_until(5000, || TcpStream::connect(("127.0.0.1", port)).is_ok());
        let mut held = vec![];
        let silent = std::cell::Cell::new(false);
        let fired = std::cell::Cell::new(0);
        let ev = |mut e: J| {
            if e["status"] == SILENT {
                silent.set(true);
            }
            if e["f"].is_number() {
                e["f"] = json!(faults.count() - fired.get());
            }
            out.ev(e);
        };
        for op in sc["ops"].as_array().unwrap() {
            beat();
            // one is enough, waiting for it took long
            if silent.get() {
                break;
            }
            fired.set(faults.count());
            match op["op"].as_str().unwrap() {
                "tick" => {
                    let mut rs = vec![run];
                    Run::tick(&mut rs, op["d"].as_u64().unwrap());
                    run = rs.pop().unwrap();
                }
                "write" | "query" | "faults" => {
                    run.op(op);
                }
                // requests of several clients at the same time
                "par" => {
                    let hs: Vec<_> = op["ops"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .cloned()
                        .map(|o| {
                            let c = client.clone();
                            // a client may send several requests, one after the other
                            std::thread::spawn(move || match o.as_array() {
                                Some(os) => os.iter().map(|o| c.run(o)).collect::<Vec<J>>(),
                                None => vec![c.run(&o)],
                            })
                        })
                        .collect();
                    let es: Vec<J> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
                    es.into_iter().for_each(&ev);
                }
                // a connection that stays as it is until the scenario ends
                "hold" => {
                    if let Some(mut s) = connect(port) {
                        let _ = s.write_all(&unhex(op["bytes"].as_str().unwrap()));
                        held.push(s);
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
                _ => {
                    ev(client.run(op));
                }
            }
        }
        out.ev(json!({"e":"end","ended":alive.is_finished()}));
        drop(held);
        drop(run);
        verif::stop_sleepers();
        wait_until(1000, || verif::sleepers().0 == 0);
        let _ = std::fs::remove_dir_all(&dir);
    }
}
