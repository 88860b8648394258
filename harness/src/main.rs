//! Executes scripts produced by tools/ against the real code and records what it did.
mod common;
mod conc;
mod crash;
mod http;
mod pack;
mod parts;
mod seq;
mod server;
mod wal;
use std::path::Path;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("MBT_BACKTRACE").is_err() {
        std::panic::set_hook(Box::new(|_| {})); // panics of the code under test are recorded as data
    }
    let p = |i: usize| Path::new(&a[i]);
    match a[1].as_str() {
        "seq" => seq::run(p(2), p(3), p(4)),
        "conc" => conc::run(p(2), p(3), p(4)),
        "http" => http::run(p(2), p(3), p(4)),
        "pack" => pack::run(p(2), p(3)),
        "parts" => parts::run(p(2), p(3), p(4)),
        "wal" => wal::run(p(2), p(3), p(4)),
        "server" => server::run(p(2), p(3), p(4)),
        "life" => seq::life(&a[2..]),
        m => panic!("unknown mode {}", m),
    }
}
