//! Deterministic simulation of the library's record reader and writers: the
//! real `pica-record` crate on transports and sinks that answer from a
//! script, and on real files in a scratch directory.

#[allow(dead_code)]
#[path = "../../driver/src/bytes.rs"]
mod bytes;
#[allow(dead_code)]
#[path = "../../driver/src/rec.rs"]
mod rec;
#[allow(dead_code)]
#[path = "../../driver/src/rng.rs"]
mod rng;

mod data;
mod reader;
mod run;
mod writer;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    // a panic of the library is caught and judged
    std::panic::set_hook(Box::new(|_| {}));
    let r = match &a[..] {
        ["check", id] => run::check(id),
        ["replay", f] => run::replay(f),
        ["one", id, seed, idx] => run::one(id, seed.parse().unwrap(), idx.parse().unwrap()),
        _ => {
            eprintln!("usage: pica-libsim check ID | replay FILE | one ID SEED INDEX");
            std::process::exit(64)
        }
    };
    match r {
        Ok(c) => std::process::exit(c),
        Err(e) => {
            eprintln!("harness error: {e}");
            std::process::exit(70)
        }
    }
}
