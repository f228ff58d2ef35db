//! Deterministic simulation of pica: every run of the program is one
//! simulated execution whose input, clock, randomness, file system and
//! faults follow from a seed.

mod bytes;
mod case;
mod conf;
mod fuzz;
mod r#gen;
mod model;
mod prop;
mod rec;
mod rng;
mod runner;
mod shm;
mod shrink;
mod sim;

fn usage() -> ! {
    eprintln!(
        "usage: pica-sim check <ID> [--tier quick|thorough] [--seed N] [--cases N]\n\
         \x20      pica-sim replay <FILE>\n\
         \x20      pica-sim one <ID> <SEED> <INDEX>\n\
         \x20      pica-sim selftest"
    );
    std::process::exit(64)
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let env = |k: &str| std::env::var(k).ok();
    let r = match &a[..] {
        ["check", id, rest @ ..] => {
            let mut o = runner::Opts {
                id: id.to_string(),
                tier: env("VERIF_TIER").unwrap_or("quick".into()),
                seed: env("VERIF_SEED")
                    .and_then(|s| s.parse().ok())
                    .unwrap_or(1),
                cases: None,
            };
            for kv in rest.chunks(2) {
                match kv {
                    ["--tier", t] => o.tier = t.to_string(),
                    ["--seed", n] => o.seed = n.parse().unwrap_or(1),
                    ["--cases", n] => o.cases = n.parse().ok(),
                    _ => usage(),
                }
            }
            runner::check(&o)
        }
        ["replay", f] => runner::replay(f),
        ["one", id, seed, idx] => match (seed.parse(), idx.parse()) {
            (Ok(s), Ok(i)) => runner::one(id, s, i),
            _ => usage(),
        },
        ["selftest"] => runner::selftest(),
        _ => usage(),
    };
    match r {
        Ok(code) => std::process::exit(code),
        Err(e) => {
            eprintln!("harness error: {}", e.0);
            std::process::exit(70);
        }
    }
}
