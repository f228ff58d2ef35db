//! Cases, search, minimiser, evidence.

use std::collections::{BTreeMap, HashSet};
use std::io::ErrorKind;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::{Value, json};

use crate::rng::{Rng, hash_bytes, hash_str, mix};
use crate::{reader, writer};

type R<T> = Result<T, Box<dyn std::error::Error + Send + Sync>>;

/// what happened in a run
#[derive(Default, Clone)]
pub struct Seen {
    pub hist: u64,
    pub faults: BTreeMap<String, u64>,
    pub calls: u64,
}

impl Seen {
    pub fn mark(&mut self, what: u64, at: u64) {
        self.hist = mix(self.hist ^ mix(what) ^ at.rotate_left(17));
        self.calls += 1;
    }
    pub fn note(&mut self, fault: &str, at: u64) {
        *self.faults.entry(fault.into()).or_default() += 1;
        self.mark(hash_str(fault), at);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.hist = mix(self.hist ^ hash_bytes(b));
    }
}

const KINDS: &[(&str, ErrorKind)] = &[
    ("would-block", ErrorKind::WouldBlock),
    ("timed-out", ErrorKind::TimedOut),
    ("connection-reset", ErrorKind::ConnectionReset),
    ("broken-pipe", ErrorKind::BrokenPipe),
    ("storage-full", ErrorKind::StorageFull),
    ("unexpected-eof", ErrorKind::UnexpectedEof),
    ("permission-denied", ErrorKind::PermissionDenied),
    ("other", ErrorKind::Other),
];

pub fn kinds() -> &'static [&'static str] {
    &[
        "would-block",
        "timed-out",
        "connection-reset",
        "broken-pipe",
        "storage-full",
        "unexpected-eof",
        "permission-denied",
        "other",
    ]
}

pub fn kind(s: &str) -> ErrorKind {
    if s == "interrupted" {
        return ErrorKind::Interrupted;
    }
    KINDS.iter().find(|k| k.0 == s).map_or(ErrorKind::Other, |k| k.1)
}

#[derive(Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Case {
    Read(reader::Case),
    Write(writer::Case),
}

fn draw(id: &str, seed: u64, i: usize) -> Case {
    let mut g = Rng::new(mix(seed ^ hash_str(id)) ^ mix(i as u64 + 1));
    match id {
        "C24" => Case::Read(reader::draw(&mut g)),
        _ => Case::Write(writer::draw(&mut g)),
    }
}

fn judge(c: &Case, dir: &Path, seen: &mut Seen) -> Result<bool, String> {
    std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match c {
        Case::Read(c) => reader::judge(c, dir, seen),
        Case::Write(c) => writer::judge(c, dir, seen),
    }));
    match r {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or("?".into());
            Err(format!("panic: {m}"))
        }
    }
}

fn home() -> PathBuf {
    std::env::var("VERIF_DIR").unwrap_or("/verif".into()).into()
}

struct Scratch(PathBuf);

impl Scratch {
    fn new() -> R<Scratch> {
        let base = ["/dev/shm", "/tmp"].iter().map(Path::new).find(|p| p.is_dir());
        let d = base.ok_or("no scratch")?.join(format!("pica-libsim-{}", std::process::id()));
        std::fs::create_dir_all(&d)?;
        Ok(Scratch(d))
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn class(m: &str) -> String {
    m.split_whitespace()
        .filter(|w| w.chars().all(|c| c.is_ascii_alphabetic() || "[:,()".contains(c)))
        .take(7)
        .collect::<Vec<_>>()
        .join(" ")
}

/// hands over all variants of a JSON value with one place made smaller, until
/// one is accepted
fn smaller(v: &Value, f: &mut dyn FnMut(Value) -> bool) -> bool {
    match v {
        Value::Array(a) => {
            let mut k = a.len().div_ceil(2);
            while k > 0 {
                for s in (0..a.len()).step_by(k) {
                    let mut b = a.clone();
                    b.drain(s..(s + k).min(b.len()));
                    if f(Value::Array(b)) {
                        return true;
                    }
                }
                k /= 2;
            }
            a.iter().enumerate().any(|(i, x)| {
                smaller(x, &mut |y| {
                    let mut b = a.clone();
                    b[i] = y;
                    f(Value::Array(b))
                })
            })
        }
        Value::Object(o) => o.iter().any(|(k, x)| {
            smaller(x, &mut |y| {
                let mut p = o.clone();
                p[k] = y;
                f(Value::Object(p))
            })
        }),
        Value::Number(n) => n.as_u64().is_some_and(|n| {
            [0, 1, n / 2, n.saturating_sub(1)].into_iter().any(|m| m < n && f(json!(m)))
        }),
        Value::String(s) => {
            let c: Vec<char> = s.chars().collect();
            let mut k = c.len() / 2;
            while k > 0 {
                for at in (0..c.len()).step_by(k) {
                    let mut d = c.clone();
                    d.drain(at..(at + k).min(d.len()));
                    if f(json!(d.into_iter().collect::<String>())) {
                        return true;
                    }
                }
                k /= 2;
            }
            false
        }
        _ => false,
    }
}

fn shrink(c: &Case, msg: &str, dir: &Path) -> (Case, String) {
    let cls = class(msg);
    let mut best = c.clone();
    let mut text = msg.to_string();
    let until = Instant::now() + Duration::from_secs(20);
    loop {
        let v = serde_json::to_value(&best).unwrap();
        let base = best.clone();
        let more = smaller(&v, &mut |w| {
            if Instant::now() > until {
                return true;
            }
            let Ok(k) = serde_json::from_value::<Case>(w) else { return false };
            if k == base {
                return false;
            }
            match judge(&k, dir, &mut Seen::default()) {
                Err(m) if class(&m) == cls => {
                    best = k;
                    text = m;
                    true
                }
                _ => false,
            }
        });
        if !more || Instant::now() > until {
            break;
        }
    }
    (best, text)
}

#[derive(Default)]
struct Tally {
    n: u64,
    hot: HashSet<u64>,
    hists: HashSet<u64>,
    faults: BTreeMap<String, u64>,
    calls: u64,
    rechecked: u64,
    differed: u64,
    samples: Vec<(usize, Value)>,
}

pub fn check(id: &str) -> R<i32> {
    let env = |k: &str| std::env::var(k).ok();
    let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = env("VERIF_TIER").as_deref() == Some("thorough");
    let n = if thorough { 4_000_000 } else { 40_000 };
    let wall = Duration::from_secs(if thorough { 600 } else { 40 });
    let scratch = Scratch::new()?;
    let start = Instant::now();
    let next = AtomicUsize::new(0);
    let bound = AtomicUsize::new(n);
    let found: Mutex<Option<(usize, Case, String)>> = Mutex::new(None);
    let total = Mutex::new(Tally::default());
    std::thread::scope(|s| {
        for k in 0..8 {
            let (next, bound, found, total) = (&next, &bound, &found, &total);
            let dir = scratch.0.join(k.to_string());
            s.spawn(move || {
                let mut t = Tally::default();
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= bound.load(SeqCst) || start.elapsed() > wall {
                        break;
                    }
                    let c = draw(id, seed, i);
                    let mut seen = Seen::default();
                    let r = judge(&c, &dir, &mut seen);
                    t.n += 1;
                    t.calls += seen.calls;
                    t.hists.insert(seen.hist);
                    for (f, x) in &seen.faults {
                        *t.faults.entry(f.clone()).or_default() += x;
                    }
                    if i % 40 == 7 {
                        let mut again = Seen::default();
                        let _ = judge(&draw(id, seed, i), &dir, &mut again);
                        t.rechecked += 1;
                        t.differed += (again.hist != seen.hist) as u64;
                    }
                    match r {
                        Ok(hot) => {
                            if hot {
                                t.hot.insert(seen.hist);
                                let v = serde_json::to_value(&c).unwrap();
                                if t.samples.len() < 2 && v.to_string().len() < 1500 {
                                    t.samples.push((i, v));
                                }
                            }
                        }
                        Err(m) => {
                            let mut f = found.lock().unwrap();
                            if f.as_ref().is_none_or(|x| x.0 > i) {
                                *f = Some((i, c, m));
                            }
                            bound.fetch_min(i, SeqCst);
                        }
                    }
                }
                let mut a = total.lock().unwrap();
                a.n += t.n;
                a.calls += t.calls;
                a.rechecked += t.rechecked;
                a.differed += t.differed;
                a.hot.extend(t.hot);
                a.hists.extend(t.hists);
                a.samples.extend(t.samples);
                for (f, x) in t.faults {
                    *a.faults.entry(f).or_default() += x;
                }
            });
        }
    });
    let search = start.elapsed();
    let t = total.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    let mut samples = t.samples.clone();
    samples.sort_by_key(|x| x.0);
    let hours = search.as_secs_f64().max(0.001) / 3600.0;
    let ev = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.n,
            "distinct_nontrivial": t.hot.len(),
            "rule": if id == "C24" {
                "A case is drawn from (seed, property, index): lines (valid, malformed, not UTF-8), \
                 the script of the transport (piece sizes, interruptions, transient and permanent \
                 errors) or a file (plain, gzip with members, truncated, corrupted, missing), the \
                 source name and the mixture of calls. Non-trivial: an error was injected, or more \
                 than one line arrived in more than one piece. Distinct: by the hash over the data \
                 and the sequence of answers of the transport."
            } else {
                "A case is drawn from (seed, property, index): records, their order, and the script \
                 of the sink (short writes, interruptions, errors of write and flush, refusals) or \
                 sessions on files (append, gzip, stale contents, a full device). Non-trivial: \
                 something is written and the sink does not simply take all. Distinct: by the hash \
                 over the data and the sequence of answers of the sink."
            },
            "samples": samples.into_iter().take(3).map(|(i, v)| json!({"index": i, "case": v})).collect::<Vec<_>>(),
            "cases_planned": n,
            "simulated_runs": t.n,
            "simulated_runs_per_hour": (t.n as f64 / hours) as u64,
            "seeds_per_hour": (t.n as f64 / hours) as u64,
            "simulated_calls": t.calls,
            "simulated_time_s": 0,
            "simulated_time_note": "the library does not use any clock",
            "faults_injected": t.faults,
            "distinct_histories": t.hists.len(),
            "distinct_histories_measure":
                "hash over the data and the sequence of (answer, position) of transport or sink",
            "repeated_for_determinism": t.rechecked,
            "repetitions_that_differed": t.differed,
            "real_components": "the library crate pica-record as built from /repo, with flate2",
            "stub_components": "the Read behind the reader and the Write behind the writers \
                                follow a script; the file cases use real files in a scratch directory",
        },
        "assumptions": [
            "the reference reading of records (driver/src/rec.rs) is correct",
            "faults and schedules beyond those drawn from the seed are not covered"
        ],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": found.is_some() as u32,
    });
    let dir = home().join("evidence");
    std::fs::create_dir_all(&dir)?;
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev)? + "\n")?;
    println!(
        "{id}: {} cases, {} distinct non-trivial, {:.1} s, repeatable: {}",
        t.n,
        t.hot.len(),
        search.as_secs_f64(),
        t.differed == 0
    );
    if let Some((i, c, m)) = found {
        let d = scratch.0.join("s");
        if judge(&c, &d, &mut Seen::default()).is_ok() {
            return Err(format!("case {i} was not reproduced: {m}").into());
        }
        let (small, text) = shrink(&c, &m, &d);
        let mut seen = Seen::default();
        let _ = judge(&small, &d, &mut seen);
        let dir = home().join("replays");
        std::fs::create_dir_all(&dir)?;
        let file = dir.join(format!("{id}-{seed}-{i}.json"));
        let v = json!({
            "harness": "libsim",
            "property": id,
            "seed": seed,
            "index": i,
            "violation": text,
            "before_minimisation": m,
            "signature": format!("{:016x}", seen.hist),
            "case": small,
        });
        std::fs::write(&file, serde_json::to_string_pretty(&v)? + "\n")?;
        println!("{text}");
        println!("VIOLATION property={id} replay={}", file.display());
        return Ok(1);
    }
    Ok(0)
}

pub fn replay(file: &str) -> R<i32> {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file)?)?;
    let id = v["property"].as_str().unwrap_or("");
    let c: Case = serde_json::from_value(v["case"].clone())?;
    let scratch = Scratch::new()?;
    let mut seen = Seen::default();
    let r = judge(&c, &scratch.0, &mut seen);
    let same = v["signature"].as_str() == Some(&format!("{:016x}", seen.hist));
    println!("execution {}", if same { "identical" } else { "differs" });
    Ok(match r {
        Ok(_) => {
            println!("held");
            0
        }
        Err(m) => {
            println!("{m}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
    })
}

pub fn one(id: &str, seed: u64, i: usize) -> R<i32> {
    let c = draw(id, seed, i);
    let scratch = Scratch::new()?;
    println!("{}", serde_json::to_string_pretty(&c)?);
    println!("{:?}", judge(&c, &scratch.0, &mut Seen::default()));
    Ok(0)
}
