//! Runs the cases of a property, reports, replays.

use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

use serde_json::{Value, json};

use crate::case::*;
use crate::prop::*;
use crate::rng::{Rng, hash_str, mix};
use crate::shrink;
use crate::sim::*;

pub struct Opts {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub cases: Option<usize>,
}

fn home() -> PathBuf {
    std::env::var("VERIF_DIR").unwrap_or("/verif".into()).into()
}

fn pica() -> PathBuf {
    std::env::var("PSIM_PICA")
        .map(PathBuf::from)
        .unwrap_or_else(|_| home().join(".build/target/debug/pica"))
}

fn lib() -> PathBuf {
    home().join(".build/libsimio.so")
}

fn worker(a: &Arena, id: usize) -> HResult<Worker> {
    Worker::new(a, id, &pica(), &lib())
}

fn find_prop(id: &str) -> HResult<Prop> {
    match all().into_iter().find(|p| p.id == id) {
        Some(p) => Ok(p),
        None => herr(format!("no check for {id}")),
    }
}

fn rng_of(id: &str, seed: u64, idx: usize) -> Rng {
    Rng::new(mix(seed ^ hash_str(id)) ^ mix(idx as u64 + 1))
}

/// panics of the harness are harness errors
fn guard<T>(f: impl FnOnce() -> HResult<T>) -> HResult<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or("?".into());
            herr(format!("panic in the harness: {m}"))
        }
    }
}

/// the keys of the known findings of a property, with their description
fn known(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(home().join("known-findings.txt"))
        .unwrap_or_default();
    let head = format!("known: property={id} key=");
    text.lines()
        .filter_map(|l| l.strip_prefix(&head))
        .map(|l| {
            let (k, d) = l.split_once(' ').unwrap_or((l, ""));
            (k.to_string(), d.to_string())
        })
        .collect()
}

fn judge(p: &Prop, w: &mut Worker, c: &Case, known: &[(String, String)]) -> HResult<Verdict> {
    w.sig = 0;
    Ok(match guard(|| (p.judge)(w, c))? {
        Verdict::Known(k) if !known.iter().any(|x| x.0 == k) => {
            Verdict::Bad(format!("not a listed finding: {k}"))
        }
        v => v,
    })
}

#[derive(Default)]
struct Tally {
    cases: u64,
    hot: HashSet<u64>,
    known: BTreeMap<String, u64>,
    rechecked: u64,
    mismatch: u64,
    flaky: Vec<String>,
    samples: Vec<(usize, Value)>,
    per_cmd: BTreeMap<String, u64>,
    errors: Vec<String>,
    runs: u64,
    steps: u64,
    max_steps: u64,
    virt_ns: i128,
    faults: BTreeMap<String, u64>,
    hists: HashSet<u64>,
    shapes: HashSet<u64>,
    turns: u64,
    orders: HashSet<u64>,
}

impl Tally {
    fn take(&mut self, w: &mut Worker) {
        self.runs += w.runs;
        self.steps += w.steps;
        self.max_steps = self.max_steps.max(w.max_steps);
        self.virt_ns += w.virt_ns;
        for (k, v) in &w.fault_counts {
            *self.faults.entry(k.clone()).or_default() += v;
        }
        self.hists.extend(w.hists.drain());
        self.shapes.extend(w.shapes.drain());
        self.orders.extend(w.orders.drain());
        self.turns += std::mem::take(&mut w.turns);
        w.runs = 0;
        w.steps = 0;
        w.virt_ns = 0;
        w.fault_counts.clear();
    }
}

pub fn check(o: &Opts) -> HResult<i32> {
    let p = find_prop(&o.id)?;
    let start = Instant::now();
    let thorough = o.tier == "thorough";
    let n = o.cases.unwrap_or(if thorough { p.quick * 40 } else { p.quick });
    let wall = Duration::from_secs(if thorough { 780 } else { 75 });
    let listed = known(&o.id);
    let arena = Arena::new()?;
    let next = AtomicUsize::new(0);
    let bound = AtomicUsize::new(n);
    let cut = AtomicBool::new(false);
    let found: Mutex<Option<(usize, Case, String)>> = Mutex::new(None);
    let total = Mutex::new(Tally::default());
    let threads = 8;
    let spawn = |k: usize| -> HResult<()> {
        let mut w = worker(&arena, k)?;
        let mut t = Tally::default();
        let mut failures = 0;
        loop {
            let i = next.fetch_add(1, SeqCst);
            if i >= bound.load(SeqCst) {
                break;
            }
            if start.elapsed() > wall {
                cut.store(true, SeqCst);
                break;
            }
            let drawn = guard(|| (p.draw)(&mut rng_of(&o.id, o.seed, i), &mut w));
            let out = drawn.and_then(|c| {
                let v = judge(&p, &mut w, &c, &listed)?;
                Ok((c, v))
            });
            let (c, v) = match out {
                Ok(x) => x,
                Err(e) => {
                    t.errors.push(format!("case {i}: {}", e.0));
                    failures += 1;
                    if failures > 20 {
                        break;
                    }
                    w = worker(&arena, k)?;
                    continue;
                }
            };
            let sig = w.sig;
            t.cases += 1;
            *t.per_cmd.entry(c.cmd.name.clone()).or_default() += 1;
            if i % 40 == 7 {
                // one seed is one execution
                judge(&p, &mut w, &c, &listed)?;
                t.rechecked += 1;
                t.mismatch += (w.sig != sig) as u64;
            }
            match v {
                Verdict::Held(hot) => {
                    if hot {
                        t.hot.insert(sig);
                        if t.samples.len() < 2 && i > 20 * k {
                            t.samples.push((i, sample(&c)));
                        }
                    }
                }
                Verdict::Known(k) => *t.known.entry(k).or_default() += 1,
                Verdict::Bad(m) => {
                    // once more, on a fresh machine
                    w = worker(&arena, k)?;
                    match judge(&p, &mut w, &c, &listed)? {
                        Verdict::Bad(m2) => {
                            let mut f = found.lock().unwrap();
                            if f.as_ref().is_none_or(|x| x.0 > i) {
                                *f = Some((i, c, m2));
                            }
                            bound.fetch_min(i, SeqCst);
                        }
                        _ => t.flaky.push(format!("case {i}: {m}")),
                    }
                }
            }
        }
        let mut all = total.lock().unwrap();
        all.take(&mut w);
        all.cases += t.cases;
        all.hot.extend(t.hot);
        all.rechecked += t.rechecked;
        all.mismatch += t.mismatch;
        all.flaky.extend(t.flaky);
        all.samples.extend(t.samples);
        all.errors.extend(t.errors);
        for (k, v) in t.known {
            *all.known.entry(k).or_default() += v;
        }
        for (k, v) in t.per_cmd {
            *all.per_cmd.entry(k).or_default() += v;
        }
        Ok(())
    };
    std::thread::scope(|s| -> HResult<()> {
        let hs: Vec<_> = (0..threads).map(|k| s.spawn(move || spawn(k))).collect::<Vec<_>>();
        for h in hs {
            match h.join() {
                Ok(r) => r?,
                Err(_) => return herr("a worker thread panicked"),
            }
        }
        Ok(())
    })?;
    let search = start.elapsed();
    let found = found.into_inner().unwrap();
    let total = total.into_inner().unwrap();
    let violation = match &found {
        None => None,
        Some((i, c, m)) => {
            let mut w = worker(&arena, 90)?;
            let mut t = |c: &Case| match judge(&p, &mut w, c, &listed) {
                Ok(Verdict::Bad(m)) => Some(m),
                Ok(_) => None,
                Err(_) => None,
            };
            let (small, msg) = shrink::shrink(c, m, &mut t);
            let file = save(o, *i, &small, &msg, m, &p, &listed, &arena)?;
            Some((file, small, msg))
        }
    };
    evidence(o, &p, &total, n, cut.load(SeqCst), search, start.elapsed(), violation.is_some())?;
    println!(
        "{}: {} cases, {} simulated runs, {} distinct non-trivial, {} histories, {} shapes, {:.1} s{}",
        o.id,
        total.cases,
        total.runs,
        total.hot.len(),
        total.hists.len(),
        total.shapes.len(),
        start.elapsed().as_secs_f64(),
        if total.mismatch > 0 {
            format!(", {} NOT REPEATABLE", total.mismatch)
        } else {
            String::new()
        }
    );
    for f in total.flaky.iter().take(5) {
        println!("not reproduced: {f}");
    }
    for e in total.errors.iter().take(5) {
        println!("harness: {e}");
    }
    for (k, d) in &listed {
        if total.known.contains_key(k) {
            println!("KNOWN-FINDING: property={} {k} {d}", o.id);
        }
    }
    if let Some((file, c, msg)) = violation {
        println!("{}", c.line());
        println!("{msg}");
        println!("VIOLATION property={} replay={}", o.id, file.display());
        return Ok(1);
    }
    if !total.errors.is_empty() {
        return herr(total.errors[0].clone());
    }
    if total.cases < (n as u64) / 20 {
        return herr(format!("only {} of {n} cases could be run", total.cases));
    }
    Ok(0)
}

fn sample(c: &Case) -> Value {
    let mut v = json!({ "command": c.line() });
    let faults: Vec<String> = std::iter::once(&c.world)
        .chain(&c.worlds)
        .flat_map(|w| w.faults.iter().map(|f| f.describe()))
        .collect();
    v["faults"] = json!(faults);
    v["inputs"] = json!(
        c.inputs
            .iter()
            .map(|i| format!("{}: {}", i.name, crate::bytes::show_n(&i.data.0, 160)))
            .collect::<Vec<_>>()
    );
    if !c.steps.is_empty() {
        v["history"] = json!(
            c.steps
                .iter()
                .map(|s| if s.words.is_empty() {
                    Case { cmd: s.clone(), ..c.clone() }.line()
                } else {
                    s.words.join(" ")
                })
                .collect::<Vec<_>>()
        );
    }
    v["world"] = json!({
        "read": format!("{:?}", c.world.rd), "write": format!("{:?}", c.world.wr),
        "clock": c.world.clock, "disk_budget": c.world.disk_budget,
        "stdout_budget": c.world.stdout_budget.map(|b| b.0),
    });
    v
}

#[allow(clippy::too_many_arguments)]
fn save(
    o: &Opts,
    idx: usize,
    c: &Case,
    msg: &str,
    orig: &str,
    p: &Prop,
    listed: &[(String, String)],
    arena: &Arena,
) -> HResult<PathBuf> {
    let mut w = worker(arena, 91)?;
    w.tracing = true;
    let _ = judge(p, &mut w, c, listed)?;
    let dir = home().join("replays");
    std::fs::create_dir_all(&dir)?;
    let file = dir.join(format!("{}-{}-{}.json", o.id, o.seed, idx));
    let v = json!({
        "property": o.id,
        "seed": o.seed,
        "index": idx,
        "violation": msg,
        "before_minimisation": orig,
        "command": c.line(),
        "schedule": w.trace,
        "signature": format!("{:016x}", w.sig),
        "case": c.json(),
    });
    std::fs::write(&file, serde_json::to_string_pretty(&v)? + "\n")?;
    Ok(file)
}

pub fn replay(file: &str) -> HResult<i32> {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file)?)?;
    let id = v["property"].as_str().unwrap_or("").to_string();
    let p = find_prop(&id)?;
    let c = Case::from_json(v["case"].clone()).map_err(HarnessError)?;
    let arena = Arena::new()?;
    let mut w = worker(&arena, 0)?;
    w.tracing = true;
    let listed = known(&id);
    let r = judge(&p, &mut w, &c, &listed)?;
    println!("{}", c.line());
    for t in &w.trace {
        println!("{t}");
    }
    let same = v["signature"].as_str() == Some(&format!("{:016x}", w.sig));
    println!("execution {}", if same { "identical" } else { "differs" });
    match r {
        Verdict::Bad(m) => {
            println!("{m}");
            println!("VIOLATION property={id} replay={file}");
            Ok(1)
        }
        Verdict::Known(k) => {
            println!("KNOWN-FINDING: property={id} {k}");
            Ok(0)
        }
        Verdict::Held(_) => {
            println!("held");
            Ok(0)
        }
    }
}

/// one case in full, for people
pub fn one(id: &str, seed: u64, idx: usize) -> HResult<i32> {
    let p = find_prop(id)?;
    let arena = Arena::new()?;
    let mut w = worker(&arena, 0)?;
    let c = (p.draw)(&mut rng_of(id, seed, idx), &mut w)?;
    w.tracing = true;
    println!("{}", serde_json::to_string_pretty(&c.json())?);
    println!("{}", c.line());
    let r = judge(&p, &mut w, &c, &known(id))?;
    for t in &w.trace {
        println!("{t}");
    }
    match r {
        Verdict::Bad(m) => println!("BAD {m}"),
        Verdict::Known(m) => println!("KNOWN {m}"),
        Verdict::Held(h) => println!("held, {}", if h { "hot" } else { "cold" }),
    }
    Ok(0)
}

/// the simulator repeats itself: every case twice, on two machines
pub fn selftest() -> HResult<i32> {
    let arena = Arena::new()?;
    let mut bad = 0;
    for p in all() {
        let mut a = worker(&arena, 0)?;
        let mut b = worker(&arena, 1)?;
        for i in 0..40 {
            let c = (p.draw)(&mut rng_of(p.id, 3, i), &mut a)?;
            let c2 = (p.draw)(&mut rng_of(p.id, 3, i), &mut b)?;
            let back = Case::from_json(c.json()).map_err(HarnessError)?;
            let _ = judge(&p, &mut a, &c, &[])?;
            let _ = judge(&p, &mut b, &c2, &[])?;
            if c != c2 || a.sig != b.sig || back != c {
                println!(
                    "{} case {i} is not repeatable ({}{}{})",
                    p.id,
                    if c != c2 { "draw " } else { "" },
                    if a.sig != b.sig { "history " } else { "" },
                    if back != c { "file" } else { "" }
                );
                if back != c {
                    println!("{:?}\n{:?}", c, back);
                }
                bad += 1;
            }
        }
        println!("{} ok", p.id);
    }
    Ok((bad > 0) as i32)
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    o: &Opts,
    p: &Prop,
    t: &Tally,
    n: usize,
    cut: bool,
    search: Duration,
    wall: Duration,
    violated: bool,
) -> HResult<()> {
    let dir = home().join("evidence");
    std::fs::create_dir_all(&dir)?;
    let hours = search.as_secs_f64().max(0.001) / 3600.0;
    let mut s = t.samples.clone();
    s.sort_by_key(|x| x.0);
    let samples: Vec<Value> = s
        .into_iter()
        .take(4)
        .map(|(i, mut v)| {
            v["index"] = json!(i);
            v
        })
        .collect();
    let v = json!({
        "property": o.id,
        "tier": if o.tier == "thorough" { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.cases,
            "distinct_nontrivial": t.hot.len(),
            "rule": format!(
                "A case is drawn from (seed, property, index): command, options, data, file \
                 layout, delivery policy, clock, faults. It is non-trivial when {}; two \
                 cases are distinct when the hashes of their event histories and results differ.",
                p.rule
            ),
            "samples": samples,
            "cases_planned": n,
            "stopped_by_time": cut,
            "simulated_runs": t.runs,
            "simulated_runs_per_hour": (t.runs as f64 / hours) as u64,
            "seeds_per_hour": (t.cases as f64 / hours) as u64,
            "simulated_calls": t.steps,
            "most_calls_in_one_run": t.max_steps,
            "calls_after_which_a_run_counts_as_runaway": crate::sim::STEP_CAP,
            "turns_of_simultaneous_processes": t.turns,
            "distinct_interleavings": t.orders.len(),
            "distinct_interleavings_measure":
                "hash over the sequence of turns of processes that ran together",
            "simulated_time_s": t.virt_ns as f64 / 1e9,
            "faults_injected": t.faults,
            "distinct_histories": t.hists.len(),
            "distinct_histories_measure":
                "hash over the sequence of (call, channel, result, errno, bytes) of a run",
            "distinct_shapes": t.shapes.len(),
            "distinct_shapes_measure":
                "the same sequence without sizes and contents, repetitions collapsed",
            "cases_per_command": t.per_cmd,
            "repeated_for_determinism": t.rechecked,
            "repetitions_that_differed": t.mismatch,
            "not_reproduced": t.flaky.len(),
            "known_findings_seen": t.known,
            "real_components":
                "the whole pica program as built from /repo (all commands, features \
                 performant, compat, unstable) with its real dependencies",
            "stub_components":
                "libc calls for files, standard streams, clocks, sleeping, randomness and \
                 terminal queries are answered by the simulator (sim/simio.c); the \
                 contents of files live on a scratch tmpfs",
        },
        "assumptions": [
            "pica reaches the world only through the intercepted libc calls",
            "the reference model (driver/src/model.rs, rec.rs) reads the documentation correctly",
            "faults and schedules beyond those drawn from the seed are not covered"
        ],
        "wall_s": wall.as_secs_f64(),
        "violations": violated as u32,
    });
    std::fs::write(
        dir.join(format!("{}.json", o.id)),
        serde_json::to_string_pretty(&v)? + "\n",
    )?;
    Ok(())
}

#[allow(dead_code)]
fn exists(p: &Path) -> bool {
    p.exists()
}
