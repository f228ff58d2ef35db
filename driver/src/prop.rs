//! The properties: how to draw a case of each and how to decide it.

use std::collections::BTreeMap;

use crate::bytes::{B, show, show_n};
use crate::case::*;
use crate::r#gen::*;
use crate::model::*;
use crate::rec::*;
use crate::rng::{Rng, mix};
use crate::shm::*;
use crate::sim::*;

pub enum Verdict {
    /// decided; `true` if the case could have gone wrong in an interesting
    /// way (something was produced, a fault was delivered, ...)
    Held(bool),
    /// a violation listed as a known finding
    Known(String),
    Bad(String),
}

pub type Judge = fn(&mut Worker, &Case) -> HResult<Verdict>;

pub struct Prop {
    pub id: &'static str,
    pub draw: fn(&mut Rng, &mut Worker) -> HResult<Case>,
    pub judge: Judge,
    /// cases of a quick run
    pub quick: usize,
    /// what has to be true of a case to count as non-trivial
    pub rule: &'static str,
}

pub fn all() -> Vec<Prop> {
    let p = |id, draw, judge, quick, rule| Prop { id, draw, judge, quick, rule };
    vec![
        p("C01", d01, j01, 9000, "the input holds at least two lines"),
        p("C02", d02, j02, 7000, "an output operation failed or was cut short"),
        p("C03", d03, j03, 7000, "a read or open failed, or the gzip data was damaged"),
        p("C04", d04, j04, 4500, "the first run was killed or failed"),
        p("C05", d05, j05, 3500, "at least two runs wrote to the same file"),
        p("C06", d06, j06, 9000, "the result is not empty or a fault hit"),
        p("C07", d07, j07, 14000, "some but not all records match"),
        p("C08", d08, j08, 8000, "at least one file was expected"),
        p("C09", d09, j09, 8000, "at least two files were expected or a fault hit"),
        p("C10", d10, j10, 9000, "the input holds an invalid line"),
        p("C11", d11, j11, 14000, "the input or command line was mutated, or a fault hit"),
        p("C12", d12, j12, 8000, "the limit was reached or the pipe closed"),
        p("C13", d13, j13, 4500, "the runs wrote something"),
        p("C14", d14, j14, 4000, "more records match than are drawn"),
        p("C15", d15, j15, 12000, "the input holds a repeated key"),
        p("C16", d16, j16, 12000, "the slice is a proper part of the input"),
        p("C17", d17, j17, 5000, "the input holds at least one line"),
        p("C18", d18, j18, 3500, "a run of the history was killed or failed"),
        p("C19", d19, j19, 9000, "a fault hit, or outputs were written"),
        p("C20", d20, j20, 12000, "the report holds a finding"),
        p("C21", d21, j21, 12000, "a row was written"),
        p("C22", d22, j22, 9000, "a record was counted"),
        p("C23", d23, j23, 12000, "a record was converted"),
        p("C27", d27, j27, 2500, "two commands depended on or could disturb each other"),
        p("C28", d28, j28, 5000, "the counts were shown"),
        p("C29", d29, j29, 320, "the larger input was read to its end"),
        p("C26", d26, j26, 12000, "an exploded record was written"),
    ]
}

pub const ALL: [&str; 17] = [
    "filter", "concat", "count", "explode", "hash", "print", "sample",
    "select", "frequency", "slice", "partition", "split", "convert", "check",
    "invalid", "filter", "convert",
];

fn name_of(r: &mut Rng) -> &'static str {
    // describe is slow to start
    if r.pct(2) { "describe" } else { *r.pick(&ALL) }
}

fn prof(r: &mut Rng, name: &str) -> Prof {
    let mut p = PROF;
    match name {
        "convert" => p.ctl = false,
        "partition" => {
            p.maxval = 60;
            p.huge = &[DEEP];
        }
        "select" | "frequency" => p.huge = &[WIDE, MANY, LONG],
        "check" => p.check = true,
        "explode" => p.units = true,
        "describe" => p.big = false,
        _ => {}
    }
    if r.pct(30) {
        p.bad = false;
    }
    p
}

/// keeps the number of simulated calls within bounds
pub fn tame(case: &mut Case) {
    // these are slow in a debug build: some 0.5 ms per field
    let slow = |a: &B| [&b"=~"[..], b"!~", b"=*", b"!*"]
        .iter()
        .any(|op| a.0.windows(2).any(|w| w == *op));
    if n_lines(case) > 1500 && (case.argv().iter().any(slow) || case.files.values().any(slow)
            || case.cmd.name == "check")
    {
        for i in case.inputs.iter_mut().filter(|i| i.data.0.len() > 30_000) {
            let ls = lines(&i.data.0);
            i.data = B(ls[..ls.len().min(700)].concat());
            let n = i.data.0.len();
            i.members.retain(|m| *m <= n);
        }
    }
    // counters want to be reached
    let n = n_lines(case);
    if (400..60_000).contains(&n) && n % 2 == 0 && case.cmd.limit.is_some() {
        case.cmd.limit = Some(257 + n % 40);
    }
    if n > 60_000 {
        let all: Vec<u8> =
            case.inputs.iter().flat_map(|i| i.data.0.iter().copied()).collect();
        // the first damaged line, if it is one of the last
        let first = lines(&all).iter().position(|l| l.starts_with(b"bad"));
        let late = first.is_some_and(|l| l > 65_000);
        let c = &mut case.cmd;
        if n % 3 != 0 {
            c.expr = None;
            c.and.clear();
            c.or.clear();
            c.not.clear();
            let has = !["concat", "convert", "invalid"].contains(&c.name.as_str());
            c.limit = (has && n % 5 < 2).then_some(65_540 + n % 500);
            c.expr_file = None;
            c.skip = !late || n % 4 == 0;
            if c.name == "filter" {
                // true for nearly every record
                let tag = Tag("003@".chars().map(String::from).collect());
                c.expr = Some(Expr::Exists { tag, occ: Occ::None });
                c.invert = false;
                c.allow.clear();
                c.deny.clear();
            }
        }
        if c.name == "split" {
            c.n = [9_999, 20_000, 21_845, 30_011, 32_768, 60_000, 65_535,
                65_536][n % 8];
        }
    }
    let total: usize = case.inputs.iter().map(|i| i.data.0.len()).sum();
    let min = match total {
        0..=20_000 => 1,
        20_001..=100_000 => 16,
        100_001..=500_000 => 64,
        _ => 2048,
    };
    let fix = |p: &mut Policy| {
        if p.mode > 0 && p.max < min {
            p.max = min;
        }
        if total > 20_000 && p.eintr > 120 {
            p.eintr = 120;
        }
    };
    // A gzip stream that is given up does not try interrupted writes again:
    // what it leaves behind is then not a beginning of a stream.
    let gz = |c: &Cmd| {
        c.gzip
            || [&c.out, &c.tee, &c.template]
                .iter()
                .any(|f| f.as_ref().is_some_and(|f| f.ends_with(".gz")))
    };
    let calm = gz(&case.cmd) && expect(case).fail.is_some()
        || case.steps.iter().any(gz);
    // little writes are for little outputs
    let tiny = |p: &Policy| p.mode > 0 && p.max < 16;
    let big = std::iter::once(&case.world)
        .chain(case.worlds.iter())
        .any(|w| tiny(&w.wr))
        && expect(case)
            .outs
            .values()
            .map(|o| match &o.kind {
                Kind::Bytes(b) => b.len(),
                _ => 0,
            })
            .sum::<usize>()
            > 60_000;
    for w in std::iter::once(&mut case.world).chain(case.worlds.iter_mut()) {
        fix(&mut w.rd);
        fix(&mut w.wr);
        if big && tiny(&w.wr) {
            w.wr.max = 64;
        }
        if calm {
            w.wr.eintr = 0;
        }
    }
}

fn draw(r: &mut Rng, name: &str, f: impl FnOnce(&mut Gen, &mut Case)) -> Case {
    let p = prof(r, name);
    draw_p(r, name, p, f)
}

/// where reading stops for an empty range is open
fn unbroken(c: &mut Cmd) {
    if c.name == "slice" && c.end > 0 && c.end <= c.n {
        c.skip = true;
    }
    if c.name == "describe" && c.out.is_none() {
        c.tsv = false;
        c.mode.clear();
    }
}

fn draw_p(
    r: &mut Rng,
    name: &str,
    p: Prof,
    f: impl FnOnce(&mut Gen, &mut Case),
) -> Case {
    let mut g = Gen::new(r, p);
    let mut c = g.case(name);
    f(&mut g, &mut c);
    unbroken(&mut c.cmd);
    if name == "partition" {
        // no value may name an input
        for i in c.inputs.iter_mut().filter(|i| i.name != "-") {
            i.name = format!("in-{}", i.name);
        }
        if nameless(&c) {
            c.cmd.template = Some("p{}".into());
        }
    }
    tame(&mut c);
    if c.world.seed % 8 == 5 && name != "partition" && name != "split" {
        let files = c.inputs.iter().map(|i| i.name.clone()).filter(|n| n != "-");
        c.world.links = files.chain(c.cmd.out.clone()).chain(c.cmd.tee.clone()).collect();
        c.world.links.extend(c.files.keys().filter(|k| !k.ends_with('/')).cloned());
        c.world.links.sort();
        c.world.links.dedup();
    }
    if c.world.seed % 8 == 3 {
        // read from pipes
        let names: std::collections::BTreeSet<&String> = c.inputs.iter().map(|i| &i.name).collect();
        if names.len() == c.inputs.len() {
            c.world.fifo = names
                .into_iter()
                .map(|n| if n == "-" { STDIN.to_string() } else { n.clone() })
                .collect();
            // lists are read by a library that wants files
            c.world.fifo.extend(c.cmd.expr_file.clone());
            if c.world.seed % 16 == 3 {
                c.world.fifo.extend(c.cmd.rulesets.iter().map(|r| r.file.clone()));
            }
        }
    }
    c
}

const READ_ERR: [i32; 4] = [libc::EIO, libc::EIO, libc::ESTALE, libc::ETIMEDOUT];
const WRITE_ERR: [i32; 4] = [libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::ENOSPC];
const OPEN_ERR: [i32; 5] =
    [libc::EACCES, libc::EMFILE, libc::EIO, libc::EROFS, libc::ENOSPC];

fn ordinal(r: &mut Rng, n: u32) -> u32 {
    match r.below(4) {
        0 => 0,
        1 => n - 1,
        _ => r.below(n as usize) as u32,
    }
}

/// a fault at an operation that a run without it really performs
fn fault(
    r: &mut Rng,
    dry: &Outcome,
    kinds: &[u32],
    path: &dyn Fn(&str) -> bool,
    actions: &[u32],
) -> Option<Fault> {
    let mut at: Vec<(&Chan, u32)> = Vec::new();
    for c in dry.chans.iter().filter(|c| path(&c.path)) {
        for k in kinds {
            if c.counts[*k as usize] > 0 {
                at.push((c, *k));
            }
        }
    }
    if at.is_empty() {
        return None;
    }
    let (c, kind) = at[r.below(at.len())];
    let n = c.counts[kind as usize];
    let action = *r.pick(actions);
    let arg = match action {
        A_ERR | A_STICKY => *(match kind {
            K_READ => r.pick(&READ_ERR),
            K_OPEN | K_MKDIR | K_RENAME | K_UNLINK => r.pick(&OPEN_ERR),
            _ => r.pick(&WRITE_ERR),
        }) as i64,
        A_SHORT | A_CRASH_PARTIAL => r.range(1, 3000) as i64,
        _ => 0,
    };
    Some(Fault { path: c.path.clone(), kind, ord: ordinal(r, n), action, arg })
}

fn dry(w: &mut Worker, c: &Case) -> HResult<Outcome> {
    let mut world = c.world.clone();
    world.faults.clear();
    world.disk_budget = None;
    world.stdout_budget = None;
    world.stdin_stall = false;
    w.run_on(&c.disk(), &c.proc_in(&world))
}

fn run(w: &mut Worker, c: &Case) -> HResult<Outcome> {
    w.run_on(&c.disk(), &c.proc())
}

fn verdict(r: Result<(), String>, interesting: bool) -> HResult<Verdict> {
    Ok(match r {
        Ok(()) => Verdict::Held(interesting),
        Err(m) => Verdict::Bad(m),
    })
}

fn is_out(e: &Expect) -> impl Fn(&str) -> bool + '_ {
    move |p: &str| e.outs.contains_key(p)
}

fn n_lines(c: &Case) -> usize {
    c.inputs.iter().map(|i| lines(&i.data.0).len()).sum()
}

/// 3 in 10 cases of the behavioural properties also meet a lasting failure
fn some_faults(
    r: &mut Rng,
    w: &mut Worker,
    c: &mut Case,
    pct: u32,
) -> HResult<()> {
    if !r.pct(pct) {
        return Ok(());
    }
    let d = dry(w, c)?;
    let kinds = [K_READ, K_WRITE, K_OPEN, K_MKDIR];
    let not_err = |p: &str| p != STDERR && p != ANY;
    if let Some(f) =
        fault(r, &d, &kinds, &not_err, &[A_STICKY, A_CRASH_BEFORE, A_CRASH_PARTIAL])
    {
        c.world.faults.push(f);
    }
    Ok(())
}

fn plain(w: &mut Worker, c: &Case, hot: fn(&Expect, &Outcome) -> bool) -> HResult<Verdict> {
    let e = expect(c);
    let o = run(w, c)?;
    verdict(survive(c, &e, &o), hot(&e, &o))
}

fn wrote(e: &Expect, _: &Outcome) -> bool {
    e.outs.values().any(|o| match &o.kind {
        Kind::Bytes(b) => !b.is_empty(),
        Kind::Json(v) => !v.is_empty(),
        Kind::Xml(v) => !v.is_empty(),
        Kind::Check { rows, one_of, .. } => !rows.is_empty() || !one_of.is_empty(),
        Kind::Sample { cands, .. } => !cands.is_empty(),
        Kind::Describe { table, .. } => !table.is_empty(),
        Kind::Free => true,
    })
}

// ---- C01: delivery ---------------------------------------------------

fn d01(r: &mut Rng, _: &mut Worker) -> HResult<Case> {
    let name = name_of(r);
    Ok(draw(r, name, |g, c| {
        if name == "describe" && g.r.pct(50) {
            c.cmd.out = None;
            c.cmd.progress = false;
        }
        if g.r.pct(40) {
            // another arrangement of the same bytes, for comparison
            c.x = vec![1];
        }
        if c.inputs.len() < 4 && g.r.pct(6) {
            // one input once more
            let x = g.r.pick(&c.inputs).clone();
            if x.name != "-" && x.data.0.len() < 100_000 {
                c.inputs.push(x);
            }
        }
    }))
}

fn j01(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let one = |i: &Input| c.inputs.iter().find(|x| x.name == i.name).unwrap() == i;
    if !c.inputs.iter().all(one) {
        // cannot be
        return Ok(Verdict::Held(false));
    }
    let e = expect(c);
    let o = run(w, c)?;
    if let Err(m) = conform(c, &e, &o) {
        return Ok(Verdict::Bad(m));
    }
    let free = e.outs.values().any(|x| {
        matches!(x.kind, Kind::Free | Kind::Describe { delim: TABLE | ARROW, .. })
    });
    if free || !c.x.is_empty() {
        // the same lines as one plain file, delivered in one piece
        let mut c2 = c.clone();
        let mut data = Vec::new();
        for i in &c.inputs {
            if data.last().is_some_and(|x| *x != b'\n') {
                // an unfinished line at the end of a file stays a line
                return Ok(Verdict::Held(true));
            }
            data.extend(&i.data.0);
        }
        c2.inputs = vec![Input::new("all.dat", data)];
        c2.world = World { seed: c.world.seed, ..Default::default() };
        if e.fail.is_some() {
            return Ok(Verdict::Held(true));
        }
        let o2 = run(w, &c2)?;
        for k in e.outs.keys() {
            if output_of(&o, k) != output_of(&o2, k) {
                return Ok(Verdict::Bad(format!(
                    "{k} differs from the result for the same lines in one \
                     plain file: {} / {}",
                    show(&output_of(&o, k).unwrap_or_default()),
                    show(&output_of(&o2, k).unwrap_or_default())
                )));
            }
        }
    }
    Ok(Verdict::Held(n_lines(c) > 1))
}

// ---- C02: writes -----------------------------------------------------

fn write_faults(r: &mut Rng, w: &mut Worker, c: &mut Case) -> HResult<()> {
    let e = expect(c);
    let d = dry(w, c)?;
    let outs = is_out(&e);
    let p = |p: &str| outs(p) || (p != ANY && !p.starts_with('<') && d.count(p, K_MKDIR) > 0);
    let n = r.range(1, 2);
    for _ in 0..n {
        let f = match r.below(10) {
            0..=5 => fault(r, &d, &[K_WRITE], &p, &[A_ERR, A_STICKY]),
            6 => fault(r, &d, &[K_WRITE], &p, &[A_SHORT]),
            7 => fault(r, &d, &[K_OPEN], &p, &[A_ERR, A_STICKY]),
            8 => fault(r, &d, &[K_MKDIR, K_OPEN], &p, &[A_STICKY]),
            _ => fault(r, &d, &[K_WRITE, K_TRUNC], &p, &[A_STICKY]),
        };
        c.world.faults.extend(f);
    }
    let so = d.chan(STDOUT).map(|x| x.wbytes).unwrap_or(0);
    if so > 0 && r.pct(20) {
        let errno = *r.pick(&[libc::EPIPE, libc::EIO, libc::ENOSPC]);
        c.world.stdout_budget = Some((r.below(so as usize) as i64, errno));
    }
    let disk: u64 = d
        .chans
        .iter()
        .filter(|x| !x.path.starts_with('<') && x.path != ANY)
        .map(|x| x.wbytes)
        .sum();
    if disk > 0 && r.pct(20) {
        c.world.disk_budget = Some(r.below(disk as usize) as i64);
    }
    Ok(())
}

/// a command that works on no records
fn words(r: &mut Rng) -> Case {
    let shells = ["bash", "elvish", "fish", "powershell", "zsh"];
    let mut v: Vec<&str> = match r.below(4) {
        0 => vec!["config", "--get", "skip-invalid"],
        1 => vec!["config", "normalization"],
        _ => vec!["completions", *r.pick(&shells)],
    };
    if v[0] == "completions" && r.pct(60) {
        v.extend(["-o", *r.pick(&["out.sh", "res/out.sh"])]);
    }
    let mut c = Case::default();
    let mut g = Gen::new(r, PROF);
    c.world = g.rough();
    c.world.wr.max = c.world.wr.max.max(16);
    c.config_skip = g.r.pct(50);
    c.files.insert("res/".into(), B::default());
    if g.r.pct(40) {
        c.files.insert("out.sh".into(), B(vec![b'#'; 90_000]));
    }
    c.cmd.name = v[0].into();
    c.cmd.raw = Some(v.iter().map(|x| B::from(*x)).collect());
    c
}

/// the output of such a command, against a run in which nothing fails
fn j_words(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let d = dry(w, c)?;
    let o = run(w, c)?;
    if d.end != End::Exit(0) || o.panicked() {
        return Ok(Verdict::Bad(format!("{:?} [{}]", d.end, o.err_text())));
    }
    let out = |p: &str| p == STDOUT || p.ends_with("out.sh");
    let mut hit: Vec<String> = Vec::new();
    for (f, n) in c.world.faults.iter().zip(&o.fired) {
        let acts = [A_ERR, A_STICKY].contains(&f.action);
        if *n > 0 && acts && out(&f.path) {
            hit.push(f.describe());
        }
    }
    let gone = piped(c, &o);
    let cut = o.chan(STDOUT).is_some_and(|x| x.budget_fired > 0) && !gone;
    if cut || o.disk_full > 0 {
        hit.push("the output took no more".into());
    }
    if gone && o.end == End::Exit(0) {
        return Ok(Verdict::Held(true));
    }
    if !hit.is_empty() {
        if o.end != End::Exit(2) || !o.err_text().contains("error: ") {
            return Ok(Verdict::Bad(format!(
                "{}, but the command ended with {:?} and {}",
                hit[0],
                o.end,
                show(&o.stderr)
            )));
        }
        return Ok(Verdict::Held(true));
    }
    if o.end != d.end || o.stdout != d.stdout || o.files != d.files {
        return Ok(Verdict::Bad(format!(
            "nothing failed, but the output is not complete: {:?} {} [{}]",
            o.end,
            show(&o.stdout),
            o.err_text()
        )));
    }
    Ok(Verdict::Held(true))
}

fn d02(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    if r.pct(2) {
        let mut c = words(r);
        let d = dry(w, &c)?;
        let out = |p: &str| p == STDOUT || p.ends_with("out.sh");
        let acts = [A_ERR, A_ERR, A_STICKY, A_SHORT];
        match r.below(10) {
            0..=6 => {
                let f = fault(r, &d, &[K_WRITE, K_OPEN], &out, &acts);
                c.world.faults.extend(f);
            }
            7 => {
                let n = d.chan(STDOUT).map(|x| x.wbytes).unwrap_or(0);
                let errno = *r.pick(&[libc::EPIPE, libc::EIO, libc::ENOSPC]);
                if n > 0 {
                    let n = r.below(n as usize) as i64;
                    c.world.stdout_budget = Some((n, errno));
                }
            }
            8 => c.world.disk_budget = Some(r.below(30_000) as i64),
            _ => {}
        }
        return Ok(c);
    }
    let name = name_of(r);
    let mut c = draw(r, name, |g, c| {
        if g.r.pct(85) {
            // most runs would succeed but for the fault
            c.cmd.skip = true;
        }
        if g.r.pct(8) && c.cmd.out.is_some() {
            // no such directory
            c.cmd.out = Some("nowhere/out.dat".into());
        }
        // more than fits into a buffer
        if g.r.pct(if name == "check" { 20 } else { 8 }) {
            let i = &mut c.inputs[0];
            let n = *g.r.pick(&[40, 150, 400]);
            if i.data.0.ends_with(b"\n") && i.data.0.len() * n < 300_000 {
                i.data = B(i.data.0.repeat(n));
                i.members.clear();
            }
        }
    });
    if r.pct(85) {
        write_faults(r, w, &mut c)?;
    }
    Ok(c)
}

/// an output operation failed; EPIPE on stdout counts separately
fn output_failed(c: &Case, e: &Expect, o: &Outcome) -> Option<String> {
    if o.disk_full > 0 {
        return Some("the disk was full".into());
    }
    for (f, n) in c.world.faults.iter().zip(&o.fired) {
        let hit = matches!(f.action, A_ERR | A_STICKY)
            && f.arg != libc::EINTR as i64
            && [K_OPEN, K_WRITE, K_MKDIR, K_TRUNC, K_RENAME].contains(&f.kind)
            && f.path != STDERR
            && (e.outs.contains_key(&f.path) || f.kind == K_MKDIR);
        if *n > 0 && hit {
            return Some(f.describe());
        }
    }
    let ch = o.chan(STDOUT);
    if let Some(ch) = ch
        && ch.budget_fired > 0
        && c.world.stdout_budget.is_some_and(|b| b.1 != libc::EPIPE)
    {
        return Some("a write to stdout failed".into());
    }
    None
}

fn j02(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    if c.cmd.raw.is_some() {
        return j_words(w, c);
    }
    let mut e = expect(c);
    let missing = e.outs.keys().any(|k| k.starts_with("nowhere/"));
    if missing {
        // which message depends on what is opened first
        e.fail = Some(String::new());
    }
    let o = run(w, c)?;
    // what else may be left behind is C04 and C19
    if o.panicked() {
        return Ok(Verdict::Bad(format!("panic [{}]", o.err_text())));
    }
    if let Some(f) = output_failed(c, &e, &o) {
        if o.end != End::Exit(2) || !o.err_text().contains("error: ") {
            // a closed pipe may come first
            if !(piped(c, &o) && o.end == End::Exit(0)) {
                return Ok(Verdict::Bad(format!(
                    "{f}, but the command ended with {:?} and {}",
                    o.end,
                    show(&o.stderr)
                )));
            }
        }
        return Ok(Verdict::Held(true));
    }
    verdict(
        survive(c, &e, &o),
        missing
            || o.chans.iter().any(|x| x.short > 0 && e.outs.contains_key(&x.path)),
    )
}

// ---- C03: reads ------------------------------------------------------

fn d03(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let name = name_of(r);
    let mut c = draw(r, name, |g, c| {
        if g.r.pct(80) {
            c.cmd.skip = true;
        }
        if g.r.pct(70) {
            c.cmd.limit = None;
        }
        if name == "filter" && g.r.pct(20) {
            c.cmd.expr_file = Some("expr.txt".into());
        }
    });
    match r.below(10) {
        0..=2 => {
            // damaged gzip data
            let k = r.below(c.inputs.len());
            let i = &mut c.inputs[k];
            i.name = format!("z{k}.dat.gz");
            if r.pct(50) {
                let mut g = Gen::new(r, PROF);
                i.members = g.members(i.data.0.len());
            }
            let n = i.raw().len();
            if r.pct(60) {
                i.cut = Some(if r.pct(40) {
                    n - r.range(1, 9.min(n - 1))
                } else {
                    r.below(n)
                });
            } else {
                i.flip = Some(if r.pct(40) {
                    (n - r.range(1, 8.min(n))) * 8 + r.below(8)
                } else {
                    r.below(n * 8)
                });
            }
        }
        3 => {
            // a missing input, or one that is a directory
            let k = r.below(c.inputs.len());
            if c.inputs[k].name != "-" {
                c.x = vec![1 + r.below(2) as i64, k as i64];
            }
        }
        _ => {
            let e = expect(&c);
            let d = dry(w, &c)?;
            let outs = is_out(&e);
            let p = |p: &str| !outs(p) && p != ANY && p != STDOUT && p != STDERR;
            for _ in 0..r.range(1, 2) {
                let f = if r.pct(75) {
                    fault(r, &d, &[K_READ], &p, &[A_ERR, A_STICKY])
                } else {
                    fault(r, &d, &[K_OPEN], &p, &[A_ERR, A_STICKY])
                };
                c.world.faults.extend(f);
            }
        }
    }
    Ok(c)
}

fn j03(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    // the model works on what the damaged data decodes to
    let mut m = c.clone();
    let mut damaged = false;
    let mut garbage = false;
    let mut empty = false;
    for i in m.inputs.iter_mut() {
        if i.is_gz() && (i.cut.is_some() || i.flip.is_some()) {
            let g = gunzip(&i.raw());
            damaged |= !g.clean;
            // what garbage decodes to before it is found out is open
            garbage |= !g.clean && i.flip.is_some();
            // not even a header: no gzip file, or one without a member
            empty |= i.cut == Some(0);
            i.data = B(g.data);
        }
    }
    let e = expect(&m);
    let mut disk = c.disk();
    let mut missing = false;
    if let [how, k] = c.x[..]
        && let Some(i) = c.inputs.get(k as usize)
    {
        missing = true;
        disk.remove(&i.name);
        if how == 2 {
            disk.insert(format!("{}/", i.name), B(Vec::new()));
        }
    }
    let o = w.run_on(&disk, &c.proc())?;
    if o.panicked() {
        return Ok(Verdict::Bad(format!("panic [{}]", o.err_text())));
    }
    // nor where reading stops if nothing is to be found
    let early = e.limited
        || (garbage && (c.cmd.limit.is_some() || c.cmd.name == "slice"))
        || (c.cmd.name == "slice"
            && (e.used < n_lines(&m)
                || (c.cmd.end > 0 && c.cmd.end <= c.cmd.n)));
    let mut why = None;
    for (f, n) in c.world.faults.iter().zip(&o.fired) {
        if *n > 0 {
            why = Some(f.describe());
        }
    }
    if damaged && !early {
        why = Some("the gzip data is damaged".into());
    }
    if missing && !early {
        why = Some("an input is missing".into());
    }
    if let Some(y) = &why
        && (o.end != End::Exit(2) || !o.err_text().contains("error: "))
    {
        return Ok(Verdict::Bad(format!(
            "{y}, but the command ended with {:?} and {}",
            o.end,
            show(&o.stderr)
        )));
    }
    if why.is_some() {
        // nothing behind the failure may have been made up
        let streamed = matches!(
            c.cmd.name.as_str(),
            "filter" | "concat" | "explode" | "hash" | "print" | "slice"
                | "partition" | "split"
        );
        if streamed && !garbage && let Err(x) = prefixes(&m, &e, &o) {
            return Ok(Verdict::Bad(format!("{}: {x}", why.unwrap())));
        }
        return Ok(Verdict::Held(true));
    }
    if damaged || missing || empty {
        return Ok(Verdict::Held(true));
    }
    verdict(survive(&m, &e, &o).or_else(|x| {
        // only the disk of the undamaged case is known to the model
        if x.contains("was changed") { Ok(()) } else { Err(x) }
    }), false)
}

// ---- C04: crash, prefix, rerun ---------------------------------------

fn d04(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let name = name_of(r);
    let mut c = draw(r, name, |g, c| {
        if name == "sample" {
            c.cmd.seed = Some(g.r.below(99) as u64);
        }
        c.cmd.skip |= g.r.pct(70);
    });
    let d = dry(w, &c)?;
    let n = if r.pct(85) { 1 } else { 2 };
    for _ in 0..n {
        let f = match r.below(10) {
            0..=3 => fault(
                r,
                &d,
                &[K_WRITE],
                &|p| p != ANY && p != STDERR,
                &[A_CRASH_BEFORE, A_CRASH_PARTIAL, A_CRASH_PARTIAL],
            ),
            4 | 5 => fault(
                r,
                &d,
                &[K_WRITE],
                &|p| p != ANY && p != STDERR,
                &[A_STICKY],
            ),
            6 => fault(
                r,
                &d,
                &[K_OPEN, K_CLOSE, K_READ, K_MKDIR],
                &|p| p != ANY,
                &[A_CRASH_BEFORE],
            ),
            7 => fault(r, &d, &[K_READ], &|p| p != ANY, &[A_STICKY]),
            _ => fault(
                r,
                &d,
                &[K_WRITE, K_READ, K_OPEN, K_CLOSE],
                &|p| p == ANY,
                &[A_CRASH_BEFORE],
            ),
        };
        c.world.faults.extend(f);
    }
    if r.pct(10) {
        let so = d.chan(STDOUT).map(|x| x.wbytes).unwrap_or(0);
        if so > 0 {
            let errno = *r.pick(&[libc::EPIPE, libc::EIO]);
            c.world.stdout_budget = Some((r.below(so as usize) as i64, errno));
        }
    }
    Ok(c)
}

/// one output of an unfinished run against the finished one
fn part_of(name: &str, gz: bool, old: &[u8], got: &[u8], full: &[u8]) -> Result<(), String> {
    let strip = |v: &[u8]| -> Result<Vec<u8>, String> {
        let n = v
            .strip_prefix(old)
            .ok_or_else(|| format!("{name}: old contents gone"))?;
        Ok(if gz { gunzip(n).data } else { n.to_vec() })
    };
    let (g, f) = (strip(got)?, strip(full)?);
    if f.starts_with(&g) {
        return Ok(());
    }
    Err(format!(
        "{name}: not a beginning of the complete result: {} / {}",
        show_n(&g, 200),
        show_n(&f, 200)
    ))
}

fn j04(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let e = expect(c);
    let calm = World { seed: c.world.seed, ..Default::default() };
    let mut whole = c.clone();
    whole.world = calm.clone();
    let full = run(w, &whole)?;
    if let Err(m) = conform(&whole, &e, &full) {
        return Ok(Verdict::Bad(format!("undisturbed run: {m}")));
    }
    let o = run(w, c)?;
    if o.panicked() {
        return Ok(Verdict::Bad(format!("panic [{}]", o.err_text())));
    }
    let hit = disturbed(&o) || o.end == End::Crash;
    let before = c.disk();
    for (name, out) in &e.outs {
        let Some(got) = output_of(&o, name) else { continue };
        if before.get(name).is_some_and(|b| b.0 == got) {
            continue;
        }
        let Some(f) = output_of(&full, name) else {
            return Ok(Verdict::Bad(format!(
                "{name} exists after the failed run only"
            )));
        };
        // appending to a gzip file: the old members come first
        if let Err(m) = part_of(name, out.gz, &out.old, &got, &f) {
            return Ok(Verdict::Bad(m));
        }
    }
    if let Err(m) = untouched(&before, &o.files, &|k| e.outs.contains_key(k)) {
        return Ok(Verdict::Bad(m));
    }
    // again, on what is left
    let mut again = c.clone();
    again.cmd.append = false;
    again.world = calm;
    let left: Files = o.files.clone();
    for (k, v) in c.files.iter().filter(|x| x.0.ends_with('/')) {
        w.put_file(k, &v.0)?;
    }
    let o2 = w.run(&again.proc())?;
    let mut e2 = expect(&again);
    if e.fail.is_none() {
        e2.fail = None;
    }
    if o2.end != full.end || o2.stderr != full.stderr {
        return Ok(Verdict::Bad(format!(
            "the rerun ended with {:?} and {}",
            o2.end,
            show(&o2.stderr)
        )));
    }
    for (name, out) in &e2.outs {
        match (output_of(&o2, name), e2.fail.is_some()) {
            (Some(g), false) => {
                if let Err(m) = out.complete(name, &g) {
                    return Ok(Verdict::Bad(format!("rerun: {m}")));
                }
            }
            (None, false) => {
                return Ok(Verdict::Bad(format!("rerun: {name} is missing")));
            }
            (Some(g), true) => {
                if left.get(name).is_some_and(|b| b.0 == g) {
                    continue;
                }
                if let Err(m) = out.prefix(name, &g) {
                    return Ok(Verdict::Bad(format!("rerun: {m}")));
                }
            }
            _ => {}
        }
    }
    Ok(Verdict::Held(hit))
}

// ---- C05: append -----------------------------------------------------

fn d05(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let p = Prof { big: false, ..prof(r, "filter") };
    let mut g = Gen::new(r, p);
    let gz = g.r.pct(40);
    let file = if gz { "log.dat.gz" } else { "log.dat" };
    let csv = !gz && g.r.pct(15);
    let mut c = Case::default();
    let d = g.data();
    c.inputs = g.arrange(&d);
    g.furniture(&mut c);
    let n = g.r.range(2, 4);
    for k in 0..n {
        let name = if csv {
            *g.r.pick(&["select", "count"])
        } else {
            *g.r.pick(&["filter", "concat", "slice", "filter", "concat"])
        };
        let mut s = g.cmd(name);
        for x in s.allow.iter_mut().chain(s.deny.iter_mut()) {
            x.name = format!("s{k}{}", x.name);
        }
        if s.expr_file.is_some() {
            s.expr_file = Some(format!("expr{k}.txt"));
        }
        s.out = None;
        s.tee = None;
        s.gzip = false;
        s.progress = false;
        let tee = (name == "filter" || name == "concat") && g.r.pct(35);
        if tee {
            s.tee = Some(file.into());
        } else {
            s.out = Some(file.into());
        }
        s.append = !(k == 0 && g.r.pct(40)) && g.r.pct(93);
        s.skip |= g.r.pct(80);
        unbroken(&mut s);
        c.steps.push(s);
        let mut world = g.rough();
        world.tty = false;
        c.worlds.push(world);
    }
    if g.r.pct(30) {
        let old = g.data_n(2);
        c.files.insert(
            file.into(),
            B(if gz { crate::case::gz(&old, &[]) } else { old }),
        );
    }
    c.cmd = c.steps[0].clone();
    tame(&mut c);
    if r.pct(35) {
        // one of the runs fails for good
        let k = r.below(n);
        let mut one = c.clone();
        one.cmd = c.steps[k].clone();
        one.world = c.worlds[k].clone();
        let d = dry(w, &one)?;
        let f = if r.pct(70) {
            fault(
                r,
                &d,
                &[K_WRITE, K_OPEN],
                &|p| p == file,
                &[A_STICKY, A_STICKY, A_CRASH_PARTIAL, A_CRASH_BEFORE],
            )
        } else {
            fault(r, &d, &[K_READ], &|p| p != ANY, &[A_STICKY])
        };
        c.worlds[k].faults.extend(f);
    }
    Ok(c)
}

fn j05(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let mut disk = c.disk();
    let mut target = String::new();
    let mut wrote = 0;
    let mut torn = false;
    for (k, s) in c.steps.iter().enumerate() {
        let mut one = c.clone();
        one.cmd = s.clone();
        one.files = disk.clone();
        one.world = c.worlds.get(k).cloned().unwrap_or_default();
        // the inputs are not among the outputs, their disk state stays
        let e = expect(&one);
        target = s.out.clone().or(s.tee.clone()).unwrap_or_default();
        let o = run(w, &one)?;
        if let Err(m) = survive(&one, &e, &o) {
            return Ok(Verdict::Bad(format!("run {}: {m}", k + 1)));
        }
        if o.end == End::Exit(0) {
            wrote += 1;
            if !s.append {
                torn = false;
            }
        } else {
            // an unfinished gzip member cannot be continued, nor can
            // an unfinished line
            torn = true;
        }
        disk = o.files.clone();
        for (k, v) in &c.files {
            if k.ends_with('/') {
                disk.insert(k.clone(), v.clone());
            }
        }
    }
    // what the readers make of the file
    if !torn && target.contains("log.dat") && disk.contains_key(&target) {
        let raw = disk[&target].0.clone();
        let plain = if target.ends_with(".gz") {
            let g = gunzip(&raw);
            if !g.clean {
                return Ok(Verdict::Bad(format!("{target}: damaged gzip file")));
            }
            g.data
        } else {
            raw
        };
        let p = Proc {
            argv: [b"concat".as_slice(), b"-s", target.as_bytes()]
                .iter()
                .map(|a| B(a.to_vec()))
                .collect(),
            stdin: B(Vec::new()),
            world: c.worlds.last().map(|x| World { faults: vec![], ..x.clone() }).unwrap_or_default(),
        };
        let text = c.steps.iter().any(|s| s.name == "select" || s.name == "count");
        let want: Vec<u8> = lines(&plain)
            .into_iter()
            .filter(|l| Rec::parse(l).is_some())
            .collect::<Vec<_>>()
            .concat();
        let o = w.run_on(&disk, &p)?;
        if !text && (o.end != End::Exit(0) || o.stdout != want) {
            return Ok(Verdict::Bad(format!(
                "reading {target} back: {:?}, {} of {} bytes {}",
                o.end,
                o.stdout.len(),
                want.len(),
                show(&o.stderr)
            )));
        }
    }
    Ok(Verdict::Held(wrote >= 2))
}

// ---- C06: tee --------------------------------------------------------

fn d06(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let name = if r.pct(55) { "filter" } else { "concat" };
    let mut c = draw(r, name, |g, c| {
        c.cmd.tee = Some(
            g.r.pick(&["tee.dat", "tee.dat.gz", "res/tee"]).to_string(),
        );
        c.cmd.gzip &= !c.cmd.append;
        if name == "filter" {
            c.cmd.out = None;
            c.cmd.progress = false;
        } else if c.cmd.out.is_none() {
            c.cmd.progress = false;
        }
        c.cmd.skip |= g.r.pct(70);
    });
    if r.pct(40) {
        write_faults(r, w, &mut c)?;
    }
    Ok(c)
}

fn j06(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let e = expect(c);
    let o = run(w, c)?;
    if let Some(f) = output_failed(c, &e, &o)
        && o.end == End::Exit(0)
        && !piped(c, &o)
    {
        return Ok(Verdict::Bad(format!("{f}, but the command reports success")));
    }
    if let Err(m) = loose(c, &e, &o) {
        return Ok(Verdict::Bad(m));
    }
    if o.end == End::Exit(0) && !piped(c, &o) && e.fail.is_none() {
        // directly: both outputs decode to the same bytes
        let dec = |name: &str| -> Vec<u8> {
            let x = &e.outs[name];
            let g = output_of(&o, name).unwrap_or_default();
            let g = g[x.old.len().min(g.len())..].to_vec();
            if x.gz { gunzip(&g).data } else { g }
        };
        let main = c.cmd.out.clone().unwrap_or_else(|| STDOUT.into());
        if let Some(t) = &c.cmd.tee
            && dec(t) != dec(&main)
        {
            return Ok(Verdict::Bad("tee file and output differ".into()));
        }
    }
    Ok(Verdict::Held(wrote(&e, &o) || disturbed(&o)))
}

/// `survive`, but after a passing write error the same bytes may have been
/// written twice by a run that reports failure
fn loose(c: &Case, e: &Expect, o: &Outcome) -> Result<(), String> {
    let passing = c
        .world
        .faults
        .iter()
        .zip(&o.fired)
        .any(|(f, n)| *n > 0 && f.kind == K_WRITE && f.action == A_ERR);
    if passing && o.end == End::Exit(2) && o.err_text().contains("error: ") {
        return Ok(());
    }
    survive(c, e, o)
}

// ---- C07 filter ------------------------------------------------------

fn d07(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let mut c = draw(r, "filter", |_, _| {});
    some_faults(r, w, &mut c, 12)?;
    Ok(c)
}

fn j07(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let v = plain(w, c, wrote)?;
    let mut all = c.clone();
    all.cmd.limit = None;
    if let Verdict::Held(hot) = v {
        // the inversion writes the other records
        if c.world.faults.is_empty()
            && c.cmd.allow.is_empty()
            && c.cmd.deny.is_empty()
            && c.world.seed.is_multiple_of(4)
        {
            let mut inv = all.clone();
            inv.cmd.invert = !inv.cmd.invert;
            let e = expect(&inv);
            let o = run(w, &inv)?;
            if let Err(m) = survive(&inv, &e, &o) {
                return Ok(Verdict::Bad(format!("inverted: {m}")));
            }
        }
        return Ok(Verdict::Held(hot));
    }
    Ok(v)
}

// ---- C08 partition ---------------------------------------------------

fn d08(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let mut c = draw(r, "partition", |g, c| {
        if g.r.pct(12) {
            // values that look like paths
            let bad = ["../up", "..", "/etc/x", "a/b", ".", "x\0y", "sub/../y"];
            let v = g.r.pick(&bad).as_bytes().to_vec();
            let k = g.r.below(c.inputs.len());
            let d = c.inputs[k].data.0.clone();
            let ls = lines(&d);
            let path = c.cmd.path.clone().unwrap();
            let mut out = Vec::new();
            for l in ls {
                let mut l = l.to_vec();
                if g.r.pct(20)
                    && let Some(mut rec) = Rec::parse(&l)
                {
                    for f in rec.fields.iter_mut() {
                        if path.tag.ok(&f.tag) && !f.subs.is_empty() {
                            f.subs[0].1 = v.clone();
                        }
                    }
                    l = rec.bytes();
                }
                out.extend(l);
            }
            c.inputs[k].data = B(out);
            if g.r.pct(50) {
                c.cmd.template =
                    Some(g.r.pick(&["{}", "{}/x.dat", "p{}"]).to_string());
            }
            c.cmd.template = c.cmd.template.take().filter(|t| t != "{}/x.dat");
        }
        c.cmd.skip |= g.r.pct(60);
    });
    some_faults(r, w, &mut c, 20)?;
    Ok(c)
}

fn j08(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    plain(w, c, |e, _| !e.outs.is_empty())
}

// ---- C09 split -------------------------------------------------------

fn d09(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let mut c = draw(r, "split", |g, c| {
        c.cmd.skip |= g.r.pct(60);
    });
    some_faults(r, w, &mut c, 20)?;
    Ok(c)
}

fn j09(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    plain(w, c, |e, o| e.outs.len() > 1 || disturbed(o))
}

// ---- C10 invalid lines -----------------------------------------------

fn d10(r: &mut Rng, _: &mut Worker) -> HResult<Case> {
    let name = if r.pct(12) { "invalid" } else { name_of(r) };
    let p = Prof { bad: true, ..prof(r, name) };
    Ok(draw_p(r, name, p, |g, c| {
        c.cmd.skip = g.r.pct(50);
        c.config_skip = !c.cmd.skip && g.r.pct(15);
        if g.r.pct(70) {
            c.cmd.limit = None;
        }
        // make sure that there are bad lines
        if !stream(c).iter().any(|l| l.rec.is_none()) {
            let k = g.r.below(c.inputs.len());
            let d = c.inputs[k].data.0.clone();
            let ls = lines(&d);
            let whole = d.last().is_none_or(|x| *x == b'\n');
            let at = g.r.below(ls.len() + whole as usize);
            let mut v = ls[..at].concat();
            v.extend(*g.r.pick(&[
                &b"\n"[..],
                b"003@ \x1f0123\n",
                b"003@ 0123\x1e\n",
                b"003@ \x1f0a\x1e\r\n",
                b"\xff\xfe\n",
                b"  003@ \x1f0a\x1e\n",
                b"003@ \x1f0a\x1e003@\n",
                b"003\n",
            ]));
            v.extend(ls[at..].concat());
            c.inputs[k].data = B(v);
        }
    }))
}

fn j10(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let e = expect(c);
    let o = run(w, c)?;
    let bad = stream(c).iter().any(|l| l.rec.is_none());
    if let Err(m) = conform(c, &e, &o) {
        return Ok(Verdict::Bad(m));
    }
    if e.fail.as_ref().is_some_and(|m| !m.is_empty()) {
        // everything before the bad line has been processed
        let streamed = matches!(
            c.cmd.name.as_str(),
            "filter" | "concat" | "explode" | "hash" | "print" | "select"
                | "slice" | "partition" | "split"
        );
        if streamed && let Err(m) = completes(&e, &o) {
            return Ok(Verdict::Bad(format!("before the bad line: {m}")));
        }
    }
    if c.skips() && c.cmd.name != "slice" && c.cmd.name != "invalid" && c.world.seed.is_multiple_of(3) {
        // the same without the bad lines
        let mut c2 = c.clone();
        for i in c2.inputs.iter_mut() {
            let v: Vec<u8> = lines(&i.data.0)
                .into_iter()
                .filter(|l| Rec::parse(l).is_some())
                .collect::<Vec<_>>()
                .concat();
            i.data = B(v);
            i.members.clear();
        }
        c2.cmd.skip = false;
        c2.config_skip = false;
        let o2 = run(w, &c2)?;
        for k in e.outs.keys() {
            if output_of(&o, k) != output_of(&o2, k) {
                return Ok(Verdict::Bad(format!(
                    "{k} differs from the result without the invalid lines"
                )));
            }
        }
    }
    Ok(Verdict::Held(bad))
}

// ---- C11 no panic, no hang -------------------------------------------

fn d11(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    crate::fuzz::draw(r, w, name_of(&mut r.clone()))
}

fn j11(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let o = run(w, c)?;
    if o.panicked() {
        return Ok(Verdict::Bad(format!("panic [{}]", show(&o.stderr))));
    }
    let quiet = o.chan(STDERR).is_some_and(|x| x.werr > 0)
        || c.world.faults.iter().any(|f| f.path == STDERR);
    match o.end {
        End::Exit(0) => {}
        End::Exit(1 | 2) if !o.stderr.is_empty() || quiet => {}
        End::Exit(2) => {
            return Ok(Verdict::Bad("exit status 2 without a message".into()));
        }
        End::Exit(1) if o.stdout.is_empty() => {
            return Ok(Verdict::Bad("exit status 1 without a message".into()));
        }
        End::Exit(1) => {}
        End::Crash | End::Stall => {}
        x => {
            return Ok(Verdict::Bad(format!("ended with {x:?} [{}]", show(&o.stderr))));
        }
    }
    Ok(Verdict::Held(!c.x.is_empty() || disturbed(&o)))
}

// ---- C12 limits and pipes --------------------------------------------

fn d12(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    if r.pct(55) {
        let names = [
            "filter", "count", "explode", "hash", "print", "sample",
            "select", "frequency", "slice", "partition", "split", "check",
        ];
        let name =
            if r.pct(3) { "describe" } else { *r.pick(&names) };
        return Ok(draw(r, name, |g, c| {
            let d: Vec<u8> =
                c.inputs.iter().flat_map(|i| i.data.0.clone()).collect();
            let d: Vec<u8> = if d.last() == Some(&b'\n') { d } else { Vec::new() };
            c.inputs = if g.r.pct(40) {
                // files first
                let ls = lines(&d);
                let n = g.r.below(ls.len() + 1);
                let m = n + g.r.below(ls.len() - n + 1);
                let z = if g.r.pct(30) { "a.dat.gz" } else { "a.dat" };
                let mut v = vec![Input::new(z, ls[..n].concat())];
                if g.r.pct(40) {
                    v.push(Input::new("b.dat", ls[n..m].concat()));
                    v.push(Input::new("-", ls[m..].concat()));
                } else {
                    v.push(Input::new("-", ls[n..].concat()));
                }
                v
            } else {
                vec![Input::new("-", d)]
            };
            c.cmd.skip = true;
            c.cmd.limit = Some(g.r.range(1, 6));
            c.world.stdin_stall = true;
            c.x = vec![1];
        }));
    }
    let names = [
        "filter", "concat", "explode", "hash", "print", "select", "convert",
        "invalid", "slice", "count", "frequency", "sample", "check", "filter",
    ];
    if r.pct(2) {
        return Ok(endless(r));
    }
    let name = *r.pick(&names);
    let p = Prof { bad: name == "invalid", ..prof(r, name) };
    let mut c = draw_p(r, name, p, |g, c| {
        if g.r.pct(60) {
            let n = g.r.range(100, 600);
            let d = g.data_n(n);
            c.inputs = vec![Input::new("-", d)];
        }
        c.cmd.out = None;
        c.cmd.progress = false;
        c.cmd.append = c.cmd.tee.is_some() && c.cmd.append;
        c.cmd.skip = true;
        c.cmd.limit = None;
        c.world.wr = Policy::default();
    });
    let d = dry(w, &c)?;
    let so = d.chan(STDOUT).map(|x| x.wbytes).unwrap_or(0);
    if so > 0 {
        let n = if r.pct(30) { 0 } else { r.below(so as usize) };
        c.world.stdout_budget = Some((n as i64, libc::EPIPE));
    }
    if r.pct(4) {
        c.x = vec![2];
        let words: &[&str] = match r.below(4) {
            0 => &["completions", "bash"],
            1 => &["config", "--get", "skip-invalid"],
            2 => &["completions", "zsh"],
            _ => &["config", "normalization"],
        };
        c.cmd = Cmd {
            name: words[0].into(),
            raw: Some(words.iter().map(|x| B::from(*x)).collect()),
            ..Default::default()
        };
        c.world.stdout_budget = Some((r.below(3) as i64, libc::EPIPE));
    }
    Ok(c)
}

/// An input without an end, as far as the command is concerned, whose output
/// nobody reads any more.
fn endless(r: &mut Rng) -> Case {
    let names = [
        "filter", "concat", "explode", "hash", "print", "select", "convert", "invalid", "slice",
        "check",
    ];
    let name = *r.pick(&names);
    let p = Prof { bad: name == "invalid", big: false, huge: &[], ..prof(r, name) };
    let mut c = draw_p(r, name, p, |g, c| {
        let d = g.data_n(100);
        c.inputs = vec![Input::new("-", d)];
        c.cmd.out = None;
        c.cmd.progress = false;
        c.cmd.append = c.cmd.tee.is_some() && c.cmd.append;
        c.cmd.skip = true;
        c.cmd.limit = None;
        c.cmd.gzip = false;
        c.world.rd = Policy::default();
        c.world.wr = Policy::default();
    });
    let n = c.inputs[0].data.0.len().max(1);
    c.x = vec![3, (1 << 20) / n as i64];
    c.world.stdout_budget = Some((r.below(20_000) as i64, libc::EPIPE));
    c
}

/// Buffers of a command may hold back this much.
const HELD: usize = 96 << 10;

/// What was written by the time the end of the output could have been
/// noticed, if it had been noticed late.
fn j_endless(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let mut big = c.clone();
    let n = c.x.get(1).copied().unwrap_or(1).clamp(1, 1 << 20) as usize;
    let mut data = big.inputs[0].data.0.clone();
    if data.last().is_some_and(|b| *b != b'\n') {
        data.push(b'\n');
    }
    big.inputs[0].data = B(data.repeat(n));
    big.world.stdin_stall = false;
    let o = run(w, &big)?;
    if o.panicked() {
        return Ok(Verdict::Bad(format!("panic [{}]", o.err_text())));
    }
    let read = o.chan(STDIN).map(|x| x.rbytes).unwrap_or(0) as usize;
    let Some(k) = read.checked_sub(HELD) else {
        return Ok(Verdict::Held(piped(&big, &o)));
    };
    let d = &big.inputs[0].data.0[..k.min(big.inputs[0].data.0.len())];
    let k = d.iter().rposition(|b| *b == b'\n').map(|p| p + 1).unwrap_or(0);
    let d = d[..k].to_vec();
    let budget = big.world.stdout_budget.map(|b| b.0).unwrap_or(0) as usize;
    big.inputs[0].data = B(d);
    big.world.stdout_budget = None;
    let o = run(w, &big)?;
    if o.end == End::Exit(0) && o.stdout.len() > budget + HELD {
        return Ok(Verdict::Bad(format!(
            "closed pipe: {read} bytes of input were read, {} bytes of output were due \
             after the first {k} and nobody read more than {budget}",
            o.stdout.len(),
        )));
    }
    Ok(Verdict::Held(true))
}

fn j12(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    if c.x.first() == Some(&3) && c.inputs.len() == 1 && c.inputs[0].name == "-" {
        return j_endless(w, c);
    }
    if c.cmd.raw.is_some() {
        let o = run(w, c)?;
        if o.end != End::Exit(0) || chatter(&c.cmd, &o.stderr) {
            return Ok(Verdict::Bad(format!(
                "closed pipe: ended with {:?} and {}",
                o.end,
                show(&o.stderr)
            )));
        }
        return Ok(Verdict::Held(true));
    }
    let e = expect(c);
    let o = run(w, c)?;
    if c.world.stdin_stall {
        if e.limited && e.fail.is_none() {
            if o.end == End::Stall {
                return Ok(Verdict::Bad(
                    "waits for more input after the limit was reached".into(),
                ));
            }
            return verdict(conform(c, &e, &o), true);
        }
        if o.panicked() {
            return Ok(Verdict::Bad(format!("panic [{}]", o.err_text())));
        }
        return Ok(Verdict::Held(false));
    }
    if !piped(c, &o) {
        return verdict(survive(c, &e, &o), false);
    }
    if o.end != End::Exit(0) || chatter(&c.cmd, &o.stderr) {
        return Ok(Verdict::Bad(format!(
            "closed pipe: ended with {:?} and {}",
            o.end,
            show(&o.stderr)
        )));
    }
    if let Err(m) = prefixes(c, &e, &o) {
        return Ok(Verdict::Bad(format!("closed pipe: {m}")));
    }
    if let Some(k) = o
        .events
        .iter()
        .position(|v| v.chan == 1 && v.kind as u32 == K_WRITE && v.err == libc::EPIPE)
    {
        // The decoder of a compressed input reads pieces of up to 32 KiB,
        // a piece the world may have cut up further.
        let got: i64 = o.events[k..]
            .iter()
            .filter(|v| v.kind as u32 == K_READ && v.ret > 0)
            .map(|v| v.ret as i64)
            .sum();
        if got > 65_536 {
            return Ok(Verdict::Bad(format!(
                "closed pipe: {got} more bytes of input were read afterwards"
            )));
        }
    }
    Ok(Verdict::Held(true))
}

// ---- C13 determinism -------------------------------------------------

fn d13(r: &mut Rng, _: &mut Worker) -> HResult<Case> {
    if r.pct(2) {
        let mut c = words(r);
        for _ in 0..2 {
            let mut x = words(r).world;
            x.tty = c.world.tty;
            x.notty = c.world.notty;
            c.worlds.push(x);
        }
        return Ok(c);
    }
    let name = if r.pct(3) {
        "describe"
    } else if r.pct(45) {
        *r.pick(&["check", "frequency", "partition", "split", "select"])
    } else {
        *r.pick(&ALL)
    };
    Ok(draw(r, name, |g, c| {
        if name == "sample" {
            c.cmd.seed = Some(g.r.below(99) as u64);
        }
        for _ in 0..2 {
            let mut x = g.rough();
            x.tty = c.world.tty;
            x.notty = c.world.notty;
            c.worlds.push(x);
        }
    }))
}

fn j13(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let disk = c.disk();
    let a = w.run_on(&disk, &c.proc())?;
    if a.panicked() {
        return Ok(Verdict::Bad(format!("panic [{}]", a.err_text())));
    }
    for x in &c.worlds {
        let b = w.run_on(&disk, &c.proc_in(x))?;
        if a.end != b.end {
            return Ok(Verdict::Bad(format!("{:?} in one run, {:?} in another", a.end, b.end)));
        }
        if a.stdout != b.stdout {
            return Ok(Verdict::Bad(format!(
                "stdout differs between runs: {} / {}",
                show(&a.stdout),
                show(&b.stdout)
            )));
        }
        if !c.cmd.progress && a.stderr != b.stderr {
            return Ok(Verdict::Bad(format!(
                "stderr differs between runs: {} / {}",
                show(&a.stderr),
                show(&b.stderr)
            )));
        }
        for (k, v) in &a.files {
            if b.files.get(k) != Some(v) {
                return Ok(Verdict::Bad(format!(
                    "{k} differs between runs: {} / {}",
                    show(&v.0),
                    b.files.get(k).map(|x| show(&x.0)).unwrap_or("missing".into())
                )));
            }
        }
        if a.files.len() != b.files.len() {
            return Ok(Verdict::Bad("the runs leave different files".into()));
        }
    }
    Ok(Verdict::Held(!a.stdout.is_empty() || a.files.len() > disk.len()))
}

// ---- C14 sample ------------------------------------------------------

fn d14(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    if r.pct(6) {
        // can every record be drawn?
        let g = Gen::new(r, Prof { bad: false, ..PROF });
        let n = g.r.range(2, 6);
        let mut c = Case {
            cmd: Cmd { name: "sample".into(), ..Default::default() },
            ..Default::default()
        };
        let mut d = Vec::new();
        for i in 0..n {
            d.extend(format!("003@ \x1f0{i}\x1e\n").bytes());
        }
        c.inputs = vec![Input::new("-", d)];
        c.cmd.n = g.r.range(1, n - 1);
        c.x = vec![1, n as i64];
        c.world.seed = g.r.u64();
        return Ok(c);
    }
    let mut c = draw(r, "sample", |g, c| {
        if g.r.pct(50) {
            // the same lines in another arrangement, another world
            c.cmd.seed = Some(g.r.below(50) as u64);
            c.cmd.skip = true;
            let x = g.rough();
            c.worlds.push(x);
        }
        c.cmd.skip |= g.r.pct(50);
    });
    some_faults(r, w, &mut c, 8)?;
    Ok(c)
}

fn j14(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    if let [1, n] = c.x[..] {
        let n = n as usize;
        let mut seen = vec![0u32; n];
        // the chance to miss a record that can be drawn is below 1e-9
        let draws = 24 * n / c.cmd.n.max(1) + 30;
        let ls: Vec<Vec<u8>> =
            lines(&c.inputs[0].data.0).iter().map(|l| l.to_vec()).collect();
        for k in 0..draws {
            let mut world = c.world.clone();
            world.seed = mix(c.world.seed ^ k as u64);
            let o = w.run_on(&c.disk(), &c.proc_in(&world))?;
            let mut one = c.clone();
            one.world = world;
            if let Err(m) = survive(&one, &expect(&one), &o) {
                return Ok(Verdict::Bad(m));
            }
            for l in lines(&o.stdout) {
                if let Some(i) = ls.iter().position(|x| x == l) {
                    seen[i] += 1;
                }
            }
        }
        let never: Vec<usize> = (0..ls.len()).filter(|i| seen[*i] == 0).collect();
        if never == [0] && c.cmd.n == 1 && ls.len() > 1 {
            return Ok(Verdict::Known("sample-1-first-record".into()));
        }
        if !never.is_empty() {
            return Ok(Verdict::Bad(format!(
                "records {never:?} of {} are never drawn in {draws} runs with SAMPLE_SIZE {}",
                ls.len(),
                c.cmd.n
            )));
        }
        return Ok(Verdict::Held(true));
    }
    let e = expect(c);
    let o = run(w, c)?;
    if let Err(m) = survive(c, &e, &o) {
        return Ok(Verdict::Bad(m));
    }
    let more = e.outs.values().any(|x| match &x.kind {
        Kind::Sample { cands, n } => cands.len() > *n,
        _ => false,
    });
    if let Some(x) = c.worlds.first()
        && o.end == End::Exit(0)
        && e.fail.is_none()
        && c.inputs.iter().rev().skip(1).all(|i| {
            i.data.0.is_empty() || i.data.0.ends_with(b"\n")
        })
    {
        let mut c2 = c.clone();
        let d = c.inputs.iter().flat_map(|i| i.data.0.clone()).collect();
        c2.inputs = vec![Input::new("again.dat", d)];
        c2.world = x.clone();
        let o2 = run(w, &c2)?;
        for (k, x) in &e.outs {
            let dec = |o: &Outcome| {
                let g = output_of(o, k).unwrap_or_default();
                if x.gz { gunzip(&g).data } else { g }
            };
            if dec(&o) != dec(&o2) {
                return Ok(Verdict::Bad(format!(
                    "the same seed draws {} from one arrangement and {} from another",
                    show_n(&dec(&o), 200),
                    show_n(&dec(&o2), 200)
                )));
            }
        }
    }
    Ok(Verdict::Held(more))
}

// ---- C15 concat, C16 slice -------------------------------------------

fn d15(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let mut c = draw(r, "concat", |g, c| {
        c.cmd.unique = g.r.pct(75);
        if !c.cmd.unique {
            c.cmd.mode.clear();
        }
        c.cmd.skip |= g.r.pct(60);
    });
    some_faults(r, w, &mut c, 10)?;
    Ok(c)
}

fn j15(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let mut keys = std::collections::BTreeSet::new();
    let rep = stream(c).iter().any(|l| {
        l.rec.as_ref().is_some_and(|x| !keys.insert(x.ppn().map(|p| p.to_vec())))
    });
    let v = plain(w, c, wrote)?;
    Ok(match v {
        Verdict::Held(_) => Verdict::Held(rep),
        v => v,
    })
}

fn d16(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let mut c = draw(r, "slice", |g, c| {
        if g.r.pct(4) {
            // an empty range
            c.cmd.length = 0;
            c.cmd.n = g.r.range(2, 9);
            c.cmd.end = g.r.range(1, c.cmd.n);
        }
        c.cmd.skip |= g.r.pct(60);
    });
    some_faults(r, w, &mut c, 10)?;
    Ok(c)
}

fn j16(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    plain(w, c, |e, o| wrote(e, o) && e.used > 1)
}

// ---- C17 progress ----------------------------------------------------

fn d17(r: &mut Rng, _: &mut Worker) -> HResult<Case> {
    let names = [
        "filter", "concat", "count", "explode", "hash", "print", "sample",
        "select", "frequency", "slice", "partition", "split", "convert",
        "check", "invalid",
    ];
    let name = if r.pct(2) { "describe" } else { *r.pick(&names) };
    Ok(draw(r, name, |g, c| {
        if c.cmd.out.is_none() && name != "partition" && name != "split" {
            c.cmd.out = Some("out.dat".into());
            if name == "filter" {
                c.cmd.tee = None;
            }
        }
        if name == "sample" {
            c.cmd.seed = Some(7);
        }
        c.cmd.progress = true;
        c.world.tty = g.r.pct(70);
        c.world.clock = *g.r.pick(&[0, 1, 1, 2]);
        if g.r.pct(50) {
            c.world.faults.push(Fault {
                path: ANY.into(),
                kind: K_CLOCK,
                ord: g.r.below(30) as u32,
                action: A_CLOCKJUMP,
                arg: *g.r.pick(&[
                    -3_600_000_000_000i64,
                    3_600_000_000_000,
                    150_000_000,
                    86_400_000_000_000_000,
                    -1_000,
                ]),
            });
        }
        if g.r.pct(15) {
            // the terminal goes away
            c.world.faults.push(Fault {
                path: STDERR.into(),
                kind: K_WRITE,
                ord: g.r.below(4) as u32,
                action: A_STICKY,
                arg: libc::EIO as i64,
            });
        }
    }))
}

fn j17(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let e = expect(c);
    let mut off = c.clone();
    off.cmd.progress = false;
    off.world = World { seed: c.world.seed, ..Default::default() };
    let a = run(w, &off)?;
    let b = run(w, c)?;
    if let Err(m) = conform(&off, &e, &a) {
        return Ok(Verdict::Bad(format!("without --progress: {m}")));
    }
    if b.panicked() {
        return Ok(Verdict::Bad(format!("panic [{}]", b.err_text())));
    }
    if a.end != b.end || a.stdout != b.stdout {
        return Ok(Verdict::Bad(format!(
            "{:?} and {} without --progress, {:?} and {} with it [{}]",
            a.end,
            show(&a.stdout),
            b.end,
            show(&b.stdout),
            show(&b.stderr)
        )));
    }
    if a.files != b.files {
        return Ok(Verdict::Bad("the files differ with --progress".into()));
    }
    Ok(Verdict::Held(n_lines(c) > 0))
}

// ---- C28 the counts of the progress display ------------------------

fn d28(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let names = [
        "filter", "concat", "count", "explode", "hash", "print", "sample",
        "select", "frequency", "slice", "partition", "split", "convert",
        "check", "invalid",
    ];
    let name = if r.pct(2) { "describe" } else { *r.pick(&names) };
    let mut c = draw(r, name, |g, c| {
        if c.cmd.out.is_none() && name != "partition" && name != "split" {
            c.cmd.out = Some("out.dat".into());
            if name == "filter" {
                c.cmd.tee = None;
            }
        }
        if g.r.pct(80) {
            c.cmd.skip = true;
        }
        if g.r.pct(5) {
            // numbers with separators
            let i = &mut c.inputs[0];
            let n = 1000 / lines(&i.data.0).len().max(1) + 1;
            if i.data.0.ends_with(b"\n") && i.data.0.len() * n < 400_000 {
                i.data = B(i.data.0.repeat(n));
                i.members.clear();
            }
        }
        c.cmd.progress = true;
        c.world.tty = true;
        c.world.notty &= 3;
        c.world.clock = *g.r.pick(&[0, 1, 1, 2, 2]);
        if g.r.pct(30) {
            c.world.faults.push(Fault {
                path: ANY.into(),
                kind: K_CLOCK,
                ord: g.r.below(30) as u32,
                action: A_CLOCKJUMP,
                arg: *g.r.pick(&[
                    -3_600_000_000_000i64,
                    3_600_000_000_000,
                    150_000_000,
                    -1_000,
                ]),
            });
        }
    });
    if r.pct(25) {
        let d = dry(w, &c)?;
        let kinds = [K_READ, K_WRITE, K_OPEN];
        let acts = [A_ERR, A_STICKY, A_SHORT, A_CRASH_BEFORE];
        let f = fault(r, &d, &kinds, &|_| true, &acts);
        c.world.faults.extend(f.filter(|f| f.path != STDERR));
    }
    Ok(c)
}

/// the pairs of counts shown
fn shown(stderr: &[u8]) -> Vec<(usize, usize)> {
    let s = String::from_utf8_lossy(stderr);
    let num = |s: &str| {
        let n: String = s
            .chars()
            .rev()
            .take_while(|c| c.is_ascii_digit() || *c == ',')
            .collect();
        let n: String = n.chars().rev().filter(|c| *c != ',').collect();
        n.parse::<usize>().ok()
    };
    let mut v = Vec::new();
    for part in s.split(" invalid |").collect::<Vec<_>>().split_last().map(|x| x.1).unwrap_or(&[]) {
        if let Some((a, b)) = part.rsplit_once(" records, ")
            && let (Some(a), Some(b)) = (num(a), num(b))
        {
            v.push((a, b));
        }
    }
    v
}

fn j28(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let e = expect(c);
    let o = run(w, c)?;
    if o.panicked() {
        return Ok(Verdict::Bad(format!("panic [{}]", o.err_text())));
    }
    // what has been read after each line
    let mut at = vec![(0, 0)];
    for l in stream(c) {
        let (v, i) = at[at.len() - 1];
        at.push(if l.rec.is_some() { (v + 1, i) } else { (v, i + 1) });
    }
    let seen = shown(&o.stderr);
    let mut k = 0;
    for s in &seen {
        match at[k..].iter().position(|x| x == s) {
            Some(n) => k += n,
            None => {
                return Ok(Verdict::Bad(format!(
                    "the display shows {} valid and {} invalid records, at \
                     no time after {:?} had these been read [{}]",
                    s.0,
                    s.1,
                    at[k],
                    show(&o.stderr)
                )));
            }
        }
    }
    let on = c.cmd.progress && c.world.tty && c.world.notty & 4 == 0;
    if on && o.end == End::Exit(0) && n_lines(c) > 0 {
        let all = at[at.len() - 1];
        // how far is read to find the end of the slice is open
        let open = e.limited || c.cmd.name == "slice";
        let last = seen.last().copied();
        if last.is_none_or(|l| l != all && !open) {
            return Ok(Verdict::Bad(format!(
                "{} valid and {} invalid records were read, at the end the \
                 display shows {last:?} [{}]",
                all.0,
                all.1,
                show(&o.stderr)
            )));
        }
        if e.limited && k < e.used {
            return Ok(Verdict::Bad(format!(
                "the last of {} records read is missing: {last:?} [{}]",
                e.used,
                show(&o.stderr)
            )));
        }
    }
    Ok(Verdict::Held(!seen.is_empty()))
}

// ---- C29 memory does not grow with the input -----------------------

/// what has to be remembered depends on the values, not on the records
fn by_value(c: &Cmd) -> bool {
    let rule = |r: &Rule| r.check == "duplicates" || r.check == "link";
    match c.name.as_str() {
        "concat" | "select" => c.unique || !c.mode.is_empty(),
        "frequency" | "partition" | "describe" => true,
        "check" => c.rulesets.iter().any(|s| s.rules.iter().any(rule)),
        _ => false,
    }
}

/// The inputs of the case over and over again until there are that many
/// lines. Every record has a number of its own, unless the command remembers
/// values.
fn grown(c: &Case, n: usize) -> Case {
    let mut big = c.clone();
    let vary = !by_value(&c.cmd);
    let have = n_lines(c).max(1);
    let mut nth = 0;
    for i in &mut big.inputs {
        let ls: Vec<(bool, Vec<u8>)> = lines(&i.data.0)
            .into_iter()
            .map(|l| {
                let mut l = l.to_vec();
                if l.last() != Some(&b'\n') {
                    l.push(b'\n');
                }
                (vary && Rec::parse(&l).is_some(), l)
            })
            .collect();
        let mut out = Vec::new();
        for k in 0..n.div_ceil(have) {
            for (rec, l) in &ls {
                if !rec {
                    out.extend(l);
                    continue;
                }
                nth += 1;
                let id = format!("{nth:09}");
                out.extend(format!("003@ \u{1f}0{id}\u{1e}").as_bytes());
                // every other time the values are new, too
                let mut rec = Rec::parse(l).unwrap();
                if k % 2 == 1 {
                    for f in &mut rec.fields {
                        for (_, v) in f.subs.iter_mut().take(3) {
                            v.extend(id.as_bytes());
                        }
                    }
                }
                out.extend(rec.bytes());
            }
        }
        i.data = B(out);
        i.members.clear();
    }
    big
}

fn d29(r: &mut Rng, _: &mut Worker) -> HResult<Case> {
    let names = [
        "filter", "concat", "count", "explode", "hash", "print", "sample",
        "select", "frequency", "slice", "partition", "split", "convert",
        "check", "invalid", "filter", "filter", "concat", "convert",
    ];
    let name = if r.pct(1) { "describe" } else { *r.pick(&names) };
    let mut p = prof(r, name);
    p.big = false;
    p.huge = &[];
    let mut c = draw_p(r, name, p, |g, c| {
        if g.r.pct(90) {
            c.cmd.skip = true;
        }
        if g.r.pct(85) {
            c.cmd.limit = None;
        }
        if g.r.pct(50) && name != "filter" {
            c.cmd.expr = None;
            c.cmd.and.clear();
            c.cmd.or.clear();
            c.cmd.not.clear();
            c.cmd.expr_file = None;
        }
    });
    let slow = |a: &B| {
        [&b"=~"[..], b"!~", b"=*", b"!*"]
            .iter()
            .any(|op| a.0.windows(2).any(|w| w == *op))
    };
    let slow = c.argv().iter().any(slow)
        || c.files.values().any(slow)
        || c.cmd.name == "check";
    let n = n_lines(&c).max(1);
    let bytes: usize = c.inputs.iter().map(|i| i.data.0.len()).sum();
    let room = 2_500_000 / (bytes / n + 20).max(1);
    let most = if slow { 1_400 } else { room.clamp(1_400, 12_000) };
    let part = if c.cmd.name == "split" { 8 } else { 16 };
    let few = (most / part).max(n * 2).min(most);
    let valid = stream(&c).iter().filter(|l| l.rec.is_some()).count();
    let c2 = &mut c.cmd;
    match c2.name.as_str() {
        "split" => {
            // the larger one makes more parts, and so does the smaller one
            let base = Cmd::default();
            c2.expr = None;
            c2.expr_file = None;
            c2.limit = None;
            (c2.and, c2.or, c2.not) = (base.and, base.or, base.not);
            (c2.allow, c2.deny) = (base.allow, base.deny);
            c2.n = few * valid / n / 6 + 1;
        }
        "sample" => c2.n = c2.n.min(few / 2).min(40),
        "slice" if r.pct(70) => {
            c2.n = r.below(few);
            c2.end = 0;
            c2.length = 0;
        }
        _ => {}
    }
    c.x = vec![few as i64, most as i64];
    let mut big = grown(&c, most);
    tame(&mut big);
    c.world = big.world;
    Ok(c)
}

fn j29(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let [few, most] = c.x[..] else { return herr("bad case") };
    let mut small = grown(c, few as usize);
    small.world.heap = Some(1 << 40);
    let a = run(w, &small)?;
    if !matches!(a.end, End::Exit(_)) {
        return verdict(survive(&small, &expect(&small), &a), false);
    }
    let longest = small
        .inputs
        .iter()
        .flat_map(|i| lines(&i.data.0))
        .map(|l| l.len())
        .max()
        .unwrap_or(0) as i64;
    let mut slack = 32_768 + 8 * longest;
    if c.cmd.name == "sample" {
        // records of other sizes may be drawn
        slack += 12 * c.cmd.n as i64 * longest;
    }
    let mut big = grown(c, most as usize);
    big.world.heap = Some(a.heap + slack);
    let e = expect(&big);
    let o = run(w, &big)?;
    if o.denied > 0 {
        return Ok(Verdict::Bad(format!(
            "{} lines need {} bytes of memory, for {} lines {} bytes more \
             were not enough [{:?} {}]",
            n_lines(&small),
            a.heap,
            n_lines(&big),
            slack,
            o.end,
            o.err_text()
        )));
    }
    verdict(survive(&big, &e, &o), e.fail.is_none() && n_lines(&big) > 1000)
}

// ---- C18 configuration -----------------------------------------------

fn d18(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    crate::conf::draw(r, w)
}

fn j18(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    crate::conf::judge(w, c)
}

// ---- C19 nothing else is touched -------------------------------------

fn d19(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let name = name_of(r);
    let mut c = draw(r, name, |g, c| {
        // no such directory, or none at all
        if g.r.pct(8) {
            let dir = *g.r.pick(&["nowhere/", "nowhere/below/", "keep.txt/"]);
            if let Some(o) = &mut c.cmd.out {
                *o = format!("{dir}{o}");
            } else if let Some(o) = &mut c.cmd.tee {
                *o = format!("{dir}{o}");
            }
            if dir == "keep.txt/" {
                c.files.insert("keep.txt".into(), "a file".into());
            }
        }
    });
    // what lies around and is nobody's business
    let near = [
        "home/.config/pica/notes", "home/.config/x", "home/.config/pica/",
        "home/.config/pica/config.toml.bak", "home/.config/pica/config.toml.tmp",
        "home/", "out.tmp", "out.csv~", "a.dat.gz", "a.dat.bak", "tmp/x",
        "sub/keep", "empty/", "parts/", "res/0.dat.old", ".pica", "pica.toml",
        "config.toml", "out.csv.part", "1.tmp",
    ];
    if r.pct(60) {
        for _ in 0..r.range(1, 4) {
            let f = *r.pick(&near);
            if !c.disk().contains_key(f)
                && !c.cmd.progress
                && !expect(&c).outs.contains_key(f)
            {
                c.files.insert(f.into(), if f.ends_with('/') { B::default() } else { "bystander".into() });
            }
        }
    }
    if r.pct(60) {
        let d = dry(w, &c)?;
        for _ in 0..r.range(1, 3) {
            let f = fault(
                r,
                &d,
                &[K_READ, K_WRITE, K_OPEN, K_CLOSE, K_MKDIR, K_TRUNC],
                &|_| true,
                &[A_ERR, A_STICKY, A_CRASH_BEFORE, A_SHORT],
            );
            c.world.faults.extend(f.filter(|f| f.path != STDERR));
        }
    }
    Ok(c)
}

fn j19(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let e = expect(c);
    let o = run(w, c)?;
    let nowhere =
        |k: &str| k.starts_with("nowhere/") || k.starts_with("keep.txt/");
    let mine = |k: &str| e.outs.contains_key(k) && !nowhere(k);
    if let Err(m) = untouched(&c.disk(), &o.files, &mine) {
        return Ok(Verdict::Bad(format!("{m} [{:?} {}]", o.end, show(&o.stderr))));
    }
    if o.escapes > 0 {
        return Ok(Verdict::Bad(format!("tried to change {} outside", o.escape_path)));
    }
    if let Some(k) = o.relinked.first() {
        return Ok(Verdict::Bad(format!(
            "the symbolic link {k} was replaced, or such a file appeared beside its target"
        )));
    }
    // no directory but those of the outputs
    let dir = matches!(c.cmd.name.as_str(), "partition" | "split")
        .then(|| c.cmd.outdir.as_deref())
        .flatten();
    for d in &o.dirs {
        let under = |f: &str| f.starts_with(d.as_str()) && f[d.len()..].starts_with('/');
        if !(c.disk().keys().any(|k| under(k))
            || e.outs.keys().any(|k| under(k) && !nowhere(k))
            || dir.is_some_and(|x| x == d || under(x)))
        {
            return Ok(Verdict::Bad(format!("directory {d} was created")));
        }
    }
    Ok(Verdict::Held(disturbed(&o) || wrote(&e, &o)))
}

// ---- C20..C23, C26 contents ------------------------------------------

fn d20(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let mut c = draw(r, "check", |g, c| {
        c.cmd.skip |= g.r.pct(60);
        if g.r.pct(50) {
            c.cmd.limit = None;
        }
    });
    some_faults(r, w, &mut c, 6)?;
    Ok(c)
}

fn j20(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    plain(w, c, wrote)
}

fn d21(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let name = *r.pick(&["select", "select", "hash", "print"]);
    let mut c = draw(r, name, |g, c| c.cmd.skip |= g.r.pct(60));
    some_faults(r, w, &mut c, 8)?;
    Ok(c)
}

fn j21(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    plain(w, c, wrote)
}

fn d22(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let name = if r.pct(8) {
        "describe"
    } else {
        *r.pick(&["count", "frequency", "frequency"])
    };
    let mut c = draw(r, name, |g, c| c.cmd.skip |= g.r.pct(60));
    some_faults(r, w, &mut c, 8)?;
    Ok(c)
}

fn j22(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let e = expect(c);
    let o = run(w, c)?;
    if let Err(m) = survive(c, &e, &o) {
        return Ok(Verdict::Bad(m));
    }
    if o.end == End::Exit(0) && e.fail.is_none() {
        for (name, out) in &e.outs {
            if let Kind::Describe { table, delim: ARROW } = &out.kind
                && let Err(m) = arrow(w, name, table, &o)?
            {
                return Ok(Verdict::Bad(m));
            }
        }
    }
    Ok(Verdict::Held(wrote(&e, &o) && e.used > 0))
}

/// The columns of a table in the Arrow format hold the right values: the
/// command itself reads them, as a list of values to look for.
fn arrow(
    w: &mut Worker,
    name: &str,
    table: &BTreeMap<Vec<u8>, BTreeMap<u8, usize>>,
    o: &Outcome,
) -> HResult<Result<(), String>> {
    let mut codes: Vec<u8> = table.values().flat_map(|t| t.keys().copied()).collect();
    codes.sort();
    codes.dedup();
    let max = table.values().flat_map(|t| t.values().copied()).max().unwrap_or(0);
    let tags: Vec<String> =
        table.keys().map(|t| String::from_utf8_lossy(t).into_owned()).collect();
    let mut values: Vec<String> = tags.clone();
    values.extend((0..max + 3).map(|n| n.to_string()));
    values.extend(["field", "000@", "999Z"].map(|x| x.to_string()));
    let lines = |keep: &dyn Fn(&String) -> bool| -> Vec<u8> {
        values
            .iter()
            .filter(|v| keep(v))
            .flat_map(|v| format!("003@ \u{1f}0{v}\u{1e}\n").into_bytes())
            .collect()
    };
    let data = o.files.get(name).cloned().unwrap_or_default();
    let mut files = Files::new();
    files.insert("list.ipc".into(), data);
    files.insert("in.dat".into(), B(lines(&|_| true)));
    // one column after the other is too much
    let some = codes.iter().step_by(1 + codes.len() / 6);
    for col in std::iter::once(None).chain(some.map(Some)) {
        let want = match col {
            None => lines(&|v| tags.contains(v)),
            Some(c) => lines(&|v| {
                v.parse::<usize>()
                    .is_ok_and(|n| table.values().any(|t| t.get(c).copied().unwrap_or(0) == n))
            }),
        };
        let head = col.map(|c| (*c as char).to_string()).unwrap_or("field".into());
        let argv = [
            "filter".to_string(),
            "--allow-list=list.ipc".into(),
            format!("--filter-set-column={head}"),
            "003@.0?".into(),
            "in.dat".into(),
        ];
        let p = Proc {
            argv: argv.iter().map(|a| B::from(a.as_str())).collect(),
            stdin: B(Vec::new()),
            world: World::default(),
        };
        let x = w.run_on(&files, &p)?;
        if x.end != End::Exit(0) {
            return Ok(Err(format!("{name}: column {head} is not there: {}", show(&x.stderr))));
        }
        if x.stdout != want {
            return Ok(Err(format!(
                "{name}: column {head} holds other values: {} expected {}",
                show(&x.stdout),
                show(&want)
            )));
        }
    }
    Ok(Ok(()))
}

fn d23(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let mut c = draw(r, "convert", |g, c| c.cmd.skip |= g.r.pct(70));
    some_faults(r, w, &mut c, 8)?;
    Ok(c)
}

fn j23(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    plain(w, c, wrote)
}

fn d26(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let mut c = draw(r, "explode", |g, c| {
        c.cmd.skip |= g.r.pct(60);
        if g.r.pct(40) {
            c.cmd.expr = None;
            c.cmd.and.clear();
            c.cmd.or.clear();
            c.cmd.not.clear();
        }
    });
    some_faults(r, w, &mut c, 8)?;
    Ok(c)
}

fn j26(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    plain(w, c, wrote)
}

// ---- C27: several commands at once -----------------------------------

/// One of the commands that run together, as a case of its own; what a pipe
/// brings is not known yet.
fn stage(c: &Case, k: usize) -> Case {
    let piped = c.x.first() == Some(&0);
    let mut s = Case {
        cmd: if k == 0 { c.cmd.clone() } else { c.steps[k - 1].clone() },
        inputs: c.inputs.clone(),
        files: c.disk(),
        config_skip: c.config_skip,
        config_nf: c.config_nf.clone(),
        world: if k == 0 {
            c.world.clone()
        } else {
            c.worlds.get(k - 1).cloned().unwrap_or_default()
        },
        ..Default::default()
    };
    if piped && k > 0 {
        s.inputs = vec![Input::new("-", Vec::new())];
    }
    s
}

fn d27(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let n = if r.pct(30) { 3 } else { 2 };
    'again: for _ in 0..12 {
        let pipe = r.pct(75);
        let from =
            ["filter", "concat", "explode", "slice", "filter", "sample", "invalid", "convert"];
        // into one directory, which none of them has found yet
        let outdir = (!pipe && r.pct(25)).then(|| *r.pick(&["parts", "new/a", "x/y/z"]));
        let names: Vec<&str> = (0..n)
            .map(|k| {
                if outdir.is_some() {
                    *r.pick(&["split", "partition"])
                } else if pipe && k + 1 < n {
                    *r.pick(&from)
                } else {
                    name_of(r)
                }
            })
            .collect();
        let profile = |r: &mut Rng, name: &str| {
            let mut p = prof(r, name);
            p.big = false;
            p.huge = &[];
            if names.contains(&"partition") {
                p.maxval = 60;
            }
            p
        };
        let p = profile(r, names[0]);
        let mut c = draw_p(r, names[0], p, |g, c| {
            c.cmd.skip |= g.r.pct(60);
            if pipe && g.r.pct(70) {
                c.cmd.limit = None;
            }
        });
        for (k, name) in names.iter().enumerate().skip(1) {
            let p = profile(r, name);
            let mut g = Gen::new(r, p);
            let mut s = Case { cmd: g.cmd(name), ..Default::default() };
            g.furniture(&mut s);
            let w = g.rough();
            unbroken(&mut s.cmd);
            s.cmd.skip |= r.pct(60);
            // the inputs are called differently
            if s.cmd.name == "partition" {
                s.cmd.template = Some(format!("p{k}-{{}}"));
            }
            for (f, b) in s.files {
                if c.files.get(&f).is_some_and(|o| *o != b) {
                    continue 'again;
                }
                c.files.insert(f, b);
            }
            c.steps.push(s.cmd);
            c.worlds.push(w);
        }
        if let Some(d) = outdir {
            for (k, m) in std::iter::once(&mut c.cmd).chain(c.steps.iter_mut()).enumerate() {
                m.outdir = Some(d.into());
                m.template = Some(format!("{}{{}}", ["a", "b", "c"][k.min(2)]));
            }
        }
        c.x = vec![!pipe as i64, *r.pick(&[1, 7, 64, 512, 4096, 65536])];
        if pipe {
            for k in 0..n - 1 {
                let m = if k == 0 { &mut c.cmd } else { &mut c.steps[k - 1] };
                m.out = None;
                m.append &= m.tee.is_some();
                m.progress = false;
                m.gzip = false;
                if m.name == "convert" {
                    m.mode = "plus".into();
                }
            }
        }
        // nobody writes what another reads or writes
        let disk = c.disk();
        let mut outs: Vec<String> = Vec::new();
        let mut total = 0;
        let mut data = Vec::new();
        for k in 0..n {
            let mut s = stage(&c, k);
            // lists and rules of the same name are the same
            for (f, b) in (Case { files: Files::new(), ..s.clone() }).disk() {
                if disk.get(&f) != Some(&b) {
                    continue 'again;
                }
            }
            if pipe && k > 0 {
                s.inputs[0].data = B(std::mem::take(&mut data));
            }
            tame(&mut s);
            if k > 0 {
                c.worlds[k - 1] = s.world.clone();
            } else {
                c.world = s.world.clone();
            }
            let read = Case { files: Files::new(), ..c.clone() }.disk();
            for f in expect(&s).outs.into_keys().filter(|f| !f.starts_with('<')) {
                if read.contains_key(&f) || outs.contains(&f) {
                    continue 'again;
                }
                outs.push(f);
            }
            let d = dry(w, &s)?;
            total += d.stdout.len();
            if r.pct(25) {
                let f = fault(
                    r,
                    &d,
                    &[K_READ, K_WRITE, K_OPEN, K_CLOSE],
                    &|p| p != STDERR && p != ANY,
                    &[A_STICKY, A_CRASH_BEFORE, A_CRASH_PARTIAL],
                )
                .filter(|f| f.kind != K_CLOSE || f.action == A_CRASH_BEFORE);
                let m = if k == 0 { &mut c.world } else { &mut c.worlds[k - 1] };
                m.faults.extend(f);
            }
            data = d.stdout;
        }
        c.x[1] = c.x[1].max(total as i64 / 400);
        let turns = r.range(50, 900);
        c.sched = r.sched(turns, n);
        return Ok(c);
    }
    Ok(draw(r, "count", |_, c| c.x = vec![1, 1]))
}

fn j27(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let pipe = c.x.first() == Some(&0);
    let cap = c.x.get(1).copied().unwrap_or(1).clamp(1, 65536) as u32;
    let n = 1 + c.steps.len();
    let stages: Vec<Case> = (0..n).map(|k| stage(c, k)).collect();
    let procs: Vec<Proc> = stages.iter().map(|s| s.proc()).collect();
    let pipes: Vec<Pipe> = if pipe {
        (1..n).map(|k| Pipe { from: k - 1, to: k, cap }).collect()
    } else {
        Vec::new()
    };
    w.reset(&c.disk())?;
    let m = w.run_many(&procs, &pipes, &c.sched, &mut |_| None)?;
    let line = |k: usize| {
        let v: Vec<String> = procs[k].argv.iter().map(|a| show(&a.0)).collect();
        format!("command {} of {n}, {}", k + 1, v.join(" "))
    };
    if m.deadlock {
        return Ok(Verdict::Bad("the commands wait for each other".into()));
    }
    let mut sound = Vec::new();
    for (k, mut s) in stages.into_iter().enumerate() {
        if pipe && k > 0 {
            s.inputs[0].data = B(m.outs[k - 1].stdout.clone());
        }
        let e = expect(&s);
        sound.push((s, e));
    }
    let mut hit = false;
    for k in 0..n {
        let (s, e) = &sound[k];
        // only what is this command's
        let others = |f: &str| {
            sound.iter().enumerate().any(|(i, x)| i != k && x.1.outs.contains_key(f))
        };
        let mut s = s.clone();
        let mut o = m.outs[k].clone();
        s.files.retain(|f, _| !others(f));
        o.files.retain(|f, _| !others(f));
        let closed = piped(&s, &o);
        if closed
            && s.world.faults.is_empty()
            && e.fail.is_none()
            && (o.end != End::Exit(0) || chatter(&s.cmd, &o.stderr) && !s.cmd.progress)
        {
            return Ok(Verdict::Bad(format!(
                "{}: its reader has ended, and it ended with {:?} and {}",
                line(k),
                o.end,
                show(&o.stderr)
            )));
        }
        hit |= closed || k > 0 && (!pipe || !s.inputs[0].data.0.is_empty());
        if let Err(x) = survive(&s, e, &o) {
            return Ok(Verdict::Bad(format!("{}: {x}", line(k))));
        }
    }
    Ok(Verdict::Held(hit))
}
