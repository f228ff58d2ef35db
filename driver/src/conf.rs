//! C18: histories of configuration commands, each of which may be killed or
//! fail at any call, with commands in between that depend on the options.

use crate::bytes::{B, show};
use crate::case::*;
use crate::r#gen::*;
use crate::prop::Verdict;
use crate::rng::Rng;
use crate::shm::*;
use crate::sim::*;

#[derive(Clone, Debug, PartialEq, Eq)]
struct State {
    skip: bool,
    nf: Option<String>,
}

const FORMS: [&str; 4] = ["nfc", "nfd", "nfkc", "nfkd"];
const BROKEN: [&str; 5] = [
    "skip-invalid = maybe\n",
    "skip-inv",
    "skip-invalid = true\nnormalization = \"xyz\"\n",
    "= = =\n",
    "skip-invalid = true\nnormalization = \"nf",
];
const OTHER: &str = "conf/my.toml";

impl State {
    fn toml(&self) -> String {
        let mut s = format!("skip-invalid = {}\n", self.skip);
        if let Some(n) = &self.nf {
            s.push_str(&format!("normalization = \"{n}\"\n"));
        }
        s
    }

    /// what a configuration file says; no reading means damaged
    fn parse(b: &[u8]) -> Option<State> {
        let s = std::str::from_utf8(b).ok()?;
        let mut skip = None;
        let mut nf = None;
        for l in s.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let (k, v) = l.split_once('=')?;
            match k.trim() {
                "skip-invalid" => {
                    skip = Some(match v.trim() {
                        "true" => true,
                        "false" => false,
                        _ => return None,
                    })
                }
                "normalization" => {
                    let v = v.trim().strip_prefix('"')?.strip_suffix('"')?;
                    let v = v.to_lowercase();
                    if !FORMS.contains(&v.as_str()) {
                        return None;
                    }
                    nf = Some(v);
                }
                _ => return None,
            }
        }
        Some(State { skip: skip?, nf })
    }
}

fn argv(words: &[String], other: bool) -> Vec<B> {
    let mut v: Vec<B> = Vec::new();
    if other {
        v.push(B::from("-c"));
        v.push(B::from(OTHER));
    }
    v.extend(words.iter().map(|w| B::from(w.as_str())));
    v
}

fn words(r: &mut Rng) -> Vec<String> {
    let key = if r.pct(50) { "skip-invalid" } else { "normalization" };
    let w: Vec<&str> = match r.below(20) {
        0..=11 => {
            let val = if r.pct(4) {
                "bogus"
            } else if key == "skip-invalid" {
                *r.pick(&["true", "false"])
            } else {
                *r.pick(&FORMS)
            };
            if r.pct(60) {
                vec!["config", "--set", key, val]
            } else {
                vec!["config", key, val]
            }
        }
        12..=14 => vec!["config", "--unset", key],
        15 => vec!["config", "--get", key],
        16 => vec!["config", key],
        17 => vec!["config", "--set", "no-such-option", "1"],
        18 => vec!["count", "--records", "bad.dat"],
        _ => vec!["filter", "002@.a == '\u{e9}'", "forms.dat"],
    };
    w.into_iter().map(|s| s.to_string()).collect()
}

/// one composed, one decomposed e with acute
const NFC_LINE: &[u8] = b"002@ \x1fa\xc3\xa9\x1e\n";
const NFD_LINE: &[u8] = b"002@ \x1fae\xcc\x81\x1e\n";

pub fn draw(r: &mut Rng, w: &mut Worker) -> HResult<Case> {
    let mut c = Case::default();
    let other = r.pct(20);
    let path = if other { OTHER } else { CONFIG };
    c.files.insert("conf/".into(), B(Vec::new()));
    c.files.insert("bad.dat".into(), B::from("003@ \x1f01\x1e\nbad line\n003@ \x1f02\x1e\n"));
    c.files.insert("forms.dat".into(), B([NFC_LINE, NFD_LINE].concat()));
    let kind = match r.below(10) {
        0..=2 => 0,
        9 => 2,
        _ => 1,
    };
    match kind {
        0 => {}
        1 => {
            let s = State {
                skip: r.pct(50),
                nf: if r.pct(60) { Some(r.pick(&FORMS).to_string()) } else { None },
            };
            c.files.insert(path.into(), B::from(s.toml().as_str()));
        }
        _ => {
            c.files.insert(path.into(), B::from(*r.pick(&BROKEN)));
        }
    }
    // one after the other, or at the same time
    let together = kind != 2 && r.pct(40);
    c.x = vec![kind, other as i64, together as i64];
    let n = if together { r.range(2, 3) } else { r.range(1, 4) };
    for _ in 0..n {
        c.steps.push(Cmd { words: words(r), ..Default::default() });
        let mut g = Gen::new(r, PROF);
        let mut x = g.rough();
        x.wr.max = x.wr.max.min(64);
        c.worlds.push(x);
    }
    if together {
        let turns = r.range(20, 120);
        c.sched = r.sched(turns, n);
    }
    if r.pct(if together { 40 } else { 80 }) {
        // one run is killed or meets a failure
        let k = r.below(n);
        let p = Proc {
            argv: argv(&c.steps[k].words, other),
            stdin: B(Vec::new()),
            world: c.worlds[k].clone(),
        };
        let d = w.run_on(&c.files, &p)?;
        let kinds =
            [K_OPEN, K_READ, K_WRITE, K_CLOSE, K_FSYNC, K_RENAME, K_MKDIR, K_UNLINK, K_TRUNC];
        for _ in 0..r.range(1, 2) {
            let mut at = Vec::new();
            for ch in d.chans.iter().filter(|x| x.path != ANY && x.path != STDERR) {
                for kd in kinds {
                    if ch.counts[kd as usize] > 0 {
                        at.push((ch.path.clone(), kd, ch.counts[kd as usize]));
                    }
                }
            }
            if at.is_empty() {
                continue;
            }
            let (path, kind, n) = r.pick(&at).clone();
            let action =
                *r.pick(&[A_ERR, A_STICKY, A_CRASH_BEFORE, A_CRASH_BEFORE, A_CRASH_PARTIAL]);
            let action = if kind != K_WRITE && action == A_CRASH_PARTIAL {
                A_CRASH_BEFORE
            } else if kind == K_CLOSE {
                A_CRASH_BEFORE
            } else {
                action
            };
            let arg = match action {
                A_CRASH_PARTIAL => r.range(1, 40) as i64,
                A_CRASH_BEFORE => 0,
                _ if kind == K_OPEN => *r.pick(&[libc::EACCES, libc::EMFILE, libc::EIO]) as i64,
                _ => *r.pick(&[libc::EIO, libc::ENOSPC]) as i64,
            };
            c.worlds[k].faults.push(Fault {
                path,
                kind,
                ord: r.below(n as usize) as u32,
                action,
                arg,
            });
        }
        if r.pct(10) {
            c.worlds[k].disk_budget = Some(r.below(40) as i64);
        }
    }
    if !together {
        for x in &mut c.worlds {
            x.power = r.pct(25);
        }
        if r.pct(15) {
            for x in &mut c.worlds {
                x.power = false;
                x.links = vec![CONFIG.into(), OTHER.into()];
            }
        }
    }
    Ok(c)
}

/// the state a configuration command asks for
fn wanted(w: &[String], s: &State) -> Option<State> {
    let w: Vec<&str> = w.iter().map(|x| x.as_str()).collect();
    let mut n = s.clone();
    let (key, val) = match w[..] {
        ["config", "--set", k, v] | ["config", k, v] if k != "--get" && k != "--unset" => {
            (k, Some(v))
        }
        ["config", "--unset", k] => (k, None),
        _ => return None,
    };
    match (key, val) {
        ("skip-invalid", Some(v)) => n.skip = v.parse().ok()?,
        ("skip-invalid", None) => n.skip = false,
        ("normalization", Some(v)) if FORMS.contains(&v) => n.nf = Some(v.into()),
        ("normalization", Some(_)) => return None,
        ("normalization", None) => n.nf = None,
        _ => return None,
    }
    Some(n)
}

/// exit status and standard output of a command that does not write
fn reading(w: &[String], s: &State) -> Option<(i32, Vec<u8>)> {
    let w: Vec<&str> = w.iter().map(|x| x.as_str()).collect();
    Some(match w[..] {
        ["config", "--get", k] | ["config", k] => match k {
            "skip-invalid" => (0, format!("{}\n", s.skip).into_bytes()),
            _ => (
                0,
                format!("{}\n", s.nf.clone().unwrap_or("None".into())).into_bytes(),
            ),
        },
        ["count", ..] if s.skip => (0, b"2\n".to_vec()),
        ["count", ..] => (2, Vec::new()),
        // the literal of the filter is composed
        ["filter", ..] => match s.nf.as_deref() {
            Some("nfd" | "nfkd") => (0, NFD_LINE.to_vec()),
            _ => (0, NFC_LINE.to_vec()),
        },
        _ => return None,
    })
}

/// Commands at the same time, interleaved operation by operation.
fn together(w: &mut Worker, c: &Case, other: bool) -> HResult<Verdict> {
    let bad = |s: String| Ok(Verdict::Bad(s));
    let path = if other { OTHER } else { CONFIG };
    let procs: Vec<Proc> = c
        .steps
        .iter()
        .enumerate()
        .map(|(k, s)| Proc {
            argv: argv(&s.words, other),
            stdin: B(Vec::new()),
            world: c.worlds.get(k).cloned().unwrap_or_default(),
        })
        .collect();
    w.reset(&c.files)?;
    let before = w.snapshot()?;
    let mut raw = before.get(path).map(|b| b.0.clone());
    let first = match &raw {
        None => Some(State { skip: false, nf: None }),
        Some(b) => State::parse(b),
    };
    let Some(first) = first else { return Ok(Verdict::Held(false)) };
    // the states the file went through
    let mut states = vec![first];
    let mut watch = |root: &std::path::Path| {
        let now = std::fs::read(root.join(path)).ok();
        if now == raw {
            return None;
        }
        let m = match &now {
            None => Some("the configuration is gone".to_string()),
            Some(b) => match State::parse(b) {
                None => Some(format!("torn configuration {}", show(b))),
                Some(n) => {
                    let asked = c.steps.iter().any(|s| {
                        states.iter().any(|o| wanted(&s.words, o).as_ref() == Some(&n))
                    });
                    let m = (!asked).then(|| {
                        format!("configuration {n:?} is what nobody asked for, after {states:?}")
                    });
                    states.push(n);
                    m
                }
            },
        };
        raw = now;
        m
    };
    let m = w.run_many(&procs, &[], &c.sched, &mut watch)?;
    let lines: Vec<String> = c.steps.iter().map(|s| s.words.join(" ")).collect();
    let all = lines.join(" & ");
    if m.deadlock {
        return bad(format!("{all}: wait for each other"));
    }
    if let Some(s) = m.seen {
        return bad(format!("{all}: {s}"));
    }
    let died = m.outs.iter().any(|o| o.end == End::Crash || unlink_failed(o));
    let dir = path.rsplit_once('/').map(|x| x.0).unwrap_or("");
    let mine = |f: &str| {
        f == path || died && f.starts_with(dir) && !c.files.contains_key(f)
    };
    if let Err(s) = crate::model::untouched(&before, &m.outs[0].files, &mine) {
        return bad(format!("{all}: {s}"));
    }
    let mut hit = false;
    for (k, o) in m.outs.iter().enumerate() {
        let (line, words) = (&lines[k], &c.steps[k].words);
        if o.panicked() {
            return bad(format!("{line}: panic [{}]", o.err_text()));
        }
        let failing = crate::model::disturbed(o) || o.end == End::Crash;
        match o.end {
            End::Exit(0) | End::Crash => {}
            End::Exit(2) if o.err_text().contains("error: ") => {}
            x => return bad(format!("{line}: ended with {x:?} [{}]", show(&o.stderr))),
        }
        let goals: Vec<State> =
            states.iter().filter_map(|s| wanted(words, s)).collect();
        let reads: Vec<(i32, Vec<u8>)> =
            states.iter().filter_map(|s| reading(words, s)).collect();
        if !goals.is_empty() {
            hit = true;
            if o.end == End::Exit(0) && !states.iter().any(|s| goals.contains(s)) {
                return bad(format!("{line}: success without effect, beside {all}"));
            }
            if !failing && o.end != End::Exit(0) {
                return bad(format!("{line}: failed beside {all} [{}]", show(&o.stderr)));
            }
        }
        if !reads.is_empty()
            && !failing
            && !reads.iter().any(|(code, out)| {
                o.end == End::Exit(*code) && o.stdout == *out
            })
        {
            return bad(format!(
                "{line}: {:?} and {} with configurations {states:?} [{}]",
                o.end,
                show(&o.stdout),
                show(&o.stderr)
            ));
        }
    }
    match afterwards(w, path, &m.outs[0].files)? {
        Some(s) => bad(format!("{all}: {s}")),
        None => Ok(Verdict::Held(hit)),
    }
}

/// what later commands see
fn afterwards(w: &mut Worker, path: &str, disk: &Files) -> HResult<Option<String>> {
    let s = match disk.get(path) {
        Some(b) => match State::parse(&b.0) {
            Some(s) => s,
            None => return Ok(Some("torn configuration".into())),
        },
        None => State { skip: false, nf: None },
    };
    for q in [
        vec!["config", "--get", "skip-invalid"],
        vec!["config", "normalization"],
        vec!["count", "--records", "bad.dat"],
        vec!["filter", "002@.a == '\u{e9}'", "forms.dat"],
    ] {
        let q: Vec<String> = q.into_iter().map(|s| s.to_string()).collect();
        let p = Proc {
            argv: argv(&q, path == OTHER),
            stdin: B(Vec::new()),
            world: World::default(),
        };
        let o = w.run(&p)?;
        let (code, out) = reading(&q, &s).unwrap();
        if o.end != End::Exit(code) || o.stdout != out {
            return Ok(Some(format!(
                "afterwards {}: {:?}, {} and {} with configuration {s:?}",
                q.join(" "),
                o.end,
                show(&o.stdout),
                show(&o.stderr)
            )));
        }
    }
    Ok(None)
}

pub fn judge(w: &mut Worker, c: &Case) -> HResult<Verdict> {
    let bad = |s: String| Ok(Verdict::Bad(s));
    let (kind, other) = match c.x[..] {
        [_, o, 1] => return together(w, c, o != 0),
        [k, o, ..] => (k, o != 0),
        _ => (0, false),
    };
    let path = if other { OTHER } else { CONFIG };
    let default = State { skip: false, nf: None };
    w.reset(&c.files)?;
    let mut disk = w.snapshot()?;
    let mut hit = false;
    for (k, s) in c.steps.iter().enumerate() {
        let world = c.worlds.get(k).cloned().unwrap_or_default();
        let p = Proc { argv: argv(&s.words, other), stdin: B(Vec::new()), world };
        let line = s.words.join(" ");
        let o = w.run(&p)?;
        if o.panicked() {
            return bad(format!("{line}: panic [{}]", o.err_text()));
        }
        let failing = crate::model::disturbed(&o) || o.end == End::Crash;
        hit |= failing;
        match o.end {
            End::Exit(0) | End::Crash => {}
            End::Exit(2) if o.err_text().contains("error: ") => {}
            x => return bad(format!("{line}: ended with {x:?} [{}]", show(&o.stderr))),
        }
        let now = o.files.get(path).map(|b| b.0.clone());
        // everything else is untouched; a run that was killed may leave its
        // temporary file, one that ends by itself may not
        let dir = path.rsplit_once('/').map(|x| x.0).unwrap_or("");
        let mine = |f: &str| {
            f == path
                || ((o.end == End::Crash || disk.contains_key(f) || unlink_failed(&o))
                    && f.starts_with(dir)
                    && !dir.is_empty()
                    && !c.files.contains_key(f))
        };
        if let Err(m) = crate::model::untouched(&disk, &o.files, &mine) {
            return bad(format!("{line}: {m}"));
        }
        if kind == 2 {
            if o.end == End::Exit(0) {
                return bad(format!("{line}: success with a malformed configuration"));
            }
            if now.as_deref() != c.files.get(path).map(|b| b.0.as_slice()) {
                return bad(format!("{line}: the malformed configuration was changed"));
            }
            disk = o.files;
            continue;
        }
        let old = match disk.get(path) {
            Some(b) => State::parse(&b.0).unwrap_or(default.clone()),
            None => default.clone(),
        };
        let new = wanted(&s.words, &old);
        let is = match &now {
            None if disk.contains_key(path) => {
                return bad(format!("{line}: the configuration is gone"));
            }
            None => default.clone(),
            Some(b) => match State::parse(b) {
                Some(s) => s,
                None => {
                    return bad(format!(
                        "{line}: torn configuration {} after {:?}",
                        show(b),
                        o.end
                    ));
                }
            },
        };
        match &new {
            None => {
                if is != old {
                    return bad(format!("{line}: changed the configuration to {is:?}"));
                }
            }
            Some(n) => {
                if o.end == End::Exit(0) && is != *n {
                    return bad(format!("{line}: success, but the configuration is {is:?}"));
                }
                if is != old && is != *n {
                    return bad(format!(
                        "{line}: configuration {is:?} is neither the old {old:?} nor the new {n:?}"
                    ));
                }
                if !failing && o.end != End::Exit(0) {
                    return bad(format!("{line}: failed [{}]", show(&o.stderr)));
                }
            }
        }
        // reading commands
        match reading(&s.words, &old) {
            Some((code, out)) if !failing => {
                if o.end != End::Exit(code) || o.stdout != out {
                    return bad(format!(
                        "{line}: {:?} and {} with configuration {old:?}",
                        o.end,
                        show(&o.stdout)
                    ));
                }
            }
            Some((_, out)) => {
                // a failed read of the configuration is not the default
                let unread = p.world.faults.iter().zip(&o.fired).any(|(f, n)| {
                    *n > 0
                        && f.path == path
                        && matches!(f.action, A_ERR | A_STICKY)
                        && f.arg != libc::EINTR as i64
                        && (f.kind == K_READ || f.kind == K_OPEN)
                });
                if unread && o.end == End::Exit(0) {
                    return bad(format!("{line}: success with an unreadable configuration"));
                }
                if o.end == End::Exit(0) && o.stdout != out && !out.starts_with(&o.stdout) {
                    return bad(format!("{line}: wrote {}", show(&o.stdout)));
                }
            }
            None => {}
        }
        disk = o.files;
    }
    if kind == 2 {
        return Ok(Verdict::Held(true));
    }
    match afterwards(w, path, &disk)? {
        Some(m) => bad(m),
        None => Ok(Verdict::Held(hit)),
    }
}

fn unlink_failed(o: &Outcome) -> bool {
    o.chans.iter().any(|c| c.counts[K_UNLINK as usize] > 0 && c.last_err != 0)
}
