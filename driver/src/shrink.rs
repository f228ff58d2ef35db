//! Makes a violating case smaller while it keeps violating in the same way.

use std::time::{Duration, Instant};

use crate::bytes::B;
use crate::case::*;
use crate::rec::*;
use crate::sim::*;

/// what kind of violation a message is about
pub fn class(m: &str) -> String {
    m.split_whitespace()
        .filter(|w| {
            w.chars().all(|c| c.is_ascii_alphabetic() || "[:,()".contains(c))
        })
        .take(7)
        .collect::<Vec<_>>()
        .join(" ")
}

struct S<'a> {
    best: Case,
    msg: String,
    class: String,
    evals: usize,
    until: Instant,
    test: &'a mut dyn FnMut(&Case) -> Option<String>,
}

const MAX: usize = 600;

impl S<'_> {
    fn over(&self) -> bool {
        self.evals >= MAX || Instant::now() > self.until
    }

    fn take(&mut self, c: Case) -> bool {
        if self.over() || c == self.best {
            return false;
        }
        self.evals += 1;
        match (self.test)(&c) {
            Some(m) if class(&m) == self.class => {
                self.best = c;
                self.msg = m;
                true
            }
            _ => false,
        }
    }

    fn edit(&mut self, f: impl FnOnce(&mut Case)) -> bool {
        let mut c = self.best.clone();
        f(&mut c);
        self.take(c)
    }

    /// drops parts of a list
    fn list<T: Clone>(
        &mut self,
        min: usize,
        get: impl Fn(&mut Case) -> Option<&mut Vec<T>>,
    ) {
        let Some(n) = get(&mut self.best.clone()).map(|v| v.len()) else {
            return;
        };
        let mut size = n.div_ceil(2);
        while size > 0 && !self.over() {
            let mut at = 0;
            loop {
                let len = get(&mut self.best.clone()).map_or(0, |v| v.len());
                if at >= len {
                    break;
                }
                let ok = len >= min + size.min(len - at)
                    && self.edit(|c| {
                        if let Some(v) = get(c) {
                            let e = (at + size).min(v.len());
                            v.drain(at..e);
                        }
                    });
                if !ok {
                    at += size;
                }
            }
            size = if size == 1 { 0 } else { size.div_ceil(2) };
        }
    }

    fn world(&mut self, get: impl Fn(&mut Case) -> Option<&mut World> + Copy) {
        let Some(w) = get(&mut self.best.clone()).cloned() else { return };
        let calm = World { seed: w.seed, faults: w.faults.clone(), ..Default::default() };
        if self.edit(|c| {
            if let Some(w) = get(c) {
                *w = calm
            }
        }) {
            self.list(0, |c| get(c).map(|w| &mut w.faults));
            return;
        }
        self.list(0, |c| get(c).map(|w| &mut w.faults));
        let fs: [fn(&mut World); 14] = [
            |w| w.links.clear(),
            |w| w.fifo.clear(),
            |w| w.power = false,
            |w| w.env.clear(),
            |w| w.rd = Policy::default(),
            |w| w.wr = Policy::default(),
            |w| {
                w.stackpad = 0;
                w.heappad = 0;
            },
            |w| w.clock = 0,
            |w| w.tty = false,
            |w| w.notty = 0,
            |w| w.disk_budget = None,
            |w| w.stdout_budget = None,
            |w| w.rd.eintr = 0,
            |w| w.wr.eintr = 0,
        ];
        for f in fs {
            self.edit(|c| {
                if let Some(w) = get(c) {
                    f(w)
                }
            });
        }
    }
}

fn sub_exprs(e: &Expr) -> Vec<Expr> {
    match e {
        Expr::And(a, b) | Expr::Or(a, b) | Expr::Xor(a, b) => {
            vec![(**a).clone(), (**b).clone()]
        }
        Expr::Not(a) => vec![(**a).clone()],
        _ => vec![],
    }
}

pub fn shrink(
    c: &Case,
    msg: &str,
    test: &mut dyn FnMut(&Case) -> Option<String>,
) -> (Case, String) {
    let mut s = S {
        best: c.clone(),
        msg: msg.to_string(),
        class: class(msg),
        evals: 0,
        until: Instant::now() + Duration::from_secs(12),
        test,
    };
    for _ in 0..2 {
        let before = s.best.clone();
        s.world(|c| Some(&mut c.world));
        for k in 0..s.best.worlds.len() {
            s.world(move |c| c.worlds.get_mut(k));
        }
        // steps and worlds go together
        let mut k = 0;
        while k < s.best.steps.len() && s.best.steps.len() > 1 {
            let ok = s.edit(|c| {
                c.steps.remove(k);
                if c.worlds.len() > k {
                    c.worlds.remove(k);
                }
            });
            k += !ok as usize;
        }
        s.edit(|c| c.sched.clear());
        s.list(0, |c| Some(&mut c.sched));
        for k in 0..s.best.sched.len() {
            s.edit(|c| c.sched[k] = 0);
        }
        s.list(1, |c| Some(&mut c.inputs));
        let mut k = 0;
        loop {
            let Some(name) = s.best.files.keys().nth(k).cloned() else { break };
            let ok = !name.ends_with('/')
                && s.edit(|c| {
                    c.files.remove(&name);
                });
            k += !ok as usize;
        }
        for k in 0..s.best.inputs.len() {
            // whole lines, then fields
            lines_of(&mut s, k);
            s.edit(|c| c.inputs[k].members.clear());
            let i = &s.best.inputs[k];
            if i.is_gz() && i.cut.is_none() && i.flip.is_none() {
                s.edit(|c| {
                    let i = &mut c.inputs[k];
                    i.name = i.name.trim_end_matches(".gz").to_string();
                });
            }
        }
        options(&mut s);
        if s.best == before || s.over() {
            break;
        }
    }
    (s.best, s.msg)
}

fn pieces(data: &[u8], cut: u8) -> Vec<Vec<u8>> {
    data.split_inclusive(|c| *c == cut).map(|x| x.to_vec()).collect()
}

fn lines_of(s: &mut S, k: usize) {
    for cut in [b'\n', 0x1e, 0x1f] {
        let mut parts = pieces(&s.best.inputs[k].data.0, cut);
        let mut size = parts.len().div_ceil(2);
        while size > 0 && !s.over() {
            let mut at = 0;
            while at < parts.len() {
                let e = (at + size).min(parts.len());
                let mut p = parts.clone();
                p.drain(at..e);
                let d = p.concat();
                if s.edit(|c| {
                    c.inputs[k].members.retain(|m| *m <= d.len());
                    c.inputs[k].data = B(d.clone());
                }) {
                    parts = p;
                } else {
                    at += size;
                }
                if s.over() {
                    return;
                }
            }
            size = if size == 1 { 0 } else { size.div_ceil(2) };
        }
    }
}

fn options(s: &mut S) {
    let fs: [fn(&mut Cmd); 29] = [
        |c| c.progress = false,
        |c| c.skip = false,
        |c| c.limit = None,
        |c| c.ci = false,
        |c| c.sim = None,
        |c| c.and.clear(),
        |c| c.or.clear(),
        |c| c.not.clear(),
        |c| {
            if c.name != "filter" {
                c.expr = None;
                c.and.clear();
                c.or.clear();
                c.not.clear();
            }
        },
        |c| c.expr_file = None,
        |c| c.invert = false,
        |c| {
            c.allow.clear();
            if c.deny.is_empty() {
                c.set_col = None;
            }
        },
        |c| {
            c.deny.clear();
            if c.allow.is_empty() {
                c.set_col = None;
            }
        },
        |c| c.set_src = None,
        |c| c.keep.clear(),
        |c| c.discard.clear(),
        |c| c.gzip = false,
        |c| c.append = false,
        |c| c.tee = None,
        |c| {
            if !c.progress && c.name != "describe" {
                c.out = None
            }
        },
        |c| c.no_empty = false,
        |c| c.squash = false,
        |c| c.merge = false,
        |c| c.sep = None,
        |c| c.header = None,
        |c| c.quote.clear(),
        |c| c.reverse = false,
        |c| c.nf = None,
        |c| c.threshold = None,
    ];
    for f in fs {
        s.edit(|c| f(&mut c.cmd));
        for k in 0..s.best.steps.len() {
            s.edit(|c| f(&mut c.steps[k]));
        }
    }
    s.edit(|c| c.config_skip = false);
    s.edit(|c| c.config_nf = None);
    if s.best.cmd.query.len() > 1 && s.best.cmd.header.is_none() {
        s.list(1, |c| Some(&mut c.cmd.query));
    }
    for k in 0..s.best.cmd.rulesets.len() {
        s.list(1, |c| c.cmd.rulesets.get_mut(k).map(|r| &mut r.rules));
        s.edit(|c| c.cmd.rulesets[k].scope = None);
    }
    if s.best.cmd.rulesets.len() > 1 {
        s.list(1, |c| Some(&mut c.cmd.rulesets));
    }
    while let Some(e) = s.best.cmd.expr.clone() {
        let mut any = false;
        for x in sub_exprs(&e) {
            any = any || s.edit(|c| c.cmd.expr = Some(x));
        }
        if !any {
            break;
        }
    }
    if s.best.cmd.raw.is_some() {
        s.list(1, |c| c.cmd.raw.as_mut());
    }
}
