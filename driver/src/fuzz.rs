//! C11: damaged inputs, command lines and files, and arbitrary failures.

use crate::bytes::B;
use crate::case::*;
use crate::r#gen::*;
use crate::prop::tame;
use crate::rec::Pred;
use crate::rng::Rng;
use crate::shm::*;
use crate::sim::*;

const GRAMMAR: [&str; 48] = [
    "(", ")", "{", "}", "[", "]", "!", "?", "&&", "||", "^", "XOR", "==",
    "!=", "=~", "!~", "=^", "=$", "=*", "=?", "#", "*", ".", "/", "-", "|",
    ",", "'", "\"", "\\", "$", " ", "in", "not", "ALL ", "ANY ", "003@", "0",
    "'a'", "..", "\t", "\u{e9}", "999999999999999999999", "<$>",
    "<*>", "..3", "?l ", "(a)..2",
];

const FLAGS: [&str; 72] = [
    "-s", "-i", "-v", "-g", "--append", "-p", "--unique", "-u", "--squash",
    "--merge", "--no-empty-columns", "--no-header", "--reverse", "--tsv",
    "--csv", "--records", "--fields", "--subfields", "--limit=1",
    "--limit=0", "--limit=18446744073709551615", "--strsim-threshold=100",
    "--strsim-threshold=0", "--where=003@?", "--and=003@?", "--or=003@?",
    "--not=003@?", "--where=", "--keep=003@", "--discard=00.@", "--keep=",
    "--discard=*", "--tee=t", "--output=o", "--output=", "--output=keep",
    "--separator=", "--header=a,b", "--header=", "--threshold=0",
    "--translit=nfc", "--translit=x", "--template={}", "--template=",
    "--outdir=parts", "--outdir=keep/me.txt", "--seed=0", "--quote-style=never",
    "--start=18446744073709551615", "--end=0", "--length=18446744073709551615",
    "--start=3", "--end=2", "-h", "-V", "--help", "-A", "-D=x.csv",
    "--unique-strategy=hash", "--from=xml", "--from=json", "--from=binary",
    "--from=import", "--to=json", "--to=xml", "--filter=(", "-f[", "-f.*",
    "--allow-list=keep", "--filter-set-column=idn", "--tags=003@",
    "--keep=0[^3]*",
];

fn mutate(r: &mut Rng, v: &mut Vec<u8>, words: &[&[u8]]) {
    for _ in 0..r.range(1, 6) {
        let n = v.len();
        let at = r.below(n + 1);
        match r.below(8) {
            0 if n > 0 => v[at.min(n - 1)] ^= 1 << r.below(8),
            1 if n > 0 => {
                v.remove(at.min(n - 1));
            }
            2 if n > 0 => {
                let m = r.range(1, 20).min(n - at.min(n - 1));
                let from = at.min(n - 1);
                let s = v[from..from + m].to_vec();
                for _ in 0..r.range(1, 4) {
                    v.splice(from..from, s.iter().copied());
                }
            }
            3 => v.truncate(at),
            4 => v.insert(at, r.below(256) as u8),
            5 if n > 0 => v[at.min(n - 1)] = *r.pick(b"\n\x1e\x1f \0/\xff\r@"),
            _ => {
                let w = r.pick(words).to_vec();
                v.splice(at..at, w);
            }
        }
    }
}

fn nested(r: &mut Rng) -> String {
    let d = match r.below(4) {
        0 => r.range(1, 8),
        1 => r.range(8, 40),
        2 => r.range(40, 300),
        _ => r.range(300, 3000),
    };
    let (a, b) = *r.pick(&[
        ("(", ")"),
        ("!(", ")"),
        ("!", ""),
        ("(003@?&&", ")"),
        ("(003@? || ", ")"),
        ("( (", ") )"),
        ("(002@.0 == 'a' ^ ", ")"),
        ("(", ""),
    ]);
    if r.pct(50) {
        format!("{}003@?{}", a.repeat(d), b.repeat(d))
    } else {
        let a = a.replace("003@?", "0?").replace("002@.0", "0");
        format!("003@{{ {}0?{} }}", a.repeat(d), b.repeat(d))
    }
}

/// Deeply nested or long format expressions.
fn nested_format(r: &mut Rng) -> String {
    let d = match r.below(4) {
        0 => r.range(1, 8),
        1 => r.range(8, 40),
        2 => r.range(40, 300),
        _ => r.range(300, 3000),
    };
    let (a, b) = *r.pick(&[
        ("(", ")"),
        ("(a <$> ", ")"),
        ("(a <*> ", ")"),
        ("(?l ", ")"),
        ("( (", ") )"),
        ("(", ")..2"),
        ("(?u a <$> (b <*> ", "))"),
        ("(", ""),
        ("a <$> ", ""),
        ("a <*> ", ""),
        ("'x' ", ""),
        ("(", ") <$> b"),
    ]);
    format!("003@{{ {}a{} }}", a.repeat(d), b.repeat(d))
}

pub fn draw(r: &mut Rng, w: &mut Worker, _: &str) -> HResult<Case> {
    let names = [
        "filter", "concat", "count", "explode", "hash", "print", "sample",
        "select", "frequency", "slice", "partition", "split", "convert",
        "check", "invalid",
    ];
    let name = if r.pct(2) { "describe" } else { *r.pick(&names) };
    let mut g = Gen::new(r, Prof { check: name == "check", ..PROF });
    let mut c = g.case(name);
    let gram: Vec<&[u8]> = GRAMMAR.iter().map(|s| s.as_bytes()).collect();
    match r.below(10) {
        // damaged data
        0..=3 => {
            let words: [&[u8]; 10] = [
                b"\n", b"\x1e\n", b"\x1f", b"\x1e", b"003@ \x1f0", b"/01",
                b"\x1f0", b"\xe2\x82", b"\0\0\0", b"2029/123 ",
            ];
            for i in c.inputs.iter_mut() {
                mutate(r, &mut i.data.0, &words);
            }
            if r.pct(10) {
                let n = r.range(1, 200_000);
                c.inputs[0].data.0.extend(vec![*r.pick(b"\x1f\n a\x1e"); n]);
            }
            c.x = vec![1];
        }
        // damaged expressions and arguments
        4..=6 => {
            let mut a = c.argv();
            for _ in 0..r.range(1, 2) {
                let k = r.below(a.len());
                if k == 0 {
                    continue;
                }
                mutate(r, &mut a[k].0, &gram);
                a[k].0.retain(|c| *c != 0);
                a[k].0.truncate(4000);
            }
            if r.pct(30) {
                let f = B::from(*r.pick(&FLAGS));
                a.insert(1, f);
            }
            c.cmd.raw = Some(sane(a));
            c.x = vec![2];
        }
        // nesting
        7 if r.pct(30) => {
            let e = nested_format(r);
            let mut a = vec![B::from("select")];
            a.extend(r.pct(30).then(|| B::from("--merge")));
            if r.pct(40) {
                a[0] = B::from("frequency");
                a.truncate(1);
            }
            a.push(B::from(e.as_str()));
            a.extend(c.inputs.iter().map(|i| B::from(i.name.as_str())));
            c.cmd.raw = Some(sane(a));
            c.x = vec![3];
        }
        7 => {
            let e = nested(r);
            let arg = match name {
                "filter" => e,
                "check" | "concat" | "convert" | "invalid" => e,
                _ => format!("--where={e}"),
            };
            let mut a = c.argv();
            if name == "filter" {
                a = vec![B::from("filter"), B::from("-s"), B::from(arg.as_str())];
            } else {
                a.insert(1, B::from(arg.as_str()));
            }
            c.cmd.raw = Some(sane(a));
            c.x = vec![3];
        }
        // any flags, numbers at their limits
        8 => {
            let mut a = c.argv();
            for _ in 0..r.range(1, 3) {
                let f = B::from(*r.pick(&FLAGS));
                a.insert(1, f);
            }
            if name == "sample" || name == "split" {
                let n = *r.pick(&["0", "1", "18446744073709551615", "4294967296"]);
                for x in a.iter_mut().skip(1) {
                    if x.0 == c.cmd.n.to_string().as_bytes() {
                        *x = B::from(n);
                    }
                }
            }
            c.cmd.raw = Some(sane(a));
            c.x = vec![4];
        }
        // damaged files besides the input
        _ => {
            c.x = vec![5];
            c.config_skip = r.pct(50);
            if name == "check" || r.pct(50) {
                let mut g = Gen::new(r, PROF);
                let keep = c.cmd.rulesets.is_empty();
                if !keep {
                    c.cmd.rulesets = g.rulesets();
                }
                if c.cmd.expr.is_none() && name == "count" {
                    c.cmd.allow = vec![g.set_file(0, "allow", false)];
                }
            }
            let disk = c.disk();
            let aux: Vec<String> = disk
                .keys()
                .filter(|k| {
                    !k.ends_with('/') && !c.inputs.iter().any(|i| &i.name == *k)
                })
                .cloned()
                .collect();
            let n = 2.min(aux.len());
            for _ in 0..n {
                let k = r.pick(&aux).clone();
                let mut v = disk[&k].clone();
                mutate(r, &mut v.0, &gram);
                c.files.insert(k, v);
            }
        }
    }
    let _ = Pred::ok;
    tame(&mut c);
    if r.pct(45) {
        let mut world = c.world.clone();
        world.faults.clear();
        let d = w.run_on(&c.disk(), &c.proc_in(&world))?;
        for _ in 0..r.range(1, 3) {
            let mut at = Vec::new();
            for ch in &d.chans {
                for k in [K_OPEN, K_READ, K_WRITE, K_CLOSE, K_MKDIR, K_TRUNC, K_RENAME, K_FSYNC] {
                    if ch.counts[k as usize] > 0 {
                        at.push((ch.path.clone(), k, ch.counts[k as usize]));
                    }
                }
            }
            if at.is_empty() {
                break;
            }
            let (path, kind, n) = r.pick(&at).clone();
            let action = *r.pick(&[A_ERR, A_STICKY, A_STICKY, A_SHORT]);
            let arg = if action == A_SHORT {
                r.range(1, 64) as i64
            } else {
                *r.pick(&[
                    libc::EIO, libc::ENOSPC, libc::EACCES, libc::EPIPE,
                    libc::EAGAIN, libc::EINVAL, libc::EMFILE, libc::EBADF,
                ]) as i64
            };
            if action == A_SHORT && kind != K_READ && kind != K_WRITE {
                continue;
            }
            c.world.faults.push(Fault {
                path,
                kind,
                ord: r.below(n as usize) as u32,
                action,
                arg,
            });
        }
    }
    Ok(c)
}

fn sane(mut a: Vec<B>) -> Vec<B> {
    let mut left = 40_000usize;
    a.truncate(200);
    for x in a.iter_mut() {
        x.0.retain(|c| *c != 0);
        x.0.truncate(left);
        left -= x.0.len();
    }
    a
}
