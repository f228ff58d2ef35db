//! What each command has to produce, computed record by record from the
//! documentation, and the comparison with what a simulated run produced.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::LazyLock;

use serde_json::Value;
use sha2::{Digest, Sha256};
use unicode_normalization::UnicodeNormalization;

use crate::bytes::{B, show, show_n};
use crate::case::*;
use crate::rec::*;
use crate::sim::*;

#[derive(Clone, Debug)]
pub struct Line {
    pub src: usize,
    pub no: usize,
    pub raw: Vec<u8>,
    pub rec: Option<Rec>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Finding {
    pub ppn: Vec<u8>,
    pub rule: String,
    pub level: String,
    pub msg: Vec<u8>,
}

pub type XmlRec = Vec<(String, Vec<(String, String)>)>;

#[derive(Clone, Debug)]
pub enum Kind {
    Bytes(Vec<u8>),
    Json(Vec<Value>),
    Xml(Vec<XmlRec>),
    /// findings that have to be there, and groups of which exactly one
    /// has to be there
    Check { rows: Vec<Finding>, one_of: Vec<Vec<Finding>>, delim: u8, txt: bool },
    Sample { cands: Vec<Vec<u8>>, n: usize },
    Describe { table: BTreeMap<Vec<u8>, BTreeMap<u8, usize>>, delim: u8 },
    /// not modelled
    Free,
}

#[derive(Clone, Debug)]
pub struct Out {
    pub kind: Kind,
    pub gz: bool,
    /// the bytes that were there before and have to stay (append)
    pub old: Vec<u8>,
}

#[derive(Clone, Debug, Default)]
pub struct Expect {
    pub fail: Option<String>,
    pub outs: BTreeMap<String, Out>,
    /// number of input lines the command has to look at
    pub used: usize,
    /// the limit was reached
    pub limited: bool,
}

pub fn stream(case: &Case) -> Vec<Line> {
    let mut v = Vec::new();
    for (src, i) in case.inputs.iter().enumerate() {
        for (n, l) in lines(&i.data.0).into_iter().enumerate() {
            v.push(Line {
                src,
                no: n + 1,
                raw: l.to_vec(),
                rec: Rec::parse(l),
            });
        }
    }
    v
}

pub fn src_name(i: &Input) -> &str {
    if i.name == "-" { "<stdin>" } else { &i.name }
}

fn is_gz(name: &str) -> bool {
    name.ends_with(".gz")
}

pub fn norm(s: &str, nf: &Option<String>) -> String {
    match nf.as_deref() {
        Some("nfc") => s.nfc().collect(),
        Some("nfkc") => s.nfkc().collect(),
        Some("nfd") => s.nfd().collect(),
        Some("nfkd") => s.nfkd().collect(),
        _ => s.to_string(),
    }
}

pub fn level_rank(l: &str) -> u8 {
    match l {
        "main" => 0,
        "local" => 1,
        _ => 2,
    }
}

/// ISO 639-2 (B) without the codes for local use, and the JEL classes
pub static LANGS: LazyLock<Vec<&str>> = LazyLock::new(|| {
    include_str!("../data/iso639-2b.txt").split_whitespace().collect()
});
pub static JELS: LazyLock<Vec<&str>> = LazyLock::new(|| {
    include_str!("../data/jel.txt").split_whitespace().collect()
});

struct Sel<'a> {
    c: &'a Cmd,
    allow: Option<BTreeSet<Vec<u8>>>,
    deny: Option<BTreeSet<Vec<u8>>>,
    src: PathX,
    m: MOpt,
}

impl<'a> Sel<'a> {
    fn new(c: &'a Cmd) -> Sel<'a> {
        let set = |v: &Vec<SetFile>| {
            if v.is_empty() {
                None
            } else {
                Some(
                    v.iter()
                        .flat_map(|s| s.vals.iter().map(|b| b.0.clone()))
                        .collect(),
                )
            }
        };
        Sel {
            c,
            allow: set(&c.allow),
            deny: set(&c.deny),
            src: c
                .set_src
                .clone()
                .unwrap_or_else(|| PathX::simple("003@", "0")),
            m: MOpt { ci: c.ci, sim: c.sim.unwrap_or(75) },
        }
    }

    fn ok(&self, r: &Rec) -> bool {
        let vals = self.src.values(r, MOpt { ci: false, sim: 80 });
        if let Some(d) = &self.deny
            && vals.iter().any(|v| d.contains(v))
        {
            return false;
        }
        if let Some(a) = &self.allow
            && !vals.iter().any(|v| a.contains(v))
        {
            return false;
        }
        let c = self.c;
        let hit = match &c.expr {
            None => true,
            Some(e) => {
                (e.ok(r, self.m) || c.or.iter().any(|x| x.ok(r, self.m)))
                    && c.and.iter().all(|x| x.ok(r, self.m))
                    && !c.not.iter().any(|x| x.ok(r, self.m))
            }
        };
        hit != c.invert
    }
}

fn project(r: &Rec, keep: &[Pred], discard: &[Pred]) -> Rec {
    Rec {
        fields: r
            .fields
            .iter()
            .filter(|f| {
                (keep.is_empty() || keep.iter().any(|p| p.ok(f)))
                    && !discard.iter().any(|p| p.ok(f))
            })
            .cloned()
            .collect(),
    }
}

/// what a record writer makes of a record: nothing if no field is left
fn wire(r: &Rec) -> Vec<u8> {
    if r.fields.is_empty() { Vec::new() } else { r.bytes() }
}

pub fn explode(r: &Rec, level: &str) -> Vec<Rec> {
    if level == "main" {
        return vec![r.clone()];
    }
    // cut the local and copy fields into units: for `local` a library, for
    // `copy` a copy of a library
    let mut out = Vec::new();
    let mut main: Vec<Fld> = Vec::new();
    let mut local: Vec<Fld> = Vec::new();
    let mut unit: Vec<Fld> = Vec::new();
    let flds = &r.fields;
    let push = |out: &mut Vec<Rec>, m: &[Fld], l: &[Fld], u: &[Fld]| {
        if !u.is_empty() {
            let fields = [m, l, u].concat();
            out.push(Rec { fields });
        }
    };
    if level == "local" {
        for (i, f) in flds.iter().enumerate() {
            match f.level() {
                0 => main.push(f.clone()),
                _ => unit.push(f.clone()),
            }
            let next = flds.get(i + 1).map(|f| f.level());
            if f.level() == 2 && next == Some(1) {
                push(&mut out, &main, &[], &unit);
                unit.clear();
            }
        }
        push(&mut out, &main, &[], &unit);
        return out;
    }
    let mut cur: Option<Vec<u8>> = None;
    for (i, f) in flds.iter().enumerate() {
        match f.level() {
            0 => main.push(f.clone()),
            1 => local.push(f.clone()),
            _ => {
                if cur != f.occ {
                    push(&mut out, &main, &local, &unit);
                    unit.clear();
                    cur = f.occ.clone();
                }
                unit.push(f.clone());
                let next = flds.get(i + 1).map(|f| f.level());
                if next == Some(1) {
                    push(&mut out, &main, &local, &unit);
                    unit.clear();
                    local.clear();
                    cur = None;
                }
            }
        }
    }
    push(&mut out, &main, &local, &unit);
    out
}

fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{b:02x}")).collect()
}

fn header(out: &mut Vec<u8>, h: &str, delim: u8, q: Quote) {
    let row: Vec<Vec<u8>> = h
        .split(',')
        .map(|s| s.trim().as_bytes().to_vec())
        .collect();
    csv_row(out, &row, delim, q);
}

fn template(c: &Cmd) -> String {
    c.template.clone().unwrap_or_else(|| {
        if c.gzip { "{}.dat.gz".into() } else { "{}.dat".into() }
    })
}

pub fn part_name(c: &Cmd, value: &str) -> String {
    let f = template(c).replace("{}", value);
    let f = match &c.outdir {
        Some(d) if !d.is_empty() => format!("{d}/{f}"),
        _ => f,
    };
    f.split('/')
        .filter(|p| !p.is_empty() && *p != ".")
        .collect::<Vec<_>>()
        .join("/")
}

/// is there a value that names the output directory itself
pub fn nameless(case: &Case) -> bool {
    let c = &case.cmd;
    let Some(path) = &c.path else { return false };
    let t = template(c);
    let m = MOpt { ci: c.ci, sim: c.sim.unwrap_or(75) };
    stream(case).iter().filter_map(|l| l.rec.as_ref()).any(|r| {
        path.values(r, m).iter().any(|v| {
            !t.replace("{}", &lossy(v)).split('/').any(|p| !p.is_empty() && p != ".")
        })
    })
}

/// does the value stay inside the output directory as a file name
fn usable(c: &Cmd, value: &str) -> bool {
    let odd = |s: &str| {
        std::path::Path::new(s)
            .components()
            .filter(|p| {
                !matches!(
                    p,
                    std::path::Component::Normal(_)
                        | std::path::Component::CurDir
                )
            })
            .count()
    };
    let t = template(c);
    let file = t.replace("{}", value);
    !value.contains('/')
        && !value.contains('\0')
        && file.split('/').any(|p| !p.is_empty() && p != ".")
        && odd(&t) == odd(&t.replace("{}", value))
}

/// the message every diagnostics line about a bad line has to contain
fn bad_msg(case: &Case, l: &Line) -> String {
    format!(
        "invalid record on line {} ({}).",
        l.no,
        src_name(&case.inputs[l.src])
    )
}

pub fn expect(case: &Case) -> Expect {
    let case = &case.normalized();
    let c = &case.cmd;
    let all = stream(case);
    let sel = Sel::new(c);
    let skip = case.skips();
    let mut e = Expect::default();
    let limit = c.limit.unwrap_or(0);
    let main_out = c.out.clone().unwrap_or_else(|| STDOUT.into());
    let delim = if c.tsv { b'\t' } else { b',' };
    let quote = match c.quote.as_str() {
        "always" => Quote::Always,
        "non-numeric" => Quote::NonNumeric,
        "never" => Quote::Never,
        _ => Quote::Necessary,
    };
    let mut buf: Vec<u8> = Vec::new();
    let mut kind: Option<Kind> = None;
    let mut count = 0usize;

    // reads on until the visitor says stop; remembers a fatal bad line
    macro_rules! each {
        ($l:ident, $r:ident, $body:block) => {
            each!($l, $r, $body, {})
        };
        ($l:ident, $r:ident, $body:block, $bad:block) => {
            for $l in &all {
                e.used += 1;
                match &$l.rec {
                    None if skip => $bad,
                    None => {
                        e.fail = Some(bad_msg(case, $l));
                        break;
                    }
                    Some($r) => $body,
                }
            }
        };
    }
    macro_rules! counted {
        () => {
            count += 1;
            if limit > 0 && count >= limit {
                e.limited = true;
                break;
            }
        };
    }

    match c.name.as_str() {
        "filter" => each!(l, r, {
            if sel.ok(r) {
                buf.extend(wire(&project(r, &c.keep, &c.discard)));
                counted!();
            }
        }),
        "concat" => {
            let mut seen: BTreeSet<Vec<u8>> = BTreeSet::new();
            each!(l, r, {
                if c.unique {
                    let key = if c.mode == "hash" {
                        l.raw.clone()
                    } else {
                        r.ppn().unwrap_or_default().to_vec()
                    };
                    if key.is_empty() || !seen.insert(key) {
                        continue;
                    }
                }
                buf.extend(&l.raw);
            })
        }
        "invalid" => {
            for l in &all {
                e.used += 1;
                if l.rec.is_none() {
                    buf.extend(&l.raw);
                }
            }
        }
        "count" => {
            let mut n = [0usize; 3];
            each!(l, r, {
                if sel.ok(r) {
                    n[0] += 1;
                    n[1] += r.fields.len();
                    n[2] +=
                        r.fields.iter().map(|f| f.subs.len()).sum::<usize>();
                    counted!();
                }
            });
            let names = ["records", "fields", "subfields"];
            let s = match c.mode.as_str() {
                "records" => format!("{}\n", n[0]),
                "fields" => format!("{}\n", n[1]),
                "subfields" => format!("{}\n", n[2]),
                "csv" | "tsv" => {
                    let d = if c.mode == "csv" { "," } else { "\t" };
                    let h = if c.no_header {
                        String::new()
                    } else {
                        format!("{}\n", names.join(d))
                    };
                    format!("{h}{}{d}{}{d}{}\n", n[0], n[1], n[2])
                }
                _ => (0..3)
                    .map(|i| format!("{}: {}\n", names[i], n[i]))
                    .collect(),
            };
            if e.fail.is_none() {
                buf.extend(s.bytes());
            }
        }
        "explode" => 'o: for l in &all {
            e.used += 1;
            match &l.rec {
                None if skip => {}
                None => {
                    e.fail = Some(bad_msg(case, l));
                    break;
                }
                Some(r) => {
                    for x in explode(r, &c.mode) {
                        if !sel.ok(&x) {
                            continue;
                        }
                        buf.extend(wire(&project(&x, &c.keep, &c.discard)));
                        count += 1;
                        if limit > 0 && count >= limit {
                            e.limited = true;
                            break 'o;
                        }
                    }
                }
            }
        },
        "hash" => {
            header(
                &mut buf,
                c.header.as_deref().unwrap_or("ppn,hash"),
                delim,
                Quote::Necessary,
            );
            each!(l, r, {
                if sel.ok(r) {
                    let row = vec![
                        lossy(r.ppn().unwrap_or_default()).into_bytes(),
                        hex(&Sha256::digest(&l.raw)).into_bytes(),
                    ];
                    csv_row(&mut buf, &row, delim, Quote::Necessary);
                    counted!();
                }
            });
        }
        "print" => each!(l, r, {
            if sel.ok(r) {
                for f in &r.fields {
                    buf.extend(f.tag_occ());
                    for (code, v) in &f.subs {
                        buf.extend([b' ', b'$', *code, b' ']);
                        buf.extend(norm(&lossy(v), &c.nf).bytes());
                    }
                    buf.push(b'\n');
                }
                buf.push(b'\n');
                counted!();
            }
        }),
        "sample" => {
            let mut cands = Vec::new();
            each!(l, r, {
                if sel.ok(r) {
                    cands.push(l.raw.clone());
                    counted!();
                }
            });
            kind = Some(if e.fail.is_some() {
                Kind::Bytes(Vec::new())
            } else {
                Kind::Sample { cands, n: c.n }
            });
        }
        "select" | "frequency" => {
            let o = QOpt {
                squash: c.squash,
                merge: c.merge,
                sep: c.sep.as_deref().unwrap_or("|"),
                m: sel.m,
            };
            let mut seen: BTreeSet<Row> = BTreeSet::new();
            let mut table: BTreeMap<Row, u64> = BTreeMap::new();
            let select = c.name == "select";
            if select && let Some(h) = &c.header {
                header(&mut buf, h, delim, quote);
            }
            each!(l, r, {
                if !sel.ok(r) {
                    continue;
                }
                let rows = query(&c.query, r, &o);
                if !select {
                    seen.clear();
                }
                for row in rows {
                    if row.iter().all(|v| v.is_empty()) {
                        continue;
                    }
                    if select
                        && c.no_empty
                        && row.iter().any(|v| v.is_empty())
                    {
                        continue;
                    }
                    if c.unique && !seen.insert(row.clone()) {
                        continue;
                    }
                    if select {
                        let row: Row = if c.nf.is_some() {
                            row.iter()
                                .map(|v| norm(&lossy(v), &c.nf).into_bytes())
                                .collect()
                        } else {
                            row
                        };
                        csv_row(&mut buf, &row, delim, quote);
                    } else {
                        *table.entry(row).or_default() += 1;
                    }
                }
                counted!();
            });
            if !select && e.fail.is_none() {
                if let Some(h) = &c.header {
                    header(&mut buf, h, delim, Quote::Necessary);
                }
                let mut t: Vec<(Row, u64)> = table.into_iter().collect();
                t.sort_by(|a, b| {
                    let o = if c.reverse {
                        a.1.cmp(&b.1)
                    } else {
                        b.1.cmp(&a.1)
                    };
                    o.then(a.0.cmp(&b.0))
                });
                t.retain(|x| x.1 >= c.threshold.unwrap_or(0));
                if c.n > 0 {
                    t.truncate(c.n);
                }
                for (row, n) in t {
                    let mut row: Row = row
                        .iter()
                        .map(|v| norm(&lossy(v), &c.nf).into_bytes())
                        .collect();
                    row.push(n.to_string().into_bytes());
                    csv_row(&mut buf, &row, delim, Quote::Necessary);
                }
            }
        }
        "slice" => {
            let mut i = 0usize;
            let mut end = if c.end > 0 {
                c.end
            } else if c.length > 0 {
                c.n.saturating_add(c.length)
            } else {
                usize::MAX
            };
            each!(
                l,
                r,
                {
                    if sel.ok(r) {
                        if i >= end {
                            e.limited = end > c.n;
                            break;
                        }
                        if i >= c.n {
                            buf.extend(&l.raw);
                            counted!();
                        }
                        i += 1;
                    }
                },
                {
                    if c.length > 0 && i >= c.n && i < end {
                        end = end.saturating_add(1);
                    }
                    i += 1;
                }
            );
        }
        "partition" => {
            let path = c.path.as_ref().unwrap();
            let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
            'p: for l in &all {
                e.used += 1;
                match &l.rec {
                    None if skip => {}
                    None => {
                        e.fail = Some(bad_msg(case, l));
                        break;
                    }
                    Some(r) => {
                        if !sel.ok(r) {
                            continue;
                        }
                        let mut vals = path.values(r, sel.m);
                        vals.sort();
                        vals.dedup();
                        let mut done: Vec<String> = Vec::new();
                        let vals: Vec<String> =
                            vals.iter().map(|v| lossy(v)).collect();
                        if vals.iter().any(|v| !usable(c, v)) {
                            e.fail = Some(String::new());
                            break 'p;
                        }
                        for v in vals {
                            let f = part_name(c, &v);
                            if done.contains(&f) {
                                continue;
                            }
                            files.entry(f.clone()).or_default().extend(&l.raw);
                            done.push(f);
                            count += 1;
                            if limit > 0 && count >= limit {
                                e.limited = true;
                                break 'p;
                            }
                        }
                    }
                }
            }
            for (f, data) in files {
                let gz = c.gzip || is_gz(&f);
                e.outs.insert(
                    f,
                    Out { kind: Kind::Bytes(data), gz, old: Vec::new() },
                );
            }
        }
        "split" => {
            let mut chunks: Vec<Vec<u8>> = vec![Vec::new()];
            each!(l, r, {
                if sel.ok(r) {
                    if count > 0 && count % c.n == 0 {
                        chunks.push(Vec::new());
                    }
                    chunks.last_mut().unwrap().extend(&l.raw);
                    counted!();
                }
            });
            for (i, data) in chunks.into_iter().enumerate() {
                let f = part_name(c, &i.to_string());
                let gz = c.gzip || is_gz(&f);
                e.outs.insert(
                    f,
                    Out { kind: Kind::Bytes(data), gz, old: Vec::new() },
                );
            }
        }
        "convert" => {
            if c.from != "plus" {
                e.fail = Some("not supported".into());
            } else {
                let mut js = Vec::new();
                let mut xs = Vec::new();
                each!(l, r, {
                    match c.mode.as_str() {
                        "plus" => buf.extend(&l.raw),
                        "binary" => {
                            for f in &r.fields {
                                f.put(&mut buf);
                            }
                            buf.push(0x1d);
                        }
                        "import" => {
                            buf.extend(b"'\x1d\x0a");
                            for f in &r.fields {
                                buf.push(0x1e);
                                let mut t = Vec::new();
                                f.put(&mut t);
                                t.pop();
                                buf.extend(t);
                                buf.push(b'\n');
                            }
                        }
                        "plain" => {
                            for f in &r.fields {
                                buf.extend(f.tag_occ());
                                buf.push(b' ');
                                for (code, v) in &f.subs {
                                    buf.extend([b'$', *code]);
                                    for b in v {
                                        if *b == b'$' {
                                            buf.push(b'$');
                                        }
                                        buf.push(*b);
                                    }
                                }
                                buf.push(b'\n');
                            }
                        }
                        "json" => js.push(json_rec(r)),
                        _ => xs.push(xml_rec(r)),
                    }
                });
                match c.mode.as_str() {
                    "json" => kind = Some(Kind::Json(js)),
                    "xml" => kind = Some(Kind::Xml(xs)),
                    _ => {}
                }
            }
        }
        "describe" => {
            let mut table: BTreeMap<Vec<u8>, BTreeMap<u8, usize>> =
                BTreeMap::new();
            each!(l, r, {
                if sel.ok(r) {
                    for f in project(r, &c.keep, &c.discard).fields {
                        let t = table.entry(f.tag.clone()).or_default();
                        for (code, _) in f.subs {
                            *t.entry(code).or_default() += 1;
                        }
                    }
                    counted!();
                }
            });
            let name = c.out.clone().unwrap_or_default();
            kind = Some(if e.fail.is_some() {
                Kind::Bytes(Vec::new())
            } else if name.ends_with(".tsv") || (c.tsv && c.out.is_some()) {
                Kind::Describe { table, delim: b'\t' }
            } else if name.ends_with(".csv") || (c.mode == "csv" && c.out.is_some()) {
                Kind::Describe { table, delim: b',' }
            } else if c.out.is_none() {
                Kind::Describe { table, delim: TABLE }
            } else {
                Kind::Describe { table, delim: ARROW }
            });
        }
        "check" => kind = Some(check(case, &all, &sel, &mut e)),
        n => panic!("no model of {n}"),
    }

    if c.name != "partition" && c.name != "split" {
        let kind = kind.unwrap_or(Kind::Bytes(buf));
        let records = matches!(
            c.name.as_str(),
            "filter" | "concat" | "explode" | "sample" | "slice"
        ) || (c.name == "convert" && c.mode == "plus");
        let old = |name: &str| -> Vec<u8> {
            if c.append && name != STDOUT {
                case.disk().get(name).map(|b| b.0.clone()).unwrap_or_default()
            } else {
                Vec::new()
            }
        };
        if let Some(t) = &c.tee {
            e.outs.insert(
                t.clone(),
                Out {
                    kind: kind.clone(),
                    gz: c.gzip || is_gz(t),
                    old: old(t),
                },
            );
        }
        let gz = records
            && (c.gzip || (main_out != STDOUT && is_gz(&main_out)));
        let old = old(&main_out);
        e.outs.insert(main_out, Out { kind, gz, old });
    }
    e
}

pub fn json_rec(r: &Rec) -> Value {
    Value::Array(
        r.fields
            .iter()
            .map(|f| {
                let mut a = vec![
                    Value::String(lossy(&f.tag)),
                    match &f.occ {
                        // with the slash, as tests/data/ada.json has it
                        Some(o) => Value::String(format!("/{}", lossy(o))),
                        None => Value::Null,
                    },
                ];
                for (c, v) in &f.subs {
                    a.push(Value::String((*c as char).to_string()));
                    a.push(Value::String(lossy(v)));
                }
                Value::Array(a)
            })
            .collect(),
    )
}

pub fn xml_rec(r: &Rec) -> XmlRec {
    r.fields
        .iter()
        .map(|f| {
            (
                lossy(&f.tag),
                f.subs
                    .iter()
                    .map(|(c, v)| ((*c as char).to_string(), lossy(v)))
                    .collect(),
            )
        })
        .collect()
}

// ---- check -----------------------------------------------------------

/// the part of strptime that the workloads use: %Y, %m, %d and literals
fn is_date(fmt: &str, mut v: &[u8]) -> bool {
    let fmt = if fmt.is_empty() { "%Y-%m-%d" } else { fmt };
    let num = |v: &mut &[u8], max: usize| -> Option<u32> {
        while v.first().is_some_and(u8::is_ascii_whitespace) {
            *v = &v[1..];
        }
        let n = v.iter().take(max).take_while(|c| c.is_ascii_digit()).count();
        let (d, rest) = v.split_at(n);
        *v = rest;
        std::str::from_utf8(d).unwrap().parse().ok()
    };
    let (mut y, mut m, mut d) = (0, 0, 0);
    let mut f = fmt.bytes();
    while let Some(c) = f.next() {
        let got = match (c, if c == b'%' { f.next() } else { None }) {
            (_, Some(b'Y')) => {
                let neg = v.first() == Some(&b'-');
                if neg || v.first() == Some(&b'+') {
                    v = &v[1..];
                }
                match num(&mut v, 4) {
                    Some(n) => {
                        y = if neg { -(n as i32) } else { n as i32 };
                        true
                    }
                    None => false,
                }
            }
            (_, Some(b'm')) => num(&mut v, 2).map(|n| m = n).is_some(),
            (_, Some(b'd')) => num(&mut v, 2).map(|n| d = n).is_some(),
            (c, _) => {
                let ok = v.first() == Some(&c);
                v = v.get(1..).unwrap_or_default();
                ok
            }
        };
        if !got {
            return false;
        }
    }
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let last = match m {
        2 => 28 + leap as u32,
        4 | 6 | 9 | 11 => 30,
        1..=12 => 31,
        _ => return false,
    };
    v.is_empty() && d >= 1 && d <= last
}

/// ISO 7064 MOD 11-2 over 16 characters
fn is_isni(v: &[u8]) -> bool {
    let d: Vec<u8> =
        v.iter().copied().filter(|c| *c >= b'0').collect();
    if d.len() != 16 || d[..15].iter().any(|c| !c.is_ascii_digit()) {
        return false;
    }
    let mut total = 0u32;
    for c in &d[..15] {
        total = (total + (*c as u32 - 48)) * 2;
    }
    let want = (12 - total % 11) % 11;
    let have = if d[15] == b'X' { 10 } else { d[15] as u32 - 48 };
    want == have
}

fn joined(vs: Vec<Vec<u8>>) -> Option<Vec<u8>> {
    if vs.is_empty() {
        return None;
    }
    Some(
        vs.iter()
            .map(|v| lossy(v))
            .collect::<Vec<_>>()
            .join(", ")
            .into_bytes(),
    )
}

impl Rule {
    fn mopt(&self) -> MOpt {
        MOpt { ci: self.ci, sim: self.sim.unwrap_or(80) }
    }

    /// the message if the record breaks the rule
    fn fires(&self, r: &Rec) -> Option<Vec<u8>> {
        let m = self.mopt();
        let bad = |ok: &dyn Fn(&[u8]) -> bool| {
            let p = self.path.as_ref().unwrap();
            joined(
                p.values(r, m).into_iter().filter(|v| !ok(v)).collect(),
            )
        };
        match self.check.as_str() {
            "filter" => {
                let e = self.expr.as_ref().unwrap();
                (e.ok(r, m) != self.invert).then(Vec::new)
            }
            "allow" => bad(&|v| self.list.iter().any(|x| x.0 == v)),
            "datetime" => {
                bad(&|v| {
                    v.len() > self.offset
                        && is_date(&self.format, &v[self.offset..])
                })
            }
            "isni" => {
                let p = self.prefix.as_deref().unwrap_or("").as_bytes();
                bad(&|v| v.strip_prefix(p).is_none_or(is_isni))
            }
            "iso639-2b" => bad(&|v| LANGS.iter().any(|l| l.as_bytes() == v)),
            "jelc" => bad(&|v| JELS.iter().any(|l| l.as_bytes() == v)),
            "duplicates" => {
                let o = QOpt { squash: false, merge: false, sep: "|", m };
                let sep = self.sep.as_deref().unwrap_or("|");
                let mut n: BTreeMap<Vec<Vec<u8>>, usize> = BTreeMap::new();
                for row in query(&self.query, r, &o) {
                    if row.iter().any(|v| !v.is_empty()) {
                        *n.entry(row).or_default() += 1;
                    }
                }
                let t = self.threshold.unwrap_or(2);
                let d: Vec<String> = n
                    .into_iter()
                    .filter(|x| x.1 >= t)
                    .map(|x| {
                        let t: Vec<_> = x.0.iter().map(|v| lossy(v)).collect();
                        t.join(sep)
                    })
                    .collect();
                (!d.is_empty()).then(|| d.join("; ").into_bytes())
            }
            "unicode" => {
                let mut vals = Vec::new();
                for (_, v) in r.fields.iter().flat_map(|f| &f.subs) {
                    match std::str::from_utf8(v) {
                        Err(_) => return Some(Vec::new()),
                        Ok(s) => {
                            let nf = Some(self.normalization.clone());
                            if !self.normalization.is_empty()
                                && norm(s, &nf) != s
                            {
                                vals.push(v.clone());
                            }
                        }
                    }
                }
                joined(vals)
            }
            _ => None,
        }
    }

    pub fn selected(&self, c: &Cmd) -> bool {
        (c.select_rules.is_empty()
            || c.select_rules
                .iter()
                .any(|r| regex::Regex::new(r).unwrap().is_match(&self.id)))
            && (c.select_tags.is_empty()
                || self.tags.iter().any(|t| c.select_tags.contains(t)))
    }
}

fn check(case: &Case, all: &[Line], sel: &Sel, e: &mut Expect) -> Kind {
    let c = &case.cmd;
    let limit = c.limit.unwrap_or(0);
    let mut rows = Vec::new();
    let mut one_of = Vec::new();
    let mut count = 0;
    // per rule set and link rule: targets seen, sources by ppn
    type Links = (BTreeSet<Vec<u8>>, BTreeMap<Vec<u8>, Vec<Vec<u8>>>);
    let mut links: BTreeMap<(usize, String), Links> = BTreeMap::new();
    let level = |r: &Rule| {
        if r.level.is_empty() { "error".into() } else { r.level.clone() }
    };
    for l in all {
        e.used += 1;
        let Some(r) = &l.rec else {
            if case.skips() {
                continue;
            }
            e.fail = Some(bad_msg(case, l));
            break;
        };
        if !sel.ok(r) {
            continue;
        }
        let ppn = r.ppn().unwrap_or_default().to_vec();
        for (i, rs) in c.rulesets.iter().enumerate() {
            let rules: Vec<&Rule> =
                rs.rules.iter().filter(|r| r.selected(c)).collect();
            for rule in &rules {
                if rule.check == "link"
                    && rule.target.as_ref().is_none_or(|e| e.ok(r, rule.mopt()))
                {
                    let m = rule.mopt();
                    links
                        .entry((i, rule.id.clone()))
                        .or_default()
                        .0
                        .extend(rule.path2.as_ref().unwrap().values(r, m));
                }
            }
            if let Some(s) = &rs.scope
                && !s.ok(r, MOpt { ci: false, sim: 80 })
            {
                continue;
            }
            let mut hits = Vec::new();
            for rule in &rules {
                if rule.check == "link" {
                    let m = rule.mopt();
                    let vs = rule.path.as_ref().unwrap().values(r, m);
                    links
                        .entry((i, rule.id.clone()))
                        .or_default()
                        .1
                        .entry(ppn.clone())
                        .or_default()
                        .extend(vs);
                } else if let Some(msg) = rule.fires(r) {
                    hits.push(Finding {
                        ppn: ppn.clone(),
                        rule: rule.id.clone(),
                        level: level(rule),
                        msg,
                    });
                }
            }
            if rs.termination == "fast" {
                if !hits.is_empty() {
                    one_of.push(hits);
                }
            } else {
                rows.extend(hits);
            }
        }
        count += 1;
        if limit > 0 && count >= limit {
            e.limited = true;
            break;
        }
    }
    if e.fail.is_none() {
        for ((i, id), (seen, srcs)) in links {
            let rule =
                c.rulesets[i].rules.iter().find(|r| r.id == id).unwrap();
            for (ppn, vals) in srcs {
                let bad: Vec<_> =
                    vals.into_iter().filter(|v| !seen.contains(v)).collect();
                if let Some(msg) = joined(bad) {
                    rows.push(Finding {
                        ppn,
                        rule: id.clone(),
                        level: level(rule),
                        msg,
                    });
                }
            }
        }
    }
    let name = c.out.clone().unwrap_or_default();
    Kind::Check {
        rows,
        one_of,
        delim: if name.ends_with(".tsv") { b'\t' } else { b',' },
        txt: name.ends_with(".txt"),
    }
}

// ---- comparison ------------------------------------------------------

fn differ(name: &str, want: &[u8], got: &[u8]) -> String {
    let p = want
        .iter()
        .zip(got)
        .position(|(a, b)| a != b)
        .unwrap_or(want.len().min(got.len()));
    let from = p.saturating_sub(24);
    format!(
        "{name}: expected {} bytes, got {}, first difference at {p}: \
         expected ..{} got ..{}",
        want.len(),
        got.len(),
        show_n(&want[from.min(want.len())..], 80),
        show_n(&got[from.min(got.len())..], 80),
    )
}

pub fn parse_xml(s: &str) -> Result<Vec<XmlRec>, String> {
    #[derive(Debug)]
    enum T {
        Open(String, Vec<(String, String)>),
        Close(String),
        Text(String),
    }
    let unescape = |t: &str| -> Result<String, String> {
        let mut o = String::new();
        let mut rest = t;
        while let Some(p) = rest.find('&') {
            o.push_str(&rest[..p]);
            let q = rest[p..].find(';').ok_or("bare ampersand")? + p;
            match &rest[p + 1..q] {
                "amp" => o.push('&'),
                "lt" => o.push('<'),
                "gt" => o.push('>'),
                "quot" => o.push('"'),
                "apos" => o.push('\''),
                x => {
                    let n = x
                        .strip_prefix("#x")
                        .and_then(|h| u32::from_str_radix(h, 16).ok())
                        .or_else(|| {
                            x.strip_prefix('#').and_then(|d| d.parse().ok())
                        });
                    o.push(
                        n.and_then(char::from_u32)
                            .ok_or_else(|| format!("entity {x}"))?,
                    );
                }
            }
            rest = &rest[q + 1..];
        }
        o.push_str(rest);
        Ok(o)
    };
    let body = s.strip_prefix("<?xml ").ok_or("no declaration")?;
    let end = body.find("?>").ok_or("open declaration")?;
    let mut rest = &body[end + 2..];
    let mut toks = Vec::new();
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix('<') {
            let e = r.find('>').ok_or("open tag")?;
            let t = &r[..e];
            rest = &r[e + 1..];
            if let Some(n) = t.strip_prefix('/') {
                toks.push(T::Close(n.trim().to_string()));
                continue;
            }
            let (t, selfclose) = match t.strip_suffix('/') {
                Some(t) => (t, true),
                None => (t, false),
            };
            let (name, mut a) = match t.split_once(char::is_whitespace) {
                Some((n, a)) => (n, a.trim()),
                None => (t, ""),
            };
            let mut attrs = Vec::new();
            while !a.is_empty() {
                let (k, v) = a.split_once('=').ok_or("attribute")?;
                let v = v.trim_start();
                let q = v.chars().next().ok_or("attribute value")?;
                let v = &v[1..];
                let e = v.find(q).ok_or("attribute quote")?;
                attrs.push((k.trim().to_string(), unescape(&v[..e])?));
                a = v[e + 1..].trim_start();
            }
            toks.push(T::Open(name.to_string(), attrs));
            if selfclose {
                toks.push(T::Close(name.to_string()));
            }
        } else {
            let e = rest.find('<').unwrap_or(rest.len());
            toks.push(T::Text(unescape(&rest[..e])?));
            rest = &rest[e..];
        }
    }
    let mut stack: Vec<String> = Vec::new();
    let mut recs: Vec<XmlRec> = Vec::new();
    let mut text = String::new();
    let mut code = String::new();
    let mut roots = 0;
    let get = |a: &[(String, String)], k: &str| -> Result<String, String> {
        a.iter()
            .find(|x| x.0 == k)
            .map(|x| x.1.clone())
            .ok_or_else(|| format!("no {k} attribute"))
    };
    for t in toks {
        match t {
            T::Open(n, a) => {
                let parent = stack.last().map(|s| s.as_str()).unwrap_or("");
                match (parent, n.as_str()) {
                    ("", "collection") => roots += 1,
                    ("collection", "record") => recs.push(Vec::new()),
                    ("record", "datafield") => recs
                        .last_mut()
                        .unwrap()
                        .push((get(&a, "tag")?, Vec::new())),
                    ("datafield", "subfield") => {
                        code = get(&a, "code")?;
                        text.clear();
                    }
                    (p, n) => return Err(format!("<{n}> inside <{p}>")),
                }
                stack.push(n);
            }
            T::Close(n) => {
                if stack.pop().as_deref() != Some(n.as_str()) {
                    return Err(format!("unexpected </{n}>"));
                }
                if n == "subfield" {
                    recs.last_mut()
                        .and_then(|r| r.last_mut())
                        .ok_or("stray subfield")?
                        .1
                        .push((code.clone(), std::mem::take(&mut text)));
                }
            }
            T::Text(t) => {
                if stack.last().map(|s| s.as_str()) == Some("subfield") {
                    text.push_str(&t);
                } else if !t.trim().is_empty() {
                    return Err(format!("text {t:?} between elements"));
                }
            }
        }
    }
    if !stack.is_empty() || roots != 1 {
        return Err("document not closed".into());
    }
    Ok(recs)
}

fn parse_findings(
    data: &[u8],
    delim: u8,
    txt: bool,
) -> Result<Vec<Finding>, String> {
    if data.is_empty() {
        return Ok(Vec::new());
    }
    let mut rows =
        csv_parse(data, delim).ok_or("report is not complete csv")?;
    if txt {
        return rows
            .into_iter()
            .map(|r| {
                if r.len() != 1 {
                    return Err("report row".to_string());
                }
                Ok(Finding {
                    ppn: r[0].clone(),
                    rule: String::new(),
                    level: String::new(),
                    msg: Vec::new(),
                })
            })
            .collect();
    }
    let want: Vec<&[u8]> = vec![b"ppn", b"rule", b"level", b"message"];
    if rows[0] != want {
        return Err("report header".into());
    }
    rows.remove(0);
    rows.into_iter()
        .map(|r| {
            if r.len() != 4 {
                return Err(format!("report row of {} columns", r.len()));
            }
            Ok(Finding {
                ppn: r[0].clone(),
                rule: lossy(&r[1]),
                level: lossy(&r[2]),
                msg: r[3].clone(),
            })
        })
        .collect()
}

/// `delim` of a table that is drawn with lines
pub const TABLE: u8 = 0;
/// `delim` of a table in the Arrow format
pub const ARROW: u8 = 1;

/// The cells of a table that is drawn with lines, and in `want` what is left
/// when columns and rows are elided; `None` if the table is too wide to be
/// drawn without breaking cells into lines.
fn drawn(got: &[u8], want: &mut Vec<Row>) -> Option<Result<Vec<Row>, String>> {
    let elided = |v: &[u8]| v == "\u{2026}".as_bytes();
    let text = lossy(got);
    let rows: Vec<Row> = text
        .lines()
        .filter(|l| l.starts_with('\u{2502}'))
        .map(|l| {
            l.trim_matches('\u{2502}')
                .split('\u{2506}')
                .map(|v| v.trim().as_bytes().to_vec())
                .collect()
        })
        .collect();
    let Some(head) = rows.first() else { return Some(Err("no table".into())) };
    let cut = |n: usize, at: Option<usize>, have: usize| match at {
        // something is elided, and not nothing
        Some(k) if have <= n && n > have - 1 => Some((k, n - (have - 1 - k))),
        _ => None,
    };
    if let Some((a, b)) =
        cut(want[0].len(), head.iter().position(|v| elided(v)), head.len())
    {
        for r in want.iter_mut() {
            r.splice(a..b, ["\u{2026}".as_bytes().to_vec()]);
        }
    }
    if let Some((a, b)) = cut(
        want.len(),
        rows.iter().position(|r| elided(&r[0])),
        rows.len(),
    ) {
        let row = vec!["\u{2026}".as_bytes().to_vec(); want[0].len()];
        want.splice(a..b, [row]);
    }
    let width: usize = (0..want[0].len())
        .map(|k| {
            3 + want.iter().map(|r| lossy(&r[k]).chars().count()).max().unwrap_or(0)
        })
        .sum();
    (width < 78).then_some(Ok(rows))
}

impl Kind {
    /// does the decoded output agree; `prefix`: an unfinished run
    pub fn agrees(
        &self,
        name: &str,
        got: &[u8],
        prefix: bool,
    ) -> Result<(), String> {
        match self {
            Kind::Bytes(want) => {
                if prefix && want.starts_with(got) {
                    return Ok(());
                }
                if !prefix && want == got {
                    return Ok(());
                }
                Err(differ(name, want, got))
            }
            Kind::Json(want) => {
                if prefix {
                    return Ok(());
                }
                let text = std::str::from_utf8(got)
                    .map_err(|_| format!("{name}: json is not UTF-8"))?;
                let v: Value = serde_json::from_str(text)
                    .map_err(|e| format!("{name}: not json: {e}"))?;
                if v == Value::Array(want.clone()) {
                    Ok(())
                } else {
                    Err(format!(
                        "{name}: json differs: expected {} got {}",
                        show(Value::Array(want.clone()).to_string().as_bytes()),
                        show(got)
                    ))
                }
            }
            Kind::Xml(want) => {
                if prefix {
                    return Ok(());
                }
                let text = std::str::from_utf8(got)
                    .map_err(|_| format!("{name}: xml is not UTF-8"))?;
                let v = parse_xml(text)
                    .map_err(|e| format!("{name}: not well-formed: {e}"))?;
                if v == *want {
                    Ok(())
                } else {
                    Err(format!("{name}: xml differs: expected {want:?} got {v:?}"))
                }
            }
            Kind::Free => Ok(()),
            Kind::Sample { cands, n } => {
                if prefix {
                    return Ok(());
                }
                if cands.len() <= *n {
                    let all = cands.concat();
                    if all == got {
                        return Ok(());
                    }
                    return Err(differ(name, &all, got));
                }
                let mut left = cands.clone();
                let ls = lines(got);
                if ls.len() != *n {
                    return Err(format!(
                        "{name}: {} records drawn, expected {n}",
                        ls.len()
                    ));
                }
                for l in ls {
                    match left.iter().position(|c| c == l) {
                        Some(i) => {
                            left.swap_remove(i);
                        }
                        None => {
                            return Err(format!(
                                "{name}: drew {} more often than the input \
                                 holds it",
                                show_n(l, 80)
                            ));
                        }
                    }
                }
                Ok(())
            }
            Kind::Describe { table, delim } => {
                if prefix || *delim == ARROW {
                    return Ok(());
                }
                let mut codes: Vec<u8> =
                    table.values().flat_map(|t| t.keys().copied()).collect();
                codes.sort();
                codes.dedup();
                let mut want: Vec<Row> = vec![
                    std::iter::once(b"field".to_vec())
                        .chain(codes.iter().map(|c| vec![*c]))
                        .collect(),
                ];
                for (tag, t) in table {
                    want.push(
                        std::iter::once(tag.clone())
                            .chain(codes.iter().map(|c| {
                                t.get(c)
                                    .copied()
                                    .unwrap_or(0)
                                    .to_string()
                                    .into_bytes()
                            }))
                            .collect(),
                    );
                }
                let rows = if *delim == TABLE {
                    match drawn(got, &mut want) {
                        Some(rows) => rows?,
                        None => return Ok(()),
                    }
                } else {
                    csv_parse(got, *delim)
                        .ok_or_else(|| format!("{name}: not csv"))?
                };
                if rows == want {
                    Ok(())
                } else {
                    Err(format!(
                        "{name}: table differs: got {} expected {:?}",
                        show(got),
                        want.iter()
                            .map(|r| r
                                .iter()
                                .map(|v| lossy(v))
                                .collect::<Vec<_>>()
                                .join("|"))
                            .collect::<Vec<_>>()
                    ))
                }
            }
            Kind::Check { rows, one_of, delim, txt } => {
                let mut got = got;
                if prefix {
                    let n = got
                        .iter()
                        .rposition(|c| *c == b'\n')
                        .map(|p| p + 1)
                        .unwrap_or(0);
                    got = &got[..n];
                }
                let got = parse_findings(got, *delim, *txt)
                    .map_err(|e| format!("{name}: {e}"))?;
                let key = |f: &Finding| -> Finding {
                    if *txt {
                        Finding {
                            ppn: f.ppn.clone(),
                            rule: String::new(),
                            level: String::new(),
                            msg: Vec::new(),
                        }
                    } else {
                        // the order of the values of `duplicates` is free
                        let mut f = f.clone();
                        let s = lossy(&f.msg);
                        let mut p: Vec<&str> = s.split("; ").collect();
                        p.sort();
                        f.msg = p.join("; ").into_bytes();
                        f
                    }
                };
                let mut left: Vec<Finding> = got.iter().map(&key).collect();
                let mut take = |f: &Finding| -> bool {
                    match left.iter().position(|x| *x == *f) {
                        Some(i) => {
                            left.swap_remove(i);
                            true
                        }
                        None => false,
                    }
                };
                for f in rows {
                    if !take(&key(f)) && !prefix {
                        return Err(format!("{name}: finding missing: {}", f.show()));
                    }
                }
                // each of the others belongs to one record of a fast set
                let groups: Vec<Vec<Finding>> =
                    one_of.iter().map(|g| g.iter().map(&key).collect()).collect();
                let fits: Vec<Vec<usize>> = groups
                    .iter()
                    .map(|g| (0..left.len()).filter(|i| g.contains(&left[*i])).collect())
                    .collect();
                let mut owner: Vec<Option<usize>> = vec![None; left.len()];
                for g in 0..groups.len() {
                    let mut tried = vec![false; left.len()];
                    if !assign(g, &fits, &mut owner, &mut tried) && !prefix {
                        return Err(format!(
                            "{name}: no finding of the fast rule set for {}",
                            one_of[g][0].show()
                        ));
                    }
                }
                if let Some(i) = owner.iter().position(|o| o.is_none()) {
                    return Err(format!(
                        "{name}: unexpected finding {}",
                        left[i].show()
                    ));
                }
                Ok(())
            }
        }
    }
}

/// one step of the usual search for a maximum matching
fn assign(
    g: usize,
    fits: &[Vec<usize>],
    owner: &mut [Option<usize>],
    tried: &mut [bool],
) -> bool {
    for &i in &fits[g] {
        if tried[i] {
            continue;
        }
        tried[i] = true;
        let free = match owner[i] {
            None => true,
            Some(o) => assign(o, fits, owner, tried),
        };
        if free {
            owner[i] = Some(g);
            return true;
        }
    }
    false
}

impl Finding {
    pub fn show(&self) -> String {
        format!(
            "(ppn {}, rule {}, {}, {:?})",
            show(&self.ppn),
            self.rule,
            self.level,
            show(&self.msg)
        )
    }
}

/// the plain contents of one output
pub fn output_of(o: &Outcome, name: &str) -> Option<Vec<u8>> {
    if name == STDOUT {
        Some(o.stdout.clone())
    } else {
        o.files.get(name).map(|b| b.0.clone())
    }
}

impl Out {
    /// complete and right
    pub fn complete(&self, name: &str, got: &[u8]) -> Result<(), String> {
        let Some(new) = got.strip_prefix(self.old.as_slice()) else {
            return Err(format!("{name}: old contents gone"));
        };
        if self.gz {
            let g = gunzip(new);
            if !g.clean || new.is_empty() {
                return Err(format!(
                    "{name}: gzip stream damaged or incomplete ({} bytes)",
                    new.len()
                ));
            }
            return self.kind.agrees(name, &g.data, false);
        }
        self.kind.agrees(name, new, false)
    }

    /// at most the beginning of what belongs there
    pub fn prefix(&self, name: &str, got: &[u8]) -> Result<(), String> {
        let Some(new) = got.strip_prefix(self.old.as_slice()) else {
            if self.old.starts_with(got) && self.old.is_empty() {
                return Ok(());
            }
            return Err(format!("{name}: old contents gone"));
        };
        if self.gz {
            let g = gunzip(new);
            return self.kind.agrees(name, &g.data, true);
        }
        self.kind.agrees(name, new, true)
    }
}

/// nothing but the declared outputs may differ from the disk before
pub fn untouched(
    before: &Files,
    after: &Files,
    outs: &dyn Fn(&str) -> bool,
) -> Result<(), String> {
    for (k, v) in after {
        if outs(k) {
            continue;
        }
        match before.get(k) {
            None => return Err(format!("file {k} was created")),
            Some(b) if b != v => {
                return Err(format!("file {k} was changed"));
            }
            _ => {}
        }
    }
    for k in before.keys() {
        if !k.ends_with('/') && !outs(k) && !after.contains_key(k) {
            return Err(format!("file {k} was removed"));
        }
    }
    Ok(())
}

fn tail(o: &Outcome) -> String {
    let t = o.err_text();
    if t.is_empty() {
        String::new()
    } else {
        format!(" [{}]", show(t.as_bytes()))
    }
}

/// what a run that did not finish may leave in its outputs
pub fn prefixes(case: &Case, e: &Expect, o: &Outcome) -> Result<(), String> {
    let before = case.disk();
    for (name, out) in &e.outs {
        let Some(got) = output_of(o, name) else { continue };
        // never opened
        if before.get(name).is_some_and(|b| b.0 == got) {
            continue;
        }
        out.prefix(name, &got)?;
    }
    Ok(())
}

pub fn completes(e: &Expect, o: &Outcome) -> Result<(), String> {
    for (name, out) in &e.outs {
        match output_of(o, name) {
            Some(g) => out.complete(name, &g)?,
            None => return Err(format!("{name} is missing")),
        }
    }
    Ok(())
}

fn no_more(case: &Case, e: &Expect, o: &Outcome) -> Result<(), String> {
    if !e.outs.contains_key(STDOUT) && !o.stdout.is_empty() {
        return Err(format!(
            "unexpected bytes on stdout: {}",
            show_n(&o.stdout, 80)
        ));
    }
    untouched(&case.disk(), &o.files, &|k| e.outs.contains_key(k))?;
    if o.escapes > 0 {
        return Err(format!("tried to change {} outside", o.escape_path));
    }
    Ok(())
}

/// messages on stderr beyond the warning about squashed values
pub fn chatter(c: &Cmd, stderr: &[u8]) -> bool {
    lines(stderr).iter().any(|l| {
        !(c.squash && l.starts_with(b"WARNING: ") && l.ends_with(b"\n"))
    })
}

/// Holds in every world in which nothing failed.
pub fn conform(case: &Case, e: &Expect, o: &Outcome) -> Result<(), String> {
    if o.panicked() {
        return Err(format!("panic{}", tail(o)));
    }
    match &e.fail {
        None => {
            if o.end != End::Exit(0) {
                return Err(format!("ended with {:?}{}", o.end, tail(o)));
            }
            if chatter(&case.cmd, &o.stderr) && !case.cmd.progress {
                return Err(format!("unexpected diagnostics{}", tail(o)));
            }
            completes(e, o)?;
        }
        Some(m) => {
            if o.end != End::Exit(2) {
                return Err(format!(
                    "ended with {:?}, expected an error about: {m}{}",
                    o.end,
                    tail(o)
                ));
            }
            if !o.err_text().contains("error: ") || !o.err_text().contains(m) {
                return Err(format!("expected message {m:?}{}", tail(o)));
            }
            prefixes(case, e, o)?;
        }
    }
    no_more(case, e, o)
}

/// Did the reader of standard output go away during the run?
pub fn piped(case: &Case, o: &Outcome) -> bool {
    let gone = case.world.stdout_budget.is_some_and(|b| b.1 == libc::EPIPE);
    o.chan(STDOUT).is_some_and(|c| {
        c.gone || c.budget_fired > 0 && gone
    })
}

/// Did the world make any call fail (interruptions excepted)?
pub fn disturbed(o: &Outcome) -> bool {
    o.fired.iter().any(|n| *n > 0)
        || o.disk_full > 0
        || o.chans.iter().any(|c| {
            c.werr > 0 || c.rerr > 0 || c.budget_fired > 0
        })
}

/// Holds in every world, whatever failed.
pub fn survive(case: &Case, e: &Expect, o: &Outcome) -> Result<(), String> {
    if !disturbed(o) {
        return conform(case, e, o);
    }
    if o.panicked() {
        return Err(format!("panic{}", tail(o)));
    }
    match o.end {
        End::Exit(0) if piped(case, o) => prefixes(case, e, o)?,
        End::Exit(0) => {
            if let Some(m) = &e.fail {
                return Err(format!("success, expected an error about: {m}"));
            }
            completes(e, o)?;
        }
        End::Exit(2) => {
            if !o.err_text().contains("error: ") {
                return Err(format!("failed without a message{}", tail(o)));
            }
            prefixes(case, e, o)?;
        }
        End::Crash | End::Stall => prefixes(case, e, o)?,
        x => return Err(format!("ended with {x:?}{}", tail(o))),
    }
    no_more(case, e, o)
}

pub fn b(v: &[u8]) -> B {
    B(v.to_vec())
}
