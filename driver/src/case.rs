//! One simulated scenario as data: the command, the files it finds and the
//! world it runs in.  A case is what a replay file holds.

use std::io::Write as _;

use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::bytes::B;
use crate::rec::*;
use crate::sim::{Files, Proc, World};

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(default)]
pub struct SetFile {
    pub name: String,
    pub col: String,
    pub vals: Vec<B>,
    /// rows with an empty cell in between
    pub gaps: bool,
    /// every other value in quotes
    pub quoted: bool,
    /// what another column, that is not asked for, holds
    pub decoy: Option<B>,
    /// one of the prepared Arrow files
    pub ipc: Option<usize>,
}

macro_rules! prepared {
    ($($n:literal)*) => {
        [$(include_bytes!(concat!("../data/list", $n, ".ipc")) as &[u8]),*]
    };
}

/// Arrow files, made with data/ipcgen.rs.txt; data/index.txt tells the column
/// and the values of each.
pub const IPC: [&[u8]; 16] = prepared!(
    "00" "01" "02" "03" "04" "05" "06" "07" "08" "09" "10" "11" "12" "13"
    "14" "15"
);

pub fn ipc_list(k: usize) -> (&'static str, Vec<B>) {
    let index = include_str!("../data/index.txt");
    let (col, vals) = index.lines().nth(k).unwrap().split_once('|').unwrap();
    (col, vals.split(',').map(B::from).collect())
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(default)]
pub struct Input {
    /// "-" is standard input
    pub name: String,
    pub data: B,
    /// for .gz: where the plain data is cut into gzip members
    pub members: Vec<usize>,
    /// for .gz: keep only this many bytes of the compressed file
    pub cut: Option<usize>,
    /// for .gz: flip this bit of the compressed file
    pub flip: Option<usize>,
}

/// A damaged-rule check of the `check` command.
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(default)]
pub struct Rule {
    pub id: String,
    pub check: String,
    pub level: String,
    pub tags: Vec<String>,
    pub expr: Option<Expr>,
    pub invert: bool,
    pub ci: bool,
    pub path: Option<PathX>,
    pub path2: Option<PathX>,
    pub query: Vec<Frag>,
    pub threshold: Option<usize>,
    pub list: Vec<B>,
    pub offset: usize,
    pub normalization: String,
    /// similarity threshold in percent
    pub sim: Option<u32>,
    /// of a date
    pub format: String,
    /// of an ISNI
    pub prefix: Option<String>,
    /// between the columns of `duplicates`
    pub sep: Option<String>,
    /// records a link may lead to
    pub target: Option<Expr>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(default)]
pub struct RuleSet {
    pub file: String,
    pub scope: Option<Expr>,
    pub termination: String,
    pub rules: Vec<Rule>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(default)]
pub struct Cmd {
    pub name: String,
    pub skip: bool,
    pub limit: Option<usize>,
    pub ci: bool,
    pub sim: Option<u32>,
    pub expr: Option<Expr>,
    /// the filter expression is read from this file
    pub expr_file: Option<String>,
    pub and: Vec<Expr>,
    pub or: Vec<Expr>,
    pub not: Vec<Expr>,
    pub invert: bool,
    pub allow: Vec<SetFile>,
    pub deny: Vec<SetFile>,
    pub set_col: Option<String>,
    pub set_src: Option<PathX>,
    pub keep: Vec<Pred>,
    pub discard: Vec<Pred>,
    pub gzip: bool,
    pub append: bool,
    pub tee: Option<String>,
    pub progress: bool,
    pub out: Option<String>,
    /// chunk size, sample size, slice start, number of rows
    pub n: usize,
    pub end: usize,
    pub length: usize,
    /// count mode, explode level, unique strategy, convert target
    pub mode: String,
    pub from: String,
    pub unique: bool,
    pub query: Vec<Frag>,
    pub squash: bool,
    pub merge: bool,
    pub sep: Option<String>,
    pub no_empty: bool,
    pub tsv: bool,
    pub quote: String,
    pub header: Option<String>,
    pub no_header: bool,
    pub reverse: bool,
    pub threshold: Option<u64>,
    pub nf: Option<String>,
    pub path: Option<PathX>,
    pub template: Option<String>,
    pub outdir: Option<String>,
    pub seed: Option<u64>,
    pub rulesets: Vec<RuleSet>,
    pub select_rules: Vec<String>,
    pub select_tags: Vec<String>,
    /// for `config`: the rest of the command line
    pub words: Vec<String>,
    /// the whole command line, instead of everything above
    pub raw: Option<Vec<B>>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(default)]
pub struct Case {
    pub cmd: Cmd,
    /// further commands of a history
    pub steps: Vec<Cmd>,
    pub inputs: Vec<Input>,
    /// files that are there before the command starts
    pub files: Files,
    pub config_skip: bool,
    /// the normalization form in the configuration
    pub config_nf: Option<String>,
    pub world: World,
    /// further worlds the property looks at
    pub worlds: Vec<World>,
    /// whose turn it is, if several commands run together
    pub sched: Vec<u8>,
    /// property specific numbers
    pub x: Vec<i64>,
}

pub fn gz(data: &[u8], members: &[usize]) -> Vec<u8> {
    let mut cuts: Vec<usize> =
        members.iter().copied().filter(|c| *c <= data.len()).collect();
    cuts.sort();
    cuts.push(data.len());
    let mut out = Vec::new();
    let mut from = 0;
    for c in cuts {
        let mut e = flate2::write::GzEncoder::new(
            Vec::new(),
            flate2::Compression::new(1),
        );
        e.write_all(&data[from..c]).unwrap();
        out.extend(e.finish().unwrap());
        from = c;
    }
    out
}

/// What a reader that knows the format makes of a gzip file.
pub struct Gunzip {
    pub data: Vec<u8>,
    /// every member is complete and its checksum right
    pub clean: bool,
}

pub fn gunzip(raw: &[u8]) -> Gunzip {
    use std::io::Read;
    let mut data = Vec::new();
    let mut rest = raw;
    loop {
        if rest.is_empty() {
            return Gunzip { data, clean: true };
        }
        let mut d = flate2::bufread::GzDecoder::new(rest);
        let mut buf = [0u8; 4096];
        loop {
            match d.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => data.extend_from_slice(&buf[..n]),
                Err(_) => return Gunzip { data, clean: false },
            }
        }
        rest = d.into_inner();
    }
}

impl Input {
    pub fn new(name: &str, data: Vec<u8>) -> Input {
        Input { name: name.into(), data: B(data), ..Default::default() }
    }

    pub fn is_gz(&self) -> bool {
        self.name.ends_with(".gz")
    }

    /// the bytes on the disk
    pub fn raw(&self) -> Vec<u8> {
        if !self.is_gz() {
            return self.data.0.clone();
        }
        let mut v = gz(&self.data.0, &self.members);
        if let Some(n) = self.cut {
            v.truncate(n);
        }
        if let Some(b) = self.flip
            && b / 8 < v.len()
        {
            v[b / 8] ^= 1 << (b % 8);
        }
        v
    }
}

impl SetFile {
    pub fn raw(&self) -> Vec<u8> {
        if let Some(k) = self.ipc {
            return IPC[k].to_vec();
        }
        let mut o = Vec::new();
        let base = self.name.trim_end_matches(".gz");
        let sep = if base.ends_with(".tsv") { b'\t' } else { b',' };
        let txt = base.ends_with(".txt");
        let decoy = self.decoy.as_ref().filter(|_| !txt);
        if !txt {
            o.extend(b"nr");
            if decoy.is_some() {
                o.push(sep);
                o.extend(match self.col.as_str() {
                    "ppn" => &b"idn"[..],
                    "idn" => b"other",
                    _ => b"ppn",
                });
            }
            o.push(sep);
            o.extend(self.col.as_bytes());
            o.push(b'\n');
        }
        let cell = |o: &mut Vec<u8>, v: &[u8], q: bool| {
            if q || v.iter().any(|c| *c == sep || *c == b'"') {
                o.push(b'"');
                for c in v {
                    o.push(*c);
                    if *c == b'"' {
                        o.push(b'"');
                    }
                }
                o.push(b'"');
            } else {
                o.extend(v);
            }
        };
        // once in a while a cell is empty or a row is not complete
        for (i, v) in self.vals.iter().enumerate() {
            if !txt {
                let gap = self.gaps && i % 2 == 1;
                for gap in [true, false].into_iter().skip(!gap as usize) {
                    if gap {
                        o.push(b'x');
                    } else {
                        o.extend(i.to_string().as_bytes());
                    }
                    o.push(sep);
                    if let Some(d) = decoy {
                        cell(&mut o, &d.0, false);
                        o.push(sep);
                    }
                    if gap {
                        o.push(b'\n');
                    }
                }
            }
            cell(&mut o, &v.0, self.quoted && i % 2 == 0);
            o.push(b'\n');
        }
        if self.name.ends_with(".gz") { gz(&o, &[]) } else { o }
    }
}

fn toml_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl RuleSet {
    pub fn toml(&self) -> String {
        let mut o = String::new();
        if let Some(s) = &self.scope {
            o.push_str(&format!("scope = {}\n", toml_str(&s.show())));
        }
        if !self.termination.is_empty() {
            o.push_str(&format!(
                "termination = {}\n",
                toml_str(&self.termination)
            ));
        }
        for r in &self.rules {
            o.push_str(&format!("\n[rule.{}]\n", r.id));
            o.push_str(&format!("check = {}\n", toml_str(&r.check)));
            if !r.level.is_empty() {
                o.push_str(&format!("level = {}\n", toml_str(&r.level)));
            }
            if !r.tags.is_empty() {
                let t: Vec<_> =
                    r.tags.iter().map(|t| toml_str(t)).collect();
                o.push_str(&format!("tags = [{}]\n", t.join(", ")));
            } else if r.id.starts_with('Z') {
                o.push_str("tags = []\n");
            }
            // these two have no effect
            if r.id.starts_with('B') {
                o.push_str("description = \"d\"\nlink = \"https://x/\"\n");
            }
            if r.check != "unicode" {
                if r.ci {
                    o.push_str("case-ignore = true\n");
                }
                if let Some(s) = r.sim {
                    o.push_str(&format!(
                        "strsim-threshold = {}\n",
                        s as f64 / 100.0
                    ));
                }
            }
            if r.check == "datetime" {
                if r.offset > 0 {
                    o.push_str(&format!("offset = {}\n", r.offset));
                }
                if !r.format.is_empty() {
                    o.push_str(&format!("format = {}\n", toml_str(&r.format)));
                }
            }
            if let Some(p) = &r.prefix {
                o.push_str(&format!("prefix = {}\n", toml_str(p)));
            }
            match r.check.as_str() {
                "filter" => {
                    if let Some(e) = &r.expr {
                        o.push_str(&format!(
                            "filter = {}\n",
                            toml_str(&e.show())
                        ));
                    }
                    if r.invert {
                        o.push_str("invert-match = true\n");
                    }
                }
                "allow" => {
                    let p = r.path.as_ref().unwrap();
                    o.push_str(&format!(
                        "path = {}\n",
                        toml_str(&p.show())
                    ));
                    o.push_str(&format!(
                        "list = {{ filename = {}, column = \"code\" }}\n",
                        toml_str(&format!("{}.csv", r.id))
                    ));
                }
                "duplicates" => {
                    o.push_str(&format!(
                        "query = {}\n",
                        toml_str(&query_show(&r.query))
                    ));
                    if let Some(t) = r.threshold {
                        o.push_str(&format!("threshold = {t}\n"));
                    }
                    if let Some(s) = &r.sep {
                        o.push_str(&format!("separator = {}\n", toml_str(s)));
                    }
                }
                "link" => {
                    o.push_str(&format!(
                        "source = {{ path = {} }}\ntarget = {{ path = {}{} }}\n",
                        toml_str(&r.path.as_ref().unwrap().show()),
                        toml_str(&r.path2.as_ref().unwrap().show()),
                        match &r.target {
                            Some(e) => format!(
                                ", filter = {}",
                                toml_str(&e.show())
                            ),
                            None => String::new(),
                        },
                    ));
                }
                "unicode" => {
                    if !r.normalization.is_empty() {
                        o.push_str(&format!(
                            "normalization = {}\n",
                            toml_str(&r.normalization)
                        ));
                    }
                    if let Some(p) = &r.path {
                        o.push_str(&format!(
                            "path = {}\n",
                            toml_str(&p.show())
                        ));
                    }
                }
                _ => {
                    if let Some(p) = &r.path {
                        o.push_str(&format!(
                            "path = {}\n",
                            toml_str(&p.show())
                        ));
                    }
                }
            }
        }
        o
    }
}

pub const CONFIG: &str = "home/.config/pica/config.toml";

impl Case {
    /// everything on the disk before the command starts
    pub fn disk(&self) -> Files {
        let mut f = self.files.clone();
        let mut put = |k: &str, v: Vec<u8>| {
            f.entry(k.to_string()).or_insert(B(v));
        };
        for i in &self.inputs {
            if i.name != "-" {
                put(&i.name, i.raw());
            }
        }
        let cmds = std::iter::once(&self.cmd).chain(&self.steps);
        for cmd in cmds {
            for s in cmd.allow.iter().chain(&cmd.deny) {
                put(&s.name, s.raw());
            }
            if let (Some(n), Some(e)) = (&cmd.expr_file, &cmd.expr) {
                put(n, e.show().into_bytes());
            }
            for rs in &cmd.rulesets {
                put(&rs.file, rs.toml().into_bytes());
                for r in rs.rules.iter().filter(|r| r.check == "allow") {
                    let mut o = b"code\n".to_vec();
                    for v in &r.list {
                        o.extend(&v.0);
                        o.push(b'\n');
                    }
                    put(&format!("{}.csv", r.id), o);
                }
            }
        }
        if self.config_skip || self.config_nf.is_some() {
            let mut t = format!("skip-invalid = {}\n", self.config_skip);
            if let Some(nf) = &self.config_nf {
                t.push_str(&format!("normalization = \"{nf}\"\n"));
            }
            put(CONFIG, t.into_bytes());
        }
        f
    }

    pub fn stdin(&self) -> B {
        self.inputs
            .iter()
            .find(|i| i.name == "-")
            .map(|i| i.data.clone())
            .unwrap_or_default()
    }

    /// the command as the configured normalization form makes it
    pub fn normalized(&self) -> Case {
        let mut c = self.clone();
        if c.config_nf.is_none() {
            return c;
        }
        let nf = self.config_nf.clone();
        let f = move |s: &str| crate::model::norm(s, &nf);
        let m = &mut c.cmd;
        m.expr.rewrite(&f);
        m.and.rewrite(&f);
        m.or.rewrite(&f);
        m.not.rewrite(&f);
        m.query.rewrite(&f);
        for rs in m.rulesets.iter_mut() {
            rs.scope.rewrite(&f);
            for r in rs.rules.iter_mut() {
                r.expr.rewrite(&f);
                r.path.rewrite(&f);
                r.path2.rewrite(&f);
                r.query.rewrite(&f);
                r.prefix.rewrite(&f);
                r.sep.rewrite(&f);
                r.target.rewrite(&f);
            }
        }
        c
    }

    pub fn skips(&self) -> bool {
        self.cmd.skip || self.config_skip
    }

    pub fn proc_in(&self, w: &World) -> Proc {
        Proc { argv: self.argv(), stdin: self.stdin(), world: w.clone() }
    }

    pub fn proc(&self) -> Proc {
        self.proc_in(&self.world)
    }

    pub fn argv(&self) -> Vec<B> {
        let c = &self.cmd;
        if let Some(raw) = &c.raw {
            return raw.clone();
        }
        let n = c.name.as_str();
        let mut a: Vec<String> = vec![n.into()];
        if n == "config" {
            a.extend(c.words.iter().cloned());
            return a.into_iter().map(|s| B(s.into_bytes())).collect();
        }
        let mut flag = |on: bool, s: &str| {
            if on {
                a.push(s.into());
            }
        };
        flag(c.skip && n != "invalid", "-s");
        flag(c.ci, "-i");
        flag(c.invert, "-v");
        flag(c.gzip, "-g");
        flag(c.append, "--append");
        flag(c.progress, "-p");
        flag(c.unique && n != "select" && n != "frequency", "--unique");
        flag(c.unique && (n == "select" || n == "frequency"), "-u");
        flag(c.squash, "--squash");
        flag(c.merge, "--merge");
        flag(c.no_empty, "--no-empty-columns");
        flag(c.no_header, "--no-header");
        flag(c.reverse, "--reverse");
        flag(c.tsv, "--tsv");
        let mut opt = |k: &str, v: Option<String>| {
            if let Some(v) = v {
                a.push(format!("{k}={v}"));
            }
        };
        opt("--limit", c.limit.map(|n| n.to_string()));
        opt("--strsim-threshold", c.sim.map(|n| n.to_string()));
        if n != "filter" && n != "check" {
            opt("--where", c.expr.as_ref().map(|e| e.show()));
        }
        for e in &c.and {
            opt("--and", Some(e.show()));
        }
        for e in &c.or {
            opt("--or", Some(e.show()));
        }
        for e in &c.not {
            opt("--not", Some(e.show()));
        }
        for s in &c.allow {
            opt("--allow-list", Some(s.name.clone()));
        }
        for s in &c.deny {
            opt("--deny-list", Some(s.name.clone()));
        }
        opt("--filter-set-column", c.set_col.clone());
        opt("--filter-set-source", c.set_src.as_ref().map(|p| p.show()));
        if !c.keep.is_empty() {
            opt("--keep", Some(preds_show(&c.keep)));
        }
        if !c.discard.is_empty() {
            opt("--discard", Some(preds_show(&c.discard)));
        }
        opt("--tee", c.tee.clone());
        opt("--output", c.out.clone());
        opt("--separator", c.sep.clone());
        opt("--header", c.header.clone());
        opt("--threshold", c.threshold.map(|n| n.to_string()));
        opt("--translit", c.nf.clone());
        opt("--template", c.template.clone());
        opt("--outdir", c.outdir.clone());
        opt("--seed", c.seed.map(|n| n.to_string()));
        if !c.quote.is_empty() {
            opt("--quote-style", Some(c.quote.clone()));
        }
        if n == "filter" {
            opt("--file", c.expr_file.clone());
        }
        match n {
            "concat" if c.unique && !c.mode.is_empty() => {
                opt("--unique-strategy", Some(c.mode.clone()));
            }
            "count" | "describe" if !c.mode.is_empty() => a.push(format!("--{}", c.mode)),
            "frequency" if c.n > 0 => a.push(format!("-n{}", c.n)),
            "slice" => {
                let mut opt = |k: &str, v: usize| {
                    if v > 0 {
                        a.push(format!("{k}={v}"));
                    }
                };
                opt("--start", c.n);
                opt("--end", c.end);
                opt("--length", c.length);
            }
            "convert" => {
                a.push(format!("--from={}", c.from));
                a.push(format!("--to={}", c.mode));
            }
            "check" => {
                for r in &c.rulesets {
                    a.push(format!("--rule-set={}", r.file));
                }
                for r in &c.select_rules {
                    a.push(format!("--rule={r}"));
                }
                if !c.select_tags.is_empty() {
                    a.push(format!(
                        "--tags={}",
                        c.select_tags.join(if c.select_tags[0] == "t1" {
                            " , "
                        } else {
                            ","
                        })
                    ));
                }
            }
            _ => {}
        }
        // positional arguments
        let ex = c.expr.as_ref().map(|e| e.show()).unwrap_or_default();
        match n {
            "filter" if c.expr_file.is_none() => a.push(ex),
            "explode" => a.push(c.mode.clone()),
            "frequency" | "select" => a.push(query_show(&c.query)),
            "partition" => a.push(c.path.as_ref().unwrap().show()),
            "sample" | "split" => a.push(c.n.to_string()),
            _ => {}
        }
        let plain_stdin =
            self.inputs.len() == 1 && self.inputs[0].name == "-";
        if !plain_stdin {
            for i in &self.inputs {
                a.push(i.name.clone());
            }
        }
        a.into_iter().map(|s| B(s.into_bytes())).collect()
    }
}

// ---- compact JSON ----------------------------------------------------

fn strip(v: Value, d: &Value) -> Value {
    match (v, d) {
        (Value::Object(m), Value::Object(dm)) => Value::Object(
            m.into_iter()
                .filter(|(k, v)| dm.get(k) != Some(v))
                .map(|(k, v)| {
                    let d = dm.get(&k).cloned().unwrap_or(Value::Null);
                    (k, strip(v, &d))
                })
                .collect(),
        ),
        (Value::Array(xs), _) => Value::Array(
            xs.into_iter().map(|x| strip(x, &Value::Null)).collect(),
        ),
        (v, _) => v,
    }
}

impl Case {
    pub fn json(&self) -> Value {
        let mut v = strip(
            serde_json::to_value(self).unwrap(),
            &serde_json::to_value(Case::default()).unwrap(),
        );
        // inputs and rules have defaults of their own
        let di = serde_json::to_value(Input::default()).unwrap();
        if let Some(Value::Array(a)) = v.get_mut("inputs") {
            for x in a.iter_mut() {
                *x = strip(x.take(), &di);
            }
        }
        let dr = serde_json::to_value(Rule::default()).unwrap();
        if let Some(Value::Array(a)) =
            v.get_mut("cmd").and_then(|c| c.get_mut("rulesets"))
        {
            for s in a.iter_mut() {
                if let Some(Value::Array(rs)) = s.get_mut("rules") {
                    for x in rs.iter_mut() {
                        *x = strip(x.take(), &dr);
                    }
                }
            }
        }
        v
    }

    pub fn from_json(v: Value) -> Result<Case, String> {
        serde_json::from_value(v).map_err(|e| e.to_string())
    }

    /// the command line for people
    pub fn line(&self) -> String {
        let mut s = String::from("pica");
        for a in self.argv() {
            let t = crate::bytes::show(&a.0);
            if t.is_empty()
                || t.contains(|c: char| " '\"|&()[]{}$#!*?".contains(c))
            {
                s.push_str(&format!(" '{}'", t.replace('\'', "'\\''")));
            } else {
                s.push(' ');
                s.push_str(&t);
            }
        }
        s
    }
}
