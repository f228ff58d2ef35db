//! The reference reading of PICA+ data and of the filter, path and query
//! expressions the workloads use.  Written from the documentation and the
//! format description; it shares no code with the program under test.

use serde::{Deserialize, Serialize};

use crate::bytes::B;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fld {
    pub tag: Vec<u8>,
    pub occ: Option<Vec<u8>>,
    pub subs: Vec<(u8, Vec<u8>)>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rec {
    pub fields: Vec<Fld>,
}

impl Fld {
    pub fn put(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.tag);
        if let Some(o) = &self.occ {
            out.push(b'/');
            out.extend_from_slice(o);
        }
        out.push(b' ');
        for (c, v) in &self.subs {
            out.push(0x1f);
            out.push(*c);
            out.extend_from_slice(v);
        }
        out.push(0x1e);
    }

    pub fn tag_occ(&self) -> Vec<u8> {
        let mut v = self.tag.clone();
        if let Some(o) = &self.occ {
            v.push(b'/');
            v.extend_from_slice(o);
        }
        v
    }

    /// 0 main, 1 local, 2 copy
    pub fn level(&self) -> u8 {
        self.tag[0] - b'0'
    }
}

impl Rec {
    pub fn bytes(&self) -> Vec<u8> {
        let mut out = Vec::new();
        for f in &self.fields {
            f.put(&mut out);
        }
        out.push(b'\n');
        out
    }

    /// one whole line, or nothing when it is not a record
    pub fn parse(line: &[u8]) -> Option<Rec> {
        let mut p = 0usize;
        let mut fields = Vec::new();
        let at = |i: usize| line.get(i).copied();
        while at(p)? != b'\n' {
            let t = line.get(p..p + 4)?;
            if !(b'0'..=b'2').contains(&t[0])
                || !t[1].is_ascii_digit()
                || !t[2].is_ascii_digit()
                || !(t[3].is_ascii_uppercase() || t[3] == b'@')
            {
                return None;
            }
            let tag = t.to_vec();
            p += 4;
            let mut occ = None;
            if at(p)? == b'/' {
                p += 1;
                let s = p;
                while at(p)?.is_ascii_digit() && p - s < 3 {
                    p += 1;
                }
                if p - s < 2 {
                    return None;
                }
                occ = Some(line[s..p].to_vec());
            }
            if at(p)? != b' ' {
                return None;
            }
            p += 1;
            let mut subs = Vec::new();
            while at(p)? == 0x1f {
                let c = at(p + 1)?;
                if !c.is_ascii_alphanumeric() {
                    return None;
                }
                p += 2;
                let s = p;
                while at(p)? != 0x1f && at(p)? != 0x1e {
                    p += 1;
                }
                subs.push((c, line[s..p].to_vec()));
            }
            if at(p)? != 0x1e {
                return None;
            }
            p += 1;
            fields.push(Fld { tag, occ, subs });
        }
        if p + 1 != line.len() || fields.is_empty() {
            return None;
        }
        Some(Rec { fields })
    }

    pub fn ppn(&self) -> Option<&[u8]> {
        for f in &self.fields {
            if f.tag == b"003@" && occ_ok(&Occ::None, &f.occ) {
                for (c, v) in &f.subs {
                    if *c == b'0' {
                        return Some(v);
                    }
                }
            }
        }
        None
    }
}

/// the lines of a stream, each with its line feed
pub fn lines(data: &[u8]) -> Vec<&[u8]> {
    data.split_inclusive(|c| *c == b'\n').collect()
}

pub fn lossy(v: &[u8]) -> String {
    String::from_utf8_lossy(v).to_string()
}

// ---- expressions -----------------------------------------------------

/// What a configured normalization form does to an expression: its strings
/// are rewritten.
pub trait Rewrite {
    fn rewrite(&mut self, f: &dyn Fn(&str) -> String);
}

impl Rewrite for String {
    fn rewrite(&mut self, f: &dyn Fn(&str) -> String) {
        *self = f(self);
    }
}

impl Rewrite for B {
    fn rewrite(&mut self, f: &dyn Fn(&str) -> String) {
        if let Ok(s) = std::str::from_utf8(&self.0) {
            self.0 = f(s).into_bytes();
        }
    }
}

impl<T: Rewrite> Rewrite for Vec<T> {
    fn rewrite(&mut self, f: &dyn Fn(&str) -> String) {
        self.iter_mut().for_each(|x| x.rewrite(f));
    }
}

impl<T: Rewrite> Rewrite for Option<T> {
    fn rewrite(&mut self, f: &dyn Fn(&str) -> String) {
        self.iter_mut().for_each(|x| x.rewrite(f));
    }
}

impl Rewrite for SubExpr {
    fn rewrite(&mut self, f: &dyn Fn(&str) -> String) {
        match self {
            SubExpr::Rel { val, .. } => val.rewrite(f),
            SubExpr::In { vals, .. } | SubExpr::Contains { vals, .. } => {
                vals.rewrite(f)
            }
            SubExpr::Regex { res, .. } => res.rewrite(f),
            SubExpr::Exists { .. } | SubExpr::Count { .. } => {}
            SubExpr::And(a, b) | SubExpr::Or(a, b) | SubExpr::Xor(a, b) => {
                a.rewrite(f);
                b.rewrite(f);
            }
            SubExpr::Not(a) => a.rewrite(f),
        }
    }
}

impl Rewrite for Expr {
    fn rewrite(&mut self, f: &dyn Fn(&str) -> String) {
        match self {
            Expr::Exists { .. } => {}
            Expr::Dot { sub, .. } | Expr::Curly { sub, .. } => sub.rewrite(f),
            Expr::Count { sub, .. } => sub.rewrite(f),
            Expr::And(a, b) | Expr::Or(a, b) | Expr::Xor(a, b) => {
                a.rewrite(f);
                b.rewrite(f);
            }
            Expr::Not(a) => a.rewrite(f),
        }
    }
}

impl Rewrite for PathX {
    fn rewrite(&mut self, f: &dyn Fn(&str) -> String) {
        self.sub.rewrite(f);
    }
}

impl Rewrite for FmtF {
    fn rewrite(&mut self, f: &dyn Fn(&str) -> String) {
        match self {
            FmtF::Val { pre, suf, .. } => {
                pre.rewrite(f);
                suf.rewrite(f);
            }
            FmtF::Group { of, .. } => of.rewrite(f),
            FmtF::Then(l) | FmtF::Cons(l) => l.rewrite(f),
        }
    }
}

impl Rewrite for Frag {
    fn rewrite(&mut self, f: &dyn Fn(&str) -> String) {
        match self {
            Frag::Path(p) => p.rewrite(f),
            Frag::Lit(l) => l.rewrite(f),
            Frag::Fmt(x) => {
                x.body.rewrite(f);
                x.sub.rewrite(f);
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Tag(pub Vec<String>);

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Occ {
    None,
    /// the same, written `/00`
    Zero,
    Exact(String),
    Range(String, String),
    Any,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum SubExpr {
    /// code set, operator, value
    Rel { all: bool, codes: String, op: String, val: B },
    In { all: bool, codes: String, not: bool, vals: Vec<B> },
    Contains { all: bool, codes: String, vals: Vec<B> },
    Regex { all: bool, codes: String, not: bool, res: Vec<String> },
    Exists { codes: String },
    Count { codes: String, op: String, n: usize },
    And(Box<SubExpr>, Box<SubExpr>),
    Or(Box<SubExpr>, Box<SubExpr>),
    Xor(Box<SubExpr>, Box<SubExpr>),
    Not(Box<SubExpr>),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Expr {
    Exists { tag: Tag, occ: Occ },
    Dot { all: bool, tag: Tag, occ: Occ, sub: SubExpr },
    Curly { all: bool, tag: Tag, occ: Occ, sub: SubExpr },
    Count { tag: Tag, occ: Occ, sub: Option<SubExpr>, op: String, n: usize },
    And(Box<Expr>, Box<Expr>),
    Or(Box<Expr>, Box<Expr>),
    Xor(Box<Expr>, Box<Expr>),
    Not(Box<Expr>),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Pred {
    pub tag: Tag,
    pub occ: Occ,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct PathX {
    pub tag: Tag,
    pub occ: Occ,
    pub codes: Vec<String>,
    #[serde(default)]
    pub sub: Option<SubExpr>,
    #[serde(default)]
    pub curly: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Frag {
    Path(PathX),
    Lit(String),
    Fmt(FmtX),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct FmtX {
    pub tag: Tag,
    pub occ: Occ,
    pub body: FmtF,
    pub sub: Option<SubExpr>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FmtF {
    /// at most `max` values, each between `pre` and `suf`
    Val {
        change: String,
        pre: Option<String>,
        codes: String,
        max: Option<usize>,
        suf: Option<String>,
    },
    Group { change: String, of: Box<FmtF> },
    /// up to the first that has no value
    Then(Vec<FmtF>),
    Cons(Vec<FmtF>),
}

fn change(how: &str, mut v: Vec<u8>) -> Vec<u8> {
    let each = |v: &[u8], f: &dyn Fn(char) -> String| {
        let mut out = Vec::new();
        for chunk in v.utf8_chunks() {
            for c in chunk.valid().chars() {
                out.extend(f(c).bytes());
            }
            out.extend(chunk.invalid());
        }
        out
    };
    if how.contains('o')
        && let Some(i) = v.iter().position(|c| *c == b'@')
    {
        v.remove(i);
    }
    if how.contains('t') {
        // no other white space is generated
        v = v.trim_ascii().to_vec();
    }
    if how.contains('w') {
        v.retain(|c| *c != b' ');
    }
    if how.contains('l') {
        v = each(&v, &|c| c.to_lowercase().to_string());
    }
    if how.contains('u') {
        v = each(&v, &|c| c.to_uppercase().to_string());
    }
    v
}

impl FmtF {
    fn value(&self, f: &Fld) -> Vec<u8> {
        match self {
            FmtF::Val { change: how, pre, codes, max, suf } => {
                let mut out = Vec::new();
                let all = f.subs.iter().filter(|s| has(codes, s.0));
                for s in all.take(max.unwrap_or(usize::MAX)) {
                    out.extend(pre.iter().flat_map(|p| p.bytes()));
                    out.extend(&s.1);
                    out.extend(suf.iter().flat_map(|p| p.bytes()));
                }
                change(how, out)
            }
            FmtF::Group { change: how, of } => change(how, of.value(f)),
            FmtF::Then(l) => {
                let mut out = Vec::new();
                for x in l {
                    let v = x.value(f);
                    if v.is_empty() {
                        break;
                    }
                    out.extend(v);
                }
                out
            }
            FmtF::Cons(l) => l.iter().flat_map(|x| x.value(f)).collect(),
        }
    }

    pub fn show(&self) -> String {
        let how = |c: &String| {
            if c.is_empty() { String::new() } else { format!("?{c} ") }
        };
        let list = |l: &[FmtF], op: &str| {
            l.iter().map(|x| x.show()).collect::<Vec<_>>().join(op)
        };
        match self {
            FmtF::Val { change, pre, codes, max, suf } => {
                let mut o = how(change);
                if let Some(p) = pre {
                    o.push_str(&quote(p.as_bytes()));
                    o.push(' ');
                }
                o.push_str(&codes_show(codes));
                match max {
                    None => o.push_str(".."),
                    Some(1) => {}
                    Some(n) => o.push_str(&format!("..{n}")),
                }
                if let Some(p) = suf {
                    o.push(' ');
                    o.push_str(&quote(p.as_bytes()));
                }
                o
            }
            FmtF::Group { change, of } => {
                format!("({}{})", how(change), of.show())
            }
            FmtF::Then(l) => list(l, " <$> "),
            FmtF::Cons(l) => list(l, " <*> "),
        }
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct MOpt {
    pub ci: bool,
    /// similarity threshold in percent
    pub sim: u32,
}

impl Tag {
    pub fn ok(&self, t: &[u8]) -> bool {
        self.0.iter().zip(t).all(|(p, c)| {
            p == "." || p.as_bytes().contains(c)
        })
    }

    pub fn exact(t: &str) -> Tag {
        Tag(t.chars().map(|c| c.to_string()).collect())
    }

    pub fn show(&self) -> String {
        self.0
            .iter()
            .map(|p| {
                if p.len() == 1 { p.clone() } else { codes_show(p) }
            })
            .collect()
    }
}

pub fn occ_ok(m: &Occ, o: &Option<Vec<u8>>) -> bool {
    match (m, o) {
        (Occ::Any, _) => true,
        (Occ::None | Occ::Zero, None) => true,
        (Occ::None | Occ::Zero, Some(v)) => v == b"00",
        (_, None) => false,
        (Occ::Exact(e), Some(v)) => e.as_bytes() == v.as_slice(),
        (Occ::Range(a, b), Some(v)) => {
            v.as_slice() >= a.as_bytes() && v.as_slice() <= b.as_bytes()
        }
    }
}

pub fn occ_show(o: &Occ) -> String {
    match o {
        Occ::None => String::new(),
        Occ::Zero => "/00".into(),
        Occ::Exact(e) => format!("/{e}"),
        Occ::Range(a, b) => format!("/{a}-{b}"),
        Occ::Any => "/*".into(),
    }
}

/// which of several spellings of an expression to use
fn style(s: &str) -> usize {
    s.bytes().map(|c| c as usize).sum()
}

fn codes_show(c: &str) -> String {
    let b = c.as_bytes();
    if b.len() == 1 {
        c.to_string()
    } else if b.windows(2).all(|w| w[1] == w[0] + 1) {
        format!("[{}-{}]", b[0] as char, b[b.len() - 1] as char)
    } else {
        format!("[{c}]")
    }
}

fn has(codes: &str, c: u8) -> bool {
    codes == "*" || codes.as_bytes().contains(&c)
}

fn quote(v: &[u8]) -> String {
    let s = String::from_utf8_lossy(v);
    let q = if style(&s) % 3 == 1 { '"' } else { '\'' };
    let mut o = String::from(q);
    for c in s.chars() {
        match c {
            c if c == q => {
                o.push('\\');
                o.push(c);
            }
            '\\' => o.push_str("\\\\"),
            '\t' => o.push_str("\\t"),
            '/' if style(&s) % 2 == 0 => o.push_str("\\/"),
            c => o.push(c),
        }
    }
    o.push(q);
    o
}

fn num(op: &str, a: usize, b: usize) -> bool {
    match op {
        "==" => a == b,
        "!=" => a != b,
        ">=" => a >= b,
        ">" => a > b,
        "<=" => a <= b,
        _ => a < b,
    }
}

pub fn low(v: &[u8], o: MOpt) -> Vec<u8> {
    if !o.ci {
        return v.to_vec();
    }
    let mut out = Vec::new();
    for chunk in v.utf8_chunks() {
        for c in chunk.valid().chars() {
            out.extend(c.to_lowercase().to_string().bytes());
        }
        out.extend(chunk.invalid());
    }
    out
}

fn contains(h: &[u8], n: &[u8]) -> bool {
    n.is_empty() || h.windows(n.len()).any(|w| w == n)
}

fn quant(all: bool, mut it: impl Iterator<Item = bool>) -> bool {
    if all { it.all(|x| x) } else { it.any(|x| x) }
}

fn edit_distance(a: &[char], b: &[char]) -> usize {
    let mut row: Vec<usize> = (0..=b.len()).collect();
    for i in 1..=a.len() {
        let mut diag = row[0];
        row[0] = i;
        for j in 1..=b.len() {
            let up = row[j];
            row[j] = (diag + (a[i - 1] != b[j - 1]) as usize)
                .min(up + 1)
                .min(row[j - 1] + 1);
            diag = up;
        }
    }
    row[b.len()]
}

fn similar(a: &[u8], b: &[u8], o: MOpt) -> bool {
    let f = |v: &[u8]| -> Vec<char> {
        let s = lossy(v);
        if o.ci { s.to_lowercase() } else { s }.chars().collect()
    };
    let (a, b) = (f(a), f(b));
    let n = a.len().max(b.len());
    let score = if n == 0 {
        1.0
    } else {
        1.0 - edit_distance(&a, &b) as f64 / n as f64
    };
    score > o.sim as f64 / 100.0
}

impl SubExpr {
    pub fn ok(&self, subs: &[(u8, Vec<u8>)], o: MOpt) -> bool {
        let pick = |codes: &str| -> Vec<&[u8]> {
            subs.iter()
                .filter(|s| has(codes, s.0))
                .map(|s| s.1.as_slice())
                .collect()
        };
        match self {
            SubExpr::Rel { all, codes, op, val } => {
                let v = low(&val.0, o);
                let test = |s: &[u8]| {
                    let x = low(s, o);
                    match op.as_str() {
                        "==" => x == v,
                        "!=" => x != v,
                        "=^" => x.starts_with(&v),
                        "!^" => !x.starts_with(&v),
                        "=$" => x.ends_with(&v),
                        "!$" => !x.ends_with(&v),
                        _ => similar(&val.0, s, o),
                    }
                };
                quant(*all, pick(codes).into_iter().map(test))
            }
            SubExpr::In { all, codes, not, vals } => quant(
                *all,
                pick(codes).into_iter().map(|s| {
                    let x = low(s, o);
                    vals.iter().any(|v| low(&v.0, o) == x) != *not
                }),
            ),
            SubExpr::Contains { all, codes, vals } => quant(
                *all,
                pick(codes).into_iter().map(|s| {
                    let x = low(s, o);
                    vals.iter().any(|v| contains(&x, &low(&v.0, o)))
                }),
            ),
            SubExpr::Regex { all, codes, not, res } => {
                let rs: Vec<_> = res
                    .iter()
                    .map(|re| {
                        regex::bytes::RegexBuilder::new(re)
                            .case_insensitive(o.ci)
                            .build()
                            .unwrap()
                    })
                    .collect();
                quant(
                    *all,
                    pick(codes)
                        .into_iter()
                        .map(|s| rs.iter().any(|r| r.is_match(s)) != *not),
                )
            }
            SubExpr::Exists { codes } => !pick(codes).is_empty(),
            SubExpr::Count { codes, op, n } => {
                num(op, pick(codes).len(), *n)
            }
            SubExpr::And(a, b) => a.ok(subs, o) && b.ok(subs, o),
            SubExpr::Or(a, b) => a.ok(subs, o) || b.ok(subs, o),
            SubExpr::Xor(a, b) => a.ok(subs, o) != b.ok(subs, o),
            SubExpr::Not(a) => !a.ok(subs, o),
        }
    }

    fn level(&self) -> u8 {
        match self {
            SubExpr::Or(..) => 0,
            SubExpr::Xor(..) => 1,
            SubExpr::And(..) => 2,
            SubExpr::Not(..) => 4,
            _ => 3,
        }
    }

    /// with only the parentheses the precedence rules call for; the right
    /// operand of a chain is parenthesised so that chains fold to the left
    fn at(&self, min: u8) -> String {
        let s = self.show();
        if self.level() < min { format!("({s})") } else { s }
    }

    pub fn show(&self) -> String {
        let q = |all: &bool| if *all { "ALL " } else { "" };
        let list = |vals: &Vec<B>| {
            let l: Vec<_> = vals.iter().map(|v| quote(&v.0)).collect();
            let l = l.join(", ");
            format!("[{l}{}]", ["", ",", "", " , "][style(&l) % 4])
        };
        match self {
            SubExpr::Rel { all, codes, op, val } => format!(
                "{}{} {op} {}",
                q(all),
                codes_show(codes),
                quote(&val.0)
            ),
            SubExpr::In { all, codes, not, vals } => format!(
                "{}{} {}in {}",
                q(all),
                codes_show(codes),
                if *not { "not " } else { "" },
                list(vals)
            ),
            SubExpr::Contains { all, codes, vals } => format!(
                "{}{} =? {}",
                q(all),
                codes_show(codes),
                if vals.len() == 1 { quote(&vals[0].0) } else { list(vals) }
            ),
            SubExpr::Regex { all, codes, not, res } => format!(
                "{}{} {} {}",
                q(all),
                codes_show(codes),
                if *not { "!~" } else { "=~" },
                if res.len() == 1 {
                    format!("'{}'", res[0])
                } else {
                    let l: Vec<_> =
                        res.iter().map(|r| format!("'{r}'")).collect();
                    format!("[{}]", l.join(", "))
                }
            ),
            SubExpr::Exists { codes } => format!("{}?", codes_show(codes)),
            SubExpr::Count { codes, op, n } => {
                format!("#{} {op} {n}", codes_show(codes))
            }
            SubExpr::And(a, b) => format!("{} && {}", a.at(2), b.at(3)),
            SubExpr::Or(a, b) => format!("{} || {}", a.at(0), b.at(1)),
            SubExpr::Xor(a, b) => format!("{} XOR {}", a.at(1), b.at(2)),
            SubExpr::Not(a) => match **a {
                SubExpr::Exists { .. } | SubExpr::Not(..) => {
                    format!("!{}", a.show())
                }
                _ => format!("!({})", a.show()),
            },
        }
    }
}

impl Expr {
    pub fn ok(&self, r: &Rec, o: MOpt) -> bool {
        let pick = |t: &Tag, c: &Occ| -> Vec<&Fld> {
            r.fields
                .iter()
                .filter(|f| t.ok(&f.tag) && occ_ok(c, &f.occ))
                .collect()
        };
        match self {
            Expr::Exists { tag, occ } => !pick(tag, occ).is_empty(),
            Expr::Dot { all, tag, occ, sub }
            | Expr::Curly { all, tag, occ, sub } => quant(
                *all,
                pick(tag, occ).into_iter().map(|f| sub.ok(&f.subs, o)),
            ),
            Expr::Count { tag, occ, sub, op, n } => num(
                op,
                pick(tag, occ)
                    .iter()
                    .filter(|f| match sub {
                        Some(s) => s.ok(&f.subs, o),
                        None => true,
                    })
                    .count(),
                *n,
            ),
            Expr::And(a, b) => a.ok(r, o) && b.ok(r, o),
            Expr::Or(a, b) => a.ok(r, o) || b.ok(r, o),
            Expr::Xor(a, b) => a.ok(r, o) != b.ok(r, o),
            Expr::Not(a) => !a.ok(r, o),
        }
    }

    fn level(&self) -> u8 {
        match self {
            Expr::Or(..) => 0,
            Expr::Xor(..) => 1,
            Expr::And(..) => 2,
            Expr::Not(..) => 4,
            _ => 3,
        }
    }

    fn at(&self, min: u8) -> String {
        let s = self.show();
        if self.level() < min { format!("({s})") } else { s }
    }

    pub fn show(&self) -> String {
        let q = |all: &bool| if *all { "ALL " } else { "" };
        match self {
            Expr::Exists { tag, occ } => {
                format!("{}{}?", tag.show(), occ_show(occ))
            }
            Expr::Dot { all, tag, occ, sub } => format!(
                "{}{}{}.{}",
                q(all),
                tag.show(),
                occ_show(occ),
                sub.show()
            ),
            Expr::Curly { all, tag, occ, sub } => format!(
                "{}{}{}{{ {} }}",
                q(all),
                tag.show(),
                occ_show(occ),
                sub.show()
            ),
            Expr::Count { tag, occ, sub, op, n } => format!(
                "#{}{}{} {op} {n}",
                tag.show(),
                occ_show(occ),
                match sub {
                    Some(s) => format!("{{ {} }}", s.show()),
                    None => String::new(),
                }
            ),
            Expr::And(a, b) => format!("{} && {}", a.at(2), b.at(3)),
            Expr::Or(a, b) => format!("{} || {}", a.at(0), b.at(1)),
            Expr::Xor(a, b) => format!("{} XOR {}", a.at(1), b.at(2)),
            Expr::Not(a) => match **a {
                Expr::Exists { .. } | Expr::Not(..) => {
                    format!("!{}", a.show())
                }
                _ => format!("!({})", a.show()),
            },
        }
    }
}

impl Pred {
    pub fn ok(&self, f: &Fld) -> bool {
        self.tag.ok(&f.tag) && occ_ok(&self.occ, &f.occ)
    }
}

pub fn preds_show(ps: &[Pred]) -> String {
    ps.iter()
        .map(|p| format!("{}{}", p.tag.show(), occ_show(&p.occ)))
        .collect::<Vec<_>>()
        .join(",")
}

impl PathX {
    pub fn simple(tag: &str, code: &str) -> PathX {
        PathX {
            tag: Tag::exact(tag),
            occ: Occ::None,
            codes: vec![code.into()],
            sub: None,
            curly: false,
        }
    }

    pub fn show(&self) -> String {
        let t = format!("{}{}", self.tag.show(), occ_show(&self.occ));
        if !self.curly {
            return format!("{t}.{}", codes_show(&self.codes[0]));
        }
        let c = self
            .codes
            .iter()
            .map(|c| codes_show(c))
            .collect::<Vec<_>>()
            .join(", ");
        match &self.sub {
            Some(s) => format!("{t}{{ ({c}) | {} }}", s.show()),
            None => format!("{t}{{ {c} }}"),
        }
    }

    pub fn fields<'a>(&self, r: &'a Rec, o: MOpt) -> Vec<&'a Fld> {
        r.fields
            .iter()
            .filter(|f| {
                self.tag.ok(&f.tag)
                    && occ_ok(&self.occ, &f.occ)
                    && match &self.sub {
                        Some(s) => s.ok(&f.subs, o),
                        None => true,
                    }
            })
            .collect()
    }

    /// the values the path addresses, in record order
    pub fn values(&self, r: &Rec, o: MOpt) -> Vec<Vec<u8>> {
        self.fields(r, o)
            .iter()
            .flat_map(|f| f.subs.iter())
            .filter(|s| self.codes.iter().any(|c| has(c, s.0)))
            .map(|s| s.1.clone())
            .collect()
    }
}

pub type Row = Vec<Vec<u8>>;

fn join(vs: &[Vec<u8>], sep: &str) -> Vec<u8> {
    vs.join(sep.as_bytes())
}

fn cross(a: Vec<Row>, b: Vec<Row>) -> Vec<Row> {
    let mut out = Vec::new();
    for x in &a {
        for y in &b {
            let mut r = x.clone();
            r.extend(y.iter().cloned());
            out.push(r);
        }
    }
    out
}

pub struct QOpt<'a> {
    pub squash: bool,
    pub merge: bool,
    pub sep: &'a str,
    pub m: MOpt,
}

impl Frag {
    fn rows(&self, r: &Rec, q: &QOpt) -> Vec<Row> {
        match self {
            Frag::Lit(s) => vec![vec![s.clone().into_bytes()]],
            Frag::Fmt(x) => {
                let of = PathX {
                    tag: x.tag.clone(),
                    occ: x.occ.clone(),
                    codes: Vec::new(),
                    sub: x.sub.clone(),
                    curly: true,
                };
                let mut out: Vec<Row> = of
                    .fields(r, q.m)
                    .into_iter()
                    .map(|f| vec![x.body.value(f)])
                    .filter(|row| !row[0].is_empty())
                    .collect();
                if out.is_empty() {
                    out.push(vec![Vec::new()]);
                }
                out
            }
            Frag::Path(p) => {
                let mut out: Vec<Row> = Vec::new();
                for f in p.fields(r, q.m) {
                    let mut rows: Option<Vec<Row>> = None;
                    for cs in &p.codes {
                        let mut vals: Vec<Vec<u8>> = f
                            .subs
                            .iter()
                            .filter(|s| has(cs, s.0))
                            .map(|s| s.1.clone())
                            .collect();
                        if vals.is_empty() {
                            vals.push(Vec::new());
                        }
                        if q.squash {
                            vals = vec![join(&vals, q.sep)];
                        }
                        let col: Vec<Row> =
                            vals.into_iter().map(|v| vec![v]).collect();
                        rows = Some(match rows {
                            None => col,
                            Some(r) => cross(r, col),
                        });
                    }
                    out.extend(rows.unwrap_or_default());
                }
                if out.is_empty() {
                    out.push(vec![Vec::new(); p.codes.len()]);
                }
                out
            }
        }
    }

    pub fn show(&self) -> String {
        match self {
            Frag::Lit(s) => quote(s.as_bytes()),
            Frag::Fmt(x) => format!(
                "{}{}{{ {}{} }}",
                x.tag.show(),
                occ_show(&x.occ),
                x.body.show(),
                match &x.sub {
                    Some(s) => format!(" | {}", s.show()),
                    None => String::new(),
                }
            ),
            Frag::Path(p) => p.show(),
        }
    }
}

pub fn query(frags: &[Frag], r: &Rec, q: &QOpt) -> Vec<Row> {
    let mut acc: Option<Vec<Row>> = None;
    for f in frags {
        let mut rows = f.rows(r, q);
        if q.merge {
            let n = rows[0].len();
            let merged: Row = (0..n)
                .map(|i| {
                    let col: Vec<Vec<u8>> =
                        rows.iter().map(|r| r[i].clone()).collect();
                    join(&col, q.sep)
                })
                .collect();
            rows = vec![merged];
        }
        acc = Some(match acc {
            None => rows,
            Some(a) => cross(a, rows),
        });
    }
    acc.unwrap_or_default()
}

pub fn query_show(frags: &[Frag]) -> String {
    frags.iter().map(|f| f.show()).collect::<Vec<_>>().join(", ")
}

// ---- csv -------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Quote {
    Necessary,
    Always,
    NonNumeric,
    Never,
}

pub fn csv_row(out: &mut Vec<u8>, row: &[Vec<u8>], delim: u8, q: Quote) {
    for (i, v) in row.iter().enumerate() {
        if i > 0 {
            out.push(delim);
        }
        let needs = v.iter().any(|c| {
            *c == delim || *c == b'"' || *c == b'\n' || *c == b'\r'
        });
        let quote = match q {
            Quote::Always => true,
            Quote::Never => false,
            Quote::Necessary => needs || (row.len() == 1 && v.is_empty()),
            Quote::NonNumeric => {
                needs
                    || match std::str::from_utf8(v) {
                        Ok(s) => {
                            s.parse::<f64>().is_err()
                                && s.parse::<i128>().is_err()
                        }
                        Err(_) => true,
                    }
            }
        };
        if quote {
            out.push(b'"');
            for c in v {
                if *c == b'"' {
                    out.push(b'"');
                }
                out.push(*c);
            }
            out.push(b'"');
        } else {
            out.extend_from_slice(v);
        }
    }
    out.push(b'\n');
}

/// reads csv the way a spreadsheet would
pub fn csv_parse(data: &[u8], delim: u8) -> Option<Vec<Row>> {
    let mut rows = Vec::new();
    let mut row: Row = Vec::new();
    let mut cur = Vec::new();
    let mut i = 0;
    let mut quoted = false;
    let mut any = false;
    while i < data.len() {
        let c = data[i];
        if quoted {
            if c == b'"' {
                if data.get(i + 1) == Some(&b'"') {
                    cur.push(b'"');
                    i += 1;
                } else {
                    quoted = false;
                }
            } else {
                cur.push(c);
            }
        } else if c == b'"' && cur.is_empty() {
            quoted = true;
            any = true;
        } else if c == delim {
            row.push(std::mem::take(&mut cur));
            any = true;
        } else if c == b'\n' {
            row.push(std::mem::take(&mut cur));
            rows.push(std::mem::take(&mut row));
            any = false;
        } else {
            cur.push(c);
            any = true;
        }
        i += 1;
    }
    if quoted || any || !cur.is_empty() {
        return None;
    }
    Some(rows)
}
