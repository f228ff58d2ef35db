//! C24: the reader on a scripted transport, or on a file.

use std::io::{self, ErrorKind, Read, Write};
use std::path::Path;

use flate2::Compression;
use flate2::write::GzEncoder;
use pica_record::io::{ReadPicaError, ReaderBuilder, RecordsIter};
use pica_record::primitives::RecordRef;
use serde::{Deserialize, Serialize};

use crate::bytes::{B, show};
use crate::data;
use crate::rec::Rec;
use crate::rng::Rng;
use crate::run::{Seen, kind, kinds};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    /// at most so many bytes
    Data(usize),
    Intr,
    Fail(String),
    /// from here on
    Dead(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Store {
    /// a `Read` that follows the script
    Script { steps: Vec<Step>, rest: usize },
    Plain,
    /// sizes of the members
    Gzip { members: Vec<usize> },
    /// the same, cut off after so many bytes
    Cut { members: Vec<usize>, at: usize },
    /// the same with one bit changed
    Flip { members: Vec<usize>, at: usize, bit: u8 },
    Missing,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub lines: Vec<B>,
    /// bytes behind the last line feed
    pub tail: B,
    pub store: Store,
    pub source: Option<String>,
    /// which calls ask for string records, in turn
    pub strings: Vec<bool>,
}

struct Wire<'a> {
    data: &'a [u8],
    pos: usize,
    steps: std::vec::IntoIter<Step>,
    rest: usize,
    dead: Option<ErrorKind>,
    /// position and kind of the errors returned so far
    errors: Vec<(usize, ErrorKind)>,
    seen: &'a std::cell::RefCell<Seen>,
    calls: usize,
    stuck: bool,
}

impl Read for Wire<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut seen = self.seen.borrow_mut();
        self.calls += 1;
        if self.calls > 1000 + 4 * self.data.len() + self.steps.len() {
            self.stuck = true;
            return Ok(0);
        }
        if let Some(k) = self.dead {
            self.errors.push((self.pos, k));
            seen.note("read-error", self.pos as u64);
            return Err(k.into());
        }
        let n = match self.steps.next() {
            Some(Step::Intr) => {
                seen.note("read-interrupted", self.pos as u64);
                return Err(ErrorKind::Interrupted.into());
            }
            Some(Step::Fail(k)) => {
                let k = kind(&k);
                self.errors.push((self.pos, k));
                seen.note("read-error-once", self.pos as u64);
                return Err(k.into());
            }
            Some(Step::Dead(k)) => {
                let k = kind(&k);
                self.dead = Some(k);
                self.errors.push((self.pos, k));
                seen.note("read-error-permanent", self.pos as u64);
                return Err(k.into());
            }
            Some(Step::Data(n)) => n.max(1),
            None => self.rest.max(1),
        };
        let n = n.min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if n < buf.len() && self.pos < self.data.len() {
            seen.note("short-read", self.pos as u64);
        } else {
            seen.mark(7, self.pos as u64);
        }
        Ok(n)
    }
}

pub fn gz(data: &[u8], members: &[usize]) -> (Vec<u8>, Vec<usize>) {
    let mut out = Vec::new();
    let mut ends = Vec::new();
    let mut p = 0;
    let mut put = |s: &[u8], out: &mut Vec<u8>| {
        let mut e = GzEncoder::new(Vec::new(), Compression::fast());
        e.write_all(s).unwrap();
        out.extend(e.finish().unwrap());
        ends.push(out.len());
    };
    for m in members {
        let q = (p + m).min(data.len());
        put(&data[p..q], &mut out);
        p = q;
    }
    if p < data.len() || members.is_empty() {
        put(&data[p..], &mut out);
    }
    (out, ends)
}

pub fn draw(g: &mut Rng) -> Case {
    let lines = data::lines(g);
    let tail = if g.pct(15) {
        let mut t = data::record(g, true);
        t.pop();
        if g.pct(50) {
            let k = g.range(1, t.len());
            t.truncate(k);
        }
        t
    } else {
        vec![]
    };
    let total = lines.iter().map(|l| l.0.len()).sum::<usize>() + tail.len();
    let members = |g: &mut Rng| -> Vec<usize> {
        let n = g.below(4);
        (0..n).map(|_| g.below(total + 1)).collect()
    };
    let store = match g.below(20) {
        0 => Store::Plain,
        1 => Store::Gzip { members: members(g) },
        2 | 3 => {
            let m = members(g);
            let all: Vec<u8> = lines.iter().flat_map(|l| l.0.clone()).chain(tail.clone()).collect();
            let at = g.below(gz(&all, &m).0.len() + 1);
            Store::Cut { members: m, at }
        }
        4 => {
            let m = members(g);
            let all: Vec<u8> = lines.iter().flat_map(|l| l.0.clone()).chain(tail.clone()).collect();
            let at = g.below(gz(&all, &m).0.len());
            Store::Flip { members: m, at, bit: g.below(8) as u8 }
        }
        5 => Store::Missing,
        _ => {
            let rest = *g.pick(&[1, 2, 7, 100, 8191, 8192, 1 << 20]);
            let mut steps = Vec::new();
            let n = g.below(12);
            let mut left = total;
            for _ in 0..n {
                steps.push(match g.below(10) {
                    0..=4 => {
                        let k = match g.below(3) {
                            0 => g.range(1, 3),
                            1 => g.range(1, 60),
                            _ => g.range(1, left.max(1)),
                        };
                        left = left.saturating_sub(k);
                        Step::Data(k)
                    }
                    5 | 6 => Step::Intr,
                    7 | 8 => Step::Fail(g.pick(kinds()).to_string()),
                    _ if g.pct(50) => Step::Dead(g.pick(kinds()).to_string()),
                    _ => Step::Intr,
                });
                // a line is often the place to fail
                if g.pct(25) {
                    let k = steps
                        .iter()
                        .map(|s| if let Step::Data(n) = s { *n } else { 0 })
                        .sum::<usize>();
                    let mut p = 0;
                    for l in &lines {
                        p += l.0.len();
                        if p > k {
                            steps.push(Step::Data(p - k));
                            break;
                        }
                    }
                }
            }
            Store::Script { steps, rest }
        }
    };
    let strings = match g.below(4) {
        0 => vec![false],
        1 => vec![true],
        _ => (0..g.range(2, 6)).map(|_| g.pct(50)).collect(),
    };
    Case {
        lines,
        tail: B(tail),
        store,
        source: match g.below(4) {
            0 => None,
            1 => Some("-".into()),
            2 => Some("a b (1).dat".into()),
            _ => Some("dump.dat".into()),
        },
        strings,
    }
}

#[derive(Debug, PartialEq)]
enum Item {
    Rec(Vec<u8>),
    Parse(String),
    Utf8(String),
    Io(ErrorKind),
    End,
}

fn same_structure(r: &RecordRef, line: &[u8]) -> Result<(), String> {
    let Some(want) = Rec::parse(line) else {
        return Err(format!("a record was read from {}", show(line)));
    };
    let got = r.fields();
    if got.len() != want.fields.len() {
        return Err(format!("{} fields instead of {}", got.len(), want.fields.len()));
    }
    for (a, b) in got.iter().zip(&want.fields) {
        let ok = a.tag().to_string().as_bytes() == b.tag
            && a.occurrence().map(|o| o.as_bytes().to_vec()) == b.occ
            && a.subfields().len() == b.subs.len()
            && a.subfields()
                .iter()
                .zip(&b.subs)
                .all(|(x, (c, v))| x.code().as_byte() == *c && x.value().as_bytes() == &v[..]);
        if !ok {
            return Err(format!("a field differs in the record read from {}", show(line)));
        }
    }
    Ok(())
}

fn err_item(e: ReadPicaError) -> Result<Item, String> {
    let is_parse = matches!(e, ReadPicaError::Parse { .. });
    if e.skip_parse_err(true) != is_parse || e.skip_parse_err(false) {
        return Err(format!("skip_parse_err is wrong for {e}"));
    }
    let text = e.to_string();
    Ok(match e {
        ReadPicaError::Parse { msg, .. } => {
            if !text.contains(&msg) {
                return Err(format!("the error {text} does not show its message {msg}"));
            }
            Item::Parse(msg)
        }
        ReadPicaError::Utf8 { msg, .. } => Item::Utf8(msg),
        ReadPicaError::IO(e) => Item::Io(e.kind()),
    })
}

fn names(msg: &str, line: usize, source: &Option<String>) -> bool {
    let digits = |s: &str| -> Vec<usize> {
        let mut v = Vec::new();
        let mut cur = String::new();
        for c in s.chars().chain([' ']) {
            if c.is_ascii_digit() {
                cur.push(c);
            } else if !cur.is_empty() {
                v.push(cur.parse().unwrap_or(0));
                cur.clear();
            }
        }
        v
    };
    let mut rest = msg.to_string();
    if let Some(s) = source {
        let s = if s == "-" { "stdin" } else { s };
        if !msg.contains(s) {
            return false;
        }
        rest = msg.replacen(s, "", 1);
    }
    digits(&rest) == vec![line]
}

/// Walks through a reader; `errors` are the failures the transport has
/// produced when the walk is over.
fn walk<R: Read>(
    c: &Case,
    mut rd: impl RecordsIterExt,
    _r: std::marker::PhantomData<R>,
    source: &Option<String>,
    fatal: &Fatal,
) -> Result<Vec<ErrorKind>, String> {
    let mut all = Vec::new();
    for l in &c.lines {
        all.extend(crate::rec::lines(&l.0).iter().map(|x| x.to_vec()));
    }
    if !c.tail.0.is_empty() {
        all.extend(crate::rec::lines(&c.tail.0).iter().map(|x| x.to_vec()));
    }
    let mut i = 0;
    let mut turn = 0;
    let mut errors = Vec::new();
    loop {
        let string = c.strings[turn % c.strings.len()];
        turn += 1;
        let item = if string { rd.string() } else { rd.byte() }?;
        match item {
            Item::Io(k) => {
                errors.push(k);
                if matches!(fatal, Fatal::Any) || errors.len() > 40 {
                    return Ok(errors);
                }
                continue;
            }
            Item::End => {
                if i < all.len() && !matches!(fatal, Fatal::Any) {
                    return Err(format!("the reader ended after {i} of {} lines", all.len()));
                }
                if i < all.len() {
                    return Err(format!(
                        "a damaged stream was taken for a complete one: {i} of {} lines",
                        all.len()
                    ));
                }
                // and stays there
                match if string { rd.byte() } else { rd.string() }? {
                    Item::End => return Ok(errors),
                    Item::Io(k) => errors.push(k),
                    x => return Err(format!("after its end the reader yields {x:?}")),
                }
                return Ok(errors);
            }
            _ => {}
        }
        if i >= all.len() {
            return Err(format!("after the last line the reader yields {item:?}"));
        }
        let line = &all[i];
        i += 1;
        let valid = Rec::parse(line).is_some();
        let utf8 = std::str::from_utf8(line).is_ok();
        match item {
            Item::Rec(b) => {
                if !valid {
                    return Err(format!("line {i} is no record but was read as one: {}", show(line)));
                }
                if &b != line {
                    return Err(format!(
                        "line {i} was read as another record: {} instead of {}",
                        show(&b),
                        show(line)
                    ));
                }
                if string && !utf8 {
                    return Err(format!("line {i} is not UTF-8 but is a string record"));
                }
            }
            Item::Parse(m) => {
                if valid {
                    return Err(format!("line {i} is a record but was refused: {}", show(line)));
                }
                if !names(&m, i, source) {
                    return Err(format!("line {i} of {source:?} was reported as: {m}"));
                }
            }
            Item::Utf8(m) => {
                if !string {
                    return Err("a byte record was refused because of its encoding".into());
                }
                if !valid || utf8 {
                    return Err(format!("line {i} was reported as not UTF-8: {}", show(line)));
                }
                if !names(&m, i, source) {
                    return Err(format!("line {i} of {source:?} was reported as: {m}"));
                }
            }
            _ => unreachable!(),
        }
    }
}

enum Fatal {
    /// the stream is damaged: the first error ends the walk
    Any,
    No,
}

trait RecordsIterExt {
    fn byte(&mut self) -> Result<Item, String>;
    fn string(&mut self) -> Result<Item, String>;
}

/// any reader of the library, through its trait
struct Rd<F, G>(F, G);

impl<F: FnMut() -> Result<Item, String>, G: FnMut() -> Result<Item, String>> RecordsIterExt
    for Rd<F, G>
{
    fn byte(&mut self) -> Result<Item, String> {
        (self.0)()
    }
    fn string(&mut self) -> Result<Item, String> {
        (self.1)()
    }
}

macro_rules! walk {
    ($c:expr, $rd:expr, $source:expr, $fatal:expr, $check:expr) => {{
        let rd = std::cell::RefCell::new($rd);
        let byte = || -> Result<Item, String> {
            let mut rd = rd.borrow_mut();
            let it = match rd.next_byte_record() {
                None => Item::End,
                Some(Ok(r)) => {
                    let mut b = Vec::new();
                    r.write_to(&mut b).map_err(|e| e.to_string())?;
                    same_structure(&r, &b)?;
                    Item::Rec(b)
                }
                Some(Err(e)) => err_item(e)?,
            };
            drop(rd);
            $check(&it)?;
            Ok(it)
        };
        let string = || -> Result<Item, String> {
            let mut rd = rd.borrow_mut();
            let it = match rd.next_string_record() {
                None => Item::End,
                Some(Ok(r)) => {
                    let mut b = Vec::new();
                    r.write_to(&mut b).map_err(|e| e.to_string())?;
                    same_structure(&r, &b)?;
                    Item::Rec(b)
                }
                Some(Err(e)) => err_item(e)?,
            };
            drop(rd);
            $check(&it)?;
            Ok(it)
        };
        walk::<std::io::Empty>($c, Rd(byte, string), std::marker::PhantomData, $source, $fatal)
    }};
}

pub fn judge(c: &Case, dir: &Path, seen: &mut Seen) -> Result<bool, String> {
    let all: Vec<u8> = c.lines.iter().flat_map(|l| l.0.clone()).chain(c.tail.0.clone()).collect();
    if c.strings.is_empty() {
        return Ok(false);
    }
    seen.bytes(&all);
    let none = |_: &Item| -> Result<(), String> { Ok(()) };
    match &c.store {
        Store::Script { steps, rest } => {
            let cell = std::cell::RefCell::new(std::mem::take(seen));
            let mut wire = Wire {
                data: &all,
                pos: 0,
                steps: steps.clone().into_iter(),
                rest: *rest,
                dead: None,
                errors: Vec::new(),
                seen: &cell,
                calls: 0,
                stuck: false,
            };
            // The transport stays outside, so that it can be asked what it
            // has delivered whenever an item arrives.
            struct Shared<'a, 'b>(&'a std::cell::RefCell<&'a mut Wire<'b>>);
            impl Read for Shared<'_, '_> {
                fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                    self.0.borrow_mut().read(buf)
                }
            }
            let r = {
                let wire = std::cell::RefCell::new(&mut wire);
                let rd = ReaderBuilder::new().from_reader(Shared(&wire), c.source.clone());
                // an error is handed on by the call that met it
                let told = std::cell::Cell::new(0);
                let check = |it: &Item| -> Result<(), String> {
                    let w = wire.borrow();
                    if let Item::Io(k) = it {
                        let n = told.get();
                        if w.errors.get(n).map(|e| e.1) != Some(*k) {
                            return Err(format!(
                                "I/O error {k:?} was reported, the transport failed with {:?}",
                                w.errors.get(n)
                            ));
                        }
                        told.set(n + 1);
                    }
                    if w.errors.len() != told.get() {
                        return Err(format!(
                            "the transport failed with {:?} but the reader yields {it:?}",
                            w.errors.last()
                        ));
                    }
                    Ok(())
                };
                walk!(c, rd, &c.source, &Fatal::No, check)
            };
            let errs = wire.errors.len();
            if wire.stuck {
                return Err("the reader calls the transport for ever".into());
            }
            *seen = cell.into_inner();
            r.map(|_| errs > 0 || c.lines.len() > 1 && (steps.len() > 1 || *rest < 8192))
        }
        s => {
            let gzip = !matches!(s, Store::Plain | Store::Missing);
            let path = dir.join(if gzip { "in.dat.gz" } else { "in.dat" });
            let _ = std::fs::remove_file(&path);
            let mut whole = true;
            let bytes = match s {
                Store::Plain => Some(all.clone()),
                Store::Gzip { members } => Some(gz(&all, members).0),
                Store::Cut { members, at } => {
                    let (mut b, ends) = gz(&all, members);
                    b.truncate(*at);
                    if ends.contains(at) || *at == 0 {
                        // a complete, but shorter stream
                        seen.note("gzip-cut-at-member", *at as u64);
                        return Ok(false);
                    }
                    whole = *at >= *ends.last().unwrap();
                    seen.note("gzip-truncated", *at as u64);
                    Some(b)
                }
                Store::Flip { members, at, bit } => {
                    let (mut b, _) = gz(&all, members);
                    if *at >= b.len() {
                        return Ok(false);
                    }
                    b[*at] ^= 1 << (bit & 7);
                    whole = false;
                    seen.note("gzip-bit-flipped", *at as u64);
                    Some(b)
                }
                _ => None,
            };
            if let Some(b) = &bytes {
                std::fs::write(&path, b).map_err(|e| e.to_string())?;
            }
            let rd = match ReaderBuilder::new().from_path(&path) {
                Err(_) if bytes.is_none() => {
                    seen.note("open-error", 0);
                    return Ok(true);
                }
                Err(e) => return Err(format!("an existing file was not opened: {e}")),
                Ok(_) if bytes.is_none() => return Err("a missing file was opened".into()),
                Ok(r) => r,
            };
            let source = path.to_str().map(|s| s.to_string());
            if let Store::Flip { .. } = s {
                // decoded bytes may be wrong before the checksum is met
                let mut rd = rd;
                let mut got = Vec::new();
                for _ in 0..all.len() + 10 {
                    match rd.next_byte_record() {
                        None => {
                            let want: Vec<&[u8]> = crate::rec::lines(&all)
                                .into_iter()
                                .filter(|l| Rec::parse(l).is_some())
                                .collect();
                            return if want.concat() == got {
                                Ok(true)
                            } else {
                                Err("a corrupted file was taken for a complete one".into())
                            };
                        }
                        Some(Ok(r)) => r.write_to(&mut got).map_err(|e| e.to_string())?,
                        Some(Err(ReadPicaError::IO(_))) => return Ok(true),
                        Some(Err(_)) => {}
                    }
                }
                return Err("a corrupted file is read for ever".into());
            }
            let fatal = if whole { Fatal::No } else { Fatal::Any };
            let errs = walk!(c, rd, &source, &fatal, none)?;
            if whole && !errs.is_empty() {
                return Err(format!("an intact file could not be read: {errs:?}"));
            }
            if !whole && errs.is_empty() {
                return Err("a truncated file was taken for a complete one".into());
            }
            Ok(c.lines.len() > 1)
        }
    }
}
