//! C25: the writers on a scripted sink, or on a file.

use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Write};
use std::path::Path;
use std::rc::Rc;

use flate2::read::MultiGzDecoder;
use pica_record::primitives::{Record, RecordRef};
use pica_record::{ByteRecord, StringRecord};
use pica_record::io::{
    ByteRecordWrite, GzipWriter, PlainWriter, ReaderBuilder, RecordsIter, WriterBuilder,
};
use serde::{Deserialize, Serialize};

use crate::bytes::{B, show};
use crate::data;
use crate::rng::Rng;
use crate::run::{Seen, kind, kinds};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    /// takes at most so many bytes
    Take(usize),
    Intr,
    Fail(String),
    /// takes nothing, once
    Zero,
    /// from here on
    Dead(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Session {
    pub name: String,
    pub append: bool,
    pub gzip: bool,
    pub records: Vec<usize>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Target {
    Sink {
        gzip: bool,
        /// the records write themselves
        #[serde(default)]
        direct: bool,
        writes: Vec<Step>,
        rest: usize,
        flushes: Vec<Step>,
        /// how often a failed finish is tried again
        retry: usize,
    },
    Files {
        stale: Vec<usize>,
        sessions: Vec<Session>,
    },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub records: Vec<B>,
    /// the records by number, in the order in which they are written
    pub order: Vec<usize>,
    /// how the records come about, in turn
    #[serde(default)]
    pub forms: Vec<u8>,
    pub target: Target,
}

/// A record as it was read, after a change that changed nothing, made from
/// its fields, or as a string record.
fn put(w: &mut dyn ByteRecordWrite, form: u8, line: &[u8]) -> io::Result<()> {
    let refused = || io::Error::other("refused");
    let mut r = ByteRecord::from_bytes(&line).map_err(|_| refused())?;
    match form {
        1 => {
            r.retain(|_| true);
            w.write_byte_record(&r)
        }
        2 => {
            let r = RecordRef::from_bytes(line).map_err(|_| refused())?;
            w.write_byte_record(&ByteRecord::from(r))
        }
        3 if std::str::from_utf8(line).is_ok() => {
            let s = StringRecord::try_from(r).map_err(|_| refused())?;
            w.write_byte_record(&s)
        }
        _ => w.write_byte_record(&r),
    }
}

/// the same without a writer
fn put_direct(mut w: &mut Sink, form: u8, line: &[u8]) -> io::Result<()> {
    let refused = || io::Error::other("refused");
    let r = RecordRef::from_bytes(line).map_err(|_| refused())?;
    match form {
        1 => Record::from(r).write_to(&mut w),
        2 => ByteRecord::from(r).write_to(&mut w),
        3 => {
            for f in r.fields() {
                f.write_to(&mut w)?;
            }
            w.write_all(b"\n")
        }
        _ => r.write_to(&mut w),
    }
}

struct State {
    got: Vec<u8>,
    unflushed: usize,
    writes: std::vec::IntoIter<Step>,
    flushes: std::vec::IntoIter<Step>,
    rest: usize,
    dead: Option<ErrorKind>,
    /// hard errors returned
    errors: usize,
    calls: usize,
    limit: usize,
    stuck: bool,
    seen: Seen,
}

struct Sink(Rc<RefCell<State>>);

impl State {
    fn fail(&mut self, k: &str, what: &str) -> io::Error {
        self.errors += 1;
        self.seen.note(what, self.got.len() as u64);
        kind(k).into()
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.calls += 1;
        if s.calls > s.limit {
            // nothing here may panic: the writer could be dropped by one
            s.stuck = true;
            return Err(ErrorKind::Other.into());
        }
        if let Some(k) = s.dead {
            s.errors += 1;
            return Err(k.into());
        }
        let n = match s.writes.next() {
            Some(Step::Intr) => {
                let at = s.got.len() as u64;
                s.seen.note("write-interrupted", at);
                return Err(ErrorKind::Interrupted.into());
            }
            Some(Step::Zero) => {
                if b.is_empty() {
                    return Ok(0);
                }
                let at = s.got.len() as u64;
                s.seen.note("write-takes-nothing", at);
                return Ok(0);
            }
            Some(Step::Fail(k)) => return Err(s.fail(&k, "write-error-once")),
            Some(Step::Dead(k)) => {
                s.dead = Some(kind(&k));
                return Err(s.fail(&k, "write-error-permanent"));
            }
            Some(Step::Take(n)) => n.max(1),
            None => s.rest.max(1),
        };
        let n = n.min(b.len());
        if n < b.len() {
            let at = s.got.len() as u64;
            s.seen.note("short-write", at);
        }
        s.got.extend_from_slice(&b[..n]);
        s.unflushed += n;
        let at = s.got.len() as u64;
        s.seen.mark(11, at);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.0.borrow_mut();
        s.calls += 1;
        if s.calls > s.limit {
            // nothing here may panic: the writer could be dropped by one
            s.stuck = true;
            return Err(ErrorKind::Other.into());
        }
        if let Some(k) = s.dead {
            s.errors += 1;
            return Err(k.into());
        }
        match s.flushes.next() {
            Some(Step::Intr) => return Err(s.fail("interrupted", "flush-interrupted")),
            Some(Step::Fail(k)) => return Err(s.fail(&k, "flush-error-once")),
            Some(Step::Dead(k)) => {
                s.dead = Some(kind(&k));
                return Err(s.fail(&k, "flush-error-permanent"));
            }
            _ => {}
        }
        s.unflushed = 0;
        s.seen.mark(13, 0);
        Ok(())
    }
}

fn steps(g: &mut Rng, n: usize, total: usize) -> Vec<Step> {
    (0..n)
        .map(|_| match g.below(12) {
            0..=5 => Step::Take(match g.below(4) {
                0 => 1,
                1 => g.range(1, 20),
                2 => g.range(1, 9000),
                _ => g.range(1, total.max(1)),
            }),
            6..=8 => Step::Intr,
            9 => Step::Fail(g.pick(kinds()).to_string()),
            10 if g.pct(40) => Step::Zero,
            11 if g.pct(30) => Step::Dead(g.pick(kinds()).to_string()),
            _ => Step::Intr,
        })
        .collect()
}

pub fn draw(g: &mut Rng) -> Case {
    let records: Vec<B> = (0..g.range(1, 7))
        .map(|_| {
            let utf8 = g.pct(80);
            B(data::record(g, utf8))
        })
        .collect();
    let pick = |g: &mut Rng, n: usize| -> Vec<usize> {
        (0..n).map(|_| g.below(records.len())).collect()
    };
    let n = match g.below(8) {
        0 => 0,
        1 => 1,
        2 => g.range(100, 600),
        _ => g.range(2, 30),
    };
    let mut order = pick(g, n);
    let mut sum = 0;
    order.retain(|i| {
        sum += records[*i].0.len();
        sum < 60_000
    });
    let total: usize = order.iter().map(|i| records[*i].0.len()).sum();
    let target = if g.pct(85) {
        let calm = g.pct(25);
        let n = g.below(10);
        let writes = if calm {
            (0..n)
                .map(|_| if g.pct(40) { Step::Intr } else { Step::Take(g.range(1, 3000)) })
                .collect()
        } else {
            steps(g, n, total)
        };
        let n = g.below(2);
        let mut flushes = if g.pct(30) { steps(g, n, 1) } else { vec![] };
        flushes.retain(|s| !matches!(s, Step::Zero | Step::Take(_)));
        let direct = g.pct(20);
        Target::Sink {
            gzip: !direct && g.pct(60),
            direct,
            writes,
            rest: *g.pick(&[1, 3, 100, 8191, 8192, 1 << 20]),
            flushes,
            retry: *g.pick(&[0, 0, 1, 3]),
        }
    } else {
        let n = g.range(1, 4);
        let sessions = (0..n)
            .map(|_| {
                let name =
                    g.pick(&["o.dat", "o.dat", "o.dat.gz", "o.dat.gz", "o.bin", "/dev/full", "no/o.dat"]);
                let append = g.pct(50);
                let gzip = !append && g.pct(30);
                let n = *g.pick(&[0, 1, 3, 20, 300]);
                Session { name: name.to_string(), append, gzip, records: pick(g, n) }
            })
            .collect();
        let n = g.below(4);
        Target::Files { stale: pick(g, n), sessions }
    };
    let forms = if g.pct(60) {
        vec![]
    } else {
        (0..g.range(1, 3)).map(|_| g.below(4) as u8).collect()
    };
    Case { records, order, forms, target }
}

fn form(c: &Case, k: usize) -> u8 {
    if c.forms.is_empty() { 0 } else { c.forms[k % c.forms.len()] }
}

fn bytes(c: &Case, order: &[usize]) -> Vec<u8> {
    order.iter().filter_map(|i| c.records.get(*i)).flat_map(|r| r.0.clone()).collect()
}

fn gunzip(b: &[u8]) -> io::Result<Vec<u8>> {
    let mut v = Vec::new();
    MultiGzDecoder::new(b).read_to_end(&mut v)?;
    Ok(v)
}

/// what can be decoded
fn gunzip_some(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    let _ = MultiGzDecoder::new(b).read_to_end(&mut v);
    v
}

pub fn judge(c: &Case, dir: &Path, seen: &mut Seen) -> Result<bool, String> {
    if c.order.iter().any(|i| *i >= c.records.len()) {
        return Ok(false);
    }
    let want = bytes(c, &c.order);
    seen.bytes(&want);
    match &c.target {
        Target::Sink { gzip, direct, writes, rest, flushes, retry } => {
            let st = Rc::new(RefCell::new(State {
                got: vec![],
                unflushed: 0,
                writes: writes.clone().into_iter(),
                flushes: flushes.clone().into_iter(),
                rest: *rest,
                dead: None,
                errors: 0,
                calls: 0,
                limit: 1000 + 4 * (want.len() + writes.len() + flushes.len()),
                stuck: false,
                seen: std::mem::take(seen),
            }));
            let mut wr: Box<dyn ByteRecordWrite> = if *gzip {
                Box::new(GzipWriter::new(Sink(st.clone())))
            } else {
                Box::new(PlainWriter::new(Sink(st.clone())))
            };
            let mut failed = false;
            let mut attempted = Vec::new();
            let mut res = Ok(());
            let short = |b: &[u8]| show(b);
            let mut own = Sink(st.clone());
            for (k, i) in c.order.iter().enumerate() {
                let line = &c.records[*i].0;
                if ByteRecord::from_bytes(line).is_err() {
                    return Err(format!("a record was refused: {}", show(line)));
                };
                attempted.extend_from_slice(line);
                let ok = if *direct {
                    put_direct(&mut own, form(c, k), line)
                } else {
                    put(wr.as_mut(), form(c, k), line)
                };
                if ok.is_err() {
                    failed = true;
                    break;
                }
                if st.borrow().errors > 0 {
                    res = Err("an error of the sink was not returned by write_byte_record".to_string());
                    break;
                }
            }
            if *direct {
                let s = st.borrow();
                if !failed && res.is_ok() && s.got != want {
                    res = Err(format!(
                        "write_to succeeded but the sink has {} bytes instead of {}: {}",
                        s.got.len(),
                        want.len(),
                        short(&s.got)
                    ));
                }
            } else if !failed && res.is_ok() {
                for _ in 0..=*retry {
                    let before = st.borrow().errors;
                    match wr.finish() {
                        Ok(()) => {
                            let s = st.borrow();
                            if s.errors > before {
                                res = Err("finish succeeded although the sink failed".to_string());
                                break;
                            }
                            let got = if *gzip {
                                match gunzip(&s.got) {
                                    Ok(v) => v,
                                    Err(e) => {
                                        res = Err(format!(
                                            "finish succeeded but the stream is incomplete: {e}"
                                        ));
                                        break;
                                    }
                                }
                            } else {
                                s.got.clone()
                            };
                            if got != want {
                                res = Err(format!(
                                    "finish succeeded but the sink has {} bytes instead of {}: {}",
                                    got.len(),
                                    want.len(),
                                    short(&got)
                                ));
                            } else if s.unflushed > 0 {
                                res = Err(format!(
                                    "finish succeeded but the sink was not asked to flush its last {} bytes",
                                    if *gzip { 0 } else { s.unflushed }
                                ));
                            } else {
                                // and reading back
                                let mut rd =
                                    ReaderBuilder::new().from_reader(&got[..], None);
                                let mut k = 0;
                                while let Some(x) = rd.next_byte_record() {
                                    let ok = match x {
                                        Ok(r) => {
                                            let mut b = vec![];
                                            r.write_to(&mut b).is_ok()
                                                && c.order.get(k).map(|i| &c.records[*i].0) == Some(&b)
                                        }
                                        Err(_) => false,
                                    };
                                    if !ok {
                                        res = Err(format!("record {k} does not read back"));
                                        break;
                                    }
                                    k += 1;
                                }
                                if res.is_ok() && k != c.order.len() {
                                    res = Err("records are missing when read back".to_string());
                                }
                            }
                            break;
                        }
                        Err(_) => failed = true,
                    }
                }
            }
            drop(wr);
            let mut s = st.borrow_mut();
            *seen = std::mem::take(&mut s.seen);
            if s.stuck {
                return Err("the writer calls the sink for ever".into());
            }
            res?;
            // whatever happened: only a prefix of what was to be written
            let got = if *gzip { gunzip_some(&s.got) } else { s.got.clone() };
            if !attempted.starts_with(&got) {
                return Err(format!("the sink holds foreign bytes: {}", show(&got)));
            }
            Ok(!want.is_empty() && (failed || !writes.is_empty() || *rest < 8192))
        }
        Target::Files { stale, sessions } => {
            let mut files: std::collections::BTreeMap<String, Vec<u8>> = Default::default();
            for s in sessions {
                if s.name.starts_with("o.") {
                    let p = dir.join(&s.name);
                    if !files.contains_key(&s.name) {
                        let b = bytes(c, stale);
                        let raw = if s.name.ends_with(".gz") {
                            crate::reader::gz(&b, &[]).0
                        } else {
                            b.clone()
                        };
                        std::fs::write(&p, raw).map_err(|e| e.to_string())?;
                        // a gzip run into a plain name leaves another format
                        files.insert(s.name.clone(), b);
                    }
                }
            }
            let mut packed: std::collections::BTreeMap<String, bool> =
                files.keys().map(|k| (k.clone(), k.ends_with(".gz"))).collect();
            for s in sessions {
                if s.append && s.gzip || s.records.iter().any(|i| *i >= c.records.len()) {
                    return Ok(false);
                }
                let zipped = s.gzip || s.name.ends_with(".gz");
                if s.append && s.name.starts_with("o.") && packed[&s.name] != zipped {
                    // plain records behind a gzip stream: nobody can read that
                    return Ok(false);
                }
                let p = if s.name.starts_with('/') { s.name.clone().into() } else { dir.join(&s.name) };
                seen.bytes(s.name.as_bytes());
                let run = || -> io::Result<()> {
                    let mut w = WriterBuilder::new().append(s.append).gzip(s.gzip).from_path(&p)?;
                    for (k, i) in s.records.iter().enumerate() {
                        put(w.as_mut(), form(c, k), &c.records[*i].0)?;
                    }
                    w.finish()
                };
                let r = run();
                let b = bytes(c, &s.records);
                if s.name == "/dev/full" {
                    seen.note("device-full", b.len() as u64);
                    if r.is_ok() && (zipped || !b.is_empty()) {
                        return Err("success although the device is full".into());
                    }
                    continue;
                }
                if s.name.starts_with("no/") {
                    seen.note("no-such-directory", 0);
                    if r.is_ok() {
                        return Err("success although the directory does not exist".into());
                    }
                    continue;
                }
                if let Err(e) = r {
                    return Err(format!("writing to a file failed: {e}"));
                }
                let f = files.get_mut(&s.name).unwrap();
                if !s.append {
                    f.clear();
                    packed.insert(s.name.clone(), zipped);
                }
                f.extend_from_slice(&b);
                let raw = std::fs::read(&p).map_err(|e| e.to_string())?;
                let got = if zipped {
                    gunzip(&raw).map_err(|e| format!("the file is no gzip stream: {e}"))?
                } else {
                    raw
                };
                if &got != f {
                    return Err(format!(
                        "{} holds {} bytes instead of {}: {}",
                        s.name,
                        got.len(),
                        f.len(),
                        show(&got)
                    ));
                }
                if zipped == s.name.ends_with(".gz") {
                    let mut rd = ReaderBuilder::new().from_path(&p).map_err(|e| e.to_string())?;
                    let mut back = vec![];
                    while let Some(x) = rd.next_byte_record() {
                        match x {
                            Ok(r) => r.write_to(&mut back).map_err(|e| e.to_string())?,
                            Err(e) => return Err(format!("{} does not read back: {e}", s.name)),
                        }
                    }
                    if &back != f {
                        return Err(format!("{} reads back as something else", s.name));
                    }
                }
            }
            Ok(sessions.len() > 1)
        }
    }
}
