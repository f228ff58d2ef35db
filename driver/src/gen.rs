//! Workloads: records, expressions, options and worlds, all drawn from one
//! seeded generator.  Every draw first picks small pools (tags, codes,
//! occurrences, values, keys), so that records, expressions and options of
//! one case meet each other.

use crate::bytes::B;
use crate::case::*;
use crate::model::{JELS, LANGS, norm};
use crate::rec::*;
use crate::rng::{Rng, mix};
use crate::sim::*;

const MAIN: [&str; 10] = [
    "003@", "002@", "012A", "021A", "028A", "041A", "044H", "065R", "047A",
    "010@",
];
const LOCAL: [&str; 4] = ["101@", "145Z", "144Z", "101B"];
const COPY: [&str; 5] = ["203@", "209A", "247C", "245Z", "201B"];
const CODES: &[u8] = b"0aAbBxyzS9n";
const OCCS: [&str; 8] = ["01", "02", "03", "04", "11", "001", "102", "00"];

const WORDS: [&str; 37] = [
    "a", "b", "abc", "aBc", "xyz", "0", "1", "42", "007", "a,b", "say \"x\"",
    "a|b", "$a$", "t\tab", "p;q", "<&>", "it's", "e\u{301}", "\u{e9}",
    "stra\u{df}e", "STRASSE", "", " ", "Tp1", "Ts1", "Oaf", "-1.5", "1e3",
    "]]>", "\u{1f600}", "\u{6f22}", "a b", "Faust", "Fauts",
    "@", "Der @Welt", "@a@b",
];

#[derive(Clone, Copy, Debug)]
pub struct Prof {
    /// lines that are not records
    pub bad: bool,
    /// values that are not UTF-8
    pub raw: bool,
    /// control characters in values
    pub ctl: bool,
    /// at most so many bytes per value
    pub maxval: usize,
    /// values with a meaning for `check`
    pub check: bool,
    /// larger inputs allowed
    pub big: bool,
    /// kinds of very large inputs allowed
    pub huge: &'static [u8],
    /// shape of the records: library units
    pub units: bool,
}

pub const PROF: Prof = Prof {
    bad: true,
    raw: true,
    ctl: true,
    maxval: 20_000,
    check: false,
    big: true,
    huge: &[WIDE, MANY, LONG, DEEP],
    units: false,
};

/// a line of more than 64 KiB
pub const WIDE: u8 = 0;
/// more than 65 536 lines
pub const MANY: u8 = 1;
/// more than one MiB
pub const LONG: u8 = 2;
/// records of more than 256 fields, fields of more than 256 subfields
pub const DEEP: u8 = 3;

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub p: Prof,
    pub tags: Vec<String>,
    pub codes: Vec<u8>,
    pub occs: Vec<Option<String>>,
    pub vals: Vec<Vec<u8>>,
    pub ppns: Vec<Vec<u8>>,
    /// the same letters in either case
    pub fold: Vec<String>,
    nth: usize,
}

fn some<T: Clone>(r: &mut Rng, xs: &[T], min: usize, max: usize) -> Vec<T> {
    let mut v = xs.to_vec();
    r.shuffle(&mut v);
    let n = r.range(min, max).min(v.len());
    v.truncate(n);
    v
}

/// one in so many inputs is very large
const HUGE: usize = 150;

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, p: Prof) -> Gen<'a> {
        let mut tags: Vec<String> = vec!["003@".into()];
        let s = |x: &&str| x.to_string();
        tags.extend(some(r, &MAIN[1..], 1, 4).iter().map(s));
        if p.units || r.pct(60) {
            tags.extend(some(r, &LOCAL, 1, 3).iter().map(s));
        }
        if p.units || r.pct(60) {
            tags.extend(some(r, &COPY, 1, 3).iter().map(s));
        }
        let codes = some(r, CODES, 2, 5);
        let mut occs: Vec<Option<String>> = vec![None];
        occs.extend(some(r, &OCCS, 1, 4).iter().map(|o| Some(o.to_string())));
        let mut vals: Vec<Vec<u8>> = some(r, &WORDS, 3, 9)
            .iter()
            .map(|w| w.as_bytes().to_vec())
            .collect();
        // the same letters in the other case
        let mut fold = Vec::new();
        if r.pct(40) {
            let t = *r.pick(&[
                "\u{e9}t\u{c9}", "stra\u{df}e", "\u{df}", "\u{c4}pfel", "aBc",
                "\u{3a3}\u{3c3}\u{3c2}", "\u{1e9e}\u{df}", "\u{212a}k", "\u{212b}",
            ]);
            fold = vec![t.to_string(), t.to_uppercase(), t.to_lowercase()];
            vals.extend(fold.iter().map(|w| w.clone().into_bytes()));
        }
        // the same text in other normalization forms
        if r.pct(30) {
            let t = *r.pick(&[
                "\u{e9}t\u{c9}", "\u{c4}pfel", "\u{fb01}x", "\u{2460}",
                "\u{212b}", "\u{1e69}", "x\u{323}\u{307}", "x\u{307}\u{323}",
                "\u{ff21}b", "\u{ac00}", "o\u{308}",
            ]);
            for nf in ["", "nfc", "nfd", "nfkc", "nfkd"] {
                vals.push(norm(t, &Some(nf.into())).into_bytes());
            }
        }
        if p.raw && r.pct(25) {
            vals.push(b"\xff".to_vec());
            vals.push(b"caf\xe9s".to_vec());
            if r.pct(50) {
                // the same text once replacement characters are put in
                for w in [&b"x\xfe"[..], b"x\xfeb", b"x\xff", "x\u{fffd}".as_bytes()] {
                    vals.push(w.to_vec());
                }
            }
        }
        if p.ctl && r.pct(10) {
            vals.push(b"x\ry".to_vec());
            vals.push(b"n\0l".to_vec());
        }
        if r.pct(15) {
            let n = r.range(30, 300).min(p.maxval);
            vals.push(vec![b'L'; n]);
        }
        if p.check {
            for l in ["ger", "A10", "Z39"] {
                vals.push(l.as_bytes().to_vec());
            }
            for list in [&LANGS[..], &JELS[..]] {
                for _ in 0..r.range(2, 5) {
                    vals.push(r.pick(list).as_bytes().to_vec());
                }
            }
            for _ in 0..2 {
                vals.push(
                    r.pick(&[
                        "GER", "deu", "fra", "gerx", "ge", "a10", "A", "Z4", "A01",
                        "P60", "S10", "A0 ", "A10,B00", "zzz", "cze ", "slk",
                    ])
                    .as_bytes()
                    .to_vec(),
                );
            }
            vals.push(b"000000012146438x".to_vec());
            for d in [
                "2024-02-29", "2023-02-29", "1999-12-31", "nodate",
                "a2024-02-29", "aa2023-02-29", "20240229", "aaa20231301",
                "29.02.2024", "31.04.2024", "\u{e9}2024-02-29",
                "\u{e9}20240229", "\u{6f22}2024-02-29", "a\u{e9}2024-02-29",
            ] {
                vals.push(d.as_bytes().to_vec());
            }
            for p in ["(isni)", "isni", "\u{e9}"] {
                for d in ["0000000121032683", "0000000121032684"] {
                    vals.push(format!("{p}{d}").into_bytes());
                }
            }
            for d in
                ["0000000121032683", "0000 0001 2103 2683", "0000000121032684",
                    "0000000121032A83", "000000012146438X", "0000000121032L83"]
            {
                vals.push(d.as_bytes().to_vec());
            }
            vals.retain(|v| {
                std::str::from_utf8(v).map_or(true, |s| !s.contains(';'))
            });
        }
        let mut ppns: Vec<Vec<u8>> = (0..r.range(2, 9))
            .map(|i| {
                let x = if i % 5 == 4 { "X" } else { "7" };
                format!("1{:05}{x}", i * 37).into_bytes()
            })
            .collect();
        // numbers that differ only just
        if r.pct(35) {
            let base: &[u8] = r.pick(&[&b"100148X"[..], b"1000007", b"9X"]);
            for k in some(r, &[0, 1, 2, 3, 4, 5, 6, 7, 8], 1, 4) {
                let mut v = base.to_vec();
                match k {
                    0 => v.make_ascii_lowercase(),
                    1 => v.insert(0, b'0'),
                    2 => v.truncate(v.len() - 1),
                    3 => v.push(b' '),
                    4 => v.insert(0, b' '),
                    5 => v.insert(1, b'-'),
                    6 => v.push(b'0'),
                    7 if p.raw => v.push(0xff),
                    _ if p.raw => v.push(0xfe),
                    _ => v.reverse(),
                }
                ppns.push(v);
            }
            ppns.push(base.to_vec());
        }
        Gen { r, p, tags, codes, occs, vals, ppns, fold, nth: 0 }
    }

    pub fn val(&mut self) -> Vec<u8> {
        let v = self.r.pick(&self.vals).clone();
        if self.r.pct(12) {
            let mut w = v;
            w.extend(self.r.pick(&self.vals).clone());
            w.truncate(self.p.maxval);
            // cutting may have left half a character
            if !self.p.raw && std::str::from_utf8(&w).is_err() {
                return b"cut".to_vec();
            }
            if self.p.check && w.len() <= 4 {
                // could be a code of a list by accident
                return b"nocode".to_vec();
            }
            if self.p.check && w.contains(&b'-') {
                // white space within a date may or may not be skipped
                w.retain(|c| *c != b' ');
            }
            return w;
        }
        v
    }

    /// a value for an expression
    pub fn word(&mut self) -> B {
        for _ in 0..8 {
            let v = if !self.fold.is_empty() && self.r.pct(25) {
                self.r.pick(&self.fold).clone().into_bytes()
            } else {
                self.val()
            };
            if !v.is_empty()
                && v.len() < 400
                && std::str::from_utf8(&v)
                    .is_ok_and(|s| !s.chars().any(|c| c.is_control()))
            {
                if self.r.pct(20) {
                    let s = std::str::from_utf8(&v).unwrap();
                    let n = s.chars().count();
                    let k = self.r.range(1, n);
                    let t: String = if self.r.pct(50) {
                        s.chars().take(k).collect()
                    } else {
                        s.chars().skip(n - k).collect()
                    };
                    return B(t.into_bytes());
                }
                if self.r.pct(10) {
                    return B(std::str::from_utf8(&v)
                        .unwrap()
                        .to_uppercase()
                        .into_bytes());
                }
                return B(v);
            }
        }
        B::from("abc")
    }

    fn subs(&mut self, min: usize, max: usize) -> Vec<(u8, Vec<u8>)> {
        (0..self.r.range(min, max))
            .map(|_| (*self.r.pick(&self.codes), self.val()))
            .collect()
    }

    fn fld(&mut self, tag: &str) -> Fld {
        let occ = if self.r.pct(45) {
            self.r.pick(&self.occs).clone()
        } else {
            None
        };
        let min = if self.r.pct(5) { 0 } else { 1 };
        Fld {
            tag: tag.as_bytes().to_vec(),
            occ: occ.map(|o| o.into_bytes()),
            subs: self.subs(min, 4),
        }
    }

    fn ppn_field(&mut self) -> Option<Fld> {
        let v = match self.r.below(20) {
            0 => return None,
            1 => Vec::new(),
            2..=6 => self.r.pick(&self.ppns).clone(),
            _ => {
                self.nth += 1;
                format!("9{:04}", self.nth).into_bytes()
            }
        };
        let mut f = Fld {
            tag: b"003@".to_vec(),
            occ: None,
            subs: vec![(b'0', v)],
        };
        if self.r.pct(6) {
            f.subs.insert(0, (b'a', self.val()));
        }
        if self.r.pct(4) {
            let v = self.val();
            f.subs.push((b'0', v));
        }
        Some(f)
    }

    pub fn rec(&mut self) -> Rec {
        let mut fields = Vec::new();
        fields.extend(self.ppn_field());
        let of = |l: &[String], c: char| -> Vec<String> {
            l.iter().filter(|t| t.starts_with(c) && *t != "003@").cloned().collect()
        };
        let (m, l, c) =
            (of(&self.tags, '0'), of(&self.tags, '1'), of(&self.tags, '2'));
        if self.r.pct(if self.p.units { 20 } else { 25 }) {
            // no order at all
            let tags = self.tags.clone();
            for _ in 0..self.r.range(0, 9) {
                let t = self.r.pick(&tags).clone();
                let f = self.fld(&t);
                fields.push(f);
            }
        } else {
            for t in &m {
                for _ in 0..[0, 1, 1, 2][self.r.below(4)] {
                    let f = self.fld(t);
                    fields.push(f);
                }
            }
            for _ in 0..self.r.below(4) {
                for t in &l {
                    if self.r.pct(70) {
                        let mut f = self.fld(t);
                        f.occ = None;
                        fields.push(f);
                    }
                }
                let n = self.r.below(4);
                let same = self.r.pct(10);
                for k in 0..n {
                    let occ = format!("{:02}", if same { 1 } else { k + 1 });
                    for t in &c {
                        if self.r.pct(75) {
                            let mut f = self.fld(t);
                            f.occ = Some(occ.clone().into_bytes());
                            fields.push(f);
                        }
                    }
                }
            }
        }
        if self.r.pct(3)
            && let Some(f) = self.ppn_field()
        {
            fields.push(f);
        }
        if fields.is_empty() {
            let f = self.fld("002@");
            fields.push(f);
        }
        Rec { fields }
    }

    fn bad_line(&mut self) -> Vec<u8> {
        let mut l = self.rec().bytes();
        match self.r.below(9) {
            0 => return b"\n".to_vec(),
            1 => {
                let n = self.r.range(1, l.len() - 1);
                l.truncate(n);
                l.push(b'\n');
            }
            2 => l[1] = b'X',
            3 => l[0] = b'3',
            4 => {
                let n = l.len();
                l.remove(n - 2);
            }
            5 => {
                let n = l.len();
                l.insert(n - 1, b'\r');
            }
            6 => {
                l = (0..self.r.range(1, 40))
                    .map(|_| self.r.below(256) as u8)
                    .filter(|c| *c != b'\n')
                    .collect();
                l.push(b'\n');
            }
            7 => {
                l = vec![b'j'; self.r.range(1, 12_000)];
                l.push(b'\n');
            }
            _ => {
                let i = l.iter().position(|c| *c == 0x1f);
                match i {
                    Some(i) => l[i + 1] = b'?',
                    None => l.insert(0, b' '),
                }
            }
        }
        if Rec::parse(&l).is_some() { b"\n".to_vec() } else { l }
    }

    /// number of lines
    pub fn size(&mut self) -> usize {
        match self.r.below(100) {
            0..=3 => 0,
            4..=24 => self.r.range(1, 3),
            25..=64 => self.r.range(4, 12),
            65..=89 => self.r.range(13, 60),
            90..=96 if self.p.big => self.r.range(80, 250),
            97..=99 if self.p.big => self.r.range(300, 900),
            _ => self.r.range(4, 30),
        }
    }

    pub fn data(&mut self) -> Vec<u8> {
        // a draw of its own, so that the other cases stay what they are
        let mut h = Rng::new(self.r.clone().u64() ^ 0x6875_6765);
        if self.p.big && !self.p.huge.is_empty() && h.below(HUGE) == 0 {
            let kind = *h.pick(self.p.huge);
            return self.data_huge(kind);
        }
        let n = self.size();
        self.data_n(n)
    }

    /// input beyond the sizes at which buffers and counters end
    fn data_huge(&mut self, kind: u8) -> Vec<u8> {
        match kind {
            WIDE => {
                let n = self.r.range(2, 12);
                let at = self.r.below(n);
                let mut out = Vec::new();
                for i in 0..n {
                    let mut rec = self.rec();
                    if i == at || self.r.pct(15) {
                        let len = [66_000, 70_001, 131_073, 140_000]
                            [self.r.below(4)];
                        let c = *self.r.pick(&self.codes);
                        let k = self.r.below(rec.fields.len());
                        let subs = &mut rec.fields[k].subs;
                        let at = self.r.below(subs.len() + 1);
                        subs.insert(at, (c, vec![b'w'; len]));
                    }
                    out.extend(rec.bytes());
                }
                out
            }
            MANY => {
                let n = self.r.range(65_530, 67_000);
                let tag = self.tags[1].clone().into_bytes();
                let code = self.codes[0];
                let mut vals = self.vals.clone();
                vals.retain(|v| v.len() < 12);
                vals.push(b"v".to_vec());
                let mut out = Vec::new();
                let odd = self.r.below(200);
                for i in 0..n {
                    // sometimes the only damaged line is a late one
                    let late = self.p.bad && (80..160).contains(&odd);
                    if late && i + 300 > n && self.r.below(60) == 0 {
                        out.extend(b"bad\n");
                        continue;
                    }
                    if self.r.below(100) < 2 {
                        if self.p.bad && odd < 80 {
                            out.extend(b"bad\n");
                        } else {
                            let l = self.rec().bytes();
                            out.extend(l);
                        }
                        continue;
                    }
                    let v = self.r.pick(&vals).clone();
                    let ppn = format!("8{i}").into_bytes();
                    out.extend(
                        Rec {
                            fields: vec![
                                Fld {
                                    tag: b"003@".to_vec(),
                                    occ: None,
                                    subs: vec![(b'0', ppn)],
                                },
                                Fld {
                                    tag: tag.clone(),
                                    occ: None,
                                    subs: vec![(code, v)],
                                },
                            ],
                        }
                        .bytes(),
                    );
                }
                out
            }
            LONG => {
                let mut out = Vec::new();
                let len = (1 << 20) + self.r.below(40_000);
                while out.len() < len {
                    if self.p.bad && self.r.below(400) == 0 {
                        let l = self.bad_line();
                        out.extend(l);
                    }
                    let mut rec = self.rec();
                    let n = self.r.range(1, 400);
                    let c = *self.r.pick(&self.codes);
                    let last = rec.fields.len() - 1;
                    rec.fields[last].subs.push((c, vec![b'l'; n]));
                    out.extend(rec.bytes());
                }
                out
            }
            _ => {
                let n = self.r.range(2, 12);
                let mut out = Vec::new();
                for _ in 0..n {
                    let mut rec = self.rec();
                    let many = self.r.range(250, 300);
                    if self.r.pct(50) {
                        let at = self.r.below(rec.fields.len() + 1);
                        for i in 0..many {
                            let v = format!("{i}").into_bytes();
                            rec.fields.insert(
                                at,
                                Fld {
                                    tag: b"039E".to_vec(),
                                    occ: None,
                                    subs: vec![(b'q', v)],
                                },
                            );
                        }
                    }
                    if self.r.pct(50) {
                        let k = self.r.below(rec.fields.len());
                        let subs = &mut rec.fields[k].subs;
                        let at = self.r.below(subs.len() + 1);
                        for i in 0..many {
                            let v = format!("{i}").into_bytes();
                            subs.insert(at, (b'q', v));
                        }
                    }
                    out.extend(rec.bytes());
                }
                out
            }
        }
    }

    pub fn data_n(&mut self, n: usize) -> Vec<u8> {
        let badness = match self.r.below(4) {
            0 | 1 => 0,
            2 => 8,
            _ => 30,
        };
        // a handful of records that are repeated makes duplicates
        let repeat: Vec<Vec<u8>> =
            (0..2).map(|_| self.rec().bytes()).collect();
        let mut out = Vec::new();
        let boundary = self.p.maxval > 9000 && self.r.pct(12);
        for i in 0..n {
            if self.p.bad && self.r.pct(badness) {
                let l = self.bad_line();
                out.extend(l);
            } else if self.r.pct(7) {
                let l = self.r.pick(&repeat).clone();
                out.extend(l);
            } else if boundary && (i == 0 || self.r.pct(30)) {
                // let this line end near a multiple of a buffer size
                let unit = [8192, 16384, 32768, 65536][self.r.below(4)];
                let mut l = self.rec();
                l.fields.push(Fld {
                    tag: b"021A".to_vec(),
                    occ: None,
                    subs: vec![(b'a', Vec::new())],
                });
                let end = out.len() + l.bytes().len();
                let want = (end / unit + 1) * unit + self.r.below(5);
                let pad = (want - 2).saturating_sub(end);
                if pad < 40_000 {
                    l.fields.last_mut().unwrap().subs[0].1 = vec![b'p'; pad];
                }
                out.extend(l.bytes());
            } else {
                let l = self.rec().bytes();
                out.extend(l);
            }
        }
        if self.p.bad && badness > 0 && !out.is_empty() && self.r.pct(15) {
            out.pop();
            if out.is_empty() {
                out.push(b'?');
            }
        }
        out
    }

    // ---- arrangements ------------------------------------------------

    pub fn members(&mut self, len: usize) -> Vec<usize> {
        if self.r.pct(45) {
            return Vec::new();
        }
        (0..self.r.range(1, 4)).map(|_| self.r.below(len + 1)).collect()
    }

    /// the same bytes as one or several inputs
    pub fn arrange(&mut self, data: &[u8]) -> Vec<Input> {
        let mut names = ["a.dat", "b.dat", "sub/c.dat", "d"];
        if self.r.pct(15) {
            names = ["a b.dat", "\u{e4}.pp", "sub/gz", "x.gz.DAT"];
        }
        let k = if self.r.pct(55) { 1 } else { self.r.range(2, 4) };
        let ls = lines(data);
        let mut cuts: Vec<usize> =
            (1..k).map(|_| self.r.below(ls.len() + 1)).collect();
        cuts.sort();
        cuts.push(ls.len());
        let mut from = 0;
        let mut v = Vec::new();
        let mut stdin = false;
        for (i, c) in cuts.iter().enumerate() {
            let mut d = ls[from..*c].concat();
            from = *c;
            // a file may end in the middle of a line
            if self.p.bad && k > 1 && d.len() > 1 && self.r.pct(12) {
                let n = if self.r.pct(70) { 1 } else { self.r.range(1, 4) };
                d.truncate((d.len() - n.min(d.len() - 1)).max(1));
            }
            match self.r.below(3) {
                0 if !stdin => {
                    stdin = true;
                    v.push(Input::new("-", d));
                }
                1 => {
                    let mut x = Input::new(&format!("{}.gz", names[i]), d);
                    x.members = self.members(x.data.0.len());
                    v.push(x);
                }
                _ => v.push(Input::new(names[i], d)),
            }
        }
        v
    }

    pub fn inputs(&mut self) -> Vec<Input> {
        let d = self.data();
        self.arrange(&d)
    }

    // ---- expressions -------------------------------------------------

    pub fn tagm(&mut self) -> Tag {
        let mut t = Tag::exact(&self.r.pick(&self.tags).clone());
        if self.r.pct(18) {
            let i = self.r.below(4);
            t.0[i] = if self.r.pct(60) {
                ".".into()
            } else {
                let c = t.0[i].clone();
                let o = match i {
                    0 => "012",
                    1 | 2 => "04",
                    _ => "@AHZ",
                };
                let mut s: String =
                    o.chars().filter(|x| *x != c.chars().next().unwrap()).collect();
                s.push_str(&c);
                s
            };
        }
        t
    }

    pub fn occm(&mut self) -> Occ {
        match self.r.below(10) {
            0..=4 => Occ::None,
            5 | 6 => Occ::Any,
            7 => match self.r.pick(&self.occs).clone() {
                Some(o) if o != "00" => Occ::Exact(o),
                _ => Occ::Zero,
            },
            8 => Occ::Range("01".into(), "03".into()),
            _ => Occ::Exact("01".into()),
        }
    }

    pub fn codem(&mut self) -> String {
        match self.r.below(10) {
            0 => "*".into(),
            1 | 2 => {
                let v = some(self.r, &self.codes, 2, 3);
                String::from_utf8(v).unwrap()
            }
            _ => (*self.r.pick(&self.codes) as char).to_string(),
        }
    }

    fn cmp(&mut self) -> String {
        self.r.pick(&["==", "!=", ">=", ">", "<=", "<"]).to_string()
    }

    pub fn sub1(&mut self) -> SubExpr {
        let all = self.r.pct(25);
        let codes = self.codem();
        match self.r.below(20) {
            0..=7 => {
                let op = *self.r.pick(&["==", "==", "!=", "=^", "!^", "=$", "!$", "=*"]);
                let mut val = self.word();
                if op == "=*" && self.r.pct(60) {
                    // not quite a value
                    let mut s = String::from_utf8_lossy(&val.0).into_owned();
                    for _ in 0..self.r.range(1, 2) {
                        match self.r.below(3) {
                            0 => s.push('e'),
                            1 => s.insert(0, 'X'),
                            _ => drop(s.pop()),
                        }
                    }
                    val = B::from(s.as_str());
                }
                if self.r.pct(25)
                    && let Ok(s) = std::str::from_utf8(&val.0)
                {
                    // the other case
                    let up = self.r.pct(50);
                    val = B::from(if up { s.to_uppercase() } else { s.to_lowercase() }.as_str());
                }
                if "^$".contains(&op[1..])
                    && self.r.pct(40)
                    && let Ok(s) = std::str::from_utf8(&val.0)
                {
                    // a part of it
                    let v: Vec<char> = s.chars().collect();
                    let k = self.r.below(v.len() + 1);
                    let part = if op.ends_with('^') { &v[..k] } else { &v[k..] };
                    val = B::from(part.iter().collect::<String>().as_str());
                }
                SubExpr::Rel { all, codes, op: op.to_string(), val }
            }
            8..=10 => SubExpr::In {
                all,
                codes,
                not: self.r.pct(35),
                vals: (0..self.r.range(1, 3)).map(|_| self.word()).collect(),
            },
            11 | 12 => SubExpr::Contains {
                all,
                codes,
                vals: (0..self.r.range(1, 2)).map(|_| self.word()).collect(),
            },
            13 | 14 => {
                let res = [
                    "^a", "b$", "a|c", "[0-9]+", "^.$", "x+", "^T[ps]", ".",
                ];
                SubExpr::Regex {
                    all,
                    codes,
                    not: self.r.pct(30),
                    res: (0..self.r.range(1, 2))
                        .map(|_| self.r.pick(&res).to_string())
                        .collect(),
                }
            }
            15 | 16 => SubExpr::Count {
                codes,
                op: self.cmp(),
                n: self.r.below(4),
            },
            _ => SubExpr::Exists { codes },
        }
    }

    pub fn sub(&mut self, d: usize) -> SubExpr {
        if d == 0 || self.r.pct(50) {
            return self.sub1();
        }
        match self.r.below(5) {
            0 | 1 => SubExpr::And(
                Box::new(self.sub(d - 1)),
                Box::new(self.sub(d - 1)),
            ),
            2 => SubExpr::Or(
                Box::new(self.sub(d - 1)),
                Box::new(self.sub(d - 1)),
            ),
            3 => SubExpr::Xor(
                Box::new(self.sub(d - 1)),
                Box::new(self.sub(d - 1)),
            ),
            _ => SubExpr::Not(Box::new(self.sub(d - 1))),
        }
    }

    pub fn expr1(&mut self) -> Expr {
        let (tag, occ) = (self.tagm(), self.occm());
        let all = self.r.pct(20);
        match self.r.below(10) {
            0 | 1 => Expr::Exists { tag, occ },
            2..=5 => Expr::Dot { all, tag, occ, sub: self.sub1() },
            6 | 7 => Expr::Curly { all, tag, occ, sub: self.sub(2) },
            _ => Expr::Count {
                tag,
                occ,
                sub: if self.r.pct(50) { Some(self.sub(1)) } else { None },
                op: self.cmp(),
                n: self.r.below(4),
            },
        }
    }

    /// many terms, side by side or inside each other
    fn long_expr(&mut self) -> Expr {
        let n = *self.r.pick(&[12, 40, 90, 130, 200, 270, 300]);
        let deep = self.r.pct(40);
        let mut e = self.expr1();
        for k in 0..n.min(if deep { 200 } else { n }) {
            let x = if self.r.pct(60) { self.expr1() } else { self.expr(1) };
            let x = Box::new(x);
            e = match (deep, k % 2) {
                (true, 0) => Expr::And(x, Box::new(e)),
                (true, _) => Expr::Or(x, Box::new(e)),
                (false, 0) => Expr::Or(Box::new(e), x),
                (false, _) => {
                    let y = Box::new(self.expr1());
                    Expr::And(Box::new(Expr::Or(x, y)), Box::new(e))
                }
            };
        }
        e
    }

    fn long_sub(&mut self) -> SubExpr {
        let n = *self.r.pick(&[12, 40, 130, 200, 270]);
        let deep = self.r.pct(40);
        let mut e = self.sub1();
        for k in 0..n.min(if deep { 200 } else { n }) {
            let x = Box::new(self.sub1());
            e = match (deep, k % 2) {
                (true, 0) => SubExpr::And(x, Box::new(e)),
                (true, _) => SubExpr::Or(x, Box::new(e)),
                (false, 0) => SubExpr::Or(Box::new(e), x),
                (false, _) => {
                    let y = Box::new(self.sub1());
                    SubExpr::And(Box::new(SubExpr::Or(x, y)), Box::new(e))
                }
            };
        }
        e
    }

    pub fn expr(&mut self, d: usize) -> Expr {
        if d == 3 && self.r.below(250) == 0 {
            return if self.r.pct(75) {
                self.long_expr()
            } else {
                let (tag, occ) = (self.tagm(), self.occm());
                Expr::Curly { all: false, tag, occ, sub: self.long_sub() }
            };
        }
        if d == 0 || self.r.pct(55) {
            return self.expr1();
        }
        match self.r.below(5) {
            0 | 1 => Expr::And(
                Box::new(self.expr(d - 1)),
                Box::new(self.expr(d - 1)),
            ),
            2 => Expr::Or(
                Box::new(self.expr(d - 1)),
                Box::new(self.expr(d - 1)),
            ),
            3 => Expr::Xor(
                Box::new(self.expr(d - 1)),
                Box::new(self.expr(d - 1)),
            ),
            _ => Expr::Not(Box::new(self.expr(d - 1))),
        }
    }

    pub fn pred(&mut self) -> Pred {
        Pred { tag: self.tagm(), occ: self.occm() }
    }

    pub fn path(&mut self) -> PathX {
        if self.r.pct(25) {
            return PathX::simple("003@", "0");
        }
        let curly = self.r.pct(45);
        let (tag, occ) = (self.tagm(), self.occm());
        if !curly {
            return PathX {
                tag,
                occ,
                codes: vec![self.codem()],
                sub: None,
                curly: false,
            };
        }
        let n = self.r.range(1, 2);
        PathX {
            tag,
            occ,
            codes: (0..n).map(|_| self.codem()).collect(),
            sub: if self.r.pct(40) { Some(self.sub(1)) } else { None },
            curly: true,
        }
    }

    fn fmt_change(&mut self) -> String {
        match self.r.below(4) {
            0 => some(self.r, &["l", "t", "w", "o"], 1, 3).concat(),
            1 => some(self.r, &["u", "t", "w", "o"], 1, 2).concat(),
            _ => String::new(),
        }
    }

    fn fmt_val(&mut self) -> FmtF {
        let text = |g: &mut Gen| {
            let t = [", ", " (", ")", "x", "@", " ", "", "/", "it's", "\""];
            g.r.pct(35).then(|| g.r.pick(&t).to_string())
        };
        FmtF::Val {
            change: self.fmt_change(),
            pre: text(self),
            codes: self.codem(),
            max: *self.r.pick(&[Some(1), Some(1), None, Some(2), Some(0)]),
            suf: text(self),
        }
    }

    fn fmt_item(&mut self, d: usize) -> FmtF {
        if d == 0 || self.r.pct(60) {
            return self.fmt_val();
        }
        let mut of = self.fmt_list(d - 1);
        if matches!(of, FmtF::Group { .. }) {
            of = self.fmt_val();
        }
        let change = self.fmt_change();
        if change.is_empty() {
            // what leads the group would change all of it
            let mut x = &mut of;
            loop {
                match x {
                    FmtF::Then(l) | FmtF::Cons(l) => x = &mut l[0],
                    FmtF::Val { change, .. } => {
                        change.clear();
                        break;
                    }
                    FmtF::Group { .. } => break,
                }
            }
        }
        FmtF::Group { change, of: Box::new(of) }
    }

    fn fmt_list(&mut self, d: usize) -> FmtF {
        let then = |g: &mut Gen| {
            let n = *g.r.pick(&[1, 1, 2, 3]);
            let mut l: Vec<_> = (0..n).map(|_| g.fmt_item(d)).collect();
            if n == 1 { l.remove(0) } else { FmtF::Then(l) }
        };
        let n = *self.r.pick(&[1, 1, 2, 3]);
        let mut l: Vec<_> = (0..n).map(|_| then(self)).collect();
        if n == 1 { l.remove(0) } else { FmtF::Cons(l) }
    }

    /// many groups side by side, or inside each other
    fn long_fmt(&mut self) -> FmtF {
        let group = |of: FmtF| FmtF::Group { change: String::new(), of: Box::new(of) };
        let val = |g: &mut Gen, k: usize| FmtF::Val {
            change: String::new(),
            pre: Some(format!("{k}:")),
            codes: g.codem(),
            max: Some(1),
            suf: None,
        };
        if self.r.pct(40) {
            let mut f = val(self, 0);
            for k in 1..*self.r.pick(&[5, 12, 20, 25]) {
                f = group(FmtF::Then(vec![val(self, k), f]));
            }
            return f;
        }
        let n = *self.r.pick(&[10, 33, 45, 70]);
        let l = (0..n).map(|k| group(val(self, k))).collect();
        if self.r.pct(50) { FmtF::Then(l) } else { FmtF::Cons(l) }
    }

    fn fmt(&mut self) -> FmtX {
        let mut body = if self.r.pct(5) { self.long_fmt() } else { self.fmt_list(2) };
        // a plain list of codes, also in parentheses, would be a path
        let x = match &mut body {
            FmtF::Group { change, of } if change.is_empty() => &mut **of,
            x => x,
        };
        if let FmtF::Val { change, pre, max: Some(1), suf: None, .. } = x
            && change.is_empty()
            && pre.is_none()
        {
            *pre = Some("p".into());
        }
        FmtX {
            tag: self.tagm(),
            occ: self.occm(),
            body,
            sub: if self.r.pct(30) { Some(self.sub(1)) } else { None },
        }
    }

    pub fn frags(&mut self) -> Vec<Frag> {
        let mut v = Vec::new();
        for _ in 0..self.r.range(1, 3) {
            if self.r.pct(10) {
                v.push(Frag::Lit("lit".into()));
            } else if self.r.pct(15) {
                v.push(Frag::Fmt(self.fmt()));
            } else {
                v.push(Frag::Path(self.path()));
            }
        }
        if !v.iter().any(|f| matches!(f, Frag::Path(_))) {
            v.push(Frag::Path(PathX::simple("003@", "0")));
        }
        v
    }

    pub fn set_file(&mut self, k: usize, tag: &str, vals: bool) -> SetFile {
        if !vals && self.r.pct(10) {
            let n = self.r.below(IPC.len());
            let (col, vals) = ipc_list(n);
            return SetFile {
                name: format!("{tag}{k}.ipc"),
                col: col.into(),
                vals,
                ipc: Some(n),
                ..Default::default()
            };
        }
        let exts = ["csv", "txt", "tsv", "csv.gz", "tsv.gz", "txt.gz", "dat"];
        let ext = exts[self.r.below(7)];
        let col = if self.r.pct(50) { "idn" } else { "ppn" };
        let one = |g: &mut Gen| match g.r.below(10) {
            0..=5 if vals => B(g.val()),
            0..=5 => B(g.r.pick(&g.ppns).clone()),
            _ => B(format!("9{:04}", g.r.range(1, 14)).into_bytes()),
        };
        let mut vals: Vec<B> = Vec::new();
        // the values that matter may come late
        if self.r.pct(5) {
            let n = *self.r.pick(&[99, 128, 1000, 1024, 4100]);
            vals.extend((0..n).map(|i| B(format!("7{i:05}").into_bytes())));
        }
        for _ in 0..self.r.range(1, 6) {
            vals.push(one(self));
        }
        // such lists are UTF-8, and an empty cell is no value
        let usable = |v: &B| {
            !v.0.is_empty()
                && std::str::from_utf8(&v.0)
                    .is_ok_and(|s| !s.chars().any(|c| c.is_control()))
        };
        vals.retain(usable);
        if vals.is_empty() {
            vals.push("1".into());
        }
        SetFile {
            name: format!("{tag}{k}.{ext}"),
            col: col.into(),
            vals,
            gaps: self.r.pct(30),
            quoted: self.r.pct(20),
            decoy: if self.r.pct(30) { Some(one(self)).filter(usable) } else { None },
            ipc: None,
        }
    }

    // ---- options -----------------------------------------------------

    /// the options a command shares with `filter`
    pub fn filter_opts(&mut self, c: &mut Cmd) {
        c.skip = self.r.pct(60);
        if self.r.pct(25) {
            c.limit = Some(match self.r.below(4) {
                0 => 1,
                1 => self.r.range(1, 4),
                2 => self.r.range(1, 30),
                _ => 0,
            });
        }
        c.ci = self.r.pct(if self.fold.is_empty() { 15 } else { 50 });
        if self.r.pct(20) {
            c.sim = Some(self.r.range(0, 99) as u32);
        }
        // which values the lists are about
        let src = self.r.pct(20).then(|| {
            if self.r.pct(30) { PathX::simple("003@", "0") } else { self.path() }
        });
        if self.r.pct(12) {
            let n = if self.r.pct(10) { 5 } else { 2 };
            let n = self.r.range(1, n);
            c.allow =
                (0..n).map(|k| self.set_file(k, "allow", src.is_some())).collect();
        }
        if self.r.pct(12) {
            let n = if self.r.pct(10) { 5 } else { 2 };
            let n = self.r.range(1, n);
            c.deny =
                (0..n).map(|k| self.set_file(k, "deny", src.is_some())).collect();
        }
        let plain = c.allow.iter().chain(&c.deny).any(|s| s.name.contains(".txt"));
        let lists = c.allow.iter_mut().chain(c.deny.iter_mut());
        let mut any = false;
        // a plain list has no columns to choose from
        let n = if plain { 2 } else { 3 };
        let col = ["ppn", "idn", "id 1"][self.r.below(n)];
        for s in lists {
            any = true;
            if col == "id 1" {
                s.col = col.into();
            }
        }
        if any && col == "id 1" {
            c.set_col = Some(col.into());
        }
        if any {
            c.set_src = src;
        }
        let filter = c.name == "filter";
        if filter || (c.name != "check" && self.r.pct(40)) {
            c.expr = Some(self.expr(3));
            match self.r.below(10) {
                0 => c.or = (0..self.r.range(1, 2)).map(|_| self.expr(1)).collect(),
                1 => c.and = (0..self.r.range(1, 2)).map(|_| self.expr(1)).collect(),
                2 => c.not = (0..self.r.range(1, 2)).map(|_| self.expr(1)).collect(),
                3 => {
                    c.and = vec![self.expr(1)];
                    c.not = vec![self.expr(1)];
                }
                _ => {}
            }
        }
    }

    pub fn cmd(&mut self, name: &str) -> Cmd {
        let mut c = Cmd { name: name.into(), ..Default::default() };
        if !["concat", "convert", "invalid"].contains(&name) {
            self.filter_opts(&mut c);
        }
        let out = |g: &mut Gen, names: &[&str]| -> Option<String> {
            if g.r.pct(55) { Some(g.r.pick(names).to_string()) } else { None }
        };
        let recs = ["out.dat", "res/out.dat", "out.dat.gz", "o"];
        let text = ["out.csv", "res/out.txt", "out"];
        match name {
            "filter" => {
                c.invert = self.r.pct(30);
                c.gzip = self.r.pct(25);
                if self.r.pct(20) {
                    c.keep = (0..self.r.range(1, 3)).map(|_| self.pred()).collect();
                }
                if self.r.pct(20) {
                    c.discard =
                        (0..self.r.range(1, 2)).map(|_| self.pred()).collect();
                }
                if self.r.pct(20) {
                    c.tee = Some(self.r.pick(&["tee.dat", "tee.dat.gz"]).to_string());
                } else {
                    c.out = out(self, &recs);
                }
                if !c.gzip && (c.out.is_some() || c.tee.is_some()) {
                    c.append = self.r.pct(20);
                }
                if self.r.pct(15) {
                    c.expr_file = Some("expr.txt".into());
                }
            }
            "concat" => {
                c.skip = self.r.pct(60);
                c.unique = self.r.pct(60);
                if c.unique && self.r.pct(80) {
                    c.mode = self.r.pick(&["idn", "hash"]).to_string();
                }
                c.out = out(self, &recs);
                if self.r.pct(25) {
                    c.tee = Some(self.r.pick(&["tee.dat", "tee.dat.gz"]).to_string());
                }
                if c.out.is_some() || c.tee.is_some() {
                    c.append = self.r.pct(20);
                }
            }
            "convert" => {
                c.skip = self.r.pct(60);
                c.from = "plus".into();
                c.mode = self
                    .r
                    .pick(&["plus", "binary", "import", "json", "plain", "xml"])
                    .to_string();
                c.out = out(self, &["out.dat", "res/out", "out.xml"]);
                if c.mode == "plus" && c.out.is_some() && self.r.pct(30) {
                    c.out = Some("out.dat.gz".into());
                }
            }
            "invalid" => c.out = out(self, &["out.dat", "res/out", "o"]),
            "count" => {
                c.mode = self
                    .r
                    .pick(&["", "", "records", "fields", "subfields", "csv", "tsv"])
                    .to_string();
                if ["", "csv", "tsv"].contains(&c.mode.as_str()) {
                    c.no_header = self.r.pct(30);
                }
                c.out = out(self, &text);
                if c.out.is_some() {
                    c.append = self.r.pct(25);
                }
            }
            "describe" => {
                c.out = match *self.r.pick(&[
                    "out.csv", "out.csv", "out.tsv", "res/out.csv", "out.ipc", "out", "",
                ]) {
                    "" => None,
                    out => Some(out.to_string()),
                };
                if c.out.is_some() {
                    c.tsv = self.r.pct(12);
                    if !c.tsv && self.r.pct(12) {
                        c.mode = "csv".into();
                    }
                }
                if self.r.pct(15) {
                    c.keep = vec![self.pred()];
                }
                if self.r.pct(15) {
                    c.discard = vec![self.pred()];
                }
            }
            "explode" => {
                c.mode =
                    self.r.pick(&["main", "local", "copy", "local", "copy"]).to_string();
                c.gzip = self.r.pct(20);
                if self.r.pct(20) {
                    c.keep = (0..self.r.range(1, 2)).map(|_| self.pred()).collect();
                }
                if self.r.pct(20) {
                    c.discard = vec![self.pred()];
                }
                c.out = out(self, &recs);
            }
            "frequency" => {
                c.query = self.frags();
                c.unique = self.r.pct(25);
                c.reverse = self.r.pct(30);
                c.squash = self.r.pct(20);
                c.merge = !c.squash && self.r.pct(20);
                if (c.squash || c.merge) && self.r.pct(50) {
                    c.sep = Some(self.r.pick(&["+", ", ", "||"]).to_string());
                }
                if self.r.pct(30) {
                    c.threshold = Some(self.r.range(0, 4) as u64);
                }
                if self.r.pct(25) {
                    c.n = self.r.range(1, 5);
                }
                c.tsv = self.r.pct(25);
                c.header = self.header(&c.query, true);
                c.nf = self.nf();
                c.out = out(self, &text);
            }
            "select" => {
                c.query = self.frags();
                c.unique = self.r.pct(25);
                c.no_empty = self.r.pct(20);
                c.squash = self.r.pct(20);
                c.merge = !c.squash && self.r.pct(20);
                if (c.squash || c.merge) && self.r.pct(50) {
                    c.sep = Some(self.r.pick(&["+", ", ", "||"]).to_string());
                }
                c.tsv = self.r.pct(25);
                if self.r.pct(30) {
                    c.quote = self
                        .r
                        .pick(&["always", "non-numeric", "necessary"])
                        .to_string();
                }
                c.header = self.header(&c.query, false);
                c.nf = self.nf();
                c.out = out(self, &text);
                if c.out.is_some() {
                    c.append = self.r.pct(15);
                }
            }
            "hash" => {
                c.tsv = self.r.pct(25);
                if self.r.pct(20) {
                    c.header = Some("idn,sha".into());
                }
                c.out = out(self, &text);
            }
            "print" => {
                c.nf = self.nf();
                c.out = out(self, &text);
            }
            "partition" => {
                c.path = Some(self.path());
                c.gzip = self.r.pct(20);
                if self.r.pct(35) {
                    c.template = Some(
                        self.r
                            .pick(&[
                                "p-{}.dat", "{}.dat.gz", "{}", "x{}{}",
                                "same.dat", "./{}.dat",
                            ])
                            .to_string(),
                    );
                }
                c.outdir = self.outdir();
            }
            "split" => {
                c.n = *self.r.pick(&[1, 1, 2, 3, 5, 10, 100]);
                c.gzip = self.r.pct(20);
                if self.r.pct(35) {
                    c.template = Some(
                        self.r
                            .pick(&["chunk-{}.dat", "{}.dat.gz", "{}", "c{}-{}"])
                            .to_string(),
                    );
                }
                c.outdir = self.outdir();
            }
            "sample" => {
                c.n = *self.r.pick(&[1, 2, 3, 5, 10, 50]);
                c.gzip = self.r.pct(20);
                if self.r.pct(70) {
                    c.seed = Some(self.r.below(1000) as u64);
                }
                c.out = out(self, &recs);
            }
            "slice" => {
                c.n = if self.r.pct(50) { 0 } else { self.r.below(12) };
                match self.r.below(4) {
                    0 => c.end = self.r.range(1, 20),
                    1 | 2 => c.length = self.r.range(1, 12),
                    _ => {}
                }
                c.gzip = self.r.pct(15);
                c.out = out(self, &recs);
                if !c.gzip && c.out.is_some() {
                    c.append = self.r.pct(20);
                }
            }
            "check" => {
                c.rulesets = self.rulesets();
                let ids: Vec<String> = c
                    .rulesets
                    .iter()
                    .flat_map(|s| s.rules.iter().map(|r| r.id.clone()))
                    .collect();
                if self.r.pct(20) {
                    for _ in 0..self.r.range(1, 2) {
                        let id = self.r.pick(&ids).clone();
                        c.select_rules.push(match self.r.below(3) {
                            0 => format!("^{id}$"),
                            1 => id[..1].to_string(),
                            _ => id,
                        });
                    }
                }
                if self.r.pct(20) {
                    c.select_tags = some(
                        self.r,
                        &["t1".to_string(), "t2".into(), "t3".into()],
                        1,
                        2,
                    );
                }
                c.out = out(self, &["out.csv", "out.tsv", "out.txt", "res/out.csv"]);
            }
            _ => panic!("no generator for {name}"),
        }
        if !["config", "describe"].contains(&name) || c.out.is_some() {
            let allowed = c.out.is_some() || name == "partition" || name == "split";
            c.progress = allowed && self.r.pct(12);
        }
        c
    }

    fn outdir(&mut self) -> Option<String> {
        match self.r.below(4) {
            0 => None,
            1 => Some("parts".into()),
            2 => Some("deep/er/dir".into()),
            _ => Some("res".into()),
        }
    }

    fn config_nf(&mut self) -> Option<String> {
        let forms = ["nfc", "nfkc", "nfd", "nfkd"];
        self.r.pct(9).then(|| self.r.pick(&forms).to_string())
    }

    fn nf(&mut self) -> Option<String> {
        if self.r.pct(75) {
            return None;
        }
        Some(self.r.pick(&["nfc", "nfd", "nfkc", "nfkd"]).to_string())
    }

    fn header(&mut self, q: &[Frag], count: bool) -> Option<String> {
        if self.r.pct(70) {
            return None;
        }
        let n: usize = q
            .iter()
            .map(|f| match f {
                Frag::Lit(_) | Frag::Fmt(_) => 1,
                Frag::Path(p) => p.codes.len(),
            })
            .sum::<usize>()
            + count as usize;
        Some(
            (0..n).map(|i| format!("col{i}")).collect::<Vec<_>>().join(", "),
        )
    }

    pub fn rulesets(&mut self) -> Vec<RuleSet> {
        let n = self.r.range(1, 2);
        (0..n).map(|k| self.ruleset(k)).collect()
    }

    fn rule_path(&mut self) -> PathX {
        if self.r.pct(40) {
            return self.path();
        }
        PathX {
            tag: self.tagm(),
            occ: self.occm(),
            codes: vec![self.codem()],
            sub: None,
            curly: false,
        }
    }

    fn ruleset(&mut self, k: usize) -> RuleSet {
        let fast = self.r.pct(20);
        let mut rs = RuleSet {
            file: format!("rules{k}.toml"),
            scope: if self.r.pct(35) { Some(self.expr(1)) } else { None },
            termination: if fast {
                "fast".into()
            } else if self.r.pct(20) {
                "default".into()
            } else {
                String::new()
            },
            rules: Vec::new(),
        };
        for i in 0..self.r.range(1, 5) {
            let kinds = [
                "filter", "allow", "datetime", "isni", "iso639-2b", "jelc",
                "duplicates", "unicode", "link",
            ];
            let check = kinds[self.r.below(kinds.len() - fast as usize)];
            let mut r = Rule {
                id: format!("{}{k}{i}", ["A", "B", "Z"][self.r.below(3)]),
                check: check.into(),
                level: self
                    .r
                    .pick(&["", "error", "warning", "info"])
                    .to_string(),
                tags: some(
                    self.r,
                    &["t1".to_string(), "t2".into(), "t3".into()],
                    0,
                    2,
                ),
                ..Default::default()
            };
            if check != "unicode" {
                r.ci = self.r.pct(15);
                if self.r.pct(15) {
                    r.sim = Some(*self.r.pick(&[0, 50, 95, 100]));
                }
            }
            let simple = |g: &mut Gen| PathX {
                tag: g.tagm(),
                occ: g.occm(),
                codes: vec![g.codem()],
                sub: None,
                curly: false,
            };
            match check {
                "filter" => {
                    r.expr = Some(self.expr(2));
                    r.invert = self.r.pct(25);
                }
                "allow" => {
                    r.path = Some(self.rule_path());
                    if self.r.pct(4) {
                        let n = *self.r.pick(&[99, 1000, 4100]);
                        r.list.extend(
                            (0..n).map(|i| B(format!("{i:05}").into_bytes())),
                        );
                    }
                    for _ in 0..self.r.range(1, 4) {
                        let w = self.word();
                        if !w.0.iter().any(|c| b",\"|\t;".contains(c))
                            && w.0.first() != Some(&b' ')
                            && w.0.last() != Some(&b' ')
                        {
                            r.list.push(w);
                        }
                    }
                    r.list.push(B::from("allowed"));
                }
                "duplicates" => {
                    r.query = if self.r.pct(50) {
                        vec![Frag::Path(simple(self))]
                    } else {
                        self.frags()
                    };
                    if self.r.pct(25) {
                        r.sep = Some(
                            self.r.pick(&["", "/", "--", "\u{e9}"]).to_string(),
                        );
                    }
                    if self.r.pct(30) {
                        r.threshold = Some(self.r.range(2, 3));
                    }
                }
                "unicode" => {
                    if self.r.pct(70) {
                        r.normalization =
                            self.r.pick(&["nfc", "nfd", "nfkc", "nfkd"]).to_string();
                    }
                }
                "link" => {
                    r.path = Some(simple(self));
                    r.path2 = Some(if self.r.pct(50) {
                        PathX::simple("003@", "0")
                    } else {
                        simple(self)
                    });
                    if self.r.pct(40) {
                        r.target = Some(self.expr(1));
                    }
                }
                "datetime" => {
                    r.path = Some(self.rule_path());
                    if self.r.pct(40) {
                        r.offset = self.r.range(1, 3);
                    }
                    if self.r.pct(40) {
                        r.format =
                            self.r.pick(&["%Y%m%d", "%d.%m.%Y", "%Y"]).to_string();
                    }
                    if r.format == "%Y" {
                        r.format = "%Y-%m-%d".into();
                    }
                }
                "isni" => {
                    r.path = Some(self.rule_path());
                    if self.r.pct(40) {
                        r.prefix = Some(
                            self.r
                                .pick(&["(isni)", "isni", "0", "\u{e9}"])
                                .to_string(),
                        );
                    }
                }
                _ => r.path = Some(simple(self)),
            }
            rs.rules.push(r);
        }
        rs
    }

    // ---- whole cases -------------------------------------------------

    /// the command on some input, in a world of its own
    pub fn case(&mut self, name: &str) -> Case {
        let inputs = self.inputs();
        let cmd = self.cmd(name);
        let mut case = Case {
            cmd,
            inputs,
            config_skip: self.r.pct(6),
            config_nf: self.config_nf(),
            ..Default::default()
        };
        self.furniture(&mut case);
        case.world = self.rough();
        case
    }

    /// what lies around on the disk already
    pub fn furniture(&mut self, case: &mut Case) {
        case.files.insert("res/".into(), B(Vec::new()));
        case.files.insert("keep/me.txt".into(), B::from("precious\n"));
        // outputs may exist already
        let mut outs: Vec<String> = Vec::new();
        outs.extend(case.cmd.out.clone());
        outs.extend(case.cmd.tee.clone());
        for o in outs {
            if self.r.pct(if case.cmd.append { 70 } else { 25 }) {
                let old = if self.r.pct(50) {
                    b"OLD CONTENT\n".to_vec()
                } else {
                    let n = self.r.range(1, 5);
                    let bad = std::mem::replace(&mut self.p.bad, false);
                    let d = self.data_n(n);
                    self.p.bad = bad;
                    d
                };
                let old =
                    if o.ends_with(".gz") { gz(&old, &[]) } else { old };
                case.files.insert(o, B(old));
            }
        }
    }

    pub fn policy(&mut self) -> Policy {
        let eintr = if self.r.pct(35) { *self.r.pick(&[20, 120, 400]) } else { 0 };
        match self.r.below(8) {
            0 | 1 => Policy { mode: 0, max: 0, eintr },
            2 => Policy { mode: 1, max: 1, eintr },
            3 => Policy { mode: 1, max: *self.r.pick(&[2, 3, 7, 64, 100]), eintr },
            4 | 5 => Policy {
                mode: 2,
                max: *self.r.pick(&[3, 16, 100, 1000, 9000]),
                eintr,
            },
            _ => Policy { mode: 3, max: *self.r.pick(&[8, 512, 8192]), eintr },
        }
    }

    /// a world in which nothing fails
    pub fn rough(&mut self) -> World {
        let seed = self.r.u64();
        World {
            seed,
            env: noise(seed),
            stackpad: self.r.below(4096) as u32,
            heappad: self.r.below(4096) as u32,
            clock: self.r.below(3) as u32,
            rd: self.policy(),
            wr: self.policy(),
            tty: self.r.pct(15),
            notty: if self.r.pct(50) { self.r.below(8) as u32 } else { 0 },
            ..Default::default()
        }
    }
}

/// Variables of somebody's environment.
fn noise(seed: u64) -> Vec<String> {
    let mut r = Rng::new(mix(seed ^ 0xe47));
    if !r.pct(30) {
        return Vec::new();
    }
    let all = [
        "LANG=de_DE.UTF-8",
        "LANG=C",
        "LC_ALL=tr_TR.UTF-8",
        "LC_NUMERIC=de_DE.UTF-8",
        "TZ=Asia/Kathmandu",
        "TZ=America/St_Johns",
        "COLUMNS=130",
        "LINES=3",
        "USER=nobody",
        "LOGNAME=",
        "SHELL=/bin/false",
        "PWD=/nowhere",
        "OLDPWD=/",
        "TMPDIR=/nonexistent",
        "EDITOR=vi",
        "SOURCE_DATE_EPOCH=1",
        "RUST_LOG=trace",
        "RUST_BACKTRACE=full",
        "HOSTNAME=x",
        "LS_COLORS=",
        "PAGER=cat",
        "CI=true",
        "DEBUG=1",
        "PICA_SKIP_INVALID=true",
        "PICA_CONFIG=/nonexistent",
    ];
    (0..r.range(1, 4)).map(|_| r.pick(&all).to_string()).collect()
}
