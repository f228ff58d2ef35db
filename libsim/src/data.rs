//! Lines: valid records, records with strange bytes, and things that are
//! no records.

use crate::bytes::B;
use crate::rng::Rng;

fn value(g: &mut Rng, utf8: bool) -> Vec<u8> {
    let n = match g.below(20) {
        0 => 0,
        1 => g.range(100, 400),
        2 if g.pct(30) => g.range(4000, 20000),
        _ => g.range(1, 14),
    };
    let mut v = Vec::new();
    while v.len() < n {
        match g.below(12) {
            0 => v.extend_from_slice("ä".as_bytes()),
            1 => v.extend_from_slice("漢".as_bytes()),
            2 => v.push(*g.pick(b" /$.,;\"'<>&\\\t\r\x00")),
            _ => v.push(b'a' + g.below(26) as u8),
        }
    }
    if !utf8 {
        let at = g.below(v.len() + 1);
        let bad: &[u8] = *g.pick(&[&b"\xff"[..], b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\x80"]);
        v.splice(at..at, bad.iter().copied());
    }
    v
}

pub fn record(g: &mut Rng, utf8: bool) -> Vec<u8> {
    let mut r = Vec::new();
    let n = if g.pct(4) { g.range(20, 200) } else { g.range(1, 5) };
    let bad = if utf8 { usize::MAX } else { g.below(n) };
    for i in 0..n {
        if i == 0 && g.pct(80) {
            r.extend_from_slice(b"003@ \x1f0");
            r.extend_from_slice(&value(g, i != bad));
            r.push(0x1e);
            continue;
        }
        r.push(b'0' + g.below(3) as u8);
        r.push(b'0' + g.below(10) as u8);
        r.push(b'0' + g.below(10) as u8);
        r.push(*g.pick(b"@ABCKXYZ"));
        match g.below(5) {
            0 => r.extend_from_slice(format!("/{:02}", g.below(100)).as_bytes()),
            1 => r.extend_from_slice(format!("/{:03}", g.below(1000)).as_bytes()),
            _ => {}
        }
        r.push(b' ');
        let k = if i == bad { g.range(1, 3) } else { g.below(4) };
        let hit = g.below(k.max(1));
        for j in 0..k {
            r.push(0x1f);
            r.push(*g.pick(b"abcXYZ0123459"));
            r.extend_from_slice(&value(g, !(i == bad && j == hit)));
        }
        r.push(0x1e);
    }
    r.push(b'\n');
    r
}

pub fn broken(g: &mut Rng) -> Vec<u8> {
    let mut r = record(g, true);
    match g.below(8) {
        7 => {
            let b: &[u8] = *g.pick(&[&b"\xef\xbb\xbf"[..], b" ", b"\xff\xfe", b"#"]);
            r.splice(0..0, b.iter().copied());
        }
        0 => return b"\n".to_vec(),
        1 => return value(g, true).into_iter().filter(|c| *c != b'\n').chain([b'\n']).collect(),
        2 => {
            // cut off somewhere
            let k = g.range(1, r.len() - 1);
            r.truncate(k);
            r.push(b'\n');
        }
        3 => {
            let k = g.below(r.len() - 1);
            r.remove(k);
        }
        4 => {
            let k = g.below(r.len() - 1);
            r[k] = *g.pick(b"\x00\x1e\x1f /Z9\r");
        }
        5 => {
            let k = r.len() - 1;
            r.insert(k, b'\r');
        }
        _ => {
            let k = g.below(r.len() - 1);
            r.insert(k, *g.pick(b"\x1e\x1f0 "));
        }
    }
    r
}

/// complete lines
pub fn lines(g: &mut Rng) -> Vec<B> {
    // more than small counters hold
    if g.below(2500) == 0 {
        let mut pool = vec![b"003@ \x1f0a\x1e\n".to_vec(), b"bad\n".to_vec()];
        for _ in 0..4 {
            let r = if g.pct(25) { broken(g) } else { record(g, true) };
            pool.extend((r.len() < 120).then_some(r));
        }
        return (0..g.range(65_500, 66_500)).map(|_| B(g.pick(&pool).clone())).collect();
    }
    let n = match g.below(12) {
        0 => 0,
        1 => 1,
        2 => g.range(20, 60),
        _ => g.range(2, 9),
    };
    let bad = *g.pick(&[0, 0, 20, 50]);
    let alien = *g.pick(&[0, 0, 20, 50]);
    // a line that is longer than anything
    let long = if g.below(800) == 0 { g.below(n.max(1)) } else { n };
    let len = (1 << 20) + g.below(2 << 20);
    (0..n)
        .map(|i| {
            B(if i == long {
                let mut r = b"003@ \x1f0".to_vec();
                r.resize(len, b'a' + g.below(26) as u8);
                r.extend_from_slice(b"\x1e\n");
                r
            } else if g.pct(bad) {
                broken(g)
            } else {
                let a = g.pct(alien);
                record(g, !a)
            })
        })
        .collect()
}
