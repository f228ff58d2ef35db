//! A byte string that is readable in JSON: each byte is the character with
//! the same number.

use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct B(pub Vec<u8>);

impl fmt::Debug for B {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "\"{}\"", show(&self.0))
    }
}

impl From<&[u8]> for B {
    fn from(v: &[u8]) -> Self {
        B(v.to_vec())
    }
}

impl From<Vec<u8>> for B {
    fn from(v: Vec<u8>) -> Self {
        B(v)
    }
}

impl From<&str> for B {
    fn from(v: &str) -> Self {
        B(v.as_bytes().to_vec())
    }
}

impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let t: String = self.0.iter().map(|b| *b as char).collect();
        s.serialize_str(&t)
    }
}

impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Ok(B(s.chars().map(|c| c as u32 as u8).collect()))
    }
}

/// printable form, cut to a readable length
pub fn show(b: &[u8]) -> String {
    show_n(b, 600)
}

pub fn show_n(b: &[u8], n: usize) -> String {
    let mut s = String::new();
    for c in b.iter().take(n) {
        match c {
            b'\n' => s.push_str("\\n"),
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(*c as char),
            _ => s.push_str(&format!("\\x{c:02x}")),
        }
    }
    if b.len() > n {
        s.push_str(&format!("...[{} bytes]", b.len()));
    }
    s
}
