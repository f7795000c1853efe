//! The literals of the code under test, as a dictionary for the workload.
//!
//! Code that treats one value in a special way names that value. The generators therefore prefer, in
//! some of the cases, the numbers and byte strings that occur in the sources, and most of all those
//! that did not occur there when this harness was made. This only steers the workload: what is right
//! or wrong is decided by the monitors, whatever the sources look like.
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    /// numbers, and those of them that are new
    pub nums: Vec<u64>,
    pub new_nums: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
    pub new_strs: Vec<Vec<u8>>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn get() -> Option<&'static Dict> {
    DICT.get()
}

/// What the sources contained when the harness was made
const KNOWN: &str = include_str!("literals.txt");

#[derive(Debug, PartialEq)]
enum Tok {
    Num(u64),
    Str(Vec<u8>),
    Op(u8),
    Other,
}

fn escaped(s: &[u8], i: &mut usize) -> u8 {
    let c = s.get(*i).copied().unwrap_or(0);
    *i += 1;
    if c != b'\\' {
        return c;
    }
    let c = s.get(*i).copied().unwrap_or(0);
    *i += 1;
    match c {
        b'n' => b'\n',
        b't' => b'\t',
        b'r' => b'\r',
        b'0' => 0,
        b'x' => {
            let h = s.get(*i..*i + 2).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok()).unwrap_or(0);
            *i += 2;
            h
        }
        c => c,
    }
}

fn tokens(s: &[u8]) -> Vec<Tok> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        match c {
            b'/' if s.get(i + 1) == Some(&b'/') => {
                while i < s.len() && s[i] != b'\n' {
                    i += 1;
                }
            }
            b'/' if s.get(i + 1) == Some(&b'*') => {
                i += 2;
                while i < s.len() && !s[i..].starts_with(b"*/") {
                    i += 1;
                }
                i += 2;
            }
            b'"' => {
                i += 1;
                let mut t = vec![];
                while i < s.len() && s[i] != b'"' {
                    t.push(escaped(s, &mut i));
                }
                i += 1;
                v.push(Tok::Str(t));
            }
            b'\'' => {
                // a character, or a lifetime
                let mut j = i + 1;
                let b = escaped(s, &mut j);
                if s.get(j) == Some(&b'\'') {
                    v.push(Tok::Num(b.into()));
                    i = j + 1;
                } else {
                    i += 1;
                }
            }
            b'0'..=b'9' => {
                let from = i;
                while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'_') {
                    i += 1;
                }
                let t: String = s[from..i].iter().filter(|&&c| c != b'_').map(|&c| char::from(c)).collect();
                let (radix, t) = match t.get(..2) {
                    Some("0x") => (16, t[2..].to_string()),
                    Some("0b") => (2, t[2..].to_string()),
                    Some("0o") => (8, t[2..].to_string()),
                    _ => (10, t),
                };
                let t = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"].iter().find_map(|x| t.strip_suffix(x)).unwrap_or(&t);
                v.push(u64::from_str_radix(t, radix).map_or(Tok::Other, Tok::Num));
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let from = i;
                while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'_') {
                    i += 1;
                }
                // the b of byte strings and characters belongs to what follows
                if !(&s[from..i] == b"b" && matches!(s.get(i), Some(b'"' | b'\''))) {
                    v.push(Tok::Other);
                }
            }
            b' ' | b'\n' | b'\t' | b'\r' | b'(' | b')' => i += 1,
            b'<' if s.get(i + 1) == Some(&b'<') => {
                v.push(Tok::Op(b'<'));
                i += 2;
            }
            _ => {
                v.push(Tok::Op(c));
                i += 1;
            }
        }
    }
    v
}

fn collect(s: &[u8], nums: &mut BTreeSet<u64>, strs: &mut BTreeSet<Vec<u8>>) {
    let t = tokens(s);
    for (i, x) in t.iter().enumerate() {
        match x {
            Tok::Num(n) => {
                nums.insert(*n);
                if let (Some(Tok::Op(op)), Some(Tok::Num(m))) = (t.get(i + 1), t.get(i + 2)) {
                    let r = match op {
                        b'*' => n.checked_mul(*m),
                        b'<' if *m < 40 && *n < 1 << 20 => Some(n << m),
                        b'+' => n.checked_add(*m),
                        b'-' => n.checked_sub(*m),
                        _ => None,
                    };
                    nums.extend(r);
                }
            }
            Tok::Str(s) if (2..=40).contains(&s.len()) => {
                strs.insert(s.clone());
            }
            _ => {}
        }
    }
}

fn files(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}

/// Also gives the text for literals.txt.
pub fn load(repo: &str) -> String {
    let (mut nums, mut strs) = (BTreeSet::new(), BTreeSet::new());
    let mut fs = vec![];
    files(&std::path::Path::new(repo).join("src"), &mut fs);
    fs.sort();
    for f in fs {
        if let Ok(s) = std::fs::read(f) {
            collect(&s, &mut nums, &mut strs);
        }
    }
    nums.retain(|&n| n < 1 << 32);
    let hex = |s: &[u8]| s.iter().map(|b| format!("{b:02x}")).collect::<String>();
    let known: BTreeSet<&str> = KNOWN.lines().collect();
    let mut d = Dict { nums: nums.iter().copied().collect(), strs: strs.iter().cloned().collect(), ..Dict::default() };
    d.new_nums = d.nums.iter().copied().filter(|n| !known.contains(n.to_string().as_str())).collect();
    d.new_strs = d.strs.iter().filter(|s| !known.contains(format!("s{}", hex(s)).as_str())).cloned().collect();
    let text = d.nums.iter().map(|n| format!("{n}\n")).chain(d.strs.iter().map(|s| format!("s{}\n", hex(s)))).collect();
    let _ = DICT.set(d);
    text
}
