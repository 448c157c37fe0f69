//! A dictionary for the generators: the string and number literals of the crate under test.
//!
//! Names and sizes the code treats specially appear in it as literals; feeding them to the
//! generators makes those cases likely. It only biases what is generated, never what is judged.
//! Literals the pinned tree does not have (`base.txt` lists those it has) come first. The
//! dictionary is part of a replay file, so that a replay does not depend on the sources.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Clone, Debug, PartialEq)]
pub struct Dict { pub words: Vec<String>, pub numbers: Vec<u64> }

const BASE: &str = include_str!("dict_base.txt");
const ENV: &str = "SIM_DICT";

fn files(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    let mut list: Vec<_> = std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
    list.sort();
    for p in list {
        if p.is_dir() { files(&p, out) } else if p.extension().map_or(false, |e| e == "rs") { out.push(p) }
    }
}

/// String and number literals of Rust source, roughly lexed; test modules left out.
fn literals(src: &str, words: &mut BTreeSet<String>, numbers: &mut BTreeSet<u64>) {
    let mut src = src.to_string();
    while let Some(i) = src.find("#[cfg(test)]") {
        // Up to the end of the item.
        let e = src[i..].find("\n}").map_or(src.len(), |k| i + k + 2);
        src.replace_range(i..e, "");
    }
    let c: Vec<char> = src.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < c.len() {
        let ch = c[i];
        if ch == '/' && at(i + 1) == '/' { while i < c.len() && c[i] != '\n' { i += 1 } continue }
        if ch == '/' && at(i + 1) == '*' { i += 2; while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') { i += 1 } i += 2; continue }
        if ch == '\'' {
            // A character, or a lifetime.
            if at(i + 1) == '\\' {
                let e = (i + 2..c.len().min(i + 14)).find(|k| c[*k] == '\'' && *k > i + 2).unwrap_or(i + 2);
                i = e + 1;
            } else if at(i + 2) == '\'' {
                words.insert(at(i + 1).to_string());
                i += 3;
            } else { i += 1 }
            continue;
        }
        if ch == 'r' && (at(i + 1) == '"' || at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#')) && (i == 0 || !(at(i - 1).is_alphanumeric() || at(i - 1) == '_') || at(i - 1) == 'b') {
            let mut h = 0;
            while at(i + 1 + h) == '#' { h += 1 }
            let b = i + 2 + h;
            let mut e = b;
            while e < c.len() && !(c[e] == '"' && (0..h).all(|k| at(e + 1 + k) == '#')) { e += 1 }
            words.insert(c[b.min(e)..e].iter().collect());
            i = e + 1 + h;
            continue;
        }
        if ch == '"' {
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] != '\\' { s.push(c[i]); i += 1; continue }
                i += 1;
                match at(i) {
                    'n' => s.push('\n'), 't' => s.push('\t'), 'r' => s.push('\r'), '0' => s.push('\0'),
                    'x' => { let h: String = (1..3).map(|k| at(i + k)).collect(); s.extend(u8::from_str_radix(&h, 16).ok().map(|b| b as char)); i += 2 }
                    'u' => {
                        let mut h = String::new();
                        i += 2;
                        while i < c.len() && c[i] != '}' { h.push(c[i]); i += 1 }
                        s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                    }
                    '\n' => { while at(i + 1).is_whitespace() { i += 1 } }
                    x => s.push(x),
                }
                i += 1;
            }
            i += 1;
            words.insert(s);
            continue;
        }
        if ch.is_ascii_digit() {
            let mut e = i;
            while at(e).is_alphanumeric() || at(e) == '_' { e += 1 }
            let w: String = c[i..e].iter().filter(|x| **x != '_').collect();
            let n = if let Some(h) = w.strip_prefix("0x") { u64::from_str_radix(h.trim_end_matches(|x: char| !x.is_ascii_hexdigit()), 16).ok() }
                else { let d: String = w.chars().take_while(|x| x.is_ascii_digit()).collect(); d.parse().ok() };
            if let Some(n) = n {
                numbers.insert(n);
                // Shifts are written with small numbers.
                if at(i.wrapping_sub(2)) == '<' && n < 40 { numbers.insert(1 << n); }
            }
            i = e;
            continue;
        }
        if ch.is_alphabetic() || ch == '_' { while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1 } if at(i) == '"' || at(i) == '#' { if matches!(at(i - 1), 'r') { i -= 1 } } continue }
        i += 1;
    }
}

fn collect(dir: &Path) -> (BTreeSet<String>, BTreeSet<u64>) {
    let mut list = Vec::new();
    files(dir, &mut list);
    let (mut words, mut numbers) = (BTreeSet::new(), BTreeSet::new());
    for f in list { if let Ok(s) = std::fs::read_to_string(&f) { literals(&s, &mut words, &mut numbers) } }
    (words, numbers)
}

fn dir() -> std::path::PathBuf { std::env::var_os("SIM_SOURCES").map_or_else(|| "/repo/src".into(), |d| d.into()) }

/// The literals of the pinned tree, as `dict_base.txt`.
pub fn base_text() -> String {
    let (w, n) = collect(&dir());
    let mut s = String::new();
    for x in n { s.push_str(&format!("{}\n", x)) }
    for x in w { s.push_str(&format!("{:?}\n", x)) }
    s
}

pub fn harvest() -> Dict {
    let (w, n) = collect(&dir());
    let base: BTreeSet<&str> = BASE.lines().collect();
    let fresh_w: Vec<String> = w.iter().filter(|x| !base.contains(&format!("{:?}", x)[..])).cloned().collect();
    let mut fresh_n: Vec<u64> = n.iter().filter(|x| !base.contains(&x.to_string()[..])).copied().collect();
    fresh_n.retain(|n| *n <= 1 << 24);
    let ok = |s: &String| !s.is_empty() && s.len() <= 64;
    Dict {
        words: if fresh_w.iter().any(ok) { fresh_w.into_iter().filter(ok).take(64).collect() } else { w.into_iter().filter(ok).filter(|s| s.len() <= 12).take(64).collect() },
        numbers: fresh_n.into_iter().take(64).collect(),
    }
}

fn hex(s: &str) -> String { s.bytes().map(|b| format!("{:02x}", b)).collect() }
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).filter_map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect();
    String::from_utf8_lossy(&b).into_owned()
}

impl Dict {
    pub fn encode(&self) -> String {
        let w: Vec<String> = self.words.iter().map(|s| hex(s)).collect();
        let n: Vec<String> = self.numbers.iter().map(|n| n.to_string()).collect();
        format!("{}|{}", w.join(","), n.join(","))
    }
    pub fn decode(s: &str) -> Dict {
        let (w, n) = s.split_once('|').unwrap_or((s, ""));
        Dict {
            words: w.split(',').filter(|x| !x.is_empty()).map(unhex).collect(),
            numbers: n.split(',').filter_map(|x| x.parse().ok()).collect(),
        }
    }
    /// Makes it the dictionary of this process and of the processes it starts.
    pub fn publish(&self) { std::env::set_var(ENV, self.encode()) }
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| match std::env::var(ENV) { Ok(s) => Dict::decode(&s), Err(_) => harvest() })
}
