//! Just enough JSON for replay and evidence files.

use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Int(i64), Num(f64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

impl J {
    pub fn s(s: impl Into<String>) -> J { J::Str(s.into()) }
    pub fn counts(m: &BTreeMap<String, u64>) -> J { J::Obj(m.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect()) }
    pub fn get(&self, k: &str) -> Option<&J> { match self { J::Obj(o) => o.iter().find(|e| e.0 == k).map(|e| &e.1), _ => None } }
    pub fn str(&self) -> Option<&str> { match self { J::Str(s) => Some(s), _ => None } }
    pub fn int(&self) -> Option<i64> { match self { J::Int(i) => Some(*i), _ => None } }
    pub fn ints(&self) -> Vec<i64> { match self { J::Arr(a) => a.iter().filter_map(|x| x.int()).collect(), _ => vec![] } }

    pub fn write(&self, out: &mut String, ind: usize) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => out.push_str(&i.to_string()),
            J::Num(n) => out.push_str(&format!("{:.3}", n)),
            J::Str(s) => quote(s, out),
            J::Arr(a) => {
                let flat = a.iter().all(|x| matches!(x, J::Int(_)));
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 { out.push(','); if flat { out.push(' ') } }
                    if !flat { nl(out, ind + 1) }
                    x.write(out, ind + 1);
                }
                if !flat && !a.is_empty() { nl(out, ind) }
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 { out.push(',') }
                    nl(out, ind + 1);
                    quote(k, out);
                    out.push_str(": ");
                    v.write(out, ind + 1);
                }
                if !o.is_empty() { nl(out, ind) }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String { let mut s = String::new(); self.write(&mut s, 0); s.push('\n'); s }
}

fn nl(out: &mut String, n: usize) { out.push('\n'); for _ in 0..n { out.push(' ') } }

fn quote(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

pub fn parse(s: &str) -> Option<J> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let v = value(&c, &mut i)?;
    ws(&c, &mut i);
    if i == c.len() { Some(v) } else { None }
}

fn ws(c: &[char], i: &mut usize) { while *i < c.len() && c[*i].is_whitespace() { *i += 1 } }

fn value(c: &[char], i: &mut usize) -> Option<J> {
    ws(c, i);
    match *c.get(*i)? {
        '{' => {
            *i += 1;
            let mut o = vec![];
            loop {
                ws(c, i);
                if *c.get(*i)? == '}' { *i += 1; return Some(J::Obj(o)); }
                if !o.is_empty() { if *c.get(*i)? != ',' { return None } *i += 1; ws(c, i); }
                let k = match value(c, i)? { J::Str(s) => s, _ => return None };
                ws(c, i);
                if *c.get(*i)? != ':' { return None }
                *i += 1;
                o.push((k, value(c, i)?));
            }
        }
        '[' => {
            *i += 1;
            let mut a = vec![];
            loop {
                ws(c, i);
                if *c.get(*i)? == ']' { *i += 1; return Some(J::Arr(a)); }
                if !a.is_empty() { if *c.get(*i)? != ',' { return None } *i += 1; }
                a.push(value(c, i)?);
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            loop {
                let ch = *c.get(*i)?;
                *i += 1;
                match ch {
                    '"' => return Some(J::Str(s)),
                    '\\' => {
                        let e = *c.get(*i)?;
                        *i += 1;
                        s.push(match e {
                            'n' => '\n', 'r' => '\r', 't' => '\t', 'b' => '\u{8}', 'f' => '\u{c}',
                            'u' => {
                                let h: String = c.get(*i..*i + 4)?.iter().collect();
                                *i += 4;
                                char::from_u32(u32::from_str_radix(&h, 16).ok()?).unwrap_or('\u{fffd}')
                            }
                            x => x,
                        });
                    }
                    x => s.push(x),
                }
            }
        }
        _ => {
            let b = *i;
            while *i < c.len() && !",]}".contains(c[*i]) && !c[*i].is_whitespace() { *i += 1 }
            let w: String = c[b..*i].iter().collect();
            match &w[..] {
                "null" => Some(J::Null),
                "true" => Some(J::Bool(true)),
                "false" => Some(J::Bool(false)),
                _ => w.parse::<i64>().map(J::Int).or_else(|_| w.parse::<f64>().map(J::Num)).ok(),
            }
        }
    }
}
