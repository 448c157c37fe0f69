//! The executable reference model: documents as trees, an independent parser and renderer.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tag { pub name: String, pub attrs: Vec<(String, Option<String>)> }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Doctype(String),
    Comment(String),
    Text(String),
    Raw(String),
    Void(Tag),
    SelfClosed(Tag),
    Elem { tag: Tag, children: Vec<Node>, close: String },
}

pub const RAW_TAGS: [&str; 4] = ["script", "style", "title", "textarea"];
pub const VOID_TAGS: [&str; 16] = [
    "area", "base", "br", "col", "embed", "hr", "img", "input", "keygen", "link", "menuitem",
    "meta", "param", "source", "track", "wbr",
];

pub fn ident_eq(a: &str, b: &str) -> bool {
    a.is_ascii() && b.is_ascii() && a.to_ascii_lowercase() == b.to_ascii_lowercase()
}
pub fn is_void(tag: &str) -> bool { VOID_TAGS.iter().any(|t| ident_eq(t, tag)) }
pub fn raw_tag(tag: &str) -> Option<&'static str> { RAW_TAGS.iter().copied().find(|t| ident_eq(t, tag)) }

impl Node {
    pub fn tag(&self) -> Option<&Tag> {
        match self {
            Node::Void(t) | Node::SelfClosed(t) | Node::Elem { tag: t, .. } => Some(t),
            _ => None,
        }
    }
    pub fn tag_mut(&mut self) -> Option<&mut Tag> {
        match self {
            Node::Void(t) | Node::SelfClosed(t) | Node::Elem { tag: t, .. } => Some(t),
            _ => None,
        }
    }
}

fn render_tag(t: &Tag, out: &mut String) {
    out.push_str(&t.name);
    for (n, v) in &t.attrs {
        out.push(' ');
        out.push_str(n);
        if let Some(v) = v { out.push_str("=\""); out.push_str(v); out.push('"'); }
    }
}

pub fn render_into(nodes: &[Node], out: &mut String) {
    for n in nodes {
        match n {
            Node::Doctype(c) => { out.push_str("<!doctype "); out.push_str(c); out.push('>') }
            Node::Comment(c) => { out.push_str("<!--"); out.push_str(c); out.push_str("-->") }
            Node::Text(c) | Node::Raw(c) => out.push_str(c),
            Node::Void(t) => { out.push('<'); render_tag(t, out); out.push('>') }
            Node::SelfClosed(t) => { out.push('<'); render_tag(t, out); out.push_str(" />") }
            Node::Elem { tag, children, close } => {
                out.push('<'); render_tag(tag, out); out.push('>');
                render_into(children, out);
                out.push_str("</"); out.push_str(close); out.push('>');
            }
        }
    }
}

pub fn render(nodes: &[Node]) -> String { let mut s = String::new(); render_into(nodes, &mut s); s }

/// Event kinds and their text, adjacent plain text merged, empty text dropped.
pub type Ev = (&'static str, String);

pub fn push_ev(out: &mut Vec<Ev>, kind: &'static str, text: String) {
    if kind == "raw content" && text.is_empty() { return; }
    if kind == "content" {
        if text.is_empty() { return; }
        if let Some(l) = out.last_mut() { if l.0 == "content" { l.1.push_str(&text); return; } }
    }
    out.push((kind, text));
}

pub fn events(nodes: &[Node], out: &mut Vec<Ev>) {
    for n in nodes {
        match n {
            Node::Doctype(_) => push_ev(out, "doctype", render(std::slice::from_ref(n))),
            Node::Comment(_) => push_ev(out, "comment", render(std::slice::from_ref(n))),
            Node::Text(t) => push_ev(out, "content", t.clone()),
            Node::Raw(t) => push_ev(out, "raw content", t.clone()),
            Node::Void(_) => push_ev(out, "void tag", render(std::slice::from_ref(n))),
            Node::SelfClosed(_) => push_ev(out, "self-closed tag", render(std::slice::from_ref(n))),
            Node::Elem { tag, children, close } => {
                let mut s = String::from("<");
                render_tag(tag, &mut s);
                s.push('>');
                push_ev(out, "opening tag", s);
                events(children, out);
                push_ev(out, "closing tag", format!("</{}>", close));
            }
        }
    }
}

/// Structure for comparison after a re-parse: adjacent text merged, empty text dropped.
pub fn normalize(nodes: &[Node]) -> Vec<Node> {
    let mut out: Vec<Node> = Vec::new();
    for n in nodes {
        match n {
            Node::Text(t) => {
                if t.is_empty() { continue; }
                if let Some(Node::Text(l)) = out.last_mut() { l.push_str(t); continue; }
                out.push(n.clone());
            }
            Node::Elem { tag, children, close } => out.push(Node::Elem {
                tag: tag.clone(), children: normalize(children), close: close.clone(),
            }),
            _ => out.push(n.clone()),
        }
    }
    out
}

pub fn depth(nodes: &[Node]) -> usize {
    nodes.iter().map(|n| match n { Node::Elem { children, .. } => 1 + depth(children), _ => 0 }).max().unwrap_or(0)
}

pub fn count(nodes: &[Node]) -> usize {
    fn tag(t: &Tag) -> usize { t.attrs.iter().map(|a| 1 + a.1.as_ref().map_or(0, |v| v.len() / 256)).sum() }
    nodes.iter().map(|n| match n {
        Node::Elem { children, tag: t, .. } => 2 + tag(t) + count(children),
        Node::Void(t) | Node::SelfClosed(t) => 1 + tag(t),
        Node::Text(t) | Node::Raw(t) | Node::Comment(t) => 1 + t.len() / 256,
        _ => 1,
    }).sum()
}

// ---------------------------------------------------------------------------------------------
// Reference parser

/// What is wrong and where. `at` holds the byte offsets (and names) the error speaks of.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PErr {
    pub kind: &'static str,
    pub at: Vec<(String, usize)>,
    /// Where parsing of the broken construct began (for errors that may be located either way).
    pub start: usize,
}

pub fn ident_error(w: &str) -> Option<&'static str> {
    if w.is_empty() { return Some("empty"); }
    if !w.is_ascii() { return Some("ascii"); }
    if w.chars().any(|c| c.is_whitespace()) { return Some("whitespace"); }
    if w.contains(['=', '"', '/', '>', '<', '&', ',', ';']) { return Some("forbidden"); }
    None
}

/// Why a name is invalid, with the character in question.
pub fn ident_cause(w: &str) -> Option<String> {
    let found = |f: &dyn Fn(char) -> bool| w.chars().find(|c| f(*c)).unwrap();
    ident_error(w).map(|k| match k {
        "whitespace" => format!("whitespace {:?}", found(&|c| c.is_whitespace())),
        "forbidden" => format!("forbidden {:?}", found(&|c| "=\"/><&,;".contains(c))),
        k => k.to_string(),
    })
}

struct P<'a> { s: &'a str }

impl<'a> P<'a> {
    fn ws(&self, i: usize) -> usize {
        self.s[i..].char_indices().find(|(_, c)| !c.is_whitespace()).map_or(self.s.len(), |(k, _)| i + k)
    }
    fn at(&self, i: usize, c: char) -> bool { self.s[i..].starts_with(c) }
    fn word(&self, i: usize) -> usize {
        self.s[i..].find([' ', '\t', '\r', '\n', '>', '<', '"', '/', '=', '\'', '&']).map_or(self.s.len(), |k| i + k)
    }
}

enum Close { No, Bad(PErr), Ok(String, usize) }

fn err<T>(kind: &'static str, name: &str, at: usize, start: usize) -> Result<T, PErr> {
    Err(PErr { kind, at: vec![(name.to_string(), at)], start })
}

fn close_tag(p: &P, i: usize) -> Close {
    if !p.at(i, '<') { return Close::No; }
    let j = p.ws(i + 1);
    if !p.at(j, '/') { return Close::No; }
    let j = p.ws(j + 1);
    let e = p.word(j);
    let w = &p.s[j..e];
    let bad = |kind, name: &str, at| Close::Bad(PErr { kind, at: vec![(name.to_string(), at)], start: i });
    if w.is_empty() { return bad("expected-closing-identifier", "", j); }
    if ident_error(w).is_some() { return bad("invalid-closing-identifier", "", j); }
    let k = p.ws(e);
    if !p.at(k, '>') { return bad("unfinished-closing", w, k); }
    Close::Ok(w.to_string(), k + 1)
}

/// Parses `s`; `max_depth` as configured.
pub fn parse(s: &str, max_depth: Option<usize>) -> Result<Vec<Node>, PErr> {
    let p = P { s };
    let mut stack: Vec<(Tag, usize, Vec<Node>)> = Vec::new();
    let mut cur: Vec<Node> = Vec::new();
    let mut i = 0;
    let mut raw: Option<&'static str> = None;
    while i < s.len() {
        if let Some(r) = raw.take() {
            let mut end = s.len();
            for (k, _) in s[i..].match_indices('<') {
                if let Close::Ok(name, _) = close_tag(&p, i + k) {
                    if ident_eq(&name, r) { end = i + k; break; }
                }
            }
            cur.push(Node::Raw(s[i..end].to_string()));
            i = end;
            continue;
        }
        if s[i..].starts_with("<!--") {
            match s[i + 4..].find("-->") {
                None => return err("unclosed-comment", "", i, i),
                Some(k) => {
                    cur.push(Node::Comment(s[i + 4..i + 4 + k].to_string()));
                    i += 4 + k + 3;
                    continue;
                }
            }
        }
        if s[i..].starts_with("<!") {
            let j = p.ws(i + 2);
            let e = p.word(j);
            if ident_eq(&s[j..e], "doctype") {
                let b = p.ws(e);
                match s[b..].find('>') {
                    None => return err("unclosed-doctype", "", i, i),
                    Some(k) => {
                        let c = s[b..b + k].trim();
                        if !ident_eq(c, "html") { return err("unsupported-doctype", c, i, i); }
                        cur.push(Node::Doctype(c.to_string()));
                        i = b + k + 1;
                        continue;
                    }
                }
            }
        }
        match close_tag(&p, i) {
            Close::Bad(e) => return Err(e),
            Close::Ok(name, next) => {
                match stack.pop() {
                    None => return err("unexpected-closing", &name, i, i),
                    Some((tag, at, outer)) => {
                        if !ident_eq(&tag.name, &name) {
                            return Err(PErr { kind: "mismatched-closing", at: vec![(tag.name, at), (name, i)], start: i });
                        }
                        let children = std::mem::replace(&mut cur, outer);
                        cur.push(Node::Elem { tag, children, close: name });
                    }
                }
                i = next;
                continue;
            }
            Close::No => (),
        }
        if p.at(i, '<') {
            let j = p.ws(i + 1);
            let e = p.word(j);
            let name = &s[j..e];
            if name.is_empty() { return err("expected-opening-identifier", "", j, i); }
            if ident_error(name).is_some() { return err("invalid-opening-identifier", "", j, i); }
            let mut k = p.ws(e);
            let mut attrs = Vec::new();
            while k < s.len() {
                let e = p.word(k);
                if e == k { break; }
                let an = &s[k..e];
                if ident_error(an).is_some() { return err("invalid-attribute-identifier", "", k, i); }
                k = p.ws(e);
                let mut value = None;
                if p.at(k, '=') {
                    let v = p.ws(k + 1);
                    if !p.at(v, '"') {
                        return Err(PErr { kind: "invalid-attribute-value", at: vec![(name.into(), v), (an.into(), v)], start: i });
                    }
                    match s[v + 1..].find('"') {
                        None => return Err(PErr { kind: "unclosed-attribute-value", at: vec![(name.into(), v), (an.into(), v)], start: i }),
                        Some(l) => { value = Some(s[v + 1..v + 1 + l].to_string()); k = v + 1 + l + 1; }
                    }
                }
                attrs.push((an.to_string(), value));
                k = p.ws(k);
            }
            let self_close = p.at(k, '/');
            if self_close { k = p.ws(k + 1); }
            if !p.at(k, '>') { return err("unfinished-opening", name, k, i); }
            if !self_close { raw = raw_tag(name); }
            let tag = Tag { name: name.to_string(), attrs };
            if is_void(name) { cur.push(Node::Void(tag)); }
            else if self_close { cur.push(Node::SelfClosed(tag)); }
            else {
                if max_depth == Some(stack.len()) { return err("depth-limit", name, i, i); }
                stack.push((tag, i, std::mem::take(&mut cur)));
            }
            i = k + 1;
            continue;
        }
        let e = s[i..].find('<').map_or(s.len(), |k| i + k);
        cur.push(Node::Text(s[i..e].to_string()));
        i = e;
    }
    if !stack.is_empty() {
        let mut at: Vec<(String, usize)> = stack.iter().map(|(t, a, _)| (t.name.clone(), *a)).collect();
        at.reverse();
        return Err(PErr { kind: "missing-closing", at, start: s.len() });
    }
    Ok(cur)
}

/// Line and column (both from 1) of a byte offset.
pub fn line_col(s: &str, offset: usize) -> (usize, usize) {
    let before = &s[..offset];
    let line = 1 + before.matches('\n').count();
    let col = 1 + before.rsplit('\n').next().unwrap_or("").chars().count();
    (line, col)
}

pub fn decode(s: &str) -> String {
    // &amp; last, so that nothing is decoded twice.
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&#34;", "\"")
        .replace("&#39;", "'").replace("&apos;", "'").replace("&#x27;", "'").replace("&#60;", "<")
        .replace("&#62;", ">").replace("&#38;", "&").replace("&amp;", "&")
}

pub fn encode(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}
