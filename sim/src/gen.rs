//! Generators: documents and transform programs, drawn from the choice tape.

use crate::dict;
use crate::model::{self, Node, Tag};
use crate::prog::*;
use crate::tape::Tape;
use html5_fuser::template::InputError;
use html5_fuser::{ParseOptions, Template};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashSet};
use std::rc::Rc;

thread_local! { static INTERNED: RefCell<HashSet<&'static str>> = RefCell::new(HashSet::new()); }

pub fn intern(s: &str) -> &'static str {
    INTERNED.with(|i| {
        let mut i = i.borrow_mut();
        if let Some(x) = i.get(s) { return *x; }
        let x: &'static str = Box::leak(s.to_string().into_boxed_str());
        i.insert(x);
        x
    })
}

// ---------------------------------------------------------------------------------------------
// Documents

const TAGS: [&str; 12] = ["b", "a", "p", "li", "B", "div", "A", "ul", "Li", "x-y", "h1", "em"];
const VOIDS: [&str; 6] = ["br", "img", "input", "BR", "link", "hr"];
const RAWS: [&str; 5] = ["title", "script", "style", "textarea", "Script"];
const ATTRS: [&str; 9] = ["href", "data-x", "title", "HREF", "class", "id", "CLASS", "Id", "rel"];
const IDS: [&str; 5] = ["x", "y", "X", "main", "k1"];
const CLASSES: [&str; 6] = ["c1", "c2", "C1", "foo", "bar-baz", "Foo"];
const CLASS_VALUES: [&str; 18] = ["c1", "c1 c2", "c2 c1 foo", "C1", " c1", "c1  c2 ", "c2\tc1", "c1\nfoo", "", "c1 c1", "xc1", "c1x c-1", "FOO bar-baz", " ",
    "c1\u{2003}c2", "foo\u{a0}c1\u{b}c2", "\u{3000}c2\u{c}c1\u{85}", "c1\u{200b}c2 foo"];
const TEXTS: [&str; 30] = [
    "t", "hello", " ", "\n", "a b", "x > y", "&amp;", "&lt;b&gt;", "\u{e9}", "\u{20ac}uro", "\u{1F600}", "\"q\"", "it's",
    "&", "&bogus", "a\u{300}", "  lead", "trail  ", "1;2", "\u{2003}", "]]>", "--",
    "\r", "\u{c}", "\u{85}", "\u{2028}", "\0", "\u{feff}", "\u{fffd}", "a\r\nb",
];
const VALUES: [&str; 22] = [
    "v", "", "a b", "x>y", "<b>", "'", "\u{e9}\u{20ac}", "&amp;", "&quot;", "a=b/c", "\n", " lead", "trail ", "\u{1F600}", "</a>", "<!--",
    "\r\n", "\u{a0}", "\0", "\t", "\u{feff}", "/>",
];

#[derive(Clone)]
pub struct DocCfg { pub size: usize, pub depth: usize, pub raw: bool, pub doctype: bool }

impl Default for DocCfg { fn default() -> DocCfg { DocCfg { size: 14, depth: 5, raw: true, doctype: true } } }

// Further names, taken up by some runs.
const WIDE_TAGS: [&str; 40] = [
    "html", "head", "body", "span", "section", "article", "header", "footer", "nav", "main", "table", "thead", "tbody", "tr", "td",
    "th", "form", "label", "select", "option", "button", "pre", "code", "svg", "path", "template", "slot", "iframe", "noscript",
    "object", "h2", "HTML", "Body", "SPAN", "my-custom-element", "My-Custom-Element", "x-long-custom-element-name", "X-LONG-CUSTOM-ELEMENT-NAME",
    "ns:tag", "a1",
];
const WIDE_VOIDS: [&str; 14] = ["area", "base", "col", "embed", "keygen", "menuitem", "meta", "param", "source", "track", "wbr", "META", "Wbr", "Source"];
const WIDE_RAWS: [&str; 6] = ["SCRIPT", "STYLE", "Title", "TextArea", "TEXTAREA", "Style"];
const WIDE_ATTRS: [&str; 48] = [
    "xmlns", "src", "alt", "style", "name", "type", "value", "width", "height", "disabled", "checked", "selected", "hidden", "lang",
    "dir", "role", "aria-label", "aria-hidden", "onclick", "onload", "tabindex", "target", "action", "method", "for", "placeholder",
    "srcset", "content", "charset", "http-equiv", "media", "async", "defer", "data-id", "data-a-rather-long-attribute-name",
    "Data-A-Rather-Long-Attribute-Name", "xml:lang", "xlink:href", "v-on:click.prevent", "@click", "[prop]", "(event)", "*ngIf", "_x", "x1", "ONCLICK", "Style", "clas",
];
const WIDE_CLASSES: [&str; 18] = [
    "btn", "btn-primary", "Btn-Primary", "nav-item", "active", "Active", "is-hidden", "col-md-6", "a", "B", "b", "class", "c", "c12",
    "a-rather-long-class-name-here", "A-Rather-Long-Class-Name-Here", "block__element--modifier", "_c",
];
const WIDE_IDS: [&str; 10] = ["page-title", "Page-Title", "id", "content", "1", "id1", "id12", "a-rather-long-element-id-here", "A-Rather-Long-Element-Id-Here", "_"];

/// The names a run works with.
pub struct Vocab { tags: Vec<&'static str>, voids: Vec<&'static str>, raws: Vec<&'static str>, attrs: Vec<&'static str>, ids: Vec<&'static str>, classes: Vec<&'static str>, special: bool, laid_out: bool }

impl Default for Vocab {
    fn default() -> Vocab {
        Vocab { tags: TAGS.to_vec(), voids: VOIDS.to_vec(), raws: RAWS.to_vec(), attrs: ATTRS.to_vec(), ids: IDS.to_vec(), classes: CLASSES.to_vec(), special: false, laid_out: false }
    }
}

thread_local! { static VOCAB: RefCell<Rc<Vocab>> = RefCell::new(Rc::new(Vocab::default())); }

fn vocab() -> Rc<Vocab> { VOCAB.with(|v| v.borrow().clone()) }

fn plain_name(s: &str) -> bool {
    s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && s.chars().all(|c| c.is_ascii_alphanumeric() || "-_:".contains(c)) && s.len() <= 200
}

/// A size: around a literal of the code, or around a round one.
pub fn size(t: &mut Tape, cap: usize) -> usize {
    const ROUND: [usize; 17] = [1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 24, 32, 50, 64, 100, 128];
    const LARGE: [usize; 10] = [200, 255, 256, 512, 1000, 1024, 4096, 8192, 16_384, 65_536];
    let d: Vec<usize> = dict::get().numbers.iter().map(|n| *n as usize).filter(|n| *n <= cap).collect();
    let n = match t.weighted(&[6, 1, if d.is_empty() { 0 } else { 6 }]) {
        0 => *t.pick(&ROUND),
        1 => *t.pick(&LARGE),
        _ => *t.pick(&d),
    };
    (match t.usize(3) { 0 => n, 1 => n + 1, _ => n.saturating_sub(1) }).min(cap)
}

/// The same name, written otherwise.
fn recase(t: &mut Tape, s: &str) -> String {
    match t.usize(4) {
        0 => s.to_ascii_uppercase(),
        1 => s.to_ascii_lowercase(),
        2 => s.char_indices().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
        _ => { let mut s = s.to_string(); if let Some(x) = s.get_mut(..1) { x.make_ascii_uppercase() } s }
    }
}

/// A name that is almost the given one.
fn near(t: &mut Tape, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    if c.is_empty() { return s.to_string() }
    let at = t.usize(c.len());
    match t.weighted(&[6, 1, 1, 1, 1, 1]) {
        0 => {
            // One bit of one character, where that leads to another kind of character.
            let odd: Vec<usize> = (0..c.len()).filter(|i| !c[*i].is_ascii_alphabetic()).collect();
            let at = if odd.is_empty() { at } else { *t.pick(&odd) };
            let bit = if t.chance(2, 3) { 0x20 } else { 1 << t.usize(7) };
            if c[at].is_ascii() { c[at] = ((c[at] as u8) ^ bit) as char }
        }
        1 => { c.pop(); }
        2 => { let x = c[at]; c.insert(at, x) }
        3 => if at > 0 { c.swap(at - 1, at) },
        4 => { c.remove(0); }
        _ => c.push(*t.pick(&['_', '-', ':', '0'])),
    }
    c.into_iter().collect()
}

/// Whether a name with unusual characters is one of those `odd_name` makes.
fn odd_near(s: &str, marks: &str) -> bool {
    !s.is_empty() && !plain_name(s) && s.chars().all(|c| c.is_ascii_alphanumeric() || "-_:".contains(c) || marks.contains(c))
}

/// Names of a kind: some usual ones, some less so, literals of the code, and long ones.
fn names(t: &mut Tape, usual: &[&'static str], wide: &[&'static str], marks: &str, ok: &dyn Fn(&str) -> bool) -> Vec<&'static str> {
    let mut out: Vec<&'static str> = Vec::new();
    let words: Vec<&String> = dict::get().words.iter().filter(|w| ok(w)).collect();
    for _ in 0..t.range(2, 7) {
        if !marks.is_empty() && t.chance(1, 10) { out.push(intern(&odd_name(t, marks))); continue }
        let n: String = match t.weighted(&[3, 4, if words.is_empty() { 0 } else { 4 }, 2, 3]) {
            0 => t.pick(usual).to_string(),
            1 => t.pick(wide).to_string(),
            2 => {
                let w = t.pick(&words).to_string();
                match t.weighted(&[4, 2, 1]) { 0 => w, 1 => { let n = t.range(1, 3); format!("{}{}", w, &"abc"[..n]) } _ => format!("x{}", w) }
            }
            3 => {
                // Long, and alike up to the end.
                let n = size(t, 150).max(2);
                let mut s: String = "abcdefghij-klmnop".chars().cycle().take(n - 1).collect();
                s.push(*t.pick(&['x', 'y', 'X']));
                s
            }
            _ => match out.last() {
                Some(l) if t.chance(2, 3) => recase(t, l),
                Some(l) => {
                    // Nearly the last one.
                    let n = near(t, l);
                    if !ok(&n) && !marks.is_empty() && odd_near(&n, marks) { out.push(intern(&n)); continue }
                    n
                }
                None => t.pick(usual).to_string(),
            },
        };
        if ok(&n) { out.push(intern(&n)) }
    }
    out.push(usual[0]);
    out
}

/// Chooses the names of this run. Must come first in every run.
pub fn vocabulary(t: &mut Tape) {
    let v = if t.chance(1, 4) {
        let attr_ok = |s: &str| WIDE_ATTRS.contains(&s) || plain_name(s);
        let tag_ok = |s: &str| plain_name(s) && !model::is_void(s) && model::raw_tag(s).is_none();
        let mut v = Vocab { special: true, ..Vocab::default() };
        if t.chance(2, 3) { v.tags = names(t, &TAGS, &WIDE_TAGS, "$%()*+-:?@[\\]^_`{|}~\u{1}\u{1f}\u{7f}", &tag_ok) }
        if t.chance(1, 2) { v.voids = names(t, &VOIDS, &WIDE_VOIDS, "", &|s| model::is_void(s) || s == "hr") ; v.voids.retain(|s| model::is_void(s) || *s == "hr") }
        if t.chance(1, 3) { v.raws = names(t, &RAWS, &WIDE_RAWS, "", &|s| model::raw_tag(s).is_some()) }
        if t.chance(2, 3) { v.attrs = names(t, &ATTRS, &WIDE_ATTRS, "!#$%()*+-.:?@[\\]^_`{|}~\0\u{1c}\u{7f}", &attr_ok); if t.chance(2, 3) { v.attrs.extend(["class", "id"]) } }
        if t.chance(1, 2) { v.ids = names(t, &IDS, &WIDE_IDS, "!#$%()*+-:?@[\\]^_`{|}~\u{8}", &plain_name) }
        if t.chance(1, 2) { v.classes = names(t, &CLASSES, &WIDE_CLASSES, "!#$%()*+-:?@[\\]^_`{|}~\u{e}", &plain_name) }
        v
    } else { Vocab::default() };
    let mut v = v;
    v.laid_out = t.chance(1, 10);
    VOCAB.with(|x| *x.borrow_mut() = Rc::new(v));
}

fn tag_name(t: &mut Tape) -> String {
    let v = vocab();
    if v.special { return t.pick(&v.tags).to_string() }
    let n = [2, 4, 6, TAGS.len()][t.weighted(&[5, 4, 3, 1])];
    t.pick(&TAGS[..n]).to_string()
}
fn void_name(t: &mut Tape) -> String { t.pick(&vocab().voids).to_string() }
fn raw_name(t: &mut Tape) -> String { t.pick(&vocab().raws).to_string() }
fn id_name(t: &mut Tape) -> String { t.pick(&vocab().ids).to_string() }
fn class_name(t: &mut Tape) -> String { t.pick(&vocab().classes).to_string() }

/// Any character.
fn odd_char(t: &mut Tape) -> char {
    const ODD: [char; 34] = [
        '\0', '\u{1}', '\u{7}', '\u{8}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{1b}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ad}',
        '\u{131}', '\u{2bc}', '\u{300}', '\u{37e}', '\u{1680}', '\u{200b}', '\u{200d}', '\u{202e}', '\u{2028}', '\u{2029}', '\u{212a}',
        '\u{3000}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{ff1c}', '\u{fffd}', '\u{ffff}', '\u{10ffff}',
    ];
    match t.weighted(&[4, 4, 2, 1, 1]) {
        0 => t.usize(128) as u8 as char,
        1 => *t.pick(&ODD),
        2 => char::from_u32(0x80 + t.usize(0x780) as u32).unwrap(),
        3 => char::from_u32(0x800 + t.usize(0xcfff) as u32).unwrap(),
        _ => char::from_u32(0x10000 + t.usize(0x10_0000) as u32).unwrap(),
    }
}

fn odd(t: &mut Tape) -> String { (0..t.range(1, 6)).map(|_| odd_char(t)).collect() }

/// An unusual name: whatever is allowed besides letters and digits.
fn odd_name(t: &mut Tape, marks: &str) -> String {
    let marks: Vec<char> = marks.chars().collect();
    (0..t.range(1, 4)).map(|_| if t.chance(1, 3) { *t.pick(&['a', 'B', 'z', '1']) } else { *t.pick(&marks) }).collect()
}

/// A literal of the code as text.
fn word(t: &mut Tape) -> Option<&'static str> {
    let d = dict::get();
    if d.words.is_empty() { return None }
    Some(&d.words[t.usize(d.words.len())][..])
}

fn attr_value(t: &mut Tape, name: &str) -> Option<String> {
    if t.chance(1, 8) { return None; }
    Some(if model::ident_eq(name, "class") && !t.chance(1, 12) {
        let v = vocab();
        if v.special && !t.chance(1, 3) || t.chance(1, 12) {
            // A list of this run's classes.
            let n = if t.chance(1, 8) { size(t, 60) } else { t.range(0, 5) };
            let mut s = String::new();
            for i in 0..n {
                if i > 0 || t.chance(1, 10) { s.push_str(*t.pick(&[" ", " ", " ", " ", "  ", "\n", "\t", "\r\n", "\u{2003}", "\u{a0}", "\u{b}", "\u{c}"])) }
                s.push_str(&class_name(t));
            }
            if t.chance(1, 10) { s.push(' ') }
            s
        } else { t.pick(&CLASS_VALUES).to_string() }
    }
    else if model::ident_eq(name, "id") && !t.chance(1, 10) {
        let n = id_name(t);
        if !t.chance(1, 10) { return Some(n); }
        // Nearly the id, and therefore another.
        let blank = *t.pick(&[" ", "\n", "\t", "\r\n", "\u{a0}"]);
        match t.usize(5) {
            0 => format!("{}{}", blank, n), 1 => format!("{}{}", n, blank), 2 => format!("{0}{1}{0}", blank, n),
            3 => format!("{}{}{}", n, blank, id_name(t)), _ => format!("#{}", n),
        }
    }
    else {
        let mut s = String::new();
        for _ in 0..t.range(1, 3) { s.push_str(t.pick(&VALUES)); }
        if t.chance(1, 25) { s.extend(word(t)) }
        if t.chance(1, 20) { s.push_str(&odd(t)) }
        if t.chance(1, 60) { let n = size(t, 70_000); s = "v\u{e9}lue ".chars().cycle().take(n).collect(); }
        if t.chance(1, 300) { s.push_str(&"long value ".repeat(t.range(100, 9000))); }
        s.replace('"', "'")
    })
}

fn attrs(t: &mut Tape) -> Vec<(String, Option<String>)> {
    let mut n = [0, 1, 2, 5][t.weighted(&[5, 4, 3, 1])];
    let mut numbered = false;
    if t.chance(1, 100) {
        numbered = t.chance(1, 4);
        n = size(t, if numbered { 1100 } else { 70 });
    }
    let v = vocab();
    if numbered {
        // A great many of them, short.
        return (0..n).map(|i| (format!("{}{}", v.attrs[i % v.attrs.len()], i), if i % 3 == 0 { None } else { Some(i.to_string()) })).collect();
    }
    (0..n).map(|_| {
        let name = t.pick(&v.attrs).to_string();
        let value = attr_value(t, &name);
        (name, value)
    }).collect()
}

/// What stands between the elements of most documents.
fn blank(t: &mut Tape) -> String { t.pick(&["\n", " ", "\n  ", "\n\n", "\t", "\r\n    ", "\n\t\t", "  "]).to_string() }

pub fn text(t: &mut Tape) -> String {
    let mut s = String::new();
    if t.chance(1, 8) { return blank(t) }
    for _ in 0..t.range(1, 3) { s.push_str(t.pick(&TEXTS)); }
    if t.chance(1, 30) { if let Some(w) = word(t) { s.push_str(&w.replace('<', "")) } }
    if t.chance(1, 20) { s.push_str(&odd(t).replace('<', "")) }
    if t.chance(1, 60) { let n = size(t, 70_000); s = "text \u{e9} ".chars().cycle().take(n).collect(); }
    if t.chance(1, 400) { s.push_str(&"long \u{e9} text ".repeat(t.range(50, 7000))); }
    s
}

fn raw_text(t: &mut Tape, tag: &str) -> String {
    let mut s = String::new();
    if t.chance(1, 20) { s.extend(word(t)) }
    if t.chance(1, 20) { s.push_str(&odd(t)) }
    if t.chance(1, 60) { let n = size(t, 70_000); s = "raw \u{e9} text; ".chars().cycle().take(n).collect(); }
    if t.chance(1, 60) { let n = size(t, 9_000); s = "raw<\u{e9}>".chars().cycle().take(n).collect(); }
    for _ in 0..t.range(0, 3) {
        s.push_str(*t.pick(&["x", "if (a < b)", "<b>", "</b>", "<!-- c", "&amp;", "\"", "\u{20ac}", "</", "<", "</scr", "\n", "< /b >", "<!doctype html>"]));
    }
    // Nothing in it may close the element early.
    let probe = format!("<{}>{}</{}>", tag, s, tag);
    match model::parse(&probe, None) {
        Ok(ref n) if matches!(n[..], [Node::Elem { ref children, .. }] if children.is_empty() || children == &[Node::Raw(s.clone())]) => s,
        _ => "r".into(),
    }
}

fn comment(t: &mut Tape) -> String {
    if t.chance(1, 20) {
        let s = match word(t) { Some(w) if t.chance(1, 2) => w.to_string(), _ => { let most = if t.chance(1, 3) { 70_000 } else { 9_000 }; let n = size(t, most); "comment \u{e9} - ".chars().cycle().take(n).collect() } };
        return s.replace("-->", "");
    }
    if t.chance(1, 20) { return odd(t).replace('>', " ") }
    t.pick(&["", "c", " c ", "-", "<b>", "a--b", "\u{e9}", "</b>", "!", "\n", ">"]).to_string()
}

fn node(t: &mut Tape, cfg: &DocCfg, depth: usize, left: &mut usize, out: &mut Vec<Node>) {
    *left = left.saturating_sub(1);
    if vocab().laid_out && t.chance(3, 4) { let s = blank(t); out.push(Node::Text(s)) }
    let kind = t.weighted(&[6, 10, 3, 3, 2, if cfg.raw { 1 } else { 0 }, if cfg.doctype && depth == 0 { 1 } else { 0 }]);
    match kind {
        0 => { let s = text(t); out.push(Node::Text(s)) }
        1 => {
            let name = tag_name(t);
            let attrs = attrs(t);
            let close = if t.chance(1, 8) { if name.chars().all(|c| c.is_lowercase()) { name.to_uppercase() } else { name.to_lowercase() } } else { name.clone() };
            let mut children = Vec::new();
            if depth < cfg.depth {
                let n = t.range(0, 4);
                for _ in 0..n { if *left == 0 { break; } node(t, cfg, depth + 1, left, &mut children); }
            }
            out.push(Node::Elem { tag: Tag { name, attrs }, children, close });
        }
        2 => {
            let name = if cfg.raw && t.chance(1, 12) { raw_name(t) } else { tag_name(t) };
            let attrs = attrs(t);
            out.push(Node::SelfClosed(Tag { name, attrs }));
        }
        3 => {
            let name = void_name(t);
            let attrs = attrs(t);
            out.push(Node::Void(Tag { name, attrs }));
        }
        4 => { let c = comment(t); out.push(Node::Comment(c)) }
        5 => {
            let name = raw_name(t);
            let attrs = attrs(t);
            let r = raw_text(t, &name);
            out.push(Node::Elem { tag: Tag { name: name.clone(), attrs }, children: vec![Node::Raw(r)], close: name });
        }
        _ => { let d = t.pick(&["html", "HTML"]).to_string(); out.push(Node::Doctype(d)) }
    }
}

pub fn nodes(t: &mut Tape, cfg: &DocCfg) -> Vec<Node> {
    let mut left = t.range(1, cfg.size.max(1));
    let mut out = Vec::new();
    while left > 0 { node(t, cfg, 0, &mut left, &mut out); }
    if t.chance(1, 60) {
        // A chain or a row of a chosen size.
        let cap = if t.chance(1, 10) { 300 } else { 70 };
        let n = size(t, cap);
        let name = tag_name(t);
        let mut inner = Vec::new();
        let mut left = 3;
        while left > 0 { node(t, cfg, cfg.depth, &mut left, &mut inner); }
        let at = t.usize(out.len() + 1);
        if t.chance(1, 2) { let c = chain(&name, n, inner); out.splice(at..at, c); }
        else { let r: Vec<Node> = (0..n).flat_map(|_| inner.clone()).collect(); out.splice(at..at, r); }
    }
    out
}

/// A chain of `n` nested elements around `inner`.
pub fn chain(name: &str, n: usize, inner: Vec<Node>) -> Vec<Node> {
    let mut c = inner;
    for _ in 0..n {
        c = vec![Node::Elem { tag: Tag { name: name.into(), attrs: vec![] }, children: c, close: name.into() }];
    }
    c
}

/// Source text for a tree, with the liberties the syntax leaves.
pub fn source(t: &mut Tape, nodes: &[Node], noisy: bool) -> String {
    let mut out = String::new();
    src_into(t, nodes, noisy, &mut out);
    out
}

fn ws(t: &mut Tape, noisy: bool, least: bool, out: &mut String) {
    if noisy && t.chance(1, 4) {
        out.push_str(*t.pick(&[" ", "  ", "\n", "\t", "\r\n", "\n  ", "\r", " \u{c}", " \u{2003}", "\t\u{85}"]));
        // (Also whole screens of it.)
        if t.chance(1, 400) { let n = size(t, 70_000); out.extend(" \n\u{a0}\t".chars().cycle().take(n)); }
    } else if least { out.push(' ') }
}

fn src_tag(t: &mut Tape, tag: &Tag, noisy: bool, out: &mut String) {
    out.push('<');
    if noisy && t.chance(1, 12) { ws(t, true, true, out) }
    out.push_str(&tag.name);
    for (n, v) in &tag.attrs {
        ws(t, noisy, true, out);
        out.push_str(n);
        if let Some(v) = v {
            if noisy && t.chance(1, 8) { ws(t, true, true, out) }
            out.push('=');
            if noisy && t.chance(1, 8) { ws(t, true, true, out) }
            out.push('"');
            out.push_str(v);
            out.push('"');
        }
    }
}

fn src_into(t: &mut Tape, nodes: &[Node], noisy: bool, out: &mut String) {
    for n in nodes {
        match n {
            Node::Doctype(c) => {
                out.push_str("<!");
                if noisy && t.chance(1, 6) { ws(t, true, true, out) }
                out.push_str(if noisy && t.chance(1, 3) { "DOCTYPE" } else { "doctype" });
                ws(t, noisy, true, out);
                out.push_str(c);
                ws(t, noisy, false, out);
                out.push('>')
            }
            Node::Comment(c) => { out.push_str("<!--"); out.push_str(c); out.push_str("-->") }
            Node::Text(c) | Node::Raw(c) => out.push_str(c),
            Node::Void(tag) => {
                src_tag(t, tag, noisy, out);
                if noisy && t.chance(1, 4) { out.push_str(" /") }
                ws(t, noisy, false, out);
                out.push('>')
            }
            Node::SelfClosed(tag) => { src_tag(t, tag, noisy, out); ws(t, noisy, false, out); out.push_str("/>") }
            Node::Elem { tag, children, close } => {
                src_tag(t, tag, noisy, out);
                ws(t, noisy, false, out);
                out.push('>');
                src_into(t, children, noisy, out);
                out.push('<');
                if noisy && t.chance(1, 16) { out.push(' ') }
                out.push('/');
                if noisy && t.chance(1, 16) { out.push('\n') }
                out.push_str(close);
                ws(t, noisy, false, out);
                out.push('>')
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Programs

pub const NKINDS: usize = 24;
pub const FIRST_EL: usize = 14;

#[derive(Clone)]
pub struct Prof {
    /// select remove prepend append replace repeat repeat_or_else apply if if_else option result
    /// boxed template | boxed_el subcontents subselect c.remove c.prepend c.append c.replace
    /// c.repeat c.repeat_or_else attr
    pub w: [u32; NKINDS],
    /// Bad names, selectors and error contents, per mille.
    pub bad: u32,
    /// Weight of user streams among contents.
    pub user: u32,
    /// Weight of templates loaded on the spot among contents.
    pub load: u32,
    pub stall: u32,
    /// Chance (percent) of an injected fault in a step.
    pub fault: u32,
    /// Share (percent) of panics among the faults.
    pub panic: u32,
    pub trunc: u32,
    pub clients: usize,
    pub steps: usize,
    pub depth: usize,
    pub width: usize,
    pub shared: bool,
    pub size: usize,
    pub nasty: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SiteKind { Body, Iter, Selector, Tpl, User(usize), Load }

pub struct Gen<'p> {
    pub p: &'p Prof,
    pub sites: Vec<(Site, SiteKind)>,
    pub statics: BTreeSet<&'static str>,
    pub names: BTreeSet<&'static str>,
    pub nfrags: usize,
    pub frag_len: Vec<usize>,
    pub ndocs: usize,
    pub nvalues: usize,
    pub ndatas: usize,
    pub queue: Option<i64>,
    pub ops: usize,
    /// Elements there are: tag, ids, classes.
    pub elements: Vec<(String, Vec<String>, Vec<String>)>,
    /// Loads in transforms may fail.
    pub faulty: bool,
    err: u32,
}

pub const NASTY: [&str; 26] = [
    "<b>", "</b>", "&amp;", "&", "\"", "<!--", "-->", "a\"b<c>&d", "&lt;", "'", "<script>", "\u{20ac}<\u{1F600}", "&&", "\" x=\"y",
    "&#65;", "&#x41;", "&quot;", "&gt;", "&nbsp;", "&copy", "&amp;amp;", "&#39;", "<![CDATA[", "]]>", "<?php ?>", "<!doctype html>",
];
const PLAIN: [&str; 10] = ["n", "new", "", "x y", "\u{e9}", "42", " s ", "\n", "a;b", "plain \u{1F600}"];

pub fn payload(t: &mut Tape, nasty: bool) -> String {
    if t.chance(1, 80) { let n = size(t, 5000); return "ab<\u{e9}&\">".chars().cycle().take(n).collect() }
    if t.chance(1, 60) {
        // Plain for long, special at the end.
        let n = size(t, 70_000);
        let mut s: String = (*t.pick(&["plain ", "x", "\u{e9}t\u{e9} "])).chars().cycle().take(n).collect();
        s.push_str(t.pick(&NASTY));
        if t.chance(1, 2) { s.push_str(t.pick(&PLAIN)) }
        return s;
    }
    let n = t.range(1, 3);
    let mut s = String::new();
    for _ in 0..n {
        if t.chance(1, 30) { s.extend(word(t)) }
        else if t.chance(1, 12) { s.push_str(&odd(t)) }
        else if t.chance(if nasty { 3 } else { 1 }, 5) { s.push_str(t.pick(&NASTY)) } else { s.push_str(t.pick(&PLAIN)) }
    }
    s
}

impl<'p> Gen<'p> {
    pub fn new(p: &'p Prof) -> Gen<'p> {
        Gen {
            p, sites: vec![], statics: BTreeSet::new(), names: BTreeSet::new(), nfrags: 0, frag_len: vec![],
            ndocs: 0, nvalues: 0, ndatas: 0, queue: None, ops: 0, elements: vec![], faulty: false, err: 0,
        }
    }

    fn site(&mut self, kind: SiteKind) -> Site {
        let s = self.sites.len() as u32 + 1;
        self.sites.push((s, kind));
        s
    }

    /// Remembers the elements of a document, to select them and those like them.
    pub fn know(&mut self, nodes: &[Node]) {
        let mut todo: Vec<&Node> = nodes.iter().rev().collect();
        while let Some(n) = todo.pop() {
            if self.elements.len() >= 48 { return }
            let tag = match n {
                Node::Void(t) | Node::SelfClosed(t) => t,
                Node::Elem { tag, children, .. } => { todo.extend(children.iter().rev()); tag }
                _ => continue,
            };
            let of = |name: &str| -> Vec<String> {
                tag.attrs.iter().filter(|a| model::ident_eq(&a.0, name)).filter_map(|a| a.1.as_ref())
                    .flat_map(|v| v.split_whitespace()).filter(|v| plain_name(v)).take(40).map(String::from).collect()
            };
            if plain_name(&tag.name) { self.elements.push((tag.name.clone(), of("id"), of("class"))) }
        }
    }

    /// The parts of a selector for an element there is, or for one nearly like it.
    fn target(&self, t: &mut Tape) -> (Option<String>, Option<String>, Vec<String>) {
        let (tag, ids, classes) = t.pick(&self.elements).clone();
        let mut tag = if t.chance(1, 2) { Some(tag) } else { None };
        let mut id = if !ids.is_empty() && t.chance(1, 2) { Some(t.pick(&ids).clone()) } else { None };
        let mut cs: Vec<String> = Vec::new();
        if !classes.is_empty() && t.chance(2, 3) { for _ in 0..t.range(1, 4) { cs.push(t.pick(&classes).clone()) } }
        if tag.is_none() && id.is_none() && cs.is_empty() { tag = Some(tag_name(t)) }
        let spell = |t: &mut Tape, s: &mut String| if t.chance(1, 4) { *s = recase(t, s) };
        if let Some(ref mut s) = tag { spell(t, s) }
        if let Some(ref mut s) = id { spell(t, s) }
        for s in &mut cs { spell(t, s) }
        // One of them does not match after all.
        match t.weighted(&[8, 1, 1, 3]) {
            1 => tag = Some(tag_name(t)),
            2 => id = Some(id_name(t)),
            3 => {
                let other = if cs.is_empty() || t.chance(1, 2) { class_name(t) } else { let s = t.pick(&cs).clone(); near(t, &s) };
                if plain_name(&other) { let at = t.range(0, cs.len()); cs.insert(at, other) }
            }
            _ => (),
        }
        (tag, id, cs)
    }

    fn bad(&self, t: &mut Tape) -> bool { self.p.bad > 0 && t.chance(self.p.bad, 1000) }

    pub fn sel(&mut self, t: &mut Tape) -> Sel {
        let site = self.site(SiteKind::Selector);
        let mut s = Sel { site, via: SelVia::Static, tag: None, id: None, classes: vec![], bad: None, lit: "" };
        if self.bad(t) {
            let (via, lits): (_, &[&'static str]) = match t.weighted(&[3, 1, 1, 1, 1]) {
                0 => (SelVia::Static, &["", "a b", "#", ".", "a#x.", "\u{e9}", "a#x y", "b.c1..c2", "<"]),
                1 => (SelVia::Tag, &["", "a b", "<", "\u{e9}"]),
                2 => (SelVia::Id, &["", "a b", "&"]),
                3 => (SelVia::Class, &["", "c 1", ";"]),
                _ => (SelVia::Classes, &["", "c1 <", "  "]),
            };
            let mut lit = *t.pick(lits);
            if t.chance(2, 3) {
                let l = bad_selector(t, via);
                if selector_error(via, &l).is_some() { lit = intern(&l); }
            }
            s.via = via;
            s.bad = Some((lit, intern(&selector_error(via, lit).expect("invalid selector"))));
            s.lit = lit;
            return s;
        }
        s.via = [SelVia::Static, SelVia::SharedStatic, SelVia::Tag, SelVia::Id, SelVia::Class, SelVia::Classes, SelVia::Custom][t.weighted(&[8, 3, 2, 1, 2, 1, 1])];
        let tagpick = |t: &mut Tape| -> String {
            match t.weighted(&[12, 3, 1, 1]) {
                0 => tag_name(t),
                1 => void_name(t),
                2 => raw_name(t),
                _ => "nomatch".to_string(),
            }
        };
        match s.via {
            SelVia::Static | SelVia::SharedStatic if !self.elements.is_empty() && t.chance(1, 3) => {
                let (tag, id, classes) = self.target(t);
                let mut lit = String::new();
                if let Some(ref x) = tag { lit.push_str(x) }
                if let Some(ref x) = id { lit.push('#'); lit.push_str(x) }
                for c in &classes { lit.push('.'); lit.push_str(c) }
                s.tag = tag;
                s.id = id;
                s.classes = classes;
                s.lit = intern(&lit);
                if s.via == SelVia::SharedStatic { self.statics.insert(s.lit); }
            }
            SelVia::Static | SelVia::SharedStatic => {
                let form = t.weighted(&[10, 4, 4, 2, 2, 1, 1]);
                let mut lit = String::new();
                if form == 0 || form == 3 || form == 4 || form == 6 { s.tag = Some(tagpick(t)); lit.push_str(s.tag.as_ref().unwrap()); }
                if form == 1 || form == 4 || form == 5 || form == 6 { s.id = Some(id_name(t)); lit.push('#'); lit.push_str(s.id.as_ref().unwrap()); }
                if form == 2 || form == 3 || form == 5 || form == 6 {
                    let n = match t.weighted(&[8, 5, 2, 1]) { 0 => 1, 1 => 2, 2 => 3, _ => if t.chance(1, 4) { size(t, 20).max(1) } else { 4 } };
                    for _ in 0..n { let c = class_name(t); lit.push('.'); lit.push_str(&c); s.classes.push(c); }
                }
                s.lit = intern(&lit);
                if s.via == SelVia::SharedStatic { self.statics.insert(s.lit); }
            }
            SelVia::Tag | SelVia::Custom => { let n = tagpick(t); s.lit = intern(&n); s.tag = Some(n); }
            SelVia::Id => { let n = id_name(t); s.lit = intern(&n); s.id = Some(n); }
            SelVia::Class => { let n = class_name(t); s.lit = intern(&n); s.classes.push(n); }
            SelVia::Classes => {
                let n = if t.chance(1, 10) { size(t, 20).max(1) } else { t.range(1, 3) };
                for _ in 0..n { s.classes.push(class_name(t)); }
                s.lit = intern(&s.classes.join(" "));
            }
        }
        s
    }

    pub fn name(&mut self, t: &mut Tape, pool: &[&'static str], names: fn(&Vocab) -> &Vec<&'static str>) -> Name {
        if self.bad(t) {
            let text = *t.pick(&["", "a b", "a=b", "\u{e9}", "a>", "x\"", "/", "a&b", "a,b", "a;"]);
            let via = match t.usize(3) { 0 => NameVia::Static, 1 => NameVia::Result, _ => NameVia::Owned };
            return Name { text, via, bad: true };
        }
        let v = vocab();
        let from: &[&'static str] = if v.special && t.chance(3, 4) { names(&v) } else { pool };
        let text = *t.pick(from);
        let via = match t.weighted(&[4, 2, 2, 1]) { 0 => NameVia::Static, 1 => NameVia::Owned, 2 => NameVia::Ref, _ => NameVia::Result };
        if let NameVia::Ref = via { self.names.insert(text); }
        Name { text, via, bad: false }
    }

    fn val(&mut self, t: &mut Tape) -> Val {
        match t.weighted(&[4, 3, 3, 2, 2, 1, 1]) {
            0 => Val::Static(intern(&payload(t, self.p.nasty))),
            1 => Val::Owned(payload(t, self.p.nasty)),
            2 if self.nvalues > 0 => Val::Shared(t.usize(self.nvalues)),
            3 if self.nvalues > 0 => Val::SharedRef(t.usize(self.nvalues)),
            5 => Val::K,
            6 => Val::Item,
            _ => Val::Int(t.usize(10) as u8, int(t)),
        }
    }

    fn attr(&mut self, t: &mut Tape) -> AttrOp {
        const NAMES: [&str; 10] = ["href", "class", "id", "HREF", "data-x", "Class", "title", "new-a", "ID", "rel"];
        const CL: [&str; 7] = ["c1", "c2", "C1", "foo", "n1", "Foo", "bar-baz"];
        match t.weighted(&[3, 2, 1, 4, 3, 3, 2, 1, 3, 3, 4, 2, 2]) {
            0 => AttrOp::AddWith(self.name(t, &NAMES, |v| &v.attrs), self.val(t)),
            1 => AttrOp::Add(self.name(t, &NAMES, |v| &v.attrs), if t.chance(1, 2) { Some(self.val(t)) } else { None }),
            2 => AttrOp::AddEmpty(self.name(t, &NAMES, |v| &v.attrs)),
            3 => {
                let n = self.name(t, &NAMES, |v| &v.attrs);
                let v = self.val(t);
                let sep = match t.weighted(&[3, 2, 1]) { 0 => Val::Static(intern(*t.pick(&[" ", ",", "", "&", ";  "]))), 1 => Val::Owned(t.pick(&["-", " ", "\"", ""]).to_string()), _ => self.val(t) };
                AttrOp::AddTo(n, v, sep)
            }
            4 => AttrOp::Replace(self.name(t, &NAMES, |v| &v.attrs), self.val(t)),
            5 => AttrOp::SetWith(self.name(t, &NAMES, |v| &v.attrs), self.val(t)),
            6 => AttrOp::Set(self.name(t, &NAMES, |v| &v.attrs), if t.chance(1, 2) { Some(self.val(t)) } else { None }),
            7 => AttrOp::SetEmpty(self.name(t, &NAMES, |v| &v.attrs)),
            8 => AttrOp::Remove(self.name(t, &NAMES, |v| &v.attrs)),
            9 => AttrOp::AddClass(self.name(t, &CL, |v| &v.classes)),
            10 => AttrOp::RemoveClass(self.name(t, &CL, |v| &v.classes)),
            11 => AttrOp::RemoveId,
            _ => AttrOp::SetId(self.name(t, &["x", "y", "newid", "X"], |v| &v.ids)),
        }
    }

    pub fn user(&mut self, t: &mut Tape) -> UserSpec {
        let frag = t.usize(self.nfrags);
        let site = self.site(SiteKind::User(frag));
        let stalls = if t.chance(self.p.stall, 100) {
            let n = t.range(1, 4);
            (0..n).map(|_| match t.weighted(&[3, 4, 2, 1]) {
                0 => 0,
                1 => 1,
                2 => t.range(2, 5) as u32,
                _ => if t.chance(1, 60) { 200_000 } else if t.chance(1, 3) { size(t, 5000) as u32 } else { t.range(6, 400) as u32 },
            }).collect()
        } else { vec![] };
        let trunc = if t.chance(self.p.trunc, 1000) { Some(t.usize(self.frag_len[frag] + 1)) } else { None };
        UserSpec { site, frag, stalls, trunc }
    }

    /// A load made while the transform is being built.
    fn load(&mut self, t: &mut Tape) -> Option<LoadSpec> {
        let site = self.site(SiteKind::Load);
        let text = crate::trans::gen_frag(t);
        let good = Template::from_str(&text, ParseOptions::default()).ok()?;
        let nodes = crate::trans::tree(&crate::trans::raw_events(&good)).ok()?;
        let string = t.chance(1, 4);
        let plan = crate::load::load_plan(t, text.len(), false);
        let mut spec = LoadSpec { site, text, nodes, plan, string, bad: None };
        if self.faulty && t.chance(1, 3) {
            let name = spec.file();
            let name = std::path::Path::new(&name);
            let mut b = BadLoad {
                nth: if t.chance(1, 3) { Some(t.usize(3) as u32) } else { None },
                bytes: spec.text.clone().into_bytes(), plan: spec.plan.clone(), limit: None, want: ErrId::Lib("none"),
            };
            const ERRNOS: [i32; 6] = [5, 21, 116, 12, 110, 61];
            use crate::load::errno;
            b.want = match if string { 3 + t.usize(2) } else { t.usize(5) } {
                0 => { let e = errno(t, &[2, 13, 24, 5]); b.plan.open_err = Some(e); ErrId::Load(load_id("open", name, &Some(e))) }
                1 if !b.bytes.is_empty() => { let e = errno(t, &ERRNOS); b.plan.err_at = Some((t.usize(b.bytes.len()), e)); ErrId::Load(load_id("read", name, &Some(e))) }
                2 => {
                    let at = t.usize(b.bytes.len() + 1);
                    let junk: &[u8] = *t.pick(&[&[0xff][..], &[0xc0, 0xaf], &[0xed, 0xa0, 0x80]]);
                    b.bytes.splice(at..at, junk.iter().copied());
                    let e = std::str::from_utf8(&b.bytes).err()?;
                    ErrId::Load(load_id("decode", name, &e))
                }
                3 if !b.bytes.is_empty() => {
                    let limit = t.usize(b.bytes.len());
                    b.limit = Some(limit);
                    let e = InputError::LengthLimitExceeded { limit };
                    ErrId::Load(if string { load_id("string", "".as_ref(), &e) } else { load_id("input", name, &e) })
                }
                _ => {
                    let junk = *t.pick(&["<", "</x>", "<b>", "<!--", "<b a=>", "<a \u{e9}>"]);
                    let at = if t.chance(1, 2) { 0 } else { b.bytes.len() };
                    b.bytes.splice(at..at, junk.bytes());
                    match Template::from_str(std::str::from_utf8(&b.bytes).ok()?, ParseOptions::default()) {
                        Err(e) => ErrId::Load(if string { load_id("string", "".as_ref(), &e) } else { load_id("input", name, &e) }),
                        Ok(_) => return Some(spec),
                    }
                }
            };
            spec.bad = Some(b);
        }
        Some(spec)
    }

    pub fn content(&mut self, t: &mut Tape, depth: usize) -> Content {
        if self.bad(t) {
            self.err += 1;
            return Content::Err(100_000 + self.err);
        }
        let deep = if depth > 0 { 1 } else { 0 };
        let c = match t.weighted(&[4, 3, 2, 1, 1, 2, 1, 2, 3, 2, 1, 2, deep, deep, 1, self.p.user, self.p.load]) {
            0 => Content::Static(intern(&payload(t, self.p.nasty))),
            1 => Content::Data(payload(t, self.p.nasty)),
            2 => Content::DataRef(t.usize(self.ndatas)),
            3 => Content::Value(payload(t, self.p.nasty)),
            4 => Content::ValueRef(t.usize(self.nvalues)),
            5 => Content::Int(t.usize(10) as u8, int(t)),
            6 => Content::K,
            7 => Content::Item,
            8 => Content::Frag(t.usize(self.nfrags)),
            9 => if t.chance(1, 2) { Content::FragRc(t.usize(self.nfrags)) } else { Content::FragClone(t.usize(self.nfrags)) },
            10 => Content::Doc(t.usize(self.ndocs)),
            11 => Content::Element(self.name(t, &["b", "a", "br", "li", "Img", "em", "p", "title", "Script"], |v| &v.tags)),
            12 => { let n = self.name(t, &["b", "a", "br", "li", "p", "style"], |v| &v.tags); let b = self.body(t, depth - 1, true); Content::TransformedElement(n, b) }
            13 => { let d = t.usize(self.ndocs); let b = self.body(t, depth - 1, false); Content::Transformed(d, b) }
            14 => return Content::OkOf(Box::new(self.content(t, depth.saturating_sub(1)))),
            15 => Content::User(Rc::new(self.user(t))),
            _ => match self.load(t) { Some(l) => Content::Load(Rc::new(l)), None => Content::Static("unloaded") },
        };
        if t.chance(1, 10) { Content::OkOf(Box::new(c)) } else { c }
    }

    fn iter(&mut self, t: &mut Tape) -> Iter {
        let site = self.site(SiteKind::Iter);
        if self.p.shared && self.queue.is_some() {
            return Iter { site, via: IterVia::Shared, n: 0, base: self.queue.take().unwrap() };
        }
        let via = match t.weighted(&[2, 2, 3, 2]) { 0 => IterVia::Vec, 1 => IterVia::Range, 2 => IterVia::Lazy, _ => IterVia::Hinted(t.usize(4) as u8) };
        let n = match t.weighted(&[3, 3, 4, 4, 2, 1]) {
            0 => 2, 1 => 0, 2 => 1, 3 => 3, 4 => t.range(4, 9),
            _ => match t.usize(12) { 0 => t.range(250, 300), 1..=5 => size(t, 300), _ => t.range(10, 30) },
        };
        Iter { site, via, n, base: t.usize(5) as i64 * 10 }
    }

    /// At times the iterator has no end and some item makes the transform fail.
    fn ending(&mut self, t: &mut Tape, it: &mut Iter, body: B) -> B {
        if self.p.bad == 0 || it.via == IterVia::Shared || !t.chance(1, 8) { return body; }
        match Rc::try_unwrap(body) {
            Ok(mut b) => {
                it.via = if t.chance(1, 2) { IterVia::Endless } else { IterVia::EndlessRange };
                self.err += 1;
                let c = Content::ErrFrom(it.n as i64 + 1, 100_000 + self.err);
                b.ops.push(Op { k: if t.chance(1, 2) { OpK::Append(c) } else { OpK::Prepend(c) } });
                b.keeps = false;
                Rc::new(b)
            }
            Err(b) => b,
        }
    }

    fn mode(&mut self, t: &mut Tape) -> Mode { [Mode::Any, Mode::Once, Mode::Direct, Mode::DirectOnce][t.weighted(&[5, 2, 2, 2])] }

    pub fn body(&mut self, t: &mut Tape, depth: usize, el: bool) -> B {
        let site = self.site(SiteKind::Body);
        let n = match t.weighted(&[2, 5, 4, 2]) { 0 => 0, 1 => 1, 2 => t.range(2, 3), _ => t.range(2, self.p.width.max(2)) };
        let mut ops = Vec::new();
        let mut cur = el;
        for _ in 0..n {
            if self.ops > 60 { break; }
            let op = Op { k: self.op(t, depth, cur) };
            cur = cur && keeps(&op.k);
            ops.push(op);
        }
        Rc::new(Body { site, ops, el, keeps: cur })
    }

    /// A body that changes nothing.
    pub fn noop_body(&mut self, el: bool) -> B {
        let site = self.site(SiteKind::Body);
        Rc::new(Body { site, ops: vec![], el, keeps: el })
    }

    fn sub(&mut self, t: &mut Tape, depth: usize, el: bool) -> B {
        if depth == 0 { self.noop_body(el) } else { self.body(t, depth - 1, el) }
    }

    pub fn op(&mut self, t: &mut Tape, depth: usize, el: bool) -> OpK {
        self.ops += 1;
        let mut w = self.p.w;
        if !el { for x in w[FIRST_EL..].iter_mut() { *x = 0; } w[0] *= 3; }
        if depth == 0 { for i in [0, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 21, 22] { if i != 0 || el { w[i] /= 4; } } }
        if w.iter().all(|x| *x == 0) { w[0] = 1; }
        let kind = t_kind(t, &w);
        self.op_kind(t, kind, depth, el)
    }

    pub fn op_kind(&mut self, t: &mut Tape, kind: usize, depth: usize, el: bool) -> OpK {
        match kind {
            0 => { let m = self.mode(t); let s = self.sel(t); OpK::Select(m, s, self.sub(t, depth.max(1), true)) }
            1 => OpK::Remove,
            2 => OpK::Prepend(self.content(t, depth)),
            3 => OpK::Append(self.content(t, depth)),
            4 => OpK::Replace(self.content(t, depth)),
            5 => { let mut i = self.iter(t); let b = self.sub(t, depth, el); let b = self.ending(t, &mut i, b); OpK::Repeat(i, b) }
            6 => { let mut i = self.iter(t); let a = self.sub(t, depth, el); let a = self.ending(t, &mut i, a); OpK::RepeatOrElse(i, a, self.sub(t, depth, el)) }
            7 => OpK::Apply(self.sub(t, depth, el)),
            8 => { let p = t.chance(1, 2); OpK::ApplyIf(p, self.sub(t, depth, el)) }
            9 => { let p = t.chance(1, 2); let a = self.sub(t, depth, el); OpK::ApplyIfElse(p, a, self.sub(t, depth, el)) }
            10 => { let v = if t.chance(1, 2) { Some(t.usize(90) as i64) } else { None }; let a = self.sub(t, depth, el); OpK::ApplyOption(v, a, self.sub(t, depth, el)) }
            11 => { let v = t.usize(90) as i64; let v = if t.chance(1, 2) { Ok(v) } else { Err(v) }; let a = self.sub(t, depth, el); OpK::ApplyResult(v, a, self.sub(t, depth, el)) }
            12 => OpK::ApplyBoxed(self.sub(t, depth, false)),
            13 => {
                let site = self.site(SiteKind::Tpl);
                let result = match t.weighted(&[5, 2, 1, 2]) { 0 => TplResult::Transformed, 1 => TplResult::Same, 2 => TplResult::Other(t.usize(self.nfrags)), _ => TplResult::TransformOrSame };
                OpK::ApplyTemplate(Rc::new(TplFn { site, body: self.sub(t, depth, false), result }))
            }
            14 => OpK::BoxedElement(self.sub(t, depth, true)),
            15 => OpK::SubContents(self.sub(t, depth, false)),
            16 => { let m = self.mode(t); let s = self.sel(t); OpK::Subselect(m, s, self.sub(t, depth, true)) }
            17 => OpK::RemoveContents,
            18 => OpK::PrependContents(self.content(t, depth)),
            19 => OpK::AppendContents(self.content(t, depth)),
            20 => OpK::ReplaceContents(self.content(t, depth)),
            21 => { let mut i = self.iter(t); let b = self.sub(t, depth, false); let b = self.ending(t, &mut i, b); OpK::RepeatContents(i, b) }
            22 => { let mut i = self.iter(t); let a = self.sub(t, depth, false); let a = self.ending(t, &mut i, a); OpK::RepeatContentsOrElse(i, a, self.sub(t, depth, true)) }
            _ => OpK::Attr(self.attr(t)),
        }
    }
}

fn t_kind(t: &mut Tape, w: &[u32; NKINDS]) -> usize {
    // Index 0 must stay the simple choice: rotate the first non-zero weight to the front.
    let i = t.weighted(w);
    if w[i] == 0 { w.iter().position(|x| *x > 0).unwrap_or(0) } else { i }
}

fn int(t: &mut Tape) -> i64 {
    if t.chance(1, 12) { return size(t, 1 << 24) as i64 }
    *t.pick(&[7, 0, 1, -1, 255, 256, 65_536, -129, i64::MAX, i64::MIN, 4_294_967_296, 99])
}

/// Picks the faults of a step, given how often the model saw each site.
pub fn faults(t: &mut Tape, p: &Prof, sites: &[(Site, SiteKind)], counts: &std::collections::BTreeMap<Site, u32>, frag_len: &[usize], first_id: u32) -> Vec<Fault> {
    let mut out = Vec::new();
    if p.fault == 0 || !t.chance(p.fault, 100) { return out; }
    let n = t.weighted(&[5, 1]) + 1;
    for i in 0..n {
        let usable: Vec<&(Site, SiteKind)> = sites.iter().filter(|(s, k)| match k {
            SiteKind::Load => false,
            SiteKind::Selector => p.panic > 0,
            SiteKind::Body | SiteKind::Iter => p.panic > 0 && counts.contains_key(s),
            SiteKind::Tpl | SiteKind::User(_) => counts.contains_key(s),
        }).collect();
        if usable.is_empty() { break; }
        // Favour the rarer kinds.
        let special: Vec<&(Site, SiteKind)> = usable.iter().copied().filter(|(_, k)| matches!(k, SiteKind::Tpl | SiteKind::User(_))).collect();
        let from = if !special.is_empty() && (p.panic == 0 || t.chance(2, 3)) { &special } else { &usable };
        let (site, kind) = **t.pick(from);
        let c = counts.get(&site).copied().unwrap_or(0);
        let (nth, pos, fk) = match kind {
            SiteKind::Selector => (t.small(20) as u32, u32::MAX, FaultKind::Panic),
            SiteKind::Load => continue,
            SiteKind::Body | SiteKind::Iter => (t.usize(c as usize) as u32, u32::MAX, FaultKind::Panic),
            SiteKind::Tpl => if t.chance(p.panic, 200) { (t.usize(c as usize) as u32, u32::MAX, FaultKind::Panic) } else { (t.usize(c as usize) as u32, 0, FaultKind::Err) },
            SiteKind::User(f) => {
                let k = if t.chance(p.panic, 200) { FaultKind::Panic } else { FaultKind::Err };
                (t.usize(c as usize) as u32, t.usize(frag_len[f] + 1) as u32, k)
            }
        };
        out.push(Fault { id: first_id + i as u32, site, nth, pos, kind: fk });
    }
    out
}

/// A name with some of its characters replaced by ones that are not allowed in names.
fn bad_name(t: &mut Tape, from: &[&'static str]) -> String {
    let mut n = t.pick(from).to_string();
    for _ in 0..t.range(1, 2) {
        let at = t.usize(n.chars().count() + 1);
        let c = *t.pick(&[' ', '<', '>', '&', '"', '/', '=', ',', ';', '\u{e9}', '\t', '\n', '\u{20ac}', '\u{a0}']);
        n = n.chars().take(at).chain(Some(c)).chain(n.chars().skip(at)).collect();
    }
    if t.chance(1, 8) { n.clear(); }
    n
}

/// A selector with any number of invalid parts.
fn bad_selector(t: &mut Tape, via: SelVia) -> String {
    let v = vocab();
    let part = |t: &mut Tape, from: &[&'static str]| if t.chance(1, 2) { bad_name(t, from) } else { t.pick(from).to_string() };
    match via {
        SelVia::Static | SelVia::SharedStatic | SelVia::Custom => {
            let mut s = String::new();
            if t.chance(1, 2) { s.push_str(&part(t, &v.tags)); }
            if t.chance(1, 2) { s.push('#'); s.push_str(&part(t, &v.ids)); }
            for _ in 0..t.usize(5) { s.push('.'); s.push_str(&part(t, &v.classes)); }
            s
        }
        SelVia::Tag => bad_name(t, &v.tags),
        SelVia::Id => bad_name(t, &v.ids),
        SelVia::Class => bad_name(t, &v.classes),
        SelVia::Classes => (0..t.range(1, 4)).map(|_| part(t, &v.classes)).collect::<Vec<_>>().join(" "),
    }
}

/// The error an invalid selector has to raise: the first part that is invalid, and why.
fn selector_error(via: SelVia, lit: &str) -> Option<String> {
    let why = model::ident_cause;
    match via {
        SelVia::Static | SelVia::SharedStatic => {
            let end = lit.find(['#', '.']).unwrap_or(lit.len());
            let (tag, mut rest) = lit.split_at(end);
            if !tag.is_empty() { if let Some(e) = why(tag) { return Some(format!("static tag: {}", e)); } }
            if let Some(r) = rest.strip_prefix('#') {
                let end = r.find('.').unwrap_or(r.len());
                if let Some(e) = why(&r[..end]) { return Some(format!("static id: {}", e)); }
                rest = &r[end..];
            }
            if let Some(r) = rest.strip_prefix('.') {
                for (i, c) in r.split('.').enumerate() {
                    if let Some(e) = why(c) { return Some(format!("static class {}: {}", i, e)); }
                }
            }
            if lit.is_empty() { Some("static unrestricted".into()) } else { None }
        }
        SelVia::Tag => why(lit).map(|e| format!("tag: {}", e)),
        SelVia::Id => why(lit).map(|e| format!("id: {}", e)),
        SelVia::Class => why(lit).map(|e| format!("class: {}", e)),
        SelVia::Classes => {
            for (i, c) in lit.split_whitespace().enumerate() {
                if let Some(e) = why(c) { return Some(format!("classes {}: {}", i, e)); }
            }
            if lit.split_whitespace().next().is_none() { Some("classes empty".into()) } else { None }
        }
        SelVia::Custom => None,
    }
}
