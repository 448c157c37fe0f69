//! Loading, storing and rendering scenarios on the simulated disk.

use crate::alloc;
use crate::disk::{self, LoadPlan, ReadAct, SimFile};
use crate::gen::{self, DocCfg};
use crate::model::{self, Node, PErr, Tag};
use crate::sched::{self, violation, Check, Violation};
use crate::tape::Tape;
use crate::trans::{self, gen_doc, merged, raw_events};
use html5_fuser::location::Location;
use html5_fuser::parse::Error as ParseError;
use html5_fuser::template::{FileError, InputError};
use html5_fuser::{ParseOptions, Template};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub fn clip(s: &str) -> String {
    if s.len() <= 300 { return s.to_string(); }
    let mut e = 300;
    while !s.is_char_boundary(e) { e -= 1; }
    format!("{}... ({} bytes)", &s[..e], s.len())
}

/// How the system delivers a file of `len` bytes; with `faults`, possibly a failure.
pub fn load_plan(t: &mut Tape, len: usize, faults: bool) -> LoadPlan {
    let mut p = LoadPlan::default();
    match t.weighted(&[3, 4, 4, 3]) {
        0 => (),
        1 => {
            // A few reads of chosen sizes, then the rest.
            for _ in 0..t.range(1, 6) {
                if t.chance(1, 4) { p.acts.push(ReadAct::Eintr); }
                let n = match t.usize(4) { 0 => t.range(1, 4), 1 => t.range(1, 64), 2 => t.range(1, 9000), _ => t.range(8180, 8200) };
                p.acts.push(ReadAct::Data(n));
            }
        }
        2 => {
            let small = len <= 4000;
            for _ in 0..t.range(1, 5) {
                if t.chance(1, 5) { for _ in 0..t.range(1, 3) { p.acts.push(ReadAct::Eintr); } }
                let n = if small { t.range(1, 7) } else { t.range(200, 5000) };
                p.acts.push(ReadAct::Data(n));
            }
            p.cycle = true;
        }
        _ => {
            // Interrupted over and over.
            for _ in 0..t.range(1, 20) { p.acts.push(ReadAct::Eintr); }
            p.acts.push(ReadAct::Data(t.range(1, len.max(1))));
            for _ in 0..t.range(0, 4) { p.acts.push(ReadAct::Eintr); }
        }
    }
    if faults {
        const ERRNOS: [i32; 9] = [5, 21, 116, 12, 11, 6, 110, 61, 95];
        match t.weighted(&[3, 4, 2]) {
            0 => p.open_err = Some(errno(t, &[2, 13, 24, 5, 21, 40, 36, 12, 23])),
            1 => p.err_at = Some((t.range(0, len + 1), errno(t, &ERRNOS))),
            _ => { let at = t.usize(p.acts.len() + 1); p.acts.insert(at, ReadAct::Err(errno(t, &ERRNOS))); p.cycle = false; }
        }
    }
    p
}

/// A failure: mostly a usual one, at times any but an interruption.
pub fn errno(t: &mut Tape, usual: &[i32]) -> i32 {
    if t.chance(3, 4) { return *t.pick(usual) }
    match t.range(1, 133) as i32 { disk::EINTR => disk::EIO, e => e }
}

/// Text whose length and multi-byte characters sit around the loader's buffer boundaries.
pub fn sized_doc(t: &mut Tape) -> String {
    let mut s = gen_doc(t, 12);
    if t.chance(1, 2) {
        let unit = *t.pick(&["x", "\u{e9}", "\u{20ac}", "\u{1F600}", "ab\u{20ac}", "<b>\u{e9}</b>", "<br>"]);
        let target = match t.weighted(&[4, 2, 1, 1]) {
            0 => t.range(8180, 8204),
            1 => 8192 * t.range(1, 5) + t.range(0, 8),
            2 => t.range(100, 30_000),
            _ => if t.chance(1, 30) { t.range(900_000, 2_500_000) } else { t.range(65_530, 65_545) },
        };
        // (A raw text element left open by damage takes the parser quadratic time in the number
        // of angle brackets after it: few of those in the largest documents.)
        let unit = if target > 70_000 && unit.contains('<') { format!("\u{e9} <b>long text </b>{}\n", "long \u{20ac} text".repeat(1000)) } else { unit.to_string() };
        let unit = &unit[..];
        let mut pad = String::new();
        for _ in 0..t.usize(4) { pad.push('p'); }
        while s.len() + pad.len() + unit.len() <= target { pad.push_str(unit); }
        while s.len() + pad.len() < target { pad.push('q'); }
        if t.chance(1, 2) { s = pad + &s } else { s.push_str(&pad) }
    }
    if t.chance(1, 10) {
        // A hole: zero bytes.
        let n = match t.usize(3) { 0 => t.range(1, 30), 1 => t.range(4000, 9000), _ => 8192 * t.range(1, 3) + t.usize(9) };
        let mut at = match t.usize(3) { 0 => 0, 1 => s.len(), _ => t.usize(s.len() + 1) };
        while !s.is_char_boundary(at) { at -= 1; }
        s.insert_str(at, &"\0".repeat(n));
    }
    s
}

/// Options with these limits, arrived at in one of the ways there are.
fn opts(t: &mut Tape, depth: Option<usize>, len: Option<usize>) -> ParseOptions {
    let mut o = ParseOptions::default();
    match t.weighted(&[6, 1, 1, 1, 1]) {
        1 => return ParseOptions { max_stack_depth: depth, max_input_len: len },
        2 => o = o.max_stack_depth(t.usize(3)).max_input_len(t.usize(20)),
        3 => o = o.no_max_stack_depth().no_max_input_len(),
        4 => {
            // The other one first.
            if let Some(l) = len { o = o.max_input_len(l); } else { o = o.max_input_len(0).no_max_input_len(); }
            return match depth { Some(d) => o.max_stack_depth(d), None => o.max_stack_depth(0).no_max_stack_depth() };
        }
        _ => { if let Some(d) = depth { o = o.max_stack_depth(d); } if let Some(l) = len { o = o.max_input_len(l); } return o }
    }
    o = match depth { Some(d) => o.max_stack_depth(d), None => o.no_max_stack_depth() };
    match len { Some(l) => o.max_input_len(l), None => o.no_max_input_len() }
}

/// The same text in other letters, as long as before.
fn other_letters(s: &str, by: u8) -> String {
    s.chars().map(|c| if c.is_ascii_lowercase() { ((c as u8 - b'a' + by) % 26 + b'a') as char } else { c }).collect()
}

pub fn run_all(clients: Vec<Box<dyn FnOnce() -> Check>>) -> Check {
    sched::run_clients(clients.into_iter().map(|c| {
        Box::new(move || if let Err(v) = c() { sched::set_violation(v) }) as Box<dyn FnOnce()>
    }).collect());
    match sched::with(|s| s.violation.take()) { Some(v) => Err(v), None => Ok(()) }
}

fn same_load(got: &Result<Template, FileError>, want: &Result<Template, InputError>, path: &std::path::Path) -> Check {
    match (got, want) {
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Ok(a), Ok(b)) => violation("wrong-template", format!("loaded {:?}, the content is {:?}", clip(&a.to_string()), clip(&b.to_string()))),
        (Err(FileError::Input { path: p, error: a }), Err(b)) => {
            if a != b { return violation("wrong-reason", format!("file rejected with {:?}, content with {:?}", a, b)); }
            if p != path { return violation("wrong-path", format!("error names {:?} instead of {:?}", p, path)); }
            Ok(())
        }
        (Ok(a), Err(b)) => violation("accepted-rejected", format!("loaded {:?} although the content is rejected: {:?}", clip(&a.to_string()), b)),
        (Err(a), Err(b)) => violation("wrong-reason", format!("file rejected with {:?}, content with {:?}", a, b)),
        (Err(a), Ok(_)) => violation("rejected-acceptable", format!("loading failed with {:?} although the content is acceptable", a)),
    }
}

fn released(handles: &[Rc<RefCell<disk::Handle>>]) -> Check {
    for h in handles {
        if disk::is_open(h) { return violation("handle-not-released", "a file handle is still open after the load ended"); }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C01

pub fn c01(t: &mut Tape) -> Check {
    let nfiles = t.range(1, 2);
    let mut files = Vec::new();
    for i in 0..nfiles {
        let mut s = match t.weighted(&[5, 1, 2, 1]) {
            0 => sized_doc(t),
            1 => String::new(),
            2 => { let s = gen_doc(t, 12); damaged(t, &s) }
            _ => format!("\u{feff}{}", gen_doc(t, 6)),
        };
        if t.chance(1, 10) { s.push_str("tail\u{20ac}"); }
        let path = if t.chance(1, 4) { file_path(t, &format!("f{}", i)) } else { disk::dir().join(format!("f{}.html", i)) };
        files.push((disk::create_at(&path, s.clone().into_bytes()), s));
    }
    let rewrite = t.chance(1, 4);
    let mut clients: Vec<Box<dyn FnOnce() -> Check>> = Vec::new();
    for _ in 0..t.range(1, 4) {
        let mut loads = Vec::new();
        for _ in 0..t.range(1, 3) {
            let f = t.usize(nfiles);
            let depth = if t.chance(1, 6) { Some(t.usize(6)) } else { None };
            let len = if t.chance(1, 6) { Some(files[f].1.len() + t.usize(3)) } else { None };
            let o = opts(t, depth, len);
            let p = load_plan(t, files[f].1.len(), false);
            loads.push((files[f].clone(), o, p));
        }
        clients.push(Box::new(move || {
            for ((file, text), o, p) in loads {
                disk::plan(&file, p);
                let r = Template::from_file(&file.path, o);
                let (h, _) = disk::take_opens();
                if rewrite {
                    // The content is whatever was delivered, provided that was all of it.
                    if h.len() != 1 { sched::probe("multiple_opens"); continue; }
                    let (served, eof) = { let h = h[0].borrow(); (h.served.clone(), h.eof) };
                    match std::str::from_utf8(&served) {
                        Ok(s) => {
                            let want = Template::from_str(s, o);
                            if r.is_ok() && !eof { return violation("stopped-early", "loading succeeded without reaching the end of the file"); }
                            if let Err(InputError::LengthLimitExceeded { .. }) = want { if r.is_err() { continue; } }
                            if let Err(FileError::Input { error: InputError::LengthLimitExceeded { .. }, .. }) = r { continue; }
                            same_load(&r, &want, &file.path)?;
                        }
                        Err(e) => match r {
                            Err(FileError::Decode { error, .. }) if error == e => (),
                            Err(FileError::Input { error: InputError::LengthLimitExceeded { .. }, .. }) => (),
                            r => return violation("wrong-reason", format!("delivered bytes are not UTF-8 ({}), loading gave {:?}", e, r.map(|t| clip(&t.to_string())))),
                        },
                    }
                    sched::probe("load_during_rewrite");
                } else {
                    if r.is_ok() && h.iter().any(|h| !h.borrow().eof && h.borrow().served_len < text.len()) {
                        return violation("stopped-early", "loading succeeded without reading the whole file");
                    }
                    same_load(&r, &Template::from_str(&text, o), &file.path)?;
                    sched::probe(if r.is_ok() { "load_accepted" } else { "load_rejected" });
                }
                if let Ok(t) = r { sched::observe(t.to_string().as_bytes()); }
            }
            Ok(())
        }));
    }
    if rewrite {
        let f = files[0].0.clone();
        let mut versions: Vec<String> = Vec::new();
        for _ in 0..t.range(1, 4) {
            let v = if t.chance(1, 3) { other_letters(versions.last().unwrap_or(&files[0].1), t.range(1, 25) as u8) } else { sized_doc(t) };
            versions.push(v);
        }
        clients.push(Box::new(move || {
            for v in versions {
                sched::yield_point("rewrite", 0);
                sched::fault("file_rewritten_while_open");
                disk::overwrite(&f, v.into_bytes());
            }
            Ok(())
        }));
    }
    run_all(clients)
}

// ---------------------------------------------------------------------------------------------
// C02

fn io_code(e: &std::io::Error) -> Option<i32> { e.raw_os_error() }

/// The variant, path, code and rendering of a load error.
fn describe(e: &FileError) -> (&'static str, std::path::PathBuf, Option<i32>) {
    match e {
        FileError::Open { path, error } => ("open", path.clone(), io_code(error)),
        FileError::Read { path, error } => ("read", path.clone(), io_code(error)),
        FileError::Decode { path, .. } => ("decode", path.clone(), None),
        FileError::Input { path, .. } => ("input", path.clone(), None),
    }
}

#[allow(deprecated)]
fn well_formed(e: &FileError, path: &std::path::Path) -> Check {
    use std::error::Error;
    let (stage, p, _) = describe(e);
    if p != path { return violation("wrong-path", format!("error names {:?}, the file is {:?}", p, path)); }
    let text = e.to_string();
    if !text.contains(&path.display().to_string()) { return violation("path-not-named", format!("message {:?} does not name {:?}", text, path)); }
    // The message does not speak of another stage than the one that failed.
    let words = text.replace(&path.display().to_string(), "").to_lowercase();
    for other in ["open", "read", "decode"] {
        if other != stage && words.contains(other) { return violation("wrong-stage-named", format!("{} error described as {:?}", stage, text)); }
    }
    let cause = match e.source().map(|c| c.to_string()).or_else(|| e.cause().map(|c| c.to_string())) {
        Some(c) => c,
        None => return violation("no-cause", format!("{} error carries no cause", stage)),
    };
    let want = match e {
        FileError::Open { error, .. } | FileError::Read { error, .. } => error.to_string(),
        FileError::Decode { error, .. } => error.to_string(),
        FileError::Input { error, .. } => error.to_string(),
    };
    if cause != want { return violation("wrong-cause", format!("cause is {:?}, expected {:?}", cause, want)); }
    if let FileError::Input { error: ref inner @ InputError::Parse { ref error }, .. } = e {
        let c = inner.source().map(|c| c.to_string()).or_else(|| inner.cause().map(|c| c.to_string()));
        if c != Some(error.to_string()) { return violation("wrong-cause", format!("parse error {} is not the cause of {:?}", error, inner)); }
    }
    Ok(())
}

/// A way to name a file of the scratch directory, of every kind a file system allows.
fn file_path(t: &mut Tape, stem: &str) -> std::path::PathBuf {
    use std::os::unix::ffi::OsStrExt;
    let dir = disk::dir();
    let mut name = stem.as_bytes().to_vec();
    match t.weighted(&[4, 1, 1, 1, 1, 1, 1, 4]) {
        0 => name.extend(b".html"),
        1 => name.extend(b" with spaces.html "),
        2 => name.extend("\u{e9}\u{20ac}\u{1F600}.html".as_bytes()),
        3 => name.extend(b"\xff\xfe-\xe2\x82.html"),
        4 => name.extend(b"'\"{}%s\\.ht\nml"),
        5 => name.extend(std::iter::repeat(b'n').take(150)),
        6 => (),
        _ => {
            // What shells, URLs and other systems give a meaning to.
            let odd: &[u8] = *t.pick(&[
                &b"%20x%41.html"[..], b"$HOME", b"*.htm?", b"[a-z]", b"?query#fragment", b"..html", b"a&amp;b", b".", b":stream", b"C:\\x", b"~",
                b";ls", b"|cat", b"+plus+", b"\t.html", b".gz", b".HTML", b".html~", b".html.bak",
            ]);
            if t.chance(1, 4) { let mut n = odd.to_vec(); n.extend(&name); name = n } else { name.extend(odd) }
        }
    }
    if name.starts_with(b".") || name.starts_with(b"/") { name.insert(0, b'_') }
    let os = |b: &[u8]| std::ffi::OsStr::from_bytes(b).to_os_string();
    let name = os(&name);
    // And the ways to get there.
    match t.weighted(&[6, 1, 2, 1, 1, 1, 1]) {
        0 => dir.join(name),
        1 => dir.join("..").join(dir.file_name().unwrap()).join(name),
        2 => std::path::PathBuf::from(name),
        3 => std::path::Path::new(".").join(name),
        4 => std::path::Path::new("..").join(dir.file_name().unwrap()).join(name),
        5 => std::path::Path::new("/").join("/").join(&dir).join(".").join(name),
        _ => {
            let sub = *t.pick(&["~", "%2e", "a b", "-", "file:", "...", "$PWD"]);
            std::fs::create_dir_all(dir.join(sub)).expect("directory");
            if t.chance(1, 2) { dir.join(sub).join(name) } else { std::path::Path::new(sub).join(name) }
        }
    }
}

pub fn c02(t: &mut Tape) -> Check {
    let mut clients: Vec<Box<dyn FnOnce() -> Check>> = Vec::new();
    let nclients = t.range(1, 3);
    for ci in 0..nclients {
        let good = if t.chance(1, 3) { sized_doc(t) } else { gen_doc(t, 10) };
        let mut bytes = good.clone().into_bytes();
        let bad_utf8 = t.chance(1, 4);
        if bad_utf8 {
            let at = t.usize(bytes.len() + 1);
            let junk: &[u8] = *t.pick(&[&[0xff][..], &[0xc3], &[0xe2, 0x82], &[0x80], &[0xf0, 0x9f, 0x98], &[0xc0, 0xaf], &[0xed, 0xa0, 0x80]]);
            bytes.splice(at..at, junk.iter().copied());
        } else if t.chance(1, 5) { bytes = damaged(t, &good).into_bytes(); }
        else if t.chance(1, 6) && !bytes.is_empty() {
            // A torn file: cut anywhere, also inside a character.
            let at = t.usize(bytes.len());
            bytes.truncate(at);
            sched::fault("file_torn");
        }
        let limit = if t.chance(1, 6) { Some(t.usize(bytes.len() + 2)) } else { None };
        let fault = t.chance(2, 3);
        let lp = load_plan(t, bytes.len(), fault);
        let o = opts(t, None, limit);
        let again = load_plan(t, good.len(), false);
        let rounds = t.range(1, 3);
        let missing = t.chance(1, 12);
        let unopenable = if missing { t.weighted(&[6, 1, 1, 1, 1]) } else { 0 };
        let directory = t.chance(1, 20);
        let file = disk::create_at(&file_path(t, &format!("c{}", ci)), bytes.clone());
        let absent = file_path(t, &format!("missing{}", ci));
        clients.push(Box::new(move || {
            if missing {
                use std::os::unix::ffi::OsStrExt;
                // What there is no file behind, and what the system says.
                let (path, code) = match unopenable {
                    1 => (std::path::PathBuf::new(), Some(2)),
                    2 => (file.path.join("child.html"), Some(20)),
                    3 => (disk::dir().join("l".repeat(256)), Some(36)),
                    4 => { let mut p = file.path.clone().into_os_string(); p.push(std::ffi::OsStr::from_bytes(b"\0.html")); (p.into(), None) }
                    _ => (absent, Some(2)),
                };
                disk::missing(&path);
                match Template::from_file(&path, o) {
                    Err(e @ FileError::Open { .. }) => {
                        well_formed(&e, &path)?;
                        if describe(&e).2 != code { return violation("wrong-cause", format!("{:?} for a file that cannot be opened ({:?})", e, code)); }
                        sched::fault("file_missing");
                    }
                    r => return violation("wrong-stage", format!("loading a missing file gave {:?}", r.map(|t| t.to_string()))),
                }
            }
            if directory {
                let path = disk::dir();
                match Template::from_file(&path, o) {
                    Err(e @ FileError::Open { .. }) | Err(e @ FileError::Read { .. }) => { well_formed(&e, &path)?; sched::fault("path_is_directory"); }
                    r => return violation("wrong-stage", format!("loading a directory gave {:?}", r.map(|t| t.to_string()))),
                }
            }
            for round in 0..rounds {
                disk::plan(&file, lp.clone());
                let r = Template::from_file(&file.path, o);
                let (handles, open_errs) = disk::take_opens();
                released(&handles)?;
                let read_err = handles.iter().find_map(|h| h.borrow().err);
                let text = std::str::from_utf8(&bytes);
                let parsed = text.as_ref().ok().map(|s| Template::from_str(s, o));
                // Everything that is wrong with this load; any one of them may be reported.
                let mut wrong: Vec<String> = Vec::new();
                if let Some(e) = open_errs.first() { wrong.push(format!("open {}", e)); }
                if let Some(e) = read_err { wrong.push(format!("read {}", e)); }
                if let Err(ref e) = text { wrong.push(format!("decode {}", e)); }
                if let Some(Err(ref e)) = parsed { wrong.push(format!("input {:?}", e)); }
                if let (Some(l), true) = (limit, limit.map_or(false, |l| bytes.len() > l)) { wrong.push(format!("input {:?}", InputError::LengthLimitExceeded { limit: l })); }
                match r {
                    Ok(tpl) => {
                        if !wrong.is_empty() { return violation("fault-swallowed", format!("loading succeeded although: {:?}", wrong)); }
                        if Some(Ok(tpl)) != parsed { return violation("wrong-template", "the loaded template is not the file's content"); }
                        if round == 0 { sched::probe("load_without_problem"); }
                    }
                    Err(e) => {
                        well_formed(&e, &file.path)?;
                        let got = match &e {
                            FileError::Open { error, .. } => format!("open {}", io_code(error).unwrap_or(-1)),
                            FileError::Read { error, .. } => format!("read {}", io_code(error).unwrap_or(-1)),
                            FileError::Decode { error, .. } => format!("decode {}", error),
                            FileError::Input { error, .. } => format!("input {:?}", error),
                        };
                        if !wrong.contains(&got) { return violation("wrong-error", format!("loading failed with {:?}; what is wrong: {:?}", got, wrong)); }
                        if open_errs.is_empty() && read_err.is_none() && text.is_ok() && !matches!(e, FileError::Input { .. }) {
                            return violation("wrong-stage", format!("{:?}", e));
                        }
                        sched::probe(match &e { FileError::Open { .. } => "failed_open", FileError::Read { .. } => "failed_read", FileError::Decode { .. } => "failed_decode", FileError::Input { .. } => "failed_input" });
                    }
                }
            }
            // The fault is gone and the file is repaired: the load succeeds.
            disk::overwrite(&file, good.clone().into_bytes());
            disk::plan(&file, again);
            let r = Template::from_file(&file.path, ParseOptions::default());
            let (handles, _) = disk::take_opens();
            released(&handles)?;
            let want = Template::from_str(&good, ParseOptions::default());
            if want.is_ok() {
                match r {
                    Ok(ref x) if Ok(x) == want.as_ref() => { sched::probe("recovered"); sched::observe(good.as_bytes()); }
                    _ => return violation("no-recovery", format!("after the fault is gone loading gives {:?}", r.map(|t| clip(&t.to_string())))),
                }
            }
            Ok(())
        }));
    }
    run_all(clients)
}

// ---------------------------------------------------------------------------------------------
// C03

pub fn c03(t: &mut Tape) -> Check {
    match t.weighted(&[24, 10, 24, 1, 3]) {
        0 => c03_length(t),
        1 => c03_endless(t),
        2 => c03_depth(t),
        3 => c03_unlimited(t),
        _ => c03_growing(t),
    }
}

fn is_limit<T>(r: &Result<T, InputError>, l: usize) -> bool { matches!(r, Err(InputError::LengthLimitExceeded { limit }) if *limit == l) }

fn c03_length(t: &mut Tape) -> Check {
    let mut s = if t.chance(1, 3) { sized_doc(t) } else { gen_doc(t, 8) };
    if t.chance(1, 3) { s = damaged(t, &s); }
    let n = s.len();
    let chars = s.chars().count();
    let limit = match t.weighted(&[3, 3, 3, 1, 1, 1, 1]) {
        0 => n, 1 => n.saturating_sub(1), 2 => n + 1, 3 => 0, 4 => chars, 5 => t.usize(n + 10),
        _ => {
            let bits = *t.pick(&[64u32, 32, 16, 31, 63, 24]);
            let edge = (1u128 << bits) as i128 + *t.pick(&[0, -1, 1, n as i128, n as i128 - 1]);
            (edge.min(usize::MAX as i128)) as usize
        }
    };
    let free = Template::from_str(&s, ParseOptions::default());
    let o = opts(t, None, Some(limit));
    let r = Template::from_str(&s, o);
    if n > limit {
        if !is_limit(&r, limit) { return violation("limit-not-enforced", format!("string of {} bytes with limit {} gave {:?}", n, limit, r.map(|_| "a template"))); }
        let msg = r.unwrap_err().to_string();
        if !msg.contains(&limit.to_string()) { return violation("limit-not-named", msg); }
        sched::probe("string_over_limit");
    } else {
        if r != free { return violation("limit-too-strict", format!("string of {} bytes with limit {} gave {:?}", n, limit, r.map(|_| "a template"))); }
        sched::probe("string_within_limit");
    }
    sched::observe(s.as_bytes());
    sched::observe(&limit.to_le_bytes());
    let f = disk::create("len.html", s.clone().into_bytes());
    for _ in 0..t.range(1, 2) {
        disk::plan(&f, load_plan(t, n, false));
        let r = Template::from_file(&f.path, o);
        let (h, _) = disk::take_opens();
        released(&h)?;
        if n > limit {
            match r {
                Err(FileError::Input { ref error, .. }) if is_limit::<()>(&Err(error.clone()), limit) => (),
                r => return violation("limit-not-enforced", format!("file of {} bytes with limit {} gave {:?}", n, limit, r.map(|_| "a template"))),
            }
            sched::probe("file_over_limit");
        } else {
            same_load(&r, &free, &f.path).map_err(|v| Violation { class: format!("limit-{}", v.class), detail: format!("{} bytes, limit {}: {}", n, limit, v.detail) })?;
            sched::probe("file_within_limit");
        }
    }
    Ok(())
}

fn c03_endless(t: &mut Tape) -> Check {
    let unit = match t.weighted(&[3, 1, 1]) { 0 => gen_doc(t, 5), 1 => "x".to_string(), _ => "\u{20ac}".to_string() };
    let unit = if unit.is_empty() { "e".to_string() } else { unit };
    let limit = match t.weighted(&[3, 3, 1]) { 0 => t.range(0, 10_000), 1 => 8192 * t.range(0, 4) + t.range(0, 2), _ => t.range(0, 800_000) };
    let f = disk::create("endless.html", unit.into_bytes());
    let mut p = load_plan(t, limit, false);
    p.endless = true;
    disk::plan(&f, p);
    let o = opts(t, None, Some(limit));
    bounded_load(&f, limit, o, "endless")
}

fn bounded_load(f: &Rc<SimFile>, limit: usize, o: ParseOptions, what: &str) -> Check {
    sched::observe(&limit.to_le_bytes());
    alloc::reset_peak();
    let before = alloc::live();
    let r = Template::from_file(&f.path, o);
    let peak = alloc::peak() - before;
    let (h, _) = disk::take_opens();
    released(&h)?;
    let served: usize = h.iter().map(|h| h.borrow().served_len).sum();
    if served > 2 * limit + (1 << 20) || h.iter().any(|h| h.borrow().capped) {
        return violation("unbounded-read", format!("{} file with limit {}: {} bytes were read", what, limit, served));
    }
    match r {
        Err(FileError::Input { error: InputError::LengthLimitExceeded { limit: l }, .. }) if l == limit => (),
        r => return violation("limit-not-enforced", format!("{} file with limit {} gave {:?}", what, limit, r.map(|_| "a template"))),
    }
    if peak > 4 * limit as i64 + (8 << 20) { return violation("unbounded-memory", format!("{} file with limit {}: {} bytes allocated", what, limit, peak)); }
    sched::probe("endless_load_stopped");
    Ok(())
}

/// Another client keeps appending while the file is read.
fn c03_growing(t: &mut Tape) -> Check {
    let limit = t.range(0, 40_000);
    let o = opts(t, None, Some(limit));
    let f = disk::create("grow.html", vec![b'g'; t.range(1, 9000)]);
    let p = load_plan(t, limit, false);
    let done = Rc::new(Cell::new(false));
    let (f2, done2) = (f.clone(), done.clone());
    run_all(vec![
        Box::new(move || {
            disk::plan(&f, p);
            let r = Template::from_file(&f.path, o);
            done.set(true);
            let (h, _) = disk::take_opens();
            released(&h)?;
            let h = match h.first() { Some(h) => h.borrow(), None => return Ok(()) };
            if h.served_len > 2 * limit + (1 << 20) { return violation("unbounded-read", format!("growing file with limit {}: {} bytes were read", limit, h.served_len)); }
            match r {
                Err(FileError::Input { error: InputError::LengthLimitExceeded { limit: l }, .. }) if l == limit && (h.served_len > limit || f.content.borrow().len() > limit) => Ok(()),
                Ok(ref tpl) if h.eof && h.served_len <= limit => if tpl.to_string().as_bytes() == &h.served[..] { Ok(()) } else { violation("wrong-template", "growing file") },
                r => violation("limit-not-enforced", format!("growing file with limit {}, {} bytes read, gave {:?}", limit, h.served_len, r.map(|_| "a template"))),
            }
        }),
        Box::new(move || {
            let mut n = 0;
            while !done2.get() && n < 200_000 {
                n += 1;
                sched::yield_point("grow", 0);
                let mut c = f2.content.borrow_mut();
                if c.len() < 4_000_000 { let l = c.len(); c.resize(l + 8192, b'g'); }
                sched::fault("file_grows_while_read");
            }
            Ok(())
        }),
    ])
}

fn c03_depth(t: &mut Tape) -> Check {
    let mut s;
    if t.chance(1, 2) {
        s = gen_doc(t, 16);
    } else {
        let d = if t.chance(1, 10) { t.range(200, 600) } else { t.range(0, 12) };
        let cfg = DocCfg { size: 4, depth: 2, raw: t.chance(1, 3), doctype: false };
        let mut inner = gen::nodes(t, &cfg);
        if t.chance(1, 2) { inner.push(Node::Void(Tag { name: "br".into(), attrs: vec![] })); inner.push(Node::SelfClosed(Tag { name: "b".into(), attrs: vec![] })); }
        let name = *t.pick(&["b", "a", "Div"]);
        let before = gen::nodes(t, &cfg);
        let mut n = before;
        n.extend(gen::chain(name, d, inner));
        let noisy = t.chance(1, 2);
        s = gen::source(t, &n, noisy);
    }
    if t.chance(1, 5) { s = damaged(t, &s); }
    let depth = match model::parse(&s, None) { Ok(ref n) => model::depth(n), Err(_) => 4 };
    let limit = match t.weighted(&[6, 6, 4, 2, 2, 3]) {
        0 => depth, 1 => depth.saturating_sub(1), 2 => depth + 1, 3 => 0, 4 => t.usize(depth + 2),
        _ => {
            // Limits no document of this size exceeds, near the bounds of number types.
            let bits = *t.pick(&[16u32, 32, 8, 31, 63, 15, 7, 64]);
            let edge = (1u128 << bits) as i128 + *t.pick(&[0, -1, 1, depth as i128, depth as i128 - 1]);
            (edge.min(usize::MAX as i128)) as usize
        }
    };
    depth_case(t, &s, limit)?;
    sched::observe(s.as_bytes());
    sched::observe(&limit.to_le_bytes());
    let f = disk::create("depth.html", s.clone().into_bytes());
    disk::plan(&f, load_plan(t, s.len(), false));
    let r = Template::from_file(&f.path, opts(t, Some(limit), None));
    disk::take_opens();
    same_load(&r, &Template::from_str(&s, opts(t, Some(limit), None)), &f.path)
}

fn depth_case(t: &mut Tape, s: &str, limit: usize) -> Check {
    let want = model::parse(s, Some(limit));
    let r = Template::from_str(s, opts(t, Some(limit), None));
    match (&want, &r) {
        (Ok(_), Ok(_)) => { sched::probe("depth_within_limit"); Ok(()) }
        (Err(e), Err(InputError::Parse { error })) if e.kind == "depth-limit" => match error {
            ParseError::StackLimitExceeded { tag, location, limit: l } => {
                if *l != limit { return violation("wrong-limit-named", format!("{} instead of {}", l, limit)); }
                if *tag != e.at[0].0 { return violation("wrong-tag-named", format!("{:?} instead of {:?}", tag, e.at[0].0)); }
                loc(s, location, e.at[0].1, None)?;
                let msg = error.to_string();
                if !msg.contains(&limit.to_string()) || !msg.contains(&tag[..]) { return violation("wrong-message", msg); }
                sched::probe("depth_over_limit");
                Ok(())
            }
            other => violation("limit-not-enforced", format!("depth limit {}: {:?} for {:?}", limit, other, clip(s))),
        },
        (Err(e), Err(InputError::Parse { error })) => {
            if let ParseError::StackLimitExceeded { .. } = error { return violation("limit-too-strict", format!("depth limit {}: {:?}; the first problem is {:?} in {:?}", limit, error, e, clip(s))); }
            sched::probe("depth_other_rejection");
            Ok(())
        }
        (Ok(_), Err(InputError::Parse { error: error @ ParseError::StackLimitExceeded { .. } })) => violation("limit-too-strict", format!("depth limit {}: {:?} for {:?}", limit, error, clip(s))),
        (Err(e), Ok(_)) if e.kind == "depth-limit" => violation("limit-not-enforced", format!("depth limit {} accepted {:?}", limit, clip(s))),
        (_, Err(InputError::LengthLimitExceeded { .. })) => violation("limit-too-strict", "length limit reported though none is configured".to_string()),
        // Acceptance as such is another property.
        _ => { sched::probe("depth_unrelated"); Ok(()) }
    }
}

fn c03_unlimited(t: &mut Tape) -> Check {
    let s = if t.chance(1, 2) {
        let d = t.range(1000, 12_000);
        format!("{}x{}", "<b>".repeat(d), "</b>".repeat(d))
    } else {
        "<p>\u{20ac} text</p>".repeat(t.range(10_000, 120_000))
    };
    let r = Template::from_str(&s, ParseOptions::default());
    match r {
        Ok(ref tpl) if tpl.to_string() == s => (),
        Ok(_) => return violation("wrong-template", "large document is rendered differently"),
        Err(e) => return violation("limit-without-configuration", format!("{:?}", e)),
    }
    let f = disk::create("big.html", s.clone().into_bytes());
    disk::plan(&f, load_plan(t, s.len(), false));
    let r2 = Template::from_file(&f.path, ParseOptions::default());
    disk::take_opens();
    sched::probe("unlimited_load");
    same_load(&r2, &r, &f.path)
}

// ---------------------------------------------------------------------------------------------
// C04

const SNIPS: [&str; 40] = [
    "<", ">", "</", "/>", "\"", "=", "<!--", "-->", "<!doctype html>", "<!", "</b>", "<b>", "<b", " x=\"1\"", "&", "'", "/", "< ", "</ ",
    "\n", " ", "<B>", "</B>", "<br>", "<br/>", "<title>", "</title>", "\u{e9}", "\u{20ac}", "=\"", "<!doctype svg>", "<!DOCTYPE", "a=b",
    "<script>", "</script>", "<a b=c>", "<a;b>", "</a,>", "\u{a0}", "</br>",
];

/// What torn, lost and corrupted storage makes of a document.
pub fn damaged(t: &mut Tape, s: &str) -> String {
    let mut s = s.to_string();
    for _ in 0..t.weighted(&[0, 6, 2, 1]).max(1) {
        let b = |t: &mut Tape, s: &str| { let mut i = t.usize(s.len() + 1); while !s.is_char_boundary(i) { i -= 1; } i };
        match t.weighted(&[3, 4, 2, 2, 2, 5, 2, 2, 1, 6]) {
            0 => { let at = b(t, &s); s.truncate(at); sched::fault("document_truncated"); }
            1 => { let at = b(t, &s); s.insert_str(at, *t.pick(&SNIPS)); sched::fault("document_bytes_inserted"); }
            2 => {
                // Lost sector.
                let unit = *t.pick(&[1, 4, 16, 64, 512]);
                let k = t.usize(s.len() / unit + 1) * unit;
                let mut a = k.min(s.len());
                let mut z = (k + unit).min(s.len());
                while !s.is_char_boundary(a) { a -= 1; }
                while !s.is_char_boundary(z) { z += 1; }
                s.replace_range(a..z, "");
                sched::fault("document_sector_lost");
            }
            3 => {
                let (mut a, mut z) = (b(t, &s), b(t, &s));
                if a > z { std::mem::swap(&mut a, &mut z); }
                let z = (a + 40).min(z);
                let z = { let mut z = z; while !s.is_char_boundary(z) { z -= 1; } z.max(a) };
                let part = s[a..z].to_string();
                s.insert_str(a, &part);
                sched::fault("document_sector_duplicated");
            }
            4 => {
                let (a, z) = (b(t, &s), b(t, &s));
                let (a, z) = (a.min(z), a.max(z));
                let (head, rest) = s.split_at(a);
                let (mid, tail) = rest.split_at(z - a);
                s = format!("{}{}{}", head, tail, mid);
                sched::fault("document_sectors_swapped");
            }
            5 => {
                // One byte of syntax flips.
                let places: Vec<usize> = s.char_indices().filter(|(_, c)| "<>/\"=!-".contains(*c)).map(|p| p.0).collect();
                if places.is_empty() { continue; }
                let at = *t.pick(&places);
                let with = *t.pick(&["", " ", "x", "<", ">", "/", "\"", "\u{e9}", "!", "="]);
                s.replace_range(at..at + 1, with);
                sched::fault("document_byte_corrupted");
            }
            6 => {
                let at = b(t, &s);
                if at < s.len() && s.as_bytes()[at] < 128 {
                    let c = (s.as_bytes()[at] ^ (1 << t.usize(7))) & 0x7f;
                    s.replace_range(at..at + 1, &(c as char).to_string());
                    sched::fault("document_bit_flipped");
                }
            }
            9 => {
                // A record the size of a tag is lost, or written twice, or written elsewhere.
                let tags: Vec<(usize, usize)> = s.match_indices('<').filter_map(|(a, _)| s[a..].find('>').map(|n| (a, a + n + 1))).collect();
                let closing: Vec<(usize, usize)> = tags.iter().copied().filter(|p| s[p.0..].starts_with("</")).collect();
                let from = if !closing.is_empty() && t.chance(2, 3) { &closing } else { &tags };
                if from.is_empty() { continue }
                let (a, z) = *t.pick(from);
                let tag = s[a..z].to_string();
                match t.usize(3) {
                    0 => { s.replace_range(a..z, ""); sched::fault("document_tag_lost") }
                    1 => { s.insert_str(z, &tag); sched::fault("document_tag_duplicated") }
                    _ => {
                        let to = tags[t.usize(tags.len())].0;
                        s.replace_range(a..z, "");
                        let mut to = to.min(s.len());
                        while !s.is_char_boundary(to) { to -= 1 }
                        s.insert_str(to, &tag);
                        sched::fault("document_tag_moved")
                    }
                }
            }
            8 => {
                // A block that was never written reads as zeros.
                let unit = *t.pick(&[1, 4, 16, 64, 512, 4096]);
                let k = t.usize(s.len() / unit + 1) * unit;
                let mut a = k.min(s.len());
                let mut z = (k + unit).min(s.len());
                while !s.is_char_boundary(a) { a -= 1; }
                while !s.is_char_boundary(z) { z += 1; }
                s.replace_range(a..z, &"\0".repeat(z - a));
                sched::fault("document_sector_zeroed");
            }
            _ => {
                let n = t.range(1, 12);
                let at = b(t, &s);
                let soup: String = (0..n).map(|_| *t.pick(&SNIPS)).collect();
                s.insert_str(at, &soup);
                sched::fault("document_overwritten");
            }
        }
    }
    s
}

fn loc(s: &str, l: &Location, want: usize, or: Option<usize>) -> Check {
    let o = l.offset();
    if o > s.len() || !s.is_char_boundary(o) { return violation("wrong-location", format!("offset {} is not a place in a text of {} bytes: {:?}", o, s.len(), clip(s))); }
    if o != want && Some(o) != or { return violation("wrong-location", format!("located at byte {} instead of {} in {:?}", o, want, clip(s))); }
    let (line, col) = model::line_col(s, o);
    if (l.line(), l.column()) != (line, col) { return violation("wrong-location", format!("byte {} is line {} column {}, reported as line {} column {} in {:?}", o, line, col, l.line(), l.column(), clip(s))); }
    Ok(())
}

/// The real rejection against the reference rejection.
fn same_rejection(s: &str, e: &PErr, r: &ParseError) -> Check {
    let bad = || violation("wrong-rejection", format!("rejected with {:?}, the first problem is {} at {:?} in {:?}", r, e.kind, e.at, clip(s)));
    let name = |got: &str, want: &str| if got == want { Ok(()) } else { violation("wrong-name", format!("{:?} names {:?} instead of {:?} in {:?}", r, got, want, clip(s))) };
    let at = |i: usize| e.at[i].1;
    let mut spoken: Vec<(String, usize)> = Vec::new();
    match (e.kind, r) {
        ("unclosed-comment", ParseError::UnclosedComment { location })
        | ("unclosed-doctype", ParseError::UnclosedDoctype { location })
        | ("expected-closing-identifier", ParseError::ExpectedClosingTagIdentifier { location })
        | ("expected-opening-identifier", ParseError::ExpectedOpeningTagIdentifier { location })
        | ("invalid-closing-identifier", ParseError::InvalidClosingTagIdentifier { location, .. })
        | ("invalid-opening-identifier", ParseError::InvalidOpeningTagIdentifier { location, .. })
        | ("invalid-attribute-identifier", ParseError::InvalidAttributeIdentifier { location, .. }) => loc(s, location, at(0), None)?,
        ("unsupported-doctype", ParseError::UnsupportedDoctype { location, doctype }) => { loc(s, location, at(0), None)?; name(doctype, &e.at[0].0)? }
        ("unfinished-opening", ParseError::ExpectedOpeningTagClose { tag, location })
        | ("unfinished-closing", ParseError::ExpectedClosingTagClose { tag, location }) => {
            loc(s, location, at(0), Some(e.start))?;
            name(tag, &e.at[0].0)?;
            spoken.push((tag.clone(), location.offset()));
        }
        ("unexpected-closing", ParseError::UnexpectedClosingTag { tag, location }) => {
            loc(s, location, at(0), None)?;
            name(tag, &e.at[0].0)?;
            spoken.push((tag.clone(), location.offset()));
        }
        ("mismatched-closing", ParseError::MismatchedClosingTag { opening_tag, opening_location, closing_tag, closing_location }) => {
            loc(s, opening_location, at(0), None)?;
            loc(s, closing_location, at(1), None)?;
            name(opening_tag, &e.at[0].0)?;
            name(closing_tag, &e.at[1].0)?;
            spoken.push((opening_tag.clone(), opening_location.offset()));
            spoken.push((closing_tag.clone(), closing_location.offset()));
        }
        ("invalid-attribute-value", ParseError::InvalidAttributeValue { location, tag, attribute_name })
        | ("unclosed-attribute-value", ParseError::UnclosedAttributeValue { location, tag, attribute_name }) => {
            loc(s, location, at(0), None)?;
            name(tag, &e.at[0].0)?;
            name(attribute_name, &e.at[1].0)?;
            spoken.push((format!("{}.{}", tag, attribute_name), location.offset()));
        }
        ("depth-limit", ParseError::StackLimitExceeded { tag, location, .. }) => { loc(s, location, at(0), None)?; name(tag, &e.at[0].0)? }
        ("missing-closing", ParseError::MissingClosingTags { inner, others }) => {
            loc(s, &inner.1, at(0), None)?;
            name(&inner.0, &e.at[0].0)?;
            let mut got: Vec<(String, usize)> = others.iter().map(|o| (o.0.clone(), o.1.offset())).collect();
            let mut want = e.at[1..].to_vec();
            got.sort();
            want.sort();
            if got != want { return violation("wrong-names", format!("also unclosed {:?} instead of {:?} in {:?}", got, want, clip(s))); }
            for o in others { loc(s, &o.1, o.1.offset(), None)?; }
            spoken.push((inner.0.clone(), inner.1.offset()));
        }
        _ => return bad(),
    }
    if let ParseError::InvalidOpeningTagIdentifier { identifier_error, .. } | ParseError::InvalidClosingTagIdentifier { identifier_error, .. } | ParseError::InvalidAttributeIdentifier { identifier_error, .. } = r {
        let i = at(0);
        let w: &str = s[i..].split([' ', '\t', '\r', '\n', '>', '<', '"', '/', '=', '\'', '&']).next().unwrap_or("");
        let want = w.parse::<html5_fuser::text::Identifier>().err();
        if want.as_ref() != Some(identifier_error) { return violation("wrong-reason", format!("{:?}, but {:?} is {:?}", r, w, want)); }
    }
    // The message names, next to each place, what is at that place.
    let msg = r.to_string();
    for (n, o) in spoken {
        let mark = format!("(byte offset {})", o);
        match msg.find(&mark) {
            None => return violation("message-without-location", format!("{:?} does not give byte {}", msg, o)),
            Some(i) => {
                let quoted: Vec<&str> = msg[..i].split('\'').collect();
                let near = if quoted.len() >= 3 { quoted[quoted.len() - 2] } else { "" };
                if near != n { return violation("wrong-message", format!("{:?} names {:?} at byte {}, which is {:?}", msg, near, o, n)); }
                if let ParseError::MissingClosingTags { others, .. } = r {
                    // And behind it, the other tags left open.
                    let mut got: Vec<&str> = msg[i..].split('\'').skip(1).step_by(2).collect();
                    let mut want: Vec<&str> = others.iter().map(|o| &o.0[..]).collect();
                    got.sort();
                    want.sort();
                    if got != want { return violation("wrong-message", format!("{:?} names {:?} as unclosed as well, which are {:?}", msg, got, want)); }
                }
            }
        }
    }
    Ok(())
}

/// Every location an error carries, whatever its kind.
pub fn judge_parse(s: &str, r: &Result<Template, InputError>, depth: Option<usize>) -> Check {
    match (model::parse(s, depth), r) {
        (Ok(n), Ok(t)) => {
            let mut want = Vec::new();
            model::events(&n, &mut want);
            let got = merged(&raw_events(t));
            if got != want {
                let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                return violation("misread", format!("part {}: got {:?}, the text has {:?} in {:?}", k, got.get(k), want.get(k), clip(s)));
            }
            sched::probe("accepted");
            Ok(())
        }
        (Err(e), Ok(t)) => violation("accepted-broken", format!("accepted as {:?}, but {} at {:?} in {:?}", clip(&t.to_string()), e.kind, e.at, clip(s))),
        (Ok(_), Err(e)) => violation("rejected-complete", format!("{:?} for {:?}", e, clip(s))),
        (Err(e), Err(InputError::Parse { error })) => {
            sched::probe(rejection_probe(e.kind));
            same_rejection(s, &e, error)
        }
        (Err(_), Err(e)) => violation("wrong-rejection", format!("{:?} for {:?}", e, clip(s))),
    }
}

fn rejection_probe(k: &'static str) -> &'static str { k }

pub fn c04(t: &mut Tape) -> Check {
    let mut s = if t.chance(1, 6) {
        (0..t.range(1, 14)).map(|_| *t.pick(&SNIPS)).collect::<String>()
    } else {
        let d = if t.chance(1, 10) { sized_doc(t) } else { gen_doc(t, 14) };
        if t.chance(1, 8) { d } else { damaged(t, &d) }
    };
    if t.chance(1, 3) { s = s.replace(' ', *t.pick(&["\n", " \n ", "\r\n", "\t", "\u{a0}", "\u{2003}", "\r", "\u{c}", "\u{b}", " \u{85}", "\n\r", "\u{2028}"])); }
    if t.chance(1, 250) {
        // Far down, or far to the right.
        let n = match t.usize(3) { 0 => *t.pick(&[255, 256, 65_535, 65_536, 65_537]), 1 => t.range(2, 300), _ => t.range(60_000, 140_000) };
        let unit = *t.pick(&["\n", "\n", "\r\n", " ", "x", "\u{e9}", "x\n"]);
        let mut at = if t.chance(1, 2) { 0 } else { t.usize(s.len() + 1) };
        while !s.is_char_boundary(at) { at -= 1 }
        s.insert_str(at, &unit.repeat(n));
        sched::probe("far_down");
    }
    let depth = if t.chance(1, 10) { Some(t.usize(5)) } else { None };
    let r = Template::from_str(&s, opts(t, depth, None));
    judge_parse(&s, &r, depth)?;
    sched::observe(s.as_bytes());
    // The same damage met while loading, cut anywhere.
    if t.chance(1, 3) {
        let mut bytes = s.clone().into_bytes();
        if t.chance(1, 2) { let at = t.usize(bytes.len() + 1); bytes.truncate(at); sched::fault("file_torn"); }
        let f = disk::create("damaged.html", bytes.clone());
        disk::plan(&f, load_plan(t, bytes.len(), false));
        let r = Template::from_file(&f.path, opts(t, depth, None));
        disk::take_opens();
        match (std::str::from_utf8(&bytes), r) {
            (Ok(s), Ok(t)) => judge_parse(s, &Ok(t), depth)?,
            (Ok(s), Err(FileError::Input { error, .. })) => judge_parse(s, &Err(error), depth)?,
            (Err(_), Err(FileError::Decode { .. })) => (),
            (_, r) => return violation("wrong-rejection", format!("damaged file: {:?}", r.map(|t| clip(&t.to_string())))),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C05

/// Writes bytes to the simulated disk through a sink with short writes and interruptions.
struct DiskSink { buf: Vec<u8>, sizes: Vec<usize>, i: usize, fail_at: Option<usize>, failed: bool, after: bool, flushes: u64 }

impl std::io::Write for DiskSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        sched::yield_point("write", b.len() as u64);
        if self.failed { self.after = true; }
        let n = if self.sizes.is_empty() { b.len() } else { let n = self.sizes[self.i % self.sizes.len()]; self.i += 1; n };
        if n == 0 && !b.is_empty() {
            sched::fault("write_eintr");
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = n.min(b.len());
        if n < b.len() { sched::fault("short_write"); }
        if let Some(at) = self.fail_at {
            if self.buf.len() >= at && !b.is_empty() {
                sched::fault("write_error");
                self.failed = true;
                return Err(std::io::Error::from_raw_os_error(28));
            }
            n = n.min(at - self.buf.len());
        }
        self.buf.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { self.flushes += 1; Ok(()) }
}

fn sizes(t: &mut Tape, len: usize) -> Vec<usize> {
    let v: Vec<usize> = match t.weighted(&[2, 3, 3]) {
        0 => vec![],
        1 => (0..t.range(1, 4)).map(|_| t.range(1, 9)).collect(),
        _ => { let mut v: Vec<usize> = (0..t.range(1, 5)).map(|_| t.range(0, 40)).collect(); v.push(t.range(1, 20)); v }
    };
    // Long documents in proportionally larger pieces.
    v.into_iter().map(|n| n * (1 + len / 5000)).collect()
}

pub fn c05(t: &mut Tape) -> Check {
    let s = if t.chance(1, 6) { sized_doc(t) } else { gen_doc(t, 18) };
    let s = if t.chance(1, 5) { damaged(t, &s) } else { s };
    let nodes = match model::parse(&s, None) { Ok(n) => n, Err(_) => { sched::probe("not_a_document"); return Ok(()) } };
    let mut cur = match Template::from_str(&s, ParseOptions::default()) { Ok(t) => t, Err(_) => { sched::probe("not_accepted"); return Ok(()) } };
    let mut want = Vec::new();
    model::events(&nodes, &mut want);
    let got = merged(&raw_events(&cur));
    if got != want {
        let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return violation("not-preserved", format!("part {}: got {:?}, the text has {:?} in {:?}", k, got.get(k), want.get(k), clip(&s)));
    }
    let full = model::render(&nodes);
    let mut text = cur.to_string();
    if text != full { return violation("not-verbatim", format!("rendered as {:?}, expected {:?}", clip(&text), clip(&full))); }
    let first = cur.clone();
    let file = disk::create("saved.html", Vec::new());
    for _ in 0..t.range(1, 5) {
        // Save; an interrupted save leaves a torn file and is done again.
        let mut attempts = 0;
        loop {
            use std::io::Write;
            let fail_at = if attempts < 2 && t.chance(1, 3) { Some(t.usize(text.len() + 1)) } else { None };
            let mut sink = DiskSink { buf: vec![], sizes: sizes(t, text.len()), i: 0, fail_at, failed: false, after: false, flushes: 0 };
            sched::allow(4_000_000 + 8 * text.len() as u64);
            let r = write!(sink, "{}", cur);
            attempts += 1;
            let failed = sink.failed;
            let buf = sink.buf;
            disk::overwrite(&file, buf.clone());
            if r.is_ok() && failed { return violation("failure-swallowed", "saving reported success although a write failed"); }
            if r.is_ok() {
                if buf != text.as_bytes() { return violation("saved-differs", format!("saved {:?}, expected {:?}", clip(&String::from_utf8_lossy(&buf)), clip(&text))); }
                break;
            }
            if !failed { return violation("save-failed", "saving failed although no write did"); }
            sched::probe("torn_save_retried");
            // A reader that meets the torn file never sees the whole document in it.
            disk::plan(&file, load_plan(t, buf.len(), false));
            if let Ok(x) = Template::from_file(&file.path, ParseOptions::default()) {
                if x == cur && buf != text.as_bytes() && x.to_string().as_bytes() != &buf[..] { return violation("torn-save-misread", format!("{} of {} bytes were saved, but the whole document was loaded", buf.len(), text.len())); }
            }
            disk::take_opens();
        }
        disk::plan(&file, load_plan(t, text.len(), false));
        let again = Template::from_file(&file.path, ParseOptions::default());
        disk::take_opens();
        let direct = Template::from_str(&text, ParseOptions::default());
        match (&again, &direct) {
            (Ok(a), Ok(b)) => {
                if *b != cur { return violation("reparse-differs", format!("parsing {:?} gives a different template", clip(&text))); }
                if *a != cur { return violation("reload-differs", format!("loading {:?} gives a different template", clip(&text))); }
            }
            (a, b) => return violation("not-reloadable", format!("{:?} / {:?} for {:?}", a.as_ref().err(), b.as_ref().err(), clip(&text))),
        }
        cur = again.unwrap();
        let t2 = cur.to_string();
        if t2 != text { return violation("generation-differs", format!("{:?} became {:?}", clip(&text), clip(&t2))); }
        text = t2;
        sched::probe("generation");
    }
    if cur != first { return violation("generation-differs", "the last generation is not equal to the first"); }
    sched::observe(text.as_bytes());
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C06

struct FmtSink { out: String, calls: usize, fail_call: Option<usize>, fail_at: Option<usize>, failed: bool, after: bool }

impl std::fmt::Write for FmtSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        sched::yield_point("write", s.len() as u64);
        self.calls += 1;
        if self.failed { self.after = true; sched::trace(|| format!("write of {:?} after the failure", s)); }
        if self.fail_call == Some(self.calls) { self.failed = true; sched::fault("sink_error"); return Err(std::fmt::Error); }
        if let Some(at) = self.fail_at {
            if self.out.len() + s.len() > at {
                let mut k = at - self.out.len().min(at);
                while !s.is_char_boundary(k) { k -= 1; }
                self.out.push_str(&s[..k]);
                self.failed = true;
                sched::fault("sink_full");
                return Err(std::fmt::Error);
            }
        }
        self.out.push_str(s);
        Ok(())
    }
}

fn prefix(out: &[u8], full: &str, failed: bool, ok: bool, after: bool) -> Check {
    if after { return violation("write-after-failure", "the sink was written to after it had failed"); }
    if failed && ok { return violation("failure-swallowed", "rendering reported success although the sink failed"); }
    if !failed && !ok { return violation("spurious-failure", "rendering failed although the sink did not"); }
    if !full.as_bytes().starts_with(out) {
        return violation("not-a-prefix", format!("wrote {:?}, the rendering is {:?}", clip(&String::from_utf8_lossy(out)), clip(full)));
    }
    if ok && out.len() != full.len() { return violation("incomplete", format!("{} of {} bytes were written", out.len(), full.len())); }
    Ok(())
}

pub fn c06(t: &mut Tape) -> Check {
    let s = if t.chance(1, 8) { sized_doc(t) } else { gen_doc(t, 16) };
    let tpl = match Template::from_str(&s, ParseOptions::default()) { Ok(t) => t, Err(_) => { sched::probe("not_accepted"); return Ok(()) } };
    // Also render what a transform produced.
    let kind = t.usize(4);
    let tpl = match kind {
        1 => tpl.transform(|h| h.select("b", |h| h.set_attribute_with_value("x", "1\"<").append_contents("y&z"))).unwrap_or(tpl),
        2 => tpl.transform(|h| h.select("a", |h| h.repeat(0..3, |h, i| h.prepend_contents(i)))).unwrap_or(tpl),
        _ => tpl,
    };
    // The same bytes, seen event by event.
    let full: String = raw_events(&tpl).into_iter().map(|e| e.1).collect();
    let before = raw_events(&tpl);
    let tpl = Rc::new(tpl);
    let mut allowed = 0;
    let mut clients: Vec<Box<dyn FnOnce() -> Check>> = Vec::new();
    for _ in 0..t.range(1, 3) {
        let mut jobs = Vec::new();
        let mut n = t.range(1, 5);
        // Now and then again and again.
        if s.len() < 300 && t.chance(1, 150) { n = t.range(60, 300); sched::probe("many_renderings"); }
        for _ in 0..n {
            let io = t.chance(1, 2);
            let fail_call = if t.chance(1, 3) { Some(t.range(1, 30)) } else { None };
            let fail_at = if t.chance(1, 3) { Some(t.usize(full.len() + 2)) } else { None };
            jobs.push((io, fail_call, fail_at, sizes(t, full.len()), t.chance(1, 4)));
        }
        let (tpl, full) = (tpl.clone(), full.clone());
        allowed += 4_000_000 + 8 * (jobs.len() * full.len()) as u64;
        clients.push(Box::new(move || {
            for (io, fail_call, fail_at, sizes, zero) in jobs {
                if io {
                    use std::io::Write;
                    if zero && fail_at.is_some() {
                        // A sink that accepts nothing any more.
                        struct Full(Vec<u8>, usize, bool, bool);
                        impl std::io::Write for Full {
                            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                                sched::yield_point("write", 0);
                                if self.2 { self.3 = true; }
                                let n = b.len().min(self.1 - self.0.len());
                                if n == 0 && !b.is_empty() { self.2 = true; sched::fault("sink_accepts_nothing"); }
                                self.0.extend_from_slice(&b[..n]);
                                Ok(n)
                            }
                            fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
                        }
                        let mut f = Full(vec![], fail_at.unwrap(), false, false);
                        let r = write!(f, "{}", tpl);
                        prefix(&f.0, &full, f.2, r.is_ok(), f.3)?;
                        if f.2 && f.0.len() != full.len().min(f.1) { return violation("not-a-prefix", "room was left in the sink"); }
                    } else {
                        let mut d = DiskSink { buf: vec![], sizes, i: 0, fail_at, failed: false, after: false, flushes: 0 };
                        let r = write!(d, "{}", tpl);
                        prefix(&d.buf, &full, d.failed, r.is_ok(), d.after)?;
                        if d.failed { if let Err(e) = r { if e.raw_os_error() != Some(28) { return violation("wrong-failure", format!("{:?}", e)); } } }
                    }
                } else {
                    use std::fmt::Write;
                    let mut f = FmtSink { out: String::new(), calls: 0, fail_call, fail_at, failed: false, after: false };
                    let r = write!(f, "{}", tpl);
                    prefix(f.out.as_bytes(), &full, f.failed, r.is_ok(), f.after)?;
                }
                if tpl.to_string() != full { return violation("retry-differs", format!("a later rendering gives {:?} instead of {:?}", clip(&tpl.to_string()), clip(&full))); }
            }
            Ok(())
        }));
    }
    if t.chance(1, 3) {
        let tpl = tpl.clone();
        let n = t.range(1, 4);
        clients.push(Box::new(move || {
            for _ in 0..n {
                sched::yield_point("transform", 0);
                let _ = tpl.transform(|h| h.select("b", |h| h.remove()).append("other"));
            }
            Ok(())
        }));
    }
    sched::allow(allowed);
    run_all(clients)?;
    if raw_events(&tpl) != before { return violation("template-changed", "rendering changed the template"); }
    sched::observe(full.as_bytes());
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C16: text through insertion, storage and reload

pub fn c16(t: &mut Tape) -> Check {
    use html5_fuser::text::{Data, Value};
    let base = gen_doc(t, 8);
    let host = format!("{}<p class=\"k&amp;\">&lt;old&amp;amp;</p><q-q z=\"&amp;lt;\"><i-i></i-i><i-i/></q-q>{}", base, *t.pick(&["", "t&amp;"]));
    let tpl = match Template::from_str(&host, ParseOptions::default()) { Ok(x) => x, Err(_) => { sched::probe("not_accepted"); return Ok(()) } };
    let texts: Vec<&'static str> = (0..3).map(|_| {
        let mut s = gen::payload(t, true);
        for _ in 0..t.usize(4) { s.push(*t.pick(&['<', '>', '&', '"', '\'', 'x', ';', '\n', '\u{e9}', '\u{20ac}', '\u{1F600}', '\t', '#', '=', '/'])); }
        if t.chance(1, 40) { s = s.repeat(t.range(500, 3000).min(1 + 100_000 / (s.len() + 1))); }
        gen::intern(&s)
    }).collect();
    let (a, b, c) = (texts[0], texts[1], texts[2]);
    let how = t.usize(6);
    let vhow = t.usize(4);
    let join = t.usize(4);
    let r = tpl.transform(|h| h
        .select("q-q", |h| {
            let h = match vhow {
                0 => h.set_attribute_with_value("v", b).into_boxed_element(),
                1 => h.add_attribute_with_value("v", Value::from_unencoded_str(b)).into_boxed_element(),
                2 => h.set_attribute("v", Some(Value::from_unencoded_static_str(b))).into_boxed_element(),
                _ => h.set_empty_attribute("v").replace_attribute_value_if_exists("v", b).into_boxed_element(),
            };
            let h = match join {
                0 => h.add_to_attribute("z", c, " ").into_boxed_element(),
                1 => h.add_to_attribute("z", Value::from_unencoded_str(c), Value::from_unencoded_str("<\"&>")).into_boxed_element(),
                2 => h.add_to_attribute("z", c, "").add_to_attribute("z", b, "&").into_boxed_element(),
                _ => h.add_to_attribute("new", c, " ").into_boxed_element(),
            };
            h.subselect("i-i", |h| match how {
                0 => h.replace_contents(a).into_boxed(),
                1 => h.replace_contents(Data::from_unencoded_str(a)).into_boxed(),
                2 => h.append_contents(Data::from_unencoded_static_str(a)).into_boxed(),
                3 => h.prepend_contents(Value::from_unencoded_str(a)).into_boxed(),
                4 => h.replace_contents(Ok::<_, html5_fuser::event::StreamError>(Value::from_unencoded_static_str(a))).into_boxed(),
                _ => h.apply_with_option(Some(a), |h, v| h.replace_contents(v), |h| h.replace_contents("")).into_boxed(),
            })
        })
    );
    let out = match r { Ok(t) => t, Err(e) => return violation("insertion-failed", format!("{:?}", e)) };
    let mut cur = out;
    let host_nodes = match trans::tree(&raw_events(&tpl)) { Ok(n) => n, Err(_) => return Ok(()) };
    let file = disk::create("enc.html", Vec::new());
    for generation in 0..t.range(1, 3) {
        let text = cur.to_string();
        disk::overwrite(&file, text.clone().into_bytes());
        disk::plan(&file, load_plan(t, text.len(), false));
        let again = Template::from_file(&file.path, ParseOptions::default());
        disk::take_opens();
        let again = match again { Ok(x) => x, Err(e) => return violation("introduces-markup", format!("inserted {:?}: generation {} of {:?} cannot be loaded: {:?}", texts, generation, clip(&text), e)) };
        let nodes = match trans::tree(&raw_events(&again)) { Ok(n) => n, Err(e) => return violation("introduces-markup", e) };
        check_encoded(&host_nodes, &nodes, a, b, c, join, &text)?;
        cur = again;
        sched::probe("encoded_generation");
    }
    sched::observe(cur.to_string().as_bytes());
    Ok(())
}

fn check_encoded(host: &[Node], got: &[Node], a: &str, b: &str, c: &str, join: usize, text: &str) -> Check {
    let host = model::normalize(host);
    let got = model::normalize(got);
    if host.len() != got.len() { return violation("introduces-markup", format!("{} top-level parts became {} in {:?}", host.len(), got.len(), clip(text))); }
    for (h, g) in host.iter().zip(&got) {
        match (h, g) {
            (Node::Elem { tag: ht, children: hc, .. }, Node::Elem { tag: gt, children: gc, .. }) if ht.name == "q-q" && gt.name == "q-q" => {
                let attr = |n: &str| gt.attrs.iter().filter(|x| x.0 == n).map(|x| x.1.clone()).collect::<Vec<_>>();
                let one = |n: &str, want: String| -> Check {
                    match &attr(n)[..] {
                        [Some(v)] if model::decode(v) == want => Ok(()),
                        x => violation("value-differs", format!("attribute {} is {:?}, decodes to something other than {:?}", n, x, want)),
                    }
                };
                one("v", b.to_string())?;
                let old = "&lt;";
                match join {
                    0 => one("z", format!("{} {}", old, c))?,
                    1 => one("z", format!("{}<\"&>{}", old, c))?,
                    2 => one("z", format!("{}{}&{}", old, c, b))?,
                    _ => { one("z", old.to_string())?; one("new", c.to_string())? }
                }
                if join != 3 && gt.attrs.len() != 2 || join == 3 && gt.attrs.len() != 3 { return violation("introduces-markup", format!("attributes {:?}", gt.attrs)); }
                if hc.len() != gc.len() { return violation("introduces-markup", format!("children {:?}", gc)); }
                for x in gc {
                    match x {
                        Node::Elem { tag, children, .. } if tag.name == "i-i" && tag.attrs.is_empty() => {
                            let inner = match &children[..] { [] => String::new(), [Node::Text(s)] => s.clone(), _ => return violation("introduces-markup", format!("inserting {:?} produced {:?}", a, children)) };
                            if model::decode(&inner) != a { return violation("text-differs", format!("inserted {:?}, decoded {:?} from {:?}", a, model::decode(&inner), inner)); }
                        }
                        other => return violation("introduces-markup", format!("{:?}", other)),
                    }
                }
            }
            _ => if h != g { return violation("template-text-changed", format!("{:?} became {:?}", h, g)); }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C13: loads, stores and renderings in flight at once

/// Names related the way a sloppy comparison or a shared scratch space would confuse them.
fn ident_word(t: &mut Tape) -> &'static str {
    *t.pick(&["b", "B", "q-q", "", "a b", "\u{e9}", "x=1", "a\"b", "a/b", "a;b", "data-x", "Data-X", "a&b", "a,b", "x\u{a0}y"])
}

#[derive(Clone)]
enum LoadOp { Str(usize, Option<usize>, Option<usize>, ParseOptions), Buffer(usize, usize, Option<usize>, ParseOptions, ParseOptions), File(usize, Option<usize>, Option<usize>, ParseOptions, LoadPlan), Render(usize), Encode(&'static str, bool), Ident(&'static str, bool), Noop(usize), Fail(usize), Change(usize, &'static str), Drop(usize) }

/// What one load gives, by itself.
fn alone(s: &str, r: &Result<Template, InputError>, depth: Option<usize>, len: Option<usize>) -> Check {
    if let Some(l) = len {
        if s.len() > l {
            if !is_limit(r, l) { return violation("load-influenced", format!("{} bytes with length limit {} gave {:?}", s.len(), l, r.as_ref().map(|t| clip(&t.to_string())))); }
            return Ok(());
        }
    }
    judge_parse(s, r, depth).map_err(|v| Violation { class: format!("load-influenced-{}", v.class), detail: format!("depth limit {:?}, length limit {:?}: {}", depth, len, v.detail) })
}

pub fn c13(t: &mut Tape) -> Check {
    use html5_fuser::text::{Data, Identifier, Value};
    let mut texts: Vec<String> = Vec::new();
    for _ in 0..t.range(1, 3) {
        let s = gen_doc(t, 6);
        let mut v = vec![s.clone()];
        if t.chance(1, 2) { v.push(damaged(t, &s)); }
        if t.chance(1, 3) { v.push(s.to_ascii_uppercase()); }
        if t.chance(1, 3) && s.is_ascii() && !s.is_empty() {
            // As long as the other, and the same at both ends.
            let mut b = s.clone().into_bytes();
            let at = b.len() / 2;
            b[at] = if b[at] == b'x' { b'y' } else { b'x' };
            v.push(String::from_utf8(b).unwrap());
        }
        texts.extend(v);
    }
    let n = texts.len();
    let files: Vec<Rc<SimFile>> = texts.iter().enumerate().map(|(i, s)| disk::create(&format!("s{}.html", i), s.clone().into_bytes())).collect();
    let limits = |t: &mut Tape, s: &str| {
        let depth = if t.chance(1, 2) { Some(t.usize(5)) } else { None };
        let len = if t.chance(1, 4) { Some((s.len() + t.usize(3)).saturating_sub(1)) } else { None };
        (depth, len, opts(t, depth, len))
    };
    let mut clients: Vec<Box<dyn FnOnce() -> Check>> = Vec::new();
    let mut programs: Vec<Vec<LoadOp>> = Vec::new();
    for _ in 0..t.range(2, 4) {
        let mut ops = Vec::new();
        for _ in 0..t.range(2, 8) {
            let i = t.usize(n);
            ops.push(match t.weighted(&[8, 3, 4, 3, 3, 2, 2, 2, 2, 1]) {
                0 => { let (d, l, o) = limits(t, &texts[i]); LoadOp::Str(i, d, l, o) }
                1 => { let d = if t.chance(1, 2) { Some(t.usize(5)) } else { None }; LoadOp::Buffer(i, t.usize(n), d, opts(t, None, None), opts(t, d, None)) }
                2 => { let (d, l, o) = limits(t, &texts[i]); LoadOp::File(i, d, l, o, load_plan(t, texts[i].len(), false)) }
                3 => LoadOp::Render(t.usize(8)),
                4 => LoadOp::Encode(gen::intern(&gen::payload(t, true)), t.chance(1, 2)),
                5 => LoadOp::Ident(ident_word(t), t.chance(1, 2)),
                6 => LoadOp::Noop(t.usize(8)),
                7 => LoadOp::Fail(t.usize(8)),
                8 => LoadOp::Change(t.usize(8), gen::intern(&gen::payload(t, true))),
                _ => LoadOp::Drop(t.usize(8)),
            });
        }
        programs.push(ops);
    }
    for s in &texts { sched::observe(s.as_bytes()); }
    let texts = Rc::new(texts);
    let shared: Rc<RefCell<Vec<(Template, String)>>> = Rc::new(RefCell::new(Vec::new()));
    for ops in programs {
        let (texts, files, shared) = (texts.clone(), files.clone(), shared.clone());
        clients.push(Box::new(move || {
            let mut kept: Vec<(Template, Vec<(&'static str, String)>)> = Vec::new();
            let mut words: Vec<(Value, Data, &'static str)> = Vec::new();
            let pick = |kept: &Vec<(Template, Vec<(&'static str, String)>)>, k: usize| -> Option<(Template, String)> {
                let s = shared.borrow();
                if k % 2 == 1 && !s.is_empty() { return Some(s[k % s.len()].clone()); }
                kept.get(k % kept.len().max(1)).map(|k| (k.0.clone(), k.0.to_string()))
            };
            for op in ops {
                sched::yield_point("between", 0);
                match op {
                    LoadOp::Str(i, d, l, o) => {
                        let r = Template::from_str(&texts[i], o);
                        alone(&texts[i], &r, d, l)?;
                        sched::probe("load_in_flight");
                        if let Ok(x) = r {
                            let text = x.to_string();
                            shared.borrow_mut().push((x.clone(), text));
                            let ev = raw_events(&x);
                            kept.push((x, ev));
                        }
                    }
                    LoadOp::Buffer(i, j, d, o, o2) => {
                        // The same place in memory, with other content the second time.
                        let mut buf = String::with_capacity(texts[i].len().max(texts[j].len()));
                        buf.push_str(&texts[i]);
                        let first = Template::from_str(&buf, o);
                        alone(&buf, &first, None, None)?;
                        sched::yield_point("buffer", 0);
                        buf.clear();
                        buf.push_str(&texts[j]);
                        let r = Template::from_str(&buf, o2);
                        alone(&buf, &r, d, None)?;
                        drop(buf);
                        sched::probe("buffer_reused");
                        if let Ok(x) = first { alone(&texts[i], &Ok(x), None, None)?; }
                        if let Ok(x) = r { let ev = raw_events(&x); kept.push((x, ev)); }
                    }
                    LoadOp::File(i, d, l, o, p) => {
                        disk::plan(&files[i], p);
                        let r = Template::from_file(&files[i].path, o);
                        let (h, _) = disk::take_opens();
                        released(&h)?;
                        let r = match r {
                            Ok(x) => Ok(x),
                            Err(FileError::Input { path, error }) => {
                                if path != files[i].path { return violation("load-influenced", format!("error names {:?} instead of {:?}", path, files[i].path)); }
                                Err(error)
                            }
                            Err(e) => return violation("load-influenced", format!("{:?}", e)),
                        };
                        alone(&texts[i], &r, d, l)?;
                        sched::probe("file_load_in_flight");
                        if let Ok(x) = r { let ev = raw_events(&x); kept.push((x, ev)); }
                    }
                    LoadOp::Render(k) => if let Some((x, want)) = pick(&kept, k) {
                        use std::fmt::Write;
                        let mut f = FmtSink { out: String::new(), calls: 0, fail_call: None, fail_at: None, failed: false, after: false };
                        let ok = write!(f, "{}", x).is_ok();
                        if !ok || f.out != want { return violation("rendering-influenced", format!("{:?} instead of {:?}", clip(&f.out), clip(&want))); }
                        sched::probe("rendering_in_flight");
                    },
                    LoadOp::Encode(w, owned) => {
                        let (v, d) = if owned { (Value::from_unencoded_str(w), Data::from_unencoded_str(w)) } else { (Value::from_unencoded_static_str(w), Data::from_unencoded_static_str(w)) };
                        words.push((v, d, w));
                    }
                    LoadOp::Ident(w, fixed) => {
                        let r = if fixed { Identifier::from_static_str(w) } else { w.to_string().parse::<Identifier>() };
                        match (&r, model::ident_error(w)) {
                            (Ok(i), None) if &**i == w => (),
                            (Err(_), Some(_)) => (),
                            (r, _) => return violation("name-influenced", format!("{:?} gave {:?}", w, r)),
                        }
                    }
                    LoadOp::Noop(k) => if let Some((x, want)) = pick(&kept, k) {
                        let r = x.transform(|h| { sched::yield_point("builder", 0); h });
                        match r { Ok(r) if r == x && r.to_string() == want => (), r => return violation("transform-influenced", format!("{:?} became {:?}", clip(&want), r.map(|r| clip(&r.to_string())))) }
                    },
                    LoadOp::Fail(k) => if let Some((x, want)) = pick(&kept, k) {
                        let r = x.transform(|h| { sched::yield_point("builder", 0); h.append(Err::<Value, _>(html5_fuser::event::StreamError::from("".parse::<Identifier>().unwrap_err()))) });
                        if r.is_ok() { return violation("transform-influenced", "a failing transform succeeded"); }
                        sched::fault("value_error_between_loads");
                        if x.to_string() != want { return violation("template-changed", format!("{:?} became {:?}", clip(&want), clip(&x.to_string()))); }
                    },
                    LoadOp::Change(k, w) => if let Some((x, want)) = pick(&kept, k) {
                        let r = x.transform(|h| h.append(w));
                        match r {
                            Ok(ref r) => {
                                let full = format!("{}{}", want, model::encode(w));
                                if r.to_string() != full { return violation("transform-influenced", format!("{:?} instead of {:?}", clip(&r.to_string()), clip(&full))); }
                            }
                            Err(e) => return violation("transform-influenced", format!("{:?}", e)),
                        }
                        if x.to_string() != want { return violation("template-changed", format!("{:?} became {:?}", clip(&want), clip(&x.to_string()))); }
                    },
                    LoadOp::Drop(k) => {
                        if k % 2 == 1 { shared.borrow_mut().pop(); }
                        else if !kept.is_empty() { let k = k % kept.len(); kept.remove(k); }
                    }
                }
            }
            for (v, d, w) in words {
                let want = model::encode(w);
                let (v, d): (String, String) = (v.as_encoded_ref().to_string(), d.as_encoded_ref().to_string());
                if model::decode(&v) != w || model::decode(&d) != w { return violation("value-influenced", format!("{:?} is encoded as {:?} / {:?} instead of {:?}", w, v, d, want)); }
            }
            for (x, before) in kept {
                if raw_events(&x) != before { return violation("template-changed", format!("a template became {:?}", clip(&x.to_string()))); }
            }
            Ok(())
        }));
    }
    run_all(clients)?;
    for (x, text) in shared.borrow().iter() {
        if x.to_string() != *text { return violation("template-changed", format!("{:?} became {:?}", clip(text), clip(&x.to_string()))); }
    }
    Ok(())
}
