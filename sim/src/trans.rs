//! Transform scenarios: clients running programs over shared templates, judged against the
//! reference interpreter.

use crate::alloc;
use crate::disk;
use crate::gen::{self, DocCfg, Gen, Prof, SiteKind};
use crate::model::{self, Ev, Node, Tag};
use crate::prog::*;
use crate::sched::{self, violation, Check, Violation};
use crate::tape::Tape;
use html5_fuser::event::{IntoStream, Stream};
use html5_fuser::text::{Data, Value};
use html5_fuser::{ParseOptions, Template};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

// ---------------------------------------------------------------------------------------------
// Real templates as model documents

fn parse_tag(s: &str) -> Option<Tag> {
    let (name, mut rest) = match s.find(' ') { Some(i) => (&s[..i], &s[i..]), None => (s, "") };
    let mut attrs = Vec::new();
    while !rest.is_empty() {
        rest = rest.strip_prefix(' ')?;
        let e = rest.find([' ', '=']).unwrap_or(rest.len());
        let name = rest[..e].to_string();
        rest = &rest[e..];
        let mut value = None;
        if let Some(r) = rest.strip_prefix("=\"") {
            let e = r.find('"')?;
            value = Some(r[..e].to_string());
            rest = &r[e + 1..];
        }
        attrs.push((name, value));
    }
    Some(Tag { name: name.to_string(), attrs })
}

/// The raw event sequence of a template.
pub fn raw_events(t: &Template) -> Vec<Ev> {
    let mut s = t.into_stream();
    let mut out = Vec::new();
    while let Ok(Some(e)) = s.next_event() { out.push((e.description(), e.to_string())); }
    out
}

pub fn merged(evs: &[Ev]) -> Vec<Ev> {
    let mut out = Vec::new();
    for (k, t) in evs { model::push_ev(&mut out, k, t.clone()); }
    out
}

/// The tree an event sequence spells; `Err` names what is wrong with it.
pub fn tree(evs: &[Ev]) -> Result<Vec<Node>, String> {
    let mut stack: Vec<(Tag, Vec<Node>)> = Vec::new();
    let mut cur = Vec::new();
    for (k, s) in evs {
        let bad = || format!("cannot read event {} {:?}", k, s);
        match *k {
            "doctype" => cur.push(Node::Doctype(s.strip_prefix("<!doctype ").and_then(|s| s.strip_suffix('>')).ok_or_else(bad)?.to_string())),
            "comment" => cur.push(Node::Comment(s.strip_prefix("<!--").and_then(|s| s.strip_suffix("-->")).ok_or_else(bad)?.to_string())),
            "content" => cur.push(Node::Text(s.clone())),
            "raw content" => cur.push(Node::Raw(s.clone())),
            "void tag" => cur.push(Node::Void(s.strip_prefix('<').and_then(|s| s.strip_suffix('>')).and_then(parse_tag).ok_or_else(bad)?)),
            "self-closed tag" => cur.push(Node::SelfClosed(s.strip_prefix('<').and_then(|s| s.strip_suffix(" />")).and_then(parse_tag).ok_or_else(bad)?)),
            "opening tag" => {
                let t = s.strip_prefix('<').and_then(|s| s.strip_suffix('>')).and_then(parse_tag).ok_or_else(bad)?;
                if model::is_void(&t.name) { return Err(format!("opening tag event for void element {}", t.name)); }
                stack.push((t, std::mem::take(&mut cur)));
            }
            "closing tag" => {
                let close = s.strip_prefix("</").and_then(|s| s.strip_suffix('>')).ok_or_else(bad)?.to_string();
                match stack.pop() {
                    None => return Err(format!("closing tag {} without an open element", close)),
                    Some((tag, outer)) => {
                        if !model::ident_eq(&tag.name, &close) { return Err(format!("element {} closed by {}", tag.name, close)); }
                        let children = std::mem::replace(&mut cur, outer);
                        cur.push(Node::Elem { tag, children, close });
                    }
                }
            }
            other => return Err(format!("stray {} event {:?}", other, s)),
        }
    }
    if let Some((t, _)) = stack.pop() { return Err(format!("element {} is never closed", t.name)); }
    Ok(cur)
}

/// What a tree looks like after rendering and parsing; `None` where that is not determined
/// (markup inserted into a raw text element that would close it early).
pub fn reparsed(nodes: &[Node]) -> Option<Vec<Node>> {
    let mut out: Vec<Node> = Vec::new();
    for n in nodes {
        match n {
            Node::Text(t) => {
                if t.is_empty() { continue; }
                if let Some(Node::Text(l)) = out.last_mut() { l.push_str(t); continue; }
                out.push(n.clone());
            }
            Node::Raw(t) => {
                // Raw text outside of its element cannot come from a transform of balanced input.
                if t.is_empty() { continue; }
                out.push(n.clone());
            }
            Node::Elem { tag, children, close } => {
                let children = match model::raw_tag(&tag.name) {
                    Some(_) => {
                        let text = model::render(children);
                        let probe = format!("<{}>{}</{}>", tag.name, text, close);
                        match model::parse(&probe, None) {
                            Ok(ref n) if n.len() == 1 => (),
                            _ => return None,
                        }
                        if let Ok(n) = model::parse(&probe, None) {
                            match n[0] {
                                Node::Elem { children: ref c, .. } if c.len() <= 1 && model::render(c) == text => (),
                                _ => return None,
                            }
                        }
                        if text.is_empty() { vec![] } else { vec![Node::Raw(text)] }
                    }
                    None => reparsed(children)?,
                };
                out.push(Node::Elem { tag: tag.clone(), children, close: close.clone() });
            }
            _ => out.push(n.clone()),
        }
    }
    Some(out)
}

// ---------------------------------------------------------------------------------------------
// Plans

#[derive(Debug, Clone, Copy)]
pub enum Src { Doc(usize), Prev }

#[derive(Debug)]
pub enum Step {
    Run { src: Src, body: B, faults: Vec<Fault>, stall: bool },
    Render(usize),
    Load(usize, disk::LoadPlan),
}

#[derive(Debug)]
pub struct Plan {
    pub docs: Vec<String>,
    pub frags: Vec<String>,
    pub values: Vec<String>,
    pub datas: Vec<String>,
    pub queues: Vec<(i64, i64)>,
    pub clients: Vec<Vec<Step>>,
    pub statics: Vec<&'static str>,
    pub names: Vec<&'static str>,
    pub selectors: HashSet<Site>,
    pub shared: bool,
}

#[derive(Clone, Copy, Default)]
pub struct Opts {
    /// Results must equal the source template where the model says nothing changed.
    pub equal: bool,
    pub retry: bool,
    pub balanced: bool,
    pub solo: bool,
    pub stalls: bool,
    pub leak: bool,
    pub store: bool,
}

pub struct Loaded { pub world: Rc<World>, pub model: MWorld, pub snapshot: Vec<Vec<Ev>> }

/// Loads the shared templates. `None`: the parser refuses or misreads them, which is another
/// property's business.
pub fn load(plan: &Plan) -> Option<Loaded> {
    let mut docs = Vec::new();
    let mut frags = Vec::new();
    let mut mdocs = Vec::new();
    let mut mfrags = Vec::new();
    let mut snapshot = Vec::new();
    for s in &plan.docs {
        let t = Template::from_str(s, ParseOptions::default()).ok()?;
        let e = raw_events(&t);
        mdocs.push(tree(&e).ok()?);
        snapshot.push(e);
        docs.push(t);
    }
    for s in &plan.frags {
        let t = Template::from_str(s, ParseOptions::default()).ok()?;
        let e = raw_events(&t);
        mfrags.push(tree(&e).ok()?);
        snapshot.push(e);
        frags.push(Rc::new(t));
    }
    let mut idents = HashMap::new();
    for n in &plan.names { if let Ok(i) = n.parse() { idents.insert(*n, i); } }
    let mut statics = HashMap::new();
    for s in &plan.statics {
        use html5_fuser::select::IntoSelector;
        if let Ok(x) = s.into_selector() { statics.insert(*s, Rc::new(x)); }
    }
    let world = World {
        docs, frags,
        values: plan.values.iter().map(|s| Value::from_unencoded_str(s)).collect(),
        datas: plan.datas.iter().map(|s| Data::from_unencoded_str(s)).collect(),
        idents, statics,
        queues: RefCell::new(plan.queues.clone()),
    };
    let model = MWorld { docs: mdocs, frags: mfrags, values: plan.values.clone(), datas: plan.datas.clone() };
    Some(Loaded { world: Rc::new(world), model, snapshot })
}

pub fn doc_cfg(t: &mut Tape, size: usize) -> (DocCfg, bool) {
    let cfg = DocCfg { size, depth: t.range(2, 6), raw: t.chance(1, 3), doctype: t.chance(1, 3) };
    let noisy = t.chance(1, 3);
    (cfg, noisy)
}

pub fn gen_doc(t: &mut Tape, size: usize) -> String {
    let (cfg, noisy) = doc_cfg(t, size);
    let mut n = gen::nodes(t, &cfg);
    if t.chance(1, 60) {
        let depth = if t.chance(1, 4) { t.range(256, 300) } else { t.range(20, 60) };
        let name = *t.pick(&["b", "a", "div"]);
        let place = t.usize(n.len() + 1);
        let mut inner = gen::nodes(t, &DocCfg { size: 4, ..cfg.clone() });
        inner.push(Node::Text("deep".into()));
        n.splice(place..place, gen::chain(name, depth, inner));
    }
    if t.chance(1, 60) {
        // Many siblings.
        let k = if t.chance(1, 3) { t.range(256, 700) } else { t.range(30, 120) };
        let item = gen::nodes(t, &DocCfg { size: 3, ..cfg.clone() });
        let size = model::render(&item).len();
        for _ in 0..k.min(1 + 200_000 / (size + 1)) { n.extend(item.clone()); }
    }
    gen::source(t, &n, noisy)
}

const FRAGS: [&str; 10] = [
    "<b>f</b>", "f", "", "<b><b>x</b></b>", "<a class=\"c1\" id=\"x\">1</a>2<br>", "<b/>", "<li><b>1</b></li><li/>",
    "<br>", "<!--f-->", "<a></a>",
];

pub fn gen_frag(t: &mut Tape) -> String {
    if t.chance(1, 2) { return t.pick(&FRAGS).to_string(); }
    let cfg = DocCfg { size: 6, depth: 3, raw: t.chance(1, 6), doctype: false };
    let n = gen::nodes(t, &cfg);
    let mut s = gen::source(t, &n, false);
    if t.chance(1, 80) { s = s.repeat(t.range(40, 300).min(1 + 60_000 / (s.len() + 1))); }
    s
}

pub type BodyFn<'a> = &'a mut dyn FnMut(&mut Gen, &mut Tape) -> B;

fn default_body(g: &mut Gen, t: &mut Tape) -> B {
    // Mostly: select something first, so that the element operations have an element.
    let d = g.p.depth;
    let site_first = t.chance(4, 5);
    let b = g.body(t, d, false);
    if site_first && !b.ops.iter().any(|o| matches!(o.k, OpK::Select(..))) {
        let k = g.op_kind(t, 0, d, false);
        let b2 = g.noop_body(false);
        let mut b2 = Rc::try_unwrap(b2).unwrap();
        let at_front = t.chance(2, 3);
        let b = Rc::try_unwrap(b).unwrap();
        b2.ops = b.ops;
        let i = if at_front { 0 } else { b2.ops.len() };
        b2.ops.insert(i, Op { k });
        return Rc::new(b2);
    }
    b
}

/// Generates a whole plan.
pub fn plan(t: &mut Tape, p: &Prof, make: Option<BodyFn>) -> Option<(Plan, Loaded)> {
    let ndocs = t.range(1, 2);
    let nfrags = t.range(1, 4);
    let docs: Vec<String> = (0..ndocs).map(|_| gen_doc(t, p.size)).collect();
    let frags: Vec<String> = (0..nfrags).map(|_| gen_frag(t)).collect();
    let values: Vec<String> = (0..2).map(|_| gen::payload(t, p.nasty)).collect();
    let datas: Vec<String> = (0..2).map(|_| gen::payload(t, p.nasty)).collect();
    let mut pl = Plan {
        docs, frags, values, datas, queues: vec![], clients: vec![], statics: vec![], names: vec![],
        selectors: HashSet::new(), shared: p.shared,
    };
    if p.shared {
        let n = match t.weighted(&[4, 3, 1]) { 0 => t.range(1, 6), 1 => t.range(0, 20), _ => t.range(20, 90) };
        pl.queues.push((100, 100 + n as i64));
    }
    let loaded = load(&pl)?;
    let frag_len: Vec<usize> = loaded.snapshot[ndocs..].iter().map(|e| e.len()).collect();
    let nclients = if p.clients <= 1 { 1 } else { t.range(1, p.clients) };
    let mut make = make;
    let mut g = Gen::new(p);
    g.nfrags = nfrags;
    g.frag_len = frag_len.clone();
    g.ndocs = ndocs;
    g.nvalues = 2;
    g.ndatas = 2;
    for d in loaded.model.docs.iter().chain(loaded.model.frags.iter()) { g.know(d) }
    g.faulty = p.bad > 0 || p.fault > 0;
    let mut fault_id = 1;
    for _ in 0..nclients {
        let mut steps = Vec::new();
        let nsteps = t.range(1, p.steps);
        let mut prev = loaded.model.docs[0].clone();
        for si in 0..nsteps {
            if p.clients > 1 && !p.shared && t.chance(1, 8) {
                if t.chance(1, 2) { steps.push(Step::Render(t.usize(ndocs))); }
                else { let d = t.usize(ndocs); let lp = crate::load::load_plan(t, pl.docs[d].len(), false); steps.push(Step::Load(d, lp)); }
                continue;
            }
            g.ops = 0;
            if p.shared { g.queue = Some(0); }
            let first_site = g.sites.len();
            let body = match make { Some(ref mut f) => f(&mut g, t), None => default_body(&mut g, t) };
            let src = if si > 0 && t.chance(1, 2) { Src::Prev } else { Src::Doc(t.usize(ndocs)) };
            // How often is each site reached?
            let input = match src { Src::Doc(d) => loaded.model.docs[d].clone(), Src::Prev => prev.clone() };
            let mut m = MCtx::new(&loaded.model, vec![]);
            let r = if p.shared {
                // How many items a step gets depends on the schedule.
                let all = (pl.queues[0].1 - pl.queues[0].0) as u32;
                let mut r = Ok(vec![]);
                for each in [0, 1, all] {
                    m = MCtx::new(&loaded.model, vec![]);
                    m.budget = 60_000;
                    m.assumed = Some((all, each));
                    r = m_program(&mut m, input.clone(), &body);
                    if let Err(ErrId::Other(_)) = r { break; }
                }
                r
            } else {
                m_program(&mut m, input, &body)
            };
            if let Err(ErrId::Other(_)) = r { sched::probe("program_too_big"); continue; }
            if let Ok(n) = r { prev = n; }
            let sites: Vec<(Site, SiteKind)> = g.sites[first_site..].to_vec();
            let faults = gen::faults(t, p, &sites, &m.counts, &frag_len, fault_id);
            fault_id += 10;
            let stall = p.stall > 0;
            steps.push(Step::Run { src, body, faults, stall });
        }
        pl.clients.push(steps);
    }
    pl.statics = g.statics.iter().copied().collect();
    pl.names = g.names.iter().copied().collect();
    pl.selectors = g.sites.iter().filter(|s| s.1 == SiteKind::Selector).map(|s| s.0).collect();
    let loaded = load(&pl)?;
    Some((pl, loaded))
}

pub fn m_program(m: &mut MCtx, nodes: Vec<Node>, body: &B) -> Result<Vec<Node>, ErrId> {
    m_enter(m, body.site)?;
    m_run(nodes, body, MEnv { item: -1, k: 0 }, m)
}

// ---------------------------------------------------------------------------------------------
// Static errors a program may raise by itself

pub fn static_errors(b: &Body, out: &mut HashSet<ErrId>) {
    fn name(n: &Name, out: &mut HashSet<ErrId>) { if let Some(e) = name_error(n) { out.insert(e); } }
    fn sel(s: &Sel, out: &mut HashSet<ErrId>) { if let Some((_, g)) = s.bad { out.insert(ErrId::Lib(g)); } }
    fn con(c: &Content, out: &mut HashSet<ErrId>) {
        match *c {
            Content::Element(ref n) => name(n, out),
            Content::TransformedElement(ref n, ref b) => { name(n, out); static_errors(b, out) }
            Content::Transformed(_, ref b) => static_errors(b, out),
            Content::OkOf(ref c) => con(c, out),
            Content::Err(id) | Content::ErrFrom(_, id) => { out.insert(ErrId::Marker(id)); }
            Content::Load(ref l) => if let Some(ref b) = l.bad { out.insert(b.want.clone()); },
            _ => (),
        }
    }
    for op in &b.ops {
        match op.k {
            OpK::Select(_, ref s, ref b) | OpK::Subselect(_, ref s, ref b) => { sel(s, out); static_errors(b, out) }
            OpK::Prepend(ref c) | OpK::Append(ref c) | OpK::Replace(ref c) | OpK::PrependContents(ref c)
            | OpK::AppendContents(ref c) | OpK::ReplaceContents(ref c) => con(c, out),
            OpK::Repeat(_, ref b) | OpK::Apply(ref b) | OpK::ApplyIf(_, ref b) | OpK::ApplyBoxed(ref b)
            | OpK::BoxedElement(ref b) | OpK::SubContents(ref b) | OpK::RepeatContents(_, ref b) => static_errors(b, out),
            OpK::RepeatOrElse(_, ref a, ref b) | OpK::RepeatContentsOrElse(_, ref a, ref b) | OpK::ApplyIfElse(_, ref a, ref b)
            | OpK::ApplyOption(_, ref a, ref b) | OpK::ApplyResult(_, ref a, ref b) => { static_errors(a, out); static_errors(b, out) }
            OpK::ApplyTemplate(ref f) => static_errors(&f.body, out),
            OpK::Attr(ref a) => if let Some(n) = attr_name(a) { name(n, out) },
            OpK::Remove | OpK::RemoveContents => (),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Judging one step

fn clip(s: &str) -> String {
    if s.len() <= 400 { return s.to_string(); }
    let mut e = 400;
    while !s.is_char_boundary(e) { e -= 1; }
    format!("{}... ({} bytes)", &s[..e], s.len())
}

fn diff(got: &str, want: &str) -> String {
    let k = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
    format!("first difference at byte {}: got {:?}, expected {:?}", k, clip(got), clip(want))
}

pub struct Judged {
    /// The tree after the step, if it succeeded and is known.
    pub nodes: Option<Vec<Node>>,
    pub skip: bool,
}

pub fn judge(plan: &Plan, l: &Loaded, ctx: &Rc<StepCtx>, out: &Outcome, src: &Template, nodes: &[Node], body: &B, faults: &[Fault], opts: Opts) -> Result<Judged, Violation> {
    if let Some((class, ref detail)) = *ctx.odd.borrow() { return violation(class, detail.clone()); }
    if ctx.live.get() != 0 {
        return violation("not-released", format!("{} of {} user-supplied parts still alive after the transform ended", ctx.live.get(), ctx.made.get()));
    }
    let mut m = MCtx::new(&l.model, faults.to_vec());
    m.taken = ctx.taken.borrow().clone();
    m.healed = ctx.healed.get();
    let want = m_program(&mut m, nodes.to_vec(), body);
    if let Err(ErrId::Other(_)) = want { sched::probe("model_budget"); return Ok(Judged { nodes: None, skip: true }); }
    let captured = m.captured || !ctx.captured.borrow().is_empty();
    if captured { sched::probe("nested_error_as_value"); }
    let torn = ctx.torn.get() || m.torn || captured && !faults.is_empty();
    if torn { sched::probe("outcome_not_modelled"); }
    let fired = ctx.fired.borrow().clone();
    match (out, &want) {
        (Outcome::Ok(_), _) if !fired.is_empty() =>
            violation("error-lost", format!("transform succeeded although {:?} was raised", fired[0])),
        (Outcome::Fail(e), _) if !fired.is_empty() => {
            if *e != fired[0] { return violation("wrong-error", format!("transform failed with {:?}, the first error raised was {:?}", e, fired[0])); }
            sched::probe("step_failed_by_fault");
            let by_selector = faults.iter().any(|f| plan.selectors.contains(&f.site) && ErrId::Panic(f.id) == fired[0]);
            if want.is_ok() && !torn && !by_selector {
                return violation("unreachable-part-invoked", format!("{:?} was raised in a part the transform never reaches", fired[0]));
            }
            Ok(Judged { nodes: None, skip: false })
        }
        _ if torn => Ok(Judged { nodes: None, skip: true }),
        (Outcome::Ok(_), Err(e)) => violation("error-lost", format!("transform succeeded, expected it to fail (such as with {:?})", e)),
        (Outcome::Fail(e), w) => {
            let mut ok = HashSet::new();
            static_errors(body, &mut ok);
            for c in ctx.captured.borrow().iter() { ok.insert(c.clone()); }
            if !ok.contains(e) { return violation("unexpected-error", format!("transform failed with {:?}; nothing in it raises that", e)); }
            if w.is_ok() { return violation("spurious-error", format!("transform failed with {:?}, which it never reaches", e)); }
            if ok.len() == 1 { sched::probe("step_failed_by_single_error"); }
            sched::probe("step_failed");
            Ok(Judged { nodes: None, skip: false })
        }
        (Outcome::Ok(t), Ok(n)) => {
            let got = t.to_string();
            let exp = model::render(n);
            sched::observe(got.as_bytes());
            if got != exp { return violation("wrong-output", diff(&got, &exp)); }
            let raw = raw_events(t);
            let mut ee = Vec::new();
            model::events(n, &mut ee);
            let ge = merged(&raw);
            if ge != ee {
                let k = ge.iter().zip(&ee).take_while(|(a, b)| a == b).count();
                return violation("wrong-events", format!("event {}: got {:?}, expected {:?} (of {} and {})", k, ge.get(k), ee.get(k), ge.len(), ee.len()));
            }
            let real = ctx.counts.borrow();
            let nothing = BTreeMap::new();
            let (real, counts) = if captured { (&nothing, &nothing) } else { (&*real, &m.counts) };
            for (s, c) in counts.iter().filter(|c| !plan.selectors.contains(c.0)) {
                let r = real.get(s).copied().unwrap_or(0);
                if r != *c { return violation("wrong-calls", format!("user-supplied part {} invoked {} times, expected {}", s, r, c)); }
            }
            for (s, c) in real.iter().filter(|c| !plan.selectors.contains(c.0)) {
                if !counts.contains_key(s) { return violation("wrong-calls", format!("user-supplied part {} invoked {} times, expected never", s, c)); }
            }
            if opts.equal && nodes == &n[..] && !m.inserted {
                sched::probe("identity_step");
                if t != src { return violation("not-equal", format!("nothing was changed, but the result is not equal to the source: {:?}", clip(&got))); }
            }
            if nodes != &n[..] { sched::probe("step_changed_document"); } else { sched::probe("step_left_document"); }
            if opts.balanced { balanced(t, &raw, &got)?; }
            Ok(Judged { nodes: Some(n.clone()), skip: false })
        }
    }
}

pub fn balanced(t: &Template, raw: &[Ev], text: &str) -> Check {
    let n = match tree(raw) { Ok(n) => n, Err(e) => return violation("unbalanced", format!("{} in {:?}", e, clip(text))) };
    let want = match reparsed(&n) { Some(w) => w, None => { sched::probe("reparse_undetermined"); return Ok(()) } };
    match Template::from_str(text, ParseOptions::default()) {
        Err(e) => violation("not-reparsable", format!("{:?} for {:?}", e, clip(text))),
        Ok(t2) => {
            let again = match tree(&raw_events(&t2)) { Ok(n) => n, Err(e) => return violation("not-reparsable", e) };
            let again = reparsed(&again);
            if again.as_ref() != Some(&want) { return violation("reparse-differs", format!("{:?} parsed again gives {:?}", clip(text), again.map(|n| clip(&model::render(&n))))); }
            if t2.to_string() != text { return violation("reparse-differs", diff(&t2.to_string(), text)); }
            sched::probe("reparsed_equal");
            // Any further transform applies to it.
            let copy = t.transform(|h| h.select("b", |h| h.subselect_contents(|h| h)).apply(|h| h));
            match copy {
                Ok(_) => Ok(()),
                Err(e) => violation("not-transformable", format!("{:?} for {:?}", e, clip(text))),
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Executing plans

#[derive(Clone, Debug, PartialEq)]
pub struct StepLog { pub out: Result<String, ErrId>, pub events: Vec<Ev>, pub counts: BTreeMap<Site, u32> }

struct Sink { out: String }
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        sched::yield_point("write", s.len() as u64);
        self.out.push_str(s);
        Ok(())
    }
}

fn client(plan: &Plan, l: &Loaded, files: &[Rc<disk::SimFile>], steps: &[Step], opts: Opts, stall: bool) -> Result<Vec<StepLog>, Violation> {
    let mut logs = Vec::new();
    let mut prev: Option<(Template, Vec<Node>)> = None;
    for step in steps {
        match step {
            Step::Render(d) => {
                use std::fmt::Write;
                let mut s = Sink { out: String::new() };
                if write!(s, "{}", l.world.docs[*d]).is_err() { return violation("render-failed", "rendering into a working sink failed"); }
                let want = model::render(&l.model.docs[*d]);
                if s.out != want { return violation("wrong-rendering", diff(&s.out, &want)); }
                logs.push(StepLog { out: Ok(s.out), events: vec![], counts: BTreeMap::new() });
            }
            Step::Load(d, lp) => {
                disk::plan(&files[*d], lp.clone());
                let r = Template::from_file(&files[*d].path, ParseOptions::default());
                disk::take_opens();
                match r {
                    Ok(t) => {
                        if t != l.world.docs[*d] { return violation("wrong-load", format!("loading gives {:?}", clip(&t.to_string()))); }
                        logs.push(StepLog { out: Ok(t.to_string()), events: vec![], counts: BTreeMap::new() });
                    }
                    Err(e) => return violation("wrong-load", format!("loading failed: {:?}", e)),
                }
            }
            Step::Run { src, body, faults, stall: st } => {
                let (t, n) = match (src, &prev) {
                    (Src::Prev, Some(p)) => p.clone(),
                    (Src::Prev, None) => (l.world.docs[0].clone(), l.model.docs[0].clone()),
                    (Src::Doc(d), _) => (l.world.docs[*d].clone(), l.model.docs[*d].clone()),
                };
                if !plan.shared && matches!(src, Src::Prev) {
                    // A step that failed before leaves this one with a document it was not planned for.
                    let mut m = MCtx::new(&l.model, vec![]);
                    if let Err(ErrId::Other(_)) = m_program(&mut m, n.clone(), body) { sched::probe("step_too_big"); continue; }
                }
                if !plan.shared && !faults.is_empty() {
                    // Neither has what a caught fault leads to.
                    let mut m = MCtx::new(&l.model, faults.to_vec());
                    if let Err(ErrId::Other(_)) = m_program(&mut m, n.clone(), body) { sched::probe("step_too_big"); continue; }
                }
                let ctx = StepCtx::new(l.world.clone(), faults.clone(), stall && *st);
                let out = transform(&t, body, &ctx);
                let j = judge(plan, l, &ctx, &out, &t, &n, body, faults, opts)?;
                logs.push(StepLog {
                    out: match out { Outcome::Ok(ref t) => Ok(t.to_string()), Outcome::Fail(ref e) => Err(e.clone()) },
                    events: match out { Outcome::Ok(ref t) => merged(&raw_events(t)), _ => vec![] },
                    counts: ctx.counts.borrow().iter().filter(|c| !plan.selectors.contains(c.0)).map(|(a, b)| (*a, *b)).collect(),
                });
                let failed = matches!(out, Outcome::Fail(_));
                let load_failed = matches!(out, Outcome::Fail(ErrId::Load(_)));
                let mut retry = failed && opts.retry && (!faults.is_empty() || load_failed) && !plan.shared;
                if retry {
                    // What comes after the repaired load has not been weighed either.
                    let mut m = MCtx::new(&l.model, vec![]);
                    m.healed = true;
                    if let Err(ErrId::Other(_)) = m_program(&mut m, n.clone(), body) { sched::probe("retry_too_big"); retry = false; }
                }
                if retry {
                    let ctx = StepCtx::new(l.world.clone(), vec![], stall && *st);
                    ctx.healed.set(true);
                    if load_failed { sched::probe("retried_with_loads_repaired"); }
                    let out = transform(&t, body, &ctx);
                    sched::probe("retried_without_fault");
                    judge(plan, l, &ctx, &out, &t, &n, body, &[], opts)
                        .map_err(|v| Violation { class: format!("retry-{}", v.class), detail: v.detail })?;
                }
                if let (Outcome::Ok(t), Some(n)) = (out, j.nodes) {
                    if opts.store { stored(&t, &n)?; }
                    prev = Some((t, n));
                }
            }
        }
    }
    Ok(logs)
}

/// Stores a result on the simulated disk and loads it again.
fn stored(t: &Template, n: &[Node]) -> Check {
    let want = match reparsed(n) { Some(w) => w, None => return Ok(()) };
    let text = t.to_string();
    let f = disk::create("stored.html", text.into_bytes());
    let len = f.content.borrow().len();
    let lp = sched::with(|s| crate::load::load_plan(&mut s.sched, len, false));
    disk::plan(&f, lp);
    let r = Template::from_file(&f.path, ParseOptions::default());
    disk::take_opens();
    match r {
        Err(e) => violation("not-reloadable", format!("{:?}", e)),
        Ok(t2) => {
            let got = tree(&raw_events(&t2)).ok().and_then(|n| reparsed(&n));
            sched::probe("stored_and_reloaded");
            if got.as_ref() != Some(&want) {
                return violation("reload-differs", format!("reloaded as {:?}, expected {:?}", clip(&t2.to_string()), clip(&model::render(&want))));
            }
            Ok(())
        }
    }
}

type Logs = Vec<Option<Vec<StepLog>>>;

fn execute(plan: &Rc<Plan>, l: &Rc<Loaded>, files: &Rc<Vec<Rc<disk::SimFile>>>, only: Option<usize>, opts: Opts, stall: bool) -> Logs {
    let logs: Rc<RefCell<Logs>> = Rc::new(RefCell::new(vec![None; plan.clients.len()]));
    *l.world.queues.borrow_mut() = plan.queues.clone();
    sched::allow(30_000_000);
    // How much work a step on a shared queue is depends on who gets the items.
    sched::with(|s| s.bounded = !plan.shared);
    let mut clients: Vec<Box<dyn FnOnce()>> = Vec::new();
    for i in 0..plan.clients.len() {
        if only.map_or(false, |o| o != i) { continue; }
        let (plan, l, files, logs) = (plan.clone(), l.clone(), files.clone(), logs.clone());
        clients.push(Box::new(move || {
            match client(&plan, &l, &files, &plan.clients[i], opts, stall) {
                Ok(v) => logs.borrow_mut()[i] = Some(v),
                Err(v) => sched::set_violation(v),
            }
        }));
    }
    sched::run_clients(clients);
    Rc::try_unwrap(logs).map(|l| l.into_inner()).unwrap_or_default()
}

fn failed() -> Check {
    match sched::with(|s| s.violation.take()) { Some(v) => Err(v), None => Ok(()) }
}

fn describe(p: &Plan) {
    for (i, d) in p.docs.iter().enumerate() { sched::trace(|| format!("document {}: {:?}", i, clip(d))); }
    for (i, d) in p.frags.iter().enumerate() { sched::trace(|| format!("template {}: {:?}", i, clip(d))); }
    sched::trace(|| format!("shared values {:?}, data {:?}, queues {:?}", p.values, p.datas, p.queues));
    for (i, c) in p.clients.iter().enumerate() {
        for s in c { sched::trace(|| format!("plan of client {}: {:?}", i, s)); }
    }
}

pub fn run(plan: Plan, loaded: Loaded, opts: Opts) -> Check {
    describe(&plan);
    let plan = Rc::new(plan);
    let l = Rc::new(loaded);
    let needs_files = plan.clients.iter().flatten().any(|s| matches!(s, Step::Load(..)));
    let files: Rc<Vec<Rc<disk::SimFile>>> = Rc::new(if needs_files {
        plan.docs.iter().enumerate().map(|(i, d)| disk::create(&format!("doc{}.html", i), d.clone().into_bytes())).collect()
    } else { vec![] });
    let logs = execute(&plan, &l, &files, None, opts, true);
    failed()?;
    unchanged(&l)?;
    if opts.solo && !plan.shared && plan.clients.len() > 1 {
        for i in 0..plan.clients.len() {
            let solo = execute(&plan, &l, &files, Some(i), Opts { retry: false, store: false, ..opts }, true);
            failed().map_err(|v| Violation { class: format!("solo-{}", v.class), detail: v.detail })?;
            if solo[i] != logs[i] {
                return violation("interference", format!("client {} alone: {:?}; with the others: {:?}", i, solo[i].as_ref().map(|l| l.iter().map(|s| s.out.clone()).collect::<Vec<_>>()), logs[i].as_ref().map(|l| l.iter().map(|s| s.out.clone()).collect::<Vec<_>>())));
            }
        }
        sched::probe("solo_compared");
        unchanged(&l)?;
    }
    if opts.stalls && !plan.shared {
        let quiet = execute(&plan, &l, &files, None, Opts { retry: false, store: false, ..opts }, false);
        failed().map_err(|v| Violation { class: format!("unstalled-{}", v.class), detail: v.detail })?;
        if quiet != logs { return violation("stall-changes-result", format!("with stalls {:?}, without {:?}", short(&logs), short(&quiet))); }
        sched::probe("stalls_compared");
    }
    if opts.leak && !plan.shared {
        let mut grew = 0;
        // The trace itself must not count.
        let trace = sched::with(|s| s.trace.take());
        for _ in 0..3 {
            let before = alloc::live();
            for i in 0..plan.clients.len() { execute(&plan, &l, &files, Some(i), Opts { retry: false, store: false, ..opts }, true); }
            grew = alloc::live() - before;
            failed()?;
            if grew <= 0 { break; }
        }
        sched::with(|s| s.trace = trace);
        if grew > 0 { return violation("leak", format!("{} bytes stay allocated each time the clients run", grew)); }
        sched::probe("allocations_balanced");
    }
    Ok(())
}

fn short(l: &Logs) -> Vec<Option<Vec<Result<String, ErrId>>>> {
    l.iter().map(|l| l.as_ref().map(|l| l.iter().map(|s| s.out.clone().map(|s| clip(&s))).collect())).collect()
}

fn unchanged(l: &Loaded) -> Check {
    let all: Vec<Vec<Ev>> = l.world.docs.iter().chain(l.world.frags.iter().map(|f| &**f)).map(raw_events).collect();
    for (i, (a, b)) in all.iter().zip(&l.snapshot).enumerate() {
        if a != b { return violation("template-changed", format!("existing template {} was changed", i)); }
    }
    for (v, s) in l.world.values.iter().zip(&l.model.values) {
        if v.to_string() != model::encode(s) { return violation("value-changed", format!("shared value {:?} became {:?}", s, v.to_string())); }
    }
    for (v, s) in l.world.datas.iter().zip(&l.model.datas) {
        if v.to_string() != model::encode(s) { return violation("value-changed", format!("shared data {:?} became {:?}", s, v.to_string())); }
    }
    Ok(())
}
