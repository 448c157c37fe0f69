//! Transform programs: the syntax tree, the interpreter that drives the real library through
//! its public API, and the reference interpreter over model documents.

use crate::disk::{self, LoadPlan};
use crate::model::{self, Node, Tag};
use crate::sched;
use crate::gen::intern;
use html5_fuser::event::{Event, IntoStream, Stream, StreamError, StreamResult};
use html5_fuser::select::{self, IntoSelector, Selector};
use html5_fuser::text::{Data, Identifier, IdentifierError, IntoIdentifier, Value};
use html5_fuser::{Api, BoxedApi, BoxedElementApi, ParseOptions, Template};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub type Site = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode { Any, Once, Direct, DirectOnce }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SelVia { Static, Tag, Id, Class, Classes, SharedStatic, Custom }

#[derive(Clone)]
pub struct Sel {
    pub site: Site,
    pub via: SelVia,
    pub tag: Option<String>,
    pub id: Option<String>,
    pub classes: Vec<String>,
    /// An invalid selector: the literal and the error group it must raise.
    pub bad: Option<(&'static str, &'static str)>,
    pub lit: &'static str,
}

#[derive(Clone, Debug)]
pub enum Val { Static(&'static str), Owned(String), Shared(usize), SharedRef(usize), Int(u8, i64), K, Item }

#[derive(Clone, Debug)]
pub enum NameVia { Static, Owned, Ref, Result }

#[derive(Clone)]
pub struct Name { pub text: &'static str, pub via: NameVia, pub bad: bool }

#[derive(Clone, Debug)]
pub enum AttrOp {
    AddWith(Name, Val), Add(Name, Option<Val>), AddEmpty(Name), AddTo(Name, Val, Val),
    Replace(Name, Val), SetWith(Name, Val), Set(Name, Option<Val>), SetEmpty(Name), Remove(Name),
    AddClass(Name), RemoveClass(Name), RemoveId, SetId(Name),
}

#[derive(Clone, Debug, PartialEq)]
pub enum IterVia { Vec, Range, Lazy, Shared,
    /// Announces: exactly what is left; at most that; at least that; at most all there ever were.
    Hinted(u8),
    /// Has no end, and says so: one of ours; a range.
    Endless, EndlessRange }

#[derive(Clone, Debug)]
pub struct Iter { pub site: Site, pub via: IterVia, pub n: usize, pub base: i64 }

impl Iter {
    pub fn endless(&self) -> bool { matches!(self.via, IterVia::Endless | IterVia::EndlessRange) }
}

pub struct Body { pub site: Site, pub ops: Vec<Op>, pub el: bool, pub keeps: bool }

pub struct Op { pub k: OpK }

pub type B = Rc<Body>;

impl std::fmt::Debug for Body {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "#{}{:?}", self.site, self.ops.iter().map(|o| &o.k).collect::<Vec<_>>())
    }
}
impl std::fmt::Debug for Sel {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}:{:?}#{}", self.lit, self.via, self.site)
    }
}
impl std::fmt::Debug for Name {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}:{:?}", self.text, self.via) }
}

#[derive(Debug)]
pub enum OpK {
    Select(Mode, Sel, B),
    Remove,
    Prepend(Content),
    Append(Content),
    Replace(Content),
    Repeat(Iter, B),
    RepeatOrElse(Iter, B, B),
    Apply(B),
    ApplyIf(bool, B),
    ApplyIfElse(bool, B, B),
    ApplyOption(Option<i64>, B, B),
    ApplyResult(Result<i64, i64>, B, B),
    ApplyBoxed(B),
    ApplyTemplate(Rc<TplFn>),
    BoxedElement(B),
    SubContents(B),
    Subselect(Mode, Sel, B),
    RemoveContents,
    PrependContents(Content),
    AppendContents(Content),
    ReplaceContents(Content),
    RepeatContents(Iter, B),
    RepeatContentsOrElse(Iter, B, B),
    Attr(AttrOp),
}

#[derive(Debug)]
pub struct TplFn { pub site: Site, pub body: B, pub result: TplResult }

#[derive(Debug)]
pub enum TplResult { Transformed, Same, Other(usize), TransformOrSame }

#[derive(Clone, Debug)]
pub enum Content {
    Static(&'static str),
    Data(String),
    DataRef(usize),
    Value(String),
    ValueRef(usize),
    Int(u8, i64),
    K,
    Item,
    Frag(usize),
    FragRc(usize),
    FragClone(usize),
    Doc(usize),
    Element(Name),
    TransformedElement(Name, B),
    Transformed(usize, B),
    OkOf(Box<Content>),
    Err(u32),
    /// An error from the k-th invocation of the enclosing builder on.
    ErrFrom(i64, u32),
    User(Rc<UserSpec>),
    /// The result of loading a template while the transform is being built, as it is.
    Load(Rc<LoadSpec>),
}

#[derive(Debug)]
pub struct LoadSpec {
    pub site: Site,
    pub text: String,
    pub nodes: Vec<Node>,
    pub plan: LoadPlan,
    /// From a string instead of from a file.
    pub string: bool,
    pub bad: Option<BadLoad>,
}

/// What goes wrong with a load.
#[derive(Debug)]
pub struct BadLoad {
    /// On this load only, else on each.
    pub nth: Option<u32>,
    pub bytes: Vec<u8>,
    pub plan: LoadPlan,
    pub limit: Option<usize>,
    pub want: ErrId,
}

impl LoadSpec {
    pub fn fails(&self, n: u32, healed: bool) -> Option<&BadLoad> {
        self.bad.as_ref().filter(|b| !healed && b.nth.map_or(true, |k| k == n))
    }
    pub fn file(&self) -> String { format!("t{}.html", self.site) }
}

#[derive(Clone, Debug)]
pub struct UserSpec {
    pub site: Site,
    pub frag: usize,
    /// Placeholder events before real event `i` (cyclic); the last position stalls the end too.
    pub stalls: Vec<u32>,
    /// The stream breaks off after this many events.
    pub trunc: Option<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind { Err, Panic }

#[derive(Clone, Debug)]
pub struct Fault { pub id: u32, pub site: Site, pub nth: u32, pub pos: u32, pub kind: FaultKind }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ErrId { Marker(u32), Panic(u32), Lib(&'static str),
    /// A template could not be loaded.
    Load(String),
    Other(String) }

/// Payload of an injected panic.
pub struct InjectedPanic(pub u32);

pub fn marker_error(id: u32) -> StreamError {
    match id % 3 {
        0 => IdentifierError::Forbidden { forbidden: char::from_u32(0xF0000 + id).unwrap() }.into(),
        1 => html5_fuser::template::InputError::LengthLimitExceeded { limit: 1_000_000_000 + id as usize }.into(),
        _ => html5_fuser::template::FileError::Read {
            path: format!("marker-{}", id).into(),
            error: std::io::Error::from_raw_os_error(1000 + id as i32),
        }.into(),
    }
}

/// How a failed load is identified: its stage, the file's name, the cause.
pub fn load_id(stage: &str, path: &std::path::Path, cause: &dyn std::fmt::Debug) -> String {
    format!("{} {} {:?}", stage, path.file_name().map_or("".into(), |n| n.to_string_lossy()), cause)
}

/// The cause an error carries must be the error it wraps.
#[allow(deprecated)]
fn wrong_cause(e: &StreamError) -> Option<String> {
    use std::error::Error;
    let inner: &dyn Error = match *e {
        StreamError::Assertion { ref error } => error,
        StreamError::Input { ref error } => error,
        StreamError::File { ref error } => error,
        StreamError::Identifier { ref error } => error,
        StreamError::Selector { ref error } => error,
        StreamError::StaticSelector { ref error } => error,
    };
    let cause = e.source().or_else(|| e.cause()).map(|c| c.to_string());
    if e.to_string().is_empty() { return Some(format!("{:?} has no message", e)); }
    if cause != Some(inner.to_string()) { return Some(format!("{:?} carries the cause {:?}", e, cause)); }
    None
}

fn ident_cause(e: &IdentifierError) -> String {
    match *e {
        IdentifierError::Empty => "empty".into(),
        IdentifierError::NotAscii => "ascii".into(),
        IdentifierError::Whitespace { whitespace } => format!("whitespace {:?}", whitespace),
        IdentifierError::Forbidden { forbidden } => format!("forbidden {:?}", forbidden),
    }
}

fn selector_cause(e: &select::Error) -> String {
    use html5_fuser::select::{ClassesError, Error};
    match *e {
        Error::Tag { ref error } => format!("tag: {}", ident_cause(error)),
        Error::Id { ref error } => format!("id: {}", ident_cause(error)),
        Error::Class { ref error } => format!("class: {}", ident_cause(error)),
        Error::Classes { error: ClassesError::Empty } => "classes empty".into(),
        Error::Classes { error: ClassesError::Identifier { index, ref error } } => format!("classes {}: {}", index, ident_cause(error)),
    }
}

pub fn err_id(e: &StreamError) -> ErrId {
    use html5_fuser::template::{FileError, InputError};
    match *e {
        StreamError::Identifier { error: IdentifierError::Forbidden { forbidden } } if forbidden as u32 >= 0xF0000 =>
            ErrId::Marker(forbidden as u32 - 0xF0000),
        StreamError::Input { error: InputError::LengthLimitExceeded { limit } } if limit >= 1_000_000_000 =>
            ErrId::Marker((limit - 1_000_000_000) as u32),
        StreamError::File { error: FileError::Read { ref path, ref error } } => {
            let p = path.to_string_lossy().into_owned();
            match p.strip_prefix("marker-").and_then(|n| n.parse::<u32>().ok()) {
                Some(n) if error.raw_os_error() == Some(1000 + n as i32) => ErrId::Marker(n),
                _ => ErrId::Load(load_id("read", path, &error.raw_os_error())),
            }
        }
        StreamError::File { error: FileError::Open { ref path, ref error } } => ErrId::Load(load_id("open", path, &error.raw_os_error())),
        StreamError::File { error: FileError::Decode { ref path, ref error } } => ErrId::Load(load_id("decode", path, error)),
        StreamError::File { error: FileError::Input { ref path, ref error } } => ErrId::Load(load_id("input", path, error)),
        StreamError::Input { ref error } => ErrId::Load(load_id("string", "".as_ref(), error)),
        StreamError::Identifier { ref error } => ErrId::Lib(intern(&format!("name: {}", ident_cause(error)))),
        StreamError::Selector { ref error } => ErrId::Lib(intern(&selector_cause(error))),
        StreamError::StaticSelector { ref error } => ErrId::Lib(intern(&match *error {
            select::StaticError::Unrestricted => "static unrestricted".to_string(),
            select::StaticError::Tag { ref error } => format!("static tag: {}", ident_cause(error)),
            select::StaticError::Id { ref error } => format!("static id: {}", ident_cause(error)),
            select::StaticError::Class { index, ref error } => format!("static class {}: {}", index, ident_cause(error)),
        })),
        StreamError::Assertion { .. } => ErrId::Lib("assertion"),
        ref other => ErrId::Other(format!("{:?}", other)),
    }
}

// ---------------------------------------------------------------------------------------------
// Shared world and per-step context

pub struct World {
    pub docs: Vec<Template>,
    pub frags: Vec<Rc<Template>>,
    pub values: Vec<Value>,
    pub datas: Vec<Data>,
    pub idents: HashMap<&'static str, Identifier>,
    pub statics: HashMap<&'static str, Rc<select::Static>>,
    pub queues: RefCell<Vec<(i64, i64)>>,
}

/// The same world as the model sees it.
pub struct MWorld {
    pub docs: Vec<Vec<Node>>,
    pub frags: Vec<Vec<Node>>,
    pub values: Vec<String>,
    pub datas: Vec<String>,
}

pub struct StepCtx {
    pub world: Rc<World>,
    pub faults: Vec<Fault>,
    pub stall: bool,
    pub counts: RefCell<BTreeMap<Site, u32>>,
    pub fired: RefCell<Vec<ErrId>>,
    pub captured: RefCell<Vec<ErrId>>,
    pub live: Cell<i64>,
    pub made: Cell<i64>,
    pub odd: RefCell<Option<(&'static str, String)>>,
    pub torn: Cell<bool>,
    /// Nothing goes wrong with loads any more.
    pub healed: Cell<bool>,
    /// Per site and instance of a shared iterator: the items it was given.
    pub taken: RefCell<HashMap<(Site, u32), Vec<i64>>>,
    instances: RefCell<HashMap<Site, u32>>,
    pub pulls: Cell<u64>,
    pub long_stall: Cell<bool>,
    stalled: Cell<u64>,
}

impl StepCtx {
    pub fn new(world: Rc<World>, faults: Vec<Fault>, stall: bool) -> Rc<StepCtx> {
        Rc::new(StepCtx {
            world, faults, stall,
            counts: Default::default(), fired: Default::default(), captured: Default::default(),
            live: Cell::new(0), made: Cell::new(0), odd: RefCell::new(None), torn: Cell::new(false), healed: Cell::new(false),
            taken: Default::default(), instances: Default::default(), pulls: Cell::new(0), long_stall: Cell::new(false), stalled: Cell::new(0),
        })
    }
    fn odd(&self, class: &'static str, detail: String) {
        let mut o = self.odd.borrow_mut();
        if o.is_none() { *o = Some((class, detail)); }
    }
    /// A user-supplied part is being invoked. Counts, yields, and raises a planned panic.
    fn cb(&self, site: Site, kind: &'static str) -> u32 {
        let n = {
            let mut c = self.counts.borrow_mut();
            let n = c.entry(site).or_insert(0);
            *n += 1;
            *n - 1
        };
        self.called(kind, site);
        sched::trace(|| format!("{} (site {}, call {})", kind, site, n));
        sched::yield_point(kind, site as u64);
        for f in &self.faults {
            if f.site == site && f.nth == n && f.kind == FaultKind::Panic && f.pos == u32::MAX {
                self.panic(f.id, kind);
            }
        }
        n
    }
    fn called(&self, kind: &'static str, site: Site) {
        if let Some(e) = self.fired.borrow().first() {
            self.odd("invoked-after-error", format!("{} of site {} invoked after {:?} was raised", kind, site, e));
        }
    }
    fn panic(&self, id: u32, kind: &str) -> ! {
        sched::fault("client_panic");
        sched::trace(|| format!("panic {} in {}", id, kind));
        self.fired.borrow_mut().push(ErrId::Panic(id));
        resume_unwind(Box::new(InjectedPanic(id)))
    }
    fn raise(&self, id: u32, kind: &'static str) -> StreamError {
        sched::fault(kind);
        sched::trace(|| format!("error {} raised ({})", id, kind));
        self.fired.borrow_mut().push(ErrId::Marker(id));
        marker_error(id)
    }
    pub fn token(self: &Rc<Self>) -> Token {
        self.live.set(self.live.get() + 1);
        self.made.set(self.made.get() + 1);
        Token(self.clone())
    }
}

/// Held by everything the user hands to the library; counts releases.
pub struct Token(Rc<StepCtx>);
impl Drop for Token {
    fn drop(&mut self) { self.0.live.set(self.0.live.get() - 1); }
}

#[derive(Clone)]
pub struct Env { pub ctx: Rc<StepCtx>, pub item: i64, pub k: i64 }

impl Env {
    fn k(&self, k: i64) -> Env { Env { k, ..self.clone() } }
    fn item(&self, item: i64) -> Env { Env { item, ..self.clone() } }
}

// ---------------------------------------------------------------------------------------------
// User-supplied parts

thread_local! { static NOOP: RefCell<Option<Option<Event>>> = const { RefCell::new(None) }; }

/// A placeholder event, obtained the way a user can: from the stream of a content result.
pub fn noop_event() -> Option<Event> {
    NOOP.with(|n| {
        if let Some(ref e) = *n.borrow() { return e.clone(); }
        let mut s = Ok::<&'static str, StreamError>("x").into_stream();
        let e = match s.next_event() {
            Ok(Some(e)) if e.description() == "noop" => Some(e),
            _ => None,
        };
        *n.borrow_mut() = Some(e.clone());
        e
    })
}

struct UserStream {
    spec: Rc<UserSpec>,
    inner: Option<Box<dyn Stream>>,
    ctx: Rc<StepCtx>,
    instance: u32,
    pos: u32,
    stalled: u32,
    short: bool,
    ended: bool,
    _tok: Token,
}

impl UserStream {
    fn new(spec: &Rc<UserSpec>, ctx: &Rc<StepCtx>, instance: u32) -> UserStream {
        UserStream {
            spec: spec.clone(), inner: Some(Box::new((&*ctx.world.frags[spec.frag]).into_stream())),
            ctx: ctx.clone(), instance, pos: 0, stalled: 0, short: false, ended: false, _tok: ctx.token(),
        }
    }
}

impl Stream for UserStream {
    fn next_event(&mut self) -> StreamResult {
        let ctx = self.ctx.clone();
        ctx.pulls.set(ctx.pulls.get() + 1);
        if self.ended {
            ctx.odd("pulled-after-end", format!("content stream of site {} pulled after its end or error", self.spec.site));
            return "ghost".into_stream().next_event();
        }
        ctx.called("content stream", self.spec.site);
        if ctx.stall && !self.spec.stalls.is_empty() {
            let mut want = self.spec.stalls[self.pos as usize % self.spec.stalls.len()];
            // One very long stall per step is enough.
            if want > 1000 && self.stalled == 0 && ctx.long_stall.replace(true) { self.short = true; }
            if want > 1000 && self.short { want = 3; }
            // A step stalls often or long, not both without end.
            if want <= 1000 && ctx.stalled.get() > 20_000 { want = want.min(1); }
            if self.stalled < want {
                if let Some(e) = noop_event() {
                    if self.stalled < 4 { sched::yield_point("stall", self.spec.site as u64); } else { sched::tick(1); }
                    self.stalled += 1;
                    if want <= 1000 { ctx.stalled.set(ctx.stalled.get() + 1); }
                    sched::fault("content_stall");
                    return Ok(Some(e));
                }
            }
        }
        self.stalled = 0;
        self.short = false;
        sched::yield_point("content", self.spec.site as u64);
        for f in &ctx.faults {
            if f.site == self.spec.site && f.nth == self.instance && f.pos == self.pos {
                self.ended = true;
                self.inner = None;
                match f.kind {
                    FaultKind::Err => return Err(ctx.raise(f.id, "content_error")),
                    FaultKind::Panic => ctx.panic(f.id, "content stream"),
                }
            }
        }
        if self.spec.trunc == Some(self.pos as usize) {
            self.ended = true;
            sched::fault("content_torn");
            ctx.torn.set(true);
            return Ok(None);
        }
        self.pos += 1;
        let r = self.inner.as_mut().unwrap().next_event();
        if let Ok(None) = r { self.ended = true; self.inner = None; }
        sched::trace(|| format!("content stream (site {}) event {}: {}", self.spec.site, self.pos - 1,
            match r { Ok(Some(ref e)) => format!("{}", e), Ok(None) => "end".into(), Err(_) => "error".into() }));
        r
    }
}

struct UserIter { it: Iter, inst: u32, i: usize, ended: bool, ctx: Rc<StepCtx>, _tok: Token }

impl Iterator for UserIter {
    type Item = i64;
    fn next(&mut self) -> Option<i64> {
        if self.ended {
            self.ctx.odd("iterator-after-end", format!("iterator of site {} asked again after its end", self.it.site));
            return Some(-7777);
        }
        self.ctx.cb(self.it.site, "iterator");
        let item = match self.it.via {
            IterVia::Shared => {
                let mut q = self.ctx.world.queues.borrow_mut();
                let (ref mut next, end) = q[self.it.base as usize];
                if *next < end { *next += 1; Some(*next - 1) } else { None }
            }
            IterVia::Endless => Some(self.it.base + self.i as i64),
            _ => if self.i < self.it.n { Some(self.it.base + self.i as i64) } else { None },
        };
        self.i += 1;
        match item {
            Some(v) => if let IterVia::Shared = self.it.via { self.ctx.taken.borrow_mut().entry((self.it.site, self.inst)).or_default().push(v); sched::probe("shared_item_taken"); },
            None => self.ended = true,
        }
        item
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.it.n.saturating_sub(self.i);
        match self.it.via {
            IterVia::Hinted(0) => (left, Some(left)),
            IterVia::Hinted(1) => (0, Some(left)),
            IterVia::Hinted(2) => (left, None),
            IterVia::Hinted(_) => (0, Some(self.it.n)),
            IterVia::Endless => (usize::MAX, None),
            _ => (0, None),
        }
    }
}

struct DynSel { sel: Box<dyn Selector>, site: Site, ctx: Rc<StepCtx>, _tok: Token }

impl Selector for DynSel {
    fn matches(&self, event: &Event) -> bool {
        self.ctx.cb(self.site, "selector");
        self.sel.matches(event)
    }
}

struct CustomSel { tag: String }

impl Selector for CustomSel {
    fn matches(&self, event: &Event) -> bool {
        match event.description() {
            "opening tag" | "self-closed tag" | "void tag" => {
                let s = event.to_string();
                let name = s[1..].split([' ', '>']).next().unwrap_or("").to_string();
                model::ident_eq(&name, &self.tag)
            }
            _ => false,
        }
    }
}

/// A selector used through a reference.
struct ByRef<T>(T);

impl<T> Selector for ByRef<T> where T: Selector {
    fn matches(&self, event: &Event) -> bool { (&&self.0).matches(event) }
}

/// The same selector: as it is, shared, or through a reference.
fn wrap_selector<T>(s: T, site: Site) -> Box<dyn Selector> where T: Selector + 'static {
    match site % 4 {
        0 => Box::new(Rc::new(s)),
        1 => Box::new(ByRef(s)),
        _ => Box::new(s),
    }
}

fn selector(sel: &Sel, env: &Env) -> Result<Rc<DynSel>, StreamError> {
    macro_rules! wrapped { ($e:expr) => { $e.map(|s| wrap_selector(s, sel.site)).map_err(Into::into) } }
    let inner: Result<Box<dyn Selector>, StreamError> = match sel.via {
        SelVia::Static => wrapped!(sel.lit.into_selector()),
        SelVia::SharedStatic => match env.ctx.world.statics.get(sel.lit) {
            Some(s) => Ok(wrap_selector(s.clone(), sel.site)),
            None => wrapped!(sel.lit.into_selector()),
        },
        SelVia::Tag => wrapped!(sel.lit.parse::<select::Tag>().into_selector()),
        SelVia::Id => wrapped!(sel.lit.parse::<select::Id>().into_selector()),
        SelVia::Class => wrapped!(sel.lit.parse::<select::Class>().into_selector()),
        SelVia::Classes => wrapped!(select::Classes::from_str_iterator(sel.lit.split_whitespace()).into_selector()),
        SelVia::Custom => Ok(wrap_selector(CustomSel { tag: sel.tag.clone().unwrap_or_default() }, sel.site)),
    };
    inner.map(|sel_| Rc::new(DynSel { sel: sel_, site: sel.site, ctx: env.ctx.clone(), _tok: env.ctx.token() }))
}

macro_rules! with_name {
    ($n:expr, $w:expr, |$x:ident| $e:expr) => {{
        let n: &Name = $n;
        match n.via {
            NameVia::Static => { let $x = n.text; $e }
            NameVia::Owned => match n.text.parse::<Identifier>() {
                Ok($x) => $e,
                Err(e) => { let $x = Err::<Identifier, IdentifierError>(e); $e }
            },
            NameVia::Ref => match $w.idents.get(n.text) {
                Some($x) => $e,
                None => { let $x = n.text; $e }
            },
            NameVia::Result => { let $x = n.text.parse::<Identifier>(); $e }
        }
    }};
}
// ---------------------------------------------------------------------------------------------
// Real interpreter

enum Cur<'t> { E(BoxedElementApi<'t>), G(BoxedApi<'t>) }

fn int_content(ty: u8, v: i64) -> Box<dyn Stream> {
    match ty % 10 {
        0 => Box::new((v as u8).into_stream()),
        1 => Box::new((v as u16).into_stream()),
        2 => Box::new((v as u32).into_stream()),
        3 => Box::new((v as u64).into_stream()),
        4 => Box::new((v as usize).into_stream()),
        5 => Box::new((v as i8).into_stream()),
        6 => Box::new((v as i16).into_stream()),
        7 => Box::new((v as i32).into_stream()),
        8 => Box::new(v.into_stream()),
        _ => Box::new((v as isize).into_stream()),
    }
}

pub fn int_text(ty: u8, v: i64) -> String {
    match ty % 10 {
        0 => (v as u8).to_string(),
        1 => (v as u16).to_string(),
        2 => (v as u32).to_string(),
        3 => (v as u64).to_string(),
        4 => (v as usize).to_string(),
        5 => (v as i8).to_string(),
        6 => (v as i16).to_string(),
        7 => (v as i32).to_string(),
        8 => v.to_string(),
        _ => (v as isize).to_string(),
    }
}

/// Runs a nested transform; its error becomes a value, so it is no longer an error of the step.
fn nested<F>(env: &Env, f: F) -> Result<Template, StreamError>
where F: FnOnce() -> Result<Template, StreamError> {
    let r = f();
    let ctx = &env.ctx;
    let first = ctx.fired.borrow().first().cloned();
    match (&r, first) {
        (Ok(_), Some(e)) => ctx.odd("error-lost", format!("nested transform succeeded although {:?} was raised in it", e)),
        (Err(e), Some(f)) => {
            let got = err_id(e);
            if got != f { ctx.odd("wrong-error", format!("nested transform returned {:?}, first raised was {:?}", got, f)); }
        }
        _ => (),
    }
    if let Err(ref e) = r {
        ctx.captured.borrow_mut().push(err_id(e));
        ctx.fired.borrow_mut().clear();
    }
    r
}

fn content(c: &Content, env: &Env) -> Box<dyn Stream> {
    let w = env.ctx.world.clone();
    match *c {
        Content::Static(s) => Box::new(s.into_stream()),
        Content::Data(ref s) => Box::new(Data::from_unencoded_str(s).into_stream()),
        Content::DataRef(i) => Box::new((&w.datas[i]).into_stream()),
        Content::Value(ref s) => Box::new(Value::from_unencoded_str(s).into_stream()),
        Content::ValueRef(i) => Box::new((&w.values[i]).into_stream()),
        Content::Int(ty, v) => int_content(ty, v),
        Content::K => Box::new(env.k.into_stream()),
        Content::Item => Box::new(env.item.into_stream()),
        Content::Frag(i) => Box::new((&*w.frags[i]).into_stream()),
        Content::FragRc(i) => Box::new(w.frags[i].clone().into_stream()),
        Content::FragClone(i) => Box::new((*w.frags[i]).clone().into_stream()),
        Content::Doc(i) => Box::new((&w.docs[i]).into_stream()),
        Content::Element(ref n) => Box::new(with_name!(n, w, |x| Template::with_element(x)).into_stream()),
        Content::TransformedElement(ref n, ref body) => {
            let (env2, body) = (env.clone(), body.clone());
            let r = nested(env, || {
                let tok = env2.ctx.token();
                with_name!(n, w, |x| Template::with_transformed_element(x, move |h| {
                    let _tok = tok;
                    env2.ctx.cb(body.site, "builder");
                    run_el(h.into_boxed_element(), &body, &env2)
                }))
            });
            Box::new(r.into_stream())
        }
        Content::Transformed(i, ref body) => {
            let (env2, body) = (env.clone(), body.clone());
            let r = nested(env, || {
                let tok = env2.ctx.token();
                w.docs[i].transform(move |h| {
                    let _tok = tok;
                    env2.ctx.cb(body.site, "builder");
                    run(Cur::G(h.into_boxed()), &body, &env2)
                })
            });
            Box::new(r.into_stream())
        }
        Content::OkOf(ref c) => Box::new(Ok::<_, StreamError>(content(c, env)).into_stream()),
        Content::Err(id) => Box::new(Err::<Box<dyn Stream>, _>(marker_error(id)).into_stream()),
        Content::ErrFrom(k, id) => if env.k >= k {
            sched::probe("endless_repetition_failed");
            Box::new(Err::<Box<dyn Stream>, _>(marker_error(id)).into_stream())
        } else {
            Box::new("+".into_stream())
        },
        Content::User(ref spec) => {
            let n = {
                let mut c = env.ctx.counts.borrow_mut();
                let n = c.entry(spec.site).or_insert(0);
                *n += 1;
                *n - 1
            };
            let s = UserStream::new(spec, &env.ctx, n);
            match spec.site % 4 {
                0 => Box::new(Rc::new(RefCell::new(s))),
                1 => Box::new(Box::new(s) as Box<dyn Stream>),
                _ => Box::new(s),
            }
        }
        Content::Load(ref spec) => {
            let n = {
                let mut c = env.ctx.counts.borrow_mut();
                let n = c.entry(spec.site).or_insert(0);
                *n += 1;
                *n - 1
            };
            let bad = spec.fails(n, env.ctx.healed.get());
            let mut o = ParseOptions::default();
            let (mut bytes, mut plan) = (spec.text.as_bytes(), &spec.plan);
            if let Some(b) = bad {
                bytes = &b.bytes;
                plan = &b.plan;
                if let Some(l) = b.limit { o = o.max_input_len(l); }
                sched::fault("load_failure_in_transform");
            }
            if spec.string {
                return Box::new(Template::from_str(std::str::from_utf8(bytes).unwrap_or(""), o).into_stream());
            }
            let file = disk::ensure(&spec.file(), bytes);
            disk::plan(&file, plan.clone());
            let r = Template::from_file(&file.path, o);
            let (handles, _) = disk::take_opens();
            if handles.iter().any(disk::is_open) { env.ctx.odd("handle-not-released", format!("{} is still open after it was loaded", spec.file())); }
            sched::probe(if r.is_ok() { "load_in_transform" } else { "failed_load_in_transform" });
            Box::new(r.into_stream())
        }
    }
}


fn value(v: &Val, env: &Env) -> Value {
    use html5_fuser::text::IntoValue;
    match *v {
        Val::Static(s) => s.into_value(),
        Val::Owned(ref s) => Value::from_unencoded_str(s),
        Val::Shared(i) => env.ctx.world.values[i].clone(),
        Val::SharedRef(i) => (&env.ctx.world.values[i]).into_value(),
        Val::Int(ty, v) => match ty % 10 {
            0 => (v as u8).into_value(),
            1 => (v as u16).into_value(),
            2 => (v as u32).into_value(),
            3 => (v as u64).into_value(),
            4 => (v as usize).into_value(),
            5 => (v as i8).into_value(),
            6 => (v as i16).into_value(),
            7 => (v as i32).into_value(),
            8 => v.into_value(),
            _ => (v as isize).into_value(),
        },
        Val::K => env.k.into_value(),
        Val::Item => env.item.into_value(),
    }
}

fn attr<'t>(h: BoxedElementApi<'t>, op: &AttrOp, env: &Env) -> BoxedElementApi<'t> {
    let w = &env.ctx.world;
    match *op {
        AttrOp::AddWith(ref n, ref v) => with_name!(n, w, |x| h.add_attribute_with_value(x, value(v, env)).into_boxed_element()),
        AttrOp::Add(ref n, ref v) => { let v = v.as_ref().map(|v| value(v, env)); with_name!(n, w, |x| h.add_attribute(x, v).into_boxed_element()) }
        AttrOp::AddEmpty(ref n) => with_name!(n, w, |x| h.add_empty_attribute(x).into_boxed_element()),
        AttrOp::AddTo(ref n, ref v, ref s) => with_name!(n, w, |x| h.add_to_attribute(x, value(v, env), value(s, env)).into_boxed_element()),
        AttrOp::Replace(ref n, ref v) => with_name!(n, w, |x| h.replace_attribute_value_if_exists(x, value(v, env)).into_boxed_element()),
        AttrOp::SetWith(ref n, ref v) => with_name!(n, w, |x| h.set_attribute_with_value(x, value(v, env)).into_boxed_element()),
        AttrOp::Set(ref n, ref v) => { let v = v.as_ref().map(|v| value(v, env)); with_name!(n, w, |x| h.set_attribute(x, v).into_boxed_element()) }
        AttrOp::SetEmpty(ref n) => with_name!(n, w, |x| h.set_empty_attribute(x).into_boxed_element()),
        AttrOp::Remove(ref n) => with_name!(n, w, |x| h.remove_attribute(x).into_boxed_element()),
        AttrOp::AddClass(ref n) => with_name!(n, w, |x| h.add_class(x).into_boxed_element()),
        AttrOp::RemoveClass(ref n) => with_name!(n, w, |x| h.remove_class(x).into_boxed_element()),
        AttrOp::RemoveId => h.remove_id().into_boxed_element(),
        AttrOp::SetId(ref n) => with_name!(n, w, |x| h.set_id(x).into_boxed_element()),
    }
}

fn iter(it: &Iter, env: &Env) -> UserIter {
    let mut all = env.ctx.instances.borrow_mut();
    let n = all.entry(it.site).or_insert(0);
    *n += 1;
    UserIter { it: it.clone(), inst: *n, i: 0, ended: false, ctx: env.ctx.clone(), _tok: env.ctx.token() }
}

/// Calls `$html.$method($args.., iterator, ..)` with the planned kind of iterator.
macro_rules! with_iter {
    ($it:expr, $env:expr, |$x:ident| $e:expr) => {{
        let it: &Iter = $it;
        match it.via {
            IterVia::Vec => { let $x: Vec<i64> = (0..it.n as i64).map(|i| it.base + i).collect(); $e }
            IterVia::Range => { let $x = it.base..it.base + it.n as i64; $e }
            IterVia::EndlessRange => { let $x = it.base..; $e }
            IterVia::Lazy | IterVia::Shared | IterVia::Hinted(_) | IterVia::Endless => { let $x = iter(it, $env); $e }
        }
    }};
}

/// Runs an element body as far as it stays an element.
fn run_keep<'t>(h: BoxedElementApi<'t>, body: &Body, env: &Env) -> BoxedElementApi<'t> {
    match ops(Cur::E(h), &body.ops, env) {
        Cur::E(h) => h,
        Cur::G(_) => panic!("harness: body does not keep the element"),
    }
}

fn run_el<'t>(h: BoxedElementApi<'t>, body: &Body, env: &Env) -> BoxedApi<'t> { run(Cur::E(h), body, env) }

fn run<'t>(h: Cur<'t>, body: &Body, env: &Env) -> BoxedApi<'t> {
    match ops(h, &body.ops, env) {
        Cur::E(h) => h.into_boxed(),
        Cur::G(h) => h,
    }
}

fn ops<'t>(mut h: Cur<'t>, list: &[Op], env: &Env) -> Cur<'t> {
    for op in list { h = one(h, op, env); }
    h
}

/// Builder closures. Each holds a token so that its release can be observed.
macro_rules! el_builder {
    ($body:expr, $env:expr, $n:ident) => {{
        let (body, env, tok, mut $n) = ($body.clone(), $env.clone(), $env.ctx.token(), 0i64);
        move |h| {
            let _tok = &tok;
            $n += 1;
            env.ctx.cb(body.site, "builder");
            run_el(into_el(h), &body, &env.k($n))
        }
    }};
}

fn into_el<'t, S: html5_fuser::ElementStream + 'static>(h: Api<'t, S>) -> BoxedElementApi<'t> { h.into_boxed_element() }
fn into_gen<'t, S: Stream + 'static>(h: Api<'t, S>) -> BoxedApi<'t> { h.into_boxed() }

macro_rules! common {
    // Operations available on both kinds of stream. `$conv` turns the builder argument into Cur.
    ($h:expr, $op:expr, $env:expr, $conv:expr, $convrep:expr) => {{
        let env: &Env = $env;
        match $op.k {
            OpK::Select(mode, ref sel, ref body) => {
                let s = selector(sel, env);
                match mode {
                    Mode::Any => $h.select(s, el_builder!(body, env, n)).into_boxed(),
                    Mode::Once => $h.select_once(s, el_builder!(body, env, n)).into_boxed(),
                    Mode::Direct => $h.select_direct(s, el_builder!(body, env, n)).into_boxed(),
                    Mode::DirectOnce => $h.select_direct_once(s, el_builder!(body, env, n)).into_boxed(),
                }
            }
            OpK::Remove => $h.remove().into_boxed(),
            OpK::Prepend(ref c) => $h.prepend(content(c, env)).into_boxed(),
            OpK::Append(ref c) => $h.append(content(c, env)).into_boxed(),
            OpK::Replace(ref c) => $h.replace(content(c, env)).into_boxed(),
            OpK::Repeat(ref it, ref body) => {
                let (body, env2, tok, mut n) = (body.clone(), env.clone(), env.ctx.token(), 0i64);
                with_iter!(it, env, |x| $h.repeat(x, move |h, item| {
                    let _tok = &tok;
                    n += 1;
                    env2.ctx.cb(body.site, "builder");
                    run($convrep(h), &body, &env2.item(item).k(n))
                }).into_boxed())
            }
            OpK::RepeatOrElse(ref it, ref body, ref els) => {
                let (body, els, env2, env3, tok, tok2, mut n) =
                    (body.clone(), els.clone(), env.clone(), env.clone(), env.ctx.token(), env.ctx.token(), 0i64);
                with_iter!(it, env, |x| $h.repeat_or_else(x, move |h, item| {
                    let _tok = &tok;
                    n += 1;
                    env2.ctx.cb(body.site, "builder");
                    run($convrep(h), &body, &env2.item(item).k(n))
                }, move |h| {
                    let _tok = tok2;
                    env3.ctx.cb(els.site, "builder");
                    run($conv(h), &els, &env3)
                }).into_boxed())
            }
            OpK::Apply(ref body) => {
                let (body, env2, tok) = (body.clone(), env.clone(), env.ctx.token());
                $h.apply(move |h| { let _tok = tok; env2.ctx.cb(body.site, "builder"); run($conv(h), &body, &env2) }).into_boxed()
            }
            OpK::ApplyIf(p, ref body) => {
                let (body, env2, tok) = (body.clone(), env.clone(), env.ctx.token());
                $h.apply_if(p, move |h| { let _tok = tok; env2.ctx.cb(body.site, "builder"); run($conv(h), &body, &env2) }).into_boxed()
            }
            OpK::ApplyIfElse(p, ref a, ref b) => {
                let (a, b, e1, e2, t1, t2) = (a.clone(), b.clone(), env.clone(), env.clone(), env.ctx.token(), env.ctx.token());
                $h.apply_if_else(p,
                    move |h| { let _tok = t1; e1.ctx.cb(a.site, "builder"); run($conv(h), &a, &e1) },
                    move |h| { let _tok = t2; e2.ctx.cb(b.site, "builder"); run($conv(h), &b, &e2) },
                ).into_boxed()
            }
            OpK::ApplyOption(v, ref a, ref b) => {
                let (a, b, e1, e2, t1, t2) = (a.clone(), b.clone(), env.clone(), env.clone(), env.ctx.token(), env.ctx.token());
                $h.apply_with_option(v,
                    move |h, v| { let _tok = t1; e1.ctx.cb(a.site, "builder"); run($conv(h), &a, &e1.item(v)) },
                    move |h| { let _tok = t2; e2.ctx.cb(b.site, "builder"); run($conv(h), &b, &e2) },
                ).into_boxed()
            }
            OpK::ApplyResult(v, ref a, ref b) => {
                let (a, b, e1, e2, t1, t2) = (a.clone(), b.clone(), env.clone(), env.clone(), env.ctx.token(), env.ctx.token());
                $h.apply_with_result(v,
                    move |h, v| { let _tok = t1; e1.ctx.cb(a.site, "builder"); run($conv(h), &a, &e1.item(v)) },
                    move |h, v| { let _tok = t2; e2.ctx.cb(b.site, "builder"); run($conv(h), &b, &e2.item(v)) },
                ).into_boxed()
            }
            OpK::ApplyBoxed(ref body) => {
                let (body, env2, tok) = (body.clone(), env.clone(), env.ctx.token());
                $h.apply_as_boxed(move |h| { let _tok = tok; env2.ctx.cb(body.site, "builder"); run(Cur::G(h), &body, &env2) }).into_boxed()
            }
            OpK::ApplyTemplate(ref f) => {
                let (f, env2, tok) = (f.clone(), env.clone(), env.ctx.token());
                $h.apply_as_template(move |t| { let _tok = tok; tpl_fn(t, &f, &env2) }).into_boxed()
            }
            ref other => panic!("harness: element operation {:?} on a plain stream", other),
        }
    }};
}

fn tpl_fn(t: Template, f: &TplFn, env: &Env) -> Result<Template, StreamError> {
    let n = env.ctx.cb(f.site, "template function");
    for x in &env.ctx.faults {
        if x.site == f.site && x.nth == n && x.kind == FaultKind::Err {
            return Err(env.ctx.raise(x.id, "template_fn_error"));
        }
    }
    let transform = |t: &Template| {
        let (env2, body) = (env.clone(), f.body.clone());
        nested(env, || {
            let tok = env2.ctx.token();
            t.transform(move |h| {
                let _tok = tok;
                env2.ctx.cb(body.site, "builder");
                run(Cur::G(h.into_boxed()), &body, &env2)
            })
        })
    };
    match f.result {
        TplResult::Transformed => {
            let r = transform(&t);
            if let Err(ref e) = r {
                // Handed back to the library: now it is an error of the surrounding transform.
                env.ctx.captured.borrow_mut().pop();
                env.ctx.fired.borrow_mut().push(err_id(e));
            }
            r
        }
        TplResult::TransformOrSame => Ok(transform(&t).unwrap_or(t)),
        TplResult::Same => Ok(t),
        TplResult::Other(i) => Ok((*env.ctx.world.frags[i]).clone()),
    }
}

fn conv_e<'t, S: html5_fuser::ElementStream + 'static>(h: Api<'t, S>) -> Cur<'t> { Cur::E(into_el(h)) }
fn conv_g<'t, S: Stream + 'static>(h: Api<'t, S>) -> Cur<'t> { Cur::G(into_gen(h)) }

/// No content, in much memory: streams of long chains are as large as that.
struct Wide([u64; 80]);

impl Stream for Wide {
    fn next_event(&mut self) -> html5_fuser::event::StreamResult { self.0[79] += 1; Ok(None) }
}

fn one<'t>(h: Cur<'t>, op: &Op, env: &Env) -> Cur<'t> {
    let h = match h {
        Cur::G(h) if env.ctx.made.get() % 7 == 3 => return Cur::G(common!(h.append(Wide([0; 80])), op, env, conv_g, conv_g)),
        Cur::G(h) => return Cur::G(common!(h, op, env, conv_g, conv_g)),
        Cur::E(h) => h,
    };
    macro_rules! keep_fn {
        ($b:expr) => {{
            let (b, env2, tok) = ($b.clone(), env.clone(), env.ctx.token());
            move |h| { let _tok = tok; env2.ctx.cb(b.site, "builder"); run_keep(into_el(h), &b, &env2) }
        }};
    }
    macro_rules! keep_fn_v {
        ($b:expr) => {{
            let (b, env2, tok) = ($b.clone(), env.clone(), env.ctx.token());
            move |h, v| { let _tok = tok; env2.ctx.cb(b.site, "builder"); run_keep(into_el(h), &b, &env2.item(v)) }
        }};
    }
    match op.k {
        OpK::Attr(ref a) => Cur::E(attr(h, a, env)),
        OpK::RemoveContents => Cur::E(h.remove_contents().into_boxed_element()),
        OpK::PrependContents(ref c) => Cur::E(h.prepend_contents(content(c, env)).into_boxed_element()),
        OpK::AppendContents(ref c) => Cur::E(h.append_contents(content(c, env)).into_boxed_element()),
        OpK::ReplaceContents(ref c) => Cur::E(h.replace_contents(content(c, env)).into_boxed_element()),
        OpK::SubContents(ref body) => {
            let (body, env2, tok) = (body.clone(), env.clone(), env.ctx.token());
            Cur::E(h.subselect_contents(move |h| {
                let _tok = tok;
                env2.ctx.cb(body.site, "builder");
                run(Cur::G(h.into_boxed()), &body, &env2)
            }).into_boxed_element())
        }
        OpK::Subselect(mode, ref sel, ref body) => {
            let s = selector(sel, env);
            Cur::E(match mode {
                Mode::Any => h.subselect(s, el_builder!(body, env, n)).into_boxed_element(),
                Mode::Once => h.subselect_once(s, el_builder!(body, env, n)).into_boxed_element(),
                Mode::Direct => h.subselect_direct(s, el_builder!(body, env, n)).into_boxed_element(),
                Mode::DirectOnce => h.subselect_direct_once(s, el_builder!(body, env, n)).into_boxed_element(),
            })
        }
        OpK::RepeatContents(ref it, ref body) => {
            let (body, env2, tok, mut n) = (body.clone(), env.clone(), env.ctx.token(), 0i64);
            Cur::E(with_iter!(it, env, |x| h.repeat_contents(x, move |h, item| {
                let _tok = &tok;
                n += 1;
                env2.ctx.cb(body.site, "builder");
                run(conv_g(h), &body, &env2.item(item).k(n))
            }).into_boxed_element()))
        }
        OpK::RepeatContentsOrElse(ref it, ref body, ref els) => {
            let (body, els, env2, env3, tok, tok2, mut n) =
                (body.clone(), els.clone(), env.clone(), env.clone(), env.ctx.token(), env.ctx.token(), 0i64);
            Cur::G(with_iter!(it, env, |x| h.repeat_contents_or_else(x, move |h, item| {
                let _tok = &tok;
                n += 1;
                env2.ctx.cb(body.site, "builder");
                run(conv_g(h), &body, &env2.item(item).k(n))
            }, move |h| {
                let _tok = tok2;
                env3.ctx.cb(els.site, "builder");
                run(conv_e(h), &els, &env3)
            }).into_boxed()))
        }
        OpK::BoxedElement(ref body) => {
            let (b, env2, tok) = (body.clone(), env.clone(), env.ctx.token());
            if body.keeps {
                Cur::E(h.apply_as_boxed_element(move |h| { let _tok = tok; env2.ctx.cb(b.site, "builder"); run_keep(h, &b, &env2) }).into_boxed_element())
            } else {
                Cur::G(h.apply_as_boxed_element(move |h| { let _tok = tok; env2.ctx.cb(b.site, "builder"); run_el(h, &b, &env2) }).into_boxed())
            }
        }
        // Conditional forms whose branches keep the element stay elements.
        OpK::Apply(ref b) if b.keeps => Cur::E(h.apply(keep_fn!(b)).into_boxed_element()),
        OpK::ApplyIf(p, ref b) if b.keeps => Cur::E(h.apply_if(p, keep_fn!(b)).into_boxed_element()),
        OpK::ApplyIfElse(p, ref a, ref b) if a.keeps && b.keeps => Cur::E(h.apply_if_else(p, keep_fn!(a), keep_fn!(b)).into_boxed_element()),
        OpK::ApplyOption(v, ref a, ref b) if a.keeps && b.keeps => Cur::E(h.apply_with_option(v, keep_fn_v!(a), keep_fn!(b)).into_boxed_element()),
        OpK::ApplyResult(v, ref a, ref b) if a.keeps && b.keeps => Cur::E(h.apply_with_result(v, keep_fn_v!(a), keep_fn_v!(b)).into_boxed_element()),
        _ => Cur::G(common!(h, op, env, conv_e, conv_e)),
    }
}

/// Does the operation leave an element stream an element stream?
pub fn keeps(op: &OpK) -> bool {
    match *op {
        OpK::Attr(_) | OpK::RemoveContents | OpK::PrependContents(_) | OpK::AppendContents(_) | OpK::ReplaceContents(_)
        | OpK::SubContents(_) | OpK::Subselect(..) | OpK::RepeatContents(..) => true,
        OpK::BoxedElement(ref b) | OpK::Apply(ref b) | OpK::ApplyIf(_, ref b) => b.keeps,
        OpK::ApplyIfElse(_, ref a, ref b) | OpK::ApplyOption(_, ref a, ref b) | OpK::ApplyResult(_, ref a, ref b) => a.keeps && b.keeps,
        _ => false,
    }
}

#[derive(Debug)]
pub enum Outcome { Ok(Template), Fail(ErrId) }

/// Runs one transform step on the real library.
pub fn transform(src: &Template, body: &B, ctx: &Rc<StepCtx>) -> Outcome {
    let env = Env { ctx: ctx.clone(), item: -1, k: 0 };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let (b, tok) = (body.clone(), ctx.token());
        src.transform(move |h| {
            let _tok = tok;
            env.ctx.cb(b.site, "builder");
            run(Cur::G(h.into_boxed()), &b, &env)
        })
    }));
    match r {
        Ok(Ok(t)) => Outcome::Ok(t),
        Ok(Err(e)) => {
            if let Some(w) = wrong_cause(&e) { ctx.odd("wrong-cause", w); }
            Outcome::Fail(err_id(&e))
        }
        Err(p) => match p.downcast::<InjectedPanic>() {
            Ok(p) => Outcome::Fail(ErrId::Panic(p.0)),
            Err(p) => resume_unwind(p),
        },
    }
}

// ---------------------------------------------------------------------------------------------
// Reference interpreter

pub struct MCtx<'w> {
    pub world: &'w MWorld,
    pub faults: Vec<Fault>,
    pub counts: BTreeMap<Site, u32>,
    /// What the shared queue gave to this step's iterators, by site and instance.
    pub taken: HashMap<(Site, u32), Vec<i64>>,
    instances: HashMap<Site, u32>,
    /// While planning: how many items each shared iterator might get.
    pub assumed: Option<(u32, u32)>,
    pub budget: usize,
    /// Calls out of the library so far.
    pub calls: u64,
    /// Some model result may differ from the real one for a reason the plan knows.
    pub torn: bool,
    /// A nested transform failed and its error became a value: how much of it ran before is
    /// not determined by the model.
    pub captured: bool,
    /// Something was put into the document, be it the same as what was there: equal content,
    /// though the library may tell the two apart (static and owned text do not compare equal).
    pub inserted: bool,
    pub healed: bool,
}

pub fn m_enter(m: &mut MCtx, site: Site) -> Result<(), ErrId> { m.cb(site).map(|_| ()) }

type MRes = Result<Vec<Node>, ErrId>;

#[derive(Clone, Copy)]
pub struct MEnv { pub item: i64, pub k: i64 }

impl<'w> MCtx<'w> {
    pub fn new(world: &'w MWorld, faults: Vec<Fault>) -> MCtx<'w> {
        MCtx { world, faults, counts: BTreeMap::new(), taken: HashMap::new(), instances: HashMap::new(), assumed: None, budget: 200_000, calls: 0, torn: false, captured: false, inserted: false, healed: false }
    }
    fn cb(&mut self, site: Site) -> Result<u32, ErrId> {
        let n = self.counts.entry(site).or_insert(0);
        *n += 1;
        let n = *n - 1;
        self.work()?;
        for f in &self.faults {
            if f.site == site && f.nth == n && f.kind == FaultKind::Panic && f.pos == u32::MAX {
                return Err(ErrId::Panic(f.id));
            }
        }
        Ok(n)
    }
    /// One more call out of the library. (Programs that need far too many are not run.)
    fn work(&mut self) -> Result<(), ErrId> {
        self.calls += 1;
        if self.calls > 2_000_000 { return Err(ErrId::Other("model budget".into())); }
        Ok(())
    }
    fn spend(&mut self, n: usize) -> Result<(), ErrId> {
        if self.budget < n { return Err(ErrId::Other("model budget".into())); }
        self.budget -= n;
        Ok(())
    }
}

pub fn name_error(n: &Name) -> Option<ErrId> {
    model::ident_cause(n.text).map(|e| ErrId::Lib(intern(&format!("name: {}", e))))
}

pub fn m_value(v: &Val, e: MEnv, w: &MWorld) -> String {
    match *v {
        Val::Static(s) => model::encode(s),
        Val::Owned(ref s) => model::encode(s),
        Val::Shared(i) | Val::SharedRef(i) => model::encode(&w.values[i]),
        Val::Int(ty, v) => int_text(ty, v),
        Val::K => e.k.to_string(),
        Val::Item => e.item.to_string(),
    }
}

pub fn has_class(t: &Tag, c: &str) -> bool {
    t.attrs.iter().any(|(n, v)| model::ident_eq(n, "class")
        && v.as_ref().map_or(false, |v| v.split_whitespace().any(|x| model::ident_eq(x, c))))
}

fn has_id(t: &Tag, id: &str) -> bool {
    t.attrs.iter().any(|(n, v)| model::ident_eq(n, "id") && v.as_ref().map_or(false, |v| model::ident_eq(v, id)))
}

pub fn matches(sel: &Sel, n: &Node) -> bool {
    match n.tag() {
        None => false,
        Some(t) => sel.tag.as_ref().map_or(true, |x| model::ident_eq(x, &t.name))
            && sel.id.as_ref().map_or(true, |x| has_id(t, x))
            && sel.classes.iter().all(|c| has_class(t, c)),
    }
}

fn m_attr(t: &mut Tag, op: &AttrOp, e: MEnv, w: &MWorld) {
    let is = |n: &Name, a: &(String, Option<String>)| model::ident_eq(n.text, &a.0);
    let val = |v: &Val| m_value(v, e, w);
    let id = Name { text: "id", via: NameVia::Static, bad: false };
    match *op {
        AttrOp::AddWith(ref n, ref v) => t.attrs.push((n.text.into(), Some(val(v)))),
        AttrOp::Add(ref n, ref v) => t.attrs.push((n.text.into(), v.as_ref().map(val))),
        AttrOp::AddEmpty(ref n) => t.attrs.push((n.text.into(), None)),
        AttrOp::AddTo(ref n, ref v, ref s) => m_add_to(t, n.text, val(v), val(s)),
        AttrOp::Replace(ref n, ref v) => {
            let l = t.attrs.len();
            t.attrs.retain(|a| !is(n, a));
            if t.attrs.len() != l { t.attrs.push((n.text.into(), Some(val(v)))); }
        }
        AttrOp::SetWith(ref n, ref v) => { t.attrs.retain(|a| !is(n, a)); t.attrs.push((n.text.into(), Some(val(v)))) }
        AttrOp::Set(ref n, ref v) => { t.attrs.retain(|a| !is(n, a)); t.attrs.push((n.text.into(), v.as_ref().map(val))) }
        AttrOp::SetEmpty(ref n) => { t.attrs.retain(|a| !is(n, a)); t.attrs.push((n.text.into(), None)) }
        AttrOp::Remove(ref n) => t.attrs.retain(|a| !is(n, a)),
        AttrOp::AddClass(ref n) => m_add_to(t, "class", n.text.into(), " ".into()),
        AttrOp::RemoveClass(ref n) => {
            for a in t.attrs.iter_mut() {
                if !model::ident_eq(&a.0, "class") { continue; }
                let v = match a.1 { Some(ref v) => v.clone(), None => continue };
                if !v.split_whitespace().any(|c| model::ident_eq(c, n.text)) { continue; }
                let rest: Vec<&str> = v.split_whitespace().filter(|c| !model::ident_eq(c, n.text)).collect();
                // An attribute left without classes is dropped; marked by an impossible name.
                if rest.is_empty() { a.0.clear(); } else { a.1 = Some(rest.join(" ")); }
            }
            t.attrs.retain(|a| !a.0.is_empty());
        }
        AttrOp::RemoveId => t.attrs.retain(|a| !is(&id, a)),
        AttrOp::SetId(ref n) => { t.attrs.retain(|a| !is(&id, a)); t.attrs.push(("id".into(), Some(n.text.into()))) }
    }
}

fn m_add_to(t: &mut Tag, name: &str, v: String, sep: String) {
    for a in t.attrs.iter_mut() {
        if model::ident_eq(&a.0, name) {
            a.1 = Some(match a.1.take() { Some(old) => old + &sep + &v, None => v });
            return;
        }
    }
    t.attrs.push((name.into(), Some(v)));
}

pub fn attr_name(op: &AttrOp) -> Option<&Name> {
    match *op {
        AttrOp::AddWith(ref n, _) | AttrOp::Add(ref n, _) | AttrOp::AddEmpty(ref n) | AttrOp::AddTo(ref n, _, _)
        | AttrOp::Replace(ref n, _) | AttrOp::SetWith(ref n, _) | AttrOp::Set(ref n, _) | AttrOp::SetEmpty(ref n)
        | AttrOp::Remove(ref n) | AttrOp::AddClass(ref n) | AttrOp::RemoveClass(ref n) | AttrOp::SetId(ref n) => Some(n),
        AttrOp::RemoveId => None,
    }
}

/// The model of a content argument: evaluated when the operation is built, raised when pulled.
fn m_content(c: &Content, e: MEnv, m: &mut MCtx) -> Result<MRes, ErrId> {
    let w = m.world;
    m.inserted = true;
    match *c {
        Content::Frag(i) | Content::FragRc(i) | Content::FragClone(i) => m.spend(1 + model::count(&w.frags[i]))?,
        Content::Doc(i) | Content::Transformed(i, _) => m.spend(1 + model::count(&w.docs[i]))?,
        Content::User(ref spec) => m.spend(1 + 2 * model::count(&w.frags[spec.frag]))?,
        // (Loading is much work.)
        Content::Load(ref spec) => m.spend(100 + 2 * model::count(&spec.nodes))?,
        _ => (),
    }
    Ok(match *c {
        Content::Static(s) => Ok(vec![Node::Text(model::encode(s))]),
        Content::Data(ref s) | Content::Value(ref s) => Ok(vec![Node::Text(model::encode(s))]),
        Content::DataRef(i) => Ok(vec![Node::Text(model::encode(&w.datas[i]))]),
        Content::ValueRef(i) => Ok(vec![Node::Text(model::encode(&w.values[i]))]),
        Content::Int(ty, v) => Ok(vec![Node::Text(int_text(ty, v))]),
        Content::K => Ok(vec![Node::Text(e.k.to_string())]),
        Content::Item => Ok(vec![Node::Text(e.item.to_string())]),
        Content::Frag(i) | Content::FragRc(i) | Content::FragClone(i) => Ok(w.frags[i].clone()),
        Content::Doc(i) => Ok(w.docs[i].clone()),
        Content::Element(ref n) => m_element(n).map(|n| vec![n]),
        Content::TransformedElement(ref n, ref body) => {
            let r = match m_element(n) {
                Err(e) => Err(e),
                Ok(el) => m_nested(vec![el], body, e, m),
            };
            if let Err(ErrId::Panic(_)) = r { return r.map(Ok); }
            if r.is_err() { m.captured = true; }
            r
        }
        Content::Transformed(i, ref body) => {
            let r = m_nested(w.docs[i].clone(), body, e, m);
            if let Err(ErrId::Panic(_)) = r { return r.map(Ok); }
            if r.is_err() { m.captured = true; }
            r
        }
        Content::OkOf(ref c) => return m_content(c, e, m),
        Content::Err(id) => Err(ErrId::Marker(id)),
        Content::ErrFrom(k, id) => if e.k >= k { Err(ErrId::Marker(id)) } else { Ok(vec![Node::Text("+".into())]) },
        Content::Load(ref spec) => {
            let n = m.counts.entry(spec.site).or_insert(0);
            *n += 1;
            match spec.fails(*n - 1, m.healed) { Some(b) => Err(b.want.clone()), None => Ok(spec.nodes.clone()) }
        }
        Content::User(ref spec) => {
            let n = m.counts.entry(spec.site).or_insert(0);
            *n += 1;
            let n = *n - 1;
            let nodes = &w.frags[spec.frag];
            let len = {
                let mut c = 0;
                fn walk(nodes: &[Node], c: &mut u32) {
                    for n in nodes { *c += 1; if let Node::Elem { children, .. } = n { walk(children, c); *c += 1; } }
                }
                walk(nodes, &mut c);
                c
            };
            // The fault at the lowest position the stream reaches.
            let cut = spec.trunc.map_or(u32::MAX, |t| t as u32).min(len);
            let f = m.faults.iter().filter(|f| f.site == spec.site && f.nth == n && f.pos <= cut).min_by_key(|f| f.pos);
            match f {
                Some(f) => Err(match f.kind { FaultKind::Err => ErrId::Marker(f.id), FaultKind::Panic => ErrId::Panic(f.id) }),
                None => {
                    if spec.trunc.map_or(false, |t| (t as u32) < len) { m.torn = true; }
                    Ok(nodes.clone())
                }
            }
        }
    })
}

fn m_element(n: &Name) -> Result<Node, ErrId> {
    if let Some(e) = name_error(n) { return Err(e); }
    let tag = Tag { name: n.text.into(), attrs: Vec::new() };
    Ok(if model::is_void(n.text) { Node::Void(tag) } else { Node::SelfClosed(tag) })
}

fn m_nested(nodes: Vec<Node>, body: &Body, e: MEnv, m: &mut MCtx) -> MRes {
    m.cb(body.site)?;
    m_run(nodes, body, e, m)
}

pub fn m_run(nodes: Vec<Node>, body: &Body, e: MEnv, m: &mut MCtx) -> MRes {
    m_ops(nodes, &body.ops, e, m, body.el)
}

fn m_ops(mut nodes: Vec<Node>, list: &[Op], e: MEnv, m: &mut MCtx, mut el: bool) -> MRes {
    for op in list {
        m.spend(1 + model::count(&nodes))?;
        nodes = m_one(nodes, op, e, m, el)?;
        el = el && keeps(&op.k);
    }
    Ok(nodes)
}

/// The children of an element node for content operations; `None` for void elements.
fn m_contents(nodes: &mut Vec<Node>) -> Option<&mut Vec<Node>> {
    if let Node::SelfClosed(t) = &nodes[0] {
        nodes[0] = Node::Elem { tag: t.clone(), children: Vec::new(), close: t.name.clone() };
    }
    match nodes[0] { Node::Elem { ref mut children, .. } => Some(children), _ => None }
}

struct SelState { k: i64, done: bool }

fn m_select(nodes: Vec<Node>, top: bool, mode: Mode, sel: &Sel, body: &B, e: MEnv, m: &mut MCtx, st: &mut SelState, out: &mut Vec<Node>) -> Result<(), ErrId> {
    let direct = matches!(mode, Mode::Direct | Mode::DirectOnce);
    let once = matches!(mode, Mode::Once | Mode::DirectOnce);
    for n in nodes {
        m.work()?;
        if !(st.done && once) && (top || !direct) && matches(sel, &n) {
            st.k += 1;
            st.done = true;
            m.cb(body.site)?;
            out.extend(m_run(vec![n], body, MEnv { k: st.k, ..e }, m)?);
        } else if let Node::Elem { tag, children, close } = n {
            let mut inner = Vec::new();
            m_select(children, false, mode, sel, body, e, m, st, &mut inner)?;
            out.push(Node::Elem { tag, children: inner, close });
        } else {
            out.push(n);
        }
    }
    Ok(())
}

fn m_items(it: &Iter, m: &mut MCtx) -> Vec<i64> {
    if let IterVia::Shared = it.via {
        if let Some((left, each)) = m.assumed {
            let n = left.min(each);
            m.assumed = Some((left - n, each));
            return (0..n as i64).map(|i| 100 + i).collect();
        }
        let n = m.instances.entry(it.site).or_insert(0);
        *n += 1;
        let key = (it.site, *n);
        return m.taken.remove(&key).unwrap_or_default();
    }
    // Some item of an endless iterator makes the transform fail, at the latest the one at `n`.
    let n = if it.endless() { it.n + 1 } else { it.n };
    (0..n as i64).map(|i| it.base + i).collect()
}

fn m_next(it: &Iter, m: &mut MCtx) -> Result<(), ErrId> {
    if matches!(it.via, IterVia::Lazy | IterVia::Shared | IterVia::Hinted(_) | IterVia::Endless) { m.cb(it.site)?; }
    Ok(())
}

/// `peeked`: the first item has been asked for already (by the fallback decision).
fn m_repeat(nodes: Vec<Node>, it: &Iter, items: Vec<i64>, body: &B, e: MEnv, m: &mut MCtx, peeked: bool) -> MRes {
    let mut out = Vec::new();
    for (i, item) in items.iter().enumerate() {
        if !(peeked && i == 0) { m_next(it, m)?; }
        m.cb(body.site)?;
        m.spend(1 + model::count(&nodes))?;
        out.extend(m_run(nodes.clone(), body, MEnv { item: *item, k: i as i64 + 1 }, m)?);
    }
    if it.endless() { return Err(ErrId::Other("harness: an endless repetition ended".into())); }
    m_next(it, m)?;
    Ok(out)
}

fn m_one(mut nodes: Vec<Node>, op: &Op, e: MEnv, m: &mut MCtx, _el: bool) -> MRes {
    let sel_err = |s: &Sel| s.bad.as_ref().map(|b| ErrId::Lib(b.1));
    match op.k {
        OpK::Select(mode, ref sel, ref body) => {
            if let Some(e) = sel_err(sel) { return Err(e); }
            let mut out = Vec::new();
            m_select(nodes, true, mode, sel, body, e, m, &mut SelState { k: 0, done: false }, &mut out)?;
            Ok(out)
        }
        OpK::Remove => Ok(Vec::new()),
        OpK::Prepend(ref c) => { let mut c = m_content(c, e, m)??; c.extend(nodes); Ok(c) }
        OpK::Append(ref c) => { let c = m_content(c, e, m)??; nodes.extend(c); Ok(nodes) }
        OpK::Replace(ref c) => m_content(c, e, m)?,
        OpK::Repeat(ref it, ref body) => { let items = m_items(it, m); m_repeat(nodes, it, items, body, e, m, false) }
        OpK::RepeatOrElse(ref it, ref body, ref els) => {
            let items = m_items(it, m);
            if items.is_empty() {
                m_next(it, m)?;
                m.cb(els.site)?;
                m_run(nodes, els, e, m)
            } else {
                m_next(it, m)?;
                m_repeat(nodes, it, items, body, e, m, true)
            }
        }
        OpK::Apply(ref b) | OpK::ApplyBoxed(ref b) | OpK::BoxedElement(ref b) => { m.cb(b.site)?; m_run(nodes, b, e, m) }
        OpK::ApplyIf(p, ref b) => if p { m.cb(b.site)?; m_run(nodes, b, e, m) } else { Ok(nodes) },
        OpK::ApplyIfElse(p, ref a, ref b) => { let b = if p { a } else { b }; m.cb(b.site)?; m_run(nodes, b, e, m) }
        OpK::ApplyOption(v, ref a, ref b) => match v {
            Some(v) => { m.cb(a.site)?; m_run(nodes, a, MEnv { item: v, ..e }, m) }
            None => { m.cb(b.site)?; m_run(nodes, b, e, m) }
        },
        OpK::ApplyResult(v, ref a, ref b) => match v {
            Ok(v) => { m.cb(a.site)?; m_run(nodes, a, MEnv { item: v, ..e }, m) }
            Err(v) => { m.cb(b.site)?; m_run(nodes, b, MEnv { item: v, ..e }, m) }
        },
        OpK::ApplyTemplate(ref f) => {
            let n = m.cb(f.site)?;
            if let Some(x) = m.faults.iter().find(|x| x.site == f.site && x.nth == n && x.kind == FaultKind::Err) {
                return Err(ErrId::Marker(x.id));
            }
            match f.result {
                TplResult::Transformed => m_nested(nodes, &f.body, e, m),
                TplResult::TransformOrSame => match m_nested(nodes.clone(), &f.body, e, m) {
                    Err(ErrId::Panic(p)) => Err(ErrId::Panic(p)),
                    Err(ErrId::Other(o)) => Err(ErrId::Other(o)),
                    Err(_) => { m.captured = true; Ok(nodes) }
                    ok => ok,
                },
                TplResult::Same => Ok(nodes),
                TplResult::Other(i) => Ok(m.world.frags[i].clone()),
            }
        }
        OpK::Attr(ref a) => {
            if let Some(e) = attr_name(a).and_then(name_error) { return Err(e); }
            let w = m.world;
            if let Some(t) = nodes[0].tag_mut() {
                let before = t.clone();
                m_attr(t, a, e, w);
                m.inserted |= *t != before || match *a {
                    AttrOp::Remove(_) | AttrOp::RemoveClass(_) | AttrOp::RemoveId => false,
                    AttrOp::Replace(ref n, _) => t.attrs.iter().any(|a| model::ident_eq(n.text, &a.0)),
                    _ => true,
                };
            }
            Ok(nodes)
        }
        OpK::RemoveContents => { if let Some(c) = m_contents(&mut nodes) { c.clear(); } Ok(nodes) }
        OpK::PrependContents(ref c) => {
            let new = m_content(c, e, m)?;
            if let Some(c) = m_contents(&mut nodes) { let mut new = new?; new.append(c); *c = new; }
            Ok(nodes)
        }
        OpK::AppendContents(ref c) => {
            let new = m_content(c, e, m)?;
            if let Some(c) = m_contents(&mut nodes) { c.extend(new?); }
            Ok(nodes)
        }
        OpK::ReplaceContents(ref c) => {
            let new = m_content(c, e, m)?;
            if let Some(c) = m_contents(&mut nodes) { *c = new?; }
            Ok(nodes)
        }
        OpK::SubContents(ref body) => {
            if let Some(c) = m_contents(&mut nodes) {
                m.cb(body.site)?;
                *c = m_run(std::mem::take(c), body, e, m)?;
            }
            Ok(nodes)
        }
        OpK::Subselect(mode, ref sel, ref body) => {
            if let Some(e) = sel_err(sel) { return Err(e); }
            if let Some(c) = m_contents(&mut nodes) {
                let mut out = Vec::new();
                m_select(std::mem::take(c), true, mode, sel, body, e, m, &mut SelState { k: 0, done: false }, &mut out)?;
                *c = out;
            }
            Ok(nodes)
        }
        OpK::RepeatContents(ref it, ref body) => {
            let items = m_items(it, m);
            if let Some(c) = m_contents(&mut nodes) {
                *c = m_repeat(std::mem::take(c), it, items, body, e, m, false)?;
            }
            Ok(nodes)
        }
        OpK::RepeatContentsOrElse(ref it, ref body, ref els) => {
            let items = m_items(it, m);
            m_next(it, m)?;
            if items.is_empty() {
                m.cb(els.site)?;
                return m_run(nodes, els, e, m);
            }
            if let Some(c) = m_contents(&mut nodes) {
                *c = m_repeat(std::mem::take(c), it, items, body, e, m, true)?;
            }
            Ok(nodes)
        }
    }
}
