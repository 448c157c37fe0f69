//! The properties: which scenario decides each, with which operation mix, faults and oracles.

use crate::gen::{self, Gen, Prof, SiteKind, NKINDS};
use crate::load;
use crate::prog::*;
use crate::scale;
use crate::sched::{self, Check};
use crate::tape::Tape;
use crate::trans::{self, Opts};
use std::rc::Rc;

pub const ALL: [&str; 17] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17",
];

/// Simulated runs per check: (quick, thorough).
pub fn runs(prop: &str) -> (u64, u64) {
    let q = match prop {
        "C01" => 90_000,
        "C02" | "C03" | "C05" => 160_000,
        "C04" => 1_200_000,
        "C06" | "C08" | "C09" => 500_000,
        "C11" => 120_000,
        "C13" => 140_000,
        "C12" | "C14" | "C15" => 300_000,
        "C16" => 260_000,
        _ => 400_000,
    };
    (q, q * 20)
}

//                       sel rm pre app rep rpt roe ap  if  ie opt res box tpl | bel sub ssl crm cpr cap crp crt cro attr
const MIX: [u32; NKINDS] = [8, 1, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 2, 2, 4, 1, 3, 3, 3, 2, 1, 5];

fn base() -> Prof {
    Prof {
        w: MIX, bad: 0, user: 2, load: 1, stall: 20, fault: 0, panic: 0, trunc: 0, clients: 1, steps: 2, depth: 2,
        width: 5, shared: false, size: 14, nasty: false,
    }
}

/// Swarm testing: each run drops some kinds of operations, so that the others dominate.
fn swarm(t: &mut Tape, p: &mut Prof, keep: &[usize]) {
    if t.chance(1, 2) {
        for i in 0..NKINDS {
            if keep.contains(&i) { continue; }
            if t.chance(1, 3) { p.w[i] = 0; }
        }
    }
    p.size = match t.weighted(&[4, 3, 1]) { 0 => p.size, 1 => 6, _ => 30 };
    if t.chance(1, 4) { p.depth = 3; }
    if t.chance(1, 8) { p.width = 9; }
}

fn go(t: &mut Tape, p: &Prof, o: Opts, make: Option<trans::BodyFn>) -> Check {
    match trans::plan(t, p, make) {
        Some((pl, l)) => trans::run(pl, l, o),
        None => { sched::probe("documents_not_usable"); Ok(()) }
    }
}

/// Which of the large-scale histories bear on a property.
fn large(prop: &str) -> &'static [usize] {
    match prop {
        "C07" => &[0, 1, 2, 5, 6, 6, 6, 8, 10, 18, 20],
        "C08" => &[0, 1, 2, 2, 3, 3, 5, 8, 9, 10, 13, 21, 21, 23, 24],
        "C09" => &[0, 3, 4, 4, 7, 9, 14, 15, 15, 16, 18, 18, 20, 20],
        "C10" => &[1, 5, 8, 12, 12, 13, 13, 14, 16],
        "C11" => &[7, 7, 11, 11, 19, 19, 26],
        "C12" => &[26, 26, 25],
        "C13" => &[9, 17, 17, 0, 8, 11, 25, 25],
        "C14" => &[0, 2, 3, 4, 5, 6, 7, 8, 11, 18, 19, 20, 21],
        "C15" => &[18, 19, 21, 22],
        "C16" => &[9, 14, 16, 16],
        "C17" => &[6, 15, 17, 21, 22, 22, 22],
        _ => &[],
    }
}

pub fn scenario(prop: &str, t: &mut Tape) -> Check {
    gen::vocabulary(t);
    let l = large(prop);
    if !l.is_empty() && t.chance(1, 250) { return scale::run(t, l); }
    match prop {
        "C01" => load::c01(t),
        "C02" => load::c02(t),
        "C03" => load::c03(t),
        "C04" => load::c04(t),
        "C05" => load::c05(t),
        "C06" => load::c06(t),
        "C07" => c07(t),
        "C08" => c08(t),
        "C09" => c09(t),
        "C10" => c10(t),
        "C11" => c11(t),
        "C12" => c12(t),
        "C13" => if t.chance(1, 6) { load::c13(t) } else { c13(t) },
        "C14" => c14(t),
        "C15" => c15(t),
        "C16" => if t.chance(1, 2) { load::c16(t) } else { c16_programs(t) },
        "C17" => c17(t),
        _ => panic!("harness: unknown property {}", prop),
    }
}

// ---------------------------------------------------------------------------------------------

fn rc_body(g: &mut Gen, ops: Vec<OpK>, el: bool) -> B {
    let b = g.noop_body(el);
    let mut b = Rc::try_unwrap(b).unwrap();
    b.keeps = el && ops.iter().all(keeps);
    b.ops = ops.into_iter().map(|k| Op { k }).collect();
    Rc::new(b)
}

/// A body made of operations that each leave the stream as it is.
fn identity(g: &mut Gen, t: &mut Tape, depth: usize, el: bool) -> B {
    let n = t.range(if depth > 1 { 1 } else { 0 }, 3);
    let mut ops = Vec::new();
    let mut cur = el;
    for _ in 0..n {
        let d = depth.saturating_sub(1);
        let k = if cur && t.chance(1, 3) {
            match t.usize(4) {
                0 => OpK::Attr(AttrOp::Remove(Name { text: "nope", via: NameVia::Static, bad: false })),
                1 => OpK::Attr(AttrOp::Replace(Name { text: "Nope", via: NameVia::Owned, bad: false }, Val::Static("z"))),
                2 => OpK::Attr(AttrOp::RemoveClass(Name { text: "nope", via: NameVia::Static, bad: false })),
                _ => if d == 0 { OpK::BoxedElement(g.noop_body(true)) } else { OpK::BoxedElement(identity(g, t, d, true)) },
            }
        } else {
            let sub = |g: &mut Gen, t: &mut Tape, el: bool| if d == 0 { g.noop_body(el) } else { identity(g, t, d, el) };
            match t.weighted(&[8, 2, 2, 2, 2, 2, 1, 1, 2]) {
                0 => {
                    let m = *t.pick(&[Mode::Any, Mode::Once, Mode::Direct, Mode::DirectOnce]);
                    let mut s = g.sel(t);
                    if t.chance(1, 4) {
                        // Nothing matches: any body will do.
                        s = Sel { site: s.site, via: SelVia::Static, tag: Some("zz".into()), id: None, classes: vec![], bad: None, lit: "zz" };
                        let b = g.body(t, d, true);
                        OpK::Select(m, s, b)
                    } else {
                        let b = sub(g, t, true);
                        OpK::Select(m, s, b)
                    }
                }
                1 => OpK::Apply(sub(g, t, cur)),
                2 => { let b = g.body(t, d, cur); OpK::ApplyIf(false, b) }
                3 => {
                    let p = t.chance(1, 2);
                    let (a, b) = (sub(g, t, cur), g.body(t, d, cur));
                    if p { OpK::ApplyIfElse(true, a, b) } else { OpK::ApplyIfElse(false, b, a) }
                }
                4 => {
                    let (a, b) = (sub(g, t, cur), g.body(t, d, cur));
                    if t.chance(1, 2) { OpK::ApplyOption(Some(4), a, b) } else { OpK::ApplyOption(None, b, a) }
                }
                5 => {
                    let (a, b) = (sub(g, t, cur), g.body(t, d, cur));
                    if t.chance(1, 2) { OpK::ApplyResult(Ok(4), a, b) } else { OpK::ApplyResult(Err(5), b, a) }
                }
                6 => OpK::ApplyBoxed(sub(g, t, false)),
                7 => {
                    let site = g.sites.len() as u32 + 1;
                    g.sites.push((site, SiteKind::Tpl));
                    let result = if t.chance(1, 2) { TplResult::Transformed } else { TplResult::Same };
                    let body = sub(g, t, false);
                    OpK::ApplyTemplate(Rc::new(TplFn { site, body, result }))
                }
                _ => {
                    let site = g.sites.len() as u32 + 1;
                    g.sites.push((site, SiteKind::Iter));
                    let it = Iter { site, via: if t.chance(1, 2) { IterVia::Lazy } else { IterVia::Vec }, n: 1, base: 3 };
                    let b = sub(g, t, cur);
                    OpK::Repeat(it, b)
                }
            }
        };
        cur = cur && keeps(&k);
        ops.push(k);
    }
    rc_body(g, ops, el)
}

fn c07(t: &mut Tape) -> Check {
    let mut p = base();
    p.clients = 2;
    p.stall = 30;
    let o = Opts { equal: true, ..Opts::default() };
    if t.chance(1, 3) {
        p.size = 20;
        let mut make = |g: &mut Gen, t: &mut Tape| identity(g, t, 2, false);
        return go(t, &p, o, Some(&mut make));
    }
    swarm(t, &mut p, &[0]);
    go(t, &p, o, None)
}

fn c08(t: &mut Tape) -> Check {
    let mut p = base();
    p.w = [20, 1, 1, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 3, 12, 1, 1, 1, 1, 1, 1, 3];
    p.clients = 2;
    p.depth = 3;
    p.bad = if t.chance(1, 4) { 40 } else { 0 };
    swarm(t, &mut p, &[0, 16]);
    go(t, &p, Opts::default(), None)
}

fn c09(t: &mut Tape) -> Check {
    let mut p = base();
    p.w = [6, 3, 5, 5, 5, 1, 1, 1, 0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 7, 7, 7, 1, 1, 1];
    p.stall = 40;
    p.user = 4;
    p.width = 6;
    swarm(t, &mut p, &[0]);
    go(t, &p, Opts::default(), None)
}

fn c10(t: &mut Tape) -> Check {
    let mut p = base();
    p.w = [6, 0, 1, 1, 0, 1, 0, 1, 1, 0, 0, 0, 1, 1, 2, 1, 4, 0, 1, 1, 1, 0, 0, 40];
    p.clients = 3;
    p.width = 8;
    p.bad = if t.chance(1, 6) { 20 } else { 0 };
    p.nasty = t.chance(1, 4);
    swarm(t, &mut p, &[0, 23]);
    go(t, &p, Opts::default(), None)
}

fn c11(t: &mut Tape) -> Check {
    let mut p = base();
    p.w = [5, 1, 1, 1, 1, 8, 6, 1, 1, 1, 1, 1, 1, 1, 1, 2, 3, 1, 2, 2, 2, 8, 6, 3];
    p.size = 9;
    p.user = 4;
    if t.chance(1, 1500) {
        // Very many items.
        let n = *t.pick(&[65_536usize, 65_537, 70_000, 40_000]);
        let which = t.usize(4);
        p.size = 2;
        p.steps = 1;
        let mut make = |g: &mut Gen, t: &mut Tape| {
            let site = g.sites.len() as u32 + 1;
            g.sites.push((site, SiteKind::Iter));
            let it = Iter { site, via: if t.chance(1, 2) { IterVia::Lazy } else { IterVia::Range }, n, base: 0 };
            let inner = g.noop_body(false);
            let els = g.noop_body(which == 3);
            match which {
                0 => rc_body(g, vec![OpK::Remove, OpK::Append(Content::Static("i")), OpK::Repeat(it, inner)], false),
                1 => rc_body(g, vec![OpK::Replace(Content::Static("i")), OpK::RepeatOrElse(it, inner, els)], false),
                _ => {
                    let mut s = g.sel(t);
                    s = Sel { site: s.site, via: SelVia::Static, tag: Some("b".into()), id: None, classes: vec![], bad: None, lit: "b" };
                    let op = if which == 2 { OpK::RepeatContents(it, inner) } else { OpK::RepeatContentsOrElse(it, inner, els) };
                    let b = rc_body(g, vec![OpK::ReplaceContents(Content::Static("i")), op], true);
                    rc_body(g, vec![OpK::Select(Mode::Once, s, b)], false)
                }
            }
        };
        return go(t, &p, Opts::default(), Some(&mut make));
    }
    p.shared = t.chance(2, 5);
    p.clients = if p.shared { 4 } else { 2 };
    if p.shared { p.steps = 3; }
    if t.chance(1, 3) { p.fault = 40; p.panic = 40; }
    p.bad = if t.chance(1, 4) { 20 } else { 0 };
    p.stall = 30;
    swarm(t, &mut p, &[0, 5, 6, 21, 22]);
    go(t, &p, Opts::default(), None)
}

fn c12(t: &mut Tape) -> Check {
    let mut p = base();
    p.w[13] = 3;
    p.user = 8;
    p.load = 3;
    p.bad = *t.pick(&[0, 0, 20, 60]);
    p.fault = 75;
    p.steps = 3;
    p.clients = 2;
    p.nasty = false;
    swarm(t, &mut p, &[0]);
    go(t, &p, Opts { retry: true, ..Opts::default() }, None)
}

fn c13(t: &mut Tape) -> Check {
    let mut p = base();
    p.clients = 5;
    p.steps = 3;
    p.user = 4;
    p.stall = 30;
    p.bad = *t.pick(&[0, 0, 20]);
    p.fault = *t.pick(&[0, 30, 60]);
    p.panic = *t.pick(&[0, 50, 100]);
    p.trunc = *t.pick(&[0, 0, 30]);
    swarm(t, &mut p, &[0]);
    go(t, &p, Opts { solo: true, leak: true, retry: true, ..Opts::default() }, None)
}

fn c14(t: &mut Tape) -> Check {
    let mut p = base();
    p.steps = 4;
    p.user = 3;
    p.nasty = t.chance(1, 4);
    p.bad = if t.chance(1, 6) { 20 } else { 0 };
    swarm(t, &mut p, &[0]);
    go(t, &p, Opts { balanced: true, ..Opts::default() }, None)
}

fn c15(t: &mut Tape) -> Check {
    let mut p = base();
    p.user = 30;
    p.stall = 85;
    p.clients = 2;
    p.size = 8;
    p.fault = if t.chance(1, 4) { 40 } else { 0 };
    p.bad = if t.chance(1, 8) { 20 } else { 0 };
    swarm(t, &mut p, &[0]);
    go(t, &p, Opts { stalls: true, ..Opts::default() }, None)
}

fn c16_programs(t: &mut Tape) -> Check {
    let mut p = base();
    p.w = [6, 0, 3, 3, 2, 1, 1, 1, 0, 0, 0, 0, 1, 1, 1, 1, 3, 0, 4, 4, 4, 1, 0, 12];
    p.nasty = true;
    p.steps = 3;
    p.clients = 2;
    p.size = 8;
    swarm(t, &mut p, &[0]);
    go(t, &p, Opts { store: true, ..Opts::default() }, None)
}

fn c17(t: &mut Tape) -> Check {
    let mut p = base();
    p.w = [6, 1, 2, 2, 1, 1, 2, 7, 7, 7, 7, 7, 6, 7, 7, 1, 2, 1, 2, 2, 1, 1, 2, 3];
    p.user = 3;
    p.depth = 3;
    p.fault = if t.chance(1, 3) { 40 } else { 0 };
    p.bad = if t.chance(1, 4) { 20 } else { 0 };
    swarm(t, &mut p, &[0]);
    go(t, &p, Opts::default(), None)
}
