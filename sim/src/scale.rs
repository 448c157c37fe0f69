//! Very deep, very wide and very often: histories past the counters and buffers small inputs
//! never fill. What is expected is spelled out by construction, without the reference model.

use crate::load::{clip, run_all};
use crate::sched::{self, violation, Check};
use crate::tape::Tape;
use html5_fuser::text::{Data, Value};
use html5_fuser::{ParseOptions, Template};

/// A count around a power of two.
fn count(t: &mut Tape, big: bool) -> usize {
    let p = match t.weighted(&[3, 4, 2, 1, if big { 2 } else { 0 }]) { 0 => 128, 1 => 256, 2 => 512, 3 => 1024, _ => 65_536 };
    (p + t.usize(4)).saturating_sub(1)
}

struct Case { what: &'static str, text: String, want: String, run: Box<dyn Fn(&Template) -> Result<Template, html5_fuser::event::StreamError>> }

fn point(k: &'static str) { sched::yield_point(k, 0) }

/// A chain `d` deep, with something innermost.
fn chain(name: &str, d: usize, inner: &str) -> String {
    let (o, c) = (format!("<{}>", name), format!("</{}>", name));
    let mut s = String::with_capacity(d * (o.len() + c.len()) + inner.len());
    for _ in 0..d { s.push_str(&o); }
    s.push_str(inner);
    for _ in 0..d { s.push_str(&c); }
    s
}

fn case(t: &mut Tape, kinds: &[usize]) -> Case {
    let kind = *t.pick(kinds);
    let pre = *t.pick(&["", "p", "<i>p</i>", "<br>", "<!--c-->"]);
    let post = *t.pick(&["", "q", "<u>q</u>", "<hr>", "<!--d-->"]);
    let wrap = |s: String| format!("{}{}{}", pre, s, post);
    match kind {
        // Deep.
        0 => {
            let d = count(t, true);
            Case {
                what: "append_contents below a deep chain", text: wrap(chain("b", d, "x") + "<b>t</b>"),
                want: wrap(format!("{}z</b><b>tz</b>", chain("b", d, "x").strip_suffix("</b>").unwrap())),
                run: Box::new(|h| h.transform(|h| h.select("b", |h| { point("body"); h.append_contents("z") }))),
            }
        }
        1 => {
            let d = count(t, true);
            Case {
                what: "attribute on the first of a deep chain", text: wrap(chain("b", d, "x") + "<b>t</b>"),
                want: wrap(format!("<b k=\"v\">{}<b>t</b>", chain("b", d, "x").strip_prefix("<b>").unwrap())),
                run: Box::new(|h| h.transform(|h| h.select_once("b", |h| { point("body"); h.set_attribute_with_value("k", "v") }))),
            }
        }
        2 => {
            let d = count(t, true);
            let c = chain("b", d, "<s>in</s>");
            Case {
                what: "select_direct after a deep chain", text: wrap(format!("{}<s>end</s>{}<s>end</s>", c, c)),
                want: wrap(format!("{}<s>z</s>{}<s>z</s>", c, c)),
                run: Box::new(|h| h.transform(|h| h.select_direct("s", |h| { point("body"); h.replace_contents("z") }))),
            }
        }
        3 => {
            let d = count(t, true);
            let c = chain(if t.chance(1, 2) { "b" } else { "a" }, d, "<s>in</s>");
            let once = t.chance(1, 2);
            Case {
                what: "subselect_direct after a deep chain", text: wrap(format!("<a>{}<s>e</s><s>f</s></a>", c)),
                want: wrap(format!("<a>{}<s>ez</s><s>f{}</s></a>", c, if once { "" } else { "z" })),
                run: Box::new(move |h| h.transform(|h| h.select("a", |h| {
                    point("body");
                    if once { h.subselect_direct_once("s", |h| h.append_contents("z")).into_boxed() } else { h.subselect_direct("s", |h| h.append_contents("z")).into_boxed() }
                }))),
            }
        }
        4 => {
            let d = count(t, true);
            let how = t.usize(4);
            let c = chain("a", d, "x");
            let (first, rest) = match how { 0 => ("<a>z</a>".to_string(), c.clone()), 1 => (String::new(), c.clone()), 2 => ("z".to_string(), c.clone()), _ => ("<a></a>".to_string(), c.clone()) };
            Case {
                what: "a deep element replaced", text: wrap(c.clone() + &c), want: wrap(first + &rest),
                run: Box::new(move |h| h.transform(|h| h.select_once("a", |h| {
                    point("body");
                    match how { 0 => h.replace_contents("z").into_boxed(), 1 => h.remove().into_boxed(), 2 => h.replace("z").into_boxed(), _ => h.remove_contents().into_boxed() }
                }))),
            }
        }
        5 => {
            let d = count(t, true);
            let c = chain("b", d, "<s>in</s>");
            Case {
                what: "the innermost of a deep chain", text: wrap(c.clone() + "<s>o</s>"),
                want: wrap(chain("b", d, "<s k=\"v\">in</s>") + "<s k=\"v\">o</s>"),
                run: Box::new(|h| h.transform(|h| h.select("s", |h| { point("body"); h.set_attribute_with_value("k", "v") }))),
            }
        }
        6 => {
            let d = count(t, true);
            let c = wrap(chain("b", d, "<s>in</s>") + "<s>o</s>");
            let how = t.usize(4);
            Case {
                what: "nothing done to a deep chain", text: c.clone(), want: c,
                run: Box::new(move |h| h.transform(|h| {
                    point("body");
                    match how {
                        0 => h.select_direct("zz", |h| h.remove()).into_boxed(),
                        1 => h.select("b", |h| h).into_boxed(),
                        2 => h.apply_as_template(Ok).into_boxed(),
                        _ => h.select("b", |h| h.subselect_contents(|h| h.prepend(""))).into_boxed(),
                    }
                })),
            }
        }
        7 => {
            let d = count(t, true);
            let n = t.range(2, 3);
            let c = chain("b", d, "x");
            Case {
                what: "a deep element repeated", text: wrap(c.clone()), want: wrap(c.repeat(n)),
                run: Box::new(move |h| h.transform(|h| h.select("b", |h| { point("body"); h.repeat(0..n, |h, _| h) }))),
            }
        }
        // Wide.
        8 => {
            let n = count(t, true);
            let direct = t.chance(1, 2);
            Case {
                what: "attribute on many siblings", text: wrap("<b>x</b><s></s>".repeat(n)), want: wrap("<b k=\"v\">x</b><s></s>".repeat(n)),
                run: Box::new(move |h| h.transform(|h| if direct {
                    h.select_direct("b", |h| { point("body"); h.set_attribute_with_value("k", "v") }).into_boxed()
                } else {
                    h.select("b", |h| { point("body"); h.set_attribute_with_value("k", "v") }).into_boxed()
                })),
            }
        }
        9 => {
            let n = count(t, true);
            let v = Value::from_unencoded_str("<v>");
            Case {
                what: "one value inserted many times", text: wrap(format!("<a>{}</a>", "<b></b>".repeat(n))), want: wrap(format!("<a>{}</a>", "<b>&lt;v&gt;</b>".repeat(n))),
                run: Box::new(move |h| { let v = v.clone(); h.transform(|h| h.select("a", move |h| { let v = v.clone(); h.subselect("b", move |h| { point("body"); h.replace_contents(&v) }) })) }),
            }
        }
        10 => {
            let n = count(t, true);
            let at = t.usize(n);
            let mut parts = vec!["<b>x</b>".to_string(); n];
            let text = wrap({ parts[at] = "<b id=\"me\">x</b>".into(); parts.concat() });
            parts[at] = "<b id=\"me\">xz</b>".into();
            Case {
                what: "one of many siblings", text, want: wrap(parts.concat()),
                run: Box::new(|h| h.transform(|h| h.select("#me", |h| { point("body"); h.append_contents("z") }))),
            }
        }
        // Repetition.
        11 => {
            let n = count(t, true);
            let how = t.usize(3);
            let items: String = (0..n).map(|i| format!("<b>{}</b>", i)).collect();
            let inner: String = (0..n).map(|i| format!("x{}", i)).collect();
            Case {
                what: "many repetitions", text: wrap("<b>x</b>".into()), want: wrap(if how == 2 { format!("<b>{}</b>", inner) } else { items }),
                run: Box::new(move |h| h.transform(|h| h.select_once("b", |h| {
                    point("body");
                    match how {
                        0 => h.repeat(0..n, |h, i| h.subselect_contents(move |h| h.replace(i)).into_boxed()).into_boxed(),
                        1 => h.repeat_or_else(0..n, |h, i| h.replace_contents(i), |h| h.remove()).into_boxed(),
                        _ => h.repeat_contents(0..n, |h, i| h.append(i)).into_boxed(),
                    }
                }))),
            }
        }
        // Attributes.
        12 => {
            let n = count(t, true);
            let at = t.usize(n);
            let name: &'static str = crate::gen::intern(&format!("a{}", at));
            let how = t.usize(3);
            let all = |skip: Option<usize>| (0..n).filter(|i| Some(*i) != skip).map(|i| format!(" a{}=\"{}\"", i, i)).collect::<String>();
            let want = match how {
                0 => format!("<b{}>x</b>", all(Some(at))),
                1 => format!("<b{} {}=\"new\">x</b>", all(Some(at)), name),
                _ => format!("<b{} zz=\"new\">x</b>", all(None)),
            };
            Case {
                what: "one of many attributes", text: wrap(format!("<b{}>x</b>", all(None))), want: wrap(want),
                run: Box::new(move |h| h.transform(|h| h.select("b", |h| {
                    point("body");
                    match how { 0 => h.remove_attribute(name).into_boxed(), 1 => h.set_attribute_with_value(name, "new").into_boxed(), _ => h.add_attribute_with_value("zz", "new").into_boxed() }
                }))),
            }
        }
        13 => {
            let n = count(t, true);
            let at = t.usize(n);
            let name: &'static str = crate::gen::intern(&format!("c{}", at));
            let sel: &'static str = crate::gen::intern(&format!(".c{}", t.usize(n)));
            let classes = |skip: Option<usize>| (0..n).filter(|i| Some(*i) != skip).map(|i| format!("c{}", i)).collect::<Vec<_>>().join(" ");
            Case {
                what: "one of many classes", text: wrap(format!("<b class=\"{}\">x</b>", classes(None))), want: wrap(format!("<b class=\"{}\">x</b>", classes(Some(at)))),
                run: Box::new(move |h| h.transform(|h| h.select(sel, |h| { point("body"); h.remove_class(name) }))),
            }
        }
        14 => {
            let n = t.range(120, 300);
            let joined = (0..n).map(|i| format!("{}", i)).collect::<Vec<_>>();
            let j2 = joined.clone();
            Case {
                what: "an attribute added to many times", text: wrap("<b k=\"s\">x</b>".into()), want: wrap(format!("<b k=\"s&amp;{}\">x</b>", joined.join("&amp;"))),
                run: Box::new(move |h| h.transform(|h| h.select("b", |h| {
                    point("body");
                    let mut h = h.into_boxed_element();
                    for i in &j2 { h = h.add_to_attribute("k", Value::from_unencoded_str(i), "&").into_boxed_element(); }
                    h
                }))),
            }
        }
        // Long operation chains.
        15 => {
            let n = t.range(120, 300);
            let how = t.usize(3);
            let want = match how { 0 => format!("<b>x{}</b>", "y".repeat(n)), 1 => format!("<b>{}x</b>", "y".repeat(n)), _ => format!("{}<b>x</b>{}", "l".repeat(n), "r".repeat(n)) };
            Case {
                what: "many operations in a row", text: wrap("<b>x</b>".into()), want: wrap(want),
                run: Box::new(move |h| h.transform(|h| h.select("b", |h| {
                    point("body");
                    if how == 2 {
                        let mut h = h.into_boxed();
                        for _ in 0..n { h = h.prepend("l").append("r").into_boxed(); }
                        return h;
                    }
                    let mut h = h.into_boxed_element();
                    for _ in 0..n { h = if how == 0 { h.append_contents("y").into_boxed_element() } else { h.prepend_contents("y").into_boxed_element() }; }
                    h.into_boxed()
                }))),
            }
        }
        // Long text.
        16 => {
            let n = count(t, true);
            let s = "a<\u{e9}&".repeat(n);
            let e = "a&lt;\u{e9}&amp;".repeat(n);
            let v = t.chance(1, 2);
            Case {
                what: "long text", text: wrap("<b>x</b>".into()), want: wrap(if v { format!("<b k=\"{}\">x</b>", e) } else { format!("<b>x{}</b>", e) }),
                run: Box::new(move |h| h.transform(|h| h.select("b", |h| {
                    point("body");
                    if v { h.set_attribute_with_value("k", Value::from_unencoded_str(&s)).into_boxed() } else { h.append_contents(Data::from_unencoded_str(&s)).into_boxed() }
                }))),
            }
        }
        // Large pieces inserted, repeated, dropped, looked through.
        18 => {
            let n = count(t, true);
            let how = t.usize(8);
            let owned = t.chance(1, 2);
            let many: String = (0..n).map(|i| if i % 2 == 0 { format!("<i>{}</i>", i % 10) } else { "t<br>".into() }).collect();
            let piece = Template::from_str(&many, ParseOptions::default()).expect("piece");
            let want = match how {
                0 => format!("{}<b>x<u>y</u></b>", many), 1 => format!("<b>x<u>y</u></b>{}", many), 2 => many.clone(),
                3 => format!("<b>{}x<u>y</u></b>", many), 4 => format!("<b>x<u>y</u>{}</b>", many), 5 => format!("<b>{}</b>", many),
                6 => format!("<b>{0}x<u>y</u>{0}</b>", many), _ => format!("<b>x<u>{}</u></b>", many),
            };
            Case {
                what: "much inserted", text: wrap("<b>x<u>y</u></b>".into()), want: wrap(want),
                run: Box::new(move |h| {
                    let rc = std::rc::Rc::new(piece.clone());
                    let p = &piece;
                    h.transform(|h| h.select_once("b", |h| {
                        point("body");
                        match (how, owned) {
                            (0, true) => h.prepend(rc.clone()).into_boxed(), (0, _) => h.prepend(p).into_boxed(),
                            (1, true) => h.append(rc.clone()).into_boxed(), (1, _) => h.append(p).into_boxed(),
                            (2, true) => h.replace(rc.clone()).into_boxed(), (2, _) => h.replace(p).into_boxed(),
                            (3, true) => h.prepend_contents(rc.clone()).into_boxed(), (3, _) => h.prepend_contents(p).into_boxed(),
                            (4, true) => h.append_contents(rc.clone()).into_boxed(), (4, _) => h.append_contents(p).into_boxed(),
                            (5, true) => h.replace_contents(rc.clone()).into_boxed(), (5, _) => h.replace_contents(p).into_boxed(),
                            (6, _) => h.append_contents(p).prepend_contents(rc.clone()).into_boxed(),
                            _ => h.subselect("u", move |h| h.replace_contents(rc.clone())).into_boxed(),
                        }
                    }))
                }),
            }
        }
        19 => {
            let n = count(t, true);
            let k = t.range(2, 3);
            let how = t.usize(3);
            let inner: String = (0..n).map(|i| if i % 2 == 0 { format!("<i>{}</i>", i % 10) } else { "t<br>".into() }).collect();
            let copies = |f: &dyn Fn(usize) -> String| (0..k).map(f).collect::<String>();
            let want = match how {
                0 => copies(&|i| format!("<b k=\"{}\">{}</b>", i, inner)),
                1 => format!("<b>{}</b>", copies(&|i| format!("{}{}", i, inner))),
                _ => format!("<b>{}</b>", copies(&|i| format!("{}{}", inner, i))),
            };
            Case {
                what: "a wide element repeated", text: wrap(format!("<b>{}</b>", inner)), want: wrap(want),
                run: Box::new(move |h| h.transform(|h| h.select("b", |h| {
                    point("body");
                    match how {
                        0 => h.repeat(0..k, |h, i| h.set_attribute_with_value("k", i)).into_boxed(),
                        1 => h.repeat_contents(0..k, |h, i| h.prepend(i)).into_boxed(),
                        _ => h.repeat_contents_or_else(0..k, |h, i| h.append(i), |h| h.remove()).into_boxed(),
                    }
                }))),
            }
        }
        20 => {
            let n = count(t, true);
            let how = t.usize(7);
            let inner: String = (0..n).map(|i| if i % 2 == 0 { format!("<i>{}</i>", i % 10) } else { "t<br>".into() }).collect();
            let want = match how {
                0 => "<b></b>".into(), 1 => String::new(), 2 => "<b>z</b>".into(), 3 => "z".into(),
                4 => format!("<b>{}z</b>", inner), 5 => format!("<b k=\"v\">{}</b>", inner), _ => format!("<b>z{}</b>", inner),
            };
            Case {
                what: "a wide element changed", text: wrap(format!("<b>{0}</b>", inner)), want: wrap(want),
                run: Box::new(move |h| h.transform(|h| h.select("b", |h| {
                    point("body");
                    match how {
                        0 => h.remove_contents().into_boxed(), 1 => h.remove().into_boxed(),
                        2 => h.replace_contents("z").into_boxed(), 3 => h.replace("z").into_boxed(),
                        4 => h.subselect_contents(|h| h.apply_as_template(|t| t.transform(|h| h.append("z")))).into_boxed(),
                        5 => h.apply_as_boxed_element(|h| h.into_boxed_element().set_attribute_with_value("k", "v")).into_boxed(),
                        _ => h.subselect_contents(|h| h.prepend("z")).into_boxed(),
                    }
                }))),
            }
        }
        // Transforms within transforms within transforms.
        21 => {
            let n = t.range(20, 130);
            let how = t.usize(4);
            fn down<'t>(h: html5_fuser::transform::BoxedElementApi<'t>, d: usize, how: usize) -> html5_fuser::transform::BoxedElementApi<'t> {
                point("body");
                if d == 0 { return h.append_contents("z").into_boxed_element() }
                match how {
                    0 => h.subselect_direct("b", move |h| down(h.into_boxed_element(), d - 1, how)).into_boxed_element(),
                    1 => h.subselect_once("b", move |h| down(h.into_boxed_element(), d - 1, how)).into_boxed_element(),
                    2 => h.subselect("b", move |h| down(h.into_boxed_element(), d - 1, how)).into_boxed_element(),
                    _ => h.subselect_direct_once("b", move |h| down(h.into_boxed_element(), d - 1, how)).into_boxed_element(),
                }
            }
            let c = chain("b", n + 1, "x");
            let tail = t.range(0, 3);
            let inner = chain("b", tail, "<u>y</u>");
            let text = chain("b", n + 1, &format!("x{}", inner));
            let want = chain("b", n + 1, &format!("x{}z", inner));
            let _ = c;
            Case {
                what: "selections within selections", text: wrap(text), want: wrap(want),
                run: Box::new(move |h| h.transform(|h| h.select("b", |h| down(h.into_boxed_element(), n, how)))),
            }
        }
        22 => {
            let n = t.range(20, 130);
            let how = t.usize(4);
            fn nest<'t>(h: html5_fuser::transform::BoxedApi<'t>, d: usize, how: usize) -> html5_fuser::transform::BoxedApi<'t> {
                point("body");
                if d == 0 { return h.append("z").into_boxed() }
                match how {
                    0 => h.apply(|h| nest(h, d - 1, how)).into_boxed(),
                    1 => h.apply_if(d > 0, |h| nest(h, d - 1, how)).into_boxed(),
                    2 => h.apply_if_else(d % 2 == 0, |h| nest(h.into_boxed(), d - 1, how), |h| nest(h.into_boxed(), d - 1, how)).into_boxed(),
                    _ => h.apply_with_option(Some(d - 1), |h, d| nest(h.into_boxed(), d, how), |h| h).into_boxed(),
                }
            }
            Case {
                what: "delegation nested deep", text: wrap("<b>x</b>".into()), want: format!("{}z", wrap("<b>x</b>".into())),
                run: Box::new(move |h| h.transform(|h| nest(h.into_boxed(), n, how))),
            }
        }
        23 => {
            let n = t.range(20, 300);
            let how = t.usize(2);
            let text: String = (0..n).map(|i| format!("<e{0} class=\"k\">{0}</e{0}>", i)).collect();
            let want: String = (0..n).map(|i| format!("<e{0} class=\"k\">{0}z{0}</e{0}>", i)).collect();
            let tags: Vec<&'static str> = (0..n).map(|i| crate::gen::intern(&format!("e{}", i))).collect();
            Case {
                what: "many selections in a row", text: wrap(text), want: wrap(want),
                run: Box::new(move |h| h.transform(|h| {
                    let mut h = h.into_boxed();
                    for (i, tag) in tags.iter().enumerate() {
                        h = if how == 0 { h.select(*tag, move |h| { point("body"); h.append_contents("z").append_contents(i) }).into_boxed() }
                        else { h.select_direct_once(*tag, move |h| { point("body"); h.append_contents("z").append_contents(i) }).into_boxed() };
                    }
                    h
                })),
            }
        }
        24 => {
            let n = t.range(20, 300);
            let at = t.usize(n);
            let have: String = (0..n).map(|i| format!("c{} ", n - 1 - i)).collect();
            let less: String = (0..n).filter(|i| *i != at).map(|i| format!("c{} ", i)).collect();
            let sel: Vec<String> = (0..n).map(|i| format!("c{}", i)).collect();
            let s: &'static str = crate::gen::intern(&sel.iter().map(|c| format!(".{}", c)).collect::<String>());
            let how = t.usize(2);
            Case {
                what: "a selector of many classes",
                text: wrap(format!("<b class=\"{}\">x</b><b class=\"{}\">y</b>", have, less)),
                want: wrap(format!("<b class=\"{}\">xz</b><b class=\"{}\">y</b>", have, less)),
                run: Box::new(move |h| h.transform(|h| if how == 0 {
                    h.select(html5_fuser::select::Classes::from_str_iterator(sel.iter().map(|s| &s[..])), |h| { point("body"); h.append_contents("z") }).into_boxed()
                } else {
                    h.select(s, |h| { point("body"); h.append_contents("z") }).into_boxed()
                })),
            }
        }
        25 => {
            let n = t.range(130, 600);
            let how = t.usize(4);
            Case {
                what: "one template transformed many times", text: wrap("<b>x</b><s>y</s>".into()), want: wrap("<b>xz</b><s>y</s>".into()),
                run: Box::new(move |h| {
                    let full = h.to_string();
                    let mut kept = Vec::new();
                    for i in 0..n {
                        point("again");
                        match how {
                            0 => (),
                            1 => assert!(h.transform(|h| h.select("b", |h| h.set_attribute_with_value("not a name", "v"))).is_err(), "scale: no error in round {}", i),
                            2 => assert!(h.to_string() == full, "scale: rendered differently in round {}", i),
                            _ => kept.push(h.clone()),
                        }
                        let r = h.transform(|h| h.select("b", |h| h.append_contents("z")))?;
                        if i + 1 == n { return Ok(r) }
                        if i % 7 == 0 { kept.push(r) }
                    }
                    Ok(h.clone())
                }),
            }
        }
        // A long way to the first error.
        26 => {
            let n = count(t, false);
            let at = t.usize(n);
            let how = t.usize(3);
            let doc = wrap("<b>x</b>".into());
            Case {
                what: "an error after many repetitions", text: doc.clone(), want: doc,
                run: Box::new(move |h| {
                    let calls = std::rc::Rc::new(std::cell::Cell::new(0usize));
                    let seen = calls.clone();
                    let name = move |i: usize| { seen.set(seen.get() + 1); point("item"); if i == at { "not a name" } else { "k" } };
                    let r = h.transform(|h| h.select("b", move |h| { let name = name.clone(); match how {
                        0 => h.repeat(0..n, move |h, i| h.set_attribute_with_value(name(i), i)).into_boxed(),
                        1 => h.repeat_contents(0..n, move |h, i| h.select(name(i), |h| h)).into_boxed(),
                        _ => h.repeat_or_else(0..n, move |h, i| h.append_contents(i).set_id(name(i)), |h| h).into_boxed(),
                    } }));
                    assert!(r.is_err(), "scale: the error of item {} of {} was lost", at, n);
                    assert!(calls.get() == at + 1, "scale: {} items used, the error was in number {}", calls.get(), at);
                    Ok(h.clone())
                }),
            }
        }
        // The same again and again.
        _ => {
            let n = t.range(130, 300);
            Case {
                what: "many transforms in a row", text: wrap("<b>x</b><s>y</s>".into()), want: wrap(format!("<b>x{}</b><s>y</s>", "z".repeat(n))),
                run: Box::new(move |h| {
                    let mut cur = h.clone();
                    for _ in 0..n { cur = cur.transform(|h| { point("again"); h.select("b", |h| h.append_contents("z")) })?; }
                    Ok(cur)
                }),
            }
        }
    }
}

pub fn run(t: &mut Tape, kinds: &'static [usize]) -> Check {
    let mut clients: Vec<Box<dyn FnOnce() -> Check>> = Vec::new();
    for _ in 0..t.weighted(&[0, 3, 1]) {
        let c = case(t, kinds);
        sched::observe(c.what.as_bytes());
        sched::observe(c.text.as_bytes());
        clients.push(Box::new(move || {
            let tpl = match Template::from_str(&c.text, ParseOptions::default()) {
                Ok(t) => t,
                Err(e) => return violation("scale-rejected", format!("{}: {:?} for {:?}", c.what, e, clip(&c.text))),
            };
            let before = tpl.to_string();
            if before != c.text { return violation("scale-not-preserved", format!("{}: {} bytes rendered as {}", c.what, c.text.len(), before.len())); }
            let r = (c.run)(&tpl);
            let out = match r { Ok(o) => o.to_string(), Err(e) => return violation("scale-failed", format!("{} failed with {:?} on {:?}", c.what, e, clip(&c.text))) };
            if out != c.want {
                let k = out.bytes().zip(c.want.bytes()).take_while(|(a, b)| a == b).count();
                let around = |s: &str| { let mut a = k.saturating_sub(20).min(s.len()); while !s.is_char_boundary(a) { a -= 1; } let mut z = (k + 40).min(s.len()); while !s.is_char_boundary(z) { z -= 1; } s[a..z.max(a)].to_string() };
                return violation("scale-differs", format!("{}: {} bytes of input gave {} bytes instead of {}; at byte {}: {:?} instead of {:?}", c.what, c.text.len(), out.len(), c.want.len(), k, around(&out), around(&c.want)));
            }
            match Template::from_str(&out, ParseOptions::default()) {
                Ok(ref r) if r.to_string() == out => (),
                Ok(_) => return violation("scale-not-reparsable", format!("{}: reparsing changes the result", c.what)),
                Err(e) => return violation("scale-not-reparsable", format!("{}: {:?}", c.what, e)),
            }
            if tpl.to_string() != before { return violation("template-changed", c.what); }
            sched::probe(if c.text.len() > 200_000 || c.want.len() > 200_000 { "scale_huge" } else { "scale_large" });
            Ok(())
        }));
    }
    run_all(clients)
}
