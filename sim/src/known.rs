//! Fixed probes for recorded findings. A probe that fails is quiet (a KNOWN-FINDING line) only
//! while known-findings.txt lists it.

use html5_fuser::{ParseOptions, Template};
use std::path::Path;

pub struct Probe { pub id: &'static str, pub what: String, pub fails: bool, pub listed: bool }

fn rejected<E>(t: Result<Template, E>) -> bool {
    match t {
        Ok(t) => Template::from_str(&t.to_string(), ParseOptions::default()).is_err(),
        Err(_) => false,
    }
}

/// Whether the probe fails on the present code.
pub fn run_probe(id: &str) -> Option<bool> {
    match id {
        "quote-in-attribute-name" => {
            let t = Template::from_str("<b></b>", ParseOptions::default()).ok()?;
            Some(rejected(t.transform(|h| h.select("b", |h| h.add_empty_attribute("x'y")))))
        }
        "quote-in-tag-name" => Some(rejected(Template::with_element("x'y"))),
        "bang-in-tag-name" => Some(rejected(Template::with_element("!--"))),
        _ => None,
    }
}

const C14: [(&str, &str); 3] = [
    ("quote-in-attribute-name", "add_empty_attribute(\"x'y\") is accepted, but the result <b x'y></b> cannot be parsed again"),
    ("quote-in-tag-name", "Template::with_element(\"x'y\") is accepted, but the result <x'y /> cannot be parsed again"),
    ("bang-in-tag-name", "Template::with_element(\"!--\") is accepted, but the result <!-- /> parses as an unclosed comment"),
];

pub fn probes(prop: &str, root: &Path) -> Result<Vec<Probe>, String> {
    let path = root.join("known-findings.txt");
    let text = std::fs::read_to_string(&path).map_err(|e| format!("{}: {}", path.display(), e))?;
    let list: &[(&'static str, &'static str)] = if prop == "C14" { &C14 } else { &[] };
    Ok(list.iter().map(|(id, what)| Probe {
        id,
        what: what.to_string(),
        fails: run_probe(id).unwrap_or(false),
        listed: text.lines().any(|l| l.starts_with(&format!("known: property={} id={} ", prop, id))),
    }).collect())
}
