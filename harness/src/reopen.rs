//! Documents that are written, read and gone on with.

use crate::build;
use crate::pkg::{unzip, zip_parts, Pkg};
use docx_rs::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

/// The digits that follow this name in a quoted value.
fn numbers(s: &str, name: &str, out: &mut BTreeSet<usize>) {
    let start = format!("\"{name}");
    for (i, _) in s.match_indices(&start) {
        let rest = &s[i + start.len()..];
        if let Some(n) = rest.split('"').next().and_then(|x| x.parse().ok()) {
            out.insert(n);
        }
    }
}

/// The package as another process could have written it: the ids in it are the ones that are
/// drawn next in this one.
fn as_drawn_next(bytes: &[u8]) -> Vec<u8> {
    let mut parts = unzip(bytes).expect("HARNESS: parts");
    let link = match Hyperlink::new("x", HyperlinkType::External).link {
        HyperlinkData::External { rid, .. } => rid,
        _ => String::new(),
    };
    let image = Pic::new_with_dimensions(vec![1], 1, 1).id;
    for drawn in [link, image] {
        let name = drawn.trim_end_matches(|c: char| c.is_ascii_digit()).to_string();
        let Ok(last) = drawn[name.len()..].parse::<usize>() else { continue };
        let mut used = BTreeSet::new();
        for (_, b) in &parts {
            if let Ok(s) = std::str::from_utf8(b) {
                numbers(s, &name, &mut used);
            }
        }
        let new: BTreeMap<usize, usize> = used.into_iter().enumerate().map(|(i, n)| (n, last + 1 + i)).collect();
        for (_, b) in &mut parts {
            if let Ok(s) = std::str::from_utf8(b) {
                // in two steps, so that no id is replaced twice
                let mut t = s.to_string();
                for (old, new) in &new {
                    t = t.replace(&format!("\"{name}{old}\""), &format!("\"{name}*{new}\""));
                }
                *b = t.replace(&format!("\"{name}*"), &format!("\"{name}")).into_bytes();
            }
        }
    }
    zip_parts(&parts)
}

pub fn reopen(d: Docx, how: &str) -> Docx {
    let mut b = if how == "direct" { build::pack_direct(d) } else { build::pack_built(d) };
    if how == "fresh" {
        b = as_drawn_next(&b);
    }
    read_docx(&b).expect("the written package")
}

/// Definitions that are there more than once.
pub fn twice(p: &Pkg) -> Value {
    let mut out = BTreeSet::new();
    for (part, element, id) in [
        ("styles", "style", "styleId"),
        ("numbering", "abstractNum", "abstractNumId"),
        ("numbering", "num", "numId"),
    ] {
        let mut seen = BTreeSet::new();
        for e in p.related(part).and_then(|n| p.xml.get(&n)).into_iter().flat_map(|x| x.els()) {
            let v = e.attr(id).unwrap_or_default().to_string();
            if e.local == element && !seen.insert(v.clone()) {
                out.insert(format!("{element} {v}"));
            }
        }
    }
    json!(out)
}
