//! Tables of contents: what they list, where the entries lead, and their instructions.

use crate::build::{self, N};
use crate::pkg::Pkg;
use crate::xml::El;
use docx_rs::*;
use serde_json::{json, Map, Value};
use std::str::FromStr;

/// Switches and arguments of a field instruction, by the rules of the format: arguments may be
/// quoted, and within quotes a backslash takes away the meaning of a quote or backslash.
fn split(s: &str) -> Vec<(String, bool)> {
    let c: Vec<char> = s.chars().collect();
    let (mut v, mut i) = (vec![], 0);
    while i < c.len() {
        if c[i].is_whitespace() {
            i += 1;
        } else if c[i] == '"' {
            let mut t = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' && i + 1 < c.len() && (c[i + 1] == '\\' || c[i + 1] == '"') {
                    i += 1;
                }
                t.push(c[i]);
                i += 1;
            }
            i += 1;
            v.push((t, true));
        } else {
            let mut t = String::new();
            while i < c.len() && !c[i].is_whitespace() && c[i] != '"' {
                t.push(c[i]);
                i += 1;
            }
            v.push((t, false));
        }
    }
    v
}
fn switches(s: &str) -> Value {
    let mut m = Map::new();
    let mut last: Option<String> = None;
    for (t, quoted) in split(s).into_iter().skip(1) {
        if !quoted && t.starts_with('\\') {
            let k = t[1..].to_string();
            if m.contains_key(&k) {
                return json!({"twice": k});
            }
            m.insert(k.clone(), json!(""));
            last = Some(k);
        } else if let Some(k) = last.take() {
            m.insert(k, json!(t));
        } else {
            return json!({"stray": t});
        }
    }
    Value::Object(m)
}
/// The library's own reading of an instruction.
fn parsed(s: &str) -> Value {
    let t = InstrToC::from_str(s).expect("from_str");
    let mut m = Map::new();
    let mut put = |k: &str, v: String| {
        m.insert(k.to_string(), json!(v));
    };
    for (k, v) in [
        ("a", &t.caption_label),
        ("b", &t.entry_bookmark_name),
        ("c", &t.caption_label_including_numbers),
        ("d", &t.sequence_and_page_numbers_separator),
        ("p", &t.entry_and_page_number_separator),
        ("s", &t.seq_field_identifier_for_prefix),
    ] {
        if let Some(v) = v {
            put(k, v.clone());
        }
    }
    for (k, v) in [("l", t.tc_field_level_range), ("n", t.omit_page_numbers_level_range), ("o", t.heading_styles_range)] {
        if let Some((a, b)) = v {
            put(k, format!("{a}-{b}"));
        }
    }
    for (k, v) in [
        ("h", t.hyperlink),
        ("u", t.use_applied_paragraph_line_level),
        ("w", t.preserve_tab),
        ("x", t.preserve_new_line),
        ("z", t.hide_tab_and_page_numbers_in_webview),
    ] {
        if v {
            put(k, String::new());
        }
    }
    if let Some(f) = &t.tc_field_identifier {
        put("f", f.clone().unwrap_or_default());
    }
    if !t.styles_with_levels.is_empty() {
        put("t", t.styles_with_levels.iter().map(|s| format!("{},{}", s.0 .0, s.0 .1)).collect::<Vec<_>>().join(","));
    }
    Value::Object(m)
}

#[derive(Default)]
struct Field {
    instr: String,
    result: bool,
    toc: Option<usize>,
}
struct Entry {
    level: i64,
    text: String,
    to: String,
    link: String,
}
struct Mark {
    id: String,
    name: String,
    para: usize,
    end: Option<usize>,
    /// texts in that paragraph outside the bookmark
    outside: bool,
}
#[derive(Default)]
struct Walk {
    fields: Vec<Field>,
    unbalanced: usize,
    tocs: Vec<(String, Vec<Entry>)>,
    marks: Vec<Mark>,
    paras: Vec<String>,
    para: usize,
    link: String,
    style: String,
    text: String,
    page: Option<String>,
}
impl Walk {
    fn el(&mut self, e: &El) {
        match e.local.as_str() {
            "p" => {
                self.paras.push(e.attr("paraId").unwrap_or("").to_string());
                self.para = self.paras.len() - 1;
                self.style = e
                    .child("pPr")
                    .and_then(|p| p.child("pStyle"))
                    .and_then(|s| s.attr("val"))
                    .unwrap_or("")
                    .to_string();
                self.text.clear();
                self.page = None;
                self.link.clear();
                let me = self.para;
                let first = self.marks.len();
                let mut early = false;
                self.kids(e, &mut early, first, me);
                if let Some(to) = self.page.take() {
                    let level = self.style.strip_prefix("ToC").and_then(|n| n.parse().ok()).unwrap_or(-1);
                    let entry = Entry { level, text: self.text.clone(), to, link: self.link.clone() };
                    if let Some(t) = self.fields.iter().find_map(|f| f.toc).or(self.tocs.len().checked_sub(1)) {
                        self.tocs[t].1.push(entry);
                    }
                }
            }
            "pPr" | "rPr" | "sectPr" | "tblPr" | "tcPr" | "trPr" | "sdtPr" => {}
            _ => {
                for k in e.els() {
                    self.el(k);
                }
            }
        }
    }
    fn kids(&mut self, e: &El, early: &mut bool, first: usize, me: usize) {
        for k in e.els() {
            match k.local.as_str() {
                "pPr" | "rPr" | "sdtPr" | "del" | "moveFrom" => {}
                "hyperlink" => {
                    if let Some(a) = k.attr("anchor") {
                        self.link = a.to_string();
                    }
                    self.kids(k, early, first, me);
                }
                "bookmarkStart" => {
                    self.marks.push(Mark {
                        id: k.attr("id").unwrap_or("").into(),
                        name: k.attr("name").unwrap_or("").into(),
                        para: me,
                        end: None,
                        outside: *early,
                    });
                }
                "bookmarkEnd" => {
                    let id = k.attr("id").unwrap_or("");
                    if let Some(m) = self.marks.iter_mut().rev().find(|m| m.id == id && m.end.is_none()) {
                        m.end = Some(me);
                    }
                }
                "fldChar" => match k.attr("fldCharType") {
                    Some("begin") => self.fields.push(Field::default()),
                    Some("separate") => {
                        let n = self.tocs.len();
                        if let Some(f) = self.fields.last_mut() {
                            f.result = true;
                            match split(&f.instr).first().map(|t| t.0.clone()).as_deref() {
                                Some("TOC") => {
                                    f.toc = Some(n);
                                    self.tocs.push((f.instr.clone(), vec![]));
                                }
                                Some("PAGEREF") => self.page = split(&f.instr).get(1).map(|t| t.0.clone()),
                                _ => {}
                            }
                        }
                    }
                    _ => {
                        if self.fields.pop().is_none() {
                            self.unbalanced += 1;
                        }
                    }
                },
                "instrText" => {
                    if let Some(f) = self.fields.last_mut() {
                        f.instr.push_str(&k.text());
                    }
                }
                "t" => {
                    let t = k.text();
                    if !t.is_empty() {
                        *early = true;
                        for m in &mut self.marks[first..] {
                            if m.end.is_some() {
                                m.outside = true;
                            }
                        }
                    }
                    match self.fields.last() {
                        Some(f) if f.toc.is_none() => {}
                        _ => self.text.push_str(&t),
                    }
                }
                _ => self.kids(k, early, first, me),
            }
        }
    }
}

pub fn run(c: &Value) -> Value {
    let b = build::pack(build::docx(&N::from(&c["calls"])), build::way(c));
    let p = match Pkg::open(&b) {
        Ok(p) => p,
        Err(e) => return json!({"unreadable": e}),
    };
    let Some(main) = p.xml.get(&p.main_part()) else {
        return json!({"unreadable": format!("main part: {:?}", p.malformed)});
    };
    let mut w = Walk::default();
    w.el(main);
    let defined: Vec<String> = p
        .related("styles")
        .and_then(|s| p.xml.get(&s))
        .map(|s| s.els().filter(|e| e.local == "style").filter_map(|e| e.attr("styleId")).map(String::from).collect())
        .unwrap_or_default();
    let mut nostyle: Vec<i64> = w.tocs.iter().flat_map(|t| t.1.iter().map(|e| e.level)).collect();
    nostyle.sort();
    nostyle.dedup();
    nostyle.retain(|l| defined.iter().filter(|d| **d == format!("ToC{l}")).count() != 1);
    json!({
        "tocs": w.tocs.iter().map(|(i, es)| json!({
            "switches": switches(i),
            "parsed": parsed(i),
            "entries": es.iter().map(|e| json!({"lvl": e.level, "text": e.text, "to": e.to, "link": e.link})).collect::<Vec<_>>(),
        })).collect::<Vec<_>>(),
        "bookmarks": w.marks.iter().map(|m| json!({
            "id": m.id, "name": m.name, "around": w.paras[m.para], "whole": m.end == Some(m.para) && !m.outside,
        })).collect::<Vec<_>>(),
        "nostyle": nostyle,
        "open": w.fields.len() + w.unbalanced,
    })
}

/// One instruction, set call by call.
pub fn instr(c: &Value) -> Value {
    let mut t = InstrToC::new();
    let span = |v: &str| {
        let (a, b) = v.split_once('-').expect("HARNESS: span");
        (a.parse().unwrap(), b.parse().unwrap())
    };
    for call in c["calls"].as_array().expect("HARNESS: calls") {
        let v = call[1].as_str().unwrap();
        t = match call[0].as_str().unwrap() {
            "a" => t.caption_label(v),
            "b" => t.entry_bookmark_name(v),
            "c" => t.caption_label_including_numbers(v),
            "d" => t.sequence_and_page_numbers_separator(v),
            "p" => t.entry_and_page_number_separator(v),
            "s" => t.seq_field_identifier_for_prefix(v),
            "f" => t.tc_field_identifier(if v.is_empty() { None } else { Some(v.to_string()) }),
            "l" => t.tc_field_level_range(span(v).0, span(v).1),
            "n" => t.omit_page_numbers_level_range(span(v).0, span(v).1),
            "o" => t.heading_styles_range(span(v).0, span(v).1),
            "h" => t.hyperlink(),
            "u" => t.use_applied_paragraph_line_level(),
            "w" => t.preserve_tab(),
            "x" => t.preserve_new_line(),
            "z" => t.hide_tab_and_page_numbers_in_webview(),
            "t" => t.add_style_with_level(StyleWithLevel::new(v, call[2].as_str().unwrap().parse().unwrap())),
            k => panic!("HARNESS: instruction setting {k}"),
        };
    }
    let toc = TableOfContents { instr: t, ..TableOfContents::new() };
    let b = build::pack(Docx::new().add_table_of_contents(toc), build::way(c));
    let p = match Pkg::open(&b) {
        Ok(p) => p,
        Err(e) => return json!({"unreadable": e}),
    };
    let Some(main) = p.xml.get(&p.main_part()) else {
        return json!({"unreadable": format!("main part: {:?}", p.malformed)});
    };
    let mut text = String::new();
    main.walk(&mut |e| {
        if e.local == "instrText" {
            text.push_str(&e.text());
        }
    });
    json!({"text": text, "written": switches(&text), "parsed": parsed(&text)})
}
