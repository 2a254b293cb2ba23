//! What the library's reader returns, projected into the vocabulary of the specification.

use crate::build::{n, N};
use crate::images;
use base64::Engine;
use docx_rs::Docx;
use serde_json::Value;
use std::collections::BTreeMap;

pub struct R<'a> {
    images: BTreeMap<String, String>,
    links: BTreeMap<String, (String, String)>,
    /// Of a document that was built, not read.
    built: bool,
    pub v: &'a Value,
}

pub fn value(d: &Docx) -> Value {
    serde_json::to_value(d).expect("read document serialises")
}

fn s(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Null => String::new(),
        Value::Number(x) => x.to_string(),
        x => x.to_string(),
    }
}

fn ad(d: &Value) -> String {
    format!("{}|{}", s(&d["author"]), s(&d["date"]))
}

/// The text of an instruction, put together from its JSON form.
fn instr(d: &Value) -> String {
    let x = &d["data"];
    let on = |k: &str, v: &'static str| if x[k] == true { v } else { "" };
    let with = |k: &str, v: &str| if x[k].is_null() { String::new() } else { format!(" {v} {}", s(&x[k])) };
    let text = match d["type"].as_str().unwrap_or("") {
        "page" => "PAGE".into(),
        "numPages" => "NUMPAGES".into(),
        "pageref" => format!("PAGEREF {}{}{}", s(&x["pageRef"]), on("hyperlink", " \\h"), on("relativePosition", " \\p")),
        "hyperlink" => format!("HYPERLINK{} {}", on("anchor", " \\l"), s(&x["target"])),
        "tc" => format!("TC {}{}{}{}", s(&x["text"]), with("itemTypeIdentifier", "\\f"), with("level", "\\l"), on("omitsPageNumber", " \\n")),
        "unsupported" => s(x),
        other => format!("!{other}"),
    };
    crate::pkg::instr(&text)
}

impl<'a> R<'a> {
    pub fn new(v: &'a Value) -> R<'a> {
        let dec = |x: &Value| base64::engine::general_purpose::STANDARD.decode(s(x)).unwrap_or_default();
        let mut im = BTreeMap::new();
        for i in v["images"].as_array().into_iter().flatten() {
            let (bytes, preview) = (dec(&i[2]), dec(&i[3]));
            let name = images::identify(&bytes);
            im.insert(s(&i[0]), if images::previewed(&bytes, &preview) { name } else { format!("!preview of {name}") });
        }
        let mut links = BTreeMap::new();
        for i in v["hyperlinks"].as_array().into_iter().flatten() {
            links.insert(s(&i[0]), (s(&i[1]), s(&i[2])));
        }
        R { images: im, links, built: false, v }
    }

    pub fn built(v: &'a Value) -> R<'a> {
        R { built: true, ..R::new(v) }
    }

    pub fn body(&self) -> Vec<N> {
        let mut b = self.kids(&self.v["document"]["children"]);
        b.push(self.sect(&self.v["document"]["sectionProperty"]));
        b
    }

    pub fn comments(&self) -> Vec<N> {
        let mut v: Vec<N> = self.v["comments"]["comments"]
            .as_array()
            .into_iter()
            .flatten()
            .map(|c| self.comment("comment", c))
            .collect();
        v.sort_by(|a, b| a.v.cmp(&b.v));
        v
    }

    /// The reader keeps addresses for links of the main document only: what it has for the others
    /// is not looked at.
    fn elsewhere(&self, mut v: Vec<N>) -> Vec<N> {
        if self.built {
            return v;
        }
        for x in &mut v {
            if x.k == "link" && !x.v.starts_with('#') {
                x.v = "?".into();
            }
            x.c = self.elsewhere(std::mem::take(&mut x.c));
        }
        v
    }

    fn comment(&self, k: &str, c: &Value) -> N {
        let p = if c["parentCommentId"].is_null() { String::new() } else { format!("<{}", s(&c["parentCommentId"])) };
        n(k, format!("{}{p}|{}", s(&c["id"]), ad(c)), self.elsewhere(self.kids(&c["children"])))
    }

    fn sect(&self, p: &Value) -> N {
        let mut c = vec![];
        for (key, k, t) in [
            ("header", "h", "default"),
            ("firstHeader", "h", "first"),
            ("evenHeader", "h", "even"),
            ("footer", "f", "default"),
            ("firstFooter", "f", "first"),
            ("evenFooter", "f", "even"),
        ] {
            if let Some(a) = p[key].as_array() {
                c.push(n(k, t, self.elsewhere(self.kids(&a[1]["children"]))));
            }
        }
        c.sort_by(|a, b| (&a.k, &a.v).cmp(&(&b.k, &b.v)));
        n("sectPr", if p["titlePg"] == true { "titlePg" } else { "" }, c)
    }

    fn kids(&self, v: &Value) -> Vec<N> {
        let mut out = vec![];
        for x in v.as_array().into_iter().flatten() {
            if let Some(y) = self.node(x) {
                out.push(y);
            }
        }
        out
    }

    fn node(&self, x: &Value) -> Option<N> {
        let d = &x["data"];
        Some(match x["type"].as_str().unwrap_or("") {
            "paragraph" => self.para(d),
            "table" => n("tbl", "", self.kids(&d["rows"])),
            "tableRow" => {
                let mut o = String::new();
                for k in ["ins", "del"] {
                    let c = &d["property"][k];
                    if !c.is_null() {
                        o.push_str(&format!("{k}={};", ad(c)));
                    }
                }
                n("tr", o, self.kids(&d["cells"]))
            }
            "tableCell" => n("tc", "", self.kids(&d["children"])),
            "structuredDataTag" => {
                let mut o = String::new();
                if !d["property"]["alias"].is_null() {
                    o.push_str(&format!("alias={};", s(&d["property"]["alias"])));
                }
                if !d["property"]["dataBinding"]["xpath"].is_null() {
                    o.push_str(&format!("bind={};", s(&d["property"]["dataBinding"]["xpath"])));
                }
                n("sdt", o, self.kids(&d["children"]))
            }
            "bookmarkStart" => n("bms", format!("{}:{}", s(&d["id"]), s(&d["name"])), vec![]),
            "bookmarkEnd" => n("bme", s(&d["id"]), vec![]),
            "commentRangeStart" => {
                let c = self.comment("cs", &d["comment"]);
                if s(&d["id"]) != s(&d["comment"]["id"]) {
                    n("!cs", "", vec![])
                } else {
                    c
                }
            }
            "commentRangeEnd" => n("ce", s(&d["id"]), vec![]),
            "run" => {
                let c = self.kids(&d["children"]);
                if c.is_empty() {
                    return None;
                }
                n("r", "", c)
            }
            "insert" => n("ins", ad(d), self.kids(&d["children"])),
            "delete" => n("del", ad(d), self.kids(&d["children"])),
            "moveFrom" => n("mvf", ad(d), self.kids(&d["children"])),
            "moveTo" => n("mvt", ad(d), self.kids(&d["children"])),
            "hyperlink" => {
                let to = if d["type"] == "anchor" {
                    format!("#{}", s(&d["anchor"]))
                } else {
                    match self.links.get(&s(&d["rid"])) {
                        None if self.built => s(&d["path"]),
                        None => "!unresolved".into(),
                        Some((t, m)) if m == "External" => t.clone(),
                        Some((t, m)) => format!("!{m} {t}"),
                    }
                };
                n("link", to, self.kids(&d["children"]))
            }
            "text" => n("t", s(&d["text"]), vec![]),
            "deleteText" => n("dt", s(&d["text"]), vec![]),
            "tab" => n("tab", "", vec![]),
            "ptab" => n("ptab", format!("{},{},{}", s(&d["alignment"]), s(&d["relativeTo"]), s(&d["leader"])), vec![]),
            "break" => n("br", s(&d["breakType"]), vec![]),
            "carriageReturn" => n("cr", "", vec![]),
            "sym" => n("sym", format!("{}|{}", s(&d["font"]), s(&d["char"])), vec![]),
            "fieldChar" => n("fc", s(&d["fieldCharType"]) + if crate::pkg::dirt() && d["dirty"] == true { "!" } else { "" }, vec![]),
            "instrTextString" => n("it", crate::pkg::instr(&s(d)), vec![]),
            "instrText" => n("it", instr(d), vec![]),
            "deleteInstrText" => n("dit", instr(d), vec![]),
            "drawing" if d["type"] != "pic" => n("?", format!("drawing of {}", s(&d["type"])), vec![]),
            "drawing" => {
                let id = s(&d["data"]["id"]);
                let own: Vec<u8> = d["data"]["image"].as_array().into_iter().flatten().map(|b| b.as_u64().unwrap_or(0) as u8).collect();
                n("img", self.images.get(&id).cloned().unwrap_or_else(|| if own.is_empty() { "!unresolved".into() } else { images::identify(&own) }), vec![])
            }
            "section" => {
                let mut c = self.kids(&d["children"]);
                c.push(self.sect(&d["property"]));
                n("sect", "", c)
            }
            "tableOfContents" => {
                let mut c = vec![];
                for (key, k) in [("before_contents", "tb"), ("after_contents", "ta")] {
                    let x = self.kids(&d[key]);
                    if !x.is_empty() {
                        c.push(n(k, "", x));
                    }
                }
                n("toc", if d["without_sdt"] == true { "nosdt;" } else { "" }, c)
            }
            "pageNum" => n("pgnum", "", vec![]),
            "numPages" => n("npages", "", vec![]),
            "footnoteReference" => n("fn", "", vec![]),
            other => n("?", other, vec![]),
        })
    }

    fn para(&self, d: &Value) -> N {
        let mut o = String::new();
        let mut kids = vec![];
        let p = &d["property"];
        if !p["numberingProperty"].is_null() {
            o.push_str(&format!("num={},{};", s(&p["numberingProperty"]["id"]), s(&p["numberingProperty"]["level"])));
        }
        if !p["style"].is_null() {
            o.push_str(&format!("style={};", s(&p["style"])));
        }
        for k in ["ins", "del"] {
            let c = &p["runProperty"][k];
            if !c.is_null() {
                o.push_str(&format!("{k}mark={};", ad(c)));
            }
        }
        if !p["paragraphPropertyChange"].is_null() {
            o.push_str(&format!("pchange={};", ad(&p["paragraphPropertyChange"])));
        }
        if !p["sectionProperty"].is_null() {
            kids.push(self.sect(&p["sectionProperty"]));
        }
        kids.extend(self.kids(&d["children"]));
        n("p", o, kids)
    }
}

/// Reading without previews gives the same document, with the same pictures and no previews.
pub fn plain(bytes: &[u8]) -> Value {
    let with = docx_rs::read_docx(bytes).map(|d| value(&d));
    let without = docx_rs::read_docx_with_options(bytes, docx_rs::ReadDocxOptions::default().with_image_previews(false)).map(|d| value(&d));
    match (with, without) {
        (Ok(mut a), Ok(b)) => {
            for i in a["images"].as_array_mut().into_iter().flatten() {
                i[3] = serde_json::json!("");
            }
            serde_json::json!(if a == b { "same" } else { "different" })
        }
        (a, b) => serde_json::json!(if a.is_err() && b.is_err() { "same" } else { "one fails" }),
    }
}

/// The JSON forms of a document that was built: what each shows.
pub fn json(mut d: Docx) -> Value {
    let parse = |x: &str| serde_json::from_str::<Value>(x).expect("the JSON form parses");
    let first = d.json();
    let again = d.json();
    let v = parse(&first);
    let r = R::built(&v);
    let own = parse(&d.clone().comments_json());
    let own = serde_json::json!({ "comments": own });
    let full = parse(&d.json_with_update_comments());
    let texts: Vec<String> = d
        .document
        .children
        .iter()
        .filter_map(|x| if let docx_rs::DocumentChild::Paragraph(p) = x { Some(p.raw_text()) } else { None })
        .collect();
    let list = |x: Vec<N>| Value::Array(x.iter().map(N::json).collect());
    serde_json::json!({
        "body": list(r.body()),
        "repeats": first == again,
        "texts": texts,
        "drawings": crate::drawings::shown(&v),
        "comments": list(R::built(&own).comments()),
        "updated": list(R::built(&full).comments()),
    })
}
