//! An OPC package as a consumer sees it, and its projection into the vocabulary of the
//! specification: every reference is followed, nothing depends on ids, names or order of parts.

use crate::build::{n, N};
use crate::images;
use crate::xml::{self, El, Kid};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Read;

pub const R_NS: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
pub const W_NS: &str = "http://schemas.openxmlformats.org/wordprocessingml/2006/main";

#[derive(Debug, Clone)]
pub struct Rel {
    pub id: String,
    pub kind: String,
    pub target: String,
    pub external: bool,
}

pub struct Pkg {
    pub names: Vec<String>,
    pub parts: BTreeMap<String, Vec<u8>>,
    pub xml: BTreeMap<String, El>,
    pub malformed: Vec<(String, String)>,
    pub rels: BTreeMap<String, Vec<Rel>>,
}

/// Entry names from the central directory, duplicates included.
fn central_names(b: &[u8]) -> Result<Vec<String>, String> {
    let eocd = (0..b.len().saturating_sub(21))
        .rev()
        .find(|&i| b[i..].starts_with(b"PK\x05\x06"))
        .ok_or("no end of central directory")?;
    let u16_ = |i: usize| b[i] as usize | (b[i + 1] as usize) << 8;
    let u32_ = |i: usize| u16_(i) | u16_(i + 2) << 16;
    let count = u16_(eocd + 10);
    let mut at = u32_(eocd + 16);
    let mut v = vec![];
    for _ in 0..count {
        if at + 46 > b.len() || &b[at..at + 4] != b"PK\x01\x02" {
            return Err("bad central directory".into());
        }
        let (nl, el, cl) = (u16_(at + 28), u16_(at + 30), u16_(at + 32));
        v.push(String::from_utf8_lossy(&b[at + 46..at + 46 + nl]).into_owned());
        at += 46 + nl + el + cl;
    }
    Ok(v)
}

pub fn dir_of(part: &str) -> String {
    match part.rfind('/') {
        Some(i) => part[..i].to_string(),
        None => String::new(),
    }
}

pub fn resolve_target(source: &str, target: &str) -> String {
    let mut segs: Vec<&str> = if target.starts_with('/') {
        vec![]
    } else {
        let d = if source.is_empty() { "" } else { &source[..source.rfind('/').unwrap_or(0)] };
        d.split('/').filter(|s| !s.is_empty()).collect()
    };
    for s in target.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                segs.pop();
            }
            x => segs.push(x),
        }
    }
    segs.join("/")
}

/// "word/_rels/document.xml.rels" -> "word/document.xml"; "_rels/.rels" -> "".
pub fn rels_source(name: &str) -> Option<String> {
    let i = name.rfind("_rels/")?;
    let base = &name[..i];
    let file = name[i + 6..].strip_suffix(".rels")?;
    Some(format!("{base}{file}"))
}

pub fn rels_name(part: &str) -> String {
    match part.rfind('/') {
        Some(i) => format!("{}/_rels/{}.rels", &part[..i], &part[i + 1..]),
        None => format!("_rels/{part}.rels"),
    }
}

pub fn short_kind(k: &str) -> &str {
    k.rsplit('/').next().unwrap_or(k)
}

pub fn unzip(bytes: &[u8]) -> Result<Vec<(String, Vec<u8>)>, String> {
    let mut z = zip::ZipArchive::new(std::io::Cursor::new(bytes)).map_err(|e| format!("zip: {e}"))?;
    let mut v = vec![];
    for i in 0..z.len() {
        let mut f = z.by_index(i).map_err(|e| format!("zip entry: {e}"))?;
        let mut b = vec![];
        let name = f.name().to_string();
        f.read_to_end(&mut b).map_err(|e| format!("zip entry {name}: {e}"))?;
        v.push((name, b));
    }
    Ok(v)
}

pub fn zip_parts(parts: &[(String, Vec<u8>)]) -> Vec<u8> {
    use std::io::Write;
    let mut z = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
    let o = zip::write::SimpleFileOptions::default().compression_method(zip::CompressionMethod::Stored);
    for (name, b) in parts {
        z.start_file(name.as_str(), o).expect("HARNESS: zip");
        z.write_all(b).expect("HARNESS: zip");
    }
    z.finish().expect("HARNESS: zip").into_inner()
}

impl Pkg {
    pub fn open(bytes: &[u8]) -> Result<Pkg, String> {
        let names: Vec<String> = central_names(bytes)?.into_iter().filter(|n| !n.ends_with('/')).collect();
        let mut parts = BTreeMap::new();
        for (name, b) in unzip(bytes)? {
            if !name.ends_with('/') {
                parts.insert(name, b);
            }
        }
        Ok(Self::from_parts(names, parts))
    }

    pub fn from_parts(names: Vec<String>, parts: BTreeMap<String, Vec<u8>>) -> Pkg {
        let mut xmls = BTreeMap::new();
        let mut malformed = vec![];
        for (name, b) in &parts {
            if name.ends_with(".xml") || name.ends_with(".rels") {
                match xml::parse(b) {
                    Ok(e) => {
                        xmls.insert(name.clone(), e);
                    }
                    Err(e) => malformed.push((name.clone(), e)),
                }
            }
        }
        let mut rels: BTreeMap<String, Vec<Rel>> = BTreeMap::new();
        for (name, e) in &xmls {
            if !name.ends_with(".rels") {
                continue;
            }
            if let Some(src) = rels_source(name) {
                let v = rels.entry(src).or_default();
                for r in e.els() {
                    v.push(Rel {
                        id: r.attr("Id").unwrap_or("").into(),
                        kind: r.attr("Type").unwrap_or("").into(),
                        target: r.attr("Target").unwrap_or("").into(),
                        external: r.attr("TargetMode") == Some("External"),
                    });
                }
            }
        }
        Pkg { names, parts, xml: xmls, malformed, rels }
    }

    pub fn rel(&self, part: &str, id: &str) -> Option<&Rel> {
        self.rels.get(part)?.iter().find(|r| r.id == id)
    }

    pub fn main_part(&self) -> String {
        self.rels
            .get("")
            .and_then(|v| v.iter().find(|r| r.kind.ends_with("/officeDocument")))
            .map(|r| resolve_target("", &r.target))
            .unwrap_or_else(|| "word/document.xml".into())
    }

    /// Part reached from the main document by a relationship of this kind.
    pub fn related(&self, kind: &str) -> Option<String> {
        let m = self.main_part();
        self.rels
            .get(&m)?
            .iter()
            .find(|r| short_kind(&r.kind) == kind)
            .map(|r| resolve_target(&m, &r.target))
    }

    /// The package as a graph of parts, recorded for the specification to judge.
    pub fn graph(&self) -> Value {
        let parts: Vec<Value> = self
            .names
            .iter()
            .map(|x| {
                let file = x.rsplit('/').next().unwrap_or("");
                let ext = file.rsplit_once('.').map(|p| p.1.to_lowercase()).unwrap_or_default();
                json!({"name": x, "key": x.to_lowercase(), "ext": ext})
            })
            .collect();
        let (mut defaults, mut overrides) = (vec![], vec![]);
        if let Some(t) = self.xml.get("[Content_Types].xml") {
            for e in t.els() {
                let ct = e.attr("ContentType").unwrap_or("");
                match e.local.as_str() {
                    "Default" => defaults.push(json!({"ext": e.attr("Extension").unwrap_or("").to_lowercase(), "type": ct})),
                    "Override" => {
                        let pn = e.attr("PartName").unwrap_or("");
                        overrides.push(json!({"name": pn.strip_prefix('/').unwrap_or("!relative"), "type": ct}))
                    }
                    _ => {}
                }
            }
        }
        let mut rels = vec![];
        for (src, v) in &self.rels {
            for r in v {
                let to = if r.external { r.target.clone() } else { resolve_target(src, &r.target) };
                rels.push(json!({"src": src, "id": r.id, "kind": short_kind(&r.kind), "to": to, "ext": r.external}));
            }
        }
        // relationship ids mentioned in markup
        let mut uses = vec![];
        let mut changes = vec![];
        for (part, root) in &self.xml {
            if part.ends_with(".rels") || part == "[Content_Types].xml" {
                continue;
            }
            root.walk(&mut |e| {
                for (_, al, ns, v) in &e.attrs {
                    if ns == R_NS {
                        uses.push(json!({"part": part, "id": v, "by": e.local, "as": al}));
                    }
                }
                if e.ns == W_NS
                    && matches!(e.local.as_str(), "ins" | "del" | "moveFrom" | "moveTo" | "pPrChange" | "rPrChange")
                {
                    changes.push(json!({"part": part, "kind": e.local, "id": Self::attr_w(e, "id")}));
                }
            });
        }
        let paras: Vec<Value> = self.para_ids().into_iter().map(|(p, i, _)| json!({"part": p, "id": i})).collect();
        json!({"parts": parts, "defaults": defaults, "overrides": overrides, "rels": rels, "uses": uses,
               "changes": changes, "paras": paras,
               "broken": self.malformed.iter().map(|(p, e)| format!("{p}: {e}")).collect::<Vec<_>>()})
    }

    /// The markup of every story as a sequence of events, recorded for the specification to judge.
    pub fn stories(&self) -> Value {
        let mut out = vec![];
        let mut add = |kind: &str, e: &El| {
            let mut ev = vec![];
            events(e, &mut ev);
            out.push(json!({"story": kind, "events": ev}));
        };
        let m = self.main_part();
        if let Some(b) = self.xml.get(&m).and_then(|d| d.child("body")) {
            add("body", b);
        }
        for r in self.rels.get(&m).into_iter().flatten() {
            let Some(root) = self.xml.get(&resolve_target(&m, &r.target)) else { continue };
            match short_kind(&r.kind) {
                "header" => add("header", root),
                "footer" => add("footer", root),
                "comments" => root.els().for_each(|c| add("comment", c)),
                "footnotes" => root
                    .els()
                    .filter(|f| !matches!(f.attr("type"), Some("separator" | "continuationSeparator")))
                    .for_each(|c| add("footnote", c)),
                _ => {}
            }
        }
        Value::Array(out)
    }

    fn attr_w<'a>(e: &'a El, a: &str) -> &'a str {
        e.attr(a).unwrap_or("")
    }

    /// Block-level content of a container element of `part`.
    pub fn blocks(&self, part: &str, el: &El) -> Vec<N> {
        let mut v = vec![];
        for e in el.els() {
            self.block(part, e, &mut v);
        }
        v
    }

    /// Insertion and deletion marks of a row or paragraph.
    fn marks(pr: &El, suffix: &str) -> String {
        let mut o = String::new();
        for k in ["ins", "del"] {
            for c in pr.els().filter(|c| c.local == k) {
                o.push_str(&format!("{k}{suffix}={}|{};", Self::attr_w(c, "author"), Self::attr_w(c, "date")));
            }
        }
        o
    }

    fn block(&self, part: &str, e: &El, v: &mut Vec<N>) {
        match e.local.as_str() {
            "p" => v.push(self.para(part, e)),
            "tbl" => {
                let rows = e
                    .els()
                    .filter(|x| x.local == "tr")
                    .map(|tr| {
                        let mut o = String::new();
                        if let Some(pr) = tr.child("trPr") {
                            o = Self::marks(pr, "");
                        }
                        n(
                            "tr",
                            o,
                            tr.els().filter(|x| x.local == "tc").map(|tc| n("tc", "", self.blocks(part, tc))).collect(),
                        )
                    })
                    .collect();
                v.push(n("tbl", "", rows));
            }
            "sdt" => {
                let mut o = String::new();
                if let Some(pr) = e.child("sdtPr") {
                    if let Some(a) = pr.child("alias") {
                        o.push_str(&format!("alias={};", Self::attr_w(a, "val")));
                    }
                    if let Some(a) = pr.child("dataBinding") {
                        o.push_str(&format!("bind={};", Self::attr_w(a, "xpath")));
                    }
                }
                let c = e.child("sdtContent").map(|c| self.mixed(part, c)).unwrap_or_default();
                v.push(n("sdt", o, c));
            }
            "bookmarkStart" => v.push(n("bms", format!("{}:{}", Self::attr_w(e, "id"), Self::attr_w(e, "name")), vec![])),
            "bookmarkEnd" => v.push(n("bme", Self::attr_w(e, "id"), vec![])),
            "commentRangeStart" => v.push(n("cs", Self::attr_w(e, "id"), vec![])),
            "commentRangeEnd" => v.push(n("ce", Self::attr_w(e, "id"), vec![])),
            "sectPr" => v.push(self.sect(part, e)),
            "r" => {
                let r = self.run(part, e);
                if !r.c.is_empty() {
                    v.push(r);
                }
            }
            "tcPr" | "tblPr" | "tblGrid" => {}
            other => v.push(n("?", other, vec![])),
        }
    }

    /// Content that may hold blocks and inline elements (content controls).
    fn mixed(&self, part: &str, el: &El) -> Vec<N> {
        let mut v = vec![];
        for e in el.els() {
            match e.local.as_str() {
                "p" | "tbl" | "sdt" | "bookmarkStart" | "bookmarkEnd" | "commentRangeStart" | "commentRangeEnd" => {
                    self.block(part, e, &mut v)
                }
                _ => self.inline(part, e, &mut v),
            }
        }
        v
    }

    pub fn sect(&self, part: &str, e: &El) -> N {
        let mut c = vec![];
        for x in e.els() {
            let k = match x.local.as_str() {
                "headerReference" => "h",
                "footerReference" => "f",
                _ => continue,
            };
            let id = x.attr_p("r", "id").unwrap_or("");
            let content = match self.rel(part, id) {
                None => vec![n("!unresolved", "", vec![])],
                Some(r) => {
                    let t = resolve_target(part, &r.target);
                    match self.xml.get(&t) {
                        None => vec![n("!absent", "", vec![])],
                        Some(root) => self.blocks(&t, root),
                    }
                }
            };
            c.push(n(k, Self::attr_w(x, "type"), content));
        }
        c.sort_by(|a, b| (&a.k, &a.v).cmp(&(&b.k, &b.v)));
        let t = e.child("titlePg").map(|t| !matches!(t.attr("val"), Some("0" | "false"))).unwrap_or(false);
        n("sectPr", if t { "titlePg" } else { "" }, c)
    }

    fn para(&self, part: &str, e: &El) -> N {
        let mut o = String::new();
        let mut kids = vec![];
        if let Some(pr) = e.child("pPr") {
            if let Some(np) = pr.child("numPr") {
                o.push_str(&format!(
                    "num={},{};",
                    np.child("numId").and_then(|x| x.attr("val")).unwrap_or(""),
                    np.child("ilvl").and_then(|x| x.attr("val")).unwrap_or("")
                ));
            }
            if let Some(s) = pr.child("pStyle") {
                o.push_str(&format!("style={};", Self::attr_w(s, "val")));
            }
            if let Some(rp) = pr.child("rPr") {
                o.push_str(&Self::marks(rp, "mark"));
            }
            if let Some(c) = pr.child("pPrChange") {
                o.push_str(&format!("pchange={}|{};", Self::attr_w(c, "author"), Self::attr_w(c, "date")));
            }
            if let Some(s) = pr.child("sectPr") {
                kids.push(self.sect(part, s));
            }
        }
        for x in e.els() {
            if x.local != "pPr" {
                self.inline(part, x, &mut kids);
            }
        }
        n("p", o, kids)
    }

    fn inlines(&self, part: &str, e: &El) -> Vec<N> {
        let mut v = vec![];
        for x in e.els() {
            self.inline(part, x, &mut v);
        }
        v
    }

    fn inline(&self, part: &str, e: &El, v: &mut Vec<N>) {
        let ad = |e: &El| format!("{}|{}", Self::attr_w(e, "author"), Self::attr_w(e, "date"));
        match e.local.as_str() {
            "r" => {
                let r = self.run(part, e);
                if !r.c.is_empty() {
                    v.push(r);
                }
            }
            "ins" => v.push(n("ins", ad(e), self.inlines(part, e))),
            "del" => v.push(n("del", ad(e), self.inlines(part, e))),
            "moveFrom" => v.push(n("mvf", ad(e), self.inlines(part, e))),
            "moveTo" => v.push(n("mvt", ad(e), self.inlines(part, e))),
            "hyperlink" => {
                let to = if let Some(id) = e.attr_p("r", "id") {
                    match self.rel(part, id) {
                        None => "!unresolved".to_string(),
                        Some(r) if short_kind(&r.kind) != "hyperlink" => format!("!{}", short_kind(&r.kind)),
                        Some(r) if !r.external => format!("!internal {}", r.target),
                        Some(r) => r.target.clone(),
                    }
                } else {
                    format!("#{}", Self::attr_w(e, "anchor"))
                };
                v.push(n("link", to, self.inlines(part, e)));
            }
            "p" | "tbl" | "sdt" | "bookmarkStart" | "bookmarkEnd" | "commentRangeStart" | "commentRangeEnd" => {
                self.block(part, e, v)
            }
            other => v.push(n("?", other, vec![])),
        }
    }

    fn run(&self, part: &str, e: &El) -> N {
        let mut c = vec![];
        for x in e.els() {
            let a = |s: &str| Self::attr_w(x, s).to_string();
            match x.local.as_str() {
                "rPr" => {}
                "t" => c.push(n("t", x.text(), vec![])),
                "delText" => c.push(n("dt", x.text(), vec![])),
                "tab" => c.push(n("tab", "", vec![])),
                "ptab" => c.push(n("ptab", format!("{},{},{}", a("alignment"), a("relativeTo"), a("leader")), vec![])),
                "br" => c.push(n("br", a("type"), vec![])),
                "cr" => c.push(n("cr", "", vec![])),
                "sym" => c.push(n("sym", format!("{}|{}", a("font"), a("char")), vec![])),
                "fldChar" => {
                    let dirty = dirt() && matches!(x.attr("dirty"), Some("true" | "1" | "on"));
                    c.push(n("fc", a("fldCharType") + if dirty { "!" } else { "" }, vec![]));
                }
                "instrText" => c.push(n("it", instr(&x.text()), vec![])),
                "delInstrText" => c.push(n("dit", instr(&x.text()), vec![])),
                "commentReference" => c.push(n("cref", a("id"), vec![])),
                "footnoteRef" => {}
                "footnoteReference" => {
                    let id = a("id");
                    let mut content = vec![n("!absent", "", vec![])];
                    if let Some(fp) = self.related("footnotes") {
                        if let Some(root) = self.xml.get(&fp) {
                            let all: Vec<&El> = root.els().filter(|f| f.attr("id") == Some(&id)).collect();
                            content = match all.len() {
                                0 => vec![n("!missing", "", vec![])],
                                1 => self.blocks(&fp, all[0]),
                                _ => vec![n("!ambiguous", "", vec![])],
                            };
                        }
                    }
                    c.push(n("fn", "", content));
                }
                "drawing" => {
                    let mut id = None;
                    x.walk(&mut |b| {
                        if b.local == "blip" {
                            id = b.attr_p("r", "embed").map(str::to_string);
                        }
                    });
                    let name = match id.and_then(|i| self.rel(part, &i).map(|r| (resolve_target(part, &r.target), short_kind(&r.kind) == "image"))) {
                        None => "!unresolved".to_string(),
                        Some((_, false)) => "!kind".to_string(),
                        Some((t, _)) => match self.parts.get(&t) {
                            None => "!absent".to_string(),
                            Some(b) => images::identify(b),
                        },
                    };
                    c.push(n("img", name, vec![]));
                }
                other => c.push(n("?", other, vec![])),
            }
        }
        n("r", "", c)
    }

    pub fn body(&self) -> Vec<N> {
        let m = self.main_part();
        match self.xml.get(&m).and_then(|d| d.child("body")) {
            Some(b) => self.blocks(&m, b),
            None => vec![n("!nobody", "", vec![])],
        }
    }

    /// All comments: v = "id<parent" (as in the specification) with author|date checked separately.
    pub fn comments(&self) -> Vec<N> {
        let Some(cp) = self.related("comments") else { return vec![] };
        let Some(root) = self.xml.get(&cp) else { return vec![n("!absent", "", vec![])] };
        let mut para_owner: BTreeMap<String, String> = BTreeMap::new();
        for c in root.els() {
            let id = Self::attr_w(c, "id").to_string();
            c.walk(&mut |e| {
                if e.local == "p" {
                    if let Some(pid) = e.attr_p("w14", "paraId") {
                        para_owner.insert(pid.to_string(), id.clone());
                    }
                }
            });
        }
        let mut parent: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let mut problems = vec![];
        if let Some(x) = self.related("commentsExtended").and_then(|p| self.xml.get(&p)) {
            let known: Vec<&str> = x.els().filter_map(|e| e.attr("paraId")).collect();
            for e in x.els() {
                let pid = e.attr("paraId").unwrap_or("");
                let Some(own) = para_owner.get(pid) else {
                    problems.push(n("!exorphan", "", vec![]));
                    continue;
                };
                if let Some(pp) = e.attr("paraIdParent") {
                    // the paragraph has to be the one the comment it answers is known by
                    let par = para_owner.get(pp).filter(|_| known.contains(&pp)).cloned().unwrap_or_else(|| "!".into());
                    let v = parent.entry(own.clone()).or_default();
                    if !v.contains(&par) {
                        v.push(par);
                    }
                }
            }
        }
        let mut v: Vec<N> = root
            .els()
            .map(|c| {
                let id = Self::attr_w(c, "id").to_string();
                let p = parent.get(&id).map(|p| format!("<{}", p.join("&"))).unwrap_or_default();
                n(
                    "comment",
                    format!("{id}{p}|{}|{}", Self::attr_w(c, "author"), Self::attr_w(c, "date")),
                    self.blocks(&cp, c),
                )
            })
            .collect();
        v.extend(problems);
        v.sort_by(|a, b| a.v.cmp(&b.v));
        v
    }

    /// Footnotes present in the package, without the built-in separators.
    pub fn footnotes(&self) -> Option<Vec<N>> {
        let fp = self.related("footnotes")?;
        let root = self.xml.get(&fp)?;
        Some(
            root.els()
                .filter(|f| !matches!(f.attr("type"), Some("separator" | "continuationSeparator")))
                .map(|f| n("footnote", Self::attr_w(f, "id"), self.blocks(&fp, f)))
                .collect(),
        )
    }

    pub fn even_odd(&self) -> bool {
        self.related("settings")
            .and_then(|p| self.xml.get(&p))
            .and_then(|s| s.child("evenAndOddHeaders"))
            .map(|e| !matches!(e.attr("val"), Some("0" | "false")))
            .unwrap_or(false)
    }

    /// Every paragraph of every part: (part, id, text of its own runs).
    pub fn para_ids(&self) -> Vec<(String, String, String)> {
        fn own(e: &El, out: &mut String) {
            for c in e.els() {
                match c.local.as_str() {
                    "p" => {}
                    "t" => out.push_str(&Pkg::text_of(&c.kids)),
                    _ => own(c, out),
                }
            }
        }
        let mut v = vec![];
        for (part, root) in &self.xml {
            root.walk(&mut |e| {
                if e.local == "p" && e.ns == W_NS {
                    let mut t = String::new();
                    own(e, &mut t);
                    v.push((part.clone(), e.attr_p("w14", "paraId").unwrap_or("").to_string(), t));
                }
            });
        }
        v
    }

    pub fn media(&self) -> Vec<(String, String)> {
        self.parts
            .iter()
            .filter(|(k, _)| k.starts_with("word/media/"))
            .map(|(k, b)| (k.clone(), images::identify(b)))
            .collect()
    }

    pub fn text_of(kids: &[Kid]) -> String {
        kids.iter().map(|k| if let Kid::Text(t) = k { t.as_str() } else { "" }).collect()
    }
}

/// Field code without its arguments where the specification does not name them.
/// Whether a case looks at the mark of fields to be updated: the library sets it on its own tables of contents.
pub static DIRT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn dirt() -> bool {
    DIRT.load(std::sync::atomic::Ordering::Relaxed)
}

/// An instruction: quotes, blanks and the order of switches mean nothing.
pub fn instr(s: &str) -> String {
    let s = s.trim();
    let (mut words, mut word, mut quoted) = (vec![], None::<String>, false);
    for x in s.chars() {
        match x {
            '"' => {
                quoted = !quoted;
                word.get_or_insert_with(String::new);
            }
            ' ' if !quoted => words.extend(word.take()),
            x => word.get_or_insert_with(String::new).push(x),
        }
    }
    words.extend(word);
    let takes: &[&str] = match words.first().map(String::as_str) {
        Some("TOC") => return "TOC".into(),
        Some("TC") => &["\\f", "\\l"],
        Some("PAGEREF") => &[],
        Some("HYPERLINK") => &["\\l", "\\o", "\\t"],
        _ => return s.into(),
    };
    let (mut plain, mut switches) = (vec![], vec![]);
    let mut words = words.into_iter();
    while let Some(w) = words.next() {
        if takes.contains(&w.as_str()) {
            switches.push(format!("{w} {}", words.next().unwrap_or_default()));
        } else if w.starts_with('\\') {
            switches.push(w);
        } else {
            plain.push(w);
        }
    }
    switches.sort();
    plain.extend(switches);
    plain.join(" ")
}

/// Elements whose inside is not part of the story's structure.
const PROPS: [&str; 8] = ["pPr", "rPr", "tcPr", "tblPr", "tblGrid", "trPr", "sdtPr", "sectPr"];

fn events(e: &El, out: &mut Vec<Value>) {
    for x in e.els() {
        let k = x.local.as_str();
        let a = |s: &str| x.attr(s).unwrap_or("").to_string();
        match k {
            "pPr" => {
                out.push(json!(["leaf", k, ""]));
                if x.child("sectPr").is_some() {
                    out.push(json!(["leaf", "sectPr", "p"]));
                }
            }
            _ if PROPS.contains(&k) => out.push(json!(["leaf", k, ""])),
            "p" | "tbl" | "tr" | "tc" | "r" | "sdt" | "sdtContent" | "hyperlink" | "ins" | "del" | "moveFrom" | "moveTo" => {
                out.push(json!(["open", k, ""]));
                events(x, out);
                out.push(json!(["close", k, ""]));
            }
            "fldChar" => out.push(json!(["field", a("fldCharType"), ""])),
            "bookmarkStart" => out.push(json!(["start", "bookmark", a("id")])),
            "bookmarkEnd" => out.push(json!(["end", "bookmark", a("id")])),
            "commentRangeStart" => out.push(json!(["start", "comment", a("id")])),
            "commentRangeEnd" => out.push(json!(["end", "comment", a("id")])),
            "commentReference" => out.push(json!(["mark", "comment", a("id")])),
            _ => out.push(json!(["leaf", k, ""])),
        }
    }
}
