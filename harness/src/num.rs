//! List definitions and their uses: the calls of the numbering model, and what the package and the reader say.

use crate::build::{num, pack, way};
use crate::fmt::{flat, of, on_level, put, Item};
use crate::pkg::Pkg;
use crate::read;
use crate::xml::El;
use docx_rs::*;
use serde_json::{json, Value};

fn s(v: &Value) -> &str {
    v.as_str().unwrap_or_default()
}
fn list(v: &Value) -> impl Iterator<Item = &Value> {
    v.as_array().into_iter().flatten()
}
fn level(v: &Value) -> Level {
    let it = Item::from(v);
    let f: Vec<&str> = it.kind.split('|').collect();
    let l = Level::new(num(f[0]), Start::new(num(f[1])), NumberFormat::new(f[2]), LevelText::new(f[3]), LevelJc::new(f[4]));
    it.on(l, on_level)
}
fn abs(v: &Value) -> AbstractNumbering {
    let mut a = list(&v["levels"]).fold(AbstractNumbering::new(num(s(&v["id"]))), |a, l| a.add_level(level(l)));
    for (k, x) in list(&v["links"]).map(|x| (s(&x[0]), s(&x[1]))) {
        a = match k {
            "styleLink" => a.style_link(x),
            "numStyleLink" => a.num_style_link(x),
            "multi" => {
                a.multi_level_type = Some(x.to_string());
                a
            }
            _ => panic!("HARNESS: unknown link {k}"),
        };
    }
    a
}
fn instance(v: &Value) -> Numbering {
    let o = |o: &Value| {
        let mut x = LevelOverride::new(num(s(&o["lvl"])));
        if !s(&o["start"]).is_empty() {
            x = x.start(num(s(&o["start"])));
        }
        for l in list(&o["level"]) {
            x = x.level(level(l));
        }
        x
    };
    let n = Numbering::new(num(s(&v["id"])), num(s(&v["abs"])));
    if v["all"].as_bool() == Some(true) {
        n.overrides(list(&v["ovr"]).map(o).collect())
    } else {
        list(&v["ovr"]).fold(n, |n, x| n.add_override(o(x)))
    }
}
fn build(c: &Value) -> Docx {
    let steps: Vec<&Value> = list(&c["steps"]).collect();
    let mut d = Docx::new();
    let whole = s(&c["api"]) == "set";
    if whole {
        let n = steps.iter().fold(Numberings::new(), |n, v| match s(&v["do"]) {
            "abs" => n.add_abstract_numbering(abs(v)),
            "num" => n.add_numbering(instance(v)),
            _ => n,
        });
        d = d.numberings(n);
    }
    let (mut header, mut footer, mut uses) = (Header::new(), Footer::new(), 0);
    for v in steps {
        d = match s(&v["do"]) {
            "abs" if !whole => d.add_abstract_numbering(abs(v)),
            "num" if !whole => d.add_numbering(instance(v)),
            "use" => {
                let t = format!("u{uses}");
                uses += 1;
                let (n, l) = (NumberingId::new(num(s(&v["num"]))), IndentLevel::new(num(s(&v["lvl"]))));
                let p = Paragraph::new().add_run(Run::new().add_text(&t)).numbering(n.clone(), l.clone());
                match s(&v["at"]) {
                    "" => d.add_paragraph(p),
                    "cell" => d.add_table(Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(p)])])),
                    "sdt" => d.add_structured_data_tag(StructuredDataTag::new().add_paragraph(p)),
                    "section" => d.add_section(Section::new().add_paragraph(p)),
                    "header" => {
                        header = header.add_paragraph(p);
                        d.header(header.clone())
                    }
                    "footer" => {
                        footer = footer.add_paragraph(p);
                        d.even_footer(footer.clone())
                    }
                    "style" | "based" => {
                        let mut st = Style::new(t, StyleType::Paragraph);
                        if s(&v["at"]) == "based" {
                            st = st.name("Based").based_on("Normal").next("Normal");
                        }
                        st.paragraph_property = ParagraphProperty::new().numbering(n, l);
                        d.add_style(st)
                    }
                    a => panic!("HARNESS: unknown place {a}"),
                }
            }
            _ => d,
        };
    }
    d
}

/// Definitions by id; a fact said twice shows up twice.
fn defs(root: &El) -> Vec<String> {
    let mut out = vec![];
    let many = |id: &str| root.els().filter(|e| e.local == "abstractNum" && e.attr("abstractNumId") == Some(id)).count();
    for e in root.els() {
        match e.local.as_str() {
            "abstractNum" => {
                let at = format!("abs({})", e.attr("abstractNumId").unwrap_or("-"));
                out.push(at.clone());
                let (mut i, mut last) = (0, 0);
                for k in e.els() {
                    let rank = ["nsid", "multiLevelType", "tmpl", "name", "styleLink", "numStyleLink", "lvl"]
                        .iter()
                        .position(|x| *x == k.local)
                        .unwrap_or(99);
                    if rank < last {
                        out.push(format!("{at}/{} out of order", k.local));
                    }
                    last = rank;
                    if k.local == "lvl" {
                        put(&mut out, &format!("{at}/lvl[{i}]/"), of(Some(k)));
                        i += 1;
                    } else {
                        out.push(format!("{at}/{}={}", k.local, k.attr("val").unwrap_or("-")));
                    }
                }
            }
            "num" => {
                let at = format!("num({})", e.attr("numId").unwrap_or("-"));
                let a = e.child("abstractNumId").and_then(|a| a.attr("val")).unwrap_or("-");
                out.push(format!("{at}/abs={a}"));
                out.push(format!("{at}/definitions={}", many(a)));
                for (i, o) in e.els().filter(|o| o.local == "lvlOverride").enumerate() {
                    out.push(format!("{at}/ovr[{i}]={}", o.attr("ilvl").unwrap_or("-")));
                    for (n, k) in o.els().enumerate() {
                        if k.local == "lvl" {
                            put(&mut out, &format!("{at}/ovr[{i}]/lvl/"), of(Some(k)));
                        } else if n == 0 {
                            out.push(format!("{at}/ovr[{i}]/{}={}", k.local, k.attr("val").unwrap_or("-")));
                        } else {
                            out.push(format!("{at}/ovr[{i}]/{} out of order", k.local));
                        }
                    }
                }
            }
            x => out.push(format!("unexpected {x}")),
        }
    }
    out
}
fn numpr(e: Option<&El>) -> String {
    let v = |k: &str| e.and_then(|e| e.child("numPr")).and_then(|n| n.child(k)).and_then(|x| x.attr("val")).unwrap_or("-");
    format!("{},{}", v("numId"), v("ilvl"))
}
fn written(p: &Pkg) -> Vec<String> {
    let mut out = match p.related("numbering").and_then(|n| p.xml.get(&n)) {
        Some(r) => defs(r),
        None => vec!["no numbering part".into()],
    };
    for root in p.xml.values() {
        root.walk(&mut |e: &El| match e.local.as_str() {
            "p" if e.text().starts_with('u') => out.push(format!("use({})={}", e.text(), numpr(e.child("pPr")))),
            "style" if e.attr("styleId").is_some_and(|x| x.starts_with('u')) => {
                out.push(format!("use({})={}", e.attr("styleId").unwrap(), numpr(e.child("pPr"))))
            }
            _ => {}
        });
    }
    out
}
fn shown(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        v => v.to_string(),
    }
}
fn text(v: &Value, out: &mut String) {
    match v {
        Value::Object(m) if m.get("type") == Some(&Value::from("text")) => out.push_str(s(&v["data"]["text"])),
        Value::Object(m) => m.values().for_each(|x| text(x, out)),
        Value::Array(a) => a.iter().for_each(|x| text(x, out)),
        _ => {}
    }
}
fn uses(v: &Value, out: &mut Vec<String>) {
    let np = |x: &Value| format!("{},{}", shown(&x["numberingProperty"]["id"]), shown(&x["numberingProperty"]["level"]));
    match v {
        Value::Object(m) if m.get("type") == Some(&Value::from("paragraph")) => {
            let mut t = String::new();
            text(&v["data"]["children"], &mut t);
            if t.starts_with('u') {
                out.push(format!("use({t})={}", np(&v["data"]["property"])));
            }
        }
        Value::Object(m) if m.get("styleId").is_some_and(|x| s(x).starts_with('u')) => {
            out.push(format!("use({})={}", s(&v["styleId"]), np(&v["paragraphProperty"])))
        }
        Value::Object(m) => m.values().for_each(|x| uses(x, out)),
        Value::Array(a) => a.iter().for_each(|x| uses(x, out)),
        _ => {}
    }
}
fn reading(v: &Value) -> Vec<String> {
    let mut out = vec![];
    for a in list(&v["numberings"]["abstractNums"]) {
        let at = format!("abs({})", a["id"]);
        out.push(at.clone());
        for k in ["styleLink", "numStyleLink", "multiLevelType"] {
            if !a[k].is_null() {
                out.push(format!("{at}/{k}={}", shown(&a[k])));
            }
        }
        for (i, l) in list(&a["levels"]).enumerate() {
            put(&mut out, &format!("{at}/lvl[{i}]/"), flat(l));
        }
    }
    for n in list(&v["numberings"]["numberings"]) {
        let at = format!("num({})", n["id"]);
        out.push(format!("{at}/abs={}", n["abstractNumId"]));
        let many = list(&v["numberings"]["abstractNums"]).filter(|a| a["id"] == n["abstractNumId"]).count();
        out.push(format!("{at}/definitions={many}"));
        for (i, o) in list(&n["levelOverrides"]).enumerate() {
            out.push(format!("{at}/ovr[{i}]={}", o["level"]));
            if !o["overrideStart"].is_null() {
                out.push(format!("{at}/ovr[{i}]/startOverride={}", o["overrideStart"]));
            }
            if !o["overrideLevel"].is_null() {
                put(&mut out, &format!("{at}/ovr[{i}]/lvl/"), flat(&o["overrideLevel"]));
            }
        }
    }
    uses(v, &mut out);
    out
}

pub fn run(c: &Value) -> Value {
    let b = pack(build(c), way(c));
    let p = match Pkg::open(&b) {
        Ok(p) => p,
        Err(e) => return json!({"unreadable": e}),
    };
    let back = match read_docx(&b) {
        Ok(d) => d,
        Err(e) => return json!({"unreadable": format!("by the reader: {e}")}),
    };
    let v = read::value(&back);
    let b2 = pack(back, !way(c));
    match Pkg::open(&b2) {
        Ok(p2) => json!({"markup": written(&p), "read": reading(&v), "again": written(&p2)}),
        Err(e) => json!({"unreadable": format!("after reading and writing: {e}")}),
    }
}
