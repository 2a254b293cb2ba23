//! Size and placement of pictures, as written and as read.

use crate::images;
use crate::pkg::{resolve_target, Pkg};
use crate::xml::El;
use serde_json::{json, Value};

fn at<'a>(e: Option<&'a El>, k: &str) -> &'a str {
    e.and_then(|e| e.attr(k)).unwrap_or("absent")
}

fn find<'a>(e: &'a El, k: &str) -> Option<&'a El> {
    let mut r = None;
    e.walk(&mut |x| {
        if r.is_none() && x.local == k {
            r = Some(x);
        }
    });
    r
}

fn flag(v: &str) -> &str {
    match v {
        "true" | "on" => "1",
        "false" | "off" => "0",
        v => v,
    }
}

fn position(e: Option<&El>) -> String {
    match e.and_then(|e| e.els().next()) {
        Some(x) if x.local == "posOffset" => format!("offset {}", x.text()),
        Some(x) => format!("{} {}", x.local, x.text()),
        None => "absent".into(),
    }
}

fn seen(e: &El) -> Value {
    let Some(f) = e.els().next() else { return json!("empty") };
    let size = |e: Option<&El>| format!("{}x{}", at(e, "cx"), at(e, "cy"));
    let xfrm = find(e, "xfrm");
    let float = if f.local != "anchor" {
        json!("none")
    } else {
        let wraps: Vec<_> = f.els().filter(|x| x.local.starts_with("wrap")).map(|x| x.local.clone()).collect();
        json!({
            "simple": flag(at(Some(f), "simplePos")),
            "overlap": flag(at(Some(f), "allowOverlap")),
            "z": at(Some(f), "relativeHeight"),
            "h": position(f.child("positionH")),
            "v": position(f.child("positionV")),
            "relH": at(f.child("positionH"), "relativeFrom"),
            "relV": at(f.child("positionV"), "relativeFrom"),
            "wrap": wraps.join(" "),
        })
    };
    let dist = ["distT", "distB", "distL", "distR"].map(|k| f.attr(k).unwrap_or("0")).join(" ");
    let (extent, shape) = (size(f.child("extent")), size(xfrm.and_then(|x| x.child("ext"))));
    let rot = xfrm.and_then(|x| x.attr("rot")).unwrap_or("0");
    json!({
        "kind": f.local,
        "extent": extent,
        "shape": shape,
        "rot": rot,
        "dist": dist,
        "float": float,
    })
}

/// Pictures by the kind of part they are in, in document order.
pub fn written(p: &Pkg) -> Value {
    let mut o = serde_json::Map::new();
    for (part, root) in &p.xml {
        let mut v = vec![];
        root.walk(&mut |e| {
            if e.local == "drawing" {
                let id = find(e, "blip").and_then(|b| b.attr_p("r", "embed"));
                let t = id.and_then(|i| p.rel(part, i)).map(|r| resolve_target(part, &r.target));
                let name = t.and_then(|t| p.parts.get(&t).map(|b| images::identify(b)));
                v.push(json!([name, seen(e)]));
            }
        });
        if !v.is_empty() {
            let old = o.insert(root.local.clone(), json!(v));
            assert!(old.is_none(), "HARNESS: two parts of kind {}", root.local);
        }
    }
    Value::Object(o)
}

fn known(d: &Value) -> Value {
    let t = |k: &str| match &d[k] {
        Value::Bool(b) => (if *b { "1" } else { "0" }).to_string(),
        Value::String(s) => s.clone(),
        v => v.to_string(),
    };
    let pos = |k: &str| match d[k].as_object().and_then(|m| m.iter().next()) {
        Some((k, v)) => format!("{k} {}", v.to_string().trim_matches('"')),
        None => "absent".into(),
    };
    let outside = |s: String| s.replace("outsize", "outside");
    let float = if d["positionType"] != "anchor" {
        json!("none")
    } else {
        json!({
            "simple": t("simplePos"), "overlap": t("allowOverlap"), "z": t("relativeHeight"),
            "h": pos("positionH"), "v": pos("positionV"),
            "relH": outside(t("relativeFromH")), "relV": outside(t("relativeFromV")),
        })
    };
    json!({
        "kind": d["positionType"],
        "extent": format!("{}x{}", d["size"][0], d["size"][1]),
        "dist": format!("{} {} {} {}", d["distT"], d["distB"], d["distL"], d["distR"]),
        "float": float,
    })
}

fn collect(v: &Value, out: &mut Vec<Value>, how: fn(&Value) -> Value) {
    if v["type"] == "drawing" {
        out.push(how(&v["data"]["data"]));
        return;
    }
    match v {
        Value::Object(_) if v["type"] == "commentRangeStart" => {}
        Value::Array(a) => a.iter().for_each(|x| collect(x, out, how)),
        Value::Object(m) => m.values().for_each(|x| collect(x, out, how)),
        _ => {}
    }
}

/// The pictures in the JSON form of a document that was built.
pub fn shown(v: &Value) -> Value {
    let mut out = vec![];
    collect(&v["document"]["children"], &mut out, |d| {
        let mut k = known(d);
        k["rot"] = json!(d["rot"].to_string());
        k
    });
    Value::Array(out)
}

/// The package as an editor leaves it that adds extension lists to the shapes of pictures.
pub fn extended(bytes: &[u8]) -> Vec<u8> {
    let mut parts = crate::pkg::unzip(bytes).expect("HARNESS: parts");
    for (_, b) in parts.iter_mut().filter(|p| p.0.ends_with(".xml")) {
        if let Ok(s) = std::str::from_utf8(b) {
            let list = "<a:extLst xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\"><a:ext uri=\"{53640926-AAD7-44D8-BBD7-CCE9431645EC}\"/></a:extLst></pic:spPr>";
            *b = s.replace("</pic:spPr>", list).into_bytes();
        }
    }
    crate::pkg::zip_parts(&parts)
}

/// Pictures of the main document, as read.
pub fn read(bytes: &[u8]) -> Value {
    match docx_rs::read_docx(bytes) {
        Err(e) => json!({"error": format!("{e}")}),
        Ok(d) => {
            let v = crate::read::value(&d);
            let mut out = vec![];
            collect(&v["document"]["children"], &mut out, known);
            json!(out)
        }
    }
}
