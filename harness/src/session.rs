//! Histories of copying, serialising, writing and reading documents, also on several threads at once.

use crate::build::{self, N};
use docx_rs::*;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Barrier};

fn write(d: Docx, how: &str) -> Vec<u8> {
    match how {
        "build" => build::pack_built(d),
        "pack" => build::pack_direct(d),
        _ => panic!("HARNESS: unknown way of writing {how}"),
    }
}
/// Writes all these at the same time.
fn write_all(ds: Vec<Docx>, how: &str) -> Vec<Vec<u8>> {
    let gate = Arc::new(Barrier::new(ds.len()));
    let t: Vec<_> = ds
        .into_iter()
        .map(|d| {
            let (gate, how) = (gate.clone(), how.to_string());
            std::thread::spawn(move || {
                gate.wait();
                write(d, &how)
            })
        })
        .collect();
    t.into_iter().map(|t| t.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
}
/// Another document: it draws ids of every kind.
fn other() -> Docx {
    let p = || {
        Paragraph::new()
            .add_run(Run::new().add_text("other").add_footnote_reference(
                Footnote::new().add_content(Paragraph::new().add_run(Run::new().add_text("note")).clone()).clone(),
            ))
            .add_insert(Insert::new(Run::new().add_text("in")).author("o"))
            .add_hyperlink(Hyperlink::new("http://o.example", HyperlinkType::External).add_run(Run::new().add_text("l")))
    };
    Docx::new()
        .add_paragraph(p())
        .add_table(Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(p())])]))
        .header(Header::new().add_paragraph(p()))
        .add_table_of_contents(TableOfContents::new().heading_styles_range(1, 3).auto())
        .add_paragraph(p().style("Heading1"))
}
fn digest(b: &[u8]) -> Value {
    let mut m = serde_json::Map::new();
    for (name, data) in crate::pkg::unzip(b).expect("HARNESS: not a zip") {
        let mut h = DefaultHasher::new();
        data.hash(&mut h);
        m.insert(name, json!(format!("{:016x}", h.finish())));
    }
    Value::Object(m)
}

pub fn run(c: &Value) -> Value {
    let mut hand: Vec<Docx> = c["docs"].as_array().expect("HARNESS: docs").iter().map(|t| build::docx(&N::from(t))).collect();
    let mut gave: Vec<Vec<u8>> = vec![];
    for op in c["log"].as_array().expect("HARNESS: log") {
        let i = (op["i"].as_u64().unwrap_or(0) as usize).wrapping_sub(1);
        let x = op["x"].as_str().unwrap_or_default().to_string();
        match op["o"].as_str().unwrap_or_default() {
            "clone" => hand.push(hand[i].clone()),
            "json" => drop(hand[i].json()),
            "jsonc" => drop(hand[i].json_with_update_comments()),
            "cjson" => drop(hand[i].comments_json()),
            how @ ("build" | "pack") => {
                let d = hand[i].clone();
                gave.push(if x == "thread" { write_all(vec![d], how).remove(0) } else { write(d, how) });
            }
            "all" => gave.extend(write_all(hand.clone(), &x)),
            "read" => match read_docx(&gave[i]) {
                Ok(d) => hand.push(d),
                Err(e) => return json!({"unreadable": format!("{e}")}),
            },
            "drop" => drop(hand.remove(i)),
            "other" => match x.as_str() {
                "make" => drop(other()),
                "write" => drop(build::pack_built(other())),
                _ => drop(write_all(vec![other(), other()], "pack")),
            },
            o => panic!("HARNESS: unknown operation {o}"),
        }
    }
    if let Some(dir) = c["save"].as_str() {
        for (k, b) in gave.iter().enumerate() {
            std::fs::write(format!("{dir}/{k}.docx"), b).expect("HARNESS: save");
        }
    }
    json!({"gave": gave.iter().map(|b| digest(b)).collect::<Vec<_>>()})
}
