//! Conformance worker: one JSON case per input line, one JSON observation per output line.
//! A panic in the library is an observation; a panic whose message starts with HARNESS is a fault
//! of the machinery. A case that does not finish in time is reported as a hang and ends the
//! process (the driver restarts it after that case).

mod build;
mod drawings;
mod fmt;
mod images;
mod mutate;
mod num;
mod pkg;
mod read;
mod reopen;
mod session;
mod sink;
mod texts;
mod threads;
mod toc;
mod xml;

use build::N;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::mpsc;
use std::time::Duration;

fn list(v: Vec<N>) -> Value {
    Value::Array(v.iter().map(N::json).collect())
}

/// Everything observable about a written package.
fn observe(bytes: &[u8], want: &Value) -> Value {
    let p = match pkg::Pkg::open(bytes) {
        Ok(p) => p,
        Err(e) => return json!({"unreadable": e}),
    };
    let mut o = serde_json::Map::new();
    for w in want.as_array().into_iter().flatten() {
        let k = w.as_str().unwrap();
        let v = match k {
            "graph" => p.graph(),
            "stories" => p.stories(),
            "body" => list(p.body()),
            "comments" => list(p.comments()),
            "footnotes" => match p.footnotes() {
                None => Value::Null,
                Some(f) => list(f),
            },
            "evenOdd" => json!(p.even_odd()),
            "media" => json!(p.media().into_iter().map(|m| m.1).collect::<Vec<_>>()),
            "drawings" => drawings::written(&p),
            "readPlain" => read::plain(bytes),
            "readDrawings" => drawings::read(bytes),
            "readExtended" => drawings::read(&drawings::extended(bytes)),
            "twice" => reopen::twice(&p),
            "paraIds" => json!(p.para_ids()),
            "hasNumbering" => json!(p.related("numbering").map(|x| p.xml.contains_key(&x)).unwrap_or(false)),
            "read" => {
                let d = docx_rs::read_docx(bytes);
                match d {
                    Err(e) => json!({"error": format!("{e}")}),
                    Ok(d) => {
                        let v = read::value(&d);
                        let r = read::R::new(&v);
                        json!({"body": list(r.body()), "comments": list(r.comments())})
                    }
                }
            }
            _ => panic!("HARNESS: unknown observation {k}"),
        };
        o.insert(k.to_string(), v);
    }
    Value::Object(o)
}

fn run_case(c: &Value) -> Value {
    match c["mode"].as_str().unwrap_or("") {
        "fmt" => fmt::run(c),
        "mutate" => mutate::run(c),
        "num" => num::run(c),
        "shape" => mutate::shape(c),
        "session" => session::run(c),
        "texts" => texts::run(c),
        "toc" => toc::run(c),
        "sink" => sink::run(c),
        "json" => {
            pkg::DIRT.store(c["dirty"] == true, std::sync::atomic::Ordering::Relaxed);
            read::json(build::docx(&N::from(&c["calls"])))
        }
        "tocinstr" => toc::instr(c),
        "crowd" => threads::crowd(c),
        "hammer" => threads::hammer(c),
        "tree" => {
            pkg::DIRT.store(c["dirty"] == true, std::sync::atomic::Ordering::Relaxed);
            let t = N::from(&c["calls"]);
            let write = |d| build::pack(d, c["direct"] == true);
            let make = || if c["assembled"] == true { build::assembled(&t) } else { build::docx(&t) };
            let both = c["both"] == true;
            let mut other = None;
            let b = match (c["turns"].as_u64(), c["once"].as_u64()) {
                (Some(k), _) => threads::turns(k as usize, || write(build::docx(&t))),
                (_, Some(k)) => write(threads::at_once(&t, k as usize)),
                _ if both => {
                    let d = make();
                    let b = write(d.clone());
                    other = Some(build::pack(d, c["direct"] != true));
                    b
                }
                _ => write(make()),
            };
            if let Some(f) = c["save"].as_str() {
                std::fs::write(f, &b).expect("HARNESS: save");
            }
            let mut o = observe(&b, &c["want"]);
            if let Some(other) = other.filter(|x| *x != b) {
                o["other"] = observe(&other, &c["want"]);
            }
            o
        }
        m => panic!("HARNESS: unknown mode {m}"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let limit = std::env::var("CASE_TIMEOUT_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(10_000u64);
    let (tx, rx) = mpsc::channel::<Value>();
    let (otx, orx) = mpsc::channel::<Value>();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            for c in rx {
                let r = std::panic::catch_unwind(|| run_case(&c));
                let v = match r {
                    Ok(v) => v,
                    Err(e) => {
                        let m = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_else(|| "panic".into());
                        if m.starts_with("HARNESS") {
                            json!({"harness": m})
                        } else {
                            json!({"panic": m})
                        }
                    }
                };
                if otx.send(v).is_err() {
                    return;
                }
            }
        })
        .unwrap();
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.expect("input");
        if l.is_empty() {
            continue;
        }
        let c: Value = serde_json::from_str(&l).expect("case is JSON");
        tx.send(c).unwrap();
        let r = orx.recv_timeout(Duration::from_millis(limit));
        let mut o = out.lock();
        match r {
            Ok(v) => {
                serde_json::to_writer(&mut o, &v).unwrap();
                o.write_all(b"\n").unwrap();
                o.flush().unwrap();
            }
            Err(_) => {
                o.write_all(b"{\"hang\":true}\n").unwrap();
                o.flush().unwrap();
                std::process::exit(3);
            }
        }
    }
}
