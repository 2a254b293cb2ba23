//! Elements built on several threads: in turns, as the specification orders them, or at once.

use crate::build::{self, N};
use crate::observe;
use docx_rs::*;
use serde_json::{json, Value};
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Barrier, Mutex};

enum Msg {
    Job(Box<dyn FnOnce() + Send>),
    Done,
    Quit,
}

#[derive(Clone)]
struct Me {
    index: usize,
    to: Vec<Sender<Msg>>,
    from: Rc<Receiver<Msg>>,
}

thread_local! {
    static ME: RefCell<Option<Me>> = const { RefCell::new(None) };
    static READY: RefCell<HashMap<usize, Box<dyn Any + Send>>> = RefCell::new(HashMap::new());
}

/// Runs f on thread k while this one waits, and works for others as it does.
fn on<T: Send + 'static>(k: usize, f: impl FnOnce() -> T + Send + 'static) -> T {
    let Some(me) = ME.with(|m| m.borrow().clone()) else {
        return f();
    };
    if me.index == k {
        return f();
    }
    let slot = Arc::new(Mutex::new(None));
    let (s, back) = (slot.clone(), me.to[me.index].clone());
    me.to[k]
        .send(Msg::Job(Box::new(move || {
            *s.lock().unwrap() = Some(catch_unwind(AssertUnwindSafe(f)));
            back.send(Msg::Done).expect("HARNESS: thread gone");
        })))
        .expect("HARNESS: thread gone");
    loop {
        match me.from.recv().expect("HARNESS: thread gone") {
            Msg::Job(j) => j(),
            Msg::Done | Msg::Quit => break,
        }
    }
    let r = slot.lock().unwrap().take().expect("HARNESS: no result");
    r.unwrap_or_else(|e| resume_unwind(e))
}

/// The element, if it is to be built elsewhere or has been.
pub fn elsewhere<T: Send + 'static>(n: &N, f: fn(&N) -> T) -> Option<T> {
    if let Some(r) = n.ready {
        let x = READY.with(|m| m.borrow_mut().remove(&r)).expect("HARNESS: not ready");
        return Some(*x.downcast::<T>().expect("HARNESS: another kind"));
    }
    n.t.map(|t| {
        let mut m = n.clone();
        m.t = None;
        on(t, move || f(&m))
    })
}

/// With this many more threads that take turns.
pub fn turns<T>(count: usize, f: impl FnOnce() -> T) -> T {
    let (to, from): (Vec<_>, Vec<_>) = (0..=count).map(|_| channel()).unzip();
    let mut from = from.into_iter();
    let mine = from.next().unwrap();
    let others: Vec<_> = from
        .enumerate()
        .map(|(i, rx)| {
            let to = to.clone();
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let from = Rc::new(rx);
                    ME.set(Some(Me { index: i + 1, to, from: from.clone() }));
                    while let Ok(Msg::Job(j)) = from.recv() {
                        j();
                    }
                })
                .expect("HARNESS: thread")
        })
        .collect();
    ME.set(Some(Me { index: 0, to: to.clone(), from: Rc::new(mine) }));
    let r = catch_unwind(AssertUnwindSafe(f));
    ME.set(None);
    for t in to {
        let _ = t.send(Msg::Quit);
    }
    for t in others {
        let _ = t.join();
    }
    r.unwrap_or_else(|e| resume_unwind(e))
}

fn piece(n: &N) -> Option<Box<dyn Any + Send>> {
    Some(match n.k.as_str() {
        "p" => Box::new(build::paragraph(n)),
        "tbl" => Box::new(build::table(n)),
        "sdt" => Box::new(build::sdt(n)),
        "toc" => Box::new(build::toc(n)),
        "sect" => Box::new(build::section(n)),
        "h" => Box::new(build::header(n)),
        "f" => Box::new(build::footer(n)),
        _ => return None,
    })
}

/// Builds the parts of the document on this many threads at once, then the document.
pub fn at_once(root: &N, count: usize) -> Docx {
    let mut root = root.clone();
    let gate = Arc::new(Barrier::new(count));
    let all: Vec<_> = (0..count)
        .map(|t| {
            let (gate, nodes) = (gate.clone(), root.c.clone());
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    gate.wait();
                    nodes
                        .iter()
                        .enumerate()
                        .filter(|(i, _)| i % count == t)
                        .filter_map(|(i, n)| Some((i, piece(n)?)))
                        .collect::<Vec<_>>()
                })
                .expect("HARNESS: thread")
        })
        .collect();
    for t in all {
        for (i, x) in t.join().unwrap_or_else(|e| resume_unwind(e)) {
            root.c[i].ready = Some(i);
            READY.with(|m| m.borrow_mut().insert(i, x));
        }
    }
    let d = build::docx(&root);
    READY.with(|m| m.borrow_mut().clear());
    d
}

/// Documents built, written and read at once, each again and again; the different observations.
pub fn crowd(c: &Value) -> Value {
    let docs: Vec<N> = c["docs"].as_array().expect("HARNESS: docs").iter().map(N::from).collect();
    let again = c["again"].as_u64().unwrap_or(1);
    let gate = Arc::new(Barrier::new(docs.len()));
    let all: Vec<_> = docs
        .into_iter()
        .map(|n| {
            let (gate, want, direct) = (gate.clone(), c["want"].clone(), c["direct"] == true);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let mut seen: Vec<Vec<u8>> = vec![];
                    gate.wait();
                    for _ in 0..again {
                        let d = build::docx(&n);
                        let b = if direct { build::pack_direct(d) } else { build::pack_built(d) };
                        if !seen.contains(&b) {
                            seen.push(b);
                        }
                    }
                    let mut out: Vec<Value> = vec![];
                    for b in seen {
                        let o = observe(&b, &want);
                        if !out.contains(&o) {
                            out.push(o);
                        }
                    }
                    out
                })
                .expect("HARNESS: thread")
        })
        .collect();
    let seen: Vec<Vec<Value>> = all.into_iter().map(|t| t.join().unwrap_or_else(|e| resume_unwind(e))).collect();
    json!({"seen": seen})
}

fn draw(kind: &str) -> String {
    match kind {
        "link" => match Hyperlink::new("http://x", HyperlinkType::External).link {
            HyperlinkData::External { rid, .. } => rid,
            _ => panic!("HARNESS: no external link"),
        },
        "pic" => Pic::new_with_dimensions(vec![], 1, 1).id,
        "fn" => Footnote::new().id.to_string(),
        "bookmark" => generate_bookmark_id().to_string(),
        "toc" => <TocKey as TocKeyGenerator>::generate(),
        k => panic!("HARNESS: kind {k}"),
    }
}

/// Draws of one kind by many threads at once.
pub fn hammer(c: &Value) -> Value {
    let (count, each) = (c["threads"].as_u64().unwrap() as usize, c["each"].as_u64().unwrap());
    let kind = c["kind"].as_str().expect("HARNESS: kind").to_string();
    let waiting = Arc::new(AtomicUsize::new(count));
    let all: Vec<_> = (0..count)
        .map(|_| {
            let (waiting, kind) = (waiting.clone(), kind.clone());
            std::thread::spawn(move || {
                waiting.fetch_sub(1, Ordering::SeqCst);
                while waiting.load(Ordering::SeqCst) > 0 {
                    std::hint::spin_loop();
                }
                (0..each).map(|_| draw(&kind)).collect::<Vec<_>>()
            })
        })
        .collect();
    let ids: Vec<String> = all.into_iter().flat_map(|t| t.join().unwrap_or_else(|e| resume_unwind(e))).collect();
    json!({"kind": kind, "ids": ids})
}
