//! Writing into a sink that misbehaves: what it was asked, what it answered, and what the library reported.

use crate::build::{self, N};
use docx_rs::Docx;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{Cursor, Error, ErrorKind, Result, Seek, SeekFrom, Write};

#[derive(Default)]
struct Sink {
    at: Cursor<Vec<u8>>,
    /// operation (from 1) -> answer
    plan: HashMap<u64, String>,
    /// bytes it can hold
    room: Option<u64>,
    /// bytes it takes at once
    gulp: Option<usize>,
    /// takes everything and stores it when it is flushed or moved; what it holds at the end is its owner's matter
    buffered: bool,
    asked: u64,
    down: bool,
    /// answers other than "all", in order
    answers: Vec<(&'static str, &'static str)>,
}

impl Sink {
    fn ask(&mut self, what: &'static str) -> Result<Option<&'static str>> {
        self.asked += 1;
        let f = self.plan.get(&self.asked).cloned().unwrap_or_default();
        self.down |= f == "down";
        if self.down || f == "error" {
            self.answers.push((what, "error"));
            return Err(Error::other("sink"));
        }
        if what != "write" {
            return Ok(None);
        }
        match f.as_str() {
            "" => Ok(None),
            "again" => {
                self.answers.push((what, "again"));
                Err(ErrorKind::Interrupted.into())
            }
            "none" => Ok(Some("none")),
            "some" => Ok(Some("some")),
            x => panic!("HARNESS: answer {x}"),
        }
    }
}

impl Sink {
    fn store(&mut self, what: &'static str) -> Result<()> {
        if self.buffered && self.room.is_some_and(|r| r < self.at.get_ref().len() as u64) {
            self.answers.push((what, "error"));
            return Err(ErrorKind::StorageFull.into());
        }
        Ok(())
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let f = self.ask("write")?;
        if b.is_empty() {
            return Ok(0);
        }
        if self.buffered {
            return self.at.write(b);
        }
        let left = self.room.map_or(u64::MAX, |r| r.saturating_sub(self.at.position()));
        if left == 0 {
            self.answers.push(("write", "error"));
            return Err(ErrorKind::StorageFull.into());
        }
        let most = match f {
            Some("none") => {
                self.answers.push(("write", "none"));
                return Ok(0);
            }
            Some(_) => b.len().div_ceil(2),
            None => b.len(),
        };
        let n = most.min(self.gulp.unwrap_or(usize::MAX)).min(left.min(usize::MAX as u64) as usize);
        if n < b.len() {
            self.answers.push(("write", "some"));
        }
        self.at.write(&b[..n])
    }
    fn flush(&mut self) -> Result<()> {
        self.ask("flush")?;
        self.store("flush")
    }
}

impl Seek for Sink {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.ask("seek")?;
        self.store("seek")?;
        self.at.seek(p)
    }
}

fn pack(d: Docx, direct: bool, s: &mut Sink) -> &'static str {
    let r = if direct { d.pack(s) } else { d.build().pack(s) };
    if r.is_ok() {
        "done"
    } else {
        "failed"
    }
}

pub fn run(c: &Value) -> Value {
    let d = build::docx(&N::from(&c["calls"]));
    let direct = c["direct"] == true;
    let whole = build::pack(d.clone(), direct);
    let mut s = Sink {
        plan: c["faults"].as_array().into_iter().flatten().map(|f| (f[0].as_u64().unwrap(), f[1].as_str().unwrap().into())).collect(),
        room: c["room"].as_u64().map(|permille| whole.len() as u64 * permille / 1000),
        gulp: c["gulp"].as_u64().map(|n| n as usize),
        buffered: c["buffered"] == true,
        ..Sink::default()
    };
    let other = d.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pack(other, direct, &mut s)));
    // the same document, into a sink that behaves
    let again = build::pack(d, direct);
    let n = s.answers.len();
    s.answers.dedup();
    json!({
        "result": r.unwrap_or("panic"),
        "answers": std::mem::take(&mut s.answers).iter().map(|a| json!([a.0, a.1])).collect::<Vec<_>>(),
        "count": n,
        "asked": s.asked,
        "whole": s.at.into_inner() == whole,
        "again": again == whole,
    })
}
