//! Packages as token streams that can be edited: equivalent and foreign markup, faults, other
//! containers and places of parts. The edits are chosen by the specification; tokens are counted
//! from 0 in every part.

use crate::{build, pkg};
use base64::Engine;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Tok {
    /// o(pen) c(lose) e(mpty) t(ext) d(ata section) m(comment) i(nstruction)
    pub k: char,
    pub name: String,
    pub raw: String,
    pub attrs: Vec<(String, String, char)>,
    pub mate: usize,
    pub depth: usize,
    /// local names of the element and its two nearest ancestors
    pub path: String,
    /// in, or the tag of, an element whose content is text
    pub simple: bool,
    pub pre: String,
}

pub type Parts = Vec<(String, Vec<u8>)>;

/// Elements whose content is text, even when there is none.
const SIMPLE: [&str; 14] = [
    "t", "delText", "instrText", "delInstrText", "lpwstr", "align", "posOffset", "pctWidth", "pctHeight", "title",
    "Template", "creator", "created", "i4",
];

fn local(n: &str) -> &str {
    n.rsplit(':').next().unwrap()
}

fn prefix(n: &str) -> &str {
    n.split_once(':').map(|x| x.0).unwrap_or("")
}

fn lex_attrs(s: &str) -> Vec<(String, String, char)> {
    let b: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    loop {
        while i < b.len() && b[i].is_whitespace() {
            i += 1;
        }
        if i >= b.len() {
            return v;
        }
        let st = i;
        while i < b.len() && b[i] != '=' && !b[i].is_whitespace() {
            i += 1;
        }
        let name: String = b[st..i].iter().collect();
        while i < b.len() && b[i] != '"' && b[i] != '\'' {
            i += 1;
        }
        assert!(i < b.len(), "HARNESS: attribute in {s}");
        let q = b[i];
        let st = i + 1;
        i = st;
        while b[i] != q {
            i += 1;
        }
        v.push((name, b[st..i].iter().collect(), q));
        i += 1;
    }
}

/// Tokens of a well-formed part.
pub fn lex(s: &str) -> Vec<Tok> {
    let mut v: Vec<Tok> = vec![];
    let mut open: Vec<usize> = vec![];
    let mut i = 0;
    let end = |from: usize, what: &str| from + s[from..].find(what).expect("HARNESS: markup") + what.len();
    while i < s.len() {
        let r = &s[i..];
        let (k, e) = if r.starts_with("<!--") {
            ('m', end(i, "-->"))
        } else if r.starts_with("<![CDATA[") {
            ('d', end(i, "]]>"))
        } else if r.starts_with("<?") {
            ('i', end(i, "?>"))
        } else if r.starts_with("</") {
            ('c', end(i, ">"))
        } else if r.starts_with('<') {
            let mut q = None;
            let mut e = i;
            for (j, c) in r.char_indices() {
                match q {
                    Some(x) if c == x => q = None,
                    Some(_) => {}
                    None if c == '"' || c == '\'' => q = Some(c),
                    None if c == '>' => {
                        e = i + j + 1;
                        break;
                    }
                    None => {}
                }
            }
            (if s[..e].ends_with("/>") { 'e' } else { 'o' }, e)
        } else {
            ('t', r.find('<').map(|x| i + x).unwrap_or(s.len()))
        };
        let raw = s[i..e].to_string();
        let inner = match k {
            'o' => &raw[1..raw.len() - 1],
            'e' => &raw[1..raw.len() - 2],
            'c' => &raw[2..raw.len() - 1],
            _ => "",
        };
        let name = inner.split_whitespace().next().unwrap_or("").to_string();
        let attrs = if matches!(k, 'o' | 'e') { lex_attrs(&inner[name.len()..]) } else { vec![] };
        let at = v.len();
        let mut mate = at;
        if k == 'c' {
            mate = open.pop().expect("HARNESS: end tag");
            v[mate].mate = at;
        }
        let mut path: Vec<&str> = open.iter().rev().take(2).map(|&j| local(&v[j].name)).collect();
        path.reverse();
        let me = match k {
            'o' | 'e' | 'c' => local(&name).to_string(),
            _ => format!("#{k}"),
        };
        path.push(&me);
        let path = path.join("/");
        let simple = match k {
            't' | 'd' => !raw.trim().is_empty() || open.last().is_some_and(|&j| SIMPLE.contains(&local(&v[j].name))),
            _ => SIMPLE.contains(&local(&name)),
        };
        if simple && matches!(k, 't' | 'd') {
            if let Some(&j) = open.last() {
                v[j].simple = true;
            }
        }
        v.push(Tok { k, name, raw, attrs, mate, depth: open.len(), path, simple, pre: String::new() });
        if k == 'o' {
            open.push(at);
        }
        i = e;
    }
    assert!(open.is_empty(), "HARNESS: open elements");
    for i in 0..v.len() {
        match v[i].k {
            'o' => open.push(i),
            'c' => {
                open.pop();
                v[i].simple = v[v[i].mate].simple;
            }
            'm' | 'i' => v[i].simple = open.last().is_some_and(|&j| v[j].simple),
            _ => {}
        }
    }
    v
}

fn tag(k: char, name: &str, attrs: &[(String, String, char)]) -> String {
    let mut s = format!("<{name}");
    for (n, v, q) in attrs {
        s += &format!(" {n}={q}{v}{q}");
    }
    s + if k == 'e' { "/>" } else { ">" }
}

fn text_of(t: &[Tok]) -> String {
    t.iter().map(|t| format!("{}{}", t.pre, t.raw)).collect()
}

fn refs(s: &str, all: bool) -> String {
    // s is raw: references stay, the first (or every) other character becomes one
    let mut o = String::new();
    let mut it = s.chars();
    let mut done = false;
    while let Some(c) = it.next() {
        if c == '&' {
            o.push(c);
            for d in it.by_ref() {
                o.push(d);
                if d == ';' {
                    break;
                }
            }
        } else if done && !all {
            o.push(c);
        } else {
            o += &if all && (c as u32) % 2 == 0 { format!("&#{};", c as u32) } else { format!("&#x{:X};", c as u32) };
            done = true;
        }
    }
    o
}

fn unref(s: &str) -> String {
    let e = crate::xml::parse(format!("<a>{s}</a>").as_bytes()).expect("HARNESS: text");
    e.text()
}

/// Halves of a raw text that do not divide a reference.
fn halves(s: &str) -> (&str, &str) {
    let mut cut = vec![0];
    let mut inref = false;
    for (i, c) in s.char_indices() {
        if c == '&' {
            inref = true;
        } else if c == ';' && inref {
            inref = false;
        }
        if !inref {
            cut.push(i + c.len_utf8());
        }
    }
    s.split_at(cut[cut.len() / 2])
}

fn bump(v: &str) -> String {
    if !v.is_empty() && v.chars().all(|c| c.is_ascii_digit()) {
        v.chars().map(|c| if c == '9' { '8' } else { (c as u8 + 1) as char }).collect()
    } else {
        match v {
            "default" => "first".into(),
            "true" => "false".into(),
            "left" => "right".into(),
            "auto" => "FF0000".into(),
            v if v.starts_with("http") => v.into(),
            v => format!("{v}Z"),
        }
    }
}

/// The subtree at `at` in a vocabulary nobody knows, with its attributes as they are or with
/// other values.
fn twin(t: &[Tok], at: usize, other: bool) -> String {
    let at = if t[at].k == 'c' { t[at].mate } else { at };
    let to = if t[at].k == 'o' { t[at].mate } else { at };
    let mut o = String::new();
    for x in &t[at..=to] {
        match x.k {
            'o' | 'e' => {
                let mut a: Vec<_> = x
                    .attrs
                    .iter()
                    .map(|(n, v, q)| (n.clone(), if other { bump(v) } else { v.clone() }, *q))
                    .collect();
                if x.depth == t[at].depth {
                    a.push(("xmlns:x".into(), "urn:x".into(), '"'));
                }
                o += &tag(x.k, &format!("x:{}", local(&x.name)), &a);
            }
            'c' => o += &format!("</x:{}>", local(&x.name)),
            't' if other && x.simple => o += "ZZ",
            't' | 'd' => o += &x.raw,
            _ => {}
        }
    }
    o
}

/// Edits that must not change what is read.
fn same(t: &mut [Tok], at: usize, op: &str, arg: &str) {
    let root = t.iter().position(|x| matches!(x.k, 'o' | 'e')).unwrap();
    let p = match prefix(&t[root].name) {
        "" => String::new(),
        p => format!("{p}:"),
    };
    let piece = |t: &[Tok], arg: &str| match arg {
        "comment" => "<!-- <w:p><w:r><w:t>ZZ</w:t></w:r></w:p> -->".to_string(),
        "comment2" => "<!----><!-- </w:body> & -->".to_string(),
        "pi" => "<?zzz <w:p> ?>".into(),
        "ws" => "\n \t".into(),
        "x0" => "<x:zzz xmlns:x=\"urn:x\"/>".into(),
        "x1" => "<x:zzz xmlns:x=\"urn:x\" x:val=\"1\"><x:p><x:r><x:t>ZZ</x:t></x:r></x:p>ZZ</x:zzz>".into(),
        "x2" => "<x:tbl xmlns:x=\"urn:x\"><x:tr><x:tc><x:p/></x:tc></x:tr></x:tbl><x:sectPr xmlns:x=\"urn:x\"><x:pgSz x:w=\"1\" x:h=\"1\"/></x:sectPr>".into(),
        "w0" => format!("<{p}zzz {p}yyy=\"1\"/>"),
        "w1" => format!("<{p}zzz>ZZ<{p}yyy>ZZ</{p}yyy></{p}zzz>"),
        "twin" => twin(t, at, false),
        "twin2" => twin(t, at, true),
        a => panic!("HARNESS: piece {a}"),
    };
    match op {
        "before" => {
            let s = piece(t, arg);
            t[at].pre += &s;
        }
        "expand" => {
            // an empty tag with something between
            let s = if arg.is_empty() { String::new() } else { piece(t, arg) };
            t[at].raw = format!("{}{}</{}>", tag('o', &t[at].name, &t[at].attrs), s, t[at].name);
        }
        "collapse" => {
            t[at].raw = tag('e', &t[at].name, &t[at].attrs);
            t[at + 1].raw = String::new();
        }
        "afirst" | "alast" => {
            let (n, v, x) = match arg {
                "x" => ("x:zzz".to_string(), "1", true),
                "xval" => ("x:val".into(), "77", true),
                "xid" => ("x:id".into(), "77", true),
                "w" => (format!("{p}zzz"), "1", false),
                "none" => ("zzz".into(), "1", false),
                "ns" => ("xmlns:y".into(), "urn:y", false),
                k => {
                    let k: usize = k.parse().expect("HARNESS: attribute");
                    (format!("x:{}", local(&t[at].attrs[k].0)), "77", true)
                }
            };
            let mut a = vec![(n, v.to_string(), '"')];
            if x {
                a.push(("xmlns:x".into(), "urn:x".into(), '"'));
            }
            let b = t[at].attrs.clone();
            let all = if op == "afirst" { [a, b].concat() } else { [b, a].concat() };
            t[at].attrs = all;
            t[at].raw = tag(t[at].k, &t[at].name, &t[at].attrs);
        }
        "arev" => {
            t[at].attrs.reverse();
            t[at].raw = tag(t[at].k, &t[at].name, &t[at].attrs);
        }
        "arot" => {
            t[at].attrs.rotate_left(1);
            t[at].raw = tag(t[at].k, &t[at].name, &t[at].attrs);
        }
        "aquote" => {
            for a in &mut t[at].attrs {
                a.2 = if a.2 == '"' { '\'' } else { '"' };
                a.1 = a.1.replace('"', "&quot;").replace('\'', "&apos;");
            }
            t[at].raw = tag(t[at].k, &t[at].name, &t[at].attrs);
        }
        "aref" => {
            for a in &mut t[at].attrs {
                if !a.0.starts_with("xmlns") {
                    a.1 = refs(&a.1, arg == "all");
                }
            }
            t[at].raw = tag(t[at].k, &t[at].name, &t[at].attrs);
        }
        "aspace" => {
            let mut s = format!("<{}", t[at].name);
            for (n, v, q) in &t[at].attrs {
                s += &format!("\n\t {n} =\n{q}{v}{q}");
            }
            t[at].raw = s + if t[at].k == 'e' { " />" } else { "\n>" };
        }
        "cspace" => t[at].raw = format!("</{} \n>", t[at].name),
        "text" => {
            let r = t[at].raw.clone();
            let (a, b) = halves(&r);
            t[at].raw = match arg {
                "ref" => refs(&r, false),
                "refs" => refs(&r, true),
                "cdata" => format!("<![CDATA[{}]]>", unref(&r).replace("]]>", "]]]]><![CDATA[>")),
                "half" => format!("{a}<![CDATA[{}]]>", unref(b).replace("]]>", "]]]]><![CDATA[>")),
                "half2" => format!("<![CDATA[{}]]>{b}", unref(a).replace("]]>", "]]]]><![CDATA[>")),
                "comment" => format!("{a}<!-- ZZ -->{b}"),
                "comments" => format!("<!-- ZZ -->{a}<!----><!-- & -->{b}<!-- ZZ -->"),
                "pi" => format!("{a}<?zzz ZZ?>{b}"),
                "none" => format!("{a}<![CDATA[]]>{b}<![CDATA[]]>"),
                a => panic!("HARNESS: text {a}"),
            };
        }
        "decl" => {
            // of the whole part
            let has = t[0].k == 'i' && t[0].raw.starts_with("<?xml ");
            match arg {
                "none" if has => t[0].raw = String::new(),
                "quotes" if has => t[0].raw = t[0].raw.replace('"', "'"),
                "bom" => t[0].pre.insert(0, '\u{feff}'),
                "after" => {
                    let n = t.len() - 1;
                    t[n].raw += "\n<!-- ZZ --><?zzz?>\n";
                }
                _ => {}
            }
        }
        o => panic!("HARNESS: edit {o}"),
    }
}

const VALUES: [&str; 16] = [
    "", "-1", "0", "abc", "99999999999999999999", "-2147483648", "2147483647", "4294967296", "1.5", "NaN", "1e999", "é", "%", " 5 ",
    "true", "FFFFFFFFF",
];

/// Faults of a part; may leave anything behind.
fn fault(t: &mut Vec<Tok>, at: usize, op: &str, arg: &str) -> Option<Vec<u8>> {
    let to = |t: &[Tok]| if t[at].k == 'o' { t[at].mate.min(t.len() - 1) } else { at };
    match op {
        "cut" => t.truncate(at),
        "cutin" => {
            t.truncate(at + 1);
            let r = t[at].raw.clone();
            let mut h = r.len() / 2;
            while !r.is_char_boundary(h) {
                h += 1;
            }
            t[at].raw = r[..h].to_string();
        }
        "drop" => t[at].raw.clear(),
        "dup" => t[at].raw = t[at].raw.repeat(2),
        "dropall" => {
            let e = to(t);
            t[at..=e].iter_mut().for_each(|x| x.raw.clear());
        }
        "dupall" => {
            let e = to(t);
            let s = text_of(&t[at..=e]);
            t[at].pre += &s;
        }
        "hollow" => {
            let e = to(t);
            if e > at {
                t[at + 1..e].iter_mut().for_each(|x| x.raw.clear());
            }
        }
        "unwrap" => {
            let e = to(t);
            t[at].raw.clear();
            t[e].raw.clear();
        }
        "nest" => {
            // the element around itself
            let n: usize = arg.parse().expect("HARNESS: nest");
            let e = to(t);
            if t[at].k == 'e' {
                t[at].raw = format!("{}{}", tag('o', &t[at].name, &t[at].attrs).repeat(n), format!("</{}>", t[at].name).repeat(n));
            } else {
                t[at].raw = t[at].raw.repeat(n);
                t[e].raw = t[e].raw.repeat(n);
            }
        }
        "nestopen" => {
            let n: usize = arg.parse().expect("HARNESS: nest");
            t[at].raw = tag('o', &t[at].name, &t[at].attrs).repeat(n);
        }
        "rename" | "renameopen" => {
            let e = to(t);
            let n = match prefix(&t[at].name) {
                "" => arg.to_string(),
                p => format!("{p}:{arg}"),
            };
            t[at].raw = tag(t[at].k, &n, &t[at].attrs);
            if e > at && op == "rename" {
                t[e].raw = format!("</{n}>");
            }
        }
        "inside" => {
            // everything known, inside
            let s = arg.to_string();
            if t[at].k == 'e' {
                t[at].raw = format!("{}{s}</{}>", tag('o', &t[at].name, &t[at].attrs), t[at].name);
            } else {
                t[at].raw += &s;
            }
        }
        "chain" => {
            // elements around each other, n times
            let (n, names) = arg.split_once('|').expect("HARNESS: chain");
            let n: usize = n.parse().expect("HARNESS: chain");
            let names: Vec<&str> = names.split(',').collect();
            let open: String = names.iter().map(|x| format!("<{x}>")).collect();
            let close: String = names.iter().rev().map(|x| format!("</{x}>")).collect();
            if t[at].k == 'o' {
                t[at].raw += &format!("{}{}", open.repeat(n), close.repeat(n));
            }
        }
        "move" => {
            // the element again, before another token
            let e = to(t);
            let s = text_of(&t[at..=e]);
            let n: usize = arg.parse().expect("HARNESS: move");
            let n = n % t.len();
            t[n].pre += &s;
        }
        "adrop" => {
            t[at].attrs = match arg {
                "all" => vec![],
                k => {
                    let k: usize = k.parse().expect("HARNESS: attribute");
                    let mut a = t[at].attrs.clone();
                    a.remove(k);
                    a
                }
            };
            t[at].raw = tag(t[at].k, &t[at].name, &t[at].attrs);
        }
        "aval" => {
            let (k, v) = arg.split_once(',').expect("HARNESS: value");
            let v = VALUES[v.parse::<usize>().expect("HARNESS: value")];
            match k {
                "all" => t[at].attrs.iter_mut().for_each(|a| a.1 = v.into()),
                k => t[at].attrs[k.parse::<usize>().expect("HARNESS: attribute")].1 = v.into(),
            }
            t[at].raw = tag(t[at].k, &t[at].name, &t[at].attrs);
        }
        "adup" => {
            let a = t[at].attrs.clone();
            t[at].attrs.extend(a);
            t[at].raw = tag(t[at].k, &t[at].name, &t[at].attrs);
        }
        "text" => {
            t[at].raw = match arg {
                "empty" => String::new(),
                "ent" => "&zzz;".into(),
                "amp" => "& ".into(),
                "lt" => "< ".into(),
                "nul" => "\0\u{1}".into(),
                "numref" => "&#x0;&#99999999;".into(),
                "cdata" => "<![CDATA[".into(),
                "comment" => "<!--".into(),
                "pi" => "<?".into(),
                "doctype" => "<!DOCTYPE a [<!ENTITY b \"&b;\">]>&b;".into(),
                "huge" => "9".repeat(400),
                v => VALUES[v.parse::<usize>().expect("HARNESS: value")].into(),
            }
        }
        "bytes" => {
            let mut b = text_of(&t[..at]).into_bytes();
            b.extend(match arg {
                "utf8" => vec![0xff, 0xfe, 0x80],
                "nul" => vec![0; 9],
                _ => b"\xed\xa0\x80<".to_vec(),
            });
            b.extend(text_of(&t[at..]).into_bytes());
            return Some(b);
        }
        o => panic!("HARNESS: fault {o}"),
    }
    None
}

fn hex(s: &str) -> Vec<u8> {
    (0..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).expect("HARNESS: hex")).collect()
}

/// Edits of the package as a whole.
fn package(parts: &mut Parts, op: &str, part: &str, arg: &str) {
    let find = |parts: &Parts, n: &str| parts.iter().position(|p| p.0 == n);
    let at = find(parts, part);
    match op {
        "pdrop" => parts.retain(|p| p.0 != part),
        "pset" => parts[at.unwrap()].1 = arg.as_bytes().to_vec(),
        "pempty" => parts[at.unwrap()].1.clear(),
        "phex" => parts[at.unwrap()].1 = hex(arg),
        "phead" => {
            let b = &mut parts[at.unwrap()].1;
            *b = [hex(arg), std::mem::take(b)].concat();
        }
        "pfirst" => parts[at.unwrap()].1.truncate(arg.parse().expect("HARNESS: first")),
        "pless" => {
            let b = &mut parts[at.unwrap()].1;
            let l = b.len().saturating_sub(arg.parse().expect("HARNESS: less"));
            b.truncate(l);
        }
        "pfill" => {
            parts[at.unwrap()].1 = match arg {
                "text" => b"zzz".to_vec(),
                "decl" => b"<?xml version=\"1.0\"?>".to_vec(),
                "other" => b"<zzz/>".to_vec(),
                "open" => b"<zzz>".to_vec(),
                "bin" => (0..=255u8).cycle().take(3000).collect(),
                "utf16" => {
                    let s = String::from_utf8_lossy(&parts[at.unwrap()].1).into_owned();
                    let mut b = vec![0xff, 0xfe];
                    s.encode_utf16().for_each(|u| b.extend(u.to_le_bytes()));
                    b
                }
                n => find(parts, n).map(|i| parts[i].1.clone()).unwrap_or_default(),
            }
        }
        "pcut" => {
            let n: usize = arg.parse().expect("HARNESS: cut");
            let b = &mut parts[at.unwrap()].1;
            let l = b.len() * n / 16;
            b.truncate(l);
        }
        "pflip" => {
            let n: usize = arg.parse().expect("HARNESS: flip");
            let b = &mut parts[at.unwrap()].1;
            if !b.is_empty() {
                let l = n % b.len();
                b[l] ^= 1 << (n % 8);
            }
        }
        "prename" => parts[at.unwrap()].0 = arg.to_string(),
        "pdup" => {
            // the same name once more; the last character tells them apart until they are in the container
            let x = parts[at.unwrap()].clone();
            let mut n = x.0;
            n.pop();
            parts.push((n + "\u{1}", x.1));
        }
        "padd" => {
            // parts nobody knows, with relationships nobody knows
            for p in parts.iter_mut() {
                if p.0.ends_with(".rels") {
                    let s = String::from_utf8(p.1.clone()).expect("HARNESS: rels");
                    let r = "<Relationship Id=\"rZzz\" Type=\"urn:zzz\" Target=\"zzz/zzz.xml\"/><Relationship TargetMode=\"External\" Target=\"http://zzz/\" Id=\"rZzy\" Type=\"urn:zzy\"/>";
                    let i = if arg == "last" {
                        s.rfind("</Relationships>")
                    } else {
                        s.find("<Relationship ")
                    };
                    if let Some(i) = i {
                        p.1 = format!("{}{r}{}", &s[..i], &s[i..]).into_bytes();
                    }
                }
                if p.0 == "[Content_Types].xml" {
                    let s = String::from_utf8(p.1.clone()).expect("HARNESS: types");
                    p.1 = s
                        .replace("</Types>", "<Default Extension=\"zzz\" ContentType=\"urn:zzz\"/><Override PartName=\"/word/zzz/zzz.xml\" ContentType=\"urn:zzz\"/></Types>")
                        .into_bytes();
                }
            }
            let new = vec![
                ("word/zzz/zzz.xml".to_string(), b"<zzz>&amp;</zzz>".to_vec()),
                ("zzz.bin".to_string(), vec![0, 1, 2, 255]),
                ("customXml/zzz/".to_string(), vec![]),
            ];
            if arg == "last" {
                parts.extend(new);
            } else {
                for x in new {
                    parts.insert(0, x);
                }
            }
        }
        "pmove" => {
            // new name, form of the targets that lead to it
            let (to, form) = arg.split_once('|').expect("HARNESS: move");
            relocate(parts, part, to, form);
        }
        o => panic!("HARNESS: package edit {o}"),
    }
}

fn relative(from: &str, to: &str, form: &str) -> String {
    let d: Vec<&str> = from.split('/').collect();
    let d = &d[..d.len() - 1];
    let t: Vec<&str> = to.split('/').collect();
    let common = d.iter().zip(&t[..t.len() - 1]).take_while(|(a, b)| a == b).count();
    match form {
        "abs" => format!("/{to}"),
        "rel" => format!("{}{}", "../".repeat(d.len() - common), t[common..].join("/")),
        "dot" => format!("./{}{}", "../".repeat(d.len() - common), t[common..].join("/")),
        "up" => {
            // all the way up and down again
            format!("{}{}", "../".repeat(d.len()), to)
        }
        "in" if !d.is_empty() => format!("../{}/{}{}", d[d.len() - 1], "../".repeat(d.len() - common), t[common..].join("/")),
        "in" => format!("zzz/../{to}"),
        f => panic!("HARNESS: form {f}"),
    }
}

/// Gives a part another name; every relationship to it and from it means the same as before.
fn relocate(parts: &mut Parts, part: &str, to: &str, form: &str) {
    let is_root = |n: &str| n == "_rels/.rels";
    // what every relationship leads to
    let mut all: Vec<(usize, Vec<Tok>, String)> = vec![];
    for (i, p) in parts.iter().enumerate() {
        if p.0.ends_with(".rels") {
            if let (Some(src), Ok(s)) = (pkg::rels_source(&p.0), std::str::from_utf8(&p.1)) {
                all.push((i, lex(s), src));
            }
        }
    }
    for (i, mut toks, src) in all {
        let new_src = if src == part { to.to_string() } else { src.clone() };
        for t in toks.iter_mut().filter(|t| local(&t.name) == "Relationship" && matches!(t.k, 'o' | 'e')) {
            if t.attrs.iter().any(|a| a.0 == "TargetMode" && a.1 == "External") {
                continue;
            }
            for a in t.attrs.iter_mut().filter(|a| a.0 == "Target") {
                let abs = pkg::resolve_target(&src, &a.1);
                let new = if abs == part { to.to_string() } else { abs.clone() };
                if abs == part || src == part {
                    a.1 = relative(&new_src, &new, form);
                }
            }
            t.raw = tag(t.k, &t.name, &t.attrs);
        }
        parts[i].1 = text_of(&toks).into_bytes();
        if src == part && !is_root(&parts[i].0) {
            parts[i].0 = pkg::rels_name(to);
        }
    }
    for p in parts.iter_mut() {
        if p.0 == part {
            p.0 = to.to_string();
        }
        if p.0 == "[Content_Types].xml" {
            let s = String::from_utf8(p.1.clone()).expect("HARNESS: types");
            p.1 = s.replace(&format!("\"/{part}\""), &format!("\"/{to}\"")).into_bytes();
        }
    }
}

/// The package as one XML file.
pub fn flat(parts: &Parts, how: &Value) -> String {
    let on = |k: &str| how[k] == true;
    let mut s = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<?mso-application progid=\"Word.Document\"?>\n");
    s += "<pkg:package xmlns:pkg=\"http://schemas.microsoft.com/office/2006/xmlPackage\">";
    let gap = if on("gaps") { "\n  " } else { "" };
    for (name, b) in parts {
        if name.ends_with('/') || (name == "[Content_Types].xml" && !on("types")) {
            continue;
        }
        let xml = name.ends_with(".xml") || name.ends_with(".rels");
        let slash = if on("bare") { "" } else { "/" };
        let ct = if name.ends_with(".rels") {
            "application/vnd.openxmlformats-package.relationships+xml"
        } else {
            "application/octet-stream"
        };
        let (n, c) = (format!("pkg:name=\"{slash}{name}\""), format!("pkg:contentType=\"{ct}\""));
        let (n, c) = if on("quotes") { (n.replace('"', "'"), c.replace('"', "'")) } else { (n, c) };
        let extra = if on("attrs") { " pkg:padding=\"256\"" } else { "" };
        let head = if on("swap") { format!("{c}{extra} {n}") } else { format!("{n} {c}{extra}") };
        s += &format!("{gap}<pkg:part {head}>{gap}");
        if xml && !on("binary") {
            let t = String::from_utf8_lossy(b);
            let t = t.trim_start_matches('\u{feff}');
            let t = match t.strip_prefix("<?xml ") {
                Some(r) if !on("decl") => &r[r.find("?>").map(|i| i + 2).unwrap_or(0)..],
                _ => t,
            };
            s += &format!("<pkg:xmlData>{gap}{t}{gap}</pkg:xmlData>");
        } else {
            let b64 = base64::engine::general_purpose::STANDARD.encode(b);
            let b64 = if on("lines") {
                let c: Vec<char> = b64.chars().collect();
                c.chunks(76).map(|c| c.iter().collect::<String>()).collect::<Vec<_>>().join(if on("gaps") { "\r\n   " } else { "\n" })
            } else {
                b64
            };
            s += &format!("<pkg:binaryData>{gap}{b64}{gap}</pkg:binaryData>");
        }
        s += &format!("{gap}</pkg:part>");
    }
    s + gap + "</pkg:package>"
}

fn order(parts: &mut Parts, how: &str) {
    match how {
        "" | "same" => {}
        "rev" => parts.reverse(),
        "sorted" => parts.sort(),
        n => {
            // a permutation by number
            let mut n: u64 = n.parse().expect("HARNESS: order");
            for i in (1..parts.len()).rev() {
                n = n.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let j = (n >> 33) as usize % (i + 1);
                parts.swap(i, j);
            }
        }
    }
}

/// Everything about a read document except the names of image parts and the ids that paragraphs
/// without one are given: those are numbered.
fn dump(mut d: docx_rs::Docx, ids: &HashSet<String>) -> String {
    let images = std::mem::take(&mut d.images);
    let mut props: Vec<_> = std::mem::take(&mut d.doc_props.custom.properties).into_iter().collect();
    props.sort();
    let full = format!("{d:?}");
    let mut s = String::with_capacity(full.len());
    let mut given: HashMap<&str, usize> = HashMap::new();
    let mut rest = full.as_str();
    const MARK: &str = "Paragraph { id: \"";
    while let Some(i) = rest.find(MARK) {
        let i = i + MARK.len();
        let e = i + rest[i..].find('"').unwrap();
        s += &rest[..i];
        let id = &rest[i..e];
        if ids.contains(id) {
            s += id;
        } else {
            let n = given.len();
            s += &format!("#{}", given.entry(id).or_insert(n));
        }
        rest = &rest[e..];
    }
    s += rest;
    s += &format!("\nproperties {props:?}");
    for (id, _, a, b) in images {
        s += &format!("\nimage {id} {} {}", digest(&a.0), digest(&b.0));
    }
    s
}

fn digest(b: &[u8]) -> String {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    b.hash(&mut h);
    format!("{}:{:x}", b.len(), h.finish())
}

pub struct Base {
    pub parts: Parts,
    pub toks: HashMap<String, Vec<Tok>>,
    pub ids: HashSet<String>,
    pub read: Option<String>,
}

thread_local! {
    static BASES: RefCell<HashMap<String, Rc<Base>>> = RefCell::new(HashMap::new());
}

fn is_xml(n: &str) -> bool {
    n.ends_with(".xml") || n.ends_with(".rels")
}

/// Without the parts that no relationship leads to.
fn reachable(parts: Parts) -> Parts {
    let mut seen: HashSet<String> = HashSet::from(["[Content_Types].xml".to_string()]);
    let mut work = vec![String::new()];
    while let Some(p) = work.pop() {
        let r = if p.is_empty() { "_rels/.rels".to_string() } else { pkg::rels_name(&p) };
        let toks = parts.iter().find(|x| x.0 == r).and_then(|x| std::str::from_utf8(&x.1).ok()).map(lex).unwrap_or_default();
        seen.insert(r);
        for t in toks.iter().filter(|t| local(&t.name) == "Relationship") {
            if t.attrs.iter().any(|a| a.0 == "TargetMode" && a.1 == "External") {
                continue;
            }
            for a in t.attrs.iter().filter(|a| a.0 == "Target") {
                let n = pkg::resolve_target(&p, &a.1);
                if seen.insert(n.clone()) {
                    work.push(n);
                }
            }
        }
    }
    parts.into_iter().filter(|p| seen.contains(&p.0)).collect()
}

fn load(b: &Value) -> Rc<Base> {
    let key = b.to_string();
    if let Some(x) = BASES.with(|m| m.borrow().get(&key).cloned()) {
        return x;
    }
    let parts = if let Some(f) = b["file"].as_str() {
        reachable(pkg::unzip(&std::fs::read(f).expect("HARNESS: base")).expect("HARNESS: base"))
    } else if let Some(f) = b["flat"].as_str() {
        unflat(&std::fs::read_to_string(f).expect("HARNESS: base"))
    } else {
        let d = build::docx(&build::N::from(&b["calls"]));
        reachable(pkg::unzip(&build::pack_built(d)).expect("HARNESS: base"))
    };
    let toks: HashMap<String, Vec<Tok>> = parts
        .iter()
        .filter(|p| is_xml(&p.0))
        .filter_map(|p| Some((p.0.clone(), lex(std::str::from_utf8(&p.1).ok()?))))
        .collect();
    let ids: HashSet<String> =
        toks.values().flatten().flat_map(|t| &t.attrs).filter(|a| local(&a.0) == "paraId").map(|a| a.1.clone()).collect();
    let read = docx_rs::read_docx(&pkg::zip_parts(&parts)).ok().map(|d| dump(d, &ids));
    let x = Rc::new(Base { parts, toks, ids, read });
    BASES.with(|m| m.borrow_mut().insert(key, x.clone()));
    x
}

/// Parts of a hand-written flat package: <part name="...">...</part> or base64 in <data name>.
fn unflat(s: &str) -> Parts {
    let mut v = vec![];
    let mut at = 0;
    while let Some(i) = s[at..].find("<part name=\"") {
        let i = at + i + 12;
        let n = i + s[i..].find('"').expect("HARNESS: base");
        let e = n + s[n..].find("</part>").expect("HARNESS: base");
        let body = s[n + 2..e].trim();
        let name = s[i..n].to_string();
        if is_xml(&name) {
            v.push((name, format!("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n{body}").into_bytes()));
        } else {
            v.push((name, base64::engine::general_purpose::STANDARD.decode(body.replace(char::is_whitespace, "")).expect("HARNESS: base")));
        }
        at = e;
    }
    v
}

/// Parts and tokens of a base, for the specification. `rep` marks the first token of every context.
pub fn shape(c: &Value) -> Value {
    let b = load(&c["base"]);
    let mut seen = HashSet::new();
    let none = vec![];
    let parts: Vec<Value> = b
        .parts
        .iter()
        .map(|(n, _)| {
            let toks = b.toks.get(n).unwrap_or(&none);
            let root = toks.iter().find(|t| matches!(t.k, 'o' | 'e')).map(|t| local(&t.name).to_string()).unwrap_or_default();
            let toks: Vec<Value> = toks
                .iter()
                .enumerate()
                .map(|(i, t)| {
                    json!({
                        "k": t.k.to_string(), "n": t.name, "na": t.attrs.len(),
                        "nx": t.attrs.iter().filter(|a| !a.0.starts_with("xmlns")).count(),
                        "simple": t.simple, "depth": t.depth, "last": t.mate == i + 1, "i": i,
                        "rep": seen.insert((root.clone(), t.path.clone(), t.k)),
                    })
                })
                .collect();
            json!({"name": n, "file": n.rsplit('/').next(), "xml": is_xml(n), "rels": n.ends_with(".rels"), "toks": toks})
        })
        .collect();
    json!({"parts": parts, "reads": b.read.is_some()})
}

fn run_limited<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(f).expect("HARNESS: thread");
    match h.join() {
        Ok(v) => v,
        Err(e) => std::panic::resume_unwind(e),
    }
}

fn difference(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let mut lo = i.saturating_sub(60).min(s.len());
        while !s.is_char_boundary(lo) {
            lo -= 1;
        }
        let mut hi = (i + 80).min(s.len());
        while !s.is_char_boundary(hi) {
            hi += 1;
        }
        s[lo..hi].to_string()
    };
    format!("expected …{}… got …{}…", cut(a), cut(b))
}

pub fn run(c: &Value) -> Value {
    if let Some(r) = c["raw"].as_str() {
        let b = base64::engine::general_purpose::STANDARD.decode(r).expect("HARNESS: raw");
        let (x, y) = run_limited(move || {
            (docx_rs::read_docx(&b).is_ok(), docx_rs::read_xml(&String::from_utf8_lossy(&b)).is_ok())
        });
        return json!({"ok": x || y});
    }
    let base = load(&c["base"]);
    let mut parts = base.parts.clone();
    let empty = vec![];
    let edits = c["edits"].as_array().unwrap_or(&empty);
    let mut touched: Vec<(String, Vec<Tok>, Option<Vec<u8>>)> = vec![];
    // edits of one part from the back, so that positions stay what they are
    let mut es: Vec<&Value> = edits.iter().filter(|e| e["at"].is_u64()).collect();
    es.sort_by_key(|e| std::cmp::Reverse(e["at"].as_u64()));
    for e in es {
        let part = e["part"].as_str().expect("HARNESS: part");
        let at = e["at"].as_u64().unwrap() as usize;
        let (op, arg) = (e["op"].as_str().unwrap(), e["arg"].as_str().unwrap_or(""));
        let i = match touched.iter().position(|t| t.0 == part) {
            Some(i) => i,
            None => {
                touched.push((part.to_string(), base.toks.get(part).expect("HARNESS: part").clone(), None));
                touched.len() - 1
            }
        };
        let t = &mut touched[i];
        if e["fault"] == true {
            if at < t.1.len() {
                if let Some(b) = fault(&mut t.1, at, op, arg) {
                    t.2 = Some(b);
                }
            }
        } else {
            same(&mut t.1, at, op, arg);
        }
    }
    for (n, t, b) in touched {
        let i = parts.iter().position(|p| p.0 == n).expect("HARNESS: part");
        parts[i].1 = b.unwrap_or_else(|| text_of(&t).into_bytes());
    }
    for e in edits.iter().filter(|e| !e["at"].is_u64()) {
        package(&mut parts, e["op"].as_str().unwrap(), e["part"].as_str().unwrap_or(""), e["arg"].as_str().unwrap_or(""));
    }
    let zipped = (c["compare"] == "zip").then(|| docx_rs::read_docx(&pkg::zip_parts(&parts)).ok().map(|d| dump(d, &base.ids)));
    order(&mut parts, c["order"].as_str().unwrap_or(""));
    let bytes = if c["flat"].is_object() { flat(&parts, &c["flat"]).into_bytes() } else { pkg::zip_parts(&parts) };
    let bytes = damage(twins(bytes, &parts), &c["damage"]);
    if let Some(f) = c["save"].as_str() {
        std::fs::write(f, &bytes).expect("HARNESS: save");
    }
    let isflat = c["flat"].is_object();
    let previews = c["previews"] != false;
    let ids = base.ids.clone();
    let compared = c["compare"] == true || zipped.is_some();
    let got = run_limited(move || {
        if isflat {
            docx_rs::read_xml(&String::from_utf8_lossy(&bytes))
        } else if previews {
            docx_rs::read_docx(&bytes)
        } else {
            docx_rs::read_docx_with_options(&bytes, docx_rs::ReadDocxOptions::default().with_image_previews(false))
        }
        .map(|d| if compared { dump(d, &ids) } else { String::new() })
        .map_err(|e| format!("{e}"))
    });
    let mut o = json!({"ok": got.is_ok()});
    if compared {
        match (zipped.as_ref().unwrap_or(&base.read), &got) {
            (Some(a), Ok(b)) if a == b => {}
            (Some(a), Ok(b)) => o["diff"] = json!(difference(a, b)),
            (Some(_), Err(e)) => o["diff"] = json!(format!("error: {e}")),
            (None, Ok(_)) => o["diff"] = json!("only this form can be read"),
            (None, Err(_)) => {}
        }
    }
    o
}

/// Damage to the container itself.
/// Gives parts that are in the package twice the same name.
fn twins(mut b: Vec<u8>, parts: &Parts) -> Vec<u8> {
    for (n, _) in parts.iter().filter(|p| p.0.ends_with('\u{1}')) {
        let n = n.as_bytes();
        let Some(real) = parts.iter().map(|p| p.0.as_bytes()).find(|r| r.len() == n.len() && r[..n.len() - 1] == n[..n.len() - 1] && *r != n) else {
            continue;
        };
        for i in 0..b.len().saturating_sub(n.len()) {
            if b[i..].starts_with(n) {
                b[i..i + n.len()].copy_from_slice(real);
            }
        }
    }
    b
}

fn damage(mut b: Vec<u8>, how: &Value) -> Vec<u8> {
    for d in how.as_array().into_iter().flatten() {
        let (op, at, arg) = (d["op"].as_str().unwrap(), d["at"].as_u64().unwrap() as usize, d["arg"].as_u64().unwrap_or(0));
        if b.is_empty() {
            break;
        }
        let l = b.len();
        match op {
            // positions in 1/65536 of the length
            "cut" => b.truncate(l * at / 65536),
            "head" => {
                b.drain(..l * at / 65536);
            }
            "set" => {
                let i = (l * at / 65536).min(l - 1);
                b[i] = arg as u8;
            }
            // a field of the n-th record with this signature
            "field" => {
                let sig: [u8; 4] = match d["sig"].as_str().unwrap() {
                    "local" => *b"PK\x03\x04",
                    "central" => *b"PK\x01\x02",
                    _ => *b"PK\x05\x06",
                };
                let n = d["n"].as_u64().unwrap() as usize;
                let found: Vec<usize> = (0..l.saturating_sub(4)).filter(|&i| b[i..i + 4] == sig).collect();
                if !found.is_empty() {
                    let i = found[n % found.len()] + at;
                    let w = d["width"].as_u64().unwrap_or(2) as usize;
                    for k in 0..w {
                        if i + k < l {
                            b[i + k] = (arg >> (8 * k)) as u8;
                        }
                    }
                }
            }
            o => panic!("HARNESS: damage {o}"),
        }
    }
    b
}
