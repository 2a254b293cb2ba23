//! A small, strict XML 1.0 + namespaces parser, independent of the one the library uses.
//! Anything that is not well formed is an error: a consumer such as Word refuses the file.

use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub struct El {
    pub prefix: String,
    pub local: String,
    pub ns: String,
    /// (prefix, local, ns, value)
    pub attrs: Vec<(String, String, String, String)>,
    pub kids: Vec<Kid>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Kid {
    El(El),
    Text(String),
}

impl El {
    pub fn q(&self) -> String {
        if self.prefix.is_empty() {
            self.local.clone()
        } else {
            format!("{}:{}", self.prefix, self.local)
        }
    }
    /// Attribute by local name, any prefix.
    pub fn attr(&self, local: &str) -> Option<&str> {
        self.attrs
            .iter()
            .find(|a| a.1 == local)
            .map(|a| a.3.as_str())
    }
    pub fn attr_p(&self, prefix: &str, local: &str) -> Option<&str> {
        self.attrs
            .iter()
            .find(|a| a.0 == prefix && a.1 == local)
            .map(|a| a.3.as_str())
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| match k {
            Kid::El(e) => Some(e),
            _ => None,
        })
    }
    pub fn child(&self, local: &str) -> Option<&El> {
        self.els().find(|e| e.local == local)
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Kid::Text(t) => s.push_str(t),
                Kid::El(e) => s.push_str(&e.text()),
            }
        }
        s
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a El)) {
        f(self);
        for e in self.els() {
            e.walk(f);
        }
    }
}

pub struct P<'a> {
    s: &'a [char],
    i: usize,
}

fn legal(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
fn name_start(c: char) -> bool {
    c == ':' || c == '_' || c.is_alphabetic()
}
fn name_char(c: char) -> bool {
    name_start(c) || c == '-' || c == '.' || c.is_numeric() || c == '\u{B7}'
}

pub fn parse(bytes: &[u8]) -> Result<El, String> {
    let s = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {e}"))?;
    let s = s.strip_prefix('\u{feff}').unwrap_or(s);
    // line end normalisation (XML 1.0 2.11)
    let s = s.replace("\r\n", "\n").replace('\r', "\n");
    let cs: Vec<char> = s.chars().collect();
    if let Some((i, c)) = cs.iter().enumerate().find(|(_, c)| !legal(**c)) {
        return Err(format!("illegal character U+{:04X} at {}", *c as u32, i));
    }
    let mut p = P { s: &cs, i: 0 };
    if p.looking("<?xml") {
        p.until("?>")?;
    }
    p.misc()?;
    let mut scope = BTreeMap::new();
    scope.insert(
        "xml".to_string(),
        "http://www.w3.org/XML/1998/namespace".to_string(),
    );
    let root = p.element(&scope, 0)?;
    p.misc()?;
    if p.i != cs.len() {
        return Err(format!("content after the root element at {}", p.i));
    }
    Ok(root)
}

impl<'a> P<'a> {
    fn looking(&self, t: &str) -> bool {
        t.chars()
            .enumerate()
            .all(|(k, c)| self.s.get(self.i + k) == Some(&c))
    }
    fn until(&mut self, t: &str) -> Result<String, String> {
        let start = self.i;
        while self.i < self.s.len() {
            if self.looking(t) {
                let r = self.s[start..self.i].iter().collect();
                self.i += t.chars().count();
                return Ok(r);
            }
            self.i += 1;
        }
        Err(format!("unterminated construct, expected {t}"))
    }
    fn ws(&mut self) -> bool {
        let st = self.i;
        while self.i < self.s.len() && matches!(self.s[self.i], ' ' | '\t' | '\n' | '\r') {
            self.i += 1;
        }
        self.i > st
    }
    fn misc(&mut self) -> Result<(), String> {
        loop {
            self.ws();
            if self.looking("<!--") {
                self.i += 4;
                self.until("-->")?;
            } else if self.looking("<?") {
                self.i += 2;
                self.until("?>")?;
            } else {
                return Ok(());
            }
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let st = self.i;
        if self.i >= self.s.len() || !name_start(self.s[self.i]) {
            return Err(format!("name expected at {}", self.i));
        }
        while self.i < self.s.len() && name_char(self.s[self.i]) {
            self.i += 1;
        }
        Ok(self.s[st..self.i].iter().collect())
    }
    fn reference(&mut self) -> Result<char, String> {
        // at '&'
        self.i += 1;
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i] != ';' {
            if self.i - st > 12 {
                break;
            }
            self.i += 1;
        }
        if self.i >= self.s.len() || self.s[self.i] != ';' {
            return Err(format!("bare '&' at {}", st - 1));
        }
        let n: String = self.s[st..self.i].iter().collect();
        self.i += 1;
        let c = match n.as_str() {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let v = if let Some(h) = n.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = n.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                match v.and_then(char::from_u32) {
                    Some(c) if legal(c) => c,
                    _ => return Err(format!("undefined or illegal reference &{n};")),
                }
            }
        };
        Ok(c)
    }
    fn split(n: &str) -> Result<(String, String), String> {
        match n.split_once(':') {
            None => Ok((String::new(), n.to_string())),
            Some((p, l)) if !p.is_empty() && !l.is_empty() && !l.contains(':') => {
                Ok((p.to_string(), l.to_string()))
            }
            _ => Err(format!("bad qualified name {n}")),
        }
    }
    fn element(&mut self, scope: &BTreeMap<String, String>, depth: usize) -> Result<El, String> {
        if depth > 2000 {
            return Err("nesting too deep".into());
        }
        if !self.looking("<") {
            return Err(format!("element expected at {}", self.i));
        }
        self.i += 1;
        let qn = self.name()?;
        let mut raw: Vec<(String, String)> = vec![];
        let mut empty = false;
        loop {
            let had = self.ws();
            if self.looking("/>") {
                self.i += 2;
                empty = true;
                break;
            }
            if self.looking(">") {
                self.i += 1;
                break;
            }
            if !had {
                return Err(format!("whitespace expected in <{qn}> at {}", self.i));
            }
            let an = self.name()?;
            self.ws();
            if !self.looking("=") {
                return Err(format!("'=' expected after attribute {an} of <{qn}>"));
            }
            self.i += 1;
            self.ws();
            let q = match self.s.get(self.i) {
                Some(c @ ('"' | '\'')) => *c,
                _ => return Err(format!("quote expected in attribute {an} of <{qn}>")),
            };
            self.i += 1;
            let mut v = String::new();
            loop {
                match self.s.get(self.i) {
                    None => return Err("end of input in attribute".into()),
                    Some(c) if *c == q => {
                        self.i += 1;
                        break;
                    }
                    Some('<') => return Err(format!("'<' in attribute {an} of <{qn}>")),
                    Some('&') => v.push(self.reference()?),
                    Some('\t' | '\n' | '\r') => {
                        v.push(' ');
                        self.i += 1;
                    }
                    Some(c) => {
                        v.push(*c);
                        self.i += 1;
                    }
                }
            }
            if raw.iter().any(|(n, _)| *n == an) {
                return Err(format!("duplicate attribute {an} in <{qn}>"));
            }
            raw.push((an, v));
        }
        let mut sc = std::borrow::Cow::Borrowed(scope);
        for (n, v) in &raw {
            if n == "xmlns" {
                sc.to_mut().insert(String::new(), v.clone());
            } else if let Some(p) = n.strip_prefix("xmlns:") {
                if v.is_empty() {
                    return Err(format!("empty namespace for prefix {p}"));
                }
                sc.to_mut().insert(p.to_string(), v.clone());
            }
        }
        let (prefix, local) = Self::split(&qn)?;
        let ns = match sc.get(&prefix) {
            Some(n) => n.clone(),
            None if prefix.is_empty() => String::new(),
            None => return Err(format!("undeclared prefix {prefix} in <{qn}>")),
        };
        let mut attrs: Vec<(String, String, String, String)> = vec![];
        for (n, v) in raw {
            if n == "xmlns" || n.starts_with("xmlns:") {
                continue;
            }
            let (ap, al) = Self::split(&n)?;
            let ans = if ap.is_empty() {
                String::new()
            } else {
                match sc.get(&ap) {
                    Some(u) => u.clone(),
                    None => return Err(format!("undeclared prefix {ap} in attribute of <{qn}>")),
                }
            };
            if !ap.is_empty() && attrs.iter().any(|a| a.1 == al && a.2 == ans) {
                return Err(format!("duplicate attribute {n} in <{qn}>"));
            }
            attrs.push((ap, al, ans, v));
        }
        let mut el = El {
            prefix,
            local,
            ns,
            attrs,
            kids: vec![],
        };
        if empty {
            return Ok(el);
        }
        let mut txt = String::new();
        loop {
            if self.i >= self.s.len() {
                return Err(format!("end of input inside <{qn}>"));
            }
            if self.looking("</") {
                self.i += 2;
                let en = self.name()?;
                if en != qn {
                    return Err(format!("end tag </{en}> does not match <{qn}>"));
                }
                self.ws();
                if !self.looking(">") {
                    return Err(format!("malformed end tag </{en}>"));
                }
                self.i += 1;
                break;
            } else if self.looking("<![CDATA[") {
                self.i += 9;
                txt.push_str(&self.until("]]>")?);
            } else if self.looking("<!--") {
                self.i += 4;
                let c = self.until("-->")?;
                if c.contains("--") {
                    return Err("'--' in comment".into());
                }
            } else if self.looking("<?") {
                self.i += 2;
                self.until("?>")?;
            } else if self.looking("<") {
                if !txt.is_empty() {
                    el.kids.push(Kid::Text(std::mem::take(&mut txt)));
                }
                let e = self.element(&sc, depth + 1)?;
                el.kids.push(Kid::El(e));
            } else if self.looking("]]>") {
                return Err("']]>' in text".into());
            } else if self.s[self.i] == '&' {
                txt.push(self.reference()?);
            } else {
                txt.push(self.s[self.i]);
                self.i += 1;
            }
        }
        if !txt.is_empty() {
            el.kids.push(Kid::Text(txt));
        }
        Ok(el)
    }
}
