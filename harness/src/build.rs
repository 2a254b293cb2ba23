//! Interprets an abstract document (a tree emitted by the specification) through the public
//! builder API. One node = one public call (or constructor) of the library.

use crate::images;
use crate::threads::elsewhere;
use docx_rs::*;
use serde_json::Value;

#[derive(Debug, Clone, PartialEq)]
pub struct N {
    pub k: String,
    pub v: String,
    /// arguments that are not visible in the document itself
    pub o: String,
    pub c: Vec<N>,
    /// the thread that builds it
    pub t: Option<usize>,
    /// it has been built
    pub ready: Option<usize>,
}

impl N {
    pub fn from(v: &Value) -> N {
        N {
            k: v["k"].as_str().unwrap_or_else(|| panic!("node without k: {v}")).to_string(),
            v: v["v"].as_str().unwrap_or("").to_string(),
            o: v["o"].as_str().unwrap_or("").to_string(),
            c: v["c"].as_array().map(|a| a.iter().map(N::from).collect()).unwrap_or_default(),
            t: v["t"].as_u64().map(|t| t as usize),
            ready: None,
        }
    }
    pub fn json(&self) -> Value {
        serde_json::json!([self.k, self.v, self.c.iter().map(N::json).collect::<Vec<_>>()])
    }
    pub fn opts(&self) -> Vec<(&str, &str)> {
        self.v
            .split(';')
            .chain(self.o.split(';'))
            .filter(|s| !s.is_empty())
            .map(|s| s.split_once('=').unwrap_or((s, "")))
            .collect()
    }
}

pub fn n(k: &str, v: impl Into<String>, c: Vec<N>) -> N {
    N { k: k.into(), v: v.into(), o: String::new(), c, t: None, ready: None }
}

fn bad(n: &N, wher: &str) -> ! {
    panic!("HARNESS: node kind {} not supported in {}", n.k, wher)
}

pub fn num<T: std::str::FromStr>(s: &str) -> T {
    s.parse().ok().unwrap_or_else(|| panic!("HARNESS: number expected, got {s:?}"))
}

pub fn author_date(v: &str) -> (String, String) {
    let (a, d) = v.split_once('|').unwrap_or((v, "2024-01-01T00:00:00Z"));
    (a.to_string(), d.to_string())
}

/// v = id, o = "<parent|author|date" (the parent part may be empty).
pub fn comment(n: &N) -> Comment {
    if let Some(x) = elsewhere(n, comment) {
        return x;
    }
    let id = num::<usize>(&n.v);
    let mut f = n.o.splitn(3, '|');
    let parent = f.next().unwrap_or("");
    let mut c = Comment::new(id);
    if let Some(a) = f.next() {
        c = c.author(a);
    }
    if let Some(d) = f.next() {
        c = c.date(d);
    }
    if let Some(p) = parent.strip_prefix('<') {
        c = c.parent_comment_id(num(p));
    }
    for k in &n.c {
        c = match k.k.as_str() {
            "p" => c.add_paragraph(paragraph(k)),
            "tbl" => c.add_table(table(k)),
            _ => bad(k, "comment"),
        };
    }
    c
}

pub fn pic_align(v: &str) -> PicAlign {
    match v {
        "left" => PicAlign::Left,
        "right" => PicAlign::Right,
        "center" => PicAlign::Center,
        "top" => PicAlign::Top,
        "bottom" => PicAlign::Bottom,
        _ => panic!("HARNESS: pic align {v}"),
    }
}

pub fn rel_h(v: &str) -> RelativeFromHType {
    use RelativeFromHType::*;
    match v {
        "character" => Character,
        "column" => Column,
        "insideMargin" => InsideMargin,
        "leftMargin" => LeftMargin,
        "margin" => Margin,
        "outsideMargin" => OutsizeMargin,
        "page" => Page,
        "rightMargin" => RightMargin,
        _ => panic!("HARNESS: relative h {v}"),
    }
}

pub fn rel_v(v: &str) -> RelativeFromVType {
    use RelativeFromVType::*;
    match v {
        "bottomMargin" => BottomMargin,
        "insideMargin" => InsideMargin,
        "line" => Line,
        "margin" => Margin,
        "outsideMargin" => OutsizeMargin,
        "page" => Page,
        "paragraph" => Paragraph,
        "topMargin" => TopMargin,
        _ => panic!("HARNESS: relative v {v}"),
    }
}

pub fn pic(n: &N) -> Pic {
    if let Some(x) = elsewhere(n, pic) {
        return x;
    }
    let name = n.v.as_str();
    let it = n.o.split(';').filter(|s| !s.is_empty());
    let mut p = if images::raw(name) {
        Pic::new_with_dimensions(images::bytes(name), 10, 10)
    } else {
        Pic::new(&images::bytes(name))
    };
    for o in it {
        let (k, v) = o.split_once('=').unwrap_or((o, ""));
        let pair = || v.split_once('x').map(|(a, b)| (num::<u32>(a), num::<u32>(b))).unwrap();
        p = match k {
            "id" => p.id(v),
            "size" => p.size(pair().0, pair().1),
            "rot" => p.rotate(num(v)),
            "float" => p.floating(),
            "overlap" => p.overlapping(),
            "ox" => p.offset_x(num(v)),
            "oy" => p.offset_y(num(v)),
            "ph" => p.position_h(DrawingPosition::Align(pic_align(v))),
            "pv" => p.position_v(DrawingPosition::Align(pic_align(v))),
            "rh" => p.relative_from_h(rel_h(v)),
            "rv" => p.relative_from_v(rel_v(v)),
            "dt" => p.dist_t(num(v)),
            "db" => p.dist_b(num(v)),
            "dl" => p.dist_l(num(v)),
            "dr" => p.dist_r(num(v)),
            "sp" => p.simple_pos(v == "1"),
            "rhgt" => p.relative_height(num(v)),
            _ => panic!("HARNESS: picture option {k}"),
        };
    }
    p
}

fn footnote(n: &N) -> Footnote {
    if let Some(x) = elsewhere(n, footnote) {
        return x;
    }
    let mut f = Footnote::new();
    for p in &n.c {
        f = f.add_content(paragraph(p));
    }
    f
}

enum Instr {
    Page,
    Pages,
    Ref(InstrPAGEREF),
    Tc(InstrTC),
    Link(InstrHyperlink),
    Other(String),
}

/// The instruction of a field by its name, its argument (one word) and its switches.
fn instr(v: &str) -> Instr {
    let w: Vec<&str> = v.split(' ').collect();
    let arg = |i: usize| w.get(i).copied().unwrap_or("").trim_matches('"');
    let has = |x: &str| w.contains(&x);
    let after = |x: &str| w.iter().position(|y| *y == x).map(|i| arg(i + 1));
    match w[0] {
        "PAGE" => Instr::Page,
        "NUMPAGES" => Instr::Pages,
        "PAGEREF" => {
            let mut x = InstrPAGEREF::new(arg(1));
            if has("\\h") {
                x = x.hyperlink();
            }
            if has("\\p") {
                x = x.relative_position();
            }
            Instr::Ref(x)
        }
        "TC" => {
            let mut x = InstrTC::new(arg(1));
            if let Some(f) = after("\\f") {
                x = x.item_type_identifier(f);
            }
            if let Some(l) = after("\\l") {
                x = x.level(num(l));
            }
            if has("\\n") {
                x = x.omits_page_number();
            }
            Instr::Tc(x)
        }
        "HYPERLINK" => {
            let anchor = has("\\l");
            let mut x = InstrHyperlink::new(arg(if anchor { 2 } else { 1 }));
            x.anchor = anchor;
            Instr::Link(x)
        }
        _ => Instr::Other(v.to_string()),
    }
}

pub fn run(n: &N) -> Run {
    if let Some(x) = elsewhere(n, run) {
        return x;
    }
    let mut r = Run::new();
    for (k, v) in n.opts() {
        r = match k {
            "b" => r.bold(),
            "sz" => r.size(num(v)),
            "rs" => r.style(v),
            _ => panic!("HARNESS: run option {k}"),
        };
    }
    for k in &n.c {
        r = match k.k.as_str() {
            "t" => r.add_text(&k.v),
            "dt" => r.add_delete_text(&k.v),
            "tab" => r.add_tab(),
            "ptab" => {
                let mut v = k.v.split(',');
                let mut part = || v.next().unwrap_or_else(|| panic!("HARNESS: ptab {}", k.v));
                r.add_ptab(PositionalTab::new(
                    part().parse().unwrap_or_else(|_| panic!("HARNESS: ptab {}", k.v)),
                    part().parse().unwrap_or_else(|_| panic!("HARNESS: ptab {}", k.v)),
                    part().parse().unwrap_or_else(|_| panic!("HARNESS: ptab {}", k.v)),
                ))
            }
            "br" => r.add_break(match k.v.as_str() {
                "page" => BreakType::Page,
                "column" => BreakType::Column,
                _ => BreakType::TextWrapping,
            }),
            "cr" => r.add_carriage_return(),
            "sym" => {
                let (font, char) = k.v.split_once('|').unwrap_or_else(|| panic!("HARNESS: sym {}", k.v));
                r.add_sym(Sym::new(font, char))
            }
            "img" => r.add_image(pic(k)),
            "fc" => r.add_field_char(
                match k.v.trim_end_matches('!') {
                    "begin" => FieldCharType::Begin,
                    "separate" => FieldCharType::Separate,
                    _ => FieldCharType::End,
                },
                k.v.ends_with('!'),
            ),
            "it" => r.add_instr_text(match instr(&k.v) {
                Instr::Page => InstrText::PAGE(InstrPAGE::new()),
                Instr::Pages => InstrText::NUMPAGES(InstrNUMPAGES::new()),
                Instr::Ref(x) => InstrText::PAGEREF(x),
                Instr::Tc(x) => InstrText::TC(x),
                Instr::Link(x) => InstrText::HYPERLINK(x),
                Instr::Other(x) => InstrText::Unsupported(x),
            }),
            "dit" => r.add_delete_instr_text(match instr(&k.v) {
                Instr::Ref(x) => DeleteInstrText::PAGEREF(x),
                Instr::Tc(x) => DeleteInstrText::TC(x),
                Instr::Link(x) => DeleteInstrText::HYPERLINK(x),
                _ => DeleteInstrText::Unsupported(k.v.clone()),
            }),
            "tc" => match instr(&k.v) {
                Instr::Tc(x) => r.add_tc(x),
                _ => panic!("HARNESS: tc {}", k.v),
            },
            "fn" => r.add_footnote_reference(footnote(k)),
            _ => bad(k, "run"),
        };
    }
    r
}

pub fn delete(n: &N) -> Delete {
    if let Some(x) = elsewhere(n, delete) {
        return x;
    }
    let (a, d) = author_date(&n.v);
    let mut x = Delete::new().author(a).date(d);
    for k in &n.c {
        x = match k.k.as_str() {
            "r" => x.add_run(run(k)),
            "cs" => x.add_comment_start(comment(k)),
            "ce" => x.add_comment_end(num(&k.v)),
            _ => bad(k, "del"),
        };
    }
    x
}

pub fn insert(n: &N) -> Insert {
    if let Some(x) = elsewhere(n, insert) {
        return x;
    }
    let (a, d) = author_date(&n.v);
    let mut x = Insert::new_with_empty().author(a).date(d);
    for k in &n.c {
        x = match k.k.as_str() {
            "r" => x.add_run(run(k)),
            "del" => x.add_delete(delete(k)),
            "cs" => x.add_comment_start(comment(k)),
            "ce" => x.add_comment_end(num(&k.v)),
            _ => bad(k, "ins"),
        };
    }
    x
}

pub fn move_from(n: &N) -> MoveFrom {
    if let Some(x) = elsewhere(n, move_from) {
        return x;
    }
    let (a, d) = author_date(&n.v);
    let mut x = MoveFrom::new().author(a).date(d);
    for k in &n.c {
        x = match k.k.as_str() {
            "r" => x.add_run(run(k)),
            "cs" => x.add_comment_start(comment(k)),
            "ce" => x.add_comment_end(num(&k.v)),
            _ => bad(k, "mvf"),
        };
    }
    x
}

pub fn move_to(n: &N) -> MoveTo {
    if let Some(x) = elsewhere(n, move_to) {
        return x;
    }
    let (a, d) = author_date(&n.v);
    let mut x = MoveTo::new_with_empty().author(a).date(d);
    for k in &n.c {
        x = match k.k.as_str() {
            "r" => x.add_run(run(k)),
            "del" => x.add_delete(delete(k)),
            "cs" => x.add_comment_start(comment(k)),
            "ce" => x.add_comment_end(num(&k.v)),
            _ => bad(k, "mvt"),
        };
    }
    x
}

fn bm(v: &str) -> (usize, String) {
    match v.split_once(':') {
        Some((i, name)) => (num(i), name.to_string()),
        None => (num(v), format!("bm{v}")),
    }
}

pub fn hyperlink(n: &N) -> Hyperlink {
    if let Some(x) = elsewhere(n, hyperlink) {
        return x;
    }
    let mut h = match n.v.strip_prefix('#') {
        Some(a) => Hyperlink::new(a, HyperlinkType::Anchor),
        None => Hyperlink::new(&n.v, HyperlinkType::External),
    };
    for k in &n.c {
        h = match k.k.as_str() {
            "r" => h.add_run(run(k)),
            "ins" => h.add_insert(insert(k)),
            "del" => h.add_delete(delete(k)),
            "bms" => h.add_bookmark_start(bm(&k.v).0, bm(&k.v).1),
            "bme" => h.add_bookmark_end(num(&k.v)),
            "cs" => h.add_comment_start(comment(k)),
            "ce" => h.add_comment_end(num(&k.v)),
            "sdt" => h.add_structured_data_tag(sdt(k)),
            _ => bad(k, "link"),
        };
    }
    h
}

pub fn paragraph(n: &N) -> Paragraph {
    if n.k != "p" {
        bad(n, "paragraph position");
    }
    if let Some(x) = elsewhere(n, paragraph) {
        return x;
    }
    if n.o.contains("thread;") {
        // the same calls, made on another thread
        let mut m = n.clone();
        m.o = m.o.replace("thread;", "");
        return std::thread::spawn(move || paragraph(&m))
            .join()
            .unwrap_or_else(|e| std::panic::resume_unwind(e));
    }
    let mut p = Paragraph::new();
    for (k, v) in n.opts() {
        p = match k {
            "num" if v.is_empty() => p,
            "num" => {
                let (i, l) = v.split_once(',').unwrap_or((v, "0"));
                p.numbering(NumberingId::new(num(i)), IndentLevel::new(num(l)))
            }
            "style" => p.style(v),
            "id" => p.id(v),
            "insmark" => {
                let (a, d) = author_date(v);
                p.insert(a, d)
            }
            "delmark" => {
                let (a, d) = author_date(v);
                p.delete(a, d)
            }
            "pchange" => {
                let (a, d) = author_date(v);
                p.paragraph_property_change(
                    ParagraphPropertyChange::new()
                        .author(a)
                        .date(d)
                        .property(ParagraphProperty::new().align(AlignmentType::Center)),
                )
            }
            _ => panic!("HARNESS: paragraph option {k}"),
        };
    }
    for k in &n.c {
        p = match k.k.as_str() {
            "r" => p.add_run(run(k)),
            "ins" => p.add_insert(insert(k)),
            "del" => p.add_delete(delete(k)),
            "mvf" => p.add_move_from(move_from(k)),
            "mvt" => p.add_move_to(move_to(k)),
            "link" => p.add_hyperlink(hyperlink(k)),
            "sp" => p.section_property(section_property(k)),
            "sdt" => p.add_structured_data_tag(sdt(k)),
            "bms" => p.add_bookmark_start(bm(&k.v).0, bm(&k.v).1),
            "bme" => p.add_bookmark_end(num(&k.v)),
            "cs" => p.add_comment_start(comment(k)),
            "ce" => p.add_comment_end(num(&k.v)),
            "pgnum" => p.add_page_num(PageNum::new()),
            "npages" => p.add_num_pages(NumPages::new()),
            _ => bad(k, "p"),
        };
    }
    p
}

pub fn sdt(n: &N) -> StructuredDataTag {
    if let Some(x) = elsewhere(n, sdt) {
        return x;
    }
    let mut s = StructuredDataTag::new();
    for (k, v) in n.opts() {
        s = match k {
            "alias" => s.alias(v),
            "bind" => s.data_binding(DataBinding::new().xpath(v)),
            _ => panic!("HARNESS: sdt option {k}"),
        };
    }
    for k in &n.c {
        s = match k.k.as_str() {
            "p" => s.add_paragraph(paragraph(k)),
            "tbl" => s.add_table(table(k)),
            "r" => s.add_run(run(k)),
            // there are no methods for these
            x => {
                s.children.push(match x {
                    "sdt" => StructuredDataTagChild::StructuredDataTag(Box::new(sdt(k))),
                    "bms" => StructuredDataTagChild::BookmarkStart(BookmarkStart::new(bm(&k.v).0, bm(&k.v).1)),
                    "bme" => StructuredDataTagChild::BookmarkEnd(BookmarkEnd::new(num(&k.v))),
                    "cs" => StructuredDataTagChild::CommentStart(Box::new(CommentRangeStart::new(comment(k)))),
                    "ce" => StructuredDataTagChild::CommentEnd(CommentRangeEnd::new(num(&k.v))),
                    _ => bad(k, "sdt"),
                });
                s
            }
        };
    }
    s
}

pub fn toc(n: &N) -> TableOfContents {
    if let Some(x) = elsewhere(n, toc) {
        return x;
    }
    let mut t = TableOfContents::new();
    for (k, v) in n.opts() {
        t = match k {
            // comes first
            "instr" => TableOfContents::with_instr_text(v),
            "range" => {
                let (a, b) = v.split_once('-').unwrap();
                t.heading_styles_range(num(a), num(b))
            }
            "auto" => t.auto(),
            "dirty" => t.dirty(),
            "nosdt" => t.without_sdt(),
            "link" => t.hyperlink(),
            "alias" => t.alias(v),
            "map" => {
                let (a, b) = v.split_once('-').unwrap();
                t.add_style_with_level(StyleWithLevel::new(a, num(b)))
            }
            "del" => {
                let (a, d) = author_date(v);
                t.delete(a, d)
            }
            _ => panic!("HARNESS: toc option {k}"),
        };
    }
    for k in &n.c {
        match k.k.as_str() {
            "tb" => {
                for b in &k.c {
                    t = match b.k.as_str() {
                        "p" => t.add_before_paragraph(paragraph(b)),
                        "tbl" => t.add_before_table(table(b)),
                        _ => bad(b, "toc before"),
                    }
                }
            }
            "ta" => {
                for b in &k.c {
                    t = match b.k.as_str() {
                        "p" => t.add_after_paragraph(paragraph(b)),
                        "tbl" => t.add_after_table(table(b)),
                        _ => bad(b, "toc after"),
                    }
                }
            }
            "ti" => {
                // v = text|level|key|page
                let f: Vec<&str> = k.v.split('|').collect();
                let mut i = TableOfContentsItem::new().text(f[0]).level(num(f[1])).toc_key(f[2]);
                if f.len() > 3 && !f[3].is_empty() {
                    i = i.page_ref(f[3]);
                }
                t = t.add_item(i);
            }
            _ => bad(k, "toc"),
        }
    }
    t
}

pub fn cell(n: &N) -> TableCell {
    if let Some(x) = elsewhere(n, cell) {
        return x;
    }
    let mut c = TableCell::new();
    for k in &n.c {
        c = match k.k.as_str() {
            "p" => c.add_paragraph(paragraph(k)),
            "tbl" => c.add_table(table(k)),
            "sdt" => c.add_structured_data_tag(sdt(k)),
            "toc" => c.add_table_of_contents(toc(k)),
            _ => bad(k, "tc"),
        };
    }
    c
}

pub fn row(n: &N) -> TableRow {
    if let Some(x) = elsewhere(n, row) {
        return x;
    }
    let mut r = TableRow::new(n.c.iter().map(cell).collect());
    for (k, v) in n.opts() {
        let (a, d) = author_date(v);
        r = match k {
            "ins" => r.insert(Insert::new_with_empty().author(a).date(d)),
            "del" => r.delete(Delete::new().author(a).date(d)),
            _ => panic!("HARNESS: row option {k}"),
        };
    }
    r
}

pub fn table(n: &N) -> Table {
    if let Some(x) = elsewhere(n, table) {
        return x;
    }
    // rows given to the constructor or added one at a time: o = "add" adds them
    if n.o == "add" {
        let mut t = Table::new(vec![]);
        for k in &n.c {
            t = t.add_row(row(k));
        }
        t
    } else {
        Table::new(n.c.iter().map(row).collect())
    }
}

pub fn header(n: &N) -> Header {
    if let Some(x) = elsewhere(n, header) {
        return x;
    }
    let mut h = Header::new();
    for k in &n.c {
        h = match k.k.as_str() {
            "p" => h.add_paragraph(paragraph(k)),
            "tbl" => h.add_table(table(k)),
            "sdt" => {
                let mut h = h;
                h.children.push(HeaderChild::StructuredDataTag(Box::new(sdt(k))));
                h
            }
            _ => bad(k, "header"),
        };
    }
    h
}

pub fn footer(n: &N) -> Footer {
    if let Some(x) = elsewhere(n, footer) {
        return x;
    }
    let mut h = Footer::new();
    for k in &n.c {
        h = match k.k.as_str() {
            "p" => h.add_paragraph(paragraph(k)),
            "tbl" => h.add_table(table(k)),
            "sdt" => {
                let mut h = h;
                h.children.push(FooterChild::StructuredDataTag(Box::new(sdt(k))));
                h
            }
            _ => bad(k, "footer"),
        };
    }
    h
}

pub fn section(n: &N) -> Section {
    if let Some(x) = elsewhere(n, section) {
        return x;
    }
    let mut s = Section::new();
    for k in &n.c {
        s = match (k.k.as_str(), k.v.as_str()) {
            ("p", _) => s.add_paragraph(paragraph(k)),
            ("tbl", _) => s.add_table(table(k)),
            ("bms", v) => s.add_bookmark_start(bm(v).0, bm(v).1),
            ("bme", v) => s.add_bookmark_end(num(v)),
            ("cs", _) => s.add_comment_start(comment(k)),
            ("ce", v) => s.add_comment_end(num(v)),
            ("h", "default") => s.header(header(k)),
            ("h", "first") => s.first_header(header(k)),
            ("h", "even") => s.even_header(header(k)),
            ("f", "default") => s.footer(footer(k)),
            ("f", "first") => s.first_footer(footer(k)),
            ("f", "even") => s.even_footer(footer(k)),
            _ => bad(k, "sect"),
        };
    }
    s
}

/// The properties of the section that a paragraph ends. Ids are given with the content; all the same.
fn section_property(n: &N) -> SectionProperty {
    let mut s = SectionProperty::new();
    for k in &n.c {
        s = match (k.k.as_str(), k.v.as_str()) {
            ("h", "default") => s.header(header(k), "rIdHeader1"),
            ("h", "first") => s.first_header(header(k), "rIdHeader1"),
            ("h", "even") => s.even_header(header(k), "rIdHeader1"),
            ("f", "default") => s.footer(footer(k), "rIdFooter1"),
            ("f", "first") => s.first_footer(footer(k), "rIdFooter1"),
            ("f", "even") => s.even_footer(footer(k), "rIdFooter1"),
            ("titlepg", _) => s.title_pg(),
            _ => bad(k, "sp"),
        };
    }
    s
}

fn level(v: &str) -> Level {
    // ilvl,start,fmt,text,jc
    let f: Vec<&str> = v.split(',').collect();
    Level::new(num(f[0]), Start::new(num(f[1])), NumberFormat::new(f[2]), LevelText::new(f[3]), LevelJc::new(f[4]))
}

/// Applies one public call to the document.
pub fn apply(d: Docx, k: &N) -> Docx {
    match (k.k.as_str(), k.v.as_str()) {
        ("p", _) => d.add_paragraph(paragraph(k)),
        ("tbl", _) => d.add_table(table(k)),
        // the same element added twice (a clone)
        ("dup", _) => match &k.c[0] {
            x if x.k == "p" => {
                let e = paragraph(x);
                d.add_paragraph(e.clone()).add_paragraph(e)
            }
            x if x.k == "tbl" => {
                let e = table(x);
                d.add_table(e.clone()).add_table(e)
            }
            x if x.k == "sdt" => {
                let e = sdt(x);
                d.add_structured_data_tag(e.clone()).add_structured_data_tag(e)
            }
            x if x.k == "sect" => {
                let e = section(x);
                d.add_section(e.clone()).add_section(e)
            }
            x if x.k == "toc" => {
                let e = toc(x);
                d.add_table_of_contents(e.clone()).add_table_of_contents(e)
            }
            x => bad(x, "dup"),
        },
        ("sdt", _) => d.add_structured_data_tag(sdt(k)),
        ("toc", _) => d.add_table_of_contents(toc(k)),
        ("sect", _) => d.add_section(section(k)),
        ("bms", v) => d.add_bookmark_start(bm(v).0, bm(v).1),
        ("bme", v) => d.add_bookmark_end(num(v)),
        ("cs", _) => {
            let mut d = d;
            d.document = d.document.add_comment_start(comment(k));
            d
        }
        ("ce", v) => {
            let mut d = d;
            d.document = d.document.add_comment_end(num(v));
            d
        }
        ("h", "default") => d.header(header(k)),
        ("h", "first") => d.first_header(header(k)),
        ("h", "even") => d.even_header(header(k)),
        ("f", "default") => d.footer(footer(k)),
        ("f", "first") => d.first_footer(footer(k)),
        ("f", "even") => d.even_footer(footer(k)),
        ("absnum", v) => {
            let mut a = AbstractNumbering::new(num(v));
            for l in &k.c {
                a = a.add_level(level(&l.v));
            }
            d.add_abstract_numbering(a)
        }
        ("num", v) => {
            // id,absid  children: override ilvl or ilvl,start
            let (i, a) = v.split_once(',').unwrap();
            let mut x = Numbering::new(num(i), num(a));
            for o in &k.c {
                let ov = match o.k.as_str() {
                    "ostart" => {
                        let (l, s) = o.v.split_once(',').unwrap();
                        LevelOverride::new(num(l)).start(num(s))
                    }
                    "olvl" => {
                        let l: usize = num(o.v.split(',').next().unwrap());
                        LevelOverride::new(l).level(level(&o.v))
                    }
                    _ => bad(o, "num"),
                };
                x = x.add_override(ov);
            }
            d.add_numbering(x)
        }
        ("custom", v) => {
            let (id, xml) = v.split_once('|').unwrap();
            d.add_custom_item(id, xml)
        }
        ("pane", _) => d.taskpanes(),
        ("webext", v) => d.web_extension(
            WebExtension::new(v, "wa104", "1.0.0.0", "en-US", "OMEX").property("k", "v"),
        ),
        ("style", v) => {
            let (id, name) = v.split_once('|').unwrap();
            d.add_style(Style::new(id, StyleType::Paragraph).name(name))
        }
        ("collectfn", _) => {
            let mut d = d;
            d.collect_footnotes();
            d
        }
        ("jsonc", _) => {
            let mut d = d;
            d.json_with_update_comments();
            d
        }
        ("cjson", _) => {
            let mut d = d;
            d.comments_json();
            d
        }
        ("json", _) => {
            d.json();
            d
        }
        ("titlepg", _) => d.title_pg(),
        ("cprop", v) => {
            let (a, b) = v.split_once('=').unwrap();
            d.custom_property(a, b)
        }
        ("docvar", v) => {
            let (a, b) = v.split_once('=').unwrap();
            d.add_doc_var(a, b)
        }
        ("reopen", how) => crate::reopen::reopen(d, how),
        ("pgnumtype", v) => d.page_num_type(PageNumType::new().start(num(v))),
        _ => bad(k, "docx"),
    }
}

pub fn docx(root: &N) -> Docx {
    let mut d = Docx::new();
    for k in &root.c {
        d = apply(d, k);
    }
    d
}

/// The same document with its content put together first and handed over as a whole.
pub fn assembled(root: &N) -> Docx {
    let whole = ["p", "tbl", "sdt", "toc", "sect", "bms", "bme", "cs", "ce"];
    let mut x = Document::new();
    for k in &root.c {
        x = match k.k.as_str() {
            "p" => x.add_paragraph(paragraph(k)),
            "tbl" => x.add_table(table(k)),
            "sdt" => x.add_structured_data_tag(sdt(k)),
            "toc" => x.add_table_of_contents(toc(k)),
            "sect" => x.add_section(section(k)),
            "bms" => x.add_bookmark_start(bm(&k.v).0, bm(&k.v).1),
            "bme" => x.add_bookmark_end(num(&k.v)),
            "cs" => x.add_comment_start(comment(k)),
            "ce" => x.add_comment_end(num(&k.v)),
            "dup" => bad(k, "assembled"),
            _ => x,
        };
    }
    root.c.iter().filter(|k| !whole.contains(&k.k.as_str())).fold(Docx::new().document(x), apply)
}

pub fn pack_built(d: Docx) -> Vec<u8> {
    let mut c = std::io::Cursor::new(vec![]);
    d.build().pack(&mut c).expect("pack of built package");
    c.into_inner()
}

/// Which of the two ways of writing a case uses: any function of the case will do.
pub fn way(c: &serde_json::Value) -> bool {
    c.to_string().bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x0100_0000_01b3)) >> 32 & 1 == 1
}

pub fn pack(d: Docx, direct: bool) -> Vec<u8> {
    if direct {
        pack_direct(d)
    } else {
        pack_built(d)
    }
}

pub fn pack_direct(d: Docx) -> Vec<u8> {
    let mut c = std::io::Cursor::new(vec![]);
    d.pack(&mut c).expect("direct pack");
    c.into_inner()
}
