//! Any text in any field. A document with a marker in the fields under test is the reference: the
//! document with the texts of the case must be the same everywhere except where the reference has
//! the marker, and there have what the specification says the text means.

use crate::build;
use crate::pkg::unzip;
use crate::xml::{self, El, Kid};
use docx_rs::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;

fn p(r: Run) -> Paragraph {
    Paragraph::new().add_run(r)
}
fn t() -> Run {
    Run::new().add_text("t")
}
fn r(s: &str) -> Run {
    Run::new().add_text(s)
}
fn note(x: Paragraph) -> Run {
    let mut f = Footnote::new();
    f.add_content(x);
    Run::new().add_footnote_reference(f)
}
fn table(c: TableCell) -> Table {
    Table::new(vec![TableRow::new(vec![c])])
}
fn cell() -> TableCell {
    TableCell::new().add_paragraph(p(t()))
}
fn style() -> Style {
    Style::new("S", StyleType::Paragraph).name("n")
}
fn level() -> Level {
    Level::new(0, Start::new(1), NumberFormat::new("decimal"), LevelText::new("%"), LevelJc::new("left"))
}
fn absnum(d: Docx, l: Level) -> Docx {
    d.add_abstract_numbering(AbstractNumbering::new(7).add_level(l)).add_numbering(Numbering::new(7, 7))
}
fn toc() -> TableOfContents {
    TableOfContents::new()
}
fn item() -> TableOfContentsItem {
    TableOfContentsItem::new().text("t").toc_key("k").level(1).page_ref("p")
}
fn field(i: InstrText) -> Paragraph {
    p(Run::new().add_field_char(FieldCharType::Begin, false))
        .add_run(Run::new().add_instr_text(i))
        .add_run(Run::new().add_field_char(FieldCharType::End, false))
}
fn del_field(i: DeleteInstrText) -> Paragraph {
    Paragraph::new().add_delete(Delete::new().add_run(Run::new().add_delete_instr_text(i)))
}
fn itoc() -> InstrToC {
    InstrToC::new()
}
fn ext() -> WebExtension {
    WebExtension::new("i", "f", "v", "s", "t")
}
fn comment(c: Comment) -> Paragraph {
    Paragraph::new().add_comment_start(c).add_run(t()).add_comment_end(1)
}
fn link(s: &str) -> Paragraph {
    Paragraph::new().add_hyperlink(Hyperlink::new(s, HyperlinkType::External).add_run(t()))
}
fn escaped(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&#34;"),
            '\'' => o.push_str("&#x27;"),
            '\t' | '\n' | '\r' => o.push_str(&format!("&#{};", c as u32)),
            '\0'..='\x1f' | '\u{fffe}' | '\u{ffff}' => {}
            c => o.push(c),
        }
    }
    o
}

fn apply(d: Docx, f: &str, s: &str) -> Docx {
    let ap = |d: Docx, x: Paragraph| d.add_paragraph(x);
    match f {
        "text" => ap(d, p(r(s))),
        "text.cell" => d.add_table(table(TableCell::new().add_paragraph(p(r(s))))),
        "text.header" => d.header(Header::new().add_paragraph(p(r(s)))),
        "text.firstFooter" => d.first_footer(Footer::new().add_paragraph(p(r(s)))),
        "text.comment" => ap(d, comment(Comment::new(1).add_paragraph(p(r(s))))),
        "text.footnote" => ap(d, p(note(p(r(s))))),
        "text.link" => ap(d, Paragraph::new().add_hyperlink(Hyperlink::new("http://a", HyperlinkType::External).add_run(r(s)))),
        "text.ins" => ap(d, Paragraph::new().add_insert(Insert::new(r(s)).author("a").date("d"))),
        "text.mvt" => ap(d, Paragraph::new().add_move_to(MoveTo::new(r(s)).author("a").date("d"))),
        "text.sdt" => d.add_structured_data_tag(StructuredDataTag::new().add_paragraph(p(r(s)))),
        "text.section" => d.add_section(Section::new().add_paragraph(p(r(s)))),
        "text.del" => ap(d, Paragraph::new().add_delete(Delete::new().author("a").date("d").add_run(Run::new().add_delete_text(s)))),
        "text.mvf" => ap(d, Paragraph::new().add_move_from(MoveFrom::new().author("a").date("d").add_run(r(s)))),
        "sym.font" => ap(d, p(Run::new().add_sym(Sym::new(s, "F0E0")))),
        "sym.char" => ap(d, p(Run::new().add_sym(Sym::new("Wingdings", s)))),
        "link.url" => ap(d, link(s)),
        "link.url.header" => d.header(Header::new().add_paragraph(link(s))),
        "link.url.footnote" => ap(d, p(note(link(s)))),
        "link.url.comment" => ap(d, comment(Comment::new(1).add_paragraph(link(s)))),
        "link.anchor" => ap(d, Paragraph::new().add_hyperlink(Hyperlink::new(s, HyperlinkType::Anchor).add_run(t()))),
        "mark.par" => ap(d, Paragraph::new().add_bookmark_start(1, s).add_run(t()).add_bookmark_end(1)),
        "mark.doc" => d.add_bookmark_start(1, s).add_paragraph(p(t())).add_bookmark_end(1),
        "mark.section" => d.add_section(Section::new().add_bookmark_start(1, s).add_paragraph(p(t())).add_bookmark_end(1)),
        "mark.link" => ap(d, Paragraph::new().add_hyperlink(Hyperlink::new("x", HyperlinkType::Anchor).add_bookmark_start(1, s).add_run(t()).add_bookmark_end(1))),
        "comment.author" => ap(d, comment(Comment::new(1).author(s).add_paragraph(p(t())))),
        "comment.date" => ap(d, comment(Comment::new(1).author("a").date(s).add_paragraph(p(t())))),
        "ins.author" => ap(d, Paragraph::new().add_insert(Insert::new(t()).author(s).date("d"))),
        "ins.date" => ap(d, Paragraph::new().add_insert(Insert::new(t()).author("a").date(s))),
        "del.author" => ap(d, Paragraph::new().add_delete(Delete::new().author(s).date("d").add_run(Run::new().add_delete_text("t")))),
        "del.date" => ap(d, Paragraph::new().add_delete(Delete::new().author("a").date(s).add_run(Run::new().add_delete_text("t")))),
        "mvf.author" => ap(d, Paragraph::new().add_move_from(MoveFrom::new().author(s).date("d").add_run(t()))),
        "mvf.date" => ap(d, Paragraph::new().add_move_from(MoveFrom::new().author("a").date(s).add_run(t()))),
        "mvt.author" => ap(d, Paragraph::new().add_move_to(MoveTo::new(t()).author(s).date("d"))),
        "mvt.date" => ap(d, Paragraph::new().add_move_to(MoveTo::new(t()).author("a").date(s))),
        "pins.author" => ap(d, p(t()).insert(s, "d")),
        "pins.date" => ap(d, p(t()).insert("a", s)),
        "pdel.author" => ap(d, p(t()).delete(s, "d")),
        "pdel.date" => ap(d, p(t()).delete("a", s)),
        "pchg.author" => ap(d, p(t()).paragraph_property_change(ParagraphPropertyChange::new().author(s).date("d"))),
        "pchg.date" => ap(d, p(t()).paragraph_property_change(ParagraphPropertyChange::new().author("a").date(s))),
        "rowins.author" => d.add_table(Table::new(vec![TableRow::new(vec![cell()]).insert(Insert::new_with_empty().author(s).date("d"))])),
        "rowdel.date" => d.add_table(Table::new(vec![TableRow::new(vec![cell()]).delete(Delete::new().author("a").date(s))])),
        "par.style" => ap(d, p(t()).style(s)),
        "par.id" => ap(d, p(t()).id(s)),
        "par.color" => ap(d, p(t()).color(s)),
        "par.border" => ap(d, p(t()).set_borders(ParagraphBorders::new().set(ParagraphBorder::new(ParagraphBorderPosition::Top).color(s)))),
        "frame.wrap" => ap(d, p(t()).wrap(s)),
        "frame.vanchor" => ap(d, p(t()).v_anchor(s)),
        "frame.hanchor" => ap(d, p(t()).h_anchor(s)),
        "frame.hrule" => ap(d, p(t()).h_rule(s)),
        "frame.xalign" => ap(d, p(t()).x_align(s)),
        "frame.yalign" => ap(d, p(t()).y_align(s)),
        "run.style" => ap(d, p(t().style(s))),
        "run.color" => ap(d, p(t().color(s))),
        "run.themeShade" => ap(d, p(t().theme_color(ThemeColor::Accent1).theme_shade(s))),
        "run.themeTint" => ap(d, p(t().theme_color(ThemeColor::Accent1).theme_tint(s))),
        "run.highlight" => ap(d, p(t().highlight(s))),
        "run.underline" => ap(d, p(t().underline(s))),
        "run.border" => ap(d, p(t().text_border(TextBorder::new().color(s)))),
        "run.shdColor" => ap(d, p(t().shading(Shading::new().color(s)))),
        "run.shdFill" => ap(d, p(t().shading(Shading::new().fill(s)))),
        "font.ascii" => ap(d, p(t().fonts(RunFonts::new().ascii(s)))),
        "font.hiAnsi" => ap(d, p(t().fonts(RunFonts::new().hi_ansi(s)))),
        "font.eastAsia" => ap(d, p(t().fonts(RunFonts::new().east_asia(s)))),
        "font.cs" => ap(d, p(t().fonts(RunFonts::new().cs(s)))),
        "font.asciiTheme" => ap(d, p(t().fonts(RunFonts::new().ascii_theme(s)))),
        "font.hiAnsiTheme" => ap(d, p(t().fonts(RunFonts::new().hi_ansi_theme(s)))),
        "font.eastAsiaTheme" => ap(d, p(t().fonts(RunFonts::new().east_asia_theme(s)))),
        "font.csTheme" => ap(d, p(t().fonts(RunFonts::new().cs_theme(s)))),
        "font.hint" => ap(d, p(t().fonts(RunFonts::new().hint(s)))),
        "tbl.style" => d.add_table(table(cell()).style(s)),
        "tbl.border" => d.add_table(table(cell()).set_border(TableBorder::new(TableBorderPosition::Left).color(s))),
        "tbl.vanchor" => d.add_table(table(cell()).position(TablePositionProperty::new().vertical_anchor(s))),
        "tbl.hanchor" => d.add_table(table(cell()).position(TablePositionProperty::new().horizontal_anchor(s))),
        "tbl.xalign" => d.add_table(table(cell()).position(TablePositionProperty::new().position_x_alignment(s))),
        "tbl.yalign" => d.add_table(table(cell()).position(TablePositionProperty::new().position_y_alignment(s))),
        "cell.border" => d.add_table(table(cell().set_border(TableCellBorder::new(TableCellBorderPosition::Left).color(s)))),
        "cell.shdColor" => d.add_table(table(cell().shading(Shading::new().color(s)))),
        "cell.shdFill" => d.add_table(table(cell().shading(Shading::new().fill(s)))),
        "style.id" => d.add_style(Style::new(s, StyleType::Paragraph).name("n")),
        "style.name" => d.add_style(Style::new("S", StyleType::Paragraph).name(s)),
        "style.basedOn" => d.add_style(style().based_on(s)),
        "style.next" => d.add_style(style().next(s)),
        "style.link" => d.add_style(style().link(s)),
        "style.color" => d.add_style(style().color(s)),
        "style.highlight" => d.add_style(style().highlight(s)),
        "style.underline" => d.add_style(style().underline(s)),
        "style.wrap" => d.add_style(style().wrap(s)),
        "style.font" => d.add_style(style().fonts(RunFonts::new().ascii(s))),
        "default.font" => d.default_fonts(RunFonts::new().ascii(s)),
        "lvl.text" => absnum(d, Level::new(0, Start::new(1), NumberFormat::new("decimal"), LevelText::new(s), LevelJc::new("left"))),
        "lvl.format" => absnum(d, Level::new(0, Start::new(1), NumberFormat::new(s), LevelText::new("x"), LevelJc::new("left"))),
        "lvl.jc" => absnum(d, Level::new(0, Start::new(1), NumberFormat::new("decimal"), LevelText::new("x"), LevelJc::new(s))),
        "lvl.pstyle" => absnum(d, level().paragraph_style(s)),
        "lvl.color" => absnum(d, level().color(s)),
        "lvl.highlight" => absnum(d, level().highlight(s)),
        "lvl.underline" => absnum(d, level().underline(s)),
        "lvl.font" => absnum(d, level().fonts(RunFonts::new().ascii(s))),
        "num.styleLink" => d.add_abstract_numbering(AbstractNumbering::new(7).style_link(s)),
        "num.numStyleLink" => d.add_abstract_numbering(AbstractNumbering::new(7).num_style_link(s)),
        "var.name" => d.add_doc_var(s, "v"),
        "var.value" => d.add_doc_var("n", s),
        "doc.id" => d.doc_id(s),
        "doc.created" => d.created_at(s),
        "doc.updated" => d.updated_at(s),
        "prop.name" => d.custom_property(s, "v"),
        "prop.value" => d.custom_property("n", s),
        "item.id" => d.add_custom_item(s, "<a/>"),
        "item.text" => d.add_custom_item("id", &format!("<a><b>{}</b><c/></a>", escaped(s))),
        "item.attr" => d.add_custom_item("id", &format!("<a b=\"{}\">x</a>", escaped(s))),
        "sdt.alias" => d.add_structured_data_tag(StructuredDataTag::new().alias(s).add_paragraph(p(t()))),
        "sdt.xpath" => d.add_structured_data_tag(StructuredDataTag::new().data_binding(DataBinding::new().xpath(s)).add_paragraph(p(t()))),
        "sdt.prefix" => d.add_structured_data_tag(StructuredDataTag::new().data_binding(DataBinding::new().prefix_mappings(s)).add_paragraph(p(t()))),
        "sdt.store" => d.add_structured_data_tag(StructuredDataTag::new().data_binding(DataBinding::new().store_item_id(s)).add_paragraph(p(t()))),
        "toc.alias" => d.add_table_of_contents(toc().alias(s)),
        "toc.delAuthor" => d.add_table_of_contents(toc().delete(s, "d")),
        "toc.delDate" => d.add_table_of_contents(toc().delete("a", s)),
        "toc.tc" => d.add_table_of_contents(toc().tc_field_identifier(Some(s.to_string()))),
        "toc.style" => d.add_table_of_contents(toc().add_style_with_level(StyleWithLevel::new(s, 1))),
        "toc.itemText" => d.add_table_of_contents(toc().add_item(item().text(s))),
        "toc.itemKey" => d.add_table_of_contents(toc().add_item(item().toc_key(s))),
        "toc.itemPage" => d.add_table_of_contents(toc().add_item(item().page_ref(s))),
        "toc.entry" => d.add_table_of_contents(toc().heading_styles_range(1, 3).auto()).add_style(Style::new("Heading1", StyleType::Paragraph).name("heading 1")).add_paragraph(p(r(s)).style("Heading1")),
        "itoc.tc" => ap(d, field(InstrText::TOC(itoc().tc_field_identifier(Some(s.to_string()))))),
        "itoc.sep" => ap(d, field(InstrText::TOC(itoc().entry_and_page_number_separator(s)))),
        "itoc.mark" => ap(d, field(InstrText::TOC(itoc().entry_bookmark_name(s)))),
        "itoc.caption" => ap(d, field(InstrText::TOC(itoc().caption_label(s)))),
        "itoc.captionNum" => ap(d, field(InstrText::TOC(itoc().caption_label_including_numbers(s)))),
        "itoc.seqSep" => ap(d, field(InstrText::TOC(itoc().sequence_and_page_numbers_separator(s)))),
        "itoc.seq" => ap(d, field(InstrText::TOC(itoc().seq_field_identifier_for_prefix(s)))),
        "tc.text" => ap(d, field(InstrText::TC(InstrTC::new(s)))),
        "tc.id" => ap(d, field(InstrText::TC(InstrTC::new("t").item_type_identifier(s)))),
        "pageref" => ap(d, field(InstrText::PAGEREF(InstrPAGEREF::new(s).hyperlink()))),
        "hyper" => ap(d, field(InstrText::HYPERLINK(InstrHyperlink::new(s)))),
        "instr" => ap(d, field(InstrText::Unsupported(s.to_string()))),
        "dinstr.tc" => ap(d, del_field(DeleteInstrText::TC(InstrTC::new(s)))),
        "dinstr.pageref" => ap(d, del_field(DeleteInstrText::PAGEREF(InstrPAGEREF::new(s)))),
        "dinstr.hyper" => ap(d, del_field(DeleteInstrText::HYPERLINK(InstrHyperlink::new(s)))),
        "dinstr" => ap(d, del_field(DeleteInstrText::Unsupported(s.to_string()))),
        "web.id" => d.web_extension(WebExtension::new(s, "f", "v", "s", "t")),
        "web.ref" => d.web_extension(WebExtension::new("i", s, "v", "s", "t")),
        "web.version" => d.web_extension(WebExtension::new("i", "f", s, "s", "t")),
        "web.store" => d.web_extension(WebExtension::new("i", "f", "v", s, "t")),
        "web.storeType" => d.web_extension(WebExtension::new("i", "f", "v", "s", s)),
        "web.propName" => d.web_extension(ext().property(s, "v")),
        "web.propValue" => d.web_extension(ext().property("n", s)),
        "sect.chap" => d.page_num_type(PageNumType::new().chap_style(s)),
        "sect.dir" => {
            let mut d = d;
            d.document = d.document.text_direction(s.to_string());
            d
        }
        _ => panic!("HARNESS: unknown field {f}"),
    }
}

/// The fields of a case stand in paragraphs of their own, so that they can be combined.
fn document(fields: &[(&str, &str)]) -> Docx {
    fields.iter().fold(Docx::new(), |d, (f, s)| apply(d, f, s))
}

type Flat = Vec<(String, String)>;

fn mask(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '0'..='9' if o.ends_with('#') => {}
            '0'..='9' => o.push('#'),
            c => o.push(c),
        }
    }
    o
}
fn flat_el(at: &str, e: &El, out: &mut Flat) {
    let at = format!("{at}/{}", e.q());
    out.push((at.clone(), e.ns.clone()));
    for a in &e.attrs {
        out.push((format!("{at}@{}:{}", a.0, a.1), a.3.clone()));
    }
    for k in &e.kids {
        match k {
            Kid::El(c) => flat_el(&at, c, out),
            Kid::Text(t) => out.push((format!("{at}/text"), t.clone())),
        }
    }
    out.push((at, "end".into()));
}
fn flat_json(at: &str, v: &Value, out: &mut Flat) {
    match v {
        Value::Object(m) => {
            for (k, v) in m {
                flat_json(&format!("{at}/{k}"), v, out);
            }
        }
        Value::Array(a) => {
            out.push((at.to_string(), format!("{} items", a.len())));
            for v in a {
                flat_json(&format!("{at}[]"), v, out);
            }
        }
        Value::String(s) => out.push((at.to_string(), s.clone())),
        v => out.push((at.to_string(), v.to_string())),
    }
}
fn flat_package(bytes: &[u8]) -> Result<Flat, String> {
    let mut out = vec![];
    for (name, data) in unzip(bytes)? {
        if name.ends_with(".xml") || name.ends_with(".rels") {
            let e = xml::parse(&data).map_err(|e| format!("{name}: {e}"))?;
            flat_el(&name, &e, &mut out);
        } else {
            out.push((name, format!("{} bytes", data.len())));
        }
    }
    Ok(out)
}

struct Views {
    package: Result<Flat, String>,
    again: Result<Flat, String>,
    read: Flat,
}
fn views(d: Docx) -> Views {
    let bytes = build::pack_built(d);
    let package = flat_package(&bytes);
    let mut read = vec![];
    let again = match read_docx(&bytes) {
        Err(e) => Err(format!("not readable: {e}")),
        Ok(d) => {
            flat_json("", &serde_json::from_str(&d.json()).expect("JSON"), &mut read);
            flat_package(&build::pack_direct(d))
        }
    };
    Views { package, again, read }
}

const MARKERS: [&str; 6] = ["REFTXTa", "REFTXTb", "REFTXTc", "REFTXTd", "REFTXTe", "REFTXTf"];

thread_local! {
    static REFS: RefCell<HashMap<String, std::rc::Rc<Views>>> = RefCell::new(HashMap::new());
}

fn reference(fields: &[&str]) -> std::rc::Rc<Views> {
    let key = fields.join(" ");
    if let Some(v) = REFS.with(|r| r.borrow().get(&key).cloned()) {
        return v;
    }
    let f: Vec<(&str, &str)> = fields.iter().enumerate().map(|(i, f)| (*f, MARKERS[i])).collect();
    let v = std::rc::Rc::new(views(document(&f)));
    if fields.len() == 1 {
        REFS.with(|r| r.borrow_mut().insert(key, v.clone()));
    }
    v
}

pub fn run(c: &Value) -> Value {
    let str_of = |x: &'_ Value, k: &str| x[k].as_str().expect("HARNESS: slot").to_string();
    let slots: Vec<[String; 4]> = c["slots"]
        .as_array()
        .expect("HARNESS: slots")
        .iter()
        .map(|x| [str_of(x, "f"), str_of(x, "s"), str_of(x, "want"), str_of(x, "ref")])
        .collect();
    let fields: Vec<&str> = slots.iter().map(|x| x[0].as_str()).collect();
    let refs = reference(&fields);
    let got = views(document(&slots.iter().map(|x| (x[0].as_str(), x[1].as_str())).collect::<Vec<_>>()));
    let shape = c["shape"] != false;
    let meant = |s: &str| {
        let mut o = String::new();
        let mut rest = s;
        // an argument of a reference field may have to be quoted
        let k = if s.starts_with("PAGEREF ") { 3 } else { 2 };
        'next: while !rest.is_empty() {
            for (i, x) in slots.iter().enumerate() {
                if let Some(t) = rest.strip_prefix(MARKERS[i]) {
                    o.push_str(&x[k]);
                    rest = t;
                    continue 'next;
                }
            }
            let ch = rest.chars().next().unwrap();
            o.push(ch);
            rest = &rest[ch.len_utf8()..];
        }
        o
    };
    let mut bad: Vec<String> = vec![];
    let mut counts = json!({});
    let mut compare = |view: &str, want: &Result<Flat, String>, got: &Result<Flat, String>| {
        let want = match want {
            Ok(w) => w,
            Err(e) => return bad.push(format!("{view} of the reference: {e}")),
        };
        let got = match got {
            Ok(g) => g,
            Err(e) => return bad.push(format!("{view}: {e}")),
        };
        let mut places = vec![0; slots.len()];
        for (at, v) in want {
            for (i, m) in MARKERS.iter().enumerate().take(slots.len()) {
                if v.contains(m) || at.contains(m) {
                    places[i] += 1;
                }
            }
        }
        counts[view] = json!(places);
        if !shape {
            return;
        }
        for (i, w) in want.iter().enumerate() {
            let (at, v) = (meant(&w.0), meant(&w.1));
            match got.get(i) {
                Some(g) if mask(&g.0) == mask(&at) && mask(&g.1) == mask(&v) => {}
                g => return bad.push(format!("{view}: {at} is {g:?}, not {v:?}")),
            }
        }
        if got.len() > want.len() {
            bad.push(format!("{view}: additional {:?}", got[want.len()]));
        }
    };
    compare("package", &refs.package, &got.package);
    compare("again", &refs.again, &got.again);
    compare("read", &Ok(refs.read.clone()), &Ok(got.read.clone()));
    json!({"bad": bad, "places": counts})
}
