//! Formatting: applies setter calls named by the specification, and flattens the markup written,
//! the document read back, and the markup written for the document read back, into facts.

use crate::build::{num, pack, way};
use crate::pkg::Pkg;
use crate::read;
use crate::xml::{El, Kid};
use docx_rs::*;
use serde_json::{json, Value};

/// A setter call: its name, its arguments, and its named arguments.
pub struct Call {
    s: String,
    v: Vec<String>,
    kv: Vec<(String, String)>,
}
type V<'a> = &'a Call;
impl std::ops::Index<usize> for Call {
    type Output = String;
    fn index(&self, i: usize) -> &String {
        self.v.get(i).unwrap_or_else(|| panic!("HARNESS: {} wants argument {i}", self.s))
    }
}


fn unknown(host: &str, s: &str) -> ! {
    panic!("HARNESS: {host} has no setting {s}")
}
fn pick<T>(what: &str, table: Vec<(&str, T)>) -> T {
    table.into_iter().find(|x| x.0 == what).unwrap_or_else(|| panic!("HARNESS: no value {what}")).1
}
fn opt<T: std::str::FromStr>(s: &str) -> Option<T> {
    if s == "-" {
        None
    } else {
        Some(num(s))
    }
}
fn flag(s: &str) -> bool {
    match s {
        "on" => true,
        "off" => false,
        _ => panic!("HARNESS: on/off expected, got {s}"),
    }
}

// ------------------------------------------------------------------ values
fn theme(s: &str) -> ThemeColor {
    use ThemeColor::*;
    pick(
        s,
        vec![
            ("dark1", Dark1), ("light1", Light1), ("dark2", Dark2), ("light2", Light2), ("accent1", Accent1),
            ("accent2", Accent2), ("accent3", Accent3), ("accent4", Accent4), ("accent5", Accent5),
            ("accent6", Accent6), ("hyperlink", Hyperlink), ("followedHyperlink", FollowedHyperlink), ("none", None),
            ("background1", Background1), ("text1", Text1), ("background2", Background2), ("text2", Text2),
        ],
    )
}
fn vert(s: &str) -> VertAlignType {
    use VertAlignType::*;
    pick(s, vec![("baseline", Baseline), ("superscript", SuperScript), ("subscript", SubScript)])
}
fn border(s: &str) -> BorderType {
    use BorderType::*;
    pick(
        s,
        vec![
            ("nil", Nil), ("none", None), ("single", Single), ("thick", Thick), ("double", Double), ("dotted", Dotted),
            ("dashed", Dashed), ("dotDash", DotDash), ("dotDotDash", DotDotDash), ("triple", Triple),
            ("thinThickSmallGap", ThinThickSmallGap), ("thickThinSmallGap", ThickThinSmallGap),
            ("thinThickThinSmallGap", ThinThickThinSmallGap), ("thinThickMediumGap", ThinThickMediumGap),
            ("thickThinMediumGap", ThickThinMediumGap), ("thinThickThinMediumGap", ThinThickThinMediumGap),
            ("thinThickLargeGap", ThinThickLargeGap), ("thickThinLargeGap", ThickThinLargeGap),
            ("thinThickThinLargeGap", ThinThickThinLargeGap), ("wave", Wave), ("doubleWave", DoubleWave),
            ("dashSmallGap", DashSmallGap), ("dashDotStroked", DashDotStroked), ("threeDEmboss", ThreeDEmboss),
            ("threeDEngrave", ThreeDEngrave), ("outset", Outset), ("inset", Inset), ("apples", Apples),
            ("archedScallops", ArchedScallops), ("babyPacifier", BabyPacifier), ("babyRattle", BabyRattle),
        ],
    )
}
fn shd(s: &str) -> ShdType {
    use ShdType::*;
    pick(
        s,
        vec![
            ("nil", Nil), ("clear", Clear), ("solid", Solid), ("horzStripe", HorzStripe), ("vertStripe", VertStripe),
            ("reverseDiagStripe", ReverseDiagStripe), ("diagStripe", DiagStripe), ("horzCross", HorzCross),
            ("diagCross", DiagCross), ("thinHorzStripe", ThinHorzStripe), ("thinVertStripe", ThinVertStripe),
            ("thinReverseDiagStripe", ThinReverseDiagStripe), ("thinDiagStripe", ThinDiagStripe),
            ("thinHorzCross", ThinHorzCross), ("thinDiagCross", ThinDiagCross), ("pct5", Pct5), ("pct10", Pct10),
            ("pct12", Pct12), ("pct15", Pct15), ("pct20", Pct20), ("pct25", Pct25), ("pct30", Pct30), ("pct35", Pct35),
            ("pct37", Pct37), ("pct40", Pct40), ("pct45", Pct45), ("pct50", Pct50), ("pct55", Pct55), ("pct60", Pct60),
            ("pct62", Pct62), ("pct65", Pct65), ("pct70", Pct70), ("pct75", Pct75), ("pct80", Pct80), ("pct85", Pct85),
            ("pct87", Pct87), ("pct90", Pct90), ("pct95", Pct95),
        ],
    )
}
fn shading(v: V) -> Shading {
    let mut x = Shading::new();
    for (k, a) in &v.kv {
        let (k, a) = (k.as_str(), a.as_str());
        x = match k {
            "val" => x.shd_type(shd(a)),
            "color" => x.color(a),
            "fill" => x.fill(a),
            _ => unknown("shading", k),
        }
    }
    x
}
fn fonts(v: V) -> RunFonts {
    let mut x = RunFonts::new();
    for (k, a) in &v.kv {
        let (k, a) = (k.as_str(), a.as_str());
        x = match k {
            "ascii" => x.ascii(a),
            "hAnsi" => x.hi_ansi(a),
            "eastAsia" => x.east_asia(a),
            "cs" => x.cs(a),
            "asciiTheme" => x.ascii_theme(a),
            "hAnsiTheme" => x.hi_ansi_theme(a),
            "eastAsiaTheme" => x.east_asia_theme(a),
            "cstheme" => x.cs_theme(a),
            "hint" => x.hint(a),
            _ => unknown("fonts", k),
        }
    }
    x
}
fn text_border(v: V) -> TextBorder {
    let mut x = TextBorder::new();
    for (k, a) in &v.kv {
        let (k, a) = (k.as_str(), a.as_str());
        x = match k {
            "val" => x.border_type(border(a)),
            "sz" => x.size(num(a)),
            "space" => x.space(num(a)),
            "color" => x.color(a),
            _ => unknown("text border", k),
        }
    }
    x
}
fn leader(s: &str) -> TabLeaderType {
    use TabLeaderType::*;
    pick(
        s,
        vec![
            ("dot", Dot), ("heavy", Heavy), ("hyphen", Hyphen), ("middleDot", MiddleDot), ("none", None),
            ("underscore", Underscore),
        ],
    )
}
fn ptab(v: V) -> PositionalTab {
    use PositionalTabAlignmentType::*;
    use PositionalTabRelativeTo::*;
    let a = pick(&v[0], vec![("center", Center), ("left", Left), ("right", Right)]);
    let r = pick(&v[1], vec![("indent", Indent), ("margin", Margin)]);
    PositionalTab::new(a, r, leader(&v[2]))
}
fn align(s: &str) -> AlignmentType {
    use AlignmentType::*;
    pick(
        s,
        vec![
            ("both", Both), ("center", Center), ("distribute", Distribute), ("start", Start), ("end", End),
            ("left", Left), ("right", Right), ("justified", Justified),
        ],
    )
}
fn text_alignment(s: &str) -> TextAlignmentType {
    use TextAlignmentType::*;
    pick(s, vec![("auto", Auto), ("baseline", Baseline), ("bottom", Bottom), ("center", Center), ("top", Top)])
}
fn special(s: &str) -> Option<SpecialIndentType> {
    match s.split_once(':') {
        None => None,
        Some(("firstLine", x)) => Some(SpecialIndentType::FirstLine(num(x))),
        Some(("hanging", x)) => Some(SpecialIndentType::Hanging(num(x))),
        _ => panic!("HARNESS: special indent {s}"),
    }
}
fn tab(s: &str) -> Tab {
    use TabValueType::*;
    let f: Vec<&str> = s.split(',').collect();
    let mut t = Tab::new();
    if f[0] != "-" {
        t = t.val(pick(
            f[0],
            vec![
                ("bar", Bar), ("center", Center), ("clear", Clear), ("decimal", Decimal), ("end", End),
                ("right", Right), ("num", Num), ("start", Start), ("left", Left),
            ],
        ));
    }
    if f[1] != "-" {
        t = t.leader(leader(f[1]));
    }
    if f[2] != "-" {
        t = t.pos(num(f[2]));
    }
    t
}
fn line_spacing(v: V) -> LineSpacing {
    let mut x = LineSpacing::new();
    for (k, a) in &v.kv {
        let (k, a) = (k.as_str(), a.as_str());
        x = match k {
            "before" => x.before(num(a)),
            "after" => x.after(num(a)),
            "beforeLines" => x.before_lines(num(a)),
            "afterLines" => x.after_lines(num(a)),
            "line" => x.line(num(a)),
            "lineRule" => x.line_rule(pick(
                a,
                vec![
                    ("auto", LineSpacingType::Auto),
                    ("atLeast", LineSpacingType::AtLeast),
                    ("exact", LineSpacingType::Exact),
                ],
            )),
            _ => unknown("line spacing", k),
        }
    }
    x
}
fn frame(v: V) -> FrameProperty {
    let mut x = FrameProperty::new();
    for (k, a) in &v.kv {
        let (k, a) = (k.as_str(), a.as_str());
        x = match k {
            "wrap" => x.wrap(a),
            "vAnchor" => x.v_anchor(a),
            "hAnchor" => x.h_anchor(a),
            "hRule" => x.h_rule(a),
            "xAlign" => x.x_align(a),
            "yAlign" => x.y_align(a),
            "hSpace" => x.h_space(num(a)),
            "vSpace" => x.v_space(num(a)),
            "x" => x.x(num(a)),
            "y" => x.y(num(a)),
            "w" => x.width(num(a)),
            "h" => x.height(num(a)),
            _ => unknown("frame", k),
        }
    }
    x
}
fn ppos(s: &str) -> ParagraphBorderPosition {
    use ParagraphBorderPosition::*;
    pick(
        s,
        vec![("left", Left), ("right", Right), ("top", Top), ("bottom", Bottom), ("between", Between), ("bar", Bar)],
    )
}
fn pborder(p: &str, v: V) -> ParagraphBorder {
    let mut x = ParagraphBorder::new(ppos(p));
    for (k, a) in &v.kv {
        let (k, a) = (k.as_str(), a.as_str());
        x = match k {
            "val" => x.val(border(a)),
            "sz" => x.size(num(a)),
            "space" => x.space(num(a)),
            "color" => x.color(a),
            _ => unknown("paragraph border", k),
        }
    }
    x
}
/// Borders starting empty, one per position.
fn pborders(v: V) -> ParagraphBorders {
    let mut b = ParagraphBorders::with_empty();
    for p in &v.v {
        b = b.set(pborder(p, v));
    }
    b
}
fn tpos(s: &str) -> TableBorderPosition {
    use TableBorderPosition::*;
    pick(
        s,
        vec![("left", Left), ("right", Right), ("top", Top), ("bottom", Bottom), ("insideH", InsideH), ("insideV", InsideV)],
    )
}
fn tborder(p: &str, v: V) -> TableBorder {
    let mut x = TableBorder::new(tpos(p));
    for (k, a) in &v.kv {
        let (k, a) = (k.as_str(), a.as_str());
        x = match k {
            "val" => x.border_type(border(a)),
            "sz" => x.size(num(a)),
            "color" => x.color(a),
            _ => unknown("table border", k),
        }
    }
    x
}
fn tborders(v: V) -> TableBorders {
    let mut b = TableBorders::with_empty();
    for p in &v.v {
        b = b.set(tborder(p, v));
    }
    b
}
fn cpos(s: &str) -> TableCellBorderPosition {
    use TableCellBorderPosition::*;
    pick(
        s,
        vec![
            ("left", Left), ("right", Right), ("top", Top), ("bottom", Bottom), ("insideH", InsideH),
            ("insideV", InsideV), ("tl2br", Tl2br), ("tr2bl", Tr2bl),
        ],
    )
}
fn cborder(p: &str, v: V) -> TableCellBorder {
    let mut x = TableCellBorder::new(cpos(p));
    for (k, a) in &v.kv {
        let (k, a) = (k.as_str(), a.as_str());
        x = match k {
            "val" => x.border_type(border(a)),
            "sz" => x.size(num(a)),
            "color" => x.color(a),
            _ => unknown("cell border", k),
        }
    }
    x
}
fn cborders(v: V) -> TableCellBorders {
    let mut b = TableCellBorders::with_empty();
    for p in &v.v {
        b = b.set(cborder(p, v));
    }
    b
}
fn width_type(s: &str) -> WidthType {
    use WidthType::*;
    pick(s, vec![("dxa", Dxa), ("auto", Auto), ("pct", Pct), ("nil", Nil)])
}
fn layout(s: &str) -> TableLayoutType {
    pick(s, vec![("fixed", TableLayoutType::Fixed), ("autofit", TableLayoutType::Autofit)])
}
fn talign(s: &str) -> TableAlignmentType {
    use TableAlignmentType::*;
    pick(s, vec![("center", Center), ("left", Left), ("right", Right)])
}
fn position(v: V) -> TablePositionProperty {
    let mut x = TablePositionProperty::new();
    for (k, a) in &v.kv {
        let (k, a) = (k.as_str(), a.as_str());
        x = match k {
            "leftFromText" => x.left_from_text(num(a)),
            "rightFromText" => x.right_from_text(num(a)),
            "vertAnchor" => x.vertical_anchor(a),
            "horzAnchor" => x.horizontal_anchor(a),
            "tblpXSpec" => x.position_x_alignment(a),
            "tblpYSpec" => x.position_y_alignment(a),
            "tblpX" => x.position_x(num(a)),
            "tblpY" => x.position_y(num(a)),
            _ => unknown("table position", k),
        }
    }
    x
}
/// One type of width; a number for each side.
fn margins(v: V) -> TableCellMargins {
    let mut m = TableCellMargins::new();
    for (k, a) in &v.kv {
        let (n, t) = (num(a), width_type(&v[0]));
        m = match k.as_str() {
            "top" => m.margin_top(n, t),
            "right" => m.margin_right(n, t),
            "bottom" => m.margin_bottom(n, t),
            "left" => m.margin_left(n, t),
            s => unknown("margins", s),
        }
    }
    m
}
fn cell_margins(v: V) -> CellMargins {
    let mut m = CellMargins::new();
    for (k, a) in &v.kv {
        let (n, t) = (num(a), width_type(&v[0]));
        m = match k.as_str() {
            "top" => m.margin_top(n, t),
            "right" => m.margin_right(n, t),
            "bottom" => m.margin_bottom(n, t),
            "left" => m.margin_left(n, t),
            s => unknown("cell margins", s),
        }
    }
    m
}
fn text_direction(s: &str) -> TextDirectionType {
    use TextDirectionType::*;
    pick(
        s,
        vec![
            ("lr", Lr), ("lrV", LrV), ("rl", Rl), ("rlV", RlV), ("tb", Tb), ("tbV", TbV), ("tbRlV", TbRlV),
            ("tbRl", TbRl), ("btLr", BtLr), ("lrTbV", LrTbV),
        ],
    )
}
fn style_type(s: &str) -> StyleType {
    use StyleType::*;
    pick(s, vec![("paragraph", Paragraph), ("character", Character), ("table", Table), ("numbering", Numbering)])
}
fn orient(s: &str) -> PageOrientationType {
    pick(s, vec![("landscape", PageOrientationType::Landscape), ("portrait", PageOrientationType::Portrait)])
}
fn page_margin(v: V) -> PageMargin {
    let mut m = PageMargin::new();
    for (k, a) in &v.kv {
        let (k, a) = (k.as_str(), a.as_str());
        let n = num(a);
        m = match k {
            "top" => m.top(n),
            "left" => m.left(n),
            "bottom" => m.bottom(n),
            "right" => m.right(n),
            "header" => m.header(n),
            "footer" => m.footer(n),
            "gutter" => m.gutter(n),
            _ => unknown("page margin", k),
        }
    }
    m
}
fn page_size(v: V) -> PageSize {
    let mut x = PageSize::new();
    for (k, a) in &v.kv {
        let (k, a) = (k.as_str(), a.as_str());
        x = match k {
            "w" => x.width(num(a)),
            "h" => x.height(num(a)),
            "orient" => x.orient(orient(a)),
            _ => unknown("page size", k),
        }
    }
    x
}
fn doc_grid(v: V) -> DocGrid {
    use DocGridType::*;
    let mut x = DocGrid::with_empty();
    for (k, a) in &v.kv {
        let (k, a) = (k.as_str(), a.as_str());
        x = match k {
            "type" => x.grid_type(pick(
                a,
                vec![("default", Default), ("lines", Lines), ("linesAndChars", LinesAndChars), ("snapToChars", SnapToChars)],
            )),
            "linePitch" => x.line_pitch(num(a)),
            "charSpace" => x.char_space(num(a)),
            _ => unknown("grid", k),
        }
    }
    x
}
fn page_num(v: V) -> PageNumType {
    let mut x = PageNumType::new();
    for (k, a) in &v.kv {
        let (k, a) = (k.as_str(), a.as_str());
        x = match k {
            "start" => x.start(num(a)),
            "chapStyle" => x.chap_style(a),
            _ => unknown("page numbers", k),
        }
    }
    x
}

// ------------------------------------------------------------------ setters
macro_rules! one {
    (size, $h:expr, $v:expr) => { $h.size(num(&$v[0])) };
    (character_spacing, $h:expr, $v:expr) => { $h.character_spacing(num(&$v[0])) };
    (spacing, $h:expr, $v:expr) => { $h.spacing(num(&$v[0])) };
    (stretch, $h:expr, $v:expr) => { $h.stretch(num(&$v[0])) };
    (color, $h:expr, $v:expr) => { $h.color(&$v[0]) };
    (theme_color, $h:expr, $v:expr) => { $h.theme_color(theme(&$v[0])) };
    (theme_shade, $h:expr, $v:expr) => { $h.theme_shade(&$v[0]) };
    (theme_tint, $h:expr, $v:expr) => { $h.theme_tint(&$v[0]) };
    (highlight, $h:expr, $v:expr) => { $h.highlight(&$v[0]) };
    (vert_align, $h:expr, $v:expr) => { $h.vert_align(vert(&$v[0])) };
    (underline, $h:expr, $v:expr) => { $h.underline(&$v[0]) };
    (fonts, $h:expr, $v:expr) => { $h.fonts(fonts($v)) };
    (fit_text, $h:expr, $v:expr) => { $h.fit_text(num(&$v[0]), opt(&$v[1])) };
    (text_border, $h:expr, $v:expr) => { $h.text_border(text_border($v)) };
    (ptab, $h:expr, $v:expr) => { $h.ptab(ptab($v)) };
    (shading, $h:expr, $v:expr) => { $h.shading(shading($v)) };
    (style, $h:expr, $v:expr) => { $h.style(&$v[0]) };
    (align, $h:expr, $v:expr) => { $h.align(align(&$v[0])) };
    (text_alignment, $h:expr, $v:expr) => { $h.text_alignment(text_alignment(&$v[0])) };
    (snap_to_grid, $h:expr, $v:expr) => { $h.snap_to_grid(flag(&$v[0])) };
    (keep_next, $h:expr, $v:expr) => { $h.keep_next(flag(&$v[0])) };
    (keep_lines, $h:expr, $v:expr) => { $h.keep_lines(flag(&$v[0])) };
    (page_break_before, $h:expr, $v:expr) => { $h.page_break_before(flag(&$v[0])) };
    (bidi, $h:expr, $v:expr) => { $h.bidi(flag(&$v[0])) };
    (widow_control, $h:expr, $v:expr) => { $h.widow_control(flag(&$v[0])) };
    (outline_lvl, $h:expr, $v:expr) => { $h.outline_lvl(num(&$v[0])) };
    (adjust_right_ind, $h:expr, $v:expr) => { $h.adjust_right_ind(num(&$v[0])) };
    (add_tab, $h:expr, $v:expr) => { $h.add_tab(tab(&$v[0])) };
    (tabs, $h:expr, $v:expr) => { $h.tabs(&$v.v.iter().map(|x| tab(x)).collect::<Vec<_>>()) };
    (indent, $h:expr, $v:expr) => { $h.indent(opt(&$v[0]), special(&$v[1]), opt(&$v[2]), opt(&$v[3])) };
    (hanging_chars, $h:expr, $v:expr) => { $h.hanging_chars(num(&$v[0])) };
    (first_line_chars, $h:expr, $v:expr) => { $h.first_line_chars(num(&$v[0])) };
    (numbering, $h:expr, $v:expr) => { $h.numbering(NumberingId::new(num(&$v[0])), IndentLevel::new(num(&$v[1]))) };
    (line_spacing, $h:expr, $v:expr) => { $h.line_spacing(line_spacing($v)) };
    (frame_property, $h:expr, $v:expr) => { $h.frame_property(frame($v)) };
    (set_border, $h:expr, $v:expr) => { $h.set_border(pborder(&$v[0], $v)) };
    (set_borders, $h:expr, $v:expr) => { $h.set_borders(pborders($v)) };
    (clear_border, $h:expr, $v:expr) => { $h.clear_border(ppos(&$v[0])) };
    (wrap, $h:expr, $v:expr) => { $h.wrap(&$v[0]) };
    (v_anchor, $h:expr, $v:expr) => { $h.v_anchor(&$v[0]) };
    (h_anchor, $h:expr, $v:expr) => { $h.h_anchor(&$v[0]) };
    (h_rule, $h:expr, $v:expr) => { $h.h_rule(&$v[0]) };
    (x_align, $h:expr, $v:expr) => { $h.x_align(&$v[0]) };
    (y_align, $h:expr, $v:expr) => { $h.y_align(&$v[0]) };
    (h_space, $h:expr, $v:expr) => { $h.h_space(num(&$v[0])) };
    (v_space, $h:expr, $v:expr) => { $h.v_space(num(&$v[0])) };
    (frame_x, $h:expr, $v:expr) => { $h.frame_x(num(&$v[0])) };
    (frame_y, $h:expr, $v:expr) => { $h.frame_y(num(&$v[0])) };
    (frame_width, $h:expr, $v:expr) => { $h.frame_width(num(&$v[0])) };
    (frame_height, $h:expr, $v:expr) => { $h.frame_height(num(&$v[0])) };
    // styles, levels
    (name, $h:expr, $v:expr) => { $h.name(&$v[0]) };
    (based_on, $h:expr, $v:expr) => { $h.based_on(&$v[0]) };
    (next, $h:expr, $v:expr) => { $h.next(&$v[0]) };
    (link, $h:expr, $v:expr) => { $h.link(&$v[0]) };
    (q_format, $h:expr, $v:expr) => { $h.q_format(flag(&$v[0])) };
    (ui_priority, $h:expr, $v:expr) => { $h.ui_priority(num(&$v[0])) };
    (paragraph_style, $h:expr, $v:expr) => { $h.paragraph_style(&$v[0]) };
    (suffix, $h:expr, $v:expr) => {
        $h.suffix(pick(
            &$v[0],
            vec![("nothing", LevelSuffixType::Nothing), ("space", LevelSuffixType::Space), ("tab", LevelSuffixType::Tab)],
        ))
    };
    (level_restart, $h:expr, $v:expr) => { $h.level_restart(num(&$v[0])) };
    // tables
    (t_indent, $h:expr, $v:expr) => { $h.indent(num(&$v[0])) };
    (t_align, $h:expr, $v:expr) => { $h.align(talign(&$v[0])) };
    (t_style, $h:expr, $v:expr) => { $h.style(&$v[0]) };
    (table_indent, $h:expr, $v:expr) => { $h.table_indent(num(&$v[0])) };
    (table_align, $h:expr, $v:expr) => { $h.table_align(talign(&$v[0])) };
    (layout, $h:expr, $v:expr) => { $h.layout(layout(&$v[0])) };
    (position, $h:expr, $v:expr) => { $h.position(position($v)) };
    (width, $h:expr, $v:expr) => { $h.width(num(&$v[0]), width_type(&$v[1])) };
    (margins, $h:expr, $v:expr) => { $h.margins(margins($v)) };
    (set_margins, $h:expr, $v:expr) => { $h.set_margins(margins($v)) };
    (cell_margin_top, $h:expr, $v:expr) => { $h.cell_margin_top(num(&$v[0]), width_type(&$v[1])) };
    (cell_margin_right, $h:expr, $v:expr) => { $h.cell_margin_right(num(&$v[0]), width_type(&$v[1])) };
    (cell_margin_bottom, $h:expr, $v:expr) => { $h.cell_margin_bottom(num(&$v[0]), width_type(&$v[1])) };
    (cell_margin_left, $h:expr, $v:expr) => { $h.cell_margin_left(num(&$v[0]), width_type(&$v[1])) };
    (t_set_border, $h:expr, $v:expr) => { $h.set_border(tborder(&$v[0], $v)) };
    (t_set_borders, $h:expr, $v:expr) => { $h.set_borders(tborders($v)) };
    (t_clear_border, $h:expr, $v:expr) => { $h.clear_border(tpos(&$v[0])) };
    (set_grid, $h:expr, $v:expr) => { $h.set_grid($v.v.iter().map(|x| num(x)).collect()) };
    (grid_after, $h:expr, $v:expr) => { $h.grid_after(num(&$v[0])) };
    (width_after, $h:expr, $v:expr) => { $h.width_after(num(&$v[0])) };
    (grid_before, $h:expr, $v:expr) => { $h.grid_before(num(&$v[0])) };
    (width_before, $h:expr, $v:expr) => { $h.width_before(num(&$v[0])) };
    (row_height, $h:expr, $v:expr) => { $h.row_height(num(&$v[0])) };
    (height_rule, $h:expr, $v:expr) => {
        $h.height_rule(pick(
            &$v[0],
            vec![("auto", HeightRule::Auto), ("atLeast", HeightRule::AtLeast), ("exact", HeightRule::Exact)],
        ))
    };
    (vertical_merge, $h:expr, $v:expr) => {
        $h.vertical_merge(pick(&$v[0], vec![("continue", VMergeType::Continue), ("restart", VMergeType::Restart)]))
    };
    (vertical_align, $h:expr, $v:expr) => {
        $h.vertical_align(pick(
            &$v[0],
            vec![("top", VAlignType::Top), ("center", VAlignType::Center), ("bottom", VAlignType::Bottom)],
        ))
    };
    (text_direction, $h:expr, $v:expr) => { $h.text_direction(text_direction(&$v[0])) };
    (grid_span, $h:expr, $v:expr) => { $h.grid_span(num(&$v[0])) };
    (c_set_border, $h:expr, $v:expr) => { $h.set_border(cborder(&$v[0], $v)) };
    (c_set_borders, $h:expr, $v:expr) => { $h.set_borders(cborders($v)) };
    (c_clear_border, $h:expr, $v:expr) => { $h.clear_border(cpos(&$v[0])) };
    (c_margins, $h:expr, $v:expr) => { $h.margins(cell_margins($v)) };
    (margin_top, $h:expr, $v:expr) => { $h.margin_top(num(&$v[0]), width_type(&$v[1])) };
    (margin_right, $h:expr, $v:expr) => { $h.margin_right(num(&$v[0]), width_type(&$v[1])) };
    (margin_bottom, $h:expr, $v:expr) => { $h.margin_bottom(num(&$v[0]), width_type(&$v[1])) };
    (margin_left, $h:expr, $v:expr) => { $h.margin_left(num(&$v[0]), width_type(&$v[1])) };
    // sections
    (page_size, $h:expr, $v:expr) => { $h.page_size(page_size($v)) };
    (page_size_wh, $h:expr, $v:expr) => { $h.page_size(num(&$v[0]), num(&$v[1])) };
    (page_margin, $h:expr, $v:expr) => { $h.page_margin(page_margin($v)) };
    (page_orient, $h:expr, $v:expr) => { $h.page_orient(orient(&$v[0])) };
    (doc_grid, $h:expr, $v:expr) => { $h.doc_grid(doc_grid($v)) };
    (s_text_direction, $h:expr, $v:expr) => { $h.text_direction($v[0].clone()) };
    (page_num_type, $h:expr, $v:expr) => { $h.page_num_type(page_num($v)) };
    // document
    (default_size, $h:expr, $v:expr) => { $h.default_size(num(&$v[0])) };
    (default_spacing, $h:expr, $v:expr) => { $h.default_spacing(num(&$v[0])) };
    (default_fonts, $h:expr, $v:expr) => { $h.default_fonts(fonts($v)) };
    (default_line_spacing, $h:expr, $v:expr) => { $h.default_line_spacing(line_spacing($v)) };
    (doc_id, $h:expr, $v:expr) => { $h.doc_id(&$v[0]) };
    (default_tab_stop, $h:expr, $v:expr) => { $h.default_tab_stop(num(&$v[0])) };
    (add_doc_var, $h:expr, $v:expr) => { $h.add_doc_var(&$v[0], &$v[1]) };
    (created_at, $h:expr, $v:expr) => { $h.created_at(&$v[0]) };
    (updated_at, $h:expr, $v:expr) => { $h.updated_at(&$v[0]) };
    (custom_property, $h:expr, $v:expr) => { $h.custom_property(&$v[0], &$v[1]) };
    (character_spacing_control, $h:expr, $v:expr) => {
        $h.character_spacing_control(pick(
            &$v[0],
            vec![
                ("doNotCompress", CharacterSpacingValues::DoNotCompress),
                ("compressPunctuation", CharacterSpacingValues::CompressPunctuation),
                (
                    "compressPunctuationAndJapaneseKana",
                    CharacterSpacingValues::CompressPunctuationAndJapaneseKana,
                ),
            ],
        ))
    };
    // a call without arguments
    ($m:ident, $h:expr, $v:expr) => { $h.$m() };
}
macro_rules! set {
    ($host:expr, $h:expr, $c:expr; $($m:ident)*) => {
        match $c.s.as_str() {
            $( stringify!($m) => one!($m, $h, $c), )*
            s => unknown($host, s),
        }
    };
}


fn on_rpr(x: RunProperty, c: &Call) -> RunProperty {
    set!("run property", x, c; style size spacing character_spacing stretch color theme_color theme_shade theme_tint
        highlight vert_align bold disable_bold caps italic disable_italic strike disable_strike dstrike disable_dstrike
        underline vanish spec_vanish fonts fit_text text_border ptab shading)
}
fn on_run(x: Run, c: &Call) -> Run {
    set!("run", x, c; style size character_spacing stretch color theme_color theme_shade theme_tint highlight bold
        disable_bold italic disable_italic strike dstrike underline vanish fonts text_border shading)
}
fn on_ppr(x: ParagraphProperty, c: &Call) -> ParagraphProperty {
    set!("paragraph property", x, c; align style indent numbering line_spacing character_spacing snap_to_grid shading
        keep_next keep_lines outline_lvl page_break_before bidi widow_control add_tab frame_property text_alignment
        adjust_right_ind set_borders set_border clear_border clear_all_borders)
}
fn on_para(x: Paragraph, c: &Call) -> Paragraph {
    set!("paragraph", x, c; align style snap_to_grid keep_next keep_lines outline_lvl page_break_before widow_control
        add_tab tabs indent hanging_chars first_line_chars numbering size color bold italic fonts line_spacing
        character_spacing wrap v_anchor h_anchor h_rule x_align y_align h_space v_space frame_x frame_y frame_width
        frame_height)
}
fn on_style(x: Style, c: &Call) -> Style {
    set!("style", x, c; name based_on next link q_format ui_priority semi_hidden unhide_when_used size color
        theme_color theme_shade theme_tint highlight bold italic underline vanish text_border fonts align
        text_alignment snap_to_grid line_spacing indent hanging_chars first_line_chars outline_lvl table_indent
        table_align t_style layout width margins t_set_border t_set_borders t_clear_border clear_all_border wrap
        v_anchor h_anchor h_rule x_align y_align h_space v_space frame_x frame_y frame_width frame_height)
}
pub fn on_level(x: Level, c: &Call) -> Level {
    set!("level", x, c; indent paragraph_style suffix size spacing color highlight bold disable_bold italic
        disable_italic strike disable_strike dstrike disable_dstrike underline vanish fonts level_restart is_lgl)
}
fn on_table(x: Table, c: &Call) -> Table {
    set!("table", x, c; set_grid t_indent t_align t_style layout position width margins t_set_border t_set_borders
        t_clear_border clear_all_border)
}
fn on_tpr(x: TableProperty, c: &Call) -> TableProperty {
    set!("table property", x, c; t_indent t_align t_style layout position width set_margins cell_margin_top
        cell_margin_right cell_margin_bottom cell_margin_left t_set_border t_set_borders t_clear_border
        clear_all_border)
}
fn on_row(x: TableRow, c: &Call) -> TableRow {
    set!("row", x, c; grid_after width_after grid_before width_before row_height height_rule cant_split)
}
fn on_cell(x: TableCell, c: &Call) -> TableCell {
    set!("cell", x, c; vertical_merge shading vertical_align text_direction grid_span width c_set_border c_set_borders
        c_clear_border clear_all_border)
}
fn on_cpr(x: TableCellProperty, c: &Call) -> TableCellProperty {
    set!("cell property", x, c; vertical_merge shading vertical_align text_direction grid_span width c_set_border
        c_set_borders c_clear_border clear_all_border c_margins margin_top margin_right margin_bottom margin_left)
}
fn on_sect(x: SectionProperty, c: &Call) -> SectionProperty {
    set!("section", x, c; page_size page_margin page_orient doc_grid s_text_direction title_pg page_num_type)
}
fn on_document(x: Document, c: &Call) -> Document {
    match c.s.as_str() {
        "columns" => x.columns(num(&c[0])),
        _ => {
            set!("document", x, c; page_size page_margin page_orient doc_grid s_text_direction title_pg page_num_type)
        }
    }
}
fn on_docx(x: Docx, c: &Call) -> Docx {
    match c.s.as_str() {
        "custom_item" => x.add_custom_item(&c[0], &c[1]),
        _ => set!("docx", x, c; page_size_wh page_margin page_orient title_pg page_num_type default_size
            default_spacing default_fonts default_line_spacing doc_id default_tab_stop add_doc_var created_at
            updated_at custom_property),
    }
}
fn on_settings(x: Settings, c: &Call) -> Settings {
    set!("settings", x, c; doc_id default_tab_stop add_doc_var even_and_odd_headers adjust_line_height_in_table
        character_spacing_control)
}

// ------------------------------------------------------------------ items
pub struct Item {
    host: String,
    pub kind: String,
    calls: Vec<Call>,
    parts: Vec<Item>,
}
impl Item {
    pub fn from(v: &Value) -> Item {
        let s = |x: &Value| x.as_str().unwrap_or_default().to_string();
        Item {
            host: s(&v["host"]),
            kind: s(&v["kind"]),
            calls: v["calls"]
                .as_array()
                .into_iter()
                .flatten()
                .map(|c| Call {
                    s: s(&c["s"]),
                    v: c["v"].as_array().into_iter().flatten().map(s).collect(),
                    kv: c["kv"].as_array().into_iter().flatten().map(|x| (s(&x[0]), s(&x[1]))).collect(),
                })
                .collect(),
            parts: v["parts"].as_array().into_iter().flatten().map(Item::from).collect(),
        }
    }
    pub fn on<T>(&self, x: T, f: impl Fn(T, &Call) -> T) -> T {
        self.calls.iter().fold(x, f)
    }
}
fn para() -> Paragraph {
    Paragraph::new().add_run(Run::new().add_text("x"))
}
fn cell() -> TableCell {
    TableCell::new().add_paragraph(para())
}
fn style_id(i: usize) -> String {
    format!("fmt{i}")
}
const NUM0: usize = 100;

enum Block {
    P(Box<Paragraph>),
    T(Box<Table>),
}
/// A run of its own in paragraph p, below the given kind of element.
fn with_run(p: Paragraph, kind: &str, f: impl Fn(Run) -> Run) -> Paragraph {
    let t = || f(Run::new().add_text("x"));
    let dt = || f(Run::new().add_delete_text("x"));
    match kind {
        "" => p.add_run(t()),
        "ins" => p.add_insert(Insert::new(t())),
        "del" => p.add_delete(Delete::new().add_run(dt())),
        "insdel" => p.add_insert(Insert::new_with_empty().add_delete(Delete::new().add_run(dt()))),
        "mvf" => p.add_move_from(MoveFrom::new().add_run(dt())),
        "mvt" => p.add_move_to(MoveTo::new(t())),
        "link" => p.add_hyperlink(Hyperlink::new("http://a.example", HyperlinkType::External).add_run(t())),
        "sdt" => p.add_structured_data_tag(StructuredDataTag::new().add_run(t())),
        k => panic!("HARNESS: unknown wrapper {k}"),
    }
}
fn on_any_run(r: Run, it: &Item) -> Run {
    match it.host.as_str() {
        "run" => it.on(r, on_run),
        _ => {
            let mut r = r;
            r.run_property = it.on(RunProperty::new(), on_rpr);
            r
        }
    }
}
fn grid(it: &Item) -> Table {
    let cell_of = |c: &Item| {
        let mut t = TableCell::new();
        for inner in &c.parts {
            t = t.add_table(grid(inner));
        }
        let mut t = t.add_paragraph(para());
        if c.host == "cpr" {
            t.property = c.on(TableCellProperty::new(), on_cpr);
            t
        } else {
            c.on(t, on_cell)
        }
    };
    let rows = it.parts.iter().map(|r| r.on(TableRow::new(r.parts.iter().map(cell_of).collect()), on_row)).collect();
    it.on(Table::new(rows), on_table)
}
/// The block an item stands for, if it is one.
fn block(it: &Item) -> Option<Block> {
    let p = |p: Paragraph| Some(Block::P(Box::new(p)));
    let t = |t: Table| Some(Block::T(Box::new(t)));
    match it.host.as_str() {
        "run" | "runpr" => p(with_run(Paragraph::new(), &it.kind, |r| on_any_run(r, it))),
        "mark" => p(para().run_property(it.on(RunProperty::new(), on_rpr))),
        "runs" => {
            let mut q = Paragraph::new().run_property(it.on(RunProperty::new(), on_rpr));
            for r in &it.parts {
                q = with_run(q, &r.kind, |x| on_any_run(x, r));
            }
            p(q)
        }
        "para" => p(it.on(para(), on_para)),
        "ppr" => {
            let mut q = para();
            q.property = it.on(ParagraphProperty::new(), on_ppr);
            p(q)
        }
        "pchange" => {
            let c = ParagraphPropertyChange::new().property(it.on(ParagraphProperty::new(), on_ppr));
            p(para().paragraph_property_change(c))
        }
        "table" => {
            let x = if it.kind == "without_borders" { Table::without_borders(vec![]) } else { Table::new(vec![]) };
            t(it.on(x.add_row(TableRow::new(vec![cell()])), on_table))
        }
        "row" => t(Table::new(vec![it.on(TableRow::new(vec![cell()]), on_row)])),
        "cell" => t(Table::new(vec![TableRow::new(vec![it.on(cell(), on_cell)])])),
        "cpr" => {
            let mut c = cell();
            c.property = it.on(TableCellProperty::new(), on_cpr);
            t(Table::new(vec![TableRow::new(vec![c])]))
        }
        // the same inside a cell of another table
        "inner" => t(Table::new(vec![TableRow::new(vec![
            TableCell::new().add_table(it.on(Table::new(vec![TableRow::new(vec![cell()])]), on_table)),
        ])])),
        "grid" => t(grid(it)),
        _ => None,
    }
}
/// Every item is one block of the story, so that it is found again by its position.
fn build(at: &str, items: &[Item]) -> Docx {
    macro_rules! into {
        ($x:expr) => {
            items.iter().fold($x, |x, it| match block(it) {
                Some(Block::P(p)) => x.add_paragraph(*p),
                Some(Block::T(t)) => x.add_table(*t),
                None => panic!("HARNESS: not a block: {}", it.host),
            })
        };
    }
    let d = Docx::new();
    match at {
        "" => items.iter().enumerate().fold(d, |d, (i, it)| match block(it) {
            Some(Block::P(p)) => d.add_paragraph(*p),
            Some(Block::T(t)) => d.add_table(*t),
            None => add(d, i, it),
        }),
        "cell" => d.add_table(Table::new(vec![TableRow::new(vec![into!(TableCell::new()).add_paragraph(para())])])),
        "sdt" => d.add_structured_data_tag(into!(StructuredDataTag::new())),
        "header" => d.header(into!(Header::new())).add_paragraph(para()),
        "first" => d.first_header(into!(Header::new())).add_paragraph(para()),
        "footer" => d.even_footer(into!(Footer::new())).add_paragraph(para()),
        "section" => d.add_section(into!(Section::new())).add_paragraph(para()),
        "comment" => {
            let p = Paragraph::new().add_comment_start(into!(Comment::new(1))).add_comment_end(1);
            d.add_paragraph(p)
        }
        "footnote" => {
            let f = items.iter().fold(Footnote::new(), |mut f, it| match block(it) {
                Some(Block::P(p)) => f.add_content(*p),
                _ => panic!("HARNESS: not a paragraph: {}", it.host),
            });
            d.add_paragraph(Paragraph::new().add_run(Run::new().add_footnote_reference(f)))
        }
        a => panic!("HARNESS: unknown place {a}"),
    }
}
/// The element whose children are the blocks.
fn story<'a>(p: &'a Pkg, at: &str) -> Option<&'a El> {
    let body = p.xml[&p.main_part()].child("body").expect("HARNESS: no body");
    let part = |k: &str| p.related(k).and_then(|n| p.xml.get(&n));
    match at {
        "" | "section" => Some(body),
        "cell" => body.child("tbl")?.child("tr")?.child("tc"),
        "sdt" => body.child("sdt")?.child("sdtContent"),
        "header" | "first" => part("header"),
        "footer" => part("footer"),
        "comment" => part("comments")?.child("comment"),
        "footnote" => part("footnotes")?.els().filter(|e| e.local == "footnote").last(),
        a => panic!("HARNESS: unknown place {a}"),
    }
}
fn story_json(v: &Value, at: &str) -> Value {
    let first = &v["document"]["children"][0]["data"];
    let sect = &v["document"]["sectionProperty"];
    match at {
        "" | "section" => v["document"]["children"].clone(),
        "cell" => first["rows"][0]["data"]["cells"][0]["data"]["children"].clone(),
        "sdt" => first["children"].clone(),
        "header" => sect["header"][1]["children"].clone(),
        "first" => sect["firstHeader"][1]["children"].clone(),
        "footer" => sect["evenFooter"][1]["children"].clone(),
        "comment" => v["comments"]["comments"][0]["children"].clone(),
        _ => Value::Null,
    }
}
fn runs_of<'a>(e: &'a El, out: &mut Vec<&'a El>) {
    for k in e.els() {
        match k.local.as_str() {
            "r" => out.push(k),
            "pPr" => {}
            _ => runs_of(k, out),
        }
    }
}
fn runs_json<'a>(v: &'a Value, out: &mut Vec<&'a Value>) {
    match v {
        Value::Object(m) if m.get("type") == Some(&Value::from("run")) => out.push(&v["data"]),
        Value::Object(m) => m.iter().filter(|(k, _)| *k == "children" || *k == "data").for_each(|(_, x)| runs_json(x, out)),
        Value::Array(a) => a.iter().for_each(|x| runs_json(x, out)),
        _ => {}
    }
}
pub fn put(out: &mut Vec<String>, prefix: &str, f: Vec<String>) {
    out.extend(f.into_iter().map(|x| format!("{prefix}{x}")));
}
fn grid_facts(t: &El, at: &str, out: &mut Vec<String>) {
    put(out, &format!("{at}tbl/"), of(t.child("tblPr")));
    put(out, &format!("{at}tbl/"), of(t.child("tblGrid")));
    for (i, r) in t.els().filter(|e| e.local == "tr").enumerate() {
        put(out, &format!("{at}row[{i}]/"), of(r.child("trPr")));
        for (j, c) in r.els().filter(|e| e.local == "tc").enumerate() {
            out.push(format!("{at}row[{i}]/cell[{j}]"));
            put(out, &format!("{at}row[{i}]/cell[{j}]/"), of(c.child("tcPr")));
            for (n, x) in c.els().filter(|e| e.local == "tbl").enumerate() {
                grid_facts(x, &format!("{at}row[{i}]/cell[{j}]/in[{n}]/"), out);
            }
        }
    }
}
fn grid_json(t: &Value, at: &str, out: &mut Vec<String>) {
    put(out, &format!("{at}tbl/"), flat(&t["property"]));
    put(out, &format!("{at}tbl/"), flat(&json!({"grid": t["grid"]})));
    for (i, r) in t["rows"].as_array().into_iter().flatten().enumerate() {
        put(out, &format!("{at}row[{i}]/"), flat(&r["data"]["property"]));
        for (j, c) in r["data"]["cells"].as_array().into_iter().flatten().enumerate() {
            let c = &c["data"];
            out.push(format!("{at}row[{i}]/cell[{j}]"));
            put(out, &format!("{at}row[{i}]/cell[{j}]/"), flat(&c["property"]));
            for (n, x) in c["children"].as_array().into_iter().flatten().filter(|x| x["type"] == "table").enumerate() {
                grid_json(&x["data"], &format!("{at}row[{i}]/cell[{j}]/in[{n}]/"), out);
            }
        }
    }
}

fn add(d: Docx, i: usize, it: &Item) -> Docx {
    match it.host.as_str() {
        "sect" => d.add_paragraph(para().section_property(it.on(SectionProperty::new(), on_sect))),
        "style" => {
            let s = it.on(Style::new(style_id(i), style_type(&it.kind)), on_style);
            d.add_style(s).add_paragraph(para())
        }
        "stylerpr" => {
            let mut s = Style::new(style_id(i), style_type(&it.kind));
            s.run_property = it.on(RunProperty::new(), on_rpr);
            d.add_style(s).add_paragraph(para())
        }
        "styleppr" => {
            let mut s = Style::new(style_id(i), style_type(&it.kind));
            s.paragraph_property = it.on(ParagraphProperty::new(), on_ppr);
            d.add_style(s).add_paragraph(para())
        }
        "styletpr" => {
            let s = Style::new(style_id(i), StyleType::Table).table_property(it.on(TableProperty::new(), on_tpr));
            d.add_style(s).add_paragraph(para())
        }
        "stylecpr" => {
            let s =
                Style::new(style_id(i), StyleType::Table).table_cell_property(it.on(TableCellProperty::new(), on_cpr));
            d.add_style(s).add_paragraph(para())
        }
        "level" => {
            let f: Vec<&str> = it.kind.split('|').collect();
            let l = Level::new(
                num(f[0]),
                Start::new(num(f[1])),
                NumberFormat::new(f[2]),
                LevelText::new(f[3]),
                LevelJc::new(f[4]),
            );
            d.add_abstract_numbering(AbstractNumbering::new(NUM0 + i).add_level(it.on(l, on_level)))
                .add_numbering(Numbering::new(NUM0 + i, NUM0 + i))
                .add_paragraph(para().numbering(NumberingId::new(NUM0 + i), IndentLevel::new(num(f[0]))))
        }
        // document-wide items: one per document
        "docx" => it.on(d, on_docx).add_paragraph(para()),
        "document" => {
            let mut d = d.add_paragraph(para());
            d.document = it.on(d.document, on_document);
            d
        }
        "docsect" => {
            let mut d = d.add_paragraph(para());
            let s = it.on(SectionProperty::new(), on_sect);
            d.document = d.document.default_section_property(s);
            d
        }
        "settings" => d.settings(it.on(Settings::new(), on_settings)).add_paragraph(para()),
        h => panic!("HARNESS: unknown host {h}"),
    }
}

// ------------------------------------------------------------------ facts
const SWITCHES: &[&str] = &[
    "b", "bCs", "i", "iCs", "caps", "smallCaps", "strike", "dstrike", "vanish", "specVanish", "keepNext", "keepLines",
    "pageBreakBefore", "widowControl", "bidi", "snapToGrid", "adjustRightInd", "cantSplit", "tblHeader", "titlePg",
    "isLgl", "qFormat", "semiHidden", "unhideWhenUsed", "evenAndOddHeaders", "adjustLineHeightInTable", "noWrap",
    "spaceForUL", "balanceSingleByteDoubleByteWidth", "doNotLeaveBackslashAlone", "ulTrailSpace",
    "doNotExpandShiftReturn", "useFELayout",
];
/// Elements whose order among their own kind is part of their meaning.
const LISTS: &[&str] = &["gridCol", "tab", "docVar"];

fn side(n: &str) -> &str {
    match n {
        "start" => "left",
        "end" => "right",
        n => n,
    }
}
fn facts(e: &El, path: &str, out: &mut Vec<String>) {
    if SWITCHES.contains(&e.local.as_str()) {
        let on = !matches!(e.attr("val"), Some("0" | "false" | "off"));
        out.push(format!("{path}={}", if on { "on" } else { "off" }));
        return;
    }
    // a border that is not there has no other attributes that mean anything
    let none = path.contains("B") && matches!(e.attr("val"), Some("nil"));
    for (_, l, _, v) in &e.attrs {
        let l = if e.local == "ind" { side(l) } else { l };
        if none && l != "val" || e.local == "gridCol" && l == "type" {
            continue;
        }
        out.push(format!("{path}@{l}={v}"));
    }
    if e.local == "vMerge" && e.attr("val").is_none() {
        out.push(format!("{path}@val=continue"));
    }
    let mut seen = std::collections::BTreeMap::new();
    let text: String = e.kids.iter().filter_map(|k| if let Kid::Text(t) = k { Some(t.as_str()) } else { None }).collect();
    if !text.trim().is_empty() {
        out.push(format!("{path}#text={text}"));
    }
    for k in e.els() {
        let name = match e.local.as_str() {
            "tblBorders" | "tcBorders" | "tcMar" | "tblCellMar" => side(&k.local),
            _ => &k.local,
        };
        let mut p = if path.is_empty() { name.to_string() } else { format!("{path}/{name}") };
        if LISTS.contains(&name) {
            let n = seen.entry(name.to_string()).or_insert(0usize);
            p = format!("{p}[{n}]");
            *n += 1;
        }
        if let ("property" | "compatSetting", Some(n)) = (name, k.attr("name")) {
            p = format!("{p}({n})");
        }
        facts(k, &p, out);
    }
}
pub fn of(e: Option<&El>) -> Vec<String> {
    let mut v = vec![];
    if let Some(e) = e {
        facts(e, "", &mut v);
    }
    v.retain(|f| !f.starts_with("@styleId="));
    // compatibility settings that are always there
    v.retain(|f| !f.starts_with("compat/") || f.starts_with("compat/adjustLineHeightInTable") || f.starts_with("compat/characterSpacingControl"));
    // the numbers of custom properties have to differ, no more
    let mut pids: Vec<&str> = v.iter().filter(|f| f.starts_with("property(")).filter_map(|f| f.split_once(")@pid=")).map(|x| x.1).collect();
    let n = pids.len();
    pids.sort();
    pids.dedup();
    let clash = pids.len() != n;
    v.retain(|f| !f.starts_with("property(") || !f.contains(")@pid=") && !f.contains(")@fmtid="));
    if clash {
        v.push("properties with the same pid".into());
    }
    v.sort();
    v
}
fn values(v: &Value, path: &str, out: &mut Vec<String>) {
    match v {
        Value::Null => {}
        Value::Object(m) => {
            // a border that is not there has no other attributes that mean anything
            let none = path.contains("borders.") && (m.get("val").or(m.get("borderType")) == Some(&Value::from("nil")));
            for (k, x) in m {
                if none && ["size", "space", "color"].contains(&k.as_str()) {
                    continue;
                }
                values(x, &if path.is_empty() { k.clone() } else { format!("{path}.{k}") }, out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                values(x, &format!("{path}[{i}]"), out);
            }
        }
        Value::String(s) => out.push(format!("{path}={s}")),
        x => out.push(format!("{path}={x}")),
    }
}
pub fn flat(v: &Value) -> Vec<String> {
    let mut o = vec![];
    values(v, "", &mut o);
    o.sort();
    o
}
fn only<'a>(v: Vec<&'a El>, what: &str) -> Result<Option<&'a El>, String> {
    if v.len() > 1 {
        return Err(format!("{} elements for {what}", v.len()));
    }
    Ok(v.first().copied())
}

/// What the package says about item i.
fn written(p: &Pkg, at: &str, i: usize, it: &Item) -> Vec<String> {
    let doc = &p.xml[&p.main_part()];
    let body = doc.child("body").expect("HARNESS: no body");
    let block = story(p, at).and_then(|s| s.els().filter(|e| e.local == "p" || e.local == "tbl").nth(i));
    let pick = |path: &[&str]| path.iter().fold(block, |e, n| e.and_then(|e| e.child(n)));
    let part = |k: &str| p.related(k).and_then(|n| p.xml.get(&n));
    let style = || {
        let id = style_id(i);
        let v: Vec<&El> = part("styles")
            .into_iter()
            .flat_map(|s| s.els())
            .filter(|e| e.local == "style" && e.attr("styleId") == Some(&id))
            .collect();
        only(v, "a style")
    };
    let r = match it.host.as_str() {
        "run" | "runpr" => {
            let mut rs = vec![];
            block.into_iter().for_each(|b| runs_of(b, &mut rs));
            Ok(rs.first().and_then(|r| r.child("rPr")))
        }
        "runs" => {
            let (mut rs, mut v) = (vec![], vec![]);
            block.into_iter().for_each(|b| runs_of(b, &mut rs));
            put(&mut v, "mark/", of(pick(&["pPr", "rPr"])));
            for (n, r) in rs.iter().enumerate() {
                v.push(format!("r[{n}]"));
                put(&mut v, &format!("r[{n}]/"), of(r.child("rPr")));
            }
            return v;
        }
        "grid" => {
            let mut v = vec![];
            block.into_iter().for_each(|b| grid_facts(b, "", &mut v));
            return v;
        }
        "mark" => Ok(pick(&["pPr", "rPr"])),
        "para" | "ppr" => Ok(pick(&["pPr"])),
        "pchange" => Ok(pick(&["pPr", "pPrChange", "pPr"])),
        "sect" => Ok(pick(&["pPr", "sectPr"])),
        "table" => {
            let mut v = of(pick(&["tblPr"]));
            v.extend(of(pick(&["tblGrid"])));
            return v;
        }
        "inner" => {
            let mut v = of(pick(&["tr", "tc", "tbl", "tblPr"]));
            v.extend(of(pick(&["tr", "tc", "tbl", "tblGrid"])));
            return v;
        }
        "row" => Ok(pick(&["tr", "trPr"])),
        "cell" | "cpr" => Ok(pick(&["tr", "tc", "tcPr"])),
        "style" | "stylerpr" | "styleppr" | "styletpr" | "stylecpr" => style(),
        "level" => {
            let id = (NUM0 + i).to_string();
            let v: Vec<&El> = part("numbering")
                .into_iter()
                .flat_map(|s| s.els())
                .filter(|e| e.local == "abstractNum" && e.attr("abstractNumId") == Some(&id))
                .collect();
            only(v, "an abstract numbering").map(|a| a.and_then(|a| a.child("lvl")))
        }
        "document" | "docsect" => {
            let v: Vec<&El> = body.els().filter(|e| e.local == "sectPr").collect();
            only(v, "the section")
        }
        "settings" => Ok(part("settings")),
        "docx" => {
            let mut v = of(body.child("sectPr"));
            let mut more = |prefix: &str, e: Option<&El>| v.extend(of(e).into_iter().map(|f| format!("{prefix}{f}")));
            more("settings/", part("settings"));
            more("docDefaults/", part("styles").and_then(|s| s.child("docDefaults")));
            more("core/", p.xml.get("docProps/core.xml"));
            more("custom/", p.xml.get("docProps/custom.xml"));
            return v;
        }
        h => panic!("HARNESS: unknown host {h}"),
    };
    match r {
        Ok(e) => of(e),
        Err(m) => vec![m],
    }
}

/// What the document read says about item i.
fn reading(v: &Value, story: &Value, i: usize, it: &Item) -> Vec<String> {
    let block = &story[i]["data"];
    let cell = |t: &Value| t["rows"][0]["data"]["cells"][0]["data"].clone();
    let style = || {
        let id = style_id(i);
        v["styles"]["styles"].as_array().into_iter().flatten().find(|s| s["styleId"] == id.as_str()).cloned().unwrap_or(Value::Null)
    };
    let style = || {
        let mut s = style();
        if let Some(m) = s.as_object_mut() {
            m.remove("styleId");
            if m["styleType"] != "table" {
                m.remove("tableProperty");
                m.remove("tableCellProperty");
            }
        }
        s
    };
    match it.host.as_str() {
        "run" | "runpr" => {
            let mut rs = vec![];
            runs_json(&block["children"], &mut rs);
            rs.first().map(|r| flat(&r["runProperty"])).unwrap_or_default()
        }
        "runs" => {
            let (mut rs, mut f) = (vec![], vec![]);
            runs_json(&block["children"], &mut rs);
            put(&mut f, "mark/", flat(&block["property"]["runProperty"]));
            for (n, r) in rs.iter().enumerate() {
                f.push(format!("r[{n}]"));
                put(&mut f, &format!("r[{n}]/"), flat(&r["runProperty"]));
            }
            f
        }
        "grid" => {
            let mut f = vec![];
            grid_json(block, "", &mut f);
            f
        }
        "mark" => flat(&block["property"]["runProperty"]),
        "para" | "ppr" => flat(&block["property"]),
        "pchange" => flat(&block["property"]["paragraphPropertyChange"]["property"]),
        "sect" => flat(&block["property"]["sectionProperty"]),
        "table" => {
            let mut f = flat(&block["property"]);
            f.extend(flat(&json!({"grid": block["grid"]})));
            f
        }
        "inner" => {
            let t = &cell(block)["children"][0]["data"];
            let mut f = flat(&t["property"]);
            f.extend(flat(&json!({"grid": t["grid"]})));
            f
        }
        "row" => flat(&block["rows"][0]["data"]["property"]),
        "cell" | "cpr" => flat(&cell(block)["property"]),
        "style" | "stylerpr" | "styleppr" | "styletpr" | "stylecpr" => flat(&style()),
        "level" => {
            let id = (NUM0 + i) as u64;
            let a = v["numberings"]["abstractNums"].as_array().into_iter().flatten().find(|a| a["id"] == id);
            a.map(|a| flat(&a["levels"][0])).unwrap_or_default()
        }
        "document" | "docsect" => flat(&v["document"]["sectionProperty"]),
        "settings" => flat(&v["settings"]),
        "docx" => {
            let mut f = flat(&json!({"section": v["document"]["sectionProperty"], "settings": v["settings"],
                "docDefaults": v["styles"]["docDefaults"], "docProps": v["docProps"]}));
            f.sort();
            f
        }
        h => panic!("HARNESS: unknown host {h}"),
    }
}

pub fn run(c: &Value) -> Value {
    let items: Vec<Item> = c["items"].as_array().expect("HARNESS: items").iter().map(Item::from).collect();
    let at = c["at"].as_str().unwrap_or_default();
    if c["json"] == true {
        let v: Value = serde_json::from_str(&build(at, &items).json()).expect("the JSON form parses");
        let st = story_json(&v, at);
        let out: Vec<Value> = items.iter().enumerate().map(|(i, it)| json!({"json": reading(&v, &st, i, it)})).collect();
        return json!({ "items": out });
    }
    let b = pack(build(at, &items), way(c));
    if let Some(f) = c["save"].as_str() {
        std::fs::write(f, &b).expect("HARNESS: save");
    }
    let p = match Pkg::open(&b) {
        Ok(p) => p,
        Err(e) => return json!({"unreadable": e}),
    };
    let back = match read_docx(&b) {
        Ok(d) => d,
        Err(e) => return json!({"unreadable": format!("by the reader: {e}")}),
    };
    let v = read::value(&back);
    let st = story_json(&v, at);
    let b2 = pack(back, !way(c));
    let p2 = match Pkg::open(&b2) {
        Ok(p) => p,
        Err(e) => return json!({"unreadable": format!("after reading and writing: {e}")}),
    };
    let out: Vec<Value> = items
        .iter()
        .enumerate()
        .map(|(i, it)| json!({"markup": written(&p, at, i, it), "read": reading(&v, &st, i, it), "again": written(&p2, at, i, it)}))
        .collect();
    json!({ "items": out })
}
