//! C10 (escaping everywhere), C11 (styles and formats), C15 (parts of the workbook): round trips.
use crate::core::{Ctx, Rng};
use crate::gen::*;
use crate::io::*;
use crate::{ck, ckeq};
use chrono::Duration;
use spreadsheet_ods::condition::{Condition, ValueCondition};
use spreadsheet_ods::format::*;
use spreadsheet_ods::manifest::Manifest;
use spreadsheet_ods::metadata::*;
use spreadsheet_ods::style::stylemap::StyleMap;
use spreadsheet_ods::style::tabstop::TabStop;
use spreadsheet_ods::style::units::MasterPageUsage;
use spreadsheet_ods::style::*;
use spreadsheet_ods::text::{TextH, TextP, TextTag};
use spreadsheet_ods::validation::*;
use spreadsheet_ods::workbook::{EventListener, Script};
use spreadsheet_ods::xlink::*;
use spreadsheet_ods::xmltree::{XmlContent, XmlTag};
use spreadsheet_ods::*;
use std::collections::BTreeMap;

const KEYS: [&str; 14] = [
    "fo:color", "fo:font-size", "style:x-a", "draw:fill", "svg:stroke-width", "text:n", "table:align", "fo:margin-top", "style:rotation-angle",
    "loext:theme", "number:language", "fo:padding", "style:parent-x", "x:y",
];
type Attrs = Vec<(String, String)>;
fn attrs(r: &mut Rng) -> Attrs {
    let n = r.below(5);
    let mut m = BTreeMap::new();
    for _ in 0..n { m.insert(r.pick(&KEYS).to_string(), text_any(r)); }
    // in random order.
    let mut v: Attrs = m.into_iter().collect();
    if r.bool() { v.reverse(); }
    v
}
macro_rules! amap {
    ($m:expr) => { $m.iter().map(|(k, v)| (k.to_string(), v.to_string())).filter(|(k, _)| k != "style:family").collect::<BTreeMap<String, String>>() };
}
macro_rules! set_all {
    ($m:expr, $a:expr) => { for (k, v) in $a { $m.set_attr(k, v.as_str()); } };
}
fn want(a: &Attrs) -> BTreeMap<String, String> { a.iter().cloned().collect() }

#[derive(Clone, Debug)]
struct GStyle { kind: u8, name: String, origin: StyleOrigin, suse: StyleUse, attr: Attrs, p: [Attrs; 3], maps: Vec<(String, String, Option<(u32, u32)>)>, tabs: Vec<Attrs> }
#[derive(Clone, Debug)]
struct GFormat { kind: u8, name: String, origin: StyleOrigin, suse: StyleUse, attr: Attrs, text: Attrs, parts: Vec<(FormatPartType, Attrs, Option<String>, Option<i32>)>, maps: Vec<(f64, String)> }
#[derive(Clone, Debug)]
struct GPage { name: String, usage: u8, attr: Attrs, head: Attrs, foot: Attrs }
#[derive(Clone, Debug)]
struct GHf { display: bool, left: Vec<TextTag>, center: Vec<TextTag>, right: Vec<TextTag>, content: Vec<TextTag> }
#[derive(Clone, Debug)]
struct GMaster { name: String, display: String, page: Option<String>, next: Option<String>, hf: Vec<Option<GHf>> }
#[derive(Clone, Debug)]
struct GFont { name: String, origin: StyleOrigin, attr: Attrs }

fn place(r: &mut Rng) -> (StyleOrigin, StyleUse) {
    match r.below(5) { 0 | 1 => (StyleOrigin::Content, StyleUse::Automatic), 4 => (StyleOrigin::Content, StyleUse::Named), 2 => (StyleOrigin::Styles, StyleUse::Named), _ => (StyleOrigin::Styles, StyleUse::Automatic) }
}
fn uniq(seen: &mut Vec<String>, n: String) -> String {
    let n = if n.is_empty() || seen.contains(&n) { format!("{}#{}", n, seen.len()) } else { n };
    seen.push(n.clone());
    n
}
fn styles(r: &mut Rng) -> Vec<GStyle> {
    let mut seen = vec![];
    let mut default_of = vec![];
    (0..r.below(7)).map(|_| {
        let (mut origin, mut suse) = place(r);
        let kind = r.below(8) as u8;
        // one default style for a family.
        if r.chance(1, 6) && !default_of.contains(&kind) {
            default_of.push(kind);
            (origin, suse) = (StyleOrigin::Styles, StyleUse::Default);
        }
        // also names as they are generated.
        let n = if r.chance(1, 4) { format!("{}{}", ["ta", "ro", "co", "ce", "para", "txt", "ruby", "gr"][kind as usize], r.below(2)) } else { ident(r) };
        GStyle {
            kind, name: uniq(&mut seen, n), origin, suse, tabs: (0..if r.chance(1, 3) { r.below(3) } else { 0 }).map(|_| attrs(r)).collect(), attr: attrs(r), p: [attrs(r), attrs(r), attrs(r)],
            maps: (0..if r.chance(1, 3) { 1 + r.below(3) } else { 0 }).map(|_| (text_line(r), ident(r), r.bool().then(|| (r.u32(50), r.u32(50))))).collect(),
        }
    }).collect()
}
const PART: [FormatPartType; 19] = [
    FormatPartType::Number, FormatPartType::FillCharacter, FormatPartType::ScientificNumber, FormatPartType::Fraction, FormatPartType::CurrencySymbol, FormatPartType::Day,
    FormatPartType::Month, FormatPartType::Year, FormatPartType::Era, FormatPartType::DayOfWeek, FormatPartType::WeekOfYear, FormatPartType::Quarter, FormatPartType::Hours,
    FormatPartType::Minutes, FormatPartType::Seconds, FormatPartType::AmPm, FormatPartType::Boolean, FormatPartType::Text, FormatPartType::TextContent,
];
fn formats(r: &mut Rng) -> Vec<GFormat> {
    let mut seen = vec![];
    (0..r.below(6)).map(|_| {
        let (origin, suse) = place(r);
        GFormat {
            kind: r.below(7) as u8, name: uniq(&mut seen, ident(r)), origin, suse, attr: attrs(r), text: attrs(r),
            parts: (0..r.below(6)).map(|_| {
                let t = *r.pick(&PART);
                let (c, p) = match t {
                    FormatPartType::Text | FormatPartType::CurrencySymbol | FormatPartType::FillCharacter => (r.chance(4, 5).then(|| text_any(r)), None),
                    FormatPartType::Number if r.chance(1, 2) => (r.chance(3, 4).then(|| text_any(r)), Some(r.range(-3, 9) as i32)),
                    _ => (None, None),
                };
                (t, attrs(r), c, p)
            }).collect(),
            maps: (0..if r.chance(1, 3) { 1 + r.below(3) } else { 0 }).map(|_| (number(r), ident(r))).collect(),
        }
    }).collect()
}
fn tags(r: &mut Rng) -> Vec<TextTag> { (0..r.below(3)).map(|_| text_tag(r)).collect() }
/// paragraphs and headings: also empty ones, and ones with nothing but a style
fn paras(r: &mut Rng) -> Vec<TextTag> {
    (0..r.below(4)).map(|_| match r.below(5) {
        0 => TextP::new().into(),
        1 => TextP::new().style_name(&ParagraphStyleRef::from(ident(r).as_str())).text(text_line(r)).into(),
        2 => TextH::new().style_name(&ParagraphStyleRef::from(ident(r).as_str())).text(text_line(r)).into(),
        3 => TextP::new().text(text_line(r)).into(),
        _ => text_tag(r),
    }).collect()
}
fn hf(r: &mut Rng) -> GHf {
    let reg = r.bool();
    GHf { display: r.chance(3, 4), left: if reg { tags(r) } else { vec![] }, center: if reg { tags(r) } else { vec![] }, right: if reg { tags(r) } else { vec![] }, content: if reg { vec![] } else { paras(r) } }
}
fn pages(r: &mut Rng) -> Vec<GPage> {
    let mut seen = vec![];
    (0..r.below(3)).map(|_| GPage { name: uniq(&mut seen, ident(r)), usage: r.below(5) as u8, attr: attrs(r), head: attrs(r), foot: attrs(r) }).collect()
}
fn masters(r: &mut Rng) -> Vec<GMaster> {
    let mut seen = vec![];
    (0..r.below(3)).map(|_| GMaster {
        name: uniq(&mut seen, ident(r)), display: if r.bool() { text_any(r) } else { String::new() }, page: r.bool().then(|| ident(r)), next: r.bool().then(|| ident(r)),
        hf: (0..6).map(|_| r.chance(1, 3).then(|| hf(r))).collect(),
    }).collect()
}
fn fonts(r: &mut Rng) -> Vec<GFont> {
    let mut seen = vec![];
    (0..r.below(5)).map(|_| GFont { name: uniq(&mut seen, ident(r)), origin: if r.bool() { StyleOrigin::Content } else { StyleOrigin::Styles }, attr: attrs(r) }).collect()
}
// ------------------------------------------------------------ put into a workbook
fn add_style(b: &mut WorkBook, g: &GStyle) {
    macro_rules! base { ($s:ident) => { $s.set_origin(g.origin); $s.set_styleuse(g.suse); set_all!($s.attrmap_mut(), &g.attr); } }
    macro_rules! maps { ($s:ident) => { for (c, n, base) in &g.maps { $s.push_stylemap(StyleMap::new(Condition::content_eq(c.as_str()), AnyStyleRef::from(n.as_str()), base.map(|v| CellRef::remote("T", v.0, v.1)))); } } }
    let n = g.name.as_str();
    match g.kind {
        0 => { let mut s = TableStyle::new(n); base!(s); set_all!(s.tablestyle_mut(), &g.p[0]); b.add_tablestyle(s); }
        1 => { let mut s = RowStyle::new(n); base!(s); set_all!(s.rowstyle_mut(), &g.p[0]); b.add_rowstyle(s); }
        2 => { let mut s = ColStyle::new(n); base!(s); set_all!(s.colstyle_mut(), &g.p[0]); b.add_colstyle(s); }
        3 => { let mut s = CellStyle::new_empty(); s.set_name(n); base!(s); set_all!(s.cellstyle_mut(), &g.p[0]); set_all!(s.paragraphstyle_mut(), &g.p[1]); set_all!(s.textstyle_mut(), &g.p[2]); maps!(s); b.add_cellstyle(s); }
        4 => { let mut s = ParagraphStyle::new(n); base!(s); set_all!(s.paragraphstyle_mut(), &g.p[0]); set_all!(s.textstyle_mut(), &g.p[2]); for t in &g.tabs { let mut ts = TabStop::new(); set_all!(ts.attrmap_mut(), t); s.add_tabstop(ts); } b.add_paragraphstyle(s); }
        5 => { let mut s = TextStyle::new(n); base!(s); set_all!(s.textstyle_mut(), &g.p[0]); b.add_textstyle(s); }
        6 => { let mut s = RubyStyle::new(n); base!(s); set_all!(s.rubystyle_mut(), &g.p[0]); b.add_rubystyle(s); }
        _ => { let mut s = GraphicStyle::new(n); base!(s); set_all!(s.graphicstyle_mut(), &g.p[0]); set_all!(s.paragraphstyle_mut(), &g.p[1]); set_all!(s.textstyle_mut(), &g.p[2]); b.add_graphicstyle(s); }
    }
}
fn cmp_style(b: &WorkBook, g: &GStyle, f: Fmt) -> Result<(), String> {
    let w = format!("style {:?} of kind {}", g.name, g.kind);
    macro_rules! base { ($s:expr) => { match $s { Some(s) => {
        // a default style has no name in the file.
        if g.suse != StyleUse::Default { ckeq!(s.name(), g.name, "{}: name", w); }
        ckeq!(s.styleuse(), g.suse, "{}: use", w);
        if f != Fmt::Fods { ckeq!(s.origin(), if g.suse == StyleUse::Automatic { g.origin } else { StyleOrigin::Styles }, "{}: origin", w); }
        ckeq!(amap!(s.attrmap()), want(&g.attr), "{}: attributes", w); s }, None => return Err(format!("{} is lost", w)) } } }
    macro_rules! p { ($s:ident, $m:ident, $i:expr) => { ckeq!(amap!($s.$m()), want(&g.p[$i]), "{}: {}", w, stringify!($m)); } }
    macro_rules! maps { ($s:ident) => { ckeq!($s.stylemaps().map(|v| v.iter().map(|m| (m.condition().to_string(), m.applied_style().as_str().to_string(), m.base_cell().cloned())).collect::<Vec<_>>()).unwrap_or_default(),
        g.maps.iter().map(|(c, n, base)| (Condition::content_eq(c.as_str()).to_string(), n.clone(), base.map(|v| CellRef::remote("T", v.0, v.1)))).collect::<Vec<_>>(), "{}: maps", w); } }
    let n = g.name.as_str();
    macro_rules! find { ($m:ident, $it:ident) => { if g.suse == StyleUse::Default { let mut v = b.$it().filter(|s| s.styleuse() == StyleUse::Default); let s = v.next(); ck!(v.next().is_none(), "{}: more than one default style", w); s } else { b.$m(n) } } }
    match g.kind {
        0 => { let s = base!(find!(tablestyle, iter_table_styles)); p!(s, tablestyle, 0); }
        1 => { let s = base!(find!(rowstyle, iter_rowstyles)); p!(s, rowstyle, 0); }
        2 => { let s = base!(find!(colstyle, iter_colstyles)); p!(s, colstyle, 0); }
        3 => { let s = base!(find!(cellstyle, iter_cellstyles)); p!(s, cellstyle, 0); p!(s, paragraphstyle, 1); p!(s, textstyle, 2); maps!(s); }
        4 => { let s = base!(find!(paragraphstyle, iter_paragraphstyles)); p!(s, paragraphstyle, 0); p!(s, textstyle, 2); ckeq!(s.tabstops().map(|v| v.iter().map(|t| amap!(t.attrmap())).collect::<Vec<_>>()).unwrap_or_default(), g.tabs.iter().map(want).collect::<Vec<_>>(), "{}: tab stops", w); }
        5 => { let s = base!(find!(textstyle, iter_textstyles)); p!(s, textstyle, 0); }
        6 => { let s = base!(find!(rubystyle, iter_rubystyles)); p!(s, rubystyle, 0); }
        _ => { let s = base!(find!(graphicstyle, iter_graphicstyles)); p!(s, graphicstyle, 0); p!(s, paragraphstyle, 1); p!(s, textstyle, 2); }
    }
    Ok(())
}
fn fill_format<T: ValueFormatTrait>(mut s: T, g: &GFormat) -> T {
    s.set_name(g.name.as_str());
    s.set_origin(g.origin);
    s.set_styleuse(g.suse);
    set_all!(s.attrmap_mut(), &g.attr);
    set_all!(s.textstyle_mut(), &g.text);
    for (t, a, c, p) in &g.parts {
        let mut x = FormatPart::new(*t);
        for (k, v) in a { x.set_attr(k, v.clone()); }
        if let Some(c) = c { x.set_content(c.as_str()); }
        if let Some(p) = p { x.set_position(*p); }
        s.push_part(x);
    }
    for (v, n) in &g.maps { s.push_stylemap(ValueStyleMap::new(ValueCondition::value_eq(*v), n)); }
    s
}
fn add_format(b: &mut WorkBook, g: &GFormat) {
    match g.kind {
        0 => { b.add_boolean_format(fill_format(ValueFormatBoolean::new_empty(), g)); }
        1 => { b.add_number_format(fill_format(ValueFormatNumber::new_empty(), g)); }
        2 => { b.add_percentage_format(fill_format(ValueFormatPercentage::new_empty(), g)); }
        3 => { b.add_currency_format(fill_format(ValueFormatCurrency::new_empty(), g)); }
        4 => { b.add_text_format(fill_format(ValueFormatText::new_empty(), g)); }
        5 => { b.add_datetime_format(fill_format(ValueFormatDateTime::new_empty(), g)); }
        _ => { b.add_timeduration_format(fill_format(ValueFormatTimeDuration::new_empty(), g)); }
    }
}
fn part_attrs(p: &FormatPart) -> BTreeMap<String, String> { KEYS.iter().filter_map(|k| { let v = p.attr_def(k, "\u{1}none"); (v != "\u{1}none").then(|| (k.to_string(), v.to_string())) }).collect() }
fn cmp_format<T: ValueFormatTrait>(s: Option<&T>, g: &GFormat, f: Fmt) -> Result<(), String> {
    let w = format!("format {:?} of kind {}", g.name, g.kind);
    let s = match s { Some(s) => s, None => return Err(format!("{} is lost", w)) };
    ckeq!(s.name(), &g.name, "{}: name", w);
    ckeq!(s.styleuse(), g.suse, "{}: use", w);
    if f != Fmt::Fods { ckeq!(s.origin(), if g.suse == StyleUse::Automatic { g.origin } else { StyleOrigin::Styles }, "{}: origin", w); }
    ckeq!(amap!(s.attrmap()), want(&g.attr), "{}: attributes", w);
    ckeq!(amap!(s.textstyle()), want(&g.text), "{}: text style", w);
    ckeq!(s.parts().len(), g.parts.len(), "{}: number of parts", w);
    for (i, (p, q)) in s.parts().iter().zip(&g.parts).enumerate() {
        ckeq!(p.part_type(), q.0, "{}: part {}", w, i);
        ckeq!(part_attrs(p), want(&q.1), "{}: attributes of part {}", w, i);
        ckeq!(p.content().cloned().unwrap_or_default(), q.2.clone().unwrap_or_default(), "{}: content of part {}", w, i);
        ckeq!(p.position(), q.3, "{}: position of part {}", w, i);
    }
    ckeq!(s.stylemaps().map(|v| v.iter().map(|m| (m.condition().to_string(), m.applied_style().clone())).collect::<Vec<_>>()).unwrap_or_default(),
        g.maps.iter().map(|(v, n)| (ValueCondition::value_eq(*v).to_string(), n.clone())).collect::<Vec<_>>(), "{}: maps", w);
    Ok(())
}
fn cmp_format_in(b: &WorkBook, g: &GFormat, f: Fmt) -> Result<(), String> {
    let n = g.name.as_str();
    match g.kind {
        0 => cmp_format(b.boolean_format(n), g, f), 1 => cmp_format(b.number_format(n), g, f), 2 => cmp_format(b.percentage_format(n), g, f), 3 => cmp_format(b.currency_format(n), g, f),
        4 => cmp_format(b.text_format(n), g, f), 5 => cmp_format(b.datetime_format(n), g, f), _ => cmp_format(b.timeduration_format(n), g, f),
    }
}
fn usage(n: u8) -> Option<MasterPageUsage> { match n { 0 => Some(MasterPageUsage::All), 1 => Some(MasterPageUsage::Left), 2 => Some(MasterPageUsage::Mirrored), 3 => Some(MasterPageUsage::Right), _ => None } }
fn mk_hf(g: &GHf) -> HeaderFooter {
    let mut h = HeaderFooter::new();
    h.set_display(g.display); h.set_left(g.left.clone()); h.set_center(g.center.clone()); h.set_right(g.right.clone()); h.set_content(g.content.clone());
    h
}
fn fp_tag(t: &XmlTag) -> String { format!("{:?}", norm_tag(t)) }
fn fp_tags(t: &[XmlTag]) -> Vec<String> { t.iter().map(fp_tag).collect() }
fn cmp_hf(h: &HeaderFooter, g: Option<&GHf>, w: &str) -> Result<(), String> {
    match g {
        None => { ck!(h.is_empty(), "{} is not empty", w); }
        Some(g) => {
            let empty = g.left.is_empty() && g.center.is_empty() && g.right.is_empty() && g.content.is_empty();
            if !empty { ckeq!(h.display(), g.display, "{}: display", w); }
            ckeq!(fp_tags(h.left()), fp_tags(&g.left), "{}: left", w);
            ckeq!(fp_tags(h.center()), fp_tags(&g.center), "{}: center", w);
            ckeq!(fp_tags(h.right()), fp_tags(&g.right), "{}: right", w);
            ckeq!(fp_tags(h.content()), fp_tags(&g.content), "{}: content", w);
        }
    }
    Ok(())
}
fn add_page(b: &mut WorkBook, g: &GPage) {
    let mut s = PageStyle::new(g.name.as_str());
    if let Some(u) = usage(g.usage) { s.set_page_usage(u); }
    set_all!(s.style_mut(), &g.attr); set_all!(s.headerstyle_mut().style_mut(), &g.head); set_all!(s.footerstyle_mut().style_mut(), &g.foot);
    b.add_pagestyle(s);
}
fn cmp_page(b: &WorkBook, g: &GPage) -> Result<(), String> {
    let s = b.pagestyle(&g.name).ok_or(format!("page style {:?} is lost", g.name))?;
    ckeq!(s.name(), g.name, "page style name");
    ckeq!(s.page_usage().map_err(|e| format!("{:?}", e))?, usage(g.usage), "page usage of {:?}", g.name);
    ckeq!(amap!(s.style()), want(&g.attr), "page style {:?}", g.name);
    ckeq!(amap!(s.headerstyle().style()), want(&g.head), "header style of {:?}", g.name);
    ckeq!(amap!(s.footerstyle().style()), want(&g.foot), "footer style of {:?}", g.name);
    Ok(())
}
fn add_master(b: &mut WorkBook, g: &GMaster) {
    let mut s = MasterPage::new(g.name.as_str());
    s.set_display_name(g.display.clone());
    if let Some(p) = &g.page { s.set_pagestyle(&PageStyleRef::from(p.as_str())); }
    if let Some(p) = &g.next { s.set_next_masterpage(&MasterPageRef::from(p.as_str())); }
    for (i, h) in g.hf.iter().enumerate() {
        if let Some(h) = h { let h = mk_hf(h); match i { 0 => s.set_header(h), 1 => s.set_header_first(h), 2 => s.set_header_left(h), 3 => s.set_footer(h), 4 => s.set_footer_first(h), _ => s.set_footer_left(h) } }
    }
    b.add_masterpage(s);
}
fn cmp_master(b: &WorkBook, g: &GMaster) -> Result<(), String> {
    let s = b.masterpage(&g.name).ok_or(format!("master page {:?} is lost", g.name))?;
    ckeq!(s.name(), &g.name, "master page name");
    ckeq!(s.display_name(), &g.display, "display name of {:?}", g.name);
    ckeq!(s.pagestyle().map(|v| v.as_str().to_string()), g.page, "page style of {:?}", g.name);
    ckeq!(s.next_masterpage().map(|v| v.as_str().to_string()), g.next, "next of {:?}", g.name);
    for (i, h) in g.hf.iter().enumerate() {
        let x = match i { 0 => s.header(), 1 => s.header_first(), 2 => s.header_left(), 3 => s.footer(), 4 => s.footer_first(), _ => s.footer_left() };
        cmp_hf(x, h.as_ref(), &format!("header/footer {} of {:?}", i, g.name))?;
    }
    Ok(())
}
// Elements without content, as other programs write them: each style is read with exactly its own
// attributes and takes nothing from its neighbours.
fn empty_elements(ctx: &mut Ctx) {
    const FMT: [&str; 7] = ["boolean", "date", "time", "number", "currency", "percentage", "text"];
    ctx.section("style elements with and without content");
    let mut rng = ctx.rng("c11 empty");
    for _ in 0..ctx.n(400, 4000) {
        if !ctx.time_left() { break; }
        {
            let r = &mut rng;
            let mut st = String::new(); let mut au = String::new(); let mut ma = String::new();
            let mut forms: Vec<(usize, String, bool)> = vec![]; let mut pages: Vec<(String, Option<Option<String>>, Option<Option<String>>, bool)> = vec![]; let mut masters: Vec<(String, String, bool)> = vec![]; let mut cells: Vec<(String, bool)> = vec![];
            for i in 0..r.below(5) {
                let k = r.below(7) as usize; let name = format!("N{}", i); let full = r.bool();
                let x = if full { format!("<number:{0}-style style:name=\"{1}\" number:title=\"t{1}\"><style:text-properties fo:color=\"#000000\"/></number:{0}-style>", FMT[k], name) } else { format!("<number:{0}-style style:name=\"{1}\" number:title=\"t{1}\"/>", FMT[k], name) };
                if r.bool() { st.push_str(&x) } else { au.push_str(&x) }
                forms.push((k, name, full));
            }
            for i in 0..r.below(4) {
                let name = format!("ce{}", i); let full = r.bool();
                let x = if full { format!("<style:style style:name=\"{}\" style:family=\"table-cell\"><style:text-properties fo:color=\"#000000\"/></style:style>", name) } else { format!("<style:style style:name=\"{}\" style:family=\"table-cell\"/>", name) };
                if r.bool() { st.push_str(&x) } else { au.push_str(&x) }
                cells.push((name, full));
            }
            for i in 0..r.below(4) {
                let name = format!("pm{}", i);
                if r.chance(1, 4) { au.push_str(&format!("<style:page-layout style:name=\"{}\"/>", name)); pages.push((name, None, None, false)); continue; }
                let part = |r: &mut Rng, t: &str| match r.below(3) {
                    0 => (String::new(), None),
                    1 => (format!("<style:{}-style/>", t), Some(None)),
                    _ => { let h = format!("{}cm", r.below(90)); (format!("<style:{0}-style><style:header-footer-properties fo:min-height=\"{1}\"/></style:{0}-style>", t, h), Some(Some(h))) }
                };
                let (hx, h) = part(r, "header"); let (fx, f) = part(r, "footer");
                au.push_str(&format!("<style:page-layout style:name=\"{}\"><style:page-layout-properties fo:margin=\"1cm\"/>{}{}</style:page-layout>", name, hx, fx));
                pages.push((name, h, f, true));
            }
            for i in 0..r.below(4) {
                let name = format!("mp{}", i); let full = r.bool();
                ma.push_str(&if full { format!("<style:master-page style:name=\"{0}\" style:page-layout-name=\"pl{0}\"><style:header><text:p>{0}</text:p></style:header><style:footer/></style:master-page>", name) } else { format!("<style:master-page style:name=\"{0}\" style:page-layout-name=\"pl{0}\"/>", name) });
                masters.push((name.clone(), format!("pl{}", name), full));
            }
            let doc = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?><office:document xmlns:office=\"urn:oasis:names:tc:opendocument:xmlns:office:1.0\" xmlns:style=\"urn:oasis:names:tc:opendocument:xmlns:style:1.0\" xmlns:number=\"urn:oasis:names:tc:opendocument:xmlns:datastyle:1.0\" xmlns:fo=\"urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0\" xmlns:text=\"urn:oasis:names:tc:opendocument:xmlns:text:1.0\" xmlns:table=\"urn:oasis:names:tc:opendocument:xmlns:table:1.0\" office:version=\"1.3\" office:mimetype=\"application/vnd.oasis.opendocument.spreadsheet\"><office:styles>{}</office:styles><office:automatic-styles>{}</office:automatic-styles><office:master-styles>{}</office:master-styles><office:body><office:spreadsheet><table:table table:name=\"S\"><table:table-row><table:table-cell/></table:table-row></table:table></office:spreadsheet></office:body></office:document>", st, au, ma);
            ctx.case("elements", doc.clone(), || {
                let b = read_fods_buf(doc.as_bytes()).map_err(|e| format!("{:?}", e))?;
                ckeq!(b.num_sheets(), 1, "number of sheets");
                for (k, n, full) in &forms {
                    macro_rules! ckf { ($f:expr) => {{ let f = $f.ok_or(format!("format {} is lost", n))?; ckeq!(f.textstyle().attr("fo:color").is_some(), *full, "text style of {}", n); ckeq!(f.attrmap().attr("number:title").map(|v| v.to_string()), Some(format!("t{}", n)), "title of {}", n); }}; }
                    match k { 0 => ckf!(b.boolean_format(n)), 1 => ckf!(b.datetime_format(n)), 2 => ckf!(b.timeduration_format(n)), 3 => ckf!(b.number_format(n)), 4 => ckf!(b.currency_format(n)), 5 => ckf!(b.percentage_format(n)), _ => ckf!(b.text_format(n)) }
                }
                for (n, full) in &cells { let s = b.cellstyle(n).ok_or(format!("style {} is lost", n))?; ckeq!(s.textstyle().attr("fo:color").is_some(), *full, "text style of {}", n); }
                for (n, h, f, full) in &pages {
                    let s = b.pagestyle(n).ok_or(format!("page style {} is lost", n))?;
                    ckeq!(s.style().attr("fo:margin").is_some(), *full, "margin of {}", n);
                    ckeq!(s.headerstyle().style().attr("fo:min-height").map(|v| v.to_string()), h.clone().flatten(), "header of {}", n);
                    ckeq!(s.footerstyle().style().attr("fo:min-height").map(|v| v.to_string()), f.clone().flatten(), "footer of {}", n);
                }
                for (n, p, full) in &masters {
                    let s = b.masterpage(n).ok_or(format!("master page {} is lost", n))?;
                    ckeq!(s.pagestyle().map(|v| v.as_str().to_string()), Some(p.clone()), "page style of {}", n);
                    ckeq!(s.header().content().len(), *full as usize, "header of {}", n);
                }
                Ok(())
            });
        }
    }
}
fn add_font(b: &mut WorkBook, g: &GFont) {
    let mut s = FontFaceDecl::new(g.name.as_str());
    s.set_origin(g.origin);
    set_all!(s.attrmap_mut(), &g.attr);
    b.add_font(s);
}
fn cmp_font(b: &WorkBook, g: &GFont, f: Fmt) -> Result<(), String> {
    let s = b.font(&g.name).ok_or(format!("font {:?} is lost", g.name))?;
    ckeq!(s.name(), &g.name, "font name");
    if f != Fmt::Fods { ckeq!(s.origin(), g.origin, "origin of font {:?}", g.name); }
    ckeq!(amap!(s.attrmap()), want(&g.attr), "font {:?}", g.name);
    Ok(())
}
fn base_book() -> WorkBook {
    let mut b = WorkBook::new_empty();
    let mut s = Sheet::new("T");
    s.set_value(0, 0, 1);
    b.push_sheet(s);
    b
}

pub fn c11(ctx: &mut Ctx) {
    crate::attrs::c11_setters(ctx);
    crate::fmt::setters(ctx);
    empty_elements(ctx);
    ctx.section("styles, formats, pages and fonts through the file");
    let mut r = ctx.rng("c11");
    let count = |b: &WorkBook| b.iter_table_styles().count() + b.iter_rowstyles().count() + b.iter_colstyles().count() + b.iter_cellstyles().count() + b.iter_paragraphstyles().count() + b.iter_textstyles().count() + b.iter_rubystyles().count() + b.iter_graphicstyles().count();
    let base_styles = (|| -> Result<usize, String> { let mut b = base_book(); Ok(count(&read(&write(&mut b, Fmt::Ods)?, Fmt::Ods)?)) })().unwrap_or(0);
    for _ in 0..ctx.n(2500, 60_000) {
        if !ctx.time_left() { break; }
        let (st, fm, pg, ms, fo) = (styles(&mut r), formats(&mut r), pages(&mut r), masters(&mut r), fonts(&mut r));
        let fs = [fmt(&mut r), fmt(&mut r)];
        ctx.case("styles", format!("{:?} {:?} {:?} {:?} {:?} {:?}", fs, st, fm, pg, ms, fo), || {
            let mut b = base_book();
            for g in &st { add_style(&mut b, g); }
            for g in &fm { add_format(&mut b, g); }
            for g in &pg { add_page(&mut b, g); }
            for g in &ms { add_master(&mut b, g); }
            for g in &fo { add_font(&mut b, g); }
            let mut gen = b;
            let mut f = Fmt::Ods;
            for k in 0..2 {
                let buf = write(&mut gen, fs[k])?;
                all_well_formed(&buf, fs[k])?;
                let b2 = read(&buf, fs[k])?;
                // a flat file has no parts: the origin is not kept from there on.
                if fs[k] == Fmt::Fods { f = Fmt::Fods; }
                let e = |e: String| format!("generation {}: {}", k + 1, e);
                for g in &st { cmp_style(&b2, g, f).map_err(e)?; }
                for g in &fm { cmp_format_in(&b2, g, f).map_err(e)?; }
                for g in &pg { cmp_page(&b2, g).map_err(e)?; }
                for g in &ms { cmp_master(&b2, g).map_err(e)?; }
                for g in &fo { cmp_font(&b2, g, f).map_err(e)?; }
                let n = count(&b2);
                ckeq!(n, st.len() + base_styles, "generation {}: number of styles", k + 1);
                ckeq!(b2.iter_pagestyles().count(), pg.len(), "number of page styles");
                ckeq!(b2.iter_masterpages().count(), ms.len(), "number of master pages");
                ckeq!(b2.iter_fonts().count(), fo.len(), "number of fonts");
                gen = b2;
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------------------- C15
fn opt_text(r: &mut Rng) -> String { if r.chance(1, 3) { String::new() } else { text_lines(r) } }
fn show(n: u8) -> Option<XLinkShow> { match n { 0 => Some(XLinkShow::New), 1 => Some(XLinkShow::Replace), _ => None } }
fn actuate(n: u8) -> Option<XLinkActuate> { match n { 0 => Some(XLinkActuate::OnLoad), 1 => Some(XLinkActuate::OnRequest), _ => None } }
fn ltype(n: u8) -> Option<XLinkType> {
    Some(match n { 0 => XLinkType::Simple, 1 => XLinkType::Extended, 2 => XLinkType::Locator, 3 => XLinkType::Arc, 4 => XLinkType::Resource, 5 => XLinkType::Title, 6 => XLinkType::None, _ => return None })
}
fn metadata(r: &mut Rng) -> Metadata {
    let mut m = Metadata::default();
    m.title = opt_text(r); m.description = opt_text(r); m.subject = opt_text(r); m.keyword = opt_text(r); m.initial_creator = opt_text(r);
    m.creator = opt_text(r); m.printed_by = opt_text(r); m.language = opt_text(r);
    m.creation_date = r.bool().then(|| datetime(r)); m.date = r.bool().then(|| datetime(r)); m.print_date = r.bool().then(|| datetime(r));
    m.editing_cycles = if r.bool() { 0 } else { r.u32(100_000) };
    m.editing_duration = if r.bool() { Duration::zero() } else { Duration::seconds(1 + r.below(10_000_000) as i64) };
    if r.bool() { m.template = MetaTemplate { date: r.bool().then(|| datetime(r)), actuate: actuate(r.below(3) as u8), href: r.bool().then(|| text_line(r)), title: r.bool().then(|| text_any(r)), link_type: ltype(r.below(8) as u8) }; }
    if r.bool() { m.auto_reload = MetaAutoReload { delay: r.bool().then(|| Duration::seconds(r.below(100_000) as i64)), actuate: actuate(r.below(3) as u8), href: r.bool().then(|| text_line(r)), show: show(r.below(3) as u8), link_type: ltype(r.below(8) as u8) }; }
    if r.bool() { m.hyperlink_behaviour = MetaHyperlinkBehaviour { target_frame_name: r.bool().then(|| text_any(r)), show: show(r.below(3) as u8) }; }
    m.document_statistics.object_count = r.u32(10);
    m.document_statistics.ole_object_count = r.u32(10);
    for _ in 0..r.below(4) {
        m.user_defined.push(MetaUserDefined { name: text_any(r), value: match r.below(5) {
            0 => MetaValue::Boolean(r.bool()), 1 => MetaValue::Datetime(datetime(r)), 2 => MetaValue::Float(number(r)), 3 => MetaValue::TimeDuration(Duration::seconds(r.below(1_000_000) as i64)), _ => MetaValue::String(text_any(r)) } });
    }
    m
}
fn fp_meta(m: &Metadata, cells: u32, tables: u32) -> Vec<String> {
    let mut m = m.clone();
    m.generator = String::new();
    m.document_statistics.cell_count = cells;
    m.document_statistics.table_count = tables;
    format!("{:#?}", m).lines().map(|v| v.to_string()).collect()
}
#[derive(Clone, Debug)]
struct GValid { name: String, cond: u8, txt: String, base: (u32, u32), empty: bool, disp: u8, err: Option<(bool, u8, Option<String>, Option<TextTag>)>, help: Option<(bool, Option<String>, Option<TextTag>)> }
fn vcond(g: &GValid) -> Condition {
    let t = g.txt.as_str();
    match g.cond {
        0 => Condition::content_eq(t), 1 => Condition::content_text_length_is_between(1, 9), 2 => Condition::content_is_in_list(&[t, "b"]), 3 => Condition::content_is_decimal_number_and(Condition::content_lt(3)),
        4 => Condition::is_true_formula(format!("A1={}", t)), _ => Condition::content_ne(5),
    }
}
fn vdisp(n: u8) -> ValidationDisplay { match n { 0 => ValidationDisplay::NoDisplay, 1 => ValidationDisplay::Unsorted, _ => ValidationDisplay::SortAscending } }
fn vmsg(n: u8) -> MessageType { match n { 0 => MessageType::Error, 1 => MessageType::Warning, _ => MessageType::Info } }
fn valids(r: &mut Rng) -> Vec<GValid> {
    let mut seen = vec![];
    (0..r.below(4)).map(|_| GValid {
        name: uniq(&mut seen, ident(r)), cond: r.below(6) as u8, txt: text_line(r), base: (r.u32(100), r.u32(100)), empty: r.bool(), disp: r.below(3) as u8,
        err: r.chance(1, 2).then(|| (r.bool(), r.below(3) as u8, r.bool().then(|| text_any(r)), r.bool().then(|| text_tag(r)))),
        help: r.chance(1, 2).then(|| (r.bool(), r.bool().then(|| text_any(r)), r.bool().then(|| text_tag(r)))),
    }).collect()
}
fn add_valid(b: &mut WorkBook, g: &GValid) {
    let mut v = Validation::new();
    v.set_name(&g.name);
    v.set_condition(vcond(g));
    v.set_base_cell(CellRef::remote("T", g.base.0, g.base.1));
    v.set_allow_empty(g.empty);
    v.set_display(vdisp(g.disp));
    v.set_err(g.err.as_ref().map(|(d, m, t, x)| { let mut e = ValidationError::new(); e.set_display(*d); e.set_msg_type(vmsg(*m)); e.set_title(t.clone()); e.set_text(x.clone()); e }));
    v.set_help(g.help.as_ref().map(|(d, t, x)| { let mut e = ValidationHelp::new(); e.set_display(*d); e.set_title(t.clone()); e.set_text(x.clone()); e }));
    b.add_validation(v);
}
fn cmp_valid(b: &WorkBook, g: &GValid) -> Result<(), String> {
    let w = format!("validation {:?}", g.name);
    let v = b.validation(&g.name).ok_or(format!("{} is lost", w))?;
    ckeq!(v.name(), g.name, "{}: name", w);
    ckeq!(v.condition().to_string(), vcond(g).to_string(), "{}: condition", w);
    ckeq!(*v.base_cell(), CellRef::remote("T", g.base.0, g.base.1), "{}: base cell", w);
    ckeq!(v.allow_empty(), g.empty, "{}: allow empty", w);
    ckeq!(format!("{:?}", v.display()), format!("{:?}", vdisp(g.disp)), "{}: display", w);
    ckeq!(v.err().map(|e| (e.display(), format!("{:?}", e.msg_type()), e.title().map(|v| v.to_string()), e.text().map(fp_tag))),
        g.err.as_ref().map(|(d, m, t, x)| (*d, format!("{:?}", vmsg(*m)), t.clone(), x.as_ref().map(fp_tag))), "{}: error message", w);
    ckeq!(v.help().map(|e| (e.display(), e.title().map(|v| v.to_string()), e.text().map(fp_tag))),
        g.help.as_ref().map(|(d, t, x)| (*d, t.clone(), x.as_ref().map(fp_tag))), "{}: help message", w);
    Ok(())
}
#[derive(Clone, Debug)]
struct GScript { lang: String, content: Vec<(bool, String)> }
fn script_content(g: &GScript) -> Vec<XmlContent> {
    g.content.iter().map(|(tag, t)| if *tag { XmlContent::Tag(XmlTag::new("ooo:module").attr("xlink:href", t.as_str()).text(t.as_str())) } else { XmlContent::Text(t.clone()) }).collect()
}
fn fp_content_list(c: &[XmlContent]) -> String { let mut t = XmlTag::new("x"); *t.content_mut() = c.to_vec(); fp_tag(&t) }
#[derive(Clone, Debug)]
struct GEvent { name: String, lang: String, mac: String, act: u8, href: String, lt: u8 }
fn mk_event(g: &GEvent) -> EventListener {
    let mut e = EventListener::new();
    e.set_event_name(g.name.clone()); e.set_script_lang(g.lang.clone()); e.set_macro_name(g.mac.clone()); e.set_actuate(actuate(g.act).unwrap()); e.set_href(g.href.clone()); e.set_link_type(ltype(g.lt).unwrap());
    e
}
#[derive(Clone, Debug)]
struct GConf { tab: String, grid: bool, brk: bool, tabs: bool, version: String }

pub fn c15(ctx: &mut Ctx) {
    ctx.section("parts of the workbook through the file");
    let mut r = ctx.rng("c15");
    for _ in 0..ctx.n(2500, 60_000) {
        if !ctx.time_left() { break; }
        let meta = metadata(&mut r);
        let va = valids(&mut r);
        let sc: Vec<GScript> = (0..if r.bool() { 0 } else { r.below(3) }).map(|_| GScript { lang: text_any(&mut r), content: (0..r.below(4)).map(|i| ((i % 2 == 0) == r.bool() && i != 1, text_line(&mut r))).collect() }).collect();
        // no two texts in a row: they are one text.
        let sc: Vec<GScript> = sc.into_iter().map(|mut s| { let mut last = false; s.content.retain(|(tag, _)| { let k = *tag || !last; last = !*tag; k }); s }).collect();
        let mut seen = vec![];
        let ev: Vec<GEvent> = (0..if r.bool() { 0 } else { r.below(4) }).map(|_| GEvent { name: uniq(&mut seen, ident(&mut r)), lang: text_any(&mut r), mac: text_any(&mut r), act: r.below(2) as u8, href: text_any(&mut r), lt: r.below(7) as u8 }).collect();
        let conf = GConf { tab: if r.bool() { String::new() } else { text_line(&mut r) }, grid: r.bool(), brk: r.bool(), tabs: r.bool(), version: r.pick(&["1.2", "1.3", "1.1"]).to_string() };
        let mut seen = vec![];
        let files: Vec<(String, String, Vec<u8>)> = (0..r.below(3)).map(|i| (format!("Pictures/{}{}.bin", i, uniq(&mut seen, "p".into()).replace('#', "_")), format!("image/{}", text_line(&mut r)), (0..r.below(40)).map(|_| r.below(256) as u8).collect())).collect();
        let f = fmt(&mut r);
        let more: Vec<u32> = (0..if r.bool() { 0 } else { r.below(4) }).map(|_| r.u32(6)).collect();
        ctx.case("workbook", format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}", f, meta, va, sc, ev, conf, files, more), || {
            let mut b = base_book();
            for (i, n) in more.iter().enumerate() {
                let mut s = Sheet::new(format!("more{}", i));
                for k in 0..*n { s.set_value(k * 3 % 7, k, k); }
                b.push_sheet(s);
            }
            *b.metadata_mut() = meta.clone();
            for g in &va { add_valid(&mut b, g); }
            for g in &sc { let mut s = Script::new(); s.set_script_lang(g.lang.clone()); s.set_script(script_content(g)); b.add_script(s); }
            for g in &ev { b.add_event_listener(mk_event(g)); }
            b.config_mut().active_table = conf.tab.clone(); b.config_mut().show_grid = conf.grid; b.config_mut().show_page_breaks = conf.brk; b.config_mut().has_sheet_tabs = conf.tabs;
            b.set_version(conf.version.clone());
            if f != Fmt::Fods { for (p, t, c) in &files { b.add_manifest(Manifest::with_buf(p.as_str(), t.as_str(), c.clone())); } }
            let mut gen = b;
            for k in 0..2 {
                let buf = write(&mut gen, f)?;
                all_well_formed(&buf, f)?;
                let b2 = read(&buf, f)?;
                let w = format!("generation {}", k + 1);
                for (x, y) in fp_meta(b2.metadata(), 0, 0).iter().zip(fp_meta(&meta, 0, 0).iter()) { ckeq!(x, y, "{}: metadata", w); }
                ckeq!(fp_meta(b2.metadata(), 0, 0).len(), fp_meta(&meta, 0, 0).len(), "{}: metadata", w);
                ckeq!(b2.metadata().document_statistics.cell_count, 1 + more.iter().sum::<u32>(), "{}: cell count", w);
                ckeq!(b2.metadata().document_statistics.table_count, 1 + more.len() as u32, "{}: table count", w);
                for g in &va { cmp_valid(&b2, g).map_err(|e| format!("{}: {}", w, e))?; }
                ckeq!(b2.iter_validations().count(), va.len(), "{}: number of validations", w);
                ckeq!(b2.scripts().iter().map(|s| (s.script_lang().to_string(), fp_content_list(s.script()))).collect::<Vec<_>>(), sc.iter().map(|g| (g.lang.clone(), fp_content_list(&script_content(g)))).collect::<Vec<_>>(), "{}: scripts", w);
                for g in &ev { ckeq!(b2.event_listener(&g.name).map(|e| format!("{:?}", e)), Some(format!("{:?}", mk_event(g))), "{}: event listener {:?}", w, g.name); }
                ckeq!(b2.iter_event_listeners().count(), ev.len(), "{}: number of event listeners", w);
                ckeq!(b2.config().active_table, if conf.tab.is_empty() { "T".to_string() } else { conf.tab.clone() }, "{}: active table", w);
                ckeq!((b2.config().show_grid, b2.config().show_page_breaks, b2.config().has_sheet_tabs), (conf.grid, conf.brk, conf.tabs), "{}: config", w);
                ckeq!(b2.version(), &conf.version, "{}: version", w);
                if f != Fmt::Fods {
                    for (p, t, c) in &files {
                        let m = b2.manifest(p).ok_or(format!("{}: file {:?} is lost", w, p))?;
                        ckeq!(m.media_type, *t, "{}: type of {:?}", w, p);
                        ckeq!(m.buffer.clone().unwrap_or_default(), *c, "{}: content of {:?}", w, p);
                    }
                    ckeq!(b2.iter_manifest().filter(|m| m.full_path.starts_with("Pictures/")).count(), files.len(), "{}: number of files", w);
                }
                gen = b2;
            }
            Ok(())
        });
    }
    let _ = TextP::new;
    passed_through(ctx);
}

const BOOK_PRE: [&str; 8] = ["table:tracked-changes", "text:variable-decls", "text:sequence-decls", "text:user-field-decls", "text:dde-connection-decls", "text:alphabetical-index-auto-mark-file", "table:calculation-settings", "table:label-ranges"];
const BOOK_POST: [&str; 6] = ["table:named-expressions", "table:database-ranges", "table:data-pilot-tables", "table:consolidation", "table:dde-links", "calcext:conditional-formats"];
const SHEET_PRE: [&str; 7] = ["table:title", "table:desc", "table:table-source", "office:dde-source", "table:scenario", "office:forms", "table:shapes"];
const SHEET_POST: [&str; 2] = ["table:named-expressions", "calcext:conditional-formats"];

/// elements marked with vp=".." as (place, element as text), in file order
fn marked(xml: &str) -> Result<Vec<(String, String)>, String> {
    use quick_xml::events::Event;
    let mut rd = quick_xml::Reader::from_str(xml);
    let mut path: Vec<String> = vec![];
    let mut out: Vec<(String, String)> = vec![];
    let (mut tables, mut rows) = (0, 0);
    let mut inside: Option<usize> = None;
    loop {
        let ev = rd.read_event().map_err(|e| e.to_string())?;
        match &ev {
            Event::Start(t) | Event::Empty(t) => {
                let n = String::from_utf8_lossy(t.name().as_ref()).to_string();
                if inside.is_none() && n == "table:table" { tables += 1; rows = 0; }
                if inside.is_none() && n == "table:table-row" { rows = 1; }
                let mut a: Vec<(String, String)> = vec![];
                for x in t.attributes() { let x = x.map_err(|e| e.to_string())?; a.push((String::from_utf8_lossy(x.key.as_ref()).to_string(), x.decode_and_unescape_value(rd.decoder()).map_err(|e| e.to_string())?.to_string())); }
                a.sort();
                if inside.is_none() && a.iter().any(|x| x.0 == "vp") {
                    let p = path.last().cloned().unwrap_or_default();
                    out.push((if p == "table:table" { format!("in table {} after rows {}", tables, rows) } else { format!("in {} after {} tables", p, tables) }, String::new()));
                    inside = Some(path.len());
                }
                if inside.is_some() { if let Some(o) = out.last_mut() { o.1.push_str(&format!("<{} {:?}>", n, a)); if matches!(ev, Event::Empty(_)) { o.1.push_str("</>"); } } }
                if matches!(ev, Event::Start(_)) { path.push(n); } else if inside == Some(path.len()) { inside = None; }
            }
            Event::End(_) => { path.pop(); if inside.is_some() { if let Some(o) = out.last_mut() { o.1.push_str("</>"); } } if inside == Some(path.len()) { inside = None; } }
            Event::Text(t) => { if inside.is_some() { if let Some(o) = out.last_mut() { o.1.push_str(&format!("{:?}", String::from_utf8_lossy(t.as_ref()))); } } }
            Event::GeneralRef(t) => { if inside.is_some() { if let Some(o) = out.last_mut() { o.1.push_str(&format!("&{}", String::from_utf8_lossy(t.as_ref()))); } } }
            Event::Eof => break,
            _ => {}
        }
    }
    Ok(out)
}
/// elements the library does not look into stay where they are, as they are.
fn passed_through(ctx: &mut Ctx) {
    ctx.section("elements that are passed through");
    let mut r = ctx.rng("c15x");
    for i in 0..ctx.n(250, 4000) {
        if !ctx.time_left() { break; }
        let all = i < 3;
        let mut k = 0;
        let mut some = |r: &mut Rng, names: &[&str]| -> String {
            let mut s = String::new();
            for n in names {
                if !all && r.chance(1, 2) { continue; }
                k += 1;
                s.push_str(&match r.below(3) {
                    0 => format!("<{} vp=\"{}\" table:name=\"a &amp; &lt;b&gt; &quot;\"/>", n, k),
                    1 => format!("<{} vp=\"{}\"><text:p>t{} &lt; x</text:p><table:table-cell/></{}>", n, k, k, n),
                    _ => format!("<{} vp=\"{}\"><x:y a=\"1\" b=\"2\"><z>q</z></x:y><x:y/></{}>", n, k, n),
                });
            }
            s
        };
        let (pre, post) = (some(&mut r, &BOOK_PRE), some(&mut r, &BOOK_POST));
        let (n, rows) = (r.below(3) as usize + 1, r.bool());
        let per: Vec<(String, String)> = (0..n).map(|_| (some(&mut r, &SHEET_PRE), some(&mut r, &SHEET_POST))).collect();
        let f = fmt(&mut r);
        ctx.case("passed", format!("{:?} rows {} {:?} {:?} {:?}", f, rows, pre, per, post), || {
            let mut b = WorkBook::new_empty();
            for i in 0..n { let mut s = Sheet::new(format!("s{}", i)); if rows { s.set_value(i as u32, 1, 1); } b.push_sheet(s); }
            let x = content_xml(&write(&mut b, Fmt::Fods)?, Fmt::Fods)?;
            let mut doc = String::new();
            let (mut sheet, mut seen) = (0, false);
            for part in x.split_inclusive('>') {
                let tag = &part[part.find('<').unwrap_or(0)..];
                if tag.starts_with("</office:spreadsheet") { doc.push_str(&post); }
                if tag.starts_with("</table:table>") { doc.push_str(&per[sheet].1); sheet += 1; }
                doc.push_str(part);
                if tag.starts_with("<office:spreadsheet") { doc.push_str(&pre); seen = true; }
                if tag.starts_with("<table:table ") { doc.push_str(&per[sheet].0); }
            }
            ck!(seen && sheet == n, "harness: unexpected document {}", x);
            let want = marked(&doc)?;
            let mut b = read(doc.as_bytes(), Fmt::Fods)?;
            for k in 0..2 {
                let buf = write(&mut b, f)?;
                all_well_formed(&buf, f)?;
                ckeq!(marked(&content_xml(&buf, f)?)?, want, "generation {}", k + 1);
                b = read(&buf, f)?;
            }
            Ok(())
        });
    }
}
