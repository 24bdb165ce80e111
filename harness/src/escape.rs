//! C10: whatever text is stored in a document, the written XML is well-formed and carries that text.
use crate::core::{Ctx, Rng};
use crate::io::*;
use crate::{ck, ckeq};
use spreadsheet_ods::condition::{Condition, ValueCondition};
use spreadsheet_ods::draw::{Annotation, DrawFrame, DrawFrameContent, DrawImage};
use spreadsheet_ods::format::*;
use spreadsheet_ods::manifest::Manifest;
use spreadsheet_ods::metadata::*;
use spreadsheet_ods::style::stylemap::StyleMap;
use spreadsheet_ods::style::*;
use spreadsheet_ods::text::{TextP, TextTag};
use spreadsheet_ods::validation::*;
use spreadsheet_ods::workbook::{EventListener, Script};
use spreadsheet_ods::xmltree::{XmlContent, XmlTag};
use spreadsheet_ods::*;
use std::io::{Cursor, Read};

const NASTY: [&str; 22] = [
    "&", "<", ">", "\"", "'", "]]>", "&amp;", "&lt;", "<!-- x -->", "<?pi?>", "<a/>", "</office:body>", "&#65;", "a&b;c", "\\", "ü漢😀", "\"/>", "' x='", "%20", "-->", "<![CDATA[", "plain",
];
/// collects every text put into the document.
struct Slots<'a> { r: &'a mut Rng, seen: Vec<(&'static str, String)> }
impl Slots<'_> {
    fn t(&mut self, slot: &'static str) -> String {
        let mut s = format!("m{}", self.seen.len());
        for _ in 0..self.r.below(4) { s.push_str(if self.r.chance(1, 4) { "q" } else { *self.r.pick(&NASTY) }); }
        s.push('~');
        self.seen.push((slot, s.clone()));
        s
    }
    fn on(&mut self) -> bool { self.r.bool() }
}
fn tag(s: &mut Slots<'_>, slot: &'static str) -> TextTag {
    let mut t: TextTag = TextP::new().text(s.t(slot)).into();
    // a paragraph without child elements is read as plain text.
    if s.on() { if s.on() { t.set_attr("text:style-name", s.t(slot)); } t.add_tag(XmlTag::new("text:span").attr("text:x", s.t(slot)).text(s.t(slot))); }
    if s.on() { t.add_text(s.t(slot)); }
    t
}
fn hf(s: &mut Slots<'_>) -> HeaderFooter {
    let mut h = HeaderFooter::new();
    if s.on() { h.set_left(vec![tag(s, "header left")]); h.set_center(vec![tag(s, "header center")]); h.set_right(vec![tag(s, "header right")]); } else { h.set_content(vec![tag(s, "header content")]); }
    h
}
fn format<T: ValueFormatTrait>(s: &mut Slots<'_>, mut f: T) -> T {
    f.set_name(&s.t("format name"));
    if s.on() { f.attrmap_mut().set_attr("number:title", s.t("format attribute")); }
    if s.on() { f.textstyle_mut().set_attr("fo:color", s.t("format text style")); }
    let mut p = FormatPart::new(FormatPartType::Text); p.set_content(s.t("format part text")); f.push_part(p);
    let mut p = FormatPart::new(FormatPartType::CurrencySymbol); p.set_content(s.t("currency symbol")); f.push_part(p);
    let mut p = FormatPart::new(FormatPartType::Number); p.set_attr("number:decimal-replacement", s.t("format part attribute")); p.set_position(1); p.set_content(s.t("embedded text")); f.push_part(p);
    if s.on() { f.push_stylemap(ValueStyleMap::new(ValueCondition::value_eq(1), &s.t("value style map"))); }
    f
}
fn build(s: &mut Slots<'_>, f: Fmt) -> WorkBook {
    let mut b = WorkBook::new_empty();
    let mut sh = Sheet::new(s.t("sheet name"));
    if s.on() { sh.set_style(&TableStyleRef::from(s.t("sheet style").as_str())); }
    if s.on() { sh.set_colstyle(0, &ColStyleRef::from(s.t("column style").as_str())); sh.set_col_cellstyle(0, &CellStyleRef::from(s.t("column cell style").as_str())); }
    if s.on() { sh.set_rowstyle(0, &RowStyleRef::from(s.t("row style").as_str())); sh.set_row_cellstyle(0, &CellStyleRef::from(s.t("row cell style").as_str())); }
    sh.set_value(0, 0, s.t("cell text"));
    sh.set_value(1, 0, Value::TextXml(vec![tag(s, "cell xml text")]));
    sh.set_value(2, 0, Value::TextXml(vec![tag(s, "cell xml texts"), tag(s, "cell xml texts")]));
    sh.set_value(3, 0, Value::Currency(1.5, s.t("currency").into()));
    sh.set_formula(4, 0, s.t("formula"));
    if s.on() { sh.set_cellstyle(4, 0, &CellStyleRef::from(s.t("cell style").as_str())); }
    if s.on() { sh.set_validation(4, 0, &ValidationRef::from(s.t("cell validation").as_str())); }
    if s.on() {
        let mut a = Annotation::new(s.t("annotation"));
        a.set_name(s.t("annotation name"));
        a.set_creator(Some(s.t("annotation creator")));
        a.attrmap_mut().set_attr("draw:style-name", s.t("annotation attribute"));
        a.push_text(tag(s, "annotation text"));
        sh.set_annotation(5, 0, a);
    }
    if s.on() {
        let mut d = DrawFrame::new();
        d.set_title(s.t("frame title")); d.set_desc(s.t("frame description"));
        d.attrmap_mut().set_attr("draw:name", s.t("frame attribute"));
        let mut i = DrawImage::new();
        i.attrmap_mut().set_attr("xlink:href", s.t("image attribute"));
        i.push_text(tag(s, "image text"));
        d.push_content(DrawFrameContent::Image(i));
        sh.add_draw_frame(5, 1, d);
    }
    b.push_sheet(sh);
    if s.on() { b.push_sheet(Sheet::new(s.t("sheet name"))); }
    let m = b.metadata_mut();
    m.title = s.t("title"); m.description = s.t("description"); m.subject = s.t("subject"); m.keyword = s.t("keyword"); m.initial_creator = s.t("initial creator");
    m.creator = s.t("creator"); m.printed_by = s.t("printed by"); m.language = s.t("language");
    m.template = MetaTemplate { date: None, actuate: None, href: Some(s.t("template href")), title: Some(s.t("template title")), link_type: None };
    m.auto_reload = MetaAutoReload { delay: None, actuate: None, href: Some(s.t("reload href")), show: None, link_type: None };
    m.hyperlink_behaviour = MetaHyperlinkBehaviour { target_frame_name: Some(s.t("target frame")), show: None };
    m.user_defined.push(MetaUserDefined { name: s.t("user defined name"), value: MetaValue::String(s.t("user defined value")) });
    m.user_defined.push(MetaUserDefined { name: s.t("user defined name"), value: MetaValue::Float(1.0) });
    if s.on() { b.config_mut().active_table = s.t("active table"); }
    if s.on() {
        let mut x = Script::new();
        x.set_script_lang(s.t("script language"));
        x.set_script(vec![XmlContent::Text(s.t("script text")), XmlContent::Tag(XmlTag::new("ooo:m").attr("xlink:href", s.t("script attribute")).text(s.t("script text")))]);
        b.add_script(x);
    }
    if s.on() {
        let mut e = EventListener::new();
        e.set_event_name(s.t("event name")); e.set_script_lang(s.t("event language")); e.set_macro_name(s.t("event macro")); e.set_href(s.t("event href"));
        b.add_event_listener(e);
    }
    let mut x = FontFaceDecl::new(s.t("font name")); x.attrmap_mut().set_attr("svg:font-family", s.t("font attribute")); b.add_font(x);
    macro_rules! st { ($t:ty, $add:ident, $slot:literal $(, $m:ident)*) => { if s.on() {
        let mut x = <$t>::new_empty();
        x.set_name(s.t($slot));
        x.attrmap_mut().set_attr("style:parent-style-name", s.t($slot));
        if s.on() { x.set_origin(StyleOrigin::Styles); x.set_styleuse(StyleUse::Named); }
        $( x.$m().set_attr("fo:x", s.t($slot)); )*
        b.$add(x);
    } } }
    st!(TableStyle, add_tablestyle, "table style", tablestyle_mut);
    st!(RowStyle, add_rowstyle, "row style", rowstyle_mut);
    st!(ColStyle, add_colstyle, "column style", colstyle_mut);
    st!(ParagraphStyle, add_paragraphstyle, "paragraph style", paragraphstyle_mut, textstyle_mut);
    st!(TextStyle, add_textstyle, "text style", textstyle_mut);
    st!(RubyStyle, add_rubystyle, "ruby style", rubystyle_mut);
    st!(GraphicStyle, add_graphicstyle, "graphic style", graphicstyle_mut, paragraphstyle_mut, textstyle_mut);
    {
        let mut x = CellStyle::new_empty();
        x.set_name(s.t("cell style"));
        x.set_value_format(&ValueFormatRef::from(s.t("cell style format").as_str()));
        x.cellstyle_mut().set_attr("fo:x", s.t("cell style attribute"));
        x.paragraphstyle_mut().set_attr("fo:x", s.t("cell style attribute"));
        x.textstyle_mut().set_attr("fo:x", s.t("cell style attribute"));
        x.push_stylemap(StyleMap::new(Condition::is_true_formula(s.t("style map condition")), AnyStyleRef::from(s.t("style map style").as_str()), None));
        b.add_cellstyle(x);
    }
    match s.r.below(7) {
        0 => { let x = format(s, ValueFormatBoolean::new_empty()); b.add_boolean_format(x); }
        1 => { let x = format(s, ValueFormatNumber::new_empty()); b.add_number_format(x); }
        2 => { let x = format(s, ValueFormatPercentage::new_empty()); b.add_percentage_format(x); }
        3 => { let x = format(s, ValueFormatCurrency::new_empty()); b.add_currency_format(x); }
        4 => { let x = format(s, ValueFormatText::new_empty()); b.add_text_format(x); }
        5 => { let x = format(s, ValueFormatDateTime::new_empty()); b.add_datetime_format(x); }
        _ => { let x = format(s, ValueFormatTimeDuration::new_empty()); b.add_timeduration_format(x); }
    }
    let mut x = PageStyle::new(s.t("page style"));
    x.style_mut().set_attr("fo:x", s.t("page attribute")); x.headerstyle_mut().style_mut().set_attr("fo:x", s.t("page header attribute")); x.footerstyle_mut().style_mut().set_attr("fo:x", s.t("page footer attribute"));
    b.add_pagestyle(x);
    let mut x = MasterPage::new(s.t("master page"));
    x.set_display_name(s.t("master page display name")); x.set_pagestyle(&PageStyleRef::from(s.t("master page style").as_str())); x.set_next_masterpage(&MasterPageRef::from(s.t("next master page").as_str()));
    if s.on() { let h = hf(s); x.set_header(h); } if s.on() { let h = hf(s); x.set_header_first(h); } if s.on() { let h = hf(s); x.set_header_left(h); }
    if s.on() { let h = hf(s); x.set_footer(h); } if s.on() { let h = hf(s); x.set_footer_first(h); } if s.on() { let h = hf(s); x.set_footer_left(h); }
    b.add_masterpage(x);
    let mut v = Validation::new();
    v.set_name(s.t("validation name")); v.set_condition(Condition::is_true_formula(s.t("validation condition")));
    let mut e = ValidationError::new(); e.set_title(Some(s.t("error title"))); if s.on() { e.set_text(Some(tag(s, "error text"))); } v.set_err(Some(e));
    let mut e = ValidationHelp::new(); e.set_title(Some(s.t("help title"))); if s.on() { e.set_text(Some(tag(s, "help text"))); } v.set_help(Some(e));
    b.add_validation(v);
    if f != Fmt::Fods && s.on() { b.add_manifest(Manifest::with_buf("Pictures/a.bin", s.t("media type"), vec![1, 2, 3])); }
    b
}
/// all attribute values and texts of a document as a conforming parser hands them out.
fn strings(xml: &str, out: &mut Vec<String>) -> Result<(), String> {
    use quick_xml::events::Event;
    let mut rd = quick_xml::Reader::from_str(xml);
    let mut txt = String::new();
    loop {
        let e = rd.read_event().map_err(|e| format!("{:?}", e))?;
        match &e {
            Event::Text(t) => { txt.push_str(&t.decode().map_err(|e| format!("{:?}", e))?); continue; }
            Event::GeneralRef(g) => {
                let n = g.decode().map_err(|e| format!("{:?}", e))?;
                txt.push_str(&quick_xml::escape::unescape(&format!("&{};", n)).map_err(|e| format!("{:?}", e))?);
                continue;
            }
            Event::Start(t) | Event::Empty(t) => { for a in t.attributes() { out.push(a.map_err(|e| format!("{:?}", e))?.decode_and_unescape_value(rd.decoder()).map_err(|e| format!("{:?}", e))?.to_string()); } }
            Event::Eof => break,
            _ => {}
        }
        if !txt.is_empty() { out.push(std::mem::take(&mut txt)); }
    }
    Ok(())
}
fn all_strings(buf: &[u8], f: Fmt) -> Result<Vec<String>, String> {
    let mut out = vec![];
    if f == Fmt::Fods { strings(std::str::from_utf8(buf).map_err(|e| e.to_string())?, &mut out)?; return Ok(out); }
    let mut z = zip::ZipArchive::new(Cursor::new(buf)).map_err(|e| e.to_string())?;
    let names: Vec<String> = z.file_names().map(|v| v.to_string()).collect();
    for n in names { if n.ends_with(".xml") {
        let mut s = String::new();
        z.by_name(&n).map_err(|e| e.to_string())?.read_to_string(&mut s).map_err(|e| e.to_string())?;
        strings(&s, &mut out)?;
    } }
    Ok(out)
}
pub fn c10(ctx: &mut Ctx) {
    ctx.section("every text of a document is escaped");
    let mut r = ctx.rng("c10");
    for _ in 0..ctx.n(1500, 40_000) {
        if !ctx.time_left() { break; }
        let f = fmt(&mut r);
        let (b, seen) = { let mut s = Slots { r: &mut r, seen: vec![] }; let b = build(&mut s, f); (b, s.seen) };
        ctx.case("escape", format!("{:?} {:?}", f, seen), || {
            let mut b = b;
            for k in 0..2 {
                let buf = write(&mut b, f)?;
                all_well_formed(&buf, f)?;
                let all = all_strings(&buf, f)?;
                for (slot, t) in &seen { ck!(all.iter().any(|v| v.contains(t.as_str())), "generation {}: {} {:?} is not in the file", k + 1, slot, t); }
                let b2 = read(&buf, f)?;
                ckeq!(b2.sheet(0).name(), b.sheet(0).name(), "sheet name");
                ckeq!(b2.sheet(0).value(0, 0).as_str_or("").to_string(), b.sheet(0).value(0, 0).as_str_or("").to_string(), "cell text");
                ckeq!(b2.sheet(0).formula(4, 0).cloned(), b.sheet(0).formula(4, 0).cloned(), "formula");
                b = b2;
            }
            Ok(())
        });
    }
}
