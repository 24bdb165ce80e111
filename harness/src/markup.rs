//! C20: markup, drawings, headers, footers and checks hold exactly what was put into them.
use crate::attrs::chk;
use crate::core::{Ctx, Rng};
use crate::{ck, ckeq};
use spreadsheet_ods::condition::{Condition, ValueCondition};
use spreadsheet_ods::draw::*;
use spreadsheet_ods::format::ValueStyleMap;
use spreadsheet_ods::style::stylemap::StyleMap;
use spreadsheet_ods::style::units::*;
use spreadsheet_ods::style::*;
use spreadsheet_ods::text::*;
use spreadsheet_ods::validation::*;
use spreadsheet_ods::xlink::*;
use spreadsheet_ods::xmltree::{XmlContent, XmlTag, XmlVec};
use spreadsheet_ods::*;
use std::collections::BTreeMap;

/// the plain model of an element
#[derive(Clone, Debug, PartialEq)]
struct El { name: String, attr: Vec<(String, String)>, content: Vec<Co> }
#[derive(Clone, Debug, PartialEq)]
enum Co { T(String), E(El) }
impl El {
    fn new(n: &str) -> El { El { name: n.to_string(), attr: vec![], content: vec![] } }
    fn set(&mut self, k: &str, v: &str) {
        match self.attr.iter_mut().find(|a| a.0 == k) { Some(a) => a.1 = v.to_string(), None => self.attr.push((k.to_string(), v.to_string())) }
    }
    fn text(&self) -> String { self.content.iter().map(|c| match c { Co::T(t) => t.clone(), Co::E(e) => e.text() }).collect() }
    fn show(&self) -> String {
        let mut s = format!("<{}", self.name);
        for (k, v) in &self.attr { s.push_str(&format!(" {}=\"{}\"", k, v)); }
        if self.content.is_empty() { s.push_str("/>\n"); return s; }
        s.push_str(">\n");
        for c in &self.content { match c { Co::T(t) => { s.push_str(t); s.push('\n'); } Co::E(e) => s.push_str(&e.show()) } }
        s.push_str(&format!("</{}>\n", self.name));
        s
    }
}
fn model(t: &XmlTag) -> El {
    El { name: t.name().to_string(), attr: t.attrmap().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
        content: t.content().iter().map(|c| match c { XmlContent::Text(s) => Co::T(s.clone()), XmlContent::Tag(t) => Co::E(model(t)) }).collect() }
}
fn models(v: &[XmlTag]) -> Vec<El> { v.iter().map(model).collect() }
/// the order of attributes is no part of the meaning
fn sorted(mut e: El) -> El {
    e.attr.sort();
    e.content = e.content.into_iter().map(|c| match c { Co::E(e) => Co::E(sorted(e)), c => c }).collect();
    e
}
fn p(text: &str) -> El { El { name: "text:p".into(), attr: vec![], content: vec![Co::T(text.to_string())] } }

const NAMES: [&str; 6] = ["text:p", "a", "x:y-z", "draw:frame", "ä", ""];
const TEXTS: [&str; 8] = ["", "a", "<b>&amp;", " ", "\n\t", "q\"'", "äöü€𝄞", "text:p"];

fn build(r: &mut Rng, depth: u32) -> (XmlTag, El) {
    let n = *r.pick(&NAMES);
    let (mut t, mut e) = match r.below(3) { 0 => (XmlTag::new(n), El::new(n)), 1 => (XmlTag::from(n), El::new(n)), _ => (XmlTag::from(n.to_string()), El::new(n)) };
    for _ in 0..r.below(8) {
        match r.below(13) {
            0 => { let n = *r.pick(&NAMES); t.set_name(n); e.name = n.to_string(); }
            1 | 2 => { let (k, v) = (*r.pick(&NAMES), *r.pick(&TEXTS)); t.set_attr(k, v); e.set(k, v); }
            3 => { let (k, v) = (*r.pick(&NAMES), *r.pick(&TEXTS)); t = t.attr(k, v.to_string()); e.set(k, v); }
            4 => {
                let kv: Vec<(&str, &str)> = (0..r.below(4)).map(|_| (*r.pick(&NAMES), *r.pick(&TEXTS))).collect();
                // names within one slice are distinct
                let mut u: Vec<(&str, &str)> = vec![]; for x in kv { if !u.iter().any(|y| y.0 == x.0) && !e.attr.iter().any(|y| y.0 == x.0) { u.push(x); } }
                if r.bool() { t = t.attr_slice(u.clone()); } else { t.add_attr_slice(u.clone()); }
                for (k, v) in u { e.set(k, v); }
            }
            5 if depth > 0 => { let (t2, e2) = build(r, depth - 1); t.add_tag(t2); e.content.push(Co::E(e2)); }
            6 if depth > 0 => { let (t2, e2) = build(r, depth - 1); t = t.tag(t2); e.content.push(Co::E(e2)); }
            7 => { let n = *r.pick(&NAMES); t.add_tag(n); e.content.push(Co::E(El::new(n))); }
            8 => { let x = *r.pick(&TEXTS); t.add_text(x); e.content.push(Co::T(x.to_string())); }
            9 => { let x = *r.pick(&TEXTS); t = t.text(x.to_string()); e.content.push(Co::T(x.to_string())); }
            10 => { let x = *r.pick(&TEXTS); t.content_mut().push(XmlContent::Text(x.to_string())); e.content.push(Co::T(x.to_string())); }
            11 => { let (k, v) = (*r.pick(&NAMES), *r.pick(&TEXTS)); t.attrmap_mut().set_attr(k, v); e.set(k, v); }
            _ => { if let Some(c) = t.content_mut().pop() { drop(c); e.content.pop(); } }
        }
    }
    (t, e)
}
fn trees(ctx: &mut Ctx) {
    let n = if ctx.thorough { 60000 } else { 4000 };
    for i in 0..n {
        if !ctx.time_left() { break; }
        let mut r = Rng::new(ctx.seed ^ (i * 7919 + 20));
        let (t, e) = build(&mut r, 3);
        ctx.case("tree", format!("{:?}", e), || {
            ckeq!(sorted(model(&t)), sorted(e.clone()), "element");
            ckeq!(t.is_empty(), e.content.is_empty(), "is_empty");
            for k in NAMES { ckeq!(t.get_attr(k), e.attr.iter().find(|a| a.0 == k).map(|a| a.1.as_str()), "get_attr({:?})", k); }
            for start in ["", "x", " "] {
                let mut b = start.to_string();
                t.extract_text(&mut b);
                ckeq!(b, format!("{}{}", start, e.text()), "extract_text after {:?}", start);
            }
            ckeq!(t.to_string(), model(&t).show(), "Display");
            let c: Vec<Co> = t.clone().into_mixed_vec().iter().map(|c| match c { XmlContent::Text(s) => Co::T(s.clone()), XmlContent::Tag(t) => Co::E(model(t)) }).collect();
            ckeq!(c.into_iter().map(|c| match c { Co::E(e) => Co::E(sorted(e)), c => c }).collect::<Vec<_>>(), sorted(e.clone()).content, "into_mixed_vec");
            let has_text = e.content.iter().any(|c| matches!(c, Co::T(t) if !t.trim().is_empty()));
            match t.clone().into_vec() {
                Ok(v) => { ck!(!has_text, "into_vec: text was dropped"); ckeq!(v.iter().map(|t| sorted(model(t))).collect::<Vec<_>>(), e.content.iter().filter_map(|c| match c { Co::E(e) => Some(sorted(e.clone())), _ => None }).collect::<Vec<_>>(), "into_vec"); }
                Err(_) => ck!(has_text, "into_vec: error without text"),
            }
            Ok(())
        });
    }
    ctx.case("vec", "XmlVec".into(), || {
        let mut v: Vec<XmlTag> = vec![XmlTag::new("a")];
        (&mut v).add_text("t<1>");
        (&mut v).add_tag("b");
        (&mut v).add_tag(TextP::new().text("x"));
        ckeq!(models(&v), vec![El::new("a"), p("t<1>"), El::new("b"), p("x")], "XmlVec");
        Ok(())
    });
}
macro_rules! texttag { ($ctx:expr, $($t:ident $n:literal),*) => { $(
    $ctx.case(stringify!($t), format!("{} is {}", stringify!($t), $n), || {
        ckeq!(model(&$t::new().into_xmltag()), El::new($n), "new");
        ckeq!(model(&$t::default().into()), El::new($n), "default");
        let t = $t::new().text("a<").tag(TextS::new()).text("b".to_string()).tag(XmlTag::new("z").attr("k", "v")).tag("q");
        let mut e = El::new($n);
        let mut z = El::new("z"); z.set("k", "v");
        e.content = vec![Co::T("a<".into()), Co::E(El::new("text:s")), Co::T("b".into()), Co::E(z), Co::E(El::new("q"))];
        ckeq!(t.to_string(), e.show(), "Display");
        let x: XmlTag = t.into();
        ckeq!(model(&x), e, "content");
        Ok(())
    }); )* } }
macro_rules! textattr { ($ctx:expr, $t:ident $n:literal, $($m:ident, $k:literal, ($($a:expr),*) => $v:literal);* $(;)?) => { $(
    $ctx.case(concat!(stringify!($t), ".", stringify!($m)), format!("{}.{}({})", stringify!($t), stringify!($m), stringify!($($a),*)), || {
        let t = $t::new().text("before").$m($($a),*).text("after").into_xmltag();
        let mut e = El::new($n);
        e.set($k, $v);
        e.content = vec![Co::T("before".into()), Co::T("after".into())];
        let mut got = model(&t);
        for a in got.attr.iter_mut() { if $k.ends_with("class-names") { a.1 = a.1.split_whitespace().collect::<Vec<_>>().join(" "); } }
        ckeq!(got, e, "{}", stringify!($m));
        Ok(())
    }); )* } }
fn texts(ctx: &mut Ctx) {
    texttag!(ctx, TextH "text:h", TextP "text:p", TextSpan "text:span", TextA "text:a", TextS "text:s", TextTab "text:tab", SoftPageBreak "text:soft-page-break", MetaDate "text:date", MetaTime "text:time", MetaPageNumber "text:page-number", MetaAuthorName "text:author-name", MetaAuthorInitials "text:author-initials", MetaFileName "text:file-name", MetaSheetName "text:sheet-name", MetaInitialCreator "text:initial-creator", MetaCreationDate "text:creation-date", MetaCreationTime "text:creation-time", MetaDescription "text:description", MetaPrintTime "text:print-time", MetaPrintDate "text:print-date", MetaPrintedBy "text:printed-by", MetaTitle "text:title", MetaSubject "text:subject", MetaKeywords "text:keywords", MetaEditingCycles "text:editing-cycles", MetaEditingDuration "text:editing-duration", MetaModificationTime "text:modification-time", MetaModificationDate "text:modification-date", MetaCreator "text:creator", MetaPageCount "text:page-count", MetaCharacterCount "text:character-count");
    let (pa, pb) = (ParagraphStyleRef::from("p 1"), ParagraphStyleRef::from("p2"));
    let (ta, tb) = (TextStyleRef::from("t1"), TextStyleRef::from("t2"));
    textattr!(ctx, TextH "text:h", class_names, "text:class-names", (&[&pb, &ParagraphStyleRef::from("x")]) => "p2 x"; condstyle_name, "text:cond-style-name", (&pa) => "p 1"; id, "text:id", ("i<1") => "i<1";
        list_header, "text:is-list-header", (true) => "true"; list_header, "text:is-list-header", (false) => "false"; outline_level, "text:outline-level", (0) => "0"; outline_level, "text:outline-level", (255) => "255";
        restart_numbering, "text:restart-numbering", (true) => "true"; restart_numbering, "text:restart-numbering", (false) => "false"; start_value, "text:start-value", (7) => "7"; style_name, "text:style-name", (&pb) => "p2"; xml_id, "xml:id", ("id") => "id");
    textattr!(ctx, TextP "text:p", class_names, "text:class-names", (&[&pb, &ParagraphStyleRef::from("x")]) => "p2 x"; condstyle_name, "text:cond-style-name", (&pa) => "p 1"; id, "text:id", ("i<1") => "i<1"; style_name, "text:style-name", (&pb) => "p2"; xml_id, "xml:id", ("id") => "id");
    textattr!(ctx, TextSpan "text:span", class_names, "text:class-names", (&[&ta, &tb]) => "t1 t2"; style_name, "text:style-name", (&tb) => "t2");
    textattr!(ctx, TextA "text:a", style_name, "text:style-name", (&ta) => "t1"; visited_style_name, "text:visited-style-name", (&tb) => "t2"; href, "xlink:href", ("http://a?b&c") => "http://a?b&c");
    textattr!(ctx, TextS "text:s", count, "text:c", (0) => "0"; count, "text:c", (4000000000) => "4000000000");
    textattr!(ctx, TextTab "text:tab", tab_ref, "text:tab-ref", (3) => "3");
}

fn draws(ctx: &mut Ctx) {
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, set_draw_caption_point_x, "draw:caption-point-x", (Length::Mm(3.0) => "3mm"), (Length::In(0.25) => "0.25in"), (Length::Cm(-1.5) => "-1.5cm"));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, set_draw_caption_point_y, "draw:caption-point-y", (Length::Mm(3.0) => "3mm"), (Length::In(0.25) => "0.25in"), (Length::Cm(-1.5) => "-1.5cm"));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, set_draw_class_names, "draw:class-names", (&[GraphicStyleRef::from("g1"), GraphicStyleRef::from("g2")][..] => "g1 g2 "));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, set_draw_corner_radius, "draw:corner-radius", (7 => "7"), (0 => "0"));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, set_draw_id, "draw:id", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, set_draw_layer, "draw:layer", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, set_draw_style_name, "draw:style-name", (GraphicStyleRef::from("g") => "g"));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, set_draw_text_style_name, "draw:text-style-name", (ParagraphStyleRef::from("p") => "p"));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, set_draw_transform, "draw:transform", (&["rotate(1)", "skewX(2)"] => "rotate(1) skewX(2) "));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, set_draw_z_index, "draw:z-index", (7 => "7"), (0 => "0"));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, set_height, "svg:height", (Length::Mm(3.0) => "3mm"), (Length::In(0.25) => "0.25in"), (Length::Cm(-1.5) => "-1.5cm"));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, set_width, "svg:width", (Length::Mm(3.0) => "3mm"), (Length::In(0.25) => "0.25in"), (Length::Cm(-1.5) => "-1.5cm"));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, svg_x, "svg:x", (Length::Mm(3.0) => "3mm"), (Length::In(0.25) => "0.25in"), (Length::Cm(-1.5) => "-1.5cm"));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, svg_y, "svg:y", (Length::Mm(3.0) => "3mm"), (Length::In(0.25) => "0.25in"), (Length::Cm(-1.5) => "-1.5cm"));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, set_table_end_cell_address, "table:end-cell-address", (CellRef::local(2, 3) => ".D3"));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, set_table_end_x, "table:end-x", (Length::Mm(3.0) => "3mm"), (Length::In(0.25) => "0.25in"), (Length::Cm(-1.5) => "-1.5cm"));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, set_table_end_y, "table:end-y", (Length::Mm(3.0) => "3mm"), (Length::In(0.25) => "0.25in"), (Length::Cm(-1.5) => "-1.5cm"));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, set_table_table_background, "table:table-background", (true => "true"), (false => "false"));
    chk!(ctx, Annotation::new_empty(), attrmap, attrmap_mut, set_xml_id, "xml:id", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_draw_name, "draw:name", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_draw_caption_id, "draw:caption-id", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_draw_class_names, "draw:class-names", (&[GraphicStyleRef::from("g1"), GraphicStyleRef::from("g2")][..] => "g1 g2 "));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_draw_corner_radius, "draw:corner-radius", (7 => "7"), (0 => "0"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_draw_copy_of, "draw:copy-of", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_draw_id, "draw:id", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_draw_layer, "draw:layer", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_draw_style_name, "draw:style-name", (GraphicStyleRef::from("g") => "g"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_draw_text_style_name, "draw:text-style-name", (ParagraphStyleRef::from("p") => "p"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_draw_transform, "draw:transform", (&["rotate(1)", "skewX(2)"] => "rotate(1) skewX(2) "));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_draw_z_index, "draw:z-index", (7 => "7"), (0 => "0"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_rel_height, "style:rel-height", (RelativeScale::Scale => "scale"), (RelativeScale::ScaleMin => "scale-min"), (RelativeScale::Percent(Percent::Percent(50.0)) => "50%"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_rel_width, "style:rel-width", (RelativeScale::Scale => "scale"), (RelativeScale::ScaleMin => "scale-min"), (RelativeScale::Percent(Percent::Percent(50.0)) => "50%"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_height, "svg:height", (Length::Mm(3.0) => "3mm"), (Length::In(0.25) => "0.25in"), (Length::Cm(-1.5) => "-1.5cm"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_width, "svg:width", (Length::Mm(3.0) => "3mm"), (Length::In(0.25) => "0.25in"), (Length::Cm(-1.5) => "-1.5cm"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, svg_x, "svg:x", (Length::Mm(3.0) => "3mm"), (Length::In(0.25) => "0.25in"), (Length::Cm(-1.5) => "-1.5cm"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, svg_y, "svg:y", (Length::Mm(3.0) => "3mm"), (Length::In(0.25) => "0.25in"), (Length::Cm(-1.5) => "-1.5cm"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_table_end_cell_address, "table:end-cell-address", (CellRef::local(2, 3) => ".D3"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_table_end_x, "table:end-x", (Length::Mm(3.0) => "3mm"), (Length::In(0.25) => "0.25in"), (Length::Cm(-1.5) => "-1.5cm"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_table_end_y, "table:end-y", (Length::Mm(3.0) => "3mm"), (Length::In(0.25) => "0.25in"), (Length::Cm(-1.5) => "-1.5cm"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_table_table_background, "table:table-background", (true => "true"), (false => "false"));
    chk!(ctx, DrawFrame::new(), attrmap, attrmap_mut, set_xml_id, "xml:id", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, DrawImage::new(), attrmap, attrmap_mut, set_draw_filter_name, "draw:filter-name", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, DrawImage::new(), attrmap, attrmap_mut, set_draw_mime_type, "draw:mime-type", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, DrawImage::new(), attrmap, attrmap_mut, set_xlink_actuate, "xlink:actuate", (XLinkActuate::OnLoad => "onLoad"), (XLinkActuate::OnRequest => "onRequest"));
    chk!(ctx, DrawImage::new(), attrmap, attrmap_mut, set_xlink_href, "xlink:href", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, DrawImage::new(), attrmap, attrmap_mut, set_xlink_show, "xlink:show", (XLinkShow::New => "new"), (XLinkShow::Replace => "replace"));
    chk!(ctx, DrawImage::new(), attrmap, attrmap_mut, set_xlink_type, "xlink:type", (XLinkType::Simple => "simple"), (XLinkType::Extended => "extended"), (XLinkType::Locator => "locator"), (XLinkType::Arc => "arc"), (XLinkType::Resource => "resource"), (XLinkType::Title => "title"), (XLinkType::None => "none"));
    chk!(ctx, DrawImage::new(), attrmap, attrmap_mut, set_xml_id, "xml:id", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    ctx.case("annotation", "Annotation".into(), || {
        let e = Annotation::new_empty();
        ck!(e.name().is_empty() && !e.display() && e.creator().is_none() && e.date().is_none() && e.text().is_empty() && e.attrmap().is_empty(), "new_empty is not empty");
        let mut a = Annotation::new("t1");
        ck!(a.name().is_empty() && a.display() && a.creator().is_none() && a.date().is_none() && a.attrmap().is_empty(), "new");
        ckeq!(models(a.text()), vec![p("t1")], "text of a new annotation");
        a.push_text_str("t2");
        a.push_text(XmlTag::new("text:list"));
        a.set_name("n<1>");
        a.set_creator(Some("me"));
        let d = chrono::NaiveDate::from_ymd_opt(2020, 2, 29).unwrap().and_hms_opt(1, 2, 3).unwrap();
        a.set_date(Some(d));
        a.set_display(false);
        ckeq!((a.name(), a.display(), a.creator().map(|s| s.as_str()), a.date()), ("n<1>", false, Some("me"), Some(&d)), "fields");
        ckeq!(models(a.text()), vec![p("t1"), p("t2"), El::new("text:list")], "text");
        a.set_text(vec![XmlTag::new("z")]);
        a.set_creator(None::<String>);
        a.set_date(None);
        a.set_display(true);
        ckeq!((a.name(), a.display(), a.creator(), a.date()), ("n<1>", true, None, None), "cleared fields");
        ckeq!(models(a.text()), vec![El::new("z")], "set text");
        ck!(a.attrmap().is_empty(), "attributes");
        Ok(())
    });
    ctx.case("frame", "DrawFrame".into(), || {
        let mut f = DrawFrame::new();
        ck!(f.title().is_none() && f.desc().is_none() && f.content_ref().is_empty() && f.attrmap().is_empty(), "new is not empty");
        f.set_title("T");
        f.set_desc("D");
        let img = |n: &str| { let mut i = DrawImage::new(); i.set_xlink_href(n); DrawFrameContent::Image(i) };
        let refs = |f: &DrawFrame| f.content_ref().iter().map(|c| match c { DrawFrameContent::Image(i) => i.attrmap().attr("xlink:href").unwrap_or("-").to_string() }).collect::<Vec<_>>();
        f.push_content(img("1"));
        f.push_content(img("2"));
        ckeq!((f.title().map(|s| s.as_str()), f.desc().map(|s| s.as_str()), refs(&f)), (Some("T"), Some("D"), vec!["1".to_string(), "2".to_string()]), "fields");
        f.clear_title();
        ckeq!((f.title(), f.desc().map(|s| s.as_str())), (None, Some("D")), "title cleared");
        f.set_title("T2");
        f.clear_desc();
        ckeq!((f.title().map(|s| s.as_str()), f.desc()), (Some("T2"), None), "desc cleared");
        f.set_content(vec![img("9")]);
        f.content_mut().push(img("8"));
        ckeq!(refs(&f), vec!["9".to_string(), "8".to_string()], "set content");
        f.clear_content();
        ck!(f.content_ref().is_empty() && f.title().is_some(), "content cleared");
        Ok(())
    });
    ctx.case("image", "DrawImage".into(), || {
        let mut i = DrawImage::new();
        ck!(i.get_binary_base64().is_none() && i.get_text().is_empty() && i.attrmap().is_empty() && i.get_binary().map(|v| v.is_empty()).unwrap_or(false), "new is not empty");
        i.push_text_str("a");
        i.push_text(XmlTag::new("b"));
        ckeq!(models(i.get_text()), vec![p("a"), El::new("b")], "text");
        i.set_text(vec![XmlTag::new("c")]);
        ckeq!(models(i.get_text()), vec![El::new("c")], "set text");
        for (d, t) in [(&b""[..], ""), (b"f", "Zg=="), (b"fo", "Zm8="), (b"foo", "Zm9v"), (b"foob", "Zm9vYg=="), (b"fooba", "Zm9vYmE="), (b"foobar", "Zm9vYmFy"), (&[255, 254, 253, 0], "//79AA=="), (&[251, 239, 190], "++++")] {
            i.set_binary(d);
            ckeq!(i.get_binary_base64().map(|s| s.as_str()), Some(t), "base64 of {:?}", d);
            ckeq!(i.get_binary().ok(), Some(d.to_vec()), "image data");
            for v in [t.to_string(), t.trim_end_matches('=').to_string(), t.chars().map(|c| format!("{}\n ", c)).collect::<String>()] {
                i.set_binary_base64(v.clone());
                ckeq!(i.get_binary_base64(), Some(&v), "base64 text");
                ckeq!(i.get_binary().ok(), Some(d.to_vec()), "image data of {:?}", v);
            }
        }
        for v in ["*", "Zg=", "A", "Zh==", "ä"] { let r = { i.set_binary_base64(v.to_string()); i.get_binary() }; ck!(r.is_err() || v == "Zg=" , "{:?} is not base64", v); }
        i.clear_binary();
        ck!(i.get_binary_base64().is_none() && !i.get_text().is_empty(), "binary cleared");
        Ok(())
    });
    let n = if ctx.thorough { 20000 } else { 1500 };
    for k in 0..n {
        if !ctx.time_left() { break; }
        let mut r = Rng::new(ctx.seed ^ (k * 104729 + 77));
        let d: Vec<u8> = (0..r.below(70)).map(|_| *r.pick(&[0u8, 1, 62, 63, 127, 128, 251, 252, 254, 255]) ^ (r.below(4) as u8)).collect();
        ctx.case("binary", format!("{:?}", d), || {
            let mut i = DrawImage::new();
            i.set_binary(&d);
            ckeq!(i.get_binary().ok(), Some(d.clone()), "image data");
            let t = i.get_binary_base64().cloned().unwrap_or_default();
            ckeq!(t.len(), d.len().div_ceil(3) * 4, "length of the base64 text");
            Ok(())
        });
    }
}
macro_rules! region { ($set:ident, $add:ident, $clear:ident, $get:ident, $mt:ident, $h:expr) => {{
    let h: &mut HeaderFooter = $h;
    h.$add(XmlTag::new("1"));
    h.$mt().push(XmlTag::new("2"));
    let got = models(h.$get());
    ckeq!(got, vec![El::new("1"), El::new("2")], "{}", stringify!($add));
    ck!(!h.is_empty(), "is_empty with {}", stringify!($get));
    h.$clear();
    ck!(h.$get().is_empty() && h.is_empty(), "{}", stringify!($clear));
    h.$set(vec![XmlTag::new("3")]);
    ckeq!(models(h.$get()), vec![El::new("3")], "{}", stringify!($set));
    ck!(!h.is_empty(), "is_empty with {}", stringify!($get));
    h.$clear();
}} }
fn hf(h: &HeaderFooter) -> (bool, Vec<El>, Vec<El>, Vec<El>, Vec<El>) { (h.display(), models(h.left()), models(h.center()), models(h.right()), models(h.content())) }
fn pages(ctx: &mut Ctx) {
    ctx.case("header", "HeaderFooter".into(), || {
        for mut h in [HeaderFooter::new(), HeaderFooter::default()] {
            ck!(h.display() && h.is_empty() && h.left().is_empty() && h.center().is_empty() && h.right().is_empty() && h.content().is_empty(), "a new header is shown and empty");
            region!(set_left, add_left, clear_left, left, left_mut, &mut h);
            region!(set_center, add_center, clear_center, center, center_mut, &mut h);
            region!(set_right, add_right, clear_right, right, right_mut, &mut h);
            h.add_left(XmlTag::new("l")); h.add_center(XmlTag::new("c")); h.add_right(XmlTag::new("r"));
            h.add_content(XmlTag::new("x")); h.content_mut().push(XmlTag::new("y"));
            ckeq!(hf(&h), (true, vec![El::new("l")], vec![El::new("c")], vec![El::new("r")], vec![El::new("x"), El::new("y")]), "all parts");
            h.clear_center();
            h.set_content(vec![XmlTag::new("z")]);
            h.set_display(false);
            ckeq!(hf(&h), (false, vec![El::new("l")], vec![], vec![El::new("r")], vec![El::new("z")]), "center cleared");
            h.clear_left(); h.clear_right(); ck!(!h.is_empty(), "is_empty with content");
            h.set_content(vec![]); ck!(h.is_empty(), "is_empty");
        }
        Ok(())
    });
    ctx.case("masterpage", "MasterPage".into(), || {
        for (mut m, n) in [(MasterPage::new_empty(), ""), (MasterPage::new("m1"), "m1"), (MasterPage::default(), "")] {
            ckeq!((m.name().as_str(), m.display_name().as_str(), m.pagestyle().is_none(), m.next_masterpage().is_none()), (n, "", true, true), "new");
            for h in [m.header(), m.header_first(), m.header_left(), m.footer(), m.footer_first(), m.footer_left()] { ck!(h.is_empty() && h.display(), "header of a new page"); }
            let tag = |t: &str| { let mut h = HeaderFooter::new(); h.add_content(XmlTag::new(t)); h };
            m.set_header(tag("h")); m.set_header_first(tag("hf")); m.set_header_left(tag("hl")); m.set_footer(tag("f")); m.set_footer_first(tag("ff")); m.set_footer_left(tag("fl"));
            let got: Vec<Vec<El>> = [m.header(), m.header_first(), m.header_left(), m.footer(), m.footer_first(), m.footer_left()].iter().map(|h| models(h.content())).collect();
            ckeq!(got, ["h", "hf", "hl", "f", "ff", "fl"].iter().map(|s| vec![El::new(s)]).collect::<Vec<_>>(), "set headers");
            m.header_mut().add_left(XmlTag::new("h")); m.header_first_mut().add_left(XmlTag::new("hf")); m.header_left_mut().add_left(XmlTag::new("hl")); m.footer_mut().add_left(XmlTag::new("f")); m.footer_first_mut().add_left(XmlTag::new("ff")); m.footer_left_mut().add_left(XmlTag::new("fl"));
            let got: Vec<Vec<El>> = [m.header(), m.header_first(), m.header_left(), m.footer(), m.footer_first(), m.footer_left()].iter().map(|h| models(h.left())).collect();
            ckeq!(got, ["h", "hf", "hl", "f", "ff", "fl"].iter().map(|s| vec![El::new(s)]).collect::<Vec<_>>(), "headers by reference");
            m.set_name("n".into()); m.set_display_name("d".into());
            m.set_pagestyle(&PageStyleRef::from("ps")); m.set_next_masterpage(&MasterPageRef::from("nx"));
            ckeq!((m.name().as_str(), m.display_name().as_str(), m.pagestyle().map(|p| p.as_str()), m.next_masterpage().map(|p| p.as_str()), m.masterpage_ref()), ("n", "d", Some("ps"), Some("nx"), MasterPageRef::from("n")), "names");
        }
        Ok(())
    });
    // a header is shown in the file if and only if it has content and is not hidden
    for hide in [false, true] { for which in 0..6 {
        ctx.case("shown", format!("header {} hidden {}", which, hide), || {
            let mut wb = WorkBook::new_empty();
            let mut m = MasterPage::new("m1");
            {
                let h = match which { 0 => m.header_mut(), 1 => m.header_first_mut(), 2 => m.header_left_mut(), 3 => m.footer_mut(), 4 => m.footer_first_mut(), _ => m.footer_left_mut() };
                h.center_mut().add_text("c");
                if hide { h.set_display(false); }
            }
            wb.add_masterpage(m);
            wb.push_sheet(Sheet::new("s"));
            let x = String::from_utf8(write_fods_buf(&mut wb, Vec::new()).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            for (i, n) in ["style:header", "style:header-first", "style:header-left", "style:footer", "style:footer-first", "style:footer-left"].iter().enumerate() {
                let tag = x.split('<').find(|t| t.starts_with(&format!("{} ", n)) || t.starts_with(&format!("{}>", n)) || t.starts_with(&format!("{}/", n))).map(|t| t.split('>').next().unwrap_or("").to_string());
                let shown = tag.as_ref().map(|t| !t.contains("style:display=\"false\"")).unwrap_or(false);
                ckeq!(shown, i == which && !hide, "{} is shown", n);
            }
            let r = read_fods_buf(x.as_bytes()).map_err(|e| e.to_string())?;
            let m = r.masterpage("m1").ok_or("master page lost")?;
            let h = match which { 0 => m.header(), 1 => m.header_first(), 2 => m.header_left(), 3 => m.footer(), 4 => m.footer_first(), _ => m.footer_left() };
            ckeq!((h.display(), models(h.center())), (!hide, vec![p("c")]), "header read back");
            Ok(())
        });
    } }
}
fn checks(ctx: &mut Ctx) {
    ctx.case("validation", "Validation, ValidationError, ValidationHelp".into(), || {
        let v = Validation::new();
        ckeq!((v.name(), v.condition().to_string(), v.allow_empty(), format!("{:?}", v.display()), v.help().is_none()), ("", String::new(), true, "Unsorted".to_string(), true), "new check");
        let e = v.err().ok_or("a new check has an error message")?;
        ckeq!((e.display(), e.msg_type().to_string(), e.title(), e.text().is_none()), (true, "stop".to_string(), None, true), "new error");
        let mut v = v.clone();
        v.set_name("v1");
        v.set_condition(Condition::content_eq(5));
        let bc = CellRef::remote("s", 1, 2);
        v.set_base_cell(bc.clone());
        v.set_allow_empty(false);
        for (d, n) in [(ValidationDisplay::NoDisplay, "NoDisplay"), (ValidationDisplay::SortAscending, "SortAscending"), (ValidationDisplay::Unsorted, "Unsorted")] { v.set_display(d); ckeq!(format!("{:?}", v.display()), n, "display"); }
        ckeq!((v.name(), v.validation_ref(), v.condition().to_string(), v.base_cell(), v.allow_empty()), ("v1", ValidationRef::from("v1"), Condition::content_eq(5).to_string(), &bc, false), "fields");
        ck!(v.err().is_some() && v.help().is_none(), "messages untouched");
        for mut e in [ValidationError::new(), ValidationError::default()] {
            ckeq!((e.display(), e.msg_type().to_string(), e.title(), e.text().is_none()), (true, "stop".to_string(), None, true), "new error");
            for (t, n) in [(MessageType::Info, "information"), (MessageType::Warning, "warning"), (MessageType::Error, "stop")] { e.set_msg_type(t); ckeq!(e.msg_type().to_string(), n, "kind"); }
            e.set_display(false); e.set_title(Some("t".into())); e.set_text(Some(XmlTag::new("x")));
            ckeq!((e.display(), e.title(), e.text().map(model)), (false, Some("t"), Some(El::new("x"))), "error");
            e.set_text(None); ckeq!((e.display(), e.title(), e.text().is_none()), (false, Some("t"), true), "error"); e.set_title(None); e.set_display(true); ck!(e.title().is_none() && e.display(), "title");
        }
        for mut e in [ValidationHelp::new(), ValidationHelp::default()] {
            ckeq!((e.display(), e.title(), e.text().is_none()), (true, None, true), "new help");
            e.set_display(false); e.set_title(Some("t".into())); e.set_text(Some(XmlTag::new("x")));
            ckeq!((e.display(), e.title(), e.text().map(model)), (false, Some("t"), Some(El::new("x"))), "help");
            e.set_text(None); ckeq!((e.display(), e.title(), e.text().is_none()), (false, Some("t"), true), "help"); e.set_title(None); e.set_display(true); ck!(e.title().is_none() && e.display(), "title");
            v.set_help(Some(e));
        }
        ck!(v.help().is_some(), "help"); v.set_err(None); ck!(v.err().is_none() && v.help().is_some(), "err"); v.set_err(Some(ValidationError::new())); v.set_help(None); ck!(v.err().is_some() && v.help().is_none(), "help");
        for (s, d) in [("none", Some("NoDisplay")), ("unsorted", Some("Unsorted")), ("sort-ascending", Some("SortAscending")), ("x", None), ("", None)] {
            ckeq!(ValidationDisplay::try_from(s).ok().map(|d| format!("{:?}", d)), d.map(|d| d.to_string()), "{:?}", s);
            ckeq!(ValidationDisplay::try_from(s.as_bytes()).ok().map(|d| format!("{:?}", d)), d.map(|d| d.to_string()), "{:?}", s);
        }
        Ok(())
    });
    ctx.case("stylemap", "StyleMap, ValueStyleMap".into(), || {
        let m = StyleMap::new_empty();
        ckeq!((m.condition().to_string(), m.applied_style().as_str(), m.base_cell()), (String::new(), "", None), "new_empty");
        let c = CellRef::remote("s", 1, 2);
        let mut m = StyleMap::new(Condition::content_eq(5), AnyStyleRef::from("a"), Some(c.clone()));
        ckeq!((m.condition().to_string(), m.applied_style().as_str(), m.base_cell()), (Condition::content_eq(5).to_string(), "a", Some(&c)), "new");
        m.set_condition(Condition::content_lt(1)); ckeq!((m.condition().to_string(), m.applied_style().as_str(), m.base_cell()), (Condition::content_lt(1).to_string(), "a", Some(&c)), "set_condition");
        m.set_applied_style(AnyStyleRef::from("b")); ckeq!((m.condition().to_string(), m.applied_style().as_str(), m.base_cell()), (Condition::content_lt(1).to_string(), "b", Some(&c)), "set_applied_style");
        m.set_base_cell(None); ckeq!((m.condition().to_string(), m.applied_style().as_str(), m.base_cell()), (Condition::content_lt(1).to_string(), "b", None), "set_base_cell");
        let mut m = ValueStyleMap::new(ValueCondition::value_eq(3), "f");
        ckeq!((m.condition().to_string(), m.applied_style().as_str()), (ValueCondition::value_eq(3).to_string(), "f"), "new");
        m.set_condition(ValueCondition::value_lt(3)); ckeq!((m.condition().to_string(), m.applied_style().as_str()), (ValueCondition::value_lt(3).to_string(), "f"), "set_condition");
        m.set_applied_style("g"); ckeq!((m.condition().to_string(), m.applied_style().as_str()), (ValueCondition::value_lt(3).to_string(), "g"), "set_applied_style");
        Ok(())
    });
}
pub fn c20(ctx: &mut Ctx) {
    texts(ctx);
    draws(ctx);
    pages(ctx);
    checks(ctx);
    trees(ctx);
}
