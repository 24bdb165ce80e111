//! Generators shared by the modules.
use crate::core::Rng;
use chrono::{Duration, NaiveDate, NaiveDateTime};
use spreadsheet_ods::draw::{Annotation, DrawFrame, DrawFrameContent, DrawImage};
use spreadsheet_ods::text::TextP;
use spreadsheet_ods::text::TextTag;
use spreadsheet_ods::{CellContent, CellContentRef, Length, Value};

/// Text that stresses escaping, without line breaks, no leading/trailing/double blanks.
pub fn text_line(r: &mut Rng) -> String {
    const P: [&str; 22] = [
        "x", "abc", "a b", "a&b", "<b>", "\"q\"", "it's", "a;b", "&amp;", "&lt;", "]]>", "ü漢😀", "0", "true", "1.5", "=A1", "a>b",
        "&#65;", "<!-- c -->", "a\\b", "%20", "A1:B2",
    ];
    if r.chance(1, 2) {
        return r.pick(&P).to_string();
    }
    const C: [char; 24] = [
        'a', 'b', 'Z', '0', '9', '&', '<', '>', '"', '\'', ';', '#', '/', '=', '-', '[', ']', 'é', '漢', '😀', '.', ',', '!', '$',
    ];
    let n = 1 + r.below(9);
    (0..n).map(|_| *r.pick(&C)).collect()
}
/// with inner blanks of all kinds XML has to keep.
pub fn text_any(r: &mut Rng) -> String {
    let mut s = text_line(r);
    if r.chance(1, 3) {
        s.push(' ');
        s.push_str(&text_line(r));
    }
    if r.chance(1, 6) {
        const W: [&str; 8] = ["", " ", "  ", "\t", "a  b", " a", "a ", "a\tb"];
        s = r.pick(&W).to_string();
    }
    s
}
/// Several lines, some of them empty.
pub fn text_lines(r: &mut Rng) -> String {
    let n = 1 + r.below(4);
    (0..n).map(|_| if r.chance(1, 3) { String::new() } else { text_any(r) }).collect::<Vec<_>>().join("\n")
}
pub fn ident(r: &mut Rng) -> String {
    const P: [&str; 14] = ["s1", "style-2", "Ü3", "a b", "x&y", "q\"r", "<z>", "Default", "ce1", "it's", "n.m", "ta:1", "_x", "漢"];
    r.pick(&P).to_string()
}
pub fn number(r: &mut Rng) -> f64 {
    const B: [f64; 22] = [
        0.0, -0.0, 1.0, -1.0, 0.1, 1e-300, 1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 123456789.123456,
        5e-324, 9007199254740993.0, 1e15, 1e16, 1e17, 0.3, 2.5, 100.0, 1e21, 1e-7,
    ];
    match r.below(4) {
        0 => *r.pick(&B),
        1 => r.range(-100000, 100000) as f64 / 100.0,
        2 => r.range(-1_000_000, 1_000_000) as f64,
        _ => loop {
            let f = f64::from_bits(r.next());
            if f.is_finite() { break f; }
        },
    }
}
pub fn datetime(r: &mut Rng) -> NaiveDateTime {
    let d = match r.below(6) {
        0 => NaiveDate::from_ymd_opt(1899, 12, 30).unwrap(),
        1 => NaiveDate::from_ymd_opt(*r.pick(&[1, 999, 1582, 1600, 1970, 2000, 2024, 9999]), 12, 31).unwrap(),
        2 => NaiveDate::from_ymd_opt(*r.pick(&[1600, 2000, 2004, 2024]), 2, 29).unwrap(),
        _ => NaiveDate::from_num_days_from_ce_opt(1 + r.below(3_652_058) as i32).unwrap(),
    };
    let s = match r.below(4) { 0 => 0, 1 => 86399, _ => r.below(86400) as u32 };
    let n = match r.below(7) {
        0 | 1 | 2 => 0,
        3 => 1,
        4 => 999_999_999,
        5 => r.u32(1000) * 1_000_000,
        _ => r.u32(1_000_000_000),
    };
    d.and_time(chrono::NaiveTime::from_num_seconds_from_midnight_opt(s, n).unwrap())
}
pub fn duration(r: &mut Rng) -> Duration {
    let s = match r.below(6) {
        0 => *r.pick(&[0, 1, 59, 60, 61, 3599, 3600, 3601, 86399, 86400, 86401]),
        1 => r.range(0, 200_000),
        2 => r.range(0, 4_000_000_000),
        3 => r.range(0, 2_000_000),
        _ => r.range(0, 100_000_000),
    };
    let n = match r.below(6) {
        0 | 1 => 0,
        2 => 1,
        3 => 999_999_999,
        4 => r.range(0, 999) * 1_000_000,
        _ => r.range(0, 999_999_999),
    };
    let d = Duration::seconds(s) + Duration::nanoseconds(n);
    if r.chance(1, 4) { -d } else { d }
}
pub fn text_tag(r: &mut Rng) -> TextTag {
    use spreadsheet_ods::text::{TextS, TextSpan};
    use spreadsheet_ods::xmltree::XmlTag;
    let mut p = TextP::new();
    if r.chance(1, 3) { p = p.xml_id(&text_line(r)); }
    let n = 1 + r.below(4);
    let mut last_text = false;
    for _ in 0..n {
        match r.below(4) {
            0 | 1 => {
                if !last_text { p = p.text(text_line(r)); last_text = true; }
            }
            2 => { p = p.tag(XmlTag::from(TextSpan::new().text(text_line(r)))); last_text = false; }
            _ => { p = p.tag(XmlTag::from(TextS::new().count(r.u32(4)))); last_text = false; }
        }
    }
    // plain paragraphs are simplified to Value::Text when reading.
    p = p.tag(XmlTag::from(TextSpan::new().text(text_line(r))));
    p.into_xmltag()
}
pub fn value(r: &mut Rng) -> Value {
    match r.below(9) {
        0 => Value::Empty,
        1 => Value::Boolean(r.bool()),
        2 => Value::Number(number(r)),
        3 => Value::Percentage(number(r)),
        4 => Value::new_currency(*r.pick(&["EUR", "USD", "€", "", "A&B", "kč", "\"", "<>"]), number(r)),
        5 => Value::Text(text_any(r)),
        6 => Value::Text(text_lines(r)),
        7 => Value::DateTime(datetime(r)),
        _ => Value::TimeDuration(duration(r)),
    }
}
pub fn value_xml(r: &mut Rng) -> Value {
    if r.chance(1, 9) {
        let n = 1 + r.below(3);
        Value::TextXml((0..n).map(|_| text_tag(r)).collect())
    } else {
        value(r)
    }
}
pub fn annotation(r: &mut Rng) -> Annotation {
    let mut a = Annotation::new(text_line(r));
    a.set_name(text_line(r));
    a.set_display(r.bool());
    if r.bool() { a.set_creator(Some(text_line(r))); }
    if r.bool() { a.set_date(Some(datetime(r))); }
    if r.bool() { a.push_text_str(text_line(r)); }
    a
}
pub fn draw_frame(r: &mut Rng) -> DrawFrame {
    let mut f = DrawFrame::new();
    f.set_draw_name(text_line(r));
    if r.bool() { f.set_title(text_line(r)); }
    if r.bool() { f.set_desc(text_line(r)); }
    if r.bool() {
        let mut i = DrawImage::new();
        i.set_binary(&[1, 2, 3, r.below(256) as u8, 0, 255]);
        f.push_content(DrawFrameContent::Image(i));
    }
    f
}
pub fn length(r: &mut Rng) -> Length {
    let v = *r.pick(&[0.0, 0.5, 1.0, 2.25, 10.0, 12.7, 0.017]);
    match r.below(6) {
        0 => Length::Cm(v),
        1 => Length::Mm(v),
        2 => Length::In(v),
        3 => Length::Pt(v),
        4 => Length::Pc(v),
        _ => Length::Em(v),
    }
}
pub fn fp_value(v: &Value) -> String {
    match v {
        Value::Number(n) => format!("Number({:?})", n),
        v => format!("{:?}", v),
    }
}
/// an XML tree with adjacent text nodes joined.
pub fn norm_tag(t: &spreadsheet_ods::xmltree::XmlTag) -> spreadsheet_ods::xmltree::XmlTag {
    use spreadsheet_ods::xmltree::{XmlContent, XmlTag};
    let mut n = XmlTag::new(t.name());
    let mut at: Vec<_> = t.attrmap().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    at.sort();
    for (k, v) in &at { n.set_attr(k.as_str(), v.clone()); }
    let mut buf = String::new();
    for c in t.content() {
        match c {
            XmlContent::Text(x) => buf.push_str(x),
            XmlContent::Tag(x) => {
                if !buf.is_empty() { n.add_text(std::mem::take(&mut buf)); }
                n.add_tag(norm_tag(x));
            }
        }
    }
    if !buf.is_empty() { n.add_text(buf); }
    n
}
pub fn norm_value(v: &Value) -> Value {
    match v {
        Value::TextXml(t) => Value::TextXml(t.iter().map(norm_tag).collect()),
        // each line is a paragraph in the file.
        Value::Text(t) if t.contains('\n') => {
            Value::TextXml(t.split('\n').map(|l| norm_tag(&TextP::new().text(l).into_xmltag())).collect())
        }
        v => v.clone(),
    }
}
pub fn norm_content(c: &CellContent) -> CellContent {
    let mut c = c.clone();
    c.value = norm_value(&c.value);
    if let Some(a) = c.annotation.as_mut() {
        let t = a.text().iter().map(norm_tag).collect();
        a.set_text(t);
    }
    c
}
/// What a user sees of one cell.
pub fn fp_ref(c: &CellContentRef<'_>) -> String {
    format!(
        "value={} formula={:?} style={:?} repeat={} valid={:?} span=({},{}) mspan=({},{}) ann={:?} frames={:?}",
        fp_value(c.value()), c.formula(), c.style().map(|v| v.as_str()), c.repeat(), c.validation().map(|v| v.as_str()),
        c.row_span(), c.col_span(), c.matrix_row_span(), c.matrix_col_span(), c.annotation(),
        c.draw_frames().cloned().unwrap_or_default()
    )
}
pub fn fp_content(c: &CellContent) -> String {
    let mut c = c.clone();
    let rep = c.get_repeat();
    format!(
        "value={} formula={:?} style={:?} repeat={} valid={:?} span=({},{}) mspan=({},{}) ann={:?} frames={:?}",
        fp_value(c.value()), c.formula(), c.style().map(|v| v.as_str()), rep, c.validation().map(|v| v.as_str()),
        c.row_span(), c.col_span(), c.matrix_row_span(), c.matrix_col_span(), c.annotation(), c.draw_frames()
    )
}
