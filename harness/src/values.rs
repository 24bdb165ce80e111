//! C09 text of values, C13 typed access to values.
use crate::core::{Ctx, Rng};
use crate::gen::*;
use crate::io::*;
use crate::{ck, ckeq};
use chrono::{Duration, NaiveDate, NaiveDateTime, NaiveTime};
use rust_decimal::prelude::{FromPrimitive, ToPrimitive};
use rust_decimal::Decimal;
use spreadsheet_ods::style::ColStyle;
use spreadsheet_ods::text::{TextP, TextTag};
use spreadsheet_ods::xmltree::XmlTag;
use spreadsheet_ods::{currency, percent, Length, Sheet, Value, ValueType, WorkBook};

fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) | (Value::Percentage(x), Value::Percentage(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        (Value::Currency(x, c), Value::Currency(y, d)) => x.to_bits() == y.to_bits() && c == d,
        (a, b) => a == b,
    }
}
fn any_datetime(r: &mut Rng) -> NaiveDateTime {
    if r.chance(2, 3) { return datetime(r); }
    let d = NaiveDate::from_num_days_from_ce_opt(r.range(-95_000_000, 95_000_000) as i32).unwrap();
    d.and_time(datetime(r).time())
}
fn any_duration(r: &mut Rng) -> Duration {
    if r.chance(2, 3) { return duration(r); }
    match r.below(5) {
        0 => Duration::MAX,
        1 => Duration::MIN,
        2 => Duration::milliseconds((r.next() as i64).max(-i64::MAX)),
        3 => Duration::nanoseconds(r.next() as i64),
        _ => Duration::nanoseconds(r.range(-2_000_000_000, 2_000_000_000)),
    }
}
fn doc(attrs: &str) -> Vec<u8> {
    format!(
        "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<office:document office:version=\"1.3\" office:mimetype=\"application/vnd.oasis.opendocument.spreadsheet\"><office:body><office:spreadsheet><table:table table:name=\"x\"><table:table-column/><table:table-row><table:table-cell {}/></table:table-row></table:table></office:spreadsheet></office:body></office:document>",
        attrs
    )
    .into_bytes()
}
fn digits(r: &mut Rng, max: u64) -> String {
    let n = 1 + r.below(max);
    (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
}
fn mutate(r: &mut Rng, s: &str) -> String {
    const C: [char; 22] = ['0', '1', '9', '-', '+', '.', ':', 'T', 'Z', 'P', 'D', 'H', 'M', 'S', ' ', 'e', 'x', ',', 'é', 't', 'Y', '/'];
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(2) {
        match r.below(3) {
            0 => { let k = r.below(v.len() as u64 + 1) as usize; v.insert(k, *r.pick(&C)); }
            1 if !v.is_empty() => { let k = r.below(v.len() as u64) as usize; v.remove(k); }
            _ if !v.is_empty() => { let k = r.below(v.len() as u64) as usize; v[k] = *r.pick(&C); }
            _ => {}
        }
    }
    v.into_iter().collect()
}
struct Sc<'a> { s: &'a [u8], i: usize }
impl Sc<'_> {
    fn b(&mut self, c: u8) -> bool { if self.s.get(self.i) == Some(&c) { self.i += 1; true } else { false } }
    fn num(&mut self) -> Option<&[u8]> { let a = self.i; while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; } if self.i > a { Some(&self.s[a..self.i]) } else { None } }
    fn int(&mut self) -> Option<Result<i128, ()>> { self.num().map(|d| if d.len() > 30 { Err(()) } else { String::from_utf8_lossy(d).parse::<i128>().map_err(|_| ()).and_then(|v| if v > i64::MAX as i128 { Err(()) } else { Ok(v) }) }) }
    fn frac(&mut self) -> Option<i128> { self.num().map(|d| { let mut v = 0i128; for k in 0..9 { v = v * 10 + if k < d.len() { (d[k] - b'0') as i128 } else { 0 }; } v }) }
    fn end(&self) -> bool { self.i == self.s.len() }
}
/// xs:duration without years and months. None: not a duration.
fn oracle_duration(s: &str) -> Option<Duration> {
    let mut p = Sc { s: s.as_bytes(), i: 0 };
    let neg = p.b(b'-');
    if !p.b(b'P') { return None; }
    let mut sum: i128 = 0; // nanos
    let mut unit = |p: &mut Sc<'_>, c: u8, secs: i128| -> Option<()> {
        let save = p.i;
        match p.int() { None => Some(()), Some(v) => { if p.b(c) { sum += v.ok()? * secs * 1_000_000_000; Some(()) } else { p.i = save; if v.is_err() { return None; } Some(()) } } }
    };
    unit(&mut p, b'D', 86400)?;
    if p.b(b'T') {
        unit(&mut p, b'H', 3600)?;
        unit(&mut p, b'M', 60)?;
        let save = p.i;
        if let Some(v) = p.int() {
            let v = v.ok();
            let mut f = 0;
            let save2 = p.i;
            if p.b(b'.') { match p.frac() { Some(x) => f = x, None => p.i = save2 } }
            if p.b(b'S') { sum += v? * 1_000_000_000 + f; } else { p.i = save; }
        }
    }
    if !p.end() { return None; }
    if sum > i64::MAX as i128 * 1_000_000 { return None; }
    let d = Duration::new((sum / 1_000_000_000) as i64, (sum % 1_000_000_000) as u32)?;
    Some(if neg { -d } else { d })
}
enum Dt { Bad, Ok(NaiveDateTime), Lenient }
fn oracle_datetime(s: &str) -> Dt {
    let mut p = Sc { s: s.as_bytes(), i: 0 };
    let neg = p.b(b'-');
    macro_rules! int { () => { match p.int() { Some(Ok(v)) => v, _ => return Dt::Bad } } }
    macro_rules! b { ($c:expr) => { if !p.b($c) { return Dt::Bad; } } }
    let y = int!();
    b!(b'-');
    let m = int!();
    b!(b'-');
    let d = int!();
    let (mut hh, mut mm, mut ss, mut nn) = (0, 0, 0, 0);
    let save = p.i;
    let mut time = || -> Option<()> {
        if !p.b(b'T') { return None; }
        hh = p.int()?.ok()?;
        if !p.b(b':') { return None; }
        mm = p.int()?.ok()?;
        if !p.b(b':') { return None; }
        ss = p.int()?.ok()?;
        let s2 = p.i;
        if p.b(b'.') { match p.frac() { Some(v) => nn = v, None => p.i = s2 } }
        Some(())
    };
    if time().is_none() { p.i = save; }
    p.b(b'Z');
    if !p.end() { return Dt::Bad; }
    let y = if neg { -y } else { y };
    if y.abs() > 200_000 || m > 12 || d > 31 || hh > 23 || mm > 59 || ss > 59 { return Dt::Lenient; }
    match NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).and_then(|v| v.and_hms_nano_opt(hh as u32, mm as u32, ss as u32, nn as u32)) {
        Some(v) => Dt::Ok(v),
        None => Dt::Lenient,
    }
}
fn read_cell(attrs: &str) -> Result<Value, String> {
    read(&doc(attrs), Fmt::Fods).map(|b| b.sheet(0).value(0, 0).clone())
}
pub fn c09(ctx: &mut Ctx) {
    ctx.section("values through the file");
    let mut r = ctx.rng("c09");
    for _ in 0..ctx.n(400, 12_000) {
        if !ctx.time_left() { break; }
        let vals: Vec<Value> = (0..60).map(|_| match r.below(7) {
            0 => Value::Boolean(r.bool()),
            1 => Value::Number(number(&mut r)),
            2 => Value::Percentage(number(&mut r)),
            3 => Value::new_currency(*r.pick(&["EUR", "", "€", "A&B"]), number(&mut r)),
            4 => Value::Number(*r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, 5e-324])),
            5 => Value::DateTime(any_datetime(&mut r)),
            _ => Value::TimeDuration(any_duration(&mut r)),
        }).collect();
        let f = fmt(&mut r);
        ctx.case("file", format!("{:?} {:?}", f, vals), || {
            let mut b = WorkBook::new_empty();
            let mut s = Sheet::new("x");
            for (i, v) in vals.iter().enumerate() { s.set_value(i as u32, 0, v.clone()); }
            b.push_sheet(s);
            let b2 = roundtrip(&mut b, f)?;
            for (i, v) in vals.iter().enumerate() {
                let g = b2.sheet(0).value(i as u32, 0);
                ck!(same(g, v), "value {:?} is read back as {:?}", v, g);
            }
            Ok(())
        });
    }
    ctx.section("text to value");
    let mut r = ctx.rng("c09t");
    for _ in 0..ctx.n(12_000, 400_000) {
        if !ctx.time_left() { break; }
        let kind = r.below(6);
        let mut t = match kind {
            0 => { // float
                let mut t = String::new();
                if r.chance(1, 3) { t.push('-'); }
                t.push_str(&digits(&mut r, 20));
                if r.bool() { t.push('.'); t.push_str(&digits(&mut r, 20)); }
                if r.chance(1, 3) { t.push(*r.pick(&['e', 'E'])); if r.bool() { t.push('-'); } t.push_str(&digits(&mut r, 3)); }
                t
            }
            1 | 2 => { // duration
                let mut t = String::new();
                let l = if r.chance(1, 12) { 19 } else { 4 };
                if r.chance(1, 4) { t.push('-'); }
                t.push('P');
                if r.chance(1, 3) { t.push_str(&digits(&mut r, l)); t.push('D'); }
                if r.chance(5, 6) {
                    t.push('T');
                    if r.chance(2, 3) { t.push_str(&digits(&mut r, l)); t.push('H'); }
                    if r.chance(2, 3) { t.push_str(&digits(&mut r, l)); t.push('M'); }
                    if r.chance(2, 3) { t.push_str(&digits(&mut r, l)); if r.bool() { t.push('.'); t.push_str(&digits(&mut r, 12)); } t.push('S'); }
                }
                t
            }
            3 => { // date
                let d = any_datetime(&mut r);
                let mut t = if r.bool() { d.date().format("%Y-%m-%d").to_string() } else { d.format("%Y-%m-%dT%H:%M:%S").to_string() };
                if t.starts_with('+') { t.remove(0); }
                if t.contains('T') && r.bool() { t.push('.'); t.push_str(&digits(&mut r, 12)); }
                if r.chance(1, 8) { t.push('Z'); }
                t
            }
            4 => r.pick(&["true", "false", "1", "0", "", "True", "TRUE", "tru", "truee", " true", "f", "yes"]).to_string(),
            _ => r.pick(&["1", "2", "4294967295", "4294967296", "0", "007", "-1", "+1", "", " 1", "1 ", "1.0", "x", "99999999999999999999", "65536"]).to_string(),
        };
        if kind < 4 && r.chance(1, 3) { t = mutate(&mut r, &t); }
        ctx.case(["float", "duration", "duration", "date", "bool", "u32"][kind as usize], format!("kind {} text {:?}", kind, t), || {
            match kind {
                0 => {
                    let got = read_cell(&format!("office:value-type=\"float\" office:value=\"{}\"", t));
                    // only decimal digits, sign, point, exponent.
                    let ok = { let mut p = Sc { s: t.as_bytes(), i: 0 }; p.b(b'-'); let a = p.num().is_some(); let mut ok = a; if ok && p.b(b'.') { ok = p.num().is_some(); } if ok && (p.b(b'e') || p.b(b'E')) { let _ = p.b(b'-') || p.b(b'+'); ok = p.num().is_some(); } ok && p.end() };
                    let std = t.parse::<f64>();
                    if ok {
                        let Ok(Value::Number(g)) = &got else { return Err(format!("number {:?} is read as {:?}", t, got)); };
                        ckeq!(g.to_bits(), std.clone().unwrap().to_bits(), "number {:?} = {}", t, g);
                    } else if std.is_err() {
                        ck!(got.is_err(), "{:?} is not a number, but read as {:?}", t, got);
                    }
                }
                1 | 2 => {
                    let got = read_cell(&format!("office:value-type=\"time\" office:time-value=\"{}\"", t));
                    match oracle_duration(&t) {
                        Some(d) => ckeq!(got, Ok(Value::TimeDuration(d)), "duration {:?}", t),
                        None => ck!(got.is_err(), "{:?} is not a duration, but read as {:?}", t, got),
                    }
                }
                3 => {
                    let got = read_cell(&format!("office:value-type=\"date\" office:date-value=\"{}\"", t));
                    match oracle_datetime(&t) {
                        Dt::Ok(d) => ckeq!(got, Ok(Value::DateTime(d)), "date {:?}", t),
                        Dt::Bad => ck!(got.is_err(), "{:?} is not a date, but read as {:?}", t, got),
                        Dt::Lenient => {}
                    }
                }
                4 => {
                    let got = read_cell(&format!("office:value-type=\"boolean\" office:boolean-value=\"{}\"", t));
                    match t.as_str() {
                        "true" => ckeq!(got, Ok(Value::Boolean(true)), "bool {:?}", t),
                        "false" => ckeq!(got, Ok(Value::Boolean(false)), "bool {:?}", t),
                        _ => ck!(got.is_err(), "{:?} is not a bool, but read as {:?}", t, got),
                    }
                }
                _ => {
                    let got = read(&doc(&format!("table:number-matrix-rows-spanned=\"{}\" office:value-type=\"float\" office:value=\"1\"", t)), Fmt::Fods).map(|b| b.sheet(0).matrix_row_span(0, 0));
                    match t.parse::<u32>() {
                        Ok(v) if !t.starts_with('+') => ckeq!(got, Ok(v.max(1)), "count {:?}", t),
                        _ => ck!(got.is_err(), "{:?} is not a count, but read as {:?}", t, got),
                    }
                }
            }
            Ok(())
        });
    }
    ctx.section("value type");
    for (ty, attrs) in [
        ("float", "office:value=\"7\""), ("percentage", "office:value=\"7\""), ("currency", "office:value=\"7\" office:currency=\"EUR\""), ("currency", "office:value=\"7\""),
        ("string", "office:string-value=\"7\""), ("date", "office:date-value=\"2000-01-01\""), ("time", "office:time-value=\"PT7S\""), ("boolean", "office:boolean-value=\"true\""),
        ("float", ""), ("percentage", ""), ("currency", "office:currency=\"EUR\""), ("date", ""), ("time", ""), ("boolean", ""), ("nonsense", "office:value=\"7\""),
    ] {
        ctx.case("type", format!("{} {}", ty, attrs), || {
            let got = read_cell(&format!("office:value-type=\"{}\" {}", ty, attrs));
            if attrs.is_empty() || ty == "nonsense" || attrs.starts_with("office:currency") {
                ck!(got.is_err(), "{} without a value is read as {:?}", ty, got);
                return Ok(());
            }
            let want = match ty {
                "float" => Value::Number(7.0),
                "percentage" => Value::Percentage(7.0),
                "currency" => Value::new_currency(if attrs.contains("EUR") { "EUR" } else { "" }, 7.0),
                "string" => Value::Text("7".into()),
                "date" => Value::DateTime(NaiveDate::from_ymd_opt(2000, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap()),
                "time" => Value::TimeDuration(Duration::seconds(7)),
                _ => Value::Boolean(true),
            };
            ckeq!(got, Ok(want), "{} {}", ty, attrs);
            Ok(())
        });
    }
    ctx.section("lengths");
    let mut r = ctx.rng("c09l");
    for _ in 0..ctx.n(4_000, 100_000) {
        if !ctx.time_left() { break; }
        let v = number(&mut r);
        let l = match r.below(6) { 0 => Length::Cm(v), 1 => Length::Mm(v), 2 => Length::In(v), 3 => Length::Pt(v), 4 => Length::Pc(v), _ => Length::Em(v) };
        ctx.case("length", format!("{:?}", l), || {
            let mut s = ColStyle::new("x");
            s.set_col_width(l);
            match s.col_width() { Ok(g) => ckeq!(g, l, "length {}", l), Err(e) => return Err(format!("length {} {:?}", l, e)) }
            ckeq!(l.to_string(), format!("{}{}", v, match l { Length::Cm(_) => "cm", Length::Mm(_) => "mm", Length::In(_) => "in", Length::Pt(_) => "pt", Length::Pc(_) => "pc", _ => "em" }), "text of a length");
            ckeq!(l.is_positive(), v >= 0.0, "is_positive of {:?}", l);
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C13
fn val_any(r: &mut Rng) -> Value {
    match r.below(5) { 0 => Value::TextXml((0..r.below(4)).map(|_| text_tag(r)).collect()), 1 => Value::Number(r.range(-70000, 70000) as f64 * 0.5), _ => value(r) }
}
fn plain(t: &XmlTag) -> String {
    use spreadsheet_ods::xmltree::XmlContent;
    t.content().iter().map(|c| match c { XmlContent::Text(t) => t.clone(), XmlContent::Tag(t) => plain(t) }).collect()
}
pub fn c13(ctx: &mut Ctx) {
    ctx.section("accessors");
    let mut r = ctx.rng("c13");
    for _ in 0..ctx.n(20_000, 400_000) {
        if !ctx.time_left() { break; }
        let v = val_any(&mut r);
        let (db, dn, df) = (r.bool(), r.below(100) as u8, number(&mut r));
        let dd = duration(&mut r);
        let dt = datetime(&mut r);
        let ds = text_line(&mut r);
        ctx.case("access", format!("{:?} defaults {} {} {} {} {} {:?}", v, db, dn, df, dd, dt, ds), || {
            let num = match &v { Value::Number(n) | Value::Percentage(n) | Value::Currency(n, _) => Some(*n), _ => None };
            let ty = match &v {
                Value::Empty => ValueType::Empty, Value::Boolean(_) => ValueType::Boolean, Value::Number(_) => ValueType::Number, Value::Percentage(_) => ValueType::Percentage,
                Value::Currency(..) => ValueType::Currency, Value::Text(_) => ValueType::Text, Value::TextXml(_) => ValueType::TextXml, Value::DateTime(_) => ValueType::DateTime, Value::TimeDuration(_) => ValueType::TimeDuration,
            };
            ckeq!(v.value_type(), ty, "value_type");
            ckeq!(v.as_bool_or(db), if let Value::Boolean(b) = v { b } else { db }, "as_bool_or");
            macro_rules! int {
                ($t:ty, $o:ident, $or:ident, $d:ident) => {
                    // saturating, truncating conversion
                    let want = num.map(|n| { let n = n.trunc(); if n.is_nan() { 0 } else if n >= <$t>::MAX as f64 { <$t>::MAX } else if n <= <$t>::MIN as f64 { <$t>::MIN } else { format!("{:.0}", n).parse::<i128>().unwrap() as $t } });
                    ckeq!(v.$o(), want, stringify!($o));
                    ckeq!(v.$or(dn as $t), want.unwrap_or(dn as $t), stringify!($or));
                    ckeq!(v.$d(), want.unwrap_or(0), stringify!($d));
                };
            }
            int!(i64, as_i64_opt, as_i64_or, as_i64_or_default);
            int!(u64, as_u64_opt, as_u64_or, as_u64_or_default);
            int!(i32, as_i32_opt, as_i32_or, as_i32_or_default);
            int!(u32, as_u32_opt, as_u32_or, as_u32_or_default);
            int!(i16, as_i16_opt, as_i16_or, as_i16_or_default);
            int!(u16, as_u16_opt, as_u16_or, as_u16_or_default);
            int!(i8, as_i8_opt, as_i8_or, as_i8_or_default);
            int!(u8, as_u8_opt, as_u8_or, as_u8_or_default);
            ckeq!(v.as_f64_opt().map(f64::to_bits), num.map(f64::to_bits), "as_f64_opt");
            ckeq!(v.as_f64_or(df).to_bits(), num.unwrap_or(df).to_bits(), "as_f64_or");
            ckeq!(v.as_f64_or_default().to_bits(), num.unwrap_or(0.0).to_bits(), "as_f64_or_default");
            let dec = num.and_then(Decimal::from_f64);
            ckeq!(v.as_decimal_opt(), dec, "as_decimal_opt");
            ckeq!(v.as_decimal_or(Decimal::from(dn)), dec.unwrap_or(Decimal::from(dn)), "as_decimal_or");
            ckeq!(v.as_decimal_or_default(), dec.unwrap_or_default(), "as_decimal_or_default");
            let txt = if let Value::Text(s) = &v { Some(s.as_str()) } else { None };
            ckeq!(v.as_str_opt(), txt, "as_str_opt");
            ckeq!(v.as_str_or(&ds), txt.unwrap_or(&ds), "as_str_or");
            ckeq!(v.as_str_or_default(), txt.unwrap_or(""), "as_str_or_default");
            ckeq!(v.as_string_opt(), txt.map(|s| s.to_string()), "as_string_opt");
            ckeq!(v.as_string_or_default(), txt.unwrap_or("").to_string(), "as_string_or_default");
            let cow = match &v { Value::Text(s) => s.clone(), Value::TextXml(t) => t.iter().map(plain).collect::<Vec<_>>().join("\n"), _ => ds.clone() };
            ckeq!(v.as_cow_str_or(&ds).to_string(), cow, "as_cow_str_or");
            let du = if let Value::TimeDuration(d) = &v { Some(*d) } else { None };
            ckeq!(v.as_timeduration_opt(), du, "as_timeduration_opt");
            ckeq!(v.as_timeduration_or(dd), du.unwrap_or(dd), "as_timeduration_or");
            ckeq!(v.as_timeduration_or_default(), du.unwrap_or_default(), "as_timeduration_or_default");
            let da = if let Value::DateTime(d) = &v { Some(*d) } else { None };
            ckeq!(v.as_datetime_opt(), da, "as_datetime_opt");
            ckeq!(v.as_datetime_or(dt), da.unwrap_or(dt), "as_datetime_or");
            ckeq!(v.as_datetime_or_default(), da.unwrap_or_default(), "as_datetime_or_default");
            ckeq!(v.as_date_opt(), da.map(|v| v.date()), "as_date_opt");
            ckeq!(v.as_date_or(dt.date()), da.unwrap_or(dt).date(), "as_date_or");
            ckeq!(v.as_date_or_default(), da.unwrap_or_default().date(), "as_date_or_default");
            ckeq!(v.currency(), if let Value::Currency(_, c) = &v { c } else { "" }, "currency");
            Ok(())
        });
    }
    ctx.section("conversions");
    for _ in 0..ctx.n(6_000, 150_000) {
        if !ctx.time_left() { break; }
        let n = r.next();
        let f = number(&mut r);
        let s = text_lines(&mut r);
        let dt = datetime(&mut r);
        let du = duration(&mut r);
        let dec = Decimal::from_i128_with_scale(r.next() as i64 as i128, r.u32(20));
        let tags: Vec<TextTag> = (0..1 + r.below(3)).map(|_| text_tag(&mut r)).collect();
        ctx.case("convert", format!("{} {} {:?} {} {} {}", n, f, s, dt, du, dec), || {
            macro_rules! numb { ($t:ty) => {{ let x = n as $t; let w = Value::Number(x as f64); ckeq!(Value::from(x), w, stringify!($t)); ckeq!(Value::from(&x), w, stringify!(&$t)); ckeq!(Value::from(Some(x)), w, stringify!(Option<$t>)); ckeq!(Value::from(Some(&x)), w, stringify!(Option<&$t>)); ckeq!(Value::from(None::<$t>), Value::Empty, stringify!(None $t)); ckeq!(Value::from(None::<&$t>), Value::Empty, stringify!(None &$t)); }}; }
            numb!(i64); numb!(u64); numb!(i32); numb!(u32); numb!(i16); numb!(u16); numb!(i8); numb!(u8); numb!(f32);
            // integers survive as long as they are exactly representable
            let small = (n as i64) >> 11;
            ckeq!(Value::from(small).as_i64_opt(), Some(small), "i64 there and back");
            ckeq!(Value::from(n as u32).as_u32_opt(), Some(n as u32), "u32 there and back");
            ck!(same(&Value::from(f), &Value::Number(f)) && same(&Value::from(&f), &Value::Number(f)) && same(&Value::from(Some(f)), &Value::Number(f)), "f64");
            ckeq!(Value::from(None::<f64>), Value::Empty, "None f64");
            let w = Value::Number(dec.to_f64().unwrap());
            ckeq!(Value::from(dec), w, "Decimal");
            ckeq!(Value::from(Some(dec)), w, "Some(Decimal)");
            ckeq!(Value::from(None::<Decimal>), Value::Empty, "None Decimal");
            let w = Value::Text(s.clone());
            ckeq!(Value::from(s.as_str()), w, "&str");
            ckeq!(Value::from(s.clone()), w, "String");
            ckeq!(Value::from(&s), w, "&String");
            ckeq!(Value::from(Some(s.as_str())), w, "Some(&str)");
            ckeq!(Value::from(Some(&s)), w, "Some(&String)");
            ckeq!(Value::from(Some(s.clone())), w, "Some(String)");
            ckeq!(Value::from(None::<&str>), Value::Empty, "None &str");
            ckeq!(Value::from(None::<String>), Value::Empty, "None String");
            ckeq!(Value::from(None::<&String>), Value::Empty, "None &String");
            ckeq!(Value::from(()), Value::Empty, "()");
            for b in [true, false] { ckeq!(Value::from(b), Value::Boolean(b), "bool"); ckeq!(Value::from(Some(b)), Value::Boolean(b), "Some(bool)"); }
            ckeq!(Value::from(None::<bool>), Value::Empty, "None bool");
            ckeq!(Value::from(dt), Value::DateTime(dt), "NaiveDateTime");
            ckeq!(Value::from(Some(dt)), Value::DateTime(dt), "Some(NaiveDateTime)");
            ckeq!(Value::from(None::<NaiveDateTime>), Value::Empty, "None NaiveDateTime");
            let d0 = dt.date().and_time(NaiveTime::MIN);
            ckeq!(Value::from(dt.date()), Value::DateTime(d0), "NaiveDate");
            ckeq!(Value::from(Some(dt.date())), Value::DateTime(d0), "Some(NaiveDate)");
            ckeq!(Value::from(None::<NaiveDate>), Value::Empty, "None NaiveDate");
            let t0 = NaiveDate::from_ymd_opt(1899, 12, 30).unwrap().and_time(dt.time());
            ckeq!(Value::from(dt.time()), Value::DateTime(t0), "NaiveTime");
            ckeq!(Value::from(Some(dt.time())), Value::DateTime(t0), "Some(NaiveTime)");
            ckeq!(Value::from(None::<NaiveTime>), Value::Empty, "None NaiveTime");
            ckeq!(Value::from(du), Value::TimeDuration(du), "Duration");
            ckeq!(Value::from(Some(du)), Value::TimeDuration(du), "Some(Duration)");
            ckeq!(Value::from(None::<Duration>), Value::Empty, "None Duration");
            ckeq!(Value::from(tags[0].clone()), Value::TextXml(vec![tags[0].clone()]), "TextTag");
            ckeq!(Value::from(tags.clone()), Value::TextXml(tags.clone()), "Vec<TextTag>");
            ck!(same(&Value::new_currency(&s, f), &Value::Currency(f, s.as_str().into())), "new_currency");
            ck!(same(&Value::new_percentage(f), &Value::Percentage(f)), "new_percentage");
            ck!(same(&currency!(&s, f), &Value::Currency(f, s.as_str().into())), "currency!");
            ck!(same(&percent!(f), &Value::Percentage(f)), "percent!");
            ckeq!(Value::default(), Value::Empty, "default");
            // and through a sheet
            let mut sh = Sheet::new("x");
            sh.set_value(1, 2, f);
            ckeq!(sh.value(1, 2).as_f64_opt().map(f64::to_bits), Some(f.to_bits()), "sheet value");
            ckeq!(sh.value(2, 1), &Value::Empty, "empty sheet value");
            Ok(())
        });
    }
    let _ = TextP::new();
}
