//! C12 collections of the workbook.
use crate::core::{Ctx, Rng};
use crate::gen::*;
use crate::{ck, ckeq};
use spreadsheet_ods::format::*;
use spreadsheet_ods::style::*;
use spreadsheet_ods::validation::Validation;
use spreadsheet_ods::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn tag_sheet(name: &str, n: u32) -> Sheet {
    let mut s = Sheet::new(name);
    s.set_value(n % 7, n % 5, n);
    s
}
fn fp_sheet(s: &Sheet) -> String {
    format!("{}:{:?}", s.name(), s.iter().map(|(k, c)| (k, c.value().as_u32_or(u32::MAX))).collect::<Vec<_>>())
}

fn sheets(r: &mut Rng, steps: u64) -> (String, Vec<(u8, usize, u32, String)>) {
    let names = ["a", "b", "c", "a b", "x", "漢", ""];
    let v: Vec<_> = (0..steps).map(|i| (r.below(9) as u8, r.below(6) as usize, i as u32 + 1, r.pick(&names).to_string())).collect();
    (format!("{:?}", v), v)
}
fn run_sheets(ops: &[(u8, usize, u32, String)], with_styles: bool) -> Result<(), String> {
    let mut b = if with_styles { WorkBook::new(icu_locale_core::locale!("en-US")) } else { WorkBook::new_empty() };
    let mut m: Vec<String> = vec![];
    // sheets that are currently detached, by position
    let mut det: Vec<(usize, Detached<usize, Sheet>)> = vec![];
    for (op, i, n, name) in ops {
        match op {
            0 | 1 => {
                let s = tag_sheet(name, *n);
                m.push(fp_sheet(&s));
                b.push_sheet(s);
            }
            2 => {
                if det.is_empty() {
                    let at = if m.is_empty() { 0 } else { i % (m.len() + 1) };
                    let s = tag_sheet(name, *n);
                    m.insert(at, fp_sheet(&s));
                    b.insert_sheet(at, s);
                }
            }
            3 => {
                if det.is_empty() && !m.is_empty() {
                    let at = i % m.len();
                    let s = b.remove_sheet(at);
                    ckeq!(fp_sheet(&s), m.remove(at), "removed sheet {}", at);
                }
            }
            4 => {
                if !m.is_empty() {
                    let at = i % m.len();
                    if det.iter().any(|d| d.0 == at) {
                        let r = catch_unwind(AssertUnwindSafe(|| { let _ = b.detach_sheet(at); }));
                        ck!(r.is_err(), "detaching sheet {} twice is not refused", at);
                    } else {
                        let d = b.detach_sheet(at);
                        ckeq!(Detached::key(&d), at, "key of the detached sheet");
                        ckeq!(fp_sheet(&d), m[at], "detached sheet {}", at);
                        det.push((at, d));
                    }
                }
            }
            5 => {
                if let Some(k) = (!det.is_empty()).then(|| i % det.len()) {
                    let (at, mut d) = det.remove(k);
                    d.set_value(20, 1, *n);
                    m[at] = fp_sheet(&d);
                    b.attach_sheet(d);
                }
            }
            6 => {
                if !m.is_empty() {
                    let at = i % m.len();
                    if !det.iter().any(|d| d.0 == at) {
                        b.sheet_mut(at).set_value(9, 9, *n);
                        m[at] = fp_sheet(b.sheet(at));
                    }
                }
            }
            7 => {
                // styles can be added while sheets are detached.
                let mut st = CellStyle::new_empty();
                st.set_name(name.as_str());
                let rf = b.add_cellstyle(st);
                ck!(b.cellstyle(&rf).is_some(), "style {:?} is not found", rf);
            }
            _ => {
                if det.is_empty() {
                    let want = m.iter().position(|v| v.starts_with(&format!("{}:", name)));
                    ckeq!(b.sheet_idx(name), want, "sheet_idx {:?}", name);
                }
            }
        }
        ckeq!(b.num_sheets(), m.len(), "number of sheets");
        for (k, w) in m.iter().enumerate() {
            if !det.iter().any(|d| d.0 == k) { ckeq!(fp_sheet(b.sheet(k)), *w, "sheet {}", k); }
        }
        if det.is_empty() {
            ckeq!(b.iter_sheets().map(fp_sheet).collect::<Vec<_>>(), m, "iter_sheets");
            let c = b.clone();
            ckeq!(c.iter_sheets().map(fp_sheet).collect::<Vec<_>>(), m, "clone");
        }
    }
    Ok(())
}

type Ops = Vec<(u8, String, u32)>;
/// one kind of named things: add (with or without name), get, change, remove, iterate.
trait Kind {
    fn add(b: &mut WorkBook, name: &str, mark: u32) -> (String, String);
    fn get(b: &WorkBook, name: &str) -> Option<(String, String)>;
    fn change(b: &mut WorkBook, name: &str, mark: u32) -> Option<String>;
    fn remove(b: &mut WorkBook, name: &str) -> Option<(String, String)>;
    fn all(b: &WorkBook) -> Vec<(String, String)>;
}
macro_rules! kind {
    ($k:ident, $t:ty, $new:expr, $mark:expr, $add:ident, $get:ident, $getm:ident, $rem:ident, $it:ident) => {
        struct $k;
        impl $k {
            // everything but the name
            fn show(s: &$t) -> String { let mut c = s.clone(); c.set_name("-".to_string()); format!("{:?}", c) }
        }
        impl Kind for $k {
            fn add(b: &mut WorkBook, name: &str, mark: u32) -> (String, String) {
                let mut s: $t = $new;
                s.set_name(name.to_string());
                let f: fn(&mut $t, u32) = $mark;
                f(&mut s, mark);
                let w = Self::show(&s);
                (b.$add(s).as_str().to_string(), w)
            }
            fn get(b: &WorkBook, name: &str) -> Option<(String, String)> { b.$get(name).map(|v| (v.name().to_string(), Self::show(v))) }
            fn change(b: &mut WorkBook, name: &str, mark: u32) -> Option<String> { let f: fn(&mut $t, u32) = $mark; b.$getm(name).map(|s| { f(s, mark); Self::show(s) }) }
            fn remove(b: &mut WorkBook, name: &str) -> Option<(String, String)> { b.$rem(name).map(|v| (v.name().to_string(), Self::show(&v))) }
            fn all(b: &WorkBook) -> Vec<(String, String)> { let mut v: Vec<_> = b.$it().map(|v| (v.name().to_string(), Self::show(v))).collect(); v.sort(); v }
        }
    };
}
macro_rules! style_kind {
    ($k:ident, $t:ty, $add:ident, $get:ident, $getm:ident, $rem:ident, $it:ident) => {
        kind!($k, $t, <$t>::new_empty(), |s, m| s.set_display_name(m.to_string()), $add, $get, $getm, $rem, $it);
    };
}
style_kind!(KTable, TableStyle, add_tablestyle, tablestyle, tablestyle_mut, remove_tablestyle, iter_table_styles);
style_kind!(KRow, RowStyle, add_rowstyle, rowstyle, rowstyle_mut, remove_rowstyle, iter_rowstyles);
style_kind!(KCol, ColStyle, add_colstyle, colstyle, colstyle_mut, remove_colstyle, iter_colstyles);
style_kind!(KCell, CellStyle, add_cellstyle, cellstyle, cellstyle_mut, remove_cellstyle, iter_cellstyles);
style_kind!(KPara, ParagraphStyle, add_paragraphstyle, paragraphstyle, paragraphstyle_mut, remove_paragraphstyle, iter_paragraphstyles);
style_kind!(KText, TextStyle, add_textstyle, textstyle, textstyle_mut, remove_textstyle, iter_textstyles);
style_kind!(KRuby, RubyStyle, add_rubystyle, rubystyle, rubystyle_mut, remove_rubystyle, iter_rubystyles);
style_kind!(KGraphic, GraphicStyle, add_graphicstyle, graphicstyle, graphicstyle_mut, remove_graphicstyle, iter_graphicstyles);
macro_rules! fmt_kind {
    ($k:ident, $t:ty, $add:ident, $get:ident, $getm:ident, $rem:ident, $it:ident) => {
        kind!($k, $t, <$t>::new_empty(), |s, m| s.push_part({ let mut p = FormatPart::new(FormatPartType::Text); p.set_content(m.to_string()); p }), $add, $get, $getm, $rem, $it);
    };
}
fmt_kind!(FBool, ValueFormatBoolean, add_boolean_format, boolean_format, boolean_format_mut, remove_boolean_format, iter_boolean_formats);
fmt_kind!(FNum, ValueFormatNumber, add_number_format, number_format, number_format_mut, remove_number_format, iter_number_formats);
fmt_kind!(FPerc, ValueFormatPercentage, add_percentage_format, percentage_format, percentage_format_mut, remove_percentage_format, iter_percentage_formats);
fmt_kind!(FCur, ValueFormatCurrency, add_currency_format, currency_format, currency_format_mut, remove_currency_format, iter_currency_formats);
fmt_kind!(FText, ValueFormatText, add_text_format, text_format, text_format_mut, remove_text_format, iter_text_formats);
fmt_kind!(FDate, ValueFormatDateTime, add_datetime_format, datetime_format, datetime_format_mut, remove_datetime_format, iter_datetime_formats);
fmt_kind!(FDur, ValueFormatTimeDuration, add_timeduration_format, timeduration_format, timeduration_format_mut, remove_timeduration_format, iter_timeduration_formats);
kind!(KPage, PageStyle, PageStyle::new_empty(), |s, m| s.set_page_width(Length::Mm(m as f64)), add_pagestyle, pagestyle, pagestyle_mut, remove_pagestyle, iter_pagestyles);
kind!(KMaster, MasterPage, MasterPage::new_empty(), |s, m| s.set_display_name(m.to_string()), add_masterpage, masterpage, masterpage_mut, remove_masterpage, iter_masterpages);
kind!(KValid, Validation, Validation::new(), |s, m| s.set_base_cell(CellRef::local(m, 0)), add_validation, validation, validation_mut, remove_validation, iter_validations);

fn run_kind<K: Kind>(ops: &Ops, others: bool) -> Result<(), String> {
    let mut b = WorkBook::new_empty();
    // other collections have to stay as they are.
    if others {
        b.add_cellstyle(CellStyle::new("keep", &ValueFormatRef::from("f")));
        b.add_boolean_format(ValueFormatBoolean::new_named("keep"));
        b.add_def_style(ValueType::Text, CellStyleRef::from("keep"));
        b.add_font(FontFaceDecl::new("keep"));
    }
    let mut m: BTreeMap<String, String> = K::all(&b).into_iter().collect();
    let own = m.contains_key("keep");
    for (op, name, mark) in ops {
        match op {
            0 | 1 | 2 => {
                let (n, w) = K::add(&mut b, name, *mark);
                if name.is_empty() { ck!(!n.is_empty(), "empty name"); ck!(!m.contains_key(&n), "the generated name {:?} replaces an existing entry", n); } else { ckeq!(n, *name, "name of the reference"); }
                m.insert(n, w);
            }
            3 => {
                let k = m.keys().nth((*mark as usize) % m.len().max(1)).cloned().unwrap_or_else(|| name.clone());
                let w = m.remove(&k).map(|v| (k.clone(), v));
                ckeq!(K::remove(&mut b, &k), w, "remove {:?}", k);
            }
            4 => {
                let k = m.keys().nth((*mark as usize) % m.len().max(1)).cloned().unwrap_or_else(|| name.clone());
                let n = K::change(&mut b, &k, *mark);
                ckeq!(n.is_some(), m.contains_key(&k), "change {:?}", k);
                if let Some(n) = n { m.insert(k, n); }
            }
            _ => { ckeq!(K::remove(&mut b, name), m.remove(name).map(|v| (name.clone(), v)), "remove {:?}", name); }
        }
        let mut w: Vec<(String, String)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        w.sort();
        ckeq!(K::all(&b), w, "all entries");
        for (k, v) in &m { ckeq!(K::get(&b, k), Some((k.clone(), v.clone())), "get {:?}", k); }
        if others && !own {
            ck!(b.cellstyle("keep").is_some() && b.boolean_format("keep").is_some() && b.font("keep").is_some(), "an entry of another collection is lost");
            ckeq!(b.def_style(ValueType::Text).map(|v| v.as_str()), Some("keep"), "default style");
        }
    }
    Ok(())
}

pub fn c12(ctx: &mut Ctx) {
    ctx.section("sheets");
    let mut r = ctx.rng("c12s");
    for _ in 0..ctx.n(3000, 60000) {
        if !ctx.time_left() { break; }
        let n = 3 + r.below(25);
        let (d, ops) = sheets(&mut r, n);
        let st = r.bool();
        ctx.case("sheets", format!("styles={} {}", st, d), || run_sheets(&ops, st));
    }
    ctx.section("named collections");
    let mut r = ctx.rng("c12k");
    for i in 0..ctx.n(6000, 100000) {
        if !ctx.time_left() { break; }
        let pre = ["ta", "ro", "co", "ce", "para", "txt", "ruby", "gr", "val_boolean", "val_number", "val_percentage", "val_currency", "val_text", "val_datetime", "val_timeduration", "page", "mp", "val"];
        let kind = (i % 18) as usize;
        let n = 2 + r.below(18);
        let ops: Ops = (0..n).map(|k| {
            let name = match r.below(6) { 0 | 1 | 2 => String::new(), 3 => format!("{}{}", pre[kind], r.below(6)), 4 => r.pick(&["a", "b", "keep", "x y"]).to_string(), _ => text_line(&mut r) };
            (r.below(6) as u8, name, k as u32 + 1)
        }).collect();
        ctx.case("named", format!("kind={} {:?}", pre[kind], ops), || match kind {
            0 => run_kind::<KTable>(&ops, true), 1 => run_kind::<KRow>(&ops, true), 2 => run_kind::<KCol>(&ops, true), 3 => run_kind::<KCell>(&ops, true),
            4 => run_kind::<KPara>(&ops, true), 5 => run_kind::<KText>(&ops, true), 6 => run_kind::<KRuby>(&ops, true), 7 => run_kind::<KGraphic>(&ops, true),
            8 => run_kind::<FBool>(&ops, true), 9 => run_kind::<FNum>(&ops, true), 10 => run_kind::<FPerc>(&ops, true), 11 => run_kind::<FCur>(&ops, true),
            12 => run_kind::<FText>(&ops, true), 13 => run_kind::<FDate>(&ops, true), 14 => run_kind::<FDur>(&ops, true),
            15 => run_kind::<KPage>(&ops, true), 16 => run_kind::<KMaster>(&ops, true), _ => run_kind::<KValid>(&ops, true),
        });
    }
}
