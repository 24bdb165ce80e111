//! Round trips through the file formats: C06, C07, C08, C10.
use crate::core::{Ctx, Rng};
use crate::gen::*;
use crate::{ck, ckeq};
use spreadsheet_ods::validation::ValidationRef;
use spreadsheet_ods::{
    read_fods_buf, read_ods_buf, write_fods_buf, write_ods_buf, write_ods_buf_uncompressed, CellContent, CellStyleRef, OdsOptions, Sheet, Value,
    WorkBook,
};
use std::collections::BTreeMap;
use std::io::Cursor;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fmt { Ods, Fods, OdsStored }

pub fn write(book: &mut WorkBook, f: Fmt) -> Result<Vec<u8>, String> {
    match f {
        Fmt::Ods => write_ods_buf(book, Vec::new()),
        Fmt::OdsStored => write_ods_buf_uncompressed(book, Vec::new()),
        Fmt::Fods => write_fods_buf(book, Vec::new()),
    }
    .map_err(|e| format!("write {:?}: {:?}", f, e))
}
pub fn read(buf: &[u8], f: Fmt) -> Result<WorkBook, String> {
    match f {
        Fmt::Fods => read_fods_buf(buf),
        _ => read_ods_buf(buf),
    }
    .map_err(|e| format!("read {:?}: {:?}", f, e))
}
pub fn read_with(buf: &[u8], f: Fmt, o: &OdsOptions) -> Result<WorkBook, String> {
    match f {
        Fmt::Fods => o.read_fods(Cursor::new(buf)),
        _ => o.read_ods(Cursor::new(buf)),
    }
    .map_err(|e| format!("read {:?}: {:?}", f, e))
}
pub fn roundtrip(book: &mut WorkBook, f: Fmt) -> Result<WorkBook, String> {
    let b = write(book, f)?;
    read(&b, f)
}
pub fn fmt(r: &mut Rng) -> Fmt {
    match r.below(5) { 0 | 1 => Fmt::Ods, 2 | 3 => Fmt::Fods, _ => Fmt::OdsStored }
}
/// content.xml / the flat file.
pub fn content_xml(buf: &[u8], f: Fmt) -> Result<String, String> { part_xml(buf, f, "content.xml") }
pub fn part_xml(buf: &[u8], f: Fmt, name: &str) -> Result<String, String> {
    if f == Fmt::Fods {
        return String::from_utf8(buf.to_vec()).map_err(|e| e.to_string());
    }
    use std::io::Read;
    let mut z = zip::ZipArchive::new(Cursor::new(buf)).map_err(|e| e.to_string())?;
    let mut s = String::new();
    z.by_name(name).map_err(|e| e.to_string())?.read_to_string(&mut s).map_err(|e| e.to_string())?;
    Ok(s)
}
/// Oracle for well-formedness: independent reader with all checks on.
pub fn well_formed(xml: &str) -> Result<(), String> {
    use quick_xml::events::Event;
    let mut rd = quick_xml::Reader::from_str(xml);
    rd.config_mut().check_end_names = true;
    rd.config_mut().allow_unmatched_ends = false;
    let mut depth = 0i64;
    let mut roots = 0;
    loop {
        match rd.read_event() {
            Err(e) => return Err(format!("not well-formed at {}: {:?}", rd.buffer_position(), e)),
            Ok(Event::Eof) => break,
            Ok(Event::Start(e)) | Ok(Event::Empty(e)) if { for a in e.attributes().with_checks(true) { let a = a.map_err(|x| format!("attribute of {:?}: {:?}", e, x))?; if a.value.contains(&b'<') { return Err(format!("'<' in attribute of {:?}", e)); } a.decode_and_unescape_value(rd.decoder()).map_err(|x| format!("attribute of {:?}: {:?}", e, x))?; } false } => {}
            Ok(Event::Start(_)) => { if depth == 0 { roots += 1; } depth += 1; }
            Ok(Event::Empty(_)) => { if depth == 0 { roots += 1; } }
            Ok(Event::End(_)) => { depth -= 1; if depth < 0 { return Err("unbalanced end".into()); } }
            Ok(Event::Text(t)) => { if depth == 0 && !t.iter().all(|b| b.is_ascii_whitespace()) { return Err("text outside the root".into()); } }
            Ok(Event::GeneralRef(g)) => {
                let n = String::from_utf8_lossy(&g).to_string();
                if !matches!(n.as_str(), "amp" | "lt" | "gt" | "quot" | "apos") && !n.starts_with('#') { return Err(format!("entity {}", n)); }
            }
            Ok(_) => {}
        }
    }
    if depth != 0 { return Err(format!("{} elements not closed", depth)); }
    if roots != 1 { return Err(format!("{} root elements", roots)); }
    Ok(())
}
pub fn all_well_formed(buf: &[u8], f: Fmt) -> Result<(), String> {
    if f == Fmt::Fods {
        return well_formed(std::str::from_utf8(buf).map_err(|e| e.to_string())?);
    }
    use std::io::Read;
    let mut z = zip::ZipArchive::new(Cursor::new(buf)).map_err(|e| e.to_string())?;
    let names: Vec<String> = z.file_names().map(|v| v.to_string()).collect();
    for n in names {
        if n.ends_with(".xml") || n.ends_with(".rdf") {
            let mut s = String::new();
            z.by_name(&n).map_err(|e| e.to_string())?.read_to_string(&mut s).map_err(|e| e.to_string())?;
            well_formed(&s).map_err(|e| format!("{}: {}", n, e))?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C06
/// the value as it has to come back: text with line breaks may come back as paragraphs.
fn fp_val(v: &Value) -> String {
    match v {
        Value::Text(s) => format!("Text({:?})", s),
        Value::TextXml(t) if t.iter().all(|t| t.attrmap().iter().count() == 0 && t.content().iter().all(|c| matches!(c, spreadsheet_ods::xmltree::XmlContent::Text(_)))) => format!("Text({:?})", v.as_cow_str_or("")),
        v => fp_value(v),
    }
}
fn fp_c06(c: &CellContent) -> String {
    let c = &norm_content(c);
    let mut c2 = c.clone();
    c2.set_value(());
    format!("{} {}", fp_val(c.value()), fp_content(&c2))
}
pub fn fp_sheet(s: &Sheet) -> BTreeMap<(u32, u32), String> {
    s.iter().map(|(k, c)| (k, fp_c06(&c.to_owned()))).collect()
}
fn is_void(c: &CellContent) -> bool {
    *c.value() == Value::Empty && c.formula().is_none() && c.style().is_none() && no_extra(c)
}
fn no_extra(c: &CellContent) -> bool {
    c.validation().is_none() && c.row_span() == 1 && c.col_span() == 1 && c.matrix_row_span() == 1 && c.matrix_col_span() == 1 && c.annotation().is_none() && c.draw_frames().is_empty()
}
pub fn content(r: &mut Rng) -> CellContent {
    let mut c = CellContent::new();
    if r.chance(5, 6) { c.set_value(value_xml(r)); }
    if r.chance(1, 8) { c.set_value(format!("{}\n{}", text_line(r), text_line(r))); }
    if r.chance(1, 4) { c.set_formula(format!("of:={}", text_any(r))); }
    if r.chance(1, 3) { c.set_style(&CellStyleRef::from(ident(r))); }
    if r.chance(1, 5) { c.set_validation(&ValidationRef::from(ident(r))); }
    if r.chance(1, 8) { c.set_row_span(1 + r.u32(4)); }
    if r.chance(1, 8) { c.set_col_span(1 + r.u32(4)); }
    if r.chance(1, 12) { c.set_matrix_row_span(1 + r.u32(3)); }
    if r.chance(1, 12) { c.set_matrix_col_span(1 + r.u32(3)); }
    if r.chance(1, 10) { c.set_annotation(annotation(r)); }
    if r.chance(1, 10) { let n = 1 + r.below(2); c.set_draw_frames((0..n).map(|_| draw_frame(r)).collect()); }
    c
}
fn positions(r: &mut Rng, n: u64) -> Vec<(u32, u32)> {
    let mut v = Vec::new();
    let style = r.below(4);
    for _ in 0..n {
        v.push(match style {
            0 => (r.u32(4), r.u32(4)),
            1 => (r.u32(12), r.u32(12)),
            2 => (*r.pick(&[0, 1, 2, 7, 100, 101, 1000]), *r.pick(&[0, 1, 2, 25, 26, 100, 1023])),
            _ => (r.u32(60), r.u32(5)),
        });
    }
    v
}
pub fn c06(ctx: &mut Ctx) {
    ctx.section("roundtrip");
    let n = ctx.n(1_600, 60_000);
    let mut r = ctx.rng("c06");
    for _ in 0..n {
        if !ctx.time_left() { break; }
        let ns = 1 + r.below(3);
        let sheets: Vec<(String, BTreeMap<(u32, u32), CellContent>)> = (0..ns)
            .map(|i| {
                let k = r.below(16);
                let p = positions(&mut r, k);
                (format!("{}{}", text_any(&mut r), i), p.into_iter().map(|k| (k, content(&mut r))).collect())
            })
            .collect();
        let f = fmt(&mut r);
        ctx.case("roundtrip", format!("{:?} {:?}", f, sheets), || {
            let mut b = WorkBook::new_empty();
            for (name, cells) in &sheets {
                let mut s = Sheet::new(name);
                for (k, c) in cells { s.add_cell(k.0, k.1, c.clone()); }
                b.push_sheet(s);
            }
            let buf = write(&mut b, f)?;
            all_well_formed(&buf, f)?;
            let b2 = read(&buf, f)?;
            let cmp = |b2: &WorkBook, drop: &dyn Fn(&CellContent) -> bool, what: &str| -> Result<(), String> {
                ckeq!(b2.num_sheets(), sheets.len(), "{}: number of sheets", what);
                for (i, (name, cells)) in sheets.iter().enumerate() {
                    ckeq!(b2.sheet(i).name(), name, "{}: name of sheet {}", what, i);
                    let want: BTreeMap<_, _> = cells.iter().filter(|(_, c)| !is_void(c) && !drop(c)).map(|(k, c)| (*k, fp_c06(c))).collect();
                    let got = fp_sheet(b2.sheet(i));
                    for (k, v) in &want {
                        match got.get(k) {
                            None => return Err(format!("{}: cell {:?} of sheet {} is lost: {}", what, k, i, v)),
                            Some(g) => ckeq!(g, v, "{}: cell {:?} of sheet {}", what, k, i),
                        }
                    }
                    for (k, v) in &got { ck!(want.contains_key(k), "{}: unexpected cell {:?} of sheet {}: {}", what, k, i, v); }
                }
                Ok(())
            };
            cmp(&b2, &|_| false, "default")?;
            cmp(&read_with(&buf, f, &OdsOptions::default().content_only())?, &|_| false, "content_only")?;
            cmp(&read_with(&buf, f, &OdsOptions::default().use_repeat_for_cells())?, &|_| false, "use_repeat")?;
            cmp(&read_with(&buf, f, &OdsOptions::default().ignore_empty_cells())?, &|c| *c.value() == Value::Empty && c.formula().is_none() && no_extra(c), "ignore_empty")?;
            // a second generation is identical
            let mut b2 = b2;
            let buf3 = write(&mut b2, f)?;
            let b3 = read(&buf3, f)?;
            for i in 0..sheets.len() {
                // cells without a style may get the default style of their value type.
                let mut want = BTreeMap::new();
                for (k, c) in b2.sheet(i).iter() {
                    let mut c = c.to_owned();
                    if c.style().is_none() { if let Some(st) = b2.def_style(c.value().value_type()) { let st = st.clone(); c.set_style(&st); } }
                    want.insert(k, fp_c06(&c));
                }
                ckeq!(fp_sheet(b3.sheet(i)), want, "second generation of sheet {}", i);
            }
            Ok(())
        });
    }
    ctx.section("repeat");
    let n = ctx.n(1_500, 40_000);
    let mut r = ctx.rng("c06r");
    for _ in 0..n {
        if !ctx.time_left() { break; }
        // cells with a repeat, not overlapping the next one.
        let mut cells: Vec<(u32, u32, u32, CellContent)> = vec![];
        let mut row = r.u32(3);
        let mut rows: Vec<(u32, u32)> = vec![];
        for _ in 0..1 + r.below(4) {
            let rep = if r.chance(1, 3) { 1 + r.u32(4) } else { 1 };
            rows.push((row, rep));
            let mut col = r.u32(3);
            for _ in 0..1 + r.below(3) {
                let mut c = content(&mut r);
                c.set_value(r.u32(100));
                c.span = Default::default();
                let crep = if r.chance(1, 2) { 1 + r.u32(4) } else { 1 };
                cells.push((row, col, crep, c));
                col += crep + r.u32(3);
            }
            row += rep + r.u32(3);
        }
        let f = fmt(&mut r);
        ctx.case("repeat", format!("{:?} rows {:?} cells {:?}", f, rows, cells), || {
            let mut b = WorkBook::new_empty();
            let mut s = Sheet::new("x");
            for (row, rep) in &rows { if *rep > 1 { s.set_row_repeat(*row, *rep); } }
            let mut want = BTreeMap::new();
            for (row, col, rep, c) in &cells {
                s.add_cell(*row, *col, c.clone());
                s.set_cell_repeat(*row, *col, *rep);
                let rr = rows.iter().find(|v| v.0 == *row).unwrap().1;
                for y in 0..rr { for x in 0..*rep { want.insert((row + y, col + x), fp_c06(c)); } }
            }
            b.push_sheet(s);
            let b2 = roundtrip(&mut b, f)?;
            ckeq!(fp_sheet(b2.sheet(0)), want, "cells with repeat");
            let buf = write(&mut b, f)?;
            let b3 = read_with(&buf, f, &OdsOptions::default().use_repeat_for_cells())?;
            let got: BTreeMap<_, _> = b3.sheet(0).iter().map(|(k, c)| (k, c.repeat())).collect();
            ckeq!(got, cells.iter().map(|c| ((c.0, c.1), c.2)).collect::<BTreeMap<_, _>>(), "repeat kept");
            for (row, rep) in &rows { ckeq!(b3.sheet(0).row_repeat(*row), *rep, "row repeat kept for row {}", row); }
            Ok(())
        });
    }
}
