//! C07 merged areas, C08 layout of the sheet through the file.
use crate::core::{Ctx, Rng};
use crate::gen::*;
use crate::io::*;
use crate::{ck, ckeq};
use spreadsheet_ods::sheet::{SplitMode, Visibility};
use spreadsheet_ods::style::{ColStyle, ColStyleRef, RowStyle, RowStyleRef, TableStyleRef};
use spreadsheet_ods::{CellRange, CellStyleRef, Length, Sheet, WorkBook};
use std::collections::{BTreeMap, BTreeSet};

/// The first table of the file as a grid of (covered, text), read by an independent parser.
#[allow(clippy::type_complexity)]
pub fn grid(xml: &str) -> Result<(u32, BTreeMap<(u32, u32), (bool, String)>), String> {
    use quick_xml::events::Event;
    let mut rd = quick_xml::Reader::from_str(xml);
    let mut g = BTreeMap::new();
    let (mut row, mut col, mut rrep) = (0u32, 0u32, 1u32);
    let mut cell: Option<(bool, u32, String)> = None;
    let num = |e: &quick_xml::events::BytesStart<'_>, k: &str| -> Result<u32, String> {
        match e.try_get_attribute(k).map_err(|x| x.to_string())? {
            Some(a) => String::from_utf8_lossy(&a.value).parse::<u32>().map_err(|x| format!("{}: {}", k, x)),
            None => Ok(1),
        }
    };
    let mut put = |row: u32, rrep: u32, col: &mut u32, c: (bool, u32, String)| {
        for y in 0..rrep.min(100) { for x in 0..c.1.min(3000) { g.insert((row + y, *col + x), (c.0, c.2.clone())); } }
        *col += c.1;
    };
    let mut in_p = false;
    loop {
        let ev = rd.read_event().map_err(|e| format!("{:?}", e))?;
        match &ev {
            Event::Eof => break,
            Event::Start(e) | Event::Empty(e) => {
                let empty = matches!(ev, Event::Empty(_));
                match e.name().as_ref() {
                    b"table:table-row" => { col = 0; rrep = num(e, "table:number-rows-repeated")?; if empty { row += rrep; } }
                    b"table:table-cell" | b"table:covered-table-cell" => {
                        let c = (e.name().as_ref() == b"table:covered-table-cell", num(e, "table:number-columns-repeated")?, String::new());
                        if empty { put(row, rrep, &mut col, c); } else { cell = Some(c); }
                    }
                    b"text:p" => in_p = !empty,
                    _ => {}
                }
            }
            Event::End(e) => match e.name().as_ref() {
                b"table:table-row" => row += rrep,
                b"table:table-cell" | b"table:covered-table-cell" => { if let Some(c) = cell.take() { put(row, rrep, &mut col, c); } }
                b"text:p" => in_p = false,
                b"table:table" => break,
                _ => {}
            },
            Event::Text(t) => { if in_p { if let Some(c) = cell.as_mut() { c.2.push_str(&String::from_utf8_lossy(t)); } } }
            _ => {}
        }
    }
    Ok((row, g))
}

#[derive(Clone, Debug)]
struct SpanCell { row: u32, col: u32, rs: u32, cs: u32, val: Option<u32>, rep: u32 }

fn covered_model(cells: &BTreeMap<(u32, u32), SpanCell>) -> Vec<(u32, u32, u32, u32)> {
    let mut areas: Vec<(u32, u32, u32, u32)> = vec![];
    for c in cells.values() {
        let hidden = areas.iter().any(|a| c.row >= a.0 && c.row <= a.2 && c.col >= a.1 && c.col <= a.3);
        if !hidden && (c.rs > 1 || c.cs > 1) { areas.push((c.row, c.col, c.row + c.rs - 1, c.col + c.cs - 1)); }
    }
    areas
}
fn check_spans(cells: &BTreeMap<(u32, u32), SpanCell>, hdr: &[(u32, bool)], grp: Option<(u32, u32)>, f: Fmt) -> Result<(), String> {
    let mut b = WorkBook::new_empty();
    let mut s = Sheet::new("m");
    for c in cells.values() {
        match c.val { Some(v) => s.set_value(c.row, c.col, v), None => s.set_cellstyle(c.row, c.col, &CellStyleRef::from("x")) }
        if c.rs > 1 { s.set_row_span(c.row, c.col, c.rs); }
        if c.cs > 1 { s.set_col_span(c.row, c.col, c.cs); }
        if c.rep > 1 { s.set_cell_repeat(c.row, c.col, c.rep); }
    }
    for (r, v) in hdr { s.set_row_visible(*r, if *v { Visibility::Collapsed } else { Visibility::Filtered }); }
    if let Some(g) = grp { s.add_row_group(g.0, g.1); }
    b.push_sheet(s);
    let buf = write(&mut b, f)?;
    let xml = content_xml(&buf, f)?;
    well_formed(&xml)?;
    let (rows, g) = grid(&xml)?;
    let maxr = cells.keys().map(|k| k.0).max().unwrap_or(0);
    let maxc = cells.keys().map(|k| k.1).max().unwrap_or(0);
    if !cells.is_empty() { ckeq!(rows, maxr + 1, "number of rows in the file"); }
    let areas = covered_model(cells);
    let at = |r: u32, c: u32| cells.values().find(|v| v.row == r && c >= v.col && c < v.col + v.rep);
    for (r, c) in g.keys() {
        let end = cells.values().filter(|v| v.row == *r).map(|v| v.col + v.rep - 1).max().unwrap_or(0).max(maxc);
        ck!(*c <= end, "cell {:?} is outside of the used columns", (r, c));
    }
    for r in 0..=maxr {
        for c in 0..=maxc {
            let want = areas.iter().any(|a| r >= a.0 && r <= a.2 && c >= a.1 && c <= a.3 && (r, c) != (a.0, a.1));
            match g.get(&(r, c)) {
                Some((cov, t)) => {
                    ckeq!(*cov, want, "covered flag of cell {:?}", (r, c));
                    let wt = at(r, c).and_then(|v| v.val).map(|v| v.to_string()).unwrap_or_default();
                    ckeq!(t, &wt, "text of cell {:?}", (r, c));
                }
                None => { ck!(at(r, c).is_none(), "cell {:?} is not written", (r, c)); ck!(r == maxr, "cell {:?} is missing in the grid", (r, c)); }
            }
        }
    }
    let b2 = read(&buf, f)?;
    let s2 = b2.sheet(0);
    for c in cells.values() {
        ckeq!((s2.row_span(c.row, c.col), s2.col_span(c.row, c.col)), (c.rs, c.cs), "span of cell {:?}", (c.row, c.col));
        for x in 0..c.rep { if let Some(v) = c.val { ckeq!(s2.value(c.row, c.col + x).as_u32_or(u32::MAX), v, "value of cell {:?}", (c.row, c.col + x)); } }
    }
    ckeq!(s2.iter().count() as u32, cells.values().map(|v| v.rep).sum::<u32>(), "number of cells");
    Ok(())
}

pub fn c07(ctx: &mut Ctx) {
    ctx.section("one area, exhaustive");
    // one merged area, and one other cell somewhere
    for (rs, cs) in [(1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3)] {
        for (ar, ac) in [(0, 0), (0, 1), (1, 0), (1, 2), (2, 1)] {
            for or in 0..6 {
                for oc in 0..6 {
                    if (or, oc) == (ar, ac) { continue; }
                    let cells: BTreeMap<_, _> = [
                        ((ar, ac), SpanCell { row: ar, col: ac, rs, cs, val: Some(1), rep: 1 }),
                        ((or, oc), SpanCell { row: or, col: oc, rs: 1, cs: 1, val: Some(2), rep: 1 }),
                    ].into_iter().collect();
                    ctx.case("one area", format!("area {:?} span {:?} other {:?}", (ar, ac), (rs, cs), (or, oc)), || check_spans(&cells, &[], None, Fmt::Fods));
                }
            }
        }
    }
    ctx.section("random areas");
    let mut r = ctx.rng("c07");
    for _ in 0..ctx.n(4_000, 150_000) {
        if !ctx.time_left() { break; }
        let n = 1 + r.below(9);
        let (mr, mc) = *r.pick(&[(3, 3), (5, 5), (8, 4), (4, 9), (12, 12), (30, 6)]);
        let mut cells = BTreeMap::new();
        for _ in 0..n {
            let (row, col) = (r.u32(mr), r.u32(mc));
            let span = r.chance(1, 2);
            let rs = if span { 1 + r.u32(5) } else { 1 };
            let cs = if span { 1 + r.u32(5) } else { 1 };
            let val = if r.chance(4, 5) { Some(r.u32(1000)) } else { None };
            cells.insert((row, col), SpanCell { row, col, rs, cs, val, rep: 1 });
        }
        // repeated cells, not overlapping the next one.
        if r.chance(1, 2) {
            let keys: Vec<(u32, u32)> = cells.keys().copied().collect();
            for k in keys {
                let next = cells.keys().find(|n| n.0 == k.0 && n.1 > k.1).map(|n| n.1 - k.1).unwrap_or(6);
                let c = cells.get_mut(&k).unwrap();
                if c.rs == 1 && c.cs == 1 && c.val.is_some() && r.bool() { c.rep = 1 + r.u32(next); }
            }
        }
        let hdr: Vec<_> = (0..r.below(3)).map(|_| (r.u32(mr), r.bool())).collect();
        let maxr = cells.keys().map(|k: &(u32, u32)| k.0).max().unwrap();
        let grp = if r.chance(1, 4) { let a = r.u32(maxr + 1); Some((a, a + r.u32(maxr - a + 1))) } else { None };
        let f = fmt(&mut r);
        ctx.case("random", format!("{:?} {:?} headers {:?} group {:?}", f, cells.values().collect::<Vec<_>>(), hdr, grp), || check_spans(&cells, &hdr, grp, f));
    }
}

// ---------------------------------------------------------------- C08
#[derive(Clone, Debug, PartialEq, Default)]
struct Hdr { style: Option<String>, cellstyle: Option<String>, vis: u8, len: Option<Length> }

fn hdr(r: &mut Rng, own: &str) -> Hdr {
    let mut h = Hdr::default();
    if r.chance(1, 4) { return h; }
    match r.below(5) {
        0 => h.style = Some(r.pick(&["co9", "a b", "x&y<\""]).to_string()), // no such style in the book
        1 => { h.style = Some(own.to_string()); h.len = if r.bool() { Some(length(r)) } else { None } }
        2 => h.len = Some(length(r)),
        _ => {}
    }
    if r.chance(1, 3) { h.cellstyle = Some(r.pick(&["ce1", "Default", "c & d"]).to_string()); }
    if r.chance(1, 3) { h.vis = r.below(3) as u8; }
    h
}
fn vis(v: u8) -> Visibility { match v { 0 => Visibility::Visible, 1 => Visibility::Collapsed, _ => Visibility::Filtered } }

fn groups(r: &mut Rng, max: u32) -> Vec<(u32, u32, bool)> {
    let mut v: Vec<(u32, u32, bool)> = vec![];
    for _ in 0..r.below(5) {
        let a = r.u32(max);
        let b = a + r.u32(max - a);
        let ok = v.iter().all(|g| (a <= g.0 && b >= g.1) || (g.0 <= a && g.1 >= b) || b < g.0 || g.1 < a);
        // two groups for the same range are not distinguishable.
        if ok && !v.iter().any(|g| (g.0, g.1) == (a, b)) { v.push((a, b, r.chance(2, 3))); }
    }
    v
}

#[derive(Clone, Debug)]
struct Lay {
    name: String, cells: BTreeSet<(u32, u32)>, cols: Vec<Hdr>, rows: Vec<Hdr>, gr: Vec<(u32, u32, bool)>, gc: Vec<(u32, u32, bool)>,
    hr: Option<(u32, u32)>, hc: Option<(u32, u32)>, print_ranges: Vec<CellRange>, style: Option<String>, display: bool, print: bool, cfg: Vec<i64>, split: u8,
}
fn lay(r: &mut Rng, i: u64) -> Lay {
    let mut cells = BTreeSet::new();
    let (mr, mc) = *r.pick(&[(2, 2), (4, 4), (9, 5), (6, 12), (15, 3)]);
    for _ in 0..1 + r.below(7) { cells.insert((r.u32(mr), r.u32(mc))); }
    let nr = cells.iter().map(|v| v.0).max().unwrap() + 1;
    let nc = cells.iter().map(|v| v.1).max().unwrap() + 1;
    let few = r.bool();
    let mk = |r: &mut Rng, n: u32, p: &str| -> Vec<Hdr> {
        let mut v: Vec<Hdr> = (0..n).map(|k| hdr(r, &format!("{}{}_{}", p, i, k))).collect();
        if few { for k in 0..v.len() { if r.chance(2, 3) { v[k] = Hdr::default(); } } }
        // runs of equal headers
        for k in 1..v.len() { if r.chance(1, 3) && v[k - 1].len.is_none() && v[k - 1].style.as_deref().map_or(true, |s| !s.contains('_')) { v[k] = v[k - 1].clone(); } }
        v
    };
    let cols = mk(r, nc, "co");
    let rows = mk(r, nr, "ro");
    let gr = if r.chance(1, 2) { groups(r, nr) } else { vec![] };
    let gc = if r.chance(1, 2) { groups(r, nc) } else { vec![] };
    let head = |r: &mut Rng, n: u32, g: &[(u32, u32, bool)]| -> Option<(u32, u32)> {
        if !r.chance(1, 3) { return None; }
        let a = r.u32(n);
        let b = a + r.u32(n - a);
        let _ = g;
        Some((a, b))
    };
    let hr = head(r, nr, &gr);
    let hc = head(r, nc, &gc);
    let print_ranges = (0..r.below(3)).map(|_| {
        let (a, b) = (r.u32(40), r.u32(40));
        if r.bool() { CellRange::local(a, b, a + r.u32(9), b + r.u32(9)) } else { CellRange::remote(text_line(r).replace(['.', '\'', '#', '$', '"', ' '], "x"), a, b, a + r.u32(9), b + r.u32(9)) }
    }).collect();
    Lay {
        name: format!("{}{}", ident(r), i), cells, cols, rows, gr, gc, hr, hc, print_ranges,
        style: if r.chance(1, 3) { Some(ident(r)) } else { None }, display: r.chance(3, 4), print: r.chance(3, 4),
        cfg: (0..15).map(|_| r.range(0, 5000)).collect(), split: r.below(16) as u8,
    }
}
fn build(l: &Lay, b: &mut WorkBook) -> Sheet {
    let mut s = Sheet::new(&l.name);
    for (r, c) in &l.cells { s.set_value(*r, *c, *r * 100 + *c); }
    for g in &l.gr { s.add_row_group(g.0, g.1); if !g.2 { s.set_row_group_displayed(g.0, g.1, false); } }
    for g in &l.gc { s.add_col_group(g.0, g.1); if !g.2 { s.set_col_group_displayed(g.0, g.1, false); } }
    for (k, h) in l.cols.iter().enumerate() {
        let k = k as u32;
        if let Some(st) = &h.style { s.set_colstyle(k, &ColStyleRef::from(st.as_str())); if st.contains('_') && b.colstyle(st.as_str()).is_none() { b.add_colstyle(ColStyle::new(st)); } }
        if let Some(st) = &h.cellstyle { s.set_col_cellstyle(k, &CellStyleRef::from(st.as_str())); }
        if s.col_visible(k) != vis(h.vis) { s.set_col_visible(k, vis(h.vis)); }
        if let Some(v) = h.len { s.set_col_width(k, v); }
    }
    for (k, h) in l.rows.iter().enumerate() {
        let k = k as u32;
        if let Some(st) = &h.style { s.set_rowstyle(k, &RowStyleRef::from(st.as_str())); if st.contains('_') && b.rowstyle(st.as_str()).is_none() { b.add_rowstyle(RowStyle::new(st)); } }
        if let Some(st) = &h.cellstyle { s.set_row_cellstyle(k, &CellStyleRef::from(st.as_str())); }
        if s.row_visible(k) != vis(h.vis) { s.set_row_visible(k, vis(h.vis)); }
        if let Some(v) = h.len { s.set_row_height(k, v); }
    }
    if let Some(h) = l.hr { s.set_header_rows(h.0, h.1); }
    if let Some(h) = l.hc { s.set_header_cols(h.0, h.1); }
    for p in &l.print_ranges { s.add_print_range(p.clone()); }
    if let Some(st) = &l.style { s.set_style(&TableStyleRef::from(st.as_str())); }
    s.set_display(l.display);
    s.set_print(l.print);
    let c = s.config_mut();
    c.cursor_x = l.cfg[0] as u32; c.cursor_y = l.cfg[1] as u32; c.hor_split_pos = l.cfg[2] as u32; c.vert_split_pos = l.cfg[3] as u32;
    c.active_split_range = l.cfg[4] as i16; c.position_left = l.cfg[5] as u32; c.position_right = l.cfg[6] as u32; c.position_top = l.cfg[7] as u32;
    c.position_bottom = l.cfg[8] as u32; c.zoom_type = l.cfg[9] as i16; c.zoom_value = l.cfg[10] as i32; c.page_view_zoom_value = l.cfg[11] as i32;
    c.show_grid = l.cfg[12] % 2 == 0;
    c.hor_split_mode = [SplitMode::None, SplitMode::Split, SplitMode::Heading][l.cfg[13] as usize % 3];
    c.vert_split_mode = [SplitMode::None, SplitMode::Split, SplitMode::Heading][l.cfg[14] as usize % 3];
    match l.split { 0 => s.split_col_header(3), 1 => s.split_row_header(4), 2 => s.split_horizontal(250), 3 => s.split_vertical(260), _ => {} }
    s
}
fn grps<'a>(it: impl Iterator<Item = &'a spreadsheet_ods::sheet::Grouped>) -> BTreeSet<(u32, u32, bool)> {
    it.map(|g| (g.from(), g.to(), g.display())).collect()
}
fn cmp_lay(l: &Lay, s: &Sheet, want: &Sheet, styles: bool) -> Result<(), String> {
    ckeq!(s.name(), &l.name, "sheet name");
    ckeq!(s.iter().map(|v| v.0).collect::<BTreeSet<_>>(), l.cells, "cells");
    for (k, h) in l.cols.iter().enumerate() {
        let k = k as u32;
        if h.style.is_some() || h.len.is_none() { ckeq!(s.colstyle(k).map(|v| v.as_str().to_string()), h.style, "style of column {}", k); }
        ckeq!(s.col_cellstyle(k).map(|v| v.as_str().to_string()), h.cellstyle, "cellstyle of column {}", k);
        ckeq!(s.col_visible(k), vis(h.vis), "visibility of column {}", k);
        if styles { ckeq!(s.col_width(k), h.len.unwrap_or_default(), "width of column {}", k); }
    }
    for (k, h) in l.rows.iter().enumerate() {
        let k = k as u32;
        if h.style.is_some() || h.len.is_none() { ckeq!(s.rowstyle(k).map(|v| v.as_str().to_string()), h.style, "style of row {}", k); }
        ckeq!(s.row_cellstyle(k).map(|v| v.as_str().to_string()), h.cellstyle, "cellstyle of row {}", k);
        ckeq!(s.row_visible(k), vis(h.vis), "visibility of row {}", k);
        if styles { ckeq!(s.row_height(k), h.len.unwrap_or_default(), "height of row {}", k); }
    }
    ckeq!(grps(s.row_group_iter()), l.gr.iter().cloned().collect::<BTreeSet<_>>(), "row groups");
    ckeq!(grps(s.col_group_iter()), l.gc.iter().cloned().collect::<BTreeSet<_>>(), "column groups");
    ckeq!(s.row_group_count(), l.gr.len(), "number of row groups");
    ckeq!(s.col_group_count(), l.gc.len(), "number of column groups");
    ckeq!(s.header_rows().map(|h| (h.from, h.to)), l.hr, "header rows");
    ckeq!(s.header_cols().map(|h| (h.from, h.to)), l.hc, "header columns");
    ckeq!(s.print_ranges().cloned().unwrap_or_default(), l.print_ranges, "print ranges");
    ckeq!(s.style().map(|v| v.as_str().to_string()), l.style, "table style");
    ckeq!(s.display(), l.display, "display");
    ckeq!(s.print(), l.print, "print");
    if styles { ckeq!(format!("{:?}", s.config()), format!("{:?}", want.config()), "sheet config"); }
    Ok(())
}
pub fn c08(ctx: &mut Ctx) {
    ctx.section("layout");
    let mut r = ctx.rng("c08");
    for _ in 0..ctx.n(3_000, 100_000) {
        if !ctx.time_left() { break; }
        let ls: Vec<Lay> = (0..1 + r.below(3)).map(|i| lay(&mut r, i)).collect();
        let f = fmt(&mut r);
        let active = r.below(ls.len() as u64) as usize;
        let flags = (r.bool(), r.bool(), r.bool());
        ctx.case("layout", format!("{:?} active {} {:?}", f, active, ls), || {
            let mut b = WorkBook::new_empty();
            let sheets: Vec<Sheet> = ls.iter().map(|l| build(l, &mut b)).collect();
            for s in &sheets { b.push_sheet(s.clone()); }
            b.config_mut().active_table = ls[active].name.clone();
            b.config_mut().has_sheet_tabs = flags.0;
            b.config_mut().show_grid = flags.1;
            b.config_mut().show_page_breaks = flags.2;
            for gen in 1..=3 {
                let buf = write(&mut b, f)?;
                all_well_formed(&buf, f)?;
                let g = |e: String| format!("generation {}: {}", gen, e);
                // writing does not change the layout of the book.
                ckeq!(b.num_sheets(), ls.len(), "number of sheets after writing");
                for (i, l) in ls.iter().enumerate() { cmp_lay(l, b.sheet(i), &sheets[i], true).map_err(|e| g(format!("after writing: {}", e)))?; }
                let b2 = read(&buf, f)?;
                ckeq!(b2.num_sheets(), ls.len(), "number of sheets");
                for (i, l) in ls.iter().enumerate() { cmp_lay(l, b2.sheet(i), &sheets[i], true).map_err(g)?; }
                ckeq!((b2.config().active_table.clone(), b2.config().has_sheet_tabs, b2.config().show_grid, b2.config().show_page_breaks), (ls[active].name.clone(), flags.0, flags.1, flags.2), "workbook config, generation {}", gen);
                if gen == 1 {
                    let b3 = read_with(&buf, f, &spreadsheet_ods::OdsOptions::default().content_only())?;
                    for (i, l) in ls.iter().enumerate() { cmp_lay(l, b3.sheet(i), &sheets[i], false).map_err(|e| format!("content_only: {}", e))?; }
                }
                b = b2;
            }
            Ok(())
        });
    }
    ctx.section("change after reading");
    // the size of one row/column is changed between the generations, all share a style.
    let mut r = ctx.rng("c08c");
    for _ in 0..ctx.n(600, 20_000) {
        if !ctx.time_left() { break; }
        let n = 2 + r.u32(6);
        let shared = r.bool();
        let steps: Vec<(u32, Option<Length>, bool)> = (0..1 + r.below(5)).map(|_| (r.u32(n), if r.chance(1, 4) { None } else { Some(length(&mut r)) }, r.bool())).collect();
        let f = fmt(&mut r);
        ctx.case("size", format!("{:?} n={} shared={} {:?}", f, n, shared, steps), || {
            let mut b = WorkBook::new_empty();
            let mut s = Sheet::new("x");
            for k in 0..n { s.set_value(k, k, 1); }
            if shared {
                let cs = b.add_colstyle(ColStyle::new("co1"));
                let rs = b.add_rowstyle(RowStyle::new("ro1"));
                for k in 0..n { s.set_colstyle(k, &cs); s.set_rowstyle(k, &rs); }
            }
            b.push_sheet(s);
            let mut m = vec![(Length::Default, Length::Default); n as usize];
            for (k, len, row) in &steps {
                let len = len.unwrap_or_default();
                if *row { b.sheet_mut(0).set_row_height(*k, len); m[*k as usize].0 = len; } else { b.sheet_mut(0).set_col_width(*k, len); m[*k as usize].1 = len; }
                b = roundtrip(&mut b, f)?;
                for i in 0..n { ckeq!((b.sheet(0).row_height(i), b.sheet(0).col_width(i)), m[i as usize], "height/width of row/column {} after setting {} to {:?}", i, k, len); }
            }
            Ok(())
        });
    }
}
