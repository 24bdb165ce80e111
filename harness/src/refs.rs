use crate::core::{Ctx, Rng};
use crate::{ck, ckeq};
use spreadsheet_ods::refs::{
    parse_cellrange, parse_cellranges, parse_cellref, parse_colrange, parse_rowrange,
};
use spreadsheet_ods::formula::*;
use spreadsheet_ods::sheet::Grouped;
use spreadsheet_ods::{cell, fcell};
use spreadsheet_ods::{CCol, CRow, CellRange, CellRef, ColRange, RowRange, Sheet};

/// Oracle: standard spreadsheet column letters.
pub fn col_name(col: u32) -> String {
    let mut n = col as u64 + 1;
    let mut v = Vec::new();
    while n > 0 {
        n -= 1;
        v.push((b'A' + (n % 26) as u8) as char);
        n /= 26;
    }
    v.iter().rev().collect()
}
pub fn row_name(row: u32) -> String {
    format!("{}", row as u64 + 1)
}
fn a1(abs_row: bool, row: u32, abs_col: bool, col: u32) -> String {
    format!(
        ".{}{}{}{}",
        if abs_col { "$" } else { "" },
        col_name(col),
        if abs_row { "$" } else { "" },
        row_name(row)
    )
}

/// boundary-biased index, below u32::MAX.
pub fn idx(r: &mut Rng) -> u32 {
    const B: [u32; 34] = [
        0, 1, 2, 8, 9, 10, 25, 26, 27, 51, 52, 98, 99, 100, 255, 675, 676, 677, 700, 701, 702, 703, 727,
        1023, 16383, 18277, 18278, 18279, 65535, 475253, 475254, 475255, 1048575, 4294967294,
    ];
    match r.below(4) {
        0 => *r.pick(&B),
        1 => r.u32(800),
        2 => r.u32(2_000_000),
        _ => r.u32(u32::MAX),
    }
}

pub fn table_name(r: &mut Rng) -> String {
    const P: [&str; 28] = [
        "Sheet1", "my sheet", "it's", "''", "'", "a.b", "a#b", "#", "$x", "a-b", "a:b", "]", "[x]", "{y}", "über",
        "表", "A1", "1", "x,y", "a\"b", "a|b", "tab_1", " ", "a'b'c", "'q", "q'", "x.y z", "😀 e",
    ];
    if r.chance(1, 2) {
        return r.pick(&P).to_string();
    }
    const C: [char; 26] = [
        'a', 'Z', '0', '9', '_', ' ', '.', '\'', '#', '$', ':', '-', '+', '[', ']', '(', ')', '!', '&', '<', '"', 'é',
        '漢', '/', '\\', '~',
    ];
    let n = 1 + r.below(7);
    (0..n).map(|_| *r.pick(&C)).collect()
}

fn opt_name(r: &mut Rng) -> Option<String> {
    if r.chance(1, 3) { None } else { Some(table_name(r)) }
}

pub fn c01(ctx: &mut Ctx) {
    // column and row names.
    ctx.section("names");
    let nlin = ctx.n(20_000, 400_000) as u32;
    let mut all: Vec<u32> = (0..nlin).collect();
    let mut r = ctx.rng("names");
    let mut p = 1u64;
    // boundaries of the letter counts and decimal digit counts
    let mut acc = 0u64;
    for _ in 0..7 {
        p *= 26;
        acc += p;
        for d in -30i64..=30 {
            let v = acc as i64 + d;
            if v >= 0 && v < u32::MAX as i64 { all.push(v as u32); }
            let v = p as i64 + d;
            if v >= 0 && v < u32::MAX as i64 { all.push(v as u32); }
        }
    }
    let mut p = 1i64;
    for _ in 0..10 {
        for d in -3i64..=3 {
            let v = p + d;
            if v >= 0 && v < u32::MAX as i64 { all.push(v as u32); }
        }
        p *= 10;
    }
    for d in 0..40 { all.push(u32::MAX - 1 - d); }
    for _ in 0..ctx.n(20_000, 400_000) { all.push(r.u32(u32::MAX)); }
    for i in all {
        ctx.case("colname", format!("column {} / row {}", i, i), || {
            let c = CCol::new(i);
            ckeq!(c.to_string(), col_name(i), "column name of {}", i);
            ckeq!(c.absolute().to_string(), format!("${}", col_name(i)), "absolute column name of {}", i);
            let w = CRow::new(i);
            ckeq!(w.to_string(), row_name(i), "row name of {}", i);
            ckeq!(w.absolute().to_string(), format!("${}", row_name(i)), "absolute row name of {}", i);
            let t = a1(false, i, false, i);
            ckeq!(CellRef::local(i, i).to_string(), t, "text of local reference");
            let p = parse_cellref(&t).map_err(|e| format!("cannot parse {}: {:?}", t, e))?;
            ckeq!((p.row(), p.col(), p.row_abs(), p.col_abs()), (i, i, false, false), "parse of {}", t);
            Ok(())
        });
    }

    ctx.section("roundtrip");
    let n = ctx.n(12_000, 300_000);
    let mut r = ctx.rng("refs");
    for k in 0..n {
        if !ctx.time_left() { break; }
        let iri = if r.chance(2, 3) { None } else { Some(table_name(&mut r)) };
        let table = opt_name(&mut r);
        let to_table = if r.chance(2, 3) { None } else { Some(table_name(&mut r)) };
        let (ra, ca, ra2, ca2) = (r.bool(), r.bool(), r.bool(), r.bool());
        let (row, col, row2, col2) = (idx(&mut r), idx(&mut r), idx(&mut r), idx(&mut r));
        match k % 4 {
            0 => {
                let x = CellRef::new_all(iri.clone(), table.clone(), ra, row, ca, col);
                ctx.case("cellref", format!("{:?}", x), || {
                    let t = x.to_string();
                    ck!(t.ends_with(&a1(ra, row, ca, col)), "text {} does not end with {}", t, a1(ra, row, ca, col));
                    let p = parse_cellref(&t).map_err(|e| format!("cannot parse {}: {:?}", t, e))?;
                    ckeq!(p, x, "parse({})", t);
                    ckeq!((p.iri(), p.table(), p.row(), p.col(), p.row_abs(), p.col_abs()), (iri.as_ref(), table.as_ref(), row, col, ra, ca), "parts of {}", t);
                    ckeq!(CellRef::try_from(t.as_str()).map_err(|e| format!("{:?}", e))?, x, "try_from({})", t);
                    ckeq!(x.to_formula(), format!("[{}]", t), "formula text");
                    Ok(())
                });
            }
            1 => {
                let x = CellRange::new_all(iri.clone(), table.clone(), ra, row.min(row2), ca, col.min(col2), to_table.clone(), ra2, row.max(row2), ca2, col.max(col2));
                ctx.case("cellrange", format!("{:?}", x), || {
                    let t = x.to_string();
                    ck!(t.ends_with(&a1(ra2, row.max(row2), ca2, col.max(col2))), "text {} has the wrong end", t);
                    let p = parse_cellrange(&t).map_err(|e| format!("cannot parse {}: {:?}", t, e))?;
                    ckeq!(p, x, "parse({})", t);
                    ckeq!((p.iri(), p.table(), p.to_table()), (iri.as_ref(), table.as_ref(), to_table.as_ref()), "names of {}", t);
                    ckeq!((p.row(), p.col(), p.to_row(), p.to_col()), (row.min(row2), col.min(col2), row.max(row2), col.max(col2)), "parts of {}", t);
                    ckeq!((p.row_abs(), p.col_abs(), p.to_row_abs(), p.to_col_abs()), (ra, ca, ra2, ca2), "flags of {}", t);
                    ckeq!(CellRange::try_from(t.as_str()).map_err(|e| format!("{:?}", e))?, x, "try_from({})", t);
                    ckeq!(x.to_formula(), format!("[{}]", t), "formula text");
                    Ok(())
                });
            }
            2 => {
                let x = ColRange::new_all(iri.clone(), table.clone(), ca, col.min(col2), to_table.clone(), ca2, col.max(col2));
                ctx.case("colrange", format!("{:?}", x), || {
                    let t = x.to_string();
                    let p = parse_colrange(&t).map_err(|e| format!("cannot parse {}: {:?}", t, e))?;
                    ckeq!(p, x, "parse({})", t);
                    ckeq!((p.iri(), p.table(), p.to_table()), (iri.as_ref(), table.as_ref(), to_table.as_ref()), "names of {}", t);
                    ckeq!((p.col(), p.to_col(), p.col_abs(), p.to_col_abs()), (col.min(col2), col.max(col2), ca, ca2), "parts of {}", t);
                    ckeq!(ColRange::try_from(t.as_str()).map_err(|e| format!("{:?}", e))?, x, "try_from({})", t);
                    ckeq!(x.to_formula(), format!("[{}]", t), "formula text");
                    Ok(())
                });
            }
            _ => {
                let x = RowRange::new_all(iri.clone(), table.clone(), ra, row.min(row2), to_table.clone(), ra2, row.max(row2));
                ctx.case("rowrange", format!("{:?}", x), || {
                    let t = x.to_string();
                    let p = parse_rowrange(&t).map_err(|e| format!("cannot parse {}: {:?}", t, e))?;
                    ckeq!(p, x, "parse({})", t);
                    ckeq!((p.iri(), p.table(), p.to_table()), (iri.as_ref(), table.as_ref(), to_table.as_ref()), "names of {}", t);
                    ckeq!((p.row(), p.to_row(), p.row_abs(), p.to_row_abs()), (row.min(row2), row.max(row2), ra, ra2), "parts of {}", t);
                    ckeq!(RowRange::try_from(t.as_str()).map_err(|e| format!("{:?}", e))?, x, "try_from({})", t);
                    ckeq!(x.to_formula(), format!("[{}]", t), "formula text");
                    Ok(())
                });
            }
        }
    }

    ctx.section("range-lists");
    let mut r = ctx.rng("lists");
    for _ in 0..ctx.n(1500, 30_000) {
        let n = 1 + r.below(4);
        let mut v = Vec::new();
        for _ in 0..n {
            let (a, b, c, d) = (idx(&mut r), idx(&mut r), idx(&mut r), idx(&mut r));
            let t = opt_name(&mut r);
            v.push(CellRange::new_all(None, t, r.bool(), a.min(b), r.bool(), c.min(d), None, r.bool(), a.max(b), r.bool(), c.max(d)));
        }
        let t = v.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ");
        ctx.case("ranges", t.clone(), || {
            let p = parse_cellranges(&t).map_err(|e| format!("cannot parse {}: {:?}", t, e))?;
            ckeq!(p, Some(v.clone()), "parse({})", t);
            Ok(())
        });
    }

    // any text: an error or a reference whose own text denotes the same reference. No panic.
    ctx.section("arbitrary-text");
    let mut r = ctx.rng("text");
    const FR: [&str; 30] = [
        ".", "$", "A", "Z", "ZZ", "a", "0", "1", "9", "10", "'", "''", "#", ":", " ", "]", "FXSHRXW", "FXSHRXX", "FXSHRXY", "ZZZZZZZ",
        "AAAAAAAA", "4294967295", "4294967296", "99999999999", "é", "Sheet", "_", "-", "'x'", ".A1",
    ];
    for _ in 0..ctx.n(15_000, 300_000) {
        let n = r.below(9);
        let t: String = if r.chance(1, 3) {
            // near-valid
            let mut s = String::new();
            if r.bool() { s.push_str(*r.pick(&["Sheet", "'x y'", "$T", "'i'#$S"])); }
            for k in 0..(1 + r.below(2)) {
                if k > 0 { s.push(':'); }
                s.push('.');
                if r.bool() { s.push('$'); }
                s.push_str(&col_name(idx(&mut r)));
                if r.bool() { s.push('$'); }
                s.push_str(&row_name(idx(&mut r)));
            }
            if r.chance(1, 3) {
                let p: Vec<char> = s.chars().collect();
                let k = r.below(p.len() as u64) as usize;
                s = p.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, c)| *c).collect();
            }
            s
        } else {
            (0..n).map(|_| *r.pick(&FR)).collect()
        };
        ctx.case("text", t.clone(), || {
            if let Ok(p) = parse_cellref(&t) {
                let q = parse_cellref(&p.to_string()).map_err(|e| format!("reprint {} of {} not parsed {:?}", p, t, e))?;
                if p.table().map(|v| !v.is_empty()).unwrap_or(true) && p.iri().map(|v| !v.is_empty()).unwrap_or(true) {
                    ckeq!(q, p, "reprint of {}", t);
                }
                ck!(t.to_string().ends_with(&a1(p.row_abs(), p.row(), p.col_abs(), p.col())) || t.contains("0"), "{} parsed as {:?}", t, p);
            }
            let _ = parse_cellrange(&t).map(|p| p.to_string());
            let _ = parse_colrange(&t).map(|p| p.to_string());
            let _ = parse_rowrange(&t).map(|p| p.to_string());
            let _ = parse_cellranges(&t);
            Ok(())
        });
    }
}

pub fn c02(ctx: &mut Ctx) {
    ctx.section("contains");
    let n = ctx.n(20_000, 500_000);
    let mut r = ctx.rng("contains");
    for k in 0..n {
        let small = k % 2 == 0;
        let mut g = |r: &mut Rng| if small { r.u32(5) } else { idx(r) };
        let (a, b, c, d) = (g(&mut r), g(&mut r), g(&mut r), g(&mut r));
        let (r0, r1, c0, c1) = (a.min(b), a.max(b), c.min(d), c.max(d));
        let (y, x) = if small { (r.u32(6), r.u32(6)) } else {
            let py = *r.pick(&[r0, r1, r0.wrapping_sub(1), r1.wrapping_add(1), a / 2 + b / 2]);
            let px = *r.pick(&[c0, c1, c0.wrapping_sub(1), c1.wrapping_add(1), c / 2 + d / 2]);
            (py, px)
        };
        ctx.case("contains", format!("range ({},{})..=({},{}) cell ({},{})", r0, c0, r1, c1, y, x), || {
            let inr = y >= r0 && y <= r1;
            let inc = x >= c0 && x <= c1;
            for rg in [
                CellRange::local(r0, c0, r1, c1),
                CellRange::remote("t", r0, c0, r1, c1),
                CellRange::local(r0, c0, r1, c1).absolute(),
                CellRange::local(r0, c0, r1, c1).absolute_rows(),
                CellRange::local(r0, c0, r1, c1).absolute_cols(),
            ] {
                ckeq!(rg.contains(y, x), inr && inc, "cell range contains");
                ckeq!((rg.row(), rg.col(), rg.to_row(), rg.to_col()), (r0, c0, r1, c1), "corners");
            }
            ckeq!(ColRange::new(c0, c1).contains(x), inc, "column range contains");
            ckeq!(RowRange::new(r0, r1).contains(y), inr, "row range contains");
            ckeq!((ColRange::new(c0, c1).col(), ColRange::new(c0, c1).to_col()), (c0, c1), "column range");
            ckeq!((RowRange::new(r0, r1).row(), RowRange::new(r0, r1).to_row()), (r0, r1), "row range");
            // in a row-major scan nothing at or after the given cell lies in the range.
            let passed = y > r1 || (y == r1 && x > c1);
            ckeq!(CellRange::local(r0, c0, r1, c1).out_looped(y, x), passed, "scan has passed the range");
            Ok(())
        });
    }
    ctx.section("origin-span");
    let mut r = ctx.rng("span");
    for k in 0..ctx.n(5_000, 100_000) {
        let (row, col) = if k % 2 == 0 { (r.u32(5), r.u32(5)) } else { (r.u32(2_000_000_000), r.u32(2_000_000_000)) };
        let (rs, cs) = if k % 3 == 0 { (1 + r.u32(3), 1 + r.u32(3)) } else { (1 + r.u32(2_000_000_000), 1 + r.u32(2_000_000_000)) };
        ctx.case("origin-span", format!("({},{}) span ({},{})", row, col, rs, cs), || {
            let g = CellRange::origin_span(row, col, (rs, cs));
            ckeq!((g.row(), g.col(), g.to_row(), g.to_col()), (row, col, row + (rs - 1), col + (cs - 1)), "corners");
            ck!(g.contains(row, col), "does not contain its origin");
            ck!(g.contains(row + rs - 1, col + cs - 1), "does not contain its last cell");
            ck!(!g.contains(row + rs, col) && !g.contains(row, col + cs), "contains cells beyond the span");
            Ok(())
        });
    }
    ctx.section("groups");
    let mut r = ctx.rng("groups");
    for k in 0..ctx.n(20_000, 300_000) {
        let m = if k % 2 == 0 { 6 } else { u32::MAX };
        let (a, b, c, d) = (r.u32(m), r.u32(m), r.u32(m), r.u32(m));
        let (f, t, f2, t2) = (a.min(b), a.max(b), c.min(d), c.max(d));
        let dsp = r.bool();
        ctx.case("group", format!("group {}..={} against {}..={}", f, t, f2, t2), || {
            let g = Grouped::new(f, t, dsp);
            let h = Grouped::new(f2, t2, !dsp);
            ckeq!(g.contains(&h), f <= f2 && t2 <= t, "contains");
            ckeq!(g.disjunct(&h), t < f2 || t2 < f, "disjunct");
            ckeq!(h.disjunct(&g), t < f2 || t2 < f, "disjunct is symmetric");
            ckeq!((g.from(), g.to(), g.display()), (f, t, dsp), "fields");
            Ok(())
        });
    }
    // adding groups: accepted iff nested or disjoint with every existing one.
    ctx.section("group-lists");
    let mut r = ctx.rng("grouplist");
    for _ in 0..ctx.n(3_000, 60_000) {
        let n = 1 + r.below(6);
        let ops: Vec<(u32, u32)> = (0..n).map(|_| { let a = r.u32(8); let b = r.u32(8); (a.min(b), a.max(b)) }).collect();
        let rows = r.bool();
        ctx.case("group-list", format!("rows={} {:?}", rows, ops), || {
            let mut sh = Sheet::new("s");
            let mut model: Vec<(u32, u32)> = Vec::new();
            for (f, t) in &ops {
                let ok = model.iter().all(|(a, b)| (f <= a && b <= t) || (a <= f && t <= b) || t < a || b < f);
                let mut s2 = sh.clone();
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if rows { s2.add_row_group(*f, *t) } else { s2.add_col_group(*f, *t) }
                }));
                ckeq!(res.is_ok(), ok, "adding group {}..={} to {:?} accepted", f, t, model);
                if ok {
                    model.push((*f, *t));
                    sh = s2;
                }
                let have: Vec<(u32, u32)> = if rows { sh.row_group_iter().map(|v| (v.from(), v.to())).collect() } else { sh.col_group_iter().map(|v| (v.from(), v.to())).collect() };
                ckeq!(have, model, "groups of the sheet");
                ckeq!(if rows { sh.row_group_count() } else { sh.col_group_count() }, model.len(), "group count");
                ckeq!(if rows { sh.col_group_count() } else { sh.row_group_count() }, 0, "other group count");
            }
            // remove
            if let Some((f, t)) = ops.first().copied() {
                if rows { sh.remove_row_group(f, t) } else { sh.remove_col_group(f, t) }
                let p = model.iter().position(|v| *v == (f, t));
                if let Some(p) = p { model.remove(p); }
                let have: Vec<(u32, u32)> = if rows { sh.row_group_iter().map(|v| (v.from(), v.to())).collect() } else { sh.col_group_iter().map(|v| (v.from(), v.to())).collect() };
                ckeq!(have, model, "groups after removing {}..={}", f, t);
            }
            Ok(())
        });
    }
}

pub fn c14(ctx: &mut Ctx) {
    ctx.section("helpers");
    let mut r = ctx.rng("formula");
    for _ in 0..ctx.n(6_000, 150_000) {
        let (a, b, c, d) = (idx(&mut r), idx(&mut r), idx(&mut r), idx(&mut r));
        let (row, row2, col, col2) = (a.min(b), a.max(b), c.min(d), c.max(d));
        let t = table_name(&mut r);
        ctx.case("formula", format!("({},{})..({},{}) table {:?}", row, col, row2, col2, t), || {
            // (text, table, abs_row, abs_col)
            let refs: Vec<(String, Option<String>, bool, bool)> = vec![
                (fcellref(row, col), None, false, false),
                (fcellrefr(row, col), None, true, false),
                (fcellrefc(row, col), None, false, true),
                (fcellrefa(row, col), None, true, true),
                (fcellref_table(t.clone(), row, col), Some(t.clone()), false, false),
                (fcellrefr_table(t.clone(), row, col), Some(t.clone()), true, false),
                (fcellrefc_table(t.clone(), row, col), Some(t.clone()), false, true),
                (fcellrefa_table(t.clone(), row, col), Some(t.clone()), true, true),
                (fcell!(row, col), None, false, false),
                (fcell!(abs row, col), None, true, false),
                (fcell!(row, abs col), None, false, true),
                (fcell!(abs row, abs col), None, true, true),
                (fcell!(t.clone() => row, col), Some(t.clone()), false, false),
                (fcell!(t.clone() => abs row, col), Some(t.clone()), true, false),
                (fcell!(t.clone() => row, abs col), Some(t.clone()), false, true),
                (fcell!(t.clone() => abs row, abs col), Some(t.clone()), true, true),
            ];
            for (i, (txt, tb, ra, ca)) in refs.iter().enumerate() {
                let inner = txt.strip_prefix('[').and_then(|v| v.strip_suffix(']')).ok_or(format!("#{}: no brackets: {}", i, txt))?;
                let p = parse_cellref(inner).map_err(|e| format!("#{} {} not parsed: {:?}", i, inner, e))?;
                ckeq!((p.iri(), p.table(), p.row(), p.col(), p.row_abs(), p.col_abs()), (None, tb.as_ref(), row, col, *ra, *ca), "#{} {}", i, txt);
                ck!(inner.ends_with(&a1(*ra, row, *ca, col)), "#{} {} does not end with {}", i, inner, a1(*ra, row, *ca, col));
            }
            let ranges: Vec<(String, Option<String>, [bool; 4])> = vec![
                (frangeref(row, col, row2, col2), None, [false; 4]),
                (frangerefr(row, col, row2, col2), None, [true, false, true, false]),
                (frangerefc(row, col, row2, col2), None, [false, true, false, true]),
                (frangerefa(row, col, row2, col2), None, [true; 4]),
                (frangeref_table(t.clone(), row, col, row2, col2), Some(t.clone()), [false; 4]),
                (frangerefr_table(t.clone(), row, col, row2, col2), Some(t.clone()), [true, false, true, false]),
                (frangerefc_table(t.clone(), row, col, row2, col2), Some(t.clone()), [false, true, false, true]),
                (frangerefa_table(t.clone(), row, col, row2, col2), Some(t.clone()), [true; 4]),
                (fcell!(row, col, row2, col2), None, [false, false, false, false]),
                (fcell!(row, col, row2, abs col2), None, [false, false, false, true]),
                (fcell!(row, col, abs row2, col2), None, [false, false, true, false]),
                (fcell!(row, col, abs row2, abs col2), None, [false, false, true, true]),
                (fcell!(row, abs col, row2, col2), None, [false, true, false, false]),
                (fcell!(row, abs col, row2, abs col2), None, [false, true, false, true]),
                (fcell!(row, abs col, abs row2, col2), None, [false, true, true, false]),
                (fcell!(row, abs col, abs row2, abs col2), None, [false, true, true, true]),
                (fcell!(abs row, col, row2, col2), None, [true, false, false, false]),
                (fcell!(abs row, col, row2, abs col2), None, [true, false, false, true]),
                (fcell!(abs row, col, abs row2, col2), None, [true, false, true, false]),
                (fcell!(abs row, col, abs row2, abs col2), None, [true, false, true, true]),
                (fcell!(abs row, abs col, row2, col2), None, [true, true, false, false]),
                (fcell!(abs row, abs col, row2, abs col2), None, [true, true, false, true]),
                (fcell!(abs row, abs col, abs row2, col2), None, [true, true, true, false]),
                (fcell!(abs row, abs col, abs row2, abs col2), None, [true, true, true, true]),
                (fcell!(t.clone() => row, col, row2, col2), Some(t.clone()), [false, false, false, false]),
                (fcell!(t.clone() => row, col, row2, abs col2), Some(t.clone()), [false, false, false, true]),
                (fcell!(t.clone() => row, col, abs row2, col2), Some(t.clone()), [false, false, true, false]),
                (fcell!(t.clone() => row, col, abs row2, abs col2), Some(t.clone()), [false, false, true, true]),
                (fcell!(t.clone() => row, abs col, row2, col2), Some(t.clone()), [false, true, false, false]),
                (fcell!(t.clone() => row, abs col, row2, abs col2), Some(t.clone()), [false, true, false, true]),
                (fcell!(t.clone() => row, abs col, abs row2, col2), Some(t.clone()), [false, true, true, false]),
                (fcell!(t.clone() => row, abs col, abs row2, abs col2), Some(t.clone()), [false, true, true, true]),
                (fcell!(t.clone() => abs row, col, row2, col2), Some(t.clone()), [true, false, false, false]),
                (fcell!(t.clone() => abs row, col, row2, abs col2), Some(t.clone()), [true, false, false, true]),
                (fcell!(t.clone() => abs row, col, abs row2, col2), Some(t.clone()), [true, false, true, false]),
                (fcell!(t.clone() => abs row, col, abs row2, abs col2), Some(t.clone()), [true, false, true, true]),
                (fcell!(t.clone() => abs row, abs col, row2, col2), Some(t.clone()), [true, true, false, false]),
                (fcell!(t.clone() => abs row, abs col, row2, abs col2), Some(t.clone()), [true, true, false, true]),
                (fcell!(t.clone() => abs row, abs col, abs row2, col2), Some(t.clone()), [true, true, true, false]),
                (fcell!(t.clone() => abs row, abs col, abs row2, abs col2), Some(t.clone()), [true, true, true, true]),
            ];
            for (i, (txt, tb, f)) in ranges.iter().enumerate() {
                let inner = txt.strip_prefix('[').and_then(|v| v.strip_suffix(']')).ok_or(format!("#{}: no brackets: {}", i, txt))?;
                let p = parse_cellrange(inner).map_err(|e| format!("range #{} {} not parsed: {:?}", i, inner, e))?;
                ckeq!((p.iri(), p.table(), p.to_table(), p.row(), p.col(), p.to_row(), p.to_col()), (None, tb.as_ref(), None, row, col, row2, col2), "range #{} {}", i, txt);
                ckeq!([p.row_abs(), p.col_abs(), p.to_row_abs(), p.to_col_abs()], *f, "flags of range #{} {}", i, txt);
            }
            Ok(())
        });
    }
}
