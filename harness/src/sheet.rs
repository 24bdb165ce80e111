//! C03 cell store, C04 headers, C05 iteration, C13 values.
use crate::core::{Ctx, Rng};
use crate::gen::*;
use crate::{ck, ckeq};
use spreadsheet_ods::draw::{Annotation, DrawFrame};
use spreadsheet_ods::sheet::Visibility;
use spreadsheet_ods::style::{ColStyleRef, RowStyleRef};
use spreadsheet_ods::validation::ValidationRef;
use spreadsheet_ods::{CellContent, CellStyleRef, Length, Sheet, Value};
use std::collections::BTreeMap;

// ---------------------------------------------------------------- C03
#[derive(Clone, Debug)]
struct M {
    value: Value,
    formula: Option<String>,
    style: Option<String>,
    repeat: u32,
    valid: Option<String>,
    span: (u32, u32),
    mspan: (u32, u32),
    ann: Option<Annotation>,
    frames: Vec<DrawFrame>,
}
impl Default for M {
    fn default() -> Self {
        M { value: Value::Empty, formula: None, style: None, repeat: 1, valid: None, span: (1, 1), mspan: (1, 1), ann: None, frames: vec![] }
    }
}
impl M {
    fn fp(&self) -> String {
        format!(
            "value={} formula={:?} style={:?} repeat={} valid={:?} span=({},{}) mspan=({},{}) ann={:?} frames={:?}",
            fp_value(&self.value), self.formula, self.style, self.repeat, self.valid, self.span.0, self.span.1, self.mspan.0, self.mspan.1,
            self.ann.as_ref(), self.frames
        )
    }
}
#[derive(Clone, Debug)]
enum Op {
    Value(Value), Styled(Value, String), StyledValue(Value, String), Formula(String), ClearFormula, Repeat(u32), Style(String), ClearStyle,
    Valid(String), ClearValid, RowSpan(u32), ColSpan(u32), MRowSpan(u32), MColSpan(u32), Ann(Annotation), ClearAnn, AnnMut(String),
    Frame(DrawFrame), ClearFrames, FramesMut(DrawFrame), Add(Vec<Op>), Edit(Vec<Op>), Remove, CopyTo(u32, u32), RefTo(u32, u32),
}
fn op(r: &mut Rng, depth: u32) -> Op {
    match r.below(if depth == 0 { 25 } else { 17 }) {
        0 | 1 => Op::Value(value_xml(r)),
        2 => Op::Formula(text_line(r)),
        3 => Op::ClearFormula,
        4 => Op::Repeat(1 + r.u32(5)),
        5 => Op::Style(ident(r)),
        6 => Op::ClearStyle,
        7 => Op::Valid(ident(r)),
        8 => Op::ClearValid,
        9 => Op::RowSpan(1 + r.u32(4)),
        10 => Op::ColSpan(1 + r.u32(4)),
        11 => Op::MRowSpan(1 + r.u32(4)),
        12 => Op::MColSpan(1 + r.u32(4)),
        13 => Op::Ann(annotation(r)),
        14 => Op::ClearAnn,
        15 => Op::Frame(draw_frame(r)),
        16 => Op::ClearFrames,
        17 => Op::Styled(value(r), ident(r)),
        18 => Op::StyledValue(value(r), ident(r)),
        19 => Op::AnnMut(text_line(r)),
        20 => Op::FramesMut(draw_frame(r)),
        21 => Op::Add((0..r.below(6)).map(|_| op(r, 1)).collect()),
        22 => Op::Edit((0..r.below(4)).map(|_| op(r, 1)).collect()),
        23 => Op::Remove,
        _ => if r.bool() { Op::CopyTo(r.u32(3), r.u32(3)) } else { Op::RefTo(r.u32(3), r.u32(3)) },
    }
}
fn apply_content(c: &mut CellContent, ops: &[Op]) {
    for o in ops {
        match o {
            Op::Value(v) => c.set_value(v.clone()),
            Op::Formula(f) => c.set_formula(f),
            Op::ClearFormula => c.clear_formula(),
            Op::Repeat(n) => c.set_repeat(*n),
            Op::Style(s) => c.set_style(&CellStyleRef::from(s)),
            Op::ClearStyle => c.clear_style(),
            Op::Valid(s) => c.set_validation(&ValidationRef::from(s)),
            Op::ClearValid => c.clear_validation(),
            Op::RowSpan(n) => c.set_row_span(*n),
            Op::ColSpan(n) => c.set_col_span(*n),
            Op::MRowSpan(n) => c.set_matrix_row_span(*n),
            Op::MColSpan(n) => c.set_matrix_col_span(*n),
            Op::Ann(a) => c.set_annotation(a.clone()),
            Op::ClearAnn => c.clear_annotation(),
            Op::Frame(f) => { let mut v = c.draw_frames().clone(); v.push(f.clone()); c.set_draw_frames(v); }
            Op::ClearFrames => c.set_draw_frames(vec![]),
            _ => unreachable!(),
        }
    }
}
fn apply_m(m: &mut M, ops: &[Op]) {
    for o in ops {
        match o.clone() {
            Op::Value(v) => m.value = v,
            Op::Formula(f) => m.formula = Some(f),
            Op::ClearFormula => m.formula = None,
            Op::Repeat(n) => m.repeat = n,
            Op::Style(s) => m.style = Some(s),
            Op::ClearStyle => m.style = None,
            Op::Valid(s) => m.valid = Some(s),
            Op::ClearValid => m.valid = None,
            Op::RowSpan(n) => m.span.0 = n,
            Op::ColSpan(n) => m.span.1 = n,
            Op::MRowSpan(n) => m.mspan.0 = n,
            Op::MColSpan(n) => m.mspan.1 = n,
            Op::Ann(a) => m.ann = Some(a),
            Op::ClearAnn => m.ann = None,
            Op::Frame(f) => m.frames.push(f),
            Op::ClearFrames => m.frames.clear(),
            _ => unreachable!(),
        }
    }
}
fn step(s: &mut Sheet, m: &mut BTreeMap<(u32, u32), M>, row: u32, col: u32, o: &Op) -> Result<(), String> {
    let k = (row, col);
    match o {
        Op::Value(v) => { s.set_value(row, col, v.clone()); m.entry(k).or_default().value = v.clone(); }
        Op::Styled(v, t) => { s.set_styled(row, col, v.clone(), &CellStyleRef::from(t)); let e = m.entry(k).or_default(); e.value = v.clone(); e.style = Some(t.clone()); }
        Op::StyledValue(v, t) => { s.set_styled_value(row, col, v.clone(), &CellStyleRef::from(t)); let e = m.entry(k).or_default(); e.value = v.clone(); e.style = Some(t.clone()); }
        Op::Formula(f) => { s.set_formula(row, col, f); m.entry(k).or_default().formula = Some(f.clone()); }
        Op::ClearFormula => { s.clear_formula(row, col); if let Some(e) = m.get_mut(&k) { e.formula = None; } }
        Op::Repeat(n) => { s.set_cell_repeat(row, col, *n); m.entry(k).or_default().repeat = *n; }
        Op::Style(t) => { s.set_cellstyle(row, col, &CellStyleRef::from(t)); m.entry(k).or_default().style = Some(t.clone()); }
        Op::ClearStyle => { s.clear_cellstyle(row, col); if let Some(e) = m.get_mut(&k) { e.style = None; } }
        Op::Valid(t) => { s.set_validation(row, col, &ValidationRef::from(t)); m.entry(k).or_default().valid = Some(t.clone()); }
        Op::ClearValid => { s.clear_validation(row, col); if let Some(e) = m.get_mut(&k) { e.valid = None; } }
        Op::RowSpan(n) => { s.set_row_span(row, col, *n); m.entry(k).or_default().span.0 = *n; }
        Op::ColSpan(n) => { s.set_col_span(row, col, *n); m.entry(k).or_default().span.1 = *n; }
        Op::MRowSpan(n) => { s.set_matrix_row_span(row, col, *n); m.entry(k).or_default().mspan.0 = *n; }
        Op::MColSpan(n) => { s.set_matrix_col_span(row, col, *n); m.entry(k).or_default().mspan.1 = *n; }
        Op::Ann(a) => { s.set_annotation(row, col, a.clone()); m.entry(k).or_default().ann = Some(a.clone()); }
        Op::ClearAnn => { s.clear_annotation(row, col); if let Some(e) = m.get_mut(&k) { e.ann = None; } }
        Op::AnnMut(t) => {
            if let Some(a) = s.annotation_mut(row, col) { a.set_name(t); }
            if let Some(a) = m.get_mut(&k).and_then(|e| e.ann.as_mut()) { a.set_name(t); }
        }
        Op::Frame(f) => { s.add_draw_frame(row, col, f.clone()); m.entry(k).or_default().frames.push(f.clone()); }
        Op::ClearFrames => { s.clear_draw_frames(row, col); if let Some(e) = m.get_mut(&k) { e.frames.clear(); } }
        Op::FramesMut(f) => {
            if let Some(v) = s.draw_frames_mut(row, col) {
                v.push(f.clone());
                match m.get_mut(&k) { Some(e) => e.frames.push(f.clone()), None => return Err("draw_frames_mut on a cell that does not exist".into()) }
            }
        }
        Op::Add(ops) => {
            let mut c = CellContent::new();
            let mut e = M::default();
            ckeq!(fp_content(&c), e.fp(), "CellContent::new()");
            apply_content(&mut c, ops);
            apply_m(&mut e, ops);
            ckeq!(fp_content(&c), e.fp(), "CellContent after {:?}", ops);
            s.add_cell(row, col, c);
            m.insert(k, e);
        }
        Op::Edit(ops) => {
            if let Some(mut c) = s.cell(row, col) {
                apply_content(&mut c, ops);
                s.add_cell(row, col, c);
            }
            if let Some(e) = m.get_mut(&k) { apply_m(e, ops); }
        }
        Op::Remove => {
            let a = s.remove_cell(row, col).map(|c| fp_content(&c));
            let b = m.remove(&k).map(|e| e.fp());
            ckeq!(a, b, "content returned by remove_cell({}, {})", row, col);
        }
        Op::CopyTo(r2, c2) => {
            if let Some(c) = s.cell(row, col) { s.add_cell(*r2, *c2, c); }
            if let Some(e) = m.get(&k).cloned() { m.insert((*r2, *c2), e); }
        }
        Op::RefTo(r2, c2) => {
            if let Some(c) = s.cell_ref(row, col).map(|v| v.to_owned()) { s.add_cell(*r2, *c2, c); }
            if let Some(e) = m.get(&k).cloned() { m.insert((*r2, *c2), e); }
        }
    }
    Ok(())
}
fn compare(s: &Sheet, m: &BTreeMap<(u32, u32), M>, probe: &[(u32, u32)]) -> Result<(), String> {
    ckeq!(s.cell_count(), m.len(), "cell_count");
    let def = M::default();
    for &(row, col) in probe {
        let e = m.get(&(row, col));
        let x = e.unwrap_or(&def);
        ckeq!(s.is_empty(row, col), e.is_none(), "is_empty({}, {})", row, col);
        ckeq!(fp_value(s.value(row, col)), fp_value(&x.value), "value({}, {})", row, col);
        ckeq!(s.formula(row, col), x.formula.as_ref(), "formula({}, {})", row, col);
        ckeq!(s.cell_repeat(row, col), x.repeat, "cell_repeat({}, {})", row, col);
        ckeq!(s.cellstyle(row, col).map(|v| v.as_str()), x.style.as_deref(), "cellstyle({}, {})", row, col);
        ckeq!(s.validation(row, col).map(|v| v.as_str()), x.valid.as_deref(), "validation({}, {})", row, col);
        ckeq!((s.row_span(row, col), s.col_span(row, col)), x.span, "span({}, {})", row, col);
        ckeq!((s.matrix_row_span(row, col), s.matrix_col_span(row, col)), x.mspan, "matrix span({}, {})", row, col);
        ckeq!(format!("{:?}", s.annotation(row, col)), format!("{:?}", x.ann.as_ref()), "annotation({}, {})", row, col);
        ckeq!(format!("{:?}", s.draw_frames(row, col).cloned().unwrap_or_default()), format!("{:?}", x.frames), "draw_frames({}, {})", row, col);
        ckeq!(s.cell(row, col).map(|c| fp_content(&c)), e.map(|e| e.fp()), "cell({}, {})", row, col);
        ckeq!(s.cell_ref(row, col).map(|c| fp_ref(&c)), e.map(|e| e.fp()), "cell_ref({}, {})", row, col);
        ckeq!(s.cell_ref(row, col).map(|c| fp_content(&c.to_owned())), e.map(|e| e.fp()), "cell_ref({}, {}).to_owned", row, col);
    }
    let a: Vec<_> = s.iter().map(|(k, c)| (k, fp_ref(&c))).collect();
    let b: Vec<_> = m.iter().map(|(k, e)| (*k, e.fp())).collect();
    ckeq!(a, b, "iter()");
    let grid = (m.keys().map(|k| k.0).max().unwrap_or(0) + 1, m.keys().map(|k| k.1).max().unwrap_or(0) + 1);
    ckeq!(s.used_grid_size(), grid, "used_grid_size");
    Ok(())
}
pub fn c03(ctx: &mut Ctx) {
    ctx.section("histories");
    let n = ctx.n(8_000, 200_000);
    let mut r = ctx.rng("c03");
    for _ in 0..n {
        if !ctx.time_left() { break; }
        let far = r.chance(1, 8);
        let base = if far { (*r.pick(&[1_048_575, 65_535, 4_000_000_000u32]), *r.pick(&[16_383, 1_023, 4_000_000_000u32])) } else { (0, 0) };
        let k = 1 + r.below(14);
        let h: Vec<(u32, u32, Op)> = (0..k)
            .map(|_| {
                let o = op(&mut r, 0);
                let o = match o {
                    Op::CopyTo(a, b) => Op::CopyTo(base.0 + a, base.1 + b),
                    Op::RefTo(a, b) => Op::RefTo(base.0 + a, base.1 + b),
                    o => o,
                };
                (base.0 + r.u32(3), base.1 + r.u32(3), o)
            })
            .collect();
        let probe: Vec<_> = (0..9).map(|i| (base.0 + i / 3, base.1 + i % 3)).collect();
        ctx.case("cell-history", format!("{:?}", h), || {
            let mut s = Sheet::new("x");
            let mut m = BTreeMap::new();
            for (row, col, o) in &h {
                step(&mut s, &mut m, *row, *col, o)?;
                compare(&s, &m, &probe)?;
            }
            let c = s.clone();
            compare(&c, &m, &probe)?;
            let c = s.clone_no_data();
            compare(&c, &BTreeMap::new(), &probe)?;
            // taking everything out leaves nothing.
            for (k, e) in &m {
                ckeq!(s.remove_cell(k.0, k.1).map(|c| fp_content(&c)), Some(e.fp()), "remove_cell{:?}", k);
                ck!(s.is_empty(k.0, k.1), "cell {:?} still there", k);
            }
            ckeq!(s.cell_count(), 0, "cell_count after removing all");
            Ok(())
        });
    }
    ctx.section("single setters");
    // exhaustive: every pair of attributes set and cleared, everything else untouched.
    let mut r = ctx.rng("c03b");
    for _ in 0..ctx.n(3, 60) {
        for a in 0..17u64 {
            for b in 0..17u64 {
                let pick = |r: &mut Rng, w: u64| loop {
                    let o = op(r, 1);
                    let i = match &o { Op::Value(_) => 0, Op::Formula(_) => 2, Op::ClearFormula => 3, Op::Repeat(_) => 4, Op::Style(_) => 5, Op::ClearStyle => 6, Op::Valid(_) => 7, Op::ClearValid => 8, Op::RowSpan(_) => 9, Op::ColSpan(_) => 10, Op::MRowSpan(_) => 11, Op::MColSpan(_) => 12, Op::Ann(_) => 13, Op::ClearAnn => 14, Op::Frame(_) => 15, _ => 16 };
                    if i == w || (w == 1 && i == 0) { break o; }
                };
                let h = [pick(&mut r, a), pick(&mut r, b)];
                let (y, x) = (r.u32(5), r.u32(5));
                ctx.case("setter-pair", format!("({}, {}) {:?}", y, x, h), || {
                    let mut s = Sheet::new("x");
                    let mut m = BTreeMap::new();
                    for o in &h {
                        step(&mut s, &mut m, y, x, o)?;
                        let mut v = CellContent::new();
                        apply_content(&mut v, std::slice::from_ref(o));
                        let mut e = M::default();
                        apply_m(&mut e, std::slice::from_ref(o));
                        ckeq!(fp_content(&v), e.fp(), "CellContent after {:?}", o);
                        s.add_cell(7, 7, v);
                        m.insert((7, 7), e);
                        compare(&s, &m, &[(y, x), (x, y), (7, 7), (y + 1, x), (y, x + 1)])?;
                    }
                    Ok(())
                });
            }
        }
    }
}

// ---------------------------------------------------------------- C04
#[derive(Clone, Debug, PartialEq)]
struct RM { style: Option<String>, cell: Option<String>, vis: Visibility, repeat: u32, height: Length }
#[derive(Clone, Debug, PartialEq)]
struct CM { style: Option<String>, cell: Option<String>, vis: Visibility, width: Length }
impl Default for RM { fn default() -> Self { RM { style: None, cell: None, vis: Visibility::Visible, repeat: 1, height: Length::Default } } }
impl Default for CM { fn default() -> Self { CM { style: None, cell: None, vis: Visibility::Visible, width: Length::Default } } }
#[derive(Clone, Debug)]
enum HOp {
    RowStyle(u32, Option<String>), RowCell(u32, Option<String>), RowVis(u32, Visibility), RowRepeat(u32, u32), RowHeight(u32, Length), RowSpan(u32, u32),
    ColStyle(u32, Option<String>), ColCell(u32, Option<String>), ColVis(u32, Visibility), ColWidth(u32, Length), ColSpan(u32, u32),
    RowGroup(u32, u32, bool), ColGroup(u32, u32, bool),
}
fn vis(r: &mut Rng) -> Visibility { *r.pick(&[Visibility::Visible, Visibility::Collapsed, Visibility::Filtered]) }
fn oid(r: &mut Rng) -> Option<String> { if r.chance(1, 4) { None } else { Some(ident(r)) } }
fn hop(r: &mut Rng, base: u32) -> HOp {
    let i = base + r.u32(9);
    match r.below(15) {
        0 => HOp::RowStyle(i, oid(r)),
        1 => HOp::RowCell(i, oid(r)),
        2 => HOp::RowVis(i, vis(r)),
        3 => HOp::RowRepeat(i, 1 + r.u32(5)),
        4 => HOp::RowHeight(i, length(r)),
        5 | 6 => HOp::RowSpan(i, 2 + r.u32(6)),
        7 => HOp::ColStyle(i, oid(r)),
        8 => HOp::ColCell(i, oid(r)),
        9 => HOp::ColVis(i, vis(r)),
        10 => HOp::ColWidth(i, length(r)),
        11 | 12 => HOp::ColSpan(i, 2 + r.u32(6)),
        13 => HOp::RowGroup(i, i + r.u32(4), r.bool()),
        _ => HOp::ColGroup(i, i + r.u32(4), r.bool()),
    }
}
/// the settings of a header that covers several rows/columns are only made on free ground:
/// a span is applied only where it does not collide with a following header.
struct HM { row: BTreeMap<u32, RM>, col: BTreeMap<u32, CM> }
fn hstep(s: &mut Sheet, m: &mut HM, o: &HOp) -> Result<(), String> {
    match o {
        HOp::RowStyle(i, v) => { match v { Some(v) => s.set_rowstyle(*i, &RowStyleRef::from(v)), None => s.clear_rowstyle(*i) }; m.row.entry(*i).or_default().style = v.clone(); }
        HOp::RowCell(i, v) => { match v { Some(v) => s.set_row_cellstyle(*i, &CellStyleRef::from(v)), None => s.clear_row_cellstyle(*i) }; m.row.entry(*i).or_default().cell = v.clone(); }
        HOp::RowVis(i, v) => { s.set_row_visible(*i, *v); m.row.entry(*i).or_default().vis = *v; }
        HOp::RowRepeat(i, v) => { s.set_row_repeat(*i, *v); m.row.entry(*i).or_default().repeat = *v; }
        HOp::RowHeight(i, v) => { s.set_row_height(*i, *v); m.row.entry(*i).or_default().height = *v; }
        HOp::RowSpan(i, n) => {
            if (*i + 1..*i + n).all(|k| !m.row.contains_key(&k)) {
                let t = m.row.entry(*i).or_default().clone();
                s.set_row_visible(*i, t.vis);
                s._set_row_header_span(*i, *n);
                for k in *i..*i + n { m.row.insert(k, t.clone()); }
            }
        }
        HOp::ColStyle(i, v) => { match v { Some(v) => s.set_colstyle(*i, &ColStyleRef::from(v)), None => s.clear_colstyle(*i) }; m.col.entry(*i).or_default().style = v.clone(); }
        HOp::ColCell(i, v) => { match v { Some(v) => s.set_col_cellstyle(*i, &CellStyleRef::from(v)), None => s.clear_col_cellstyle(*i) }; m.col.entry(*i).or_default().cell = v.clone(); }
        HOp::ColVis(i, v) => { s.set_col_visible(*i, *v); m.col.entry(*i).or_default().vis = *v; }
        HOp::ColWidth(i, v) => { s.set_col_width(*i, *v); m.col.entry(*i).or_default().width = *v; }
        HOp::ColSpan(i, n) => {
            if (*i + 1..*i + n).all(|k| !m.col.contains_key(&k)) {
                let t = m.col.entry(*i).or_default().clone();
                s._set_col_header_span(*i, *n);
                for k in *i..*i + n { m.col.insert(k, t.clone()); }
            }
        }
        HOp::RowGroup(a, b, d) => {
            let ok = s.row_group_iter().all(|g| { let (f, t) = (g.from(), g.to()); (f <= *a && *b <= t) || (*a <= f && t <= *b) || t < *a || *b < f });
            if ok {
                s.add_row_group(*a, *b);
                s.set_row_group_displayed(*a, *b, *d);
                for k in *a..=*b { m.row.entry(k).or_default().vis = if *d { Visibility::Visible } else { Visibility::Collapsed }; }
                let g = s.row_group_iter().find(|g| g.from() == *a && g.to() == *b).ok_or("group lost")?;
                ckeq!(g.display(), *d, "display of the group {}..{}", a, b);
            } else {
                // no such group: no effect
                let has = s.row_group_iter().any(|g| g.from() == *a && g.to() == *b);
                if !has { s.set_row_group_displayed(*a, *b, *d); }
            }
        }
        HOp::ColGroup(a, b, d) => {
            let ok = s.col_group_iter().all(|g| { let (f, t) = (g.from(), g.to()); (f <= *a && *b <= t) || (*a <= f && t <= *b) || t < *a || *b < f });
            if ok {
                s.add_col_group(*a, *b);
                s.set_col_group_displayed(*a, *b, *d);
                for k in *a..=*b { m.col.entry(k).or_default().vis = if *d { Visibility::Visible } else { Visibility::Collapsed }; }
                let g = s.col_group_iter().find(|g| g.from() == *a && g.to() == *b).ok_or("group lost")?;
                ckeq!(g.display(), *d, "display of the group {}..{}", a, b);
            } else {
                let has = s.col_group_iter().any(|g| g.from() == *a && g.to() == *b);
                if !has { s.set_col_group_displayed(*a, *b, *d); }
            }
        }
    }
    Ok(())
}
fn hcompare(s: &Sheet, m: &HM, base: u32) -> Result<(), String> {
    for i in base.saturating_sub(1)..base + 18 {
        let e = m.row.get(&i).cloned().unwrap_or_default();
        let g = RM {
            style: s.rowstyle(i).map(|v| v.as_str().to_string()), cell: s.row_cellstyle(i).map(|v| v.as_str().to_string()), vis: s.row_visible(i),
            // a row without any setting reports 0
            repeat: if m.row.contains_key(&i) { s.row_repeat(i) } else { ck!(s.row_repeat(i) <= 1, "row_repeat({})", i); 1 },
            height: s.row_height(i),
        };
        ckeq!(g, e, "settings of row {}", i);
        let e = m.col.get(&i).cloned().unwrap_or_default();
        let g = CM { style: s.colstyle(i).map(|v| v.as_str().to_string()), cell: s.col_cellstyle(i).map(|v| v.as_str().to_string()), vis: s.col_visible(i), width: s.col_width(i) };
        ckeq!(g, e, "settings of column {}", i);
    }
    Ok(())
}
pub fn c04(ctx: &mut Ctx) {
    ctx.section("histories");
    let n = ctx.n(30_000, 600_000);
    let mut r = ctx.rng("c04");
    for _ in 0..n {
        if !ctx.time_left() { break; }
        let base = if r.chance(1, 6) { *r.pick(&[16_380u32, 1_048_570, 4_294_960_000]) } else { 0 };
        let k = 1 + r.below(12);
        let h: Vec<HOp> = (0..k).map(|_| hop(&mut r, base)).collect();
        ctx.case("header-history", format!("{:?}", h), || {
            let mut s = Sheet::new("x");
            s.set_value(1, 1, 5);
            let mut m = HM { row: BTreeMap::new(), col: BTreeMap::new() };
            for o in &h {
                hstep(&mut s, &mut m, o).map_err(|e| format!("{} at {:?}", e, o))?;
                hcompare(&s, &m, base).map_err(|e| format!("after {:?}: {}", o, e))?;
                ckeq!(s.cell_count(), 1, "cells");
            }
            Ok(())
        });
    }
    ctx.section("splits");
    // exhaustive: one header covering a span, one setting at every position inside and around.
    for base in 0..3u32 {
        for span in 1..8u32 {
            for at in 0..(base + span + 3) {
                for which in 0..9u32 {
                    let mut pre: Vec<HOp> = vec![
                        HOp::RowStyle(base, Some("st".into())), HOp::RowCell(base, Some("ce".into())), HOp::RowVis(base, Visibility::Filtered), HOp::RowHeight(base, Length::Cm(1.5)), HOp::RowSpan(base, span),
                        HOp::ColStyle(base, Some("st".into())), HOp::ColCell(base, Some("ce".into())), HOp::ColVis(base, Visibility::Filtered), HOp::ColWidth(base, Length::Cm(1.5)), HOp::ColSpan(base, span),
                    ];
                    if span == 1 { pre.retain(|v| !matches!(v, HOp::RowSpan(_, _) | HOp::ColSpan(_, _))); }
                    pre.push(match which {
                        0 => HOp::RowStyle(at, Some("new".into())), 1 => HOp::RowCell(at, None), 2 => HOp::RowVis(at, Visibility::Collapsed), 3 => HOp::RowRepeat(at, 3), 4 => HOp::RowHeight(at, Length::Mm(9.0)),
                        5 => HOp::ColStyle(at, None), 6 => HOp::ColCell(at, Some("new".into())), 7 => HOp::ColVis(at, Visibility::Collapsed), _ => HOp::ColWidth(at, Length::Mm(9.0)),
                    });
                    ctx.case("split", format!("{:?}", pre), || {
                        let mut s = Sheet::new("x");
                        let mut m = HM { row: BTreeMap::new(), col: BTreeMap::new() };
                        for o in &pre { hstep(&mut s, &mut m, o)?; }
                        hcompare(&s, &m, 0)
                    });
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C05
pub fn c05(ctx: &mut Ctx) {
    use std::ops::Bound;
    ctx.section("ranges");
    let n = ctx.n(40_000, 900_000);
    let mut r = ctx.rng("c05");
    for _ in 0..n {
        if !ctx.time_left() { break; }
        let base = if r.chance(1, 5) { (*r.pick(&[1_048_570u32, 65_530]), *r.pick(&[16_380u32, 1_020])) } else { (0, 0) };
        let cells: Vec<(u32, u32)> = (0..r.below(14)).map(|_| (base.0 + r.u32(6), base.1 + r.u32(6))).collect();
        let a = (base.0 + r.u32(6), base.1 + r.u32(6));
        let b = (base.0 + r.u32(8), base.1 + r.u32(8));
        let kind = r.below(5);
        // an unbounded start reaches back to (0,0), so it is only used near the origin for the column-wise iterator
        ctx.case("iteration", format!("cells {:?} kind {} {:?}..{:?}", cells, kind, a, b), || {
            let mut s = Sheet::new("x");
            let mut m = BTreeMap::new();
            for (i, k) in cells.iter().enumerate() { s.set_value(k.0, k.1, i as u32); m.insert(*k, i as f64); }
            let big = (u32::MAX - 1, u32::MAX - 1);
            let (lo, hi): (Bound<(u32, u32)>, Bound<(u32, u32)>) = match kind {
                0 => (Bound::Included(a), Bound::Excluded(b)),
                1 => (Bound::Included(a), Bound::Included(b)),
                2 => (Bound::Included(a), Bound::Unbounded),
                3 => (Bound::Unbounded, Bound::Excluded(b)),
                _ => (Bound::Unbounded, Bound::Unbounded),
            };
            let st = match lo { Bound::Included(v) => v, _ => (0, 0) };
            let en = match hi { Bound::Included(v) => (v.0 + 1, v.1 + 1), Bound::Excluded(v) => v, _ => big };
            let inside = |k: &(u32, u32)| k.0 >= st.0 && k.0 < en.0 && k.1 >= st.1 && k.1 < en.1;
            let mut want: Vec<_> = m.iter().filter(|(k, _)| inside(k)).map(|(k, v)| (*k, *v)).collect();
            // BTreeMap::range panics when start > end: only lexically ordered ranges are valid input.
            let ordered = match (lo, hi) { (Bound::Included(x), Bound::Excluded(y)) | (Bound::Included(x), Bound::Included(y)) => x <= y, _ => true };
            let get = |v: Vec<((u32, u32), Value)>| v.into_iter().map(|(k, v)| (k, v.as_f64_or(-1.0))).collect::<Vec<_>>();
            if ordered {
                let got = get(s.iter_rows((lo, hi)).map(|(k, c)| (k, c.value().clone())).collect());
                ckeq!(got, want, "iter_rows");
                // size_hint is an upper bound at any time, lower bound never too large
                let mut it = s.iter_rows((lo, hi));
                let mut left = want.len();
                loop {
                    let (l, u) = it.size_hint();
                    ck!(l <= left && u.map(|u| u >= left).unwrap_or(true), "iter_rows size_hint {:?} with {} left", (l, u), left);
                    if it.next().is_none() { break; }
                    left = left.wrapping_sub(1);
                }
                ck!(it.next().is_none(), "iter_rows is not fused");
                // lexical range
                let wantr: Vec<_> = m.iter().filter(|(k, _)| (match lo { Bound::Included(v) => **k >= v, _ => true }) && (match hi { Bound::Included(v) => **k <= v, Bound::Excluded(v) => **k < v, _ => true })).map(|(k, v)| (*k, *v)).collect();
                let got = get(s.range((lo, hi)).map(|(k, c)| (k, c.value().clone())).collect());
                ckeq!(got, wantr, "range");
            }
            // column-wise iteration steps through every position: keep the rectangle small.
            if (kind <= 2) || base == (0, 0) {
                want.sort_by_key(|(k, _)| (k.1, k.0));
                let got = get(s.iter_cols((lo, hi)).map(|(k, c)| (k, c.value().clone())).collect());
                ckeq!(got, want, "iter_cols");
                let mut it = s.iter_cols((lo, hi));
                let mut left = want.len();
                loop {
                    let (l, u) = it.size_hint();
                    ck!(l <= left && u.map(|u| u >= left).unwrap_or(true), "iter_cols size_hint {:?} with {} left", (l, u), left);
                    if it.next().is_none() { break; }
                    left = left.wrapping_sub(1);
                }
                ck!(it.next().is_none(), "iter_cols is not fused");
            }
            let all = get(s.iter().map(|(k, c)| (k, c.value().clone())).collect());
            ckeq!(all, m.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "iter");
            let all = get((&s).into_iter().map(|(k, c)| (k, c.value().clone())).collect());
            ckeq!(all, m.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "into_iter");
            // peek after the first next names the next cell.
            let mut it = s.iter();
            let keys: Vec<_> = m.keys().copied().collect();
            for i in 0..keys.len() {
                let (l, u) = it.size_hint();
                ck!(l <= keys.len() - i && u.map(|u| u >= keys.len() - i).unwrap_or(true), "iter size_hint {:?} with {} left", (l, u), keys.len() - i);
                ckeq!(it.next().map(|v| v.0), Some(keys[i]), "next of iter");
                ckeq!(it.peek_cell(), keys.get(i + 1).copied(), "peek_cell after {} cells", i + 1);
            }
            ck!(it.next().is_none() && it.next().is_none() && it.peek_cell().is_none(), "iter is not fused");
            let grid = (m.keys().map(|k| k.0).max().unwrap_or(0) + 1, m.keys().map(|k| k.1).max().unwrap_or(0) + 1);
            ckeq!(s.used_grid_size(), grid, "used_grid_size");
            Ok(())
        });
    }
}
