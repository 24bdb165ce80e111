//@include pre.rs
use std::collections::BTreeMap;
// C06, C07, C08: the table that is written has every cell at its position, covered cells exactly inside
// the visible spans, every row and column with its own settings, and is properly nested.
verus! {
//@struct file=src/refs.rs name=CRow attr=derive(Clone,Copy)
//@end
//@struct file=src/refs.rs name=CCol attr=derive(Clone,Copy)
//@end
//@struct file=src/refs.rs name=CellRange
//@end
//@struct file=src/sheet_.rs name=Grouped attr=derive(Clone,Copy)
//@end
//@struct file=src/sheet_.rs name=Header attr=derive(Clone,Copy)
//@end
//@struct file=src/sheet_.rs name=Visibility attr=derive(Clone,Copy,PartialEq,Eq,Structural)
//@end
//@struct file=src/style/units.rs name=Length attr=derive(Clone,Copy)
//@end
//@struct file=src/sheet_.rs name=ColHeader
//@end
//@struct file=src/sheet_.rs name=RowHeader
//@end
//@struct file=src/cell_.rs name=CellSpan attr=derive(Clone,Copy)
//@end
//@struct file=src/cell_.rs name=CellData
//@end
//@struct file=src/cell_.rs name=CellDataExt
//@end
//@struct file=src/sheet_.rs name=Sheet
//@keep name,style,data,display,print,col_header,row_header,group_rows,group_cols,header_rows,header_cols,print_ranges,extra
//@end
//@struct file=src/io/write.rs name=SplitCols
//@end
struct ColStyleRef { id: String }
struct RowStyleRef { id: String }
struct CellStyleRef { id: String }
struct TableStyleRef { id: String }
impl ColStyleRef { fn as_str(&self) -> (r: &str) ensures r@ == self.id@ { self.id.as_str() } }
impl RowStyleRef { fn as_str(&self) -> (r: &str) ensures r@ == self.id@ { self.id.as_str() } }
impl CellStyleRef { fn as_str(&self) -> (r: &str) ensures r@ == self.id@ { self.id.as_str() } }
impl TableStyleRef { fn as_str(&self) -> (r: &str) ensures r@ == self.id@ { self.id.as_str() } }
//@struct file=src/value_.rs name=ValueType attr=derive(Clone,Copy,PartialEq,Eq)
//@end
//@struct file=src/value_.rs name=Value
//@subst Box<str> ==> String
//@end
#[verifier::external_body] #[derive(Clone, Copy)] struct NaiveDateTime {}
#[verifier::external_body] #[derive(Clone, Copy)] struct Duration {}
type TextTag = XmlTag;
#[verifier::external_body] struct Annotation {}
#[verifier::external_body] struct DrawFrame {}
struct ValidationRef { id: String }
impl ValidationRef { fn as_str(&self) -> (r: &str) ensures r@ == self.id@ { self.id.as_str() } }
#[verifier::external_body] struct XmlTag {}
#[verifier::external_body] struct WorkBook {}
//@include grid.inc.rs
//@include hdr_col.inc.rs
//@include hdr_row.inc.rs
spec fn cdef() -> ColHeader { ColHeader { style: None, cellstyle: None, visible: Visibility::Visible, width: Length::Default, span: 1 } }
spec fn rdef() -> RowHeader { RowHeader { style: None, cellstyle: None, visible: Visibility::Visible, repeat: 1, span: 1, height: Length::Default } }
impl Shown for Visibility { spec fn shown(&self) -> Seq<char> { vis_text(*self) } spec fn num(&self) -> int { 0 } }
/// the words are proved in unit C09_text
uninterp spec fn vis_text(v: Visibility) -> Seq<char>;

// ------------------------------------------------------------------ names
proof fn names()
    ensures kind("table:table-row"@) is Row, kind("table:table-cell"@) is Cell, kind("table:covered-table-cell"@) is Covered, kind("table:table-column"@) is Column, kind("table:table"@) is Table,
        kind("table:table-row-group"@) is Other, kind("table:table-header-rows"@) is Other, kind("table:table-column-group"@) is Other, kind("table:table-header-columns"@) is Other,
        "table:table-row-group"@ != "table:table-header-rows"@, "table:table-column-group"@ != "table:table-header-columns"@,
        "table:table"@ != "table:table-header-rows"@, "table:table"@ != "table:table-header-columns"@,
        ak("table:number-rows-repeated"@) == 1, ak("table:number-columns-repeated"@) == 2, ak("table:style-name"@) == 3, ak("table:default-cell-style-name"@) == 4, ak("table:visibility"@) == 5, ak("table:display"@) == 6, ak("table:name"@) == 7, ak("table:print-ranges"@) == 8, ak("table:print"@) == 9,
{
    reveal(ak);
    reveal_strlit("table:table-row"); reveal_strlit("table:table-cell"); reveal_strlit("table:covered-table-cell"); reveal_strlit("table:table-column"); reveal_strlit("table:table");
    reveal_strlit("table:table-row-group"); reveal_strlit("table:table-header-rows"); reveal_strlit("table:table-column-group"); reveal_strlit("table:table-header-columns");
    reveal_strlit("table:number-rows-repeated"); reveal_strlit("table:number-columns-repeated"); reveal_strlit("table:style-name"); reveal_strlit("table:default-cell-style-name");
    reveal_strlit("table:visibility"); reveal_strlit("table:display"); reveal_strlit("table:name"); reveal_strlit("table:print-ranges"); reveal_strlit("table:print");
    assert("table:table-row"@.len() == 15 && "table:table-cell"@.len() == 16 && "table:covered-table-cell"@.len() == 24 && "table:table-column"@.len() == 18 && "table:table"@.len() == 11);
    assert("table:table-row-group"@.len() == 21 && "table:table-header-rows"@.len() == 23 && "table:table-column-group"@.len() == 24 && "table:table-header-columns"@.len() == 26);
    assert("table:table-column-group"@[6] == 't' && "table:covered-table-cell"@[6] == 'c');
    assert("table:number-rows-repeated"@.len() == 26 && "table:number-columns-repeated"@.len() == 29 && "table:style-name"@.len() == 16 && "table:default-cell-style-name"@.len() == 29 && "table:visibility"@.len() == 16 && "table:display"@.len() == 13 && "table:name"@.len() == 10 && "table:print-ranges"@.len() == 18 && "table:print"@.len() == 11);
    assert("table:number-columns-repeated"@[6] == 'n' && "table:default-cell-style-name"@[6] == 'd' && "table:style-name"@[6] == 's' && "table:visibility"@[6] == 'v');
}
/// numbers the attribute names: names with different numbers are different
#[verifier::opaque]
spec fn ak(n: Nm) -> int {
    if n == "table:number-rows-repeated"@ { 1 } else if n == "table:number-columns-repeated"@ { 2 } else if n == "table:style-name"@ { 3 } else if n == "table:default-cell-style-name"@ { 4 } else if n == "table:visibility"@ { 5 }
    else if n == "table:display"@ { 6 } else if n == "table:name"@ { 7 } else if n == "table:print-ranges"@ { 8 } else if n == "table:print"@ { 9 } else { 0 }
}
// ------------------------------------------------------------------ spans
spec fn in_area(g: CellRange, row: int, col: int) -> bool { g.from_row.row <= row <= g.to_row.row && g.from_col.col <= col <= g.to_col.col }
spec fn wf(g: CellRange) -> bool { g.from_row.row <= g.to_row.row && g.from_col.col <= g.to_col.col && g.to_row.row < u32::MAX }
spec fn after_eq(row: int, col: int, row0: int, col0: int) -> bool { row > row0 || (row == row0 && col >= col0) }
spec fn nothing_left(g: CellRange, row: int, col: int) -> bool { forall|r: int, c: int| after_eq(r, c, row, col) ==> !in_area(g, r, c) }
spec fn in_rows(g: CellRange, row: int) -> bool { g.from_row.row <= row <= g.to_row.row }
spec fn in_cols(g: CellRange, col: int) -> bool { g.from_col.col <= col <= g.to_col.col }
/// the position is inside one of the ranges
spec fn hid(s: Seq<CellRange>, row: int, col: int) -> bool { exists|i: int| 0 <= i < s.len() && in_area(#[trigger] s[i], row, col) }
spec fn all_wf(s: Seq<CellRange>) -> bool { forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i]) }
impl CellRange {
//@fn file=src/refs.rs path=CellRange::row
//@ret r
//@spec
    ensures r == self.from_row.row,
//@end
//@fn file=src/refs.rs path=CellRange::to_row
//@ret r
//@spec
    ensures r == self.to_row.row,
//@end
//@fn file=src/refs.rs path=CellRange::col
//@ret r
//@spec
    ensures r == self.from_col.col,
//@end
//@fn file=src/refs.rs path=CellRange::to_col
//@ret r
//@spec
    ensures r == self.to_col.col,
//@end
    // proved in unit C02_geometry
    #[verifier::external_body] fn contains(&self, row: u32, col: u32) -> (r: bool) ensures r == in_area(*self, row as int, col as int) { unimplemented!() }
    #[verifier::external_body] fn out_looped(&self, row: u32, col: u32) -> (r: bool) requires wf(*self) ensures r == nothing_left(*self, row as int, col as int) { unimplemented!() }
    #[verifier::external_body] fn origin_span(row: u32, col: u32, span: (u32, u32)) -> (r: CellRange)
        requires span.0 > 0, span.1 > 0, row + span.0 <= u32::MAX, col + span.1 <= u32::MAX,
        ensures wf(r), forall|y: int, x: int| in_area(r, y, x) <==> (row <= y < row + span.0 && col <= x < col + span.1) { unimplemented!() }
}
// trusted: slice::iter().any / filter().collect() / drain().filter().collect() test every element once
#[verifier::external_body]
fn vp_any<F: Fn(&CellRange) -> bool>(s: &[CellRange], f: F) -> (r: bool)
    requires forall|x: CellRange| call_requires(f, (&x,)),
    ensures r ==> exists|i: int| 0 <= i < s@.len() && call_ensures(f, (&#[trigger] s@[i],), true), !r ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), false) { unimplemented!() }
#[verifier::opaque]
spec fn filt<F: Fn(&CellRange) -> bool>(r: Seq<&CellRange>, s: Seq<CellRange>, f: F) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> call_ensures(f, (#[trigger] r[i],), true) && exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == *r[i]
    &&& forall|j: int| 0 <= j < s.len() ==> call_ensures(f, (&#[trigger] s[j],), false) || exists|i: int| 0 <= i < r.len() && *(#[trigger] r[i]) == s[j]
}
#[verifier::external_body]
fn vp_filter<'a, F: Fn(&CellRange) -> bool>(s: &'a [CellRange], f: F) -> (r: Vec<&'a CellRange>)
    requires forall|x: CellRange| call_requires(f, (&x,)),
    ensures filt(r@, s@, f) { unimplemented!() }
proof fn lemma_filt<F: Fn(&CellRange) -> bool>(r: Seq<&CellRange>, s: Seq<CellRange>, f: F, row: int)
    requires filt(r, s, f), forall|x: CellRange, b: bool| #[trigger] call_ensures(f, (&x,), b) ==> b == in_rows(x, row)
    ensures sel(r, s, row)
{ reveal(filt); reveal(sel); }
#[verifier::external_body]
fn vp_retain<F: Fn(&CellRange) -> bool>(s: &mut Vec<CellRange>, f: F) -> (r: Vec<CellRange>)
    requires forall|i: int| 0 <= i < old(s)@.len() ==> call_requires(f, (&#[trigger] old(s)@[i],)),
    ensures forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (&#[trigger] r@[i],), true) && exists|j: int| 0 <= j < old(s)@.len() && #[trigger] old(s)@[j] == r@[i],
        forall|j: int| 0 <= j < old(s)@.len() ==> call_ensures(f, (&#[trigger] old(s)@[j],), false) || exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]) == old(s)@[j] { unimplemented!() }
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(v);
#[verifier::external_body]
fn vp_replace<T>(d: &mut T, n: T) -> (r: T) ensures r == *old(d), *final(d) == n { unimplemented!() }

/// the pieces cover the columns from..to without gap, each one either hidden or visible throughout
spec fn piece(p: SplitCols, s: Seq<CellRange>, row: int) -> bool { p.col <= p.col_to && forall|x: int| p.col <= x <= p.col_to ==> #[trigger] hid(s, row, x) == p.hidden }
spec fn pieces(o: Seq<SplitCols>, s: Seq<CellRange>, row: int, from: int, to: int) -> bool {
    &&& o.len() > 0 && o[0].col == from && o.last().col_to + 1 == to
    &&& forall|i: int| 0 <= i < o.len() ==> piece(#[trigger] o[i], s, row)
    &&& forall|i: int| 0 <= i < o.len() - 1 ==> (#[trigger] o[i]).col_to + 1 == o[i + 1].col
}
/// as pieces, the last one still open
#[verifier::opaque]
spec fn run(o: Seq<SplitCols>, r: Option<SplitCols>, s: Seq<CellRange>, row: int, from: int, to: int) -> bool {
    if r is None { to == from && o.len() == 0 } else { pieces(o.push(r->0), s, row, from, to) }
}
spec fn bit(c: u32, h: bool) -> SplitCols { SplitCols { col: c, col_to: c, hidden: h } }
proof fn lemma_run(o: Seq<SplitCols>, r: Option<SplitCols>, s: Seq<CellRange>, row: int, from: int, c: u32)
    requires run(o, r, s, row, from, c as int),
    ensures ({ let h = hid(s, row, c as int);
        &&& r is None ==> run(o, Some(bit(c, h)), s, row, from, c + 1)
        &&& r is Some && r->0.hidden == h ==> run(o, Some(SplitCols { col_to: c, ..r->0 }), s, row, from, c + 1)
        &&& r is Some && r->0.hidden != h ==> run(o.push(r->0), Some(bit(c, h)), s, row, from, c + 1) })
{
    reveal(run);
    let h = hid(s, row, c as int);
    if r is Some {
        let p = o.push(r->0); let n = o.len() as int;
        assert(p[n] == r->0 && piece(p[n], s, row) && p[n].col_to + 1 == c);
        let a = o.push(SplitCols { col_to: c, ..r->0 }); let b = o.push(r->0).push(bit(c, h));
        if r->0.hidden == h {
            assert forall|i: int| 0 <= i < a.len() implies piece(#[trigger] a[i], s, row) by { if i < n { assert(a[i] == p[i]); } }
            assert forall|i: int| 0 <= i < a.len() - 1 implies (#[trigger] a[i]).col_to + 1 == a[i + 1].col by { assert(a[i] == p[i]); assert(a[i + 1].col == p[i + 1].col); }
            if n > 0 { assert(a[0] == p[0]); }
        } else {
            assert forall|i: int| 0 <= i < b.len() implies piece(#[trigger] b[i], s, row) by { if i < n + 1 { assert(b[i] == p[i]); } }
            assert forall|i: int| 0 <= i < b.len() - 1 implies (#[trigger] b[i]).col_to + 1 == b[i + 1].col by { assert(b[i] == p[i]); if i < n { assert(b[i + 1] == p[i + 1]); } }
            assert(b[0] == p[0]);
        }
    } else { let a = o.push(bit(c, h)); assert(a[0] == bit(c, h)); }
}
/// the selected ranges are exactly those that touch the row
#[verifier::opaque]
spec fn sel(rs: Seq<&CellRange>, s: Seq<CellRange>, row: int) -> bool {
    &&& forall|i: int| 0 <= i < rs.len() ==> in_rows(*(#[trigger] rs[i]), row) && exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == *rs[i]
    &&& forall|j: int| 0 <= j < s.len() ==> !in_rows(#[trigger] s[j], row) || exists|i: int| 0 <= i < rs.len() && *(#[trigger] rs[i]) == s[j]
}
proof fn lemma_sel(rs: Seq<&CellRange>, s: Seq<CellRange>, row: int, c: int)
    requires sel(rs, s, row),
    ensures forall|k: int| 0 <= k < rs.len() && in_cols(*(#[trigger] rs[k]), c) ==> hid(s, row, c),
        (forall|k: int| 0 <= k < rs.len() ==> !in_cols(*(#[trigger] rs[k]), c)) ==> !hid(s, row, c),
{
    reveal(sel);
    assert forall|k: int| 0 <= k < rs.len() && in_cols(*(#[trigger] rs[k]), c) implies hid(s, row, c) by {
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == *rs[k];
        assert(in_area(s[j], row, c));
    }
    if hid(s, row, c) {
        let j = choose|j: int| 0 <= j < s.len() && in_area(#[trigger] s[j], row, c);
        let i = choose|i: int| 0 <= i < rs.len() && *(#[trigger] rs[i]) == s[j];
        assert(in_cols(*rs[i], c));
    }
}
impl SplitCols {
//@fn file=src/io/write.rs path=SplitCols::repeat
//@ret r
//@spec
    requires self.col <= self.col_to, self.col_to - self.col < u32::MAX,
    ensures r == self.col_to - self.col + 1,
//@end
}
//@fn file=src/io/write.rs path=split_hidden attr=verifier::loop_isolation(false)+verifier::rlimit(60)+verifier::spinoff_prover
//@params ranges row col repeat out
//@subst ranges.iter().any(|v| $e) ==> vp_any(ranges, |v: &CellRange| -> (b: bool) ensures b == in_area(*v, row as int, col as int) { $e })
//@subst ranges.iter().filter(|v| $e).collect() ==> { let vp_f = |v: &CellRange| -> (b: bool) ensures b == in_rows(*v, row as int) { $e }; let ghost g = vp_f; let vp_r = vp_filter(ranges, vp_f); proof { lemma_filt(vp_r@, ranges@, g, row as int); } vp_r }
//@subst Vec<_> ==> Vec<&CellRange>
//@subst mem::replace($a, $b) ==> vp_replace($a, $b)
//@subst for r in &ranges ==> for r in ranges.iter()
//@subst 'col_loop: for c in $a..$b { $body } ==> let mut vp_c = $a; let vp_e = $b; 'col_loop: while vp_c < vp_e { let c = vp_c; vp_c += 1; $body }
//@spec
    requires repeat >= 1, col + repeat <= u32::MAX,
    ensures pieces(final(out)@, ranges@, row as int, col as int, col + repeat),
//@at start
    let ghost all = ranges@;
//@at beforeloop 0
    proof { reveal(run); }
//@loop 0
    invariant vp_e == col + repeat, col <= vp_c <= vp_e, vp_e <= u32::MAX, sel(ranges@, all, row as int), run(out@, range, all, row as int, col as int, vp_c as int),
    decreases vp_e - vp_c,
//@at beforeloop 1
    proof { lemma_run(out@, range, all, row as int, col as int, c); lemma_sel(ranges@, all, row as int, c as int); }
    let ghost (o0, r0) = (out@, range);
//@loop 1 it=jt
    invariant jt.seq().len() == ranges@.len(), forall|k: int| 0 <= k < ranges@.len() ==> *(#[trigger] jt.seq()[k]) == ranges@[k],
        forall|k: int| 0 <= k < jt.index@ ==> !in_cols(*(#[trigger] ranges@[k]), c as int),
        vp_e == col + repeat, col <= c < vp_e, vp_c == c + 1, vp_e <= u32::MAX, out@ == o0, range == r0, c < u32::MAX,
//@at loopstart 1
    proof { assert(*r == *ranges@[jt.index@ as int]); }
//@at afterloop 0
    proof { reveal(run); }
//@end
//@fn file=src/io/write.rs path=remove_outlived
//@params ranges row col
//@subst ranges.drain(..).filter(|s| $e).collect() ==> vp_retain(ranges, |s: &CellRange| -> (b: bool) requires wf(*s) ensures b == !nothing_left(*s, row as int, col as int) { $e })
//@spec
    requires all_wf(old(ranges)@),
    ensures all_wf(final(ranges)@), begun(old(ranges)@, row as int) ==> begun(final(ranges)@, row as int), forall|r: int, c: int| after_eq(r, c, row as int, col as int) ==> #[trigger] hid(final(ranges)@, r, c) == hid(old(ranges)@, r, c),
//@end
// ------------------------------------------------------------------ cells
spec fn blank(c: Cel) -> bool { c.attrs == Map::<Nm, Seq<char>>::empty() && c.body == Seq::<Tok>::empty() }
spec fn ext<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
/// everything but the cells of the current row is as it was
spec fn in_place(a: G, b: G) -> bool { b.stack == a.stack && b.inrow == a.inrow && b.inc == a.inc && b.row == a.row && b.rows == a.rows && b.tcol == a.tcol && b.cols == a.cols && b.tattrs == a.tattrs && ext(a.cels, b.cels) }
spec fn veil(c: Cel, s: Seq<CellRange>, row: int) -> bool { forall|x: int| c.col <= x < c.col + c.coln ==> #[trigger] hid(s, row, x) == c.covered }
spec fn fits(c: Cel, g: G, from: int, to: int) -> bool { c.row == g.row && c.rown == g.rows.last().rown && from <= c.col && c.coln >= 1 && c.col + c.coln <= to }
/// empty cells were added up to column `to`, covered where the ranges say so
spec fn fill(a: G, b: G, s: Seq<CellRange>, row: int, to: int) -> bool {
    &&& in_place(a, b) && b.col == to
    &&& forall|i: int| a.cels.len() <= i < b.cels.len() ==> blank(#[trigger] b.cels[i]) && fits(b.cels[i], a, a.col, to) && veil(b.cels[i], s, row)
}
//@gsubst for s in &split ==> for s in split.iter()
//@fn file=src/io/write.rs path=write_empty_cells
//@params hidden repeat xml_out
//@ret r
//@spec
    requires wfg(old(xml_out)@), old(xml_out)@.inrow, !old(xml_out)@.inc, repeat >= 1,
    ensures r is Ok ==> wfg(final(xml_out)@) && in_place(old(xml_out)@, final(xml_out)@) && final(xml_out)@.col == old(xml_out)@.col + repeat
        && final(xml_out)@.cels == old(xml_out)@.cels.push(Cel { row: old(xml_out)@.row, rown: old(xml_out)@.rows.last().rown, col: old(xml_out)@.col, coln: repeat as int, covered: hidden, attrs: Map::empty(), body: Seq::empty() }),
//@at start
    proof { names(); }
//@end
//@fn file=src/io/write.rs path=write_leading_cells
//@params spans row repeat xml_out
//@ret r
//@spec
    requires wfg(old(xml_out)@), old(xml_out)@.inrow, !old(xml_out)@.inc, old(xml_out)@.col == 0, repeat >= 1,
    ensures r is Ok ==> wfg(final(xml_out)@) && fill(old(xml_out)@, final(xml_out)@, spans@, row as int, repeat as int),
//@loop 0 it=it
    invariant it.seq().len() == split@.len(), forall|k: int| 0 <= k < split@.len() ==> *(#[trigger] it.seq()[k]) == split@[k], pieces(split@, spans@, row as int, 0, repeat as int),
        wfg(xml_out@), xml_out@.inrow, !xml_out@.inc, fill(old(xml_out)@, xml_out@, spans@, row as int, if it.index@ < split@.len() { split@[it.index@ as int].col as int } else { repeat as int }),
        old(xml_out)@.col == 0,
//@at loopstart 0
    proof { assert(*s == split@[it.index@ as int]); assert(piece(split@[it.index@ as int], spans@, row as int)); if it.index@ + 1 < split@.len() { assert(split@[it.index@ as int].col_to + 1 == split@[it.index@ + 1].col); } }
//@end
// ------------------------------------------------------------------ rows
spec fn put(m: Am, n: Nm, v: Option<Seq<char>>) -> Am { match v { Some(x) => m.insert(n, x), None => m } }
/// the attributes of a row
spec fn row_attrs(h: Option<RowHeader>) -> Am {
    match h {
        None => Map::empty(),
        Some(h) => put(put(put(Map::empty(), "table:style-name"@, match h.style { Some(s) => Some(s.id@), None => None }),
            "table:default-cell-style-name"@, match h.cellstyle { Some(s) => Some(s.id@), None => None }),
            "table:visibility"@, if h.visible == Visibility::Visible { None } else { Some(vis_text(h.visible)) }),
    }
}
/// number of groups among the first n with the property
spec fn cnt(s: Seq<Grouped>, n: int, w: bool, a: int, b: int) -> int decreases n { if n <= 0 { 0 } else { cnt(s, n - 1, w, a, b) + (if a <= gpos(s[n - 1], w) < b { 1int } else { 0int }) } }
spec fn gpos(g: Grouped, w: bool) -> int { if w { g.from as int } else { g.to as int } }
spec fn derefs(s: Seq<&Grouped>) -> Seq<Grouped> { Seq::new(s.len(), |i: int| *s[i]) }
/// groups that are open before row b
spec fn open_at(s: Seq<Grouped>, b: int) -> int { cnt(s, s.len() as int, true, 0, b) - cnt(s, s.len() as int, false, 0, b) }
spec fn open_in(s: Seq<Grouped>, a: int, b: int) -> int { cnt(s, s.len() as int, true, 0, b) - cnt(s, s.len() as int, false, 0, a) }
proof fn lemma_cnt(s: Seq<Grouped>, n: int, a: int, b: int)
    requires 0 <= a <= b, 0 <= n <= s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).from <= s[i].to
    ensures cnt(s, n, true, 0, a) + cnt(s, n, true, a, b) == cnt(s, n, true, 0, b), cnt(s, n, false, 0, a) + cnt(s, n, false, a, b) == cnt(s, n, false, 0, b),
        cnt(s, n, false, 0, b) <= cnt(s, n, true, 0, b), 0 <= cnt(s, n, true, 0, b) <= n, 0 <= cnt(s, n, false, 0, b), 0 <= cnt(s, n, true, a, b), 0 <= cnt(s, n, false, a, b), 0 <= cnt(s, n, false, 0, a) <= cnt(s, n, true, 0, a),
    decreases n
{ if n > 0 { lemma_cnt(s, n - 1, a, b); assert(s[n - 1].from <= s[n - 1].to); } }
proof fn lemma_cnt_mono(s: Seq<Grouped>, n: int, m: int, w: bool, a: int, b: int) requires 0 <= n <= m ensures 0 <= cnt(s, n, w, a, b) <= cnt(s, m, w, a, b) decreases m
{ if n < m { lemma_cnt_mono(s, n, m - 1, w, a, b); } else if m > 0 { lemma_cnt_mono(s, n - 1, m - 1, w, a, b); } }
// trusted: the sorted list holds the same groups
#[verifier::external_body]
fn outer_groups_first(groups: &[Grouped]) -> (r: Vec<&Grouped>)
    ensures r@.len() == groups@.len(), forall|w: bool, a: int, b: int| #[trigger] cnt(derefs(r@), r@.len() as int, w, a, b) == cnt(groups@, groups@.len() as int, w, a, b) { unimplemented!() }
impl Grouped {
//@fn file=src/sheet_.rs path=Grouped::from
//@ret r
//@spec
    ensures r == self.from,
//@end
//@fn file=src/sheet_.rs path=Grouped::to
//@ret r
//@spec
    ensures r == self.to,
//@end
//@fn file=src/sheet_.rs path=Grouped::display
//@ret r
//@spec
    ensures r == self.display,
//@end
}
spec fn hline(s: Sheet, r: int) -> bool { s.header_rows matches Some(h) && h.from <= r <= h.to }
spec fn hin(s: Sheet, r: int, n: int) -> bool { s.header_rows matches Some(h) && h.from < r + n && h.to >= r }
/// a sheet as the public functions build it and the reader leaves it: DESIGN.md lists what is outside
spec fn sheet_ok(s: Sheet) -> bool {
    &&& rwf(s.row_header@) && cwf(s.col_header@)
    &&& forall|k: u32| #[trigger] s.row_header@.contains_key(k) ==> s.row_header@[k].repeat >= 1 && k + s.row_header@[k].repeat <= u32::MAX && (s.row_header@[k].repeat > 1 ==> s.row_header@[k].span == 1)
    &&& s.group_rows@.len() < u32::MAX && forall|i: int| 0 <= i < s.group_rows@.len() ==> (#[trigger] s.group_rows@[i]).from <= s.group_rows@[i].to
    &&& s.header_rows matches Some(h) ==> h.from <= h.to
    &&& forall|k: (u32, u32)| #[trigger] s.data@.contains_key(k) ==> k.0 < u32::MAX && k.1 < u32::MAX && cell_ok(k, s.data@[k])
}
spec fn cell_ok(k: (u32, u32), d: CellData) -> bool {
    &&& d.repeat >= 1 && k.1 + d.repeat <= u32::MAX
    &&& d.extra matches Some(x) ==> x.span.row_span >= 1 && x.span.col_span >= 1 && k.0 + x.span.row_span <= u32::MAX && k.1 + x.span.col_span <= u32::MAX && (x.span.row_span > 1 || x.span.col_span > 1 ==> d.repeat == 1)
}
/// how many rows the row stands for
spec fn rrep(s: Sheet, row: u32) -> u32 { if s.row_header@.contains_key(row) { s.row_header@[row].repeat } else { 1 } }
/// the repeat count comes from the header of the row
proof fn lemma_rrep(s: Sheet, row: u32, k: u32) requires sheet_ok(s), rcov(s.row_header@, k, row) ensures s.row_header@[k].repeat == rrep(s, row), rat(s.row_header@, row) == Some(rone(s.row_header@[k]))
{ lemma_rat(s.row_header@, k, row); if s.row_header@.contains_key(row) { assert(rcov(s.row_header@, row, row)); } }
proof fn lemma_rrep0(s: Sheet, row: u32) requires sheet_ok(s), forall|k: u32| !#[trigger] rcov(s.row_header@, k, row) ensures rrep(s, row) == 1
{ if s.row_header@.contains_key(row) { assert(rcov(s.row_header@, row, row)); } }
#[verifier::external_body]
fn vp_floor<V>(m: &BTreeMap<u32, V>, k: u32) -> (r: Option<(&u32, &V)>)
    ensures match r {
        None => forall|j: u32| #[trigger] m@.contains_key(j) ==> j > k,
        Some((b, v)) => m@.contains_key(*b) && m@[*b] == *v && *b <= k && forall|j: u32| #[trigger] m@.contains_key(j) && j <= k ==> j <= *b,
    }
{ m.range(..=k).last() }
#[verifier::external_body]
fn vp_ceil<V>(m: &BTreeMap<u32, V>, k: u32) -> (r: Option<(&u32, &V)>)
    ensures match r {
        None => forall|j: u32| #[trigger] m@.contains_key(j) ==> j < k,
        Some((b, v)) => m@.contains_key(*b) && m@[*b] == *v && *b >= k && forall|j: u32| #[trigger] m@.contains_key(j) && j >= k ==> j >= *b,
    }
{ m.range(k..).next() }
fn vp_within(a: u32, b: u32, x: u32) -> (r: bool) ensures r == (a <= x < b) { a <= x && x < b }
fn min(a: u32, b: u32) -> (r: u32) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
fn max(a: u32, b: u32) -> (r: u32) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
impl Sheet {
//@fn file=src/sheet_.rs path=Sheet::valid_row_header
//@params row
//@ret r
//@subst self.row_header.range(..=$k).last() ==> vp_floor(&self.row_header, $k)
//@subst self.row_header.range(..=$k).next_back() ==> vp_floor(&self.row_header, $k)
//@subst ($a..$b).contains(&$x) ==> vp_within($a, $b, $x)
//@spec
    requires rwf(self.row_header@),
    ensures match r { Some(h) => rat(self.row_header@, row) == Some(rone(*h)) && exists|k: u32| #[trigger] rcov(self.row_header@, k, row) && self.row_header@[k] == *h, None => rat(self.row_header@, row) is None && forall|k: u32| !#[trigger] rcov(self.row_header@, k, row) },
//@at start
    proof { lemma_rlookup(self.row_header@, row); assert forall|k: u32| #[trigger] rcov(self.row_header@, k, row) implies self.row_header@.contains_key(k) by {} }
//@end
}
// the open elements: the table, the row groups, the header rows, the row
spec fn opt1(b: bool, n: Nm) -> Seq<Nm> { if b { seq![n] } else { Seq::empty() } }
spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
spec fn base(st: Seq<Nm>, n: int, h: bool, r: bool) -> Seq<Nm> { st.subrange(0, st.len() - n - b2i(h) - b2i(r)) }
spec fn laid(st: Seq<Nm>, n: int, h: bool, r: bool) -> bool {
    let m = st.len() - n - b2i(h) - b2i(r);
    &&& n >= 0 && m >= 1 && st[m - 1] == "table:table"@
    &&& forall|i: int| m <= i < m + n ==> #[trigger] st[i] == "table:table-row-group"@
    &&& h ==> st[m + n] == "table:table-header-rows"@
    &&& r ==> st.last() == "table:table-row"@
}
/// cells and rows from before are still there, nothing else but row groups changed
spec fn same_table(a: G, b: G) -> bool { b.tcol == a.tcol && b.cols == a.cols && b.tattrs == a.tattrs && !b.inc && ext(a.cels, b.cels) && ext(a.rows, b.rows) }
//@gsubst for row_group in &sheet.group_rows ==> for row_group in sheet.group_rows.iter()
//@gsubst for row_group in outer_groups_first($e) { $body } ==> let vp_groups = outer_groups_first($e); for row_group in vp_groups.iter() { let row_group: &Grouped = *row_group; $body }
//@fn file=src/io/write.rs path=write_start_current_row
//@params sheet cur_row cur_row_repeat backward_delta_col spans row_group_count row_header xml_out
//@ret r
//@spec
    requires wfg(old(xml_out)@), !old(xml_out)@.inrow, !old(xml_out)@.inc, old(xml_out)@.row == cur_row, sheet_ok(*sheet), cur_row_repeat == rrep(*sheet, cur_row), cur_row < u32::MAX,
        laid(old(xml_out)@.stack, *old(row_group_count) as int, false, false), *old(row_group_count) == open_at(sheet.group_rows@, cur_row as int), *old(row_header) == hin(*sheet, cur_row as int, 0),
    ensures r is Ok ==> ({ let a = old(xml_out)@; let b = final(xml_out)@; let n = cur_row_repeat as int;
        &&& wfg(b) && b.inrow && same_table(a, b) && b.row == cur_row
        &&& *final(row_group_count) == open_in(sheet.group_rows@, cur_row as int, cur_row + n) && *final(row_header) == hin(*sheet, cur_row as int, n)
        &&& laid(b.stack, *final(row_group_count) as int, *final(row_header), true) && base(b.stack, *final(row_group_count) as int, *final(row_header), true) =~= base(a.stack, *old(row_group_count) as int, false, false)
        &&& b.rows == a.rows.push(RowEv { row: cur_row as int, rown: n, attrs: row_attrs(rat(sheet.row_header@, cur_row)), hdr: *final(row_header) })
        &&& b.col == backward_delta_col
        &&& forall|i: int| a.cels.len() <= i < b.cels.len() ==> blank(#[trigger] b.cels[i]) && fits(b.cels[i], b, 0, backward_delta_col as int) && veil(b.cels[i], spans@, cur_row as int) }),
//@at start
    proof { names(); lemma_cnt(sheet.group_rows@, sheet.group_rows@.len() as int, cur_row as int, cur_row + cur_row_repeat); }
//@at beforeloop 0
    proof { assert(cnt(derefs(vp_groups@), vp_groups@.len() as int, true, cur_row as int, cur_row + cur_row_repeat) == cnt(sheet.group_rows@, sheet.group_rows@.len() as int, true, cur_row as int, cur_row + cur_row_repeat)); }
//@loop 0 it=it
    invariant it.seq().len() == vp_groups@.len(), forall|k: int| 0 <= k < vp_groups@.len() ==> *(#[trigger] it.seq()[k]) == vp_groups@[k], vp_groups@.len() == sheet.group_rows@.len(), vp_groups@.len() < u32::MAX,
        cur_row + cur_row_repeat <= u32::MAX, cur_row_repeat >= 1,
        wfg(xml_out@), !xml_out@.inrow, !xml_out@.inc, same_table(old(xml_out)@, xml_out@), xml_out@.cels == old(xml_out)@.cels, xml_out@.rows == old(xml_out)@.rows, xml_out@.row == cur_row,
        laid(old(xml_out)@.stack, *old(row_group_count) as int, false, false),
        laid(xml_out@.stack, *row_group_count as int, false, false), base(xml_out@.stack, *row_group_count as int, false, false) =~= base(old(xml_out)@.stack, *old(row_group_count) as int, false, false),
        *row_group_count == *old(row_group_count) + cnt(derefs(vp_groups@), it.index@ as int, true, cur_row as int, cur_row + cur_row_repeat),
        *old(row_group_count) + cnt(derefs(vp_groups@), vp_groups@.len() as int, true, cur_row as int, cur_row + cur_row_repeat) <= vp_groups@.len(),
        kind("table:table-row-group"@) is Other,
//@at loopstart 0
    proof { assert(derefs(vp_groups@)[it.index@ as int] == *row_group); lemma_cnt_mono(derefs(vp_groups@), it.index@ + 1, vp_groups@.len() as int, true, cur_row as int, cur_row + cur_row_repeat);
        assert(cnt(derefs(vp_groups@), it.index@ + 1, true, cur_row as int, cur_row + cur_row_repeat) == cnt(derefs(vp_groups@), it.index@ as int, true, cur_row as int, cur_row + cur_row_repeat) + (if cur_row <= row_group.from < cur_row + cur_row_repeat { 1int } else { 0int })); }
    let ghost vp_rgc = *row_group_count;
//@at loopend 0
    proof { assert(*row_group_count == vp_rgc + (if cur_row <= row_group.from < cur_row + cur_row_repeat { 1int } else { 0int })); }
//@at before 0 Ok(())
    proof { let a = old(xml_out)@; let b = xml_out@; let n = cur_row_repeat as int; let rh = *row_header;
        if exists|k: u32| rcov(sheet.row_header@, k, cur_row) { let k = choose|k: u32| rcov(sheet.row_header@, k, cur_row); lemma_rrep(*sheet, cur_row, k); } else { lemma_rrep0(*sheet, cur_row); }
        assert(b.rows.last().rown == n);
        assert(b.rows.last().attrs =~= row_attrs(rat(sheet.row_header@, cur_row)));
        assert(b.rows =~= a.rows.push(RowEv { row: cur_row as int, rown: n, attrs: row_attrs(rat(sheet.row_header@, cur_row)), hdr: rh }));
    }
//@end
/// nothing is put into the table
spec fn kept(a: G, b: G) -> bool { b.tcol == a.tcol && b.cols == a.cols && b.tattrs == a.tattrs && !b.inc && b.cels == a.cels && b.rows == a.rows }
//@fn file=src/io/write.rs path=write_end_prev_row
//@params sheet last_r last_r_repeat row_group_count row_header xml_out
//@ret r
//@spec
    requires wfg(old(xml_out)@), old(xml_out)@.inrow, !old(xml_out)@.inc, old(xml_out)@.row == last_r, old(xml_out)@.rows.len() > 0, old(xml_out)@.rows.last().rown == last_r_repeat, sheet_ok(*sheet), last_r + last_r_repeat <= u32::MAX, last_r_repeat >= 1,
        laid(old(xml_out)@.stack, *old(row_group_count) as int, *old(row_header), true), *old(row_group_count) == open_in(sheet.group_rows@, last_r as int, last_r + last_r_repeat), *old(row_header) == hin(*sheet, last_r as int, last_r_repeat as int),
    ensures r is Ok ==> ({ let a = old(xml_out)@; let b = final(xml_out)@; let e = last_r + last_r_repeat;
        &&& wfg(b) && !b.inrow && kept(a, b) && b.row == e
        &&& *final(row_group_count) == open_at(sheet.group_rows@, e) && *final(row_header) == hin(*sheet, e, 0)
        &&& laid(b.stack, *final(row_group_count) as int, false, false) && base(b.stack, *final(row_group_count) as int, false, false) =~= base(a.stack, *old(row_group_count) as int, *old(row_header), true) }),
//@at start
    proof { names(); lemma_cnt(sheet.group_rows@, sheet.group_rows@.len() as int, last_r as int, last_r + last_r_repeat); }
//@loop 0 it=it
    invariant it.seq().len() == sheet.group_rows@.len(), forall|k: int| 0 <= k < sheet.group_rows@.len() ==> *(#[trigger] it.seq()[k]) == sheet.group_rows@[k], 
        last_r + last_r_repeat <= u32::MAX, last_r_repeat >= 1,
        wfg(xml_out@), !xml_out@.inrow, !xml_out@.inc, kept(old(xml_out)@, xml_out@), xml_out@.row == last_r + last_r_repeat,
        laid(old(xml_out)@.stack, *old(row_group_count) as int, *old(row_header), true),
        laid(xml_out@.stack, *row_group_count as int, false, false), base(xml_out@.stack, *row_group_count as int, false, false) =~= base(old(xml_out)@.stack, *old(row_group_count) as int, *old(row_header), true),
        *row_group_count == *old(row_group_count) - cnt(sheet.group_rows@, it.index@ as int, false, last_r as int, last_r + last_r_repeat),
        *old(row_group_count) >= cnt(sheet.group_rows@, sheet.group_rows@.len() as int, false, last_r as int, last_r + last_r_repeat),
        kind("table:table-row-group"@) is Other,
//@at loopstart 0
    proof { assert(sheet.group_rows@[it.index@ as int] == *row_group); lemma_cnt_mono(sheet.group_rows@, it.index@ + 1, sheet.group_rows@.len() as int, false, last_r as int, last_r + last_r_repeat);
        assert(cnt(sheet.group_rows@, it.index@ + 1, false, last_r as int, last_r + last_r_repeat) == cnt(sheet.group_rows@, it.index@ as int, false, last_r as int, last_r + last_r_repeat) + (if last_r <= row_group.to < last_r + last_r_repeat { 1int } else { 0int })); }
//@end
//@fn file=src/io/write.rs path=write_end_last_row
//@params row_group_count row_header xml_out
//@ret r
//@spec
    requires wfg(old(xml_out)@), old(xml_out)@.inrow, !old(xml_out)@.inc, old(xml_out)@.rows.len() > 0, laid(old(xml_out)@.stack, *old(row_group_count) as int, *old(row_header), true),
    ensures r is Ok ==> ({ let a = old(xml_out)@; let b = final(xml_out)@;
        &&& wfg(b) && !b.inrow && kept(a, b) && b.row == a.row + a.rows.last().rown
        &&& b.stack =~= base(a.stack, *old(row_group_count) as int, *old(row_header), true) }),
//@at start
    proof { names(); }
//@loop 0
    invariant wfg(xml_out@), !xml_out@.inrow, kept(old(xml_out)@, xml_out@), xml_out@.row == old(xml_out)@.row + old(xml_out)@.rows.last().rown,
        laid(old(xml_out)@.stack, *old(row_group_count) as int, *old(row_header), true),
        laid(xml_out@.stack, *row_group_count as int, false, false), base(xml_out@.stack, *row_group_count as int, false, false) =~= base(old(xml_out)@.stack, *old(row_group_count) as int, *old(row_header), true),
        kind("table:table-row-group"@) is Other,
    decreases *row_group_count,
//@end
//@fn file=src/io/write.rs path=write_empty_row
//@params sheet cur_row row_repeat max_cell spans xml_out
//@ret r
//@spec
    requires wfg(old(xml_out)@), !old(xml_out)@.inrow, !old(xml_out)@.inc, old(xml_out)@.row == cur_row, sheet_ok(*sheet), row_repeat >= 1, max_cell.1 >= 1,
    ensures r is Ok ==> ({ let a = old(xml_out)@; let b = final(xml_out)@;
        &&& wfg(b) && !b.inrow && same_table(a, b) && b.row == cur_row + row_repeat && b.stack == a.stack
        &&& b.rows == a.rows.push(RowEv { row: cur_row as int, rown: row_repeat as int, attrs: row_attrs(rat(sheet.row_header@, cur_row)), hdr: a.stack.len() > 0 && a.stack.last() == "table:table-header-rows"@ })
        &&& forall|i: int| a.cels.len() <= i < b.cels.len() ==> blank(#[trigger] b.cels[i]) && b.cels[i].row == cur_row && b.cels[i].rown == row_repeat && b.cels[i].coln >= 1 && 0 <= b.cels[i].col && b.cels[i].col + b.cels[i].coln <= max_cell.1 && veil(b.cels[i], spans@, cur_row as int) }),
//@at start
    proof { names(); }
//@at before 0 write_leading_cells
    proof { assert(xml_out@.rows.last().attrs =~= row_attrs(rat(sheet.row_header@, cur_row)));
        assert(xml_out@.rows =~= old(xml_out)@.rows.push(RowEv { row: cur_row as int, rown: row_repeat as int, attrs: row_attrs(rat(sheet.row_header@, cur_row)), hdr: old(xml_out)@.stack.len() > 0 && old(xml_out)@.stack.last() == "table:table-header-rows"@ })); }
//@at before 0 Ok(())
    proof { assert(xml_out@.stack =~= old(xml_out)@.stack); }
//@end
/// a row stands for rows with the same settings
spec fn row_right(e: RowEv, s: Sheet) -> bool { forall|rr: u32| e.row <= rr < e.row + e.rown ==> #[trigger] row_attrs(rat(s.row_header@, rr)) == e.attrs && hline(s, rr as int) == e.hdr }
/// a cell with nothing in it is covered where the spans say so
spec fn blank_right(c: Cel, s: Seq<CellRange>, r0: int, r1: int, width: int) -> bool { blank(c) && r0 <= c.row && c.rown >= 1 && c.row + c.rown <= r1 && 0 <= c.col && c.coln >= 1 && c.col + c.coln <= width
    && forall|rr: int| c.row <= rr < c.row + c.rown ==> #[trigger] veil(c, s, rr) }
spec fn empties(a: G, b: G, sheet: Sheet, s: Seq<CellRange>, r0: int, r1: int, width: int) -> bool {
    &&& same_table(a, b) && b.row == r1
    &&& forall|i: int| a.rows.len() <= i < b.rows.len() ==> row_right(#[trigger] b.rows[i], sheet) && r0 <= b.rows[i].row && b.rows[i].row + b.rows[i].rown <= r1
    &&& forall|i: int| a.cels.len() <= i < b.cels.len() ==> blank_right(#[trigger] b.cels[i], s, r0, r1, width)
}
proof fn lemma_same_header(m: Map<u32, RowHeader>, r: u32, n: u32)
    requires rwf(m), r < n, forall|k: u32| #[trigger] m.contains_key(k) ==> k <= r || n <= k, forall|k: u32| #[trigger] rcov(m, k, r) ==> n <= k + m[k].span,
    ensures forall|rr: u32| r <= rr < n ==> #[trigger] rat(m, rr) == rat(m, r)
{
    assert forall|rr: u32| r <= rr < n implies #[trigger] rat(m, rr) == rat(m, r) by {
        if exists|k: u32| rcov(m, k, r) { let k = choose|k: u32| rcov(m, k, r); assert(rcov(m, k, rr)); lemma_rat(m, k, r); lemma_rat(m, k, rr); }
        else if exists|k: u32| rcov(m, k, rr) { let k = choose|k: u32| rcov(m, k, rr); assert(m.contains_key(k)); assert(rcov(m, k, r)); }
    }
}
proof fn lemma_same_spans(s: Seq<CellRange>, c: Cel, r: int, n: int)
    requires r < n, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).from_row.row <= r && (s[i].to_row.row >= r ==> n <= s[i].to_row.row + 1), veil(c, s, r),
    ensures forall|rr: int| r <= rr < n ==> #[trigger] veil(c, s, rr)
{
    assert forall|rr: int, x: int| r <= rr < n implies #[trigger] hid(s, rr, x) == hid(s, r, x) by {
        if hid(s, rr, x) { let i = choose|i: int| 0 <= i < s.len() && in_area(#[trigger] s[i], rr, x); assert(in_area(s[i], r, x)); }
        if hid(s, r, x) { let i = choose|i: int| 0 <= i < s.len() && in_area(#[trigger] s[i], r, x); assert(in_area(s[i], rr, x)); }
    }
    assert forall|rr: int| r <= rr < n implies #[trigger] veil(c, s, rr) by { assert forall|x: int| c.col <= x < c.col + c.coln implies #[trigger] hid(s, rr, x) == c.covered by { assert(hid(s, r, x) == c.covered); } }
}
proof fn lemma_empties(a: G, b: G, c: G, sheet: Sheet, s: Seq<CellRange>, r0: int, r: u32, n: u32, w: int)
    requires empties(a, b, sheet, s, r0, r as int, w), r0 <= r < n, same_table(b, c), c.row == n, w >= 1,
        forall|rr: u32| r <= rr < n ==> #[trigger] rat(sheet.row_header@, rr) == rat(sheet.row_header@, r),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).from_row.row <= r && (s[i].to_row.row >= r ==> n <= s[i].to_row.row + 1),
        c.rows.len() == b.rows.len() + 1, c.rows.last().row == r && c.rows.last().rown == n - r && c.rows.last().attrs == row_attrs(rat(sheet.row_header@, r)),
        forall|rr: u32| r <= rr < n ==> #[trigger] hline(sheet, rr as int) == c.rows.last().hdr,
        forall|i: int| b.cels.len() <= i < c.cels.len() ==> blank(#[trigger] c.cels[i]) && c.cels[i].row == r && c.cels[i].rown == n - r && c.cels[i].coln >= 1 && 0 <= c.cels[i].col && c.cels[i].col + c.cels[i].coln <= w && veil(c.cels[i], s, r as int),
    ensures empties(a, c, sheet, s, r0, n as int, w)
{
    assert forall|i: int| a.rows.len() <= i < c.rows.len() implies row_right(#[trigger] c.rows[i], sheet) && r0 <= c.rows[i].row && c.rows[i].row + c.rows[i].rown <= n by {
        if i < b.rows.len() { assert(c.rows[i] == b.rows[i]); } else { assert(c.rows[i] == c.rows.last()); assert forall|rr: u32| r <= rr < n implies #[trigger] row_attrs(rat(sheet.row_header@, rr)) == c.rows[i].attrs && hline(sheet, rr as int) == c.rows[i].hdr by { assert(rat(sheet.row_header@, rr) == rat(sheet.row_header@, r)); } }
    }
    assert forall|i: int| a.cels.len() <= i < c.cels.len() implies blank_right(#[trigger] c.cels[i], s, r0, n as int, w) by {
        if i < b.cels.len() { assert(c.cels[i] == b.cels[i]); } else { lemma_same_spans(s, c.cels[i], r as int, n as int); }
    }
}
spec fn begun(s: Seq<CellRange>, row: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).from_row.row <= row }
//@fn file=src/io/write.rs path=write_empty_rows_before
//@params sheet last_row last_row_repeat max_cell spans row_group_count row_header xml_out
//@ret r
//@subst sheet.row_header.range(..=$k).last() ==> vp_floor(&sheet.row_header, $k)
//@subst sheet.row_header.range(..=$k).next_back() ==> vp_floor(&sheet.row_header, $k)
//@subst sheet.row_header.range($k..).next() ==> vp_ceil(&sheet.row_header, $k)
//@subst for span in spans { ==> for span in spans.iter() {
//@spec
    requires wfg(old(xml_out)@), !old(xml_out)@.inrow, !old(xml_out)@.inc, old(xml_out)@.row == last_row, sheet_ok(*sheet), last_row + last_row_repeat <= u32::MAX, max_cell.1 >= 1, all_wf(spans@), begun(spans@, last_row as int),
        laid(old(xml_out)@.stack, *old(row_group_count) as int, false, false), *old(row_group_count) == open_at(sheet.group_rows@, last_row as int), *old(row_header) == hin(*sheet, last_row as int, 0),
    ensures r is Ok ==> ({ let a = old(xml_out)@; let b = final(xml_out)@; let e = last_row + last_row_repeat;
        &&& wfg(b) && !b.inrow && empties(a, b, *sheet, spans@, last_row as int, e, max_cell.1 as int)
        &&& *final(row_group_count) == open_at(sheet.group_rows@, e) && *final(row_header) == hin(*sheet, e, 0)
        &&& laid(b.stack, *final(row_group_count) as int, false, false) && base(b.stack, *final(row_group_count) as int, false, false) =~= base(a.stack, *old(row_group_count) as int, false, false) }),
//@at start
    proof { names(); }
//@loop 0 it=rt
    invariant rt.seq().len() == last_row_repeat, forall|k: int| 0 <= k < last_row_repeat ==> #[trigger] rt.seq()[k] == last_row + k,
        wfg(xml_out@), !xml_out@.inrow, sheet_ok(*sheet), last_row + last_row_repeat <= u32::MAX, max_cell.1 >= 1, all_wf(spans@), begun(spans@, last_row as int),
        laid(old(xml_out)@.stack, *old(row_group_count) as int, false, false),
        empties(old(xml_out)@, xml_out@, *sheet, spans@, last_row as int, last_row + rt.index@, max_cell.1 as int),
        *row_group_count == open_at(sheet.group_rows@, last_row + rt.index@), *row_header == hin(*sheet, last_row + rt.index@, 0),
        laid(xml_out@.stack, *row_group_count as int, false, false), base(xml_out@.stack, *row_group_count as int, false, false) =~= base(old(xml_out)@.stack, *old(row_group_count) as int, false, false),
//@at loopstart 0
    proof { names(); assert(r == last_row + rt.index@); lemma_cnt(sheet.group_rows@, sheet.group_rows@.len() as int, r as int, r + 1); }
    let ghost (g0, n0) = (xml_out@, *row_group_count);
//@at beforeloop 1
    proof { assert(cnt(derefs(vp_groups@), vp_groups@.len() as int, true, r as int, r + 1) == cnt(sheet.group_rows@, sheet.group_rows@.len() as int, true, r as int, r + 1)); }
//@loop 1 it=it
    invariant it.seq().len() == vp_groups@.len(), forall|k: int| 0 <= k < vp_groups@.len() ==> *(#[trigger] it.seq()[k]) == vp_groups@[k], vp_groups@.len() == sheet.group_rows@.len(), vp_groups@.len() < u32::MAX,
        wfg(xml_out@), !xml_out@.inrow, kept(g0, xml_out@), xml_out@.row == g0.row,
        laid(g0.stack, n0 as int, false, false),
        laid(xml_out@.stack, *row_group_count as int, false, false), base(xml_out@.stack, *row_group_count as int, false, false) =~= base(g0.stack, n0 as int, false, false),
        *row_group_count == n0 + cnt(derefs(vp_groups@), it.index@ as int, true, r as int, r + 1),
        n0 + cnt(derefs(vp_groups@), vp_groups@.len() as int, true, r as int, r + 1) <= vp_groups@.len(),
        kind("table:table-row-group"@) is Other,
//@at loopstart 1
    proof { assert(derefs(vp_groups@)[it.index@ as int] == *row_group); lemma_cnt_mono(derefs(vp_groups@), it.index@ + 1, vp_groups@.len() as int, true, r as int, r + 1);
        assert(cnt(derefs(vp_groups@), it.index@ + 1, true, r as int, r + 1) == cnt(derefs(vp_groups@), it.index@ as int, true, r as int, r + 1) + (if r == row_group.from { 1int } else { 0int })); }
//@at beforeloop 2
    let ghost (g1, n1) = (xml_out@, *row_group_count);
    proof { lemma_empties(old(xml_out)@, g0, xml_out@, *sheet, spans@, last_row as int, r, (r + 1) as u32, max_cell.1 as int); }
//@loop 2 it=it
    invariant it.seq().len() == sheet.group_rows@.len(), forall|k: int| 0 <= k < sheet.group_rows@.len() ==> *(#[trigger] it.seq()[k]) == sheet.group_rows@[k],
        wfg(xml_out@), !xml_out@.inrow, kept(g1, xml_out@), xml_out@.row == g1.row,
        laid(g1.stack, n1 as int, false, false),
        laid(xml_out@.stack, *row_group_count as int, false, false), base(xml_out@.stack, *row_group_count as int, false, false) =~= base(g1.stack, n1 as int, false, false),
        *row_group_count == n1 - cnt(sheet.group_rows@, it.index@ as int, false, r as int, r + 1),
        n1 >= cnt(sheet.group_rows@, sheet.group_rows@.len() as int, false, r as int, r + 1),
        kind("table:table-row-group"@) is Other,
//@at loopstart 2
    proof { assert(sheet.group_rows@[it.index@ as int] == *row_group); lemma_cnt_mono(sheet.group_rows@, it.index@ + 1, sheet.group_rows@.len() as int, false, r as int, r + 1);
        assert(cnt(sheet.group_rows@, it.index@ + 1, false, r as int, r + 1) == cnt(sheet.group_rows@, it.index@ as int, false, r as int, r + 1) + (if r == row_group.to { 1int } else { 0int })); }
//@loop 3
    invariant last_row <= r <= end_row, end_row == last_row + last_row_repeat, sheet.header_rows is None, sheet.group_rows@.len() == 0,
        wfg(xml_out@), !xml_out@.inrow, sheet_ok(*sheet), last_row + last_row_repeat <= u32::MAX, max_cell.1 >= 1, all_wf(spans@), begun(spans@, last_row as int),
        empties(old(xml_out)@, xml_out@, *sheet, spans@, last_row as int, r as int, max_cell.1 as int), xml_out@.stack == old(xml_out)@.stack,
        laid(xml_out@.stack, 0, false, false),
    decreases end_row - r,
//@at loopstart 3
    proof { names(); }
    let ghost g0 = xml_out@;
//@at beforeloop 4
    proof { assert forall|k: u32| #[trigger] sheet.row_header@.contains_key(k) implies k <= r || next_r <= k by {}
        assert forall|k: u32| #[trigger] rcov(sheet.row_header@, k, r) implies next_r <= k + sheet.row_header@[k].span by { assert(sheet.row_header@.contains_key(k)); }
        lemma_same_header(sheet.row_header@, r, next_r); }
    let ghost next0 = next_r;
//@loop 4 it=it
    invariant it.seq().len() == spans@.len(), forall|k: int| 0 <= k < spans@.len() ==> *(#[trigger] it.seq()[k]) == spans@[k], all_wf(spans@), begun(spans@, r as int),
        r < next_r <= next0, forall|k: int| 0 <= k < it.index@ ==> (#[trigger] spans@[k]).to_row.row >= r ==> next_r <= spans@[k].to_row.row + 1,
//@at loopstart 4
    proof { assert(spans@[it.index@ as int] == *span); }
//@at loopend 3
    proof { lemma_empties(old(xml_out)@, g0, xml_out@, *sheet, spans@, last_row as int, g0.row as u32, next_r, max_cell.1 as int); }
//@end
// ------------------------------------------------------------------ columns
spec fn col_attrs(h: Option<ColHeader>) -> Am {
    match h {
        None => Map::empty(),
        Some(h) => put(put(put(Map::empty(), "table:style-name"@, match h.style { Some(s) => Some(s.id@), None => None }),
            "table:default-cell-style-name"@, match h.cellstyle { Some(s) => Some(s.id@), None => None }),
            "table:visibility"@, if h.visible == Visibility::Visible { None } else { Some(vis_text(h.visible)) }),
    }
}
spec fn hcol(s: Sheet, c: int) -> bool { s.header_cols matches Some(h) && h.from <= c <= h.to }
spec fn col_right(e: ColEv, s: Sheet) -> bool { forall|cc: u32| e.col <= cc < e.col + e.coln ==> #[trigger] col_attrs(cat(s.col_header@, cc)) == e.attrs && hcol(s, cc as int) == e.hdr }
spec fn uncut(m: Map<u32, ColHeader>, p: int) -> bool { forall|k: u32| #[trigger] m.contains_key(k) ==> !(k < p < k + m[k].span) }
/// no column header reaches across the border of a group or of the header columns (the writer splits them before)
spec fn cols_ok(s: Sheet) -> bool {
    &&& cwf(s.col_header@) && s.group_cols@.len() < u32::MAX
    &&& forall|i: int| 0 <= i < s.group_cols@.len() ==> (#[trigger] s.group_cols@[i]).from <= s.group_cols@[i].to && s.group_cols@[i].to < u32::MAX && uncut(s.col_header@, s.group_cols@[i].from as int) && uncut(s.col_header@, s.group_cols@[i].to + 1)
    &&& s.header_cols matches Some(h) ==> h.from <= h.to && h.to < u32::MAX && uncut(s.col_header@, h.from as int) && uncut(s.col_header@, h.to + 1)
}
spec fn claid(st: Seq<Nm>, n: int) -> bool {
    let m = st.len() - n;
    n >= 0 && m >= 1 && st[m - 1] == "table:table"@ && forall|i: int| m <= i < m + n ==> #[trigger] st[i] == "table:table-column-group"@
}
spec fn cbase(st: Seq<Nm>, n: int) -> Seq<Nm> { st.subrange(0, st.len() - n) }
proof fn lemma_all_closed(s: Seq<Grouped>, n: int, b: int) requires 0 <= n <= s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).from <= s[i].to && s[i].to < b
    ensures cnt(s, n, true, 0, b) == n, cnt(s, n, false, 0, b) == n decreases n { if n > 0 { lemma_all_closed(s, n - 1, b); assert(s[n - 1].to < b); } }
/// groups start where columns start: those within the block start with it
proof fn lemma_starts(s: Seq<Grouped>, n: int, a: int, b: int) requires 0 <= n <= s.len(), a < b, forall|i: int| 0 <= i < s.len() ==> !(a < (#[trigger] s[i]).from < b) ensures cnt(s, n, true, a, b) == cnt(s, n, true, a, a + 1) decreases n
{ if n > 0 { lemma_starts(s, n - 1, a, b); assert(!(a < s[n - 1].from < b)); } }
spec fn cwritten(a: G, b: G) -> bool { b.inrow == a.inrow && !b.inc && b.row == a.row && b.col == a.col && b.rows == a.rows && b.cels == a.cels && b.tattrs == a.tattrs }
spec fn cgrp(a: G, b: G) -> bool { cwritten(a, b) && b.tcol == a.tcol && b.cols == a.cols }
//@fn file=src/io/write.rs path=write_table_columns
//@params sheet max_cell xml_out
//@ret r
//@subst for grp in &sheet.group_cols { ==> for grp in sheet.group_cols.iter() {
//@subst for col_group in &sheet.group_cols { ==> for col_group in sheet.group_cols.iter() {
//@subst for grp in outer_groups_first($e) { $body } ==> let vp_groups = outer_groups_first($e); for grp in vp_groups.iter() { let grp: &Grouped = *grp; $body }
//@spec
    requires wfg(old(xml_out)@), !old(xml_out)@.inrow, !old(xml_out)@.inc, old(xml_out)@.tcol == 0, old(xml_out)@.cols.len() == 0, cols_ok(*sheet), claid(old(xml_out)@.stack, 0),
    ensures r is Ok ==> ({ let a = old(xml_out)@; let b = final(xml_out)@;
        &&& wfg(b) && cwritten(a, b) && b.stack =~= a.stack && b.tcol >= max_cell.1
        &&& forall|i: int| 0 <= i < b.cols.len() ==> col_right(#[trigger] b.cols[i], *sheet) }),
//@loop 0 it=it
    invariant it.seq().len() == sheet.group_cols@.len(), forall|k: int| 0 <= k < sheet.group_cols@.len() ==> *(#[trigger] it.seq()[k]) == sheet.group_cols@[k], cols_ok(*sheet),
        max_col >= max_cell.1, forall|k: int| 0 <= k < it.index@ ==> (#[trigger] sheet.group_cols@[k]).to < max_col,
//@at loopstart 0
    proof { assert(sheet.group_cols@[it.index@ as int] == *grp); }
//@at beforeloop 1
    let ghost mut open: int = 0;
    proof { lemma_cnt(sheet.group_cols@, sheet.group_cols@.len() as int, 0, 0); }
//@loop 1
    invariant_except_break true,
    invariant max_col >= max_cell.1, forall|k: int| 0 <= k < sheet.group_cols@.len() ==> (#[trigger] sheet.group_cols@[k]).to < max_col, cols_ok(*sheet),
        wfg(xml_out@), !xml_out@.inrow, cwritten(old(xml_out)@, xml_out@), xml_out@.tcol == c, uncut(sheet.col_header@, c as int),
        open == open_at(sheet.group_cols@, c as int), claid(xml_out@.stack, open), cbase(xml_out@.stack, open) =~= old(xml_out)@.stack,
        forall|i: int| 0 <= i < xml_out@.cols.len() ==> col_right(#[trigger] xml_out@.cols[i], *sheet),
    ensures c >= max_col,
    decreases if c < max_col { max_col - c } else { 0 },
//@at loopstart 1
    let ghost (g0, n0) = (xml_out@, open);
    proof { names(); }
//@at beforeloop 2
    let ghost (ga, na) = (xml_out@, open);
    proof { assert(cnt(derefs(vp_groups@), vp_groups@.len() as int, true, c as int, c + 1) == cnt(sheet.group_cols@, sheet.group_cols@.len() as int, true, c as int, c + 1)); }
//@loop 2 it=it
    invariant it.seq().len() == vp_groups@.len(), forall|k: int| 0 <= k < vp_groups@.len() ==> *(#[trigger] it.seq()[k]) == vp_groups@[k],
        wfg(xml_out@), !xml_out@.inrow, cgrp(ga, xml_out@), claid(ga.stack, na),
        open == na + cnt(derefs(vp_groups@), it.index@ as int, true, c as int, c + 1),
        claid(xml_out@.stack, open), cbase(xml_out@.stack, open) =~= cbase(ga.stack, na),
        kind("table:table-column-group"@) is Other,
//@at loopstart 2
    proof { assert(derefs(vp_groups@)[it.index@ as int] == *grp);
        assert(cnt(derefs(vp_groups@), it.index@ + 1, true, c as int, c + 1) == cnt(derefs(vp_groups@), it.index@ as int, true, c as int, c + 1) + (if c == grp.from { 1int } else { 0int }));
        if c == grp.from { open = open + 1; } }
//@at afterloop 2
    let ghost g1 = xml_out@;
//@at beforeloop 3
    let ghost (gb, nb) = (xml_out@, open);
    proof {
        let gs = sheet.group_cols@;
        assert(gb.cols.len() == g0.cols.len() + 1);
        assert(gb.cols.last().attrs =~= col_attrs(if sheet.col_header@.contains_key(c) { Some(cone(sheet.col_header@[c])) } else { None }));
        assert forall|cc: u32| c <= cc < c + span implies #[trigger] col_attrs(cat(sheet.col_header@, cc)) == gb.cols.last().attrs && hcol(*sheet, cc as int) == gb.cols.last().hdr by {
            if sheet.col_header@.contains_key(c) { assert(ccov(sheet.col_header@, c, cc)); lemma_cat(sheet.col_header@, c, cc); }
            else { assert(forall|k: u32| !#[trigger] ccov(sheet.col_header@, k, cc)) by { assert forall|k: u32| !#[trigger] ccov(sheet.col_header@, k, cc) by { if ccov(sheet.col_header@, k, cc) { assert(sheet.col_header@.contains_key(k)); } } } }
        }
        assert(col_right(gb.cols.last(), *sheet));
        assert forall|i: int| 0 <= i < gb.cols.len() implies col_right(#[trigger] gb.cols[i], *sheet) by { if i < g0.cols.len() { assert(gb.cols[i] == g0.cols[i]); } }
        assert forall|i: int| 0 <= i < gs.len() implies !(c < (#[trigger] gs[i]).from < c + span) by { if sheet.col_header@.contains_key(c) {} }
        lemma_starts(gs, gs.len() as int, c as int, c + span);
        lemma_cnt(gs, gs.len() as int, c as int, c + span);
        assert(uncut(sheet.col_header@, c + span)) by { assert forall|k: u32| #[trigger] sheet.col_header@.contains_key(k) implies !(k < c + span < k + sheet.col_header@[k].span) by { if sheet.col_header@.contains_key(c) {} } }
    }
//@loop 3 it=it
    invariant it.seq().len() == sheet.group_cols@.len(), forall|k: int| 0 <= k < sheet.group_cols@.len() ==> *(#[trigger] it.seq()[k]) == sheet.group_cols@[k],
        wfg(xml_out@), !xml_out@.inrow, cgrp(gb, xml_out@), claid(gb.stack, nb), c + span <= u32::MAX,
        open == nb - cnt(sheet.group_cols@, it.index@ as int, false, c as int, c + span), nb >= cnt(sheet.group_cols@, sheet.group_cols@.len() as int, false, c as int, c + span),
        claid(xml_out@.stack, open), cbase(xml_out@.stack, open) =~= cbase(gb.stack, nb),
        kind("table:table-column-group"@) is Other,
//@at loopstart 3
    proof { assert(sheet.group_cols@[it.index@ as int] == *col_group); lemma_cnt_mono(sheet.group_cols@, it.index@ + 1, sheet.group_cols@.len() as int, false, c as int, c + span);
        assert(cnt(sheet.group_cols@, it.index@ + 1, false, c as int, c + span) == cnt(sheet.group_cols@, it.index@ as int, false, c as int, c + span) + (if c <= col_group.to < c + span { 1int } else { 0int }));
        if c <= col_group.to < c + span { open = open - 1; } }
//@at afterloop 1
    proof { lemma_all_closed(sheet.group_cols@, sheet.group_cols@.len() as int, c as int); assert(open == 0); }
//@end
// ------------------------------------------------------------------ one cell
proof fn cell_names()
    ensures kind("text:p"@) is Other, kind("table:table-cell"@) is Cell, kind("table:covered-table-cell"@) is Covered,
        ck("table:number-columns-repeated"@) == 1, ck("table:style-name"@) == 3, ck("table:formula"@) == 2, ck("table:content-validation-name"@) == 4, ck("table:number-rows-spanned"@) == 5, ck("table:number-columns-spanned"@) == 6,
        ck("table:number-matrix-rows-spanned"@) == 7, ck("table:number-matrix-columns-spanned"@) == 8, ck("office:value-type"@) == 9, ck("office:value"@) == 10, ck("office:date-value"@) == 11, ck("office:time-value"@) == 12, ck("office:boolean-value"@) == 13, ck("office:currency"@) == 14,
{
    names(); reveal(ck);
    reveal_strlit("text:p"); reveal_strlit("table:table-row"); reveal_strlit("table:table-cell"); reveal_strlit("table:covered-table-cell"); reveal_strlit("table:table-column"); reveal_strlit("table:table");
    reveal_strlit("table:number-columns-repeated"); reveal_strlit("table:style-name"); reveal_strlit("table:formula"); reveal_strlit("table:content-validation-name"); reveal_strlit("table:number-rows-spanned"); reveal_strlit("table:number-columns-spanned");
    reveal_strlit("table:number-matrix-rows-spanned"); reveal_strlit("table:number-matrix-columns-spanned"); reveal_strlit("office:value-type"); reveal_strlit("office:value"); reveal_strlit("office:date-value"); reveal_strlit("office:time-value"); reveal_strlit("office:boolean-value"); reveal_strlit("office:currency");
    assert("text:p"@.len() == 6 && "table:table-row"@.len() == 15 && "table:table-cell"@.len() == 16 && "table:covered-table-cell"@.len() == 24 && "table:table-column"@.len() == 18 && "table:table"@.len() == 11);
    assert("table:number-columns-repeated"@.len() == 29 && "table:style-name"@.len() == 16 && "table:formula"@.len() == 13 && "table:content-validation-name"@.len() == 29 && "table:number-rows-spanned"@.len() == 25 && "table:number-columns-spanned"@.len() == 28
        && "table:number-matrix-rows-spanned"@.len() == 32 && "table:number-matrix-columns-spanned"@.len() == 35 && "office:value-type"@.len() == 17 && "office:value"@.len() == 12 && "office:date-value"@.len() == 17 && "office:time-value"@.len() == 17 && "office:boolean-value"@.len() == 20 && "office:currency"@.len() == 15);
    assert("table:number-columns-repeated"@[6] == 'n' && "table:content-validation-name"@[6] == 'c' && "office:value-type"@[7] == 'v' && "office:date-value"@[7] == 'd' && "office:time-value"@[7] == 't');
}
#[verifier::opaque]
spec fn ck(n: Nm) -> int {
    if n == "table:number-columns-repeated"@ { 1 } else if n == "table:style-name"@ { 3 } else if n == "table:formula"@ { 2 } else if n == "table:content-validation-name"@ { 4 } else if n == "table:number-rows-spanned"@ { 5 } else if n == "table:number-columns-spanned"@ { 6 }
    else if n == "table:number-matrix-rows-spanned"@ { 7 } else if n == "table:number-matrix-columns-spanned"@ { 8 } else if n == "office:value-type"@ { 9 } else if n == "office:value"@ { 10 } else if n == "office:date-value"@ { 11 } else if n == "office:time-value"@ { 12 }
    else if n == "office:boolean-value"@ { 13 } else if n == "office:currency"@ { 14 } else { 0 }
}
/// the pieces between the line breaks
spec fn split_nl(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![s] } else { let r = split_nl(s.drop_last()); if s.last() == '\n' { r.push(Seq::empty()) } else { r.drop_last().push(r.last().push(s.last())) } }
}
spec fn join_nl(v: Seq<Seq<char>>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { join_nl(v.drop_last()) + seq!['\n'] + v.last() } }
/// THEOREM: the lines make up the text again
proof fn thm_lines(s: Seq<char>) ensures join_nl(split_nl(s)) =~= s, split_nl(s).len() > 0 decreases s.len() {
    if s.len() > 0 {
        thm_lines(s.drop_last());
        let r = split_nl(s.drop_last());
        if s.last() == '\n' { assert(r.push(Seq::empty()).drop_last() =~= r); assert(s =~= s.drop_last().push('\n')); }
        else { assert(r.drop_last().push(r.last().push(s.last())).drop_last() =~= r.drop_last()); assert(s =~= s.drop_last().push(s.last())); if r.len() == 1 { } else { assert(r.drop_last().len() > 0); } }
    }
}
// trusted: str::split by a character
#[verifier::external_body]
fn vp_split_nl(s: &str) -> (r: Vec<&str>) ensures r@.len() == split_nl(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_nl(s@)[i] { s.split('\n').collect() }
uninterp spec fn dt_text(d: NaiveDateTime) -> Seq<char>;
uninterp spec fn dur_text(d: Duration) -> Seq<char>;
// what these texts are is proved in unit C09_text
#[verifier::external_body] fn format_datetime(d: NaiveDateTime) -> (r: String) ensures r@ == dt_text(d) { unimplemented!() }
#[verifier::external_body] fn format_duration2(d: Duration) -> (r: String) ensures r@ == dur_text(d) { unimplemented!() }
// trusted: one element with its content is put out
#[verifier::external_body] fn write_xmltag(x: &XmlTag, xml_out: &mut OdsXmlWriter<'_>) -> (r: Res) requires wfg(old(xml_out)@) ensures r is Ok ==> final(xml_out)@ == g_tok(old(xml_out)@, Tok::Tree(*x)) && wfg(final(xml_out)@) { unimplemented!() }
#[verifier::external_body] fn write_annotation(x: &Annotation, xml_out: &mut OdsXmlWriter<'_>) -> (r: Res) requires wfg(old(xml_out)@) ensures r is Ok ==> final(xml_out)@ == g_tok(old(xml_out)@, Tok::Note(*x)) && wfg(final(xml_out)@) { unimplemented!() }
#[verifier::external_body] fn write_draw_frame(x: &DrawFrame, xml_out: &mut OdsXmlWriter<'_>) -> (r: Res) requires wfg(old(xml_out)@) ensures r is Ok ==> final(xml_out)@ == g_tok(old(xml_out)@, Tok::Frame(*x)) && wfg(final(xml_out)@) { unimplemented!() }
uninterp spec fn defstyle(b: WorkBook, t: ValueType) -> Option<Seq<char>>;
impl WorkBook { #[verifier::external_body] fn def_style(&self, t: ValueType) -> (r: Option<&CellStyleRef>) ensures match r { Some(s) => defstyle(*self, t) == Some(s.id@), None => defstyle(*self, t) is None } { unimplemented!() } }
spec fn vt(v: Value) -> ValueType { match v { Value::Empty => ValueType::Empty, Value::Boolean(_) => ValueType::Boolean, Value::Number(_) => ValueType::Number, Value::Percentage(_) => ValueType::Percentage, Value::Currency(_, _) => ValueType::Currency, Value::Text(_) => ValueType::Text, Value::TextXml(_) => ValueType::TextXml, Value::DateTime(_) => ValueType::DateTime, Value::TimeDuration(_) => ValueType::TimeDuration } }
impl Value {
    // proved in unit C13_value
    #[verifier::external_body] fn value_type(&self) -> (r: ValueType) ensures r == vt(*self) { unimplemented!() }
    fn vp_ne_empty(&self) -> (r: bool) ensures r == !(*self is Empty) { match self { Value::Empty => false, _ => true } }
}
spec fn par(v: Seq<char>) -> Seq<Tok> { Seq::empty().push(Tok::Open("text:p"@)).push(Tok::Text(v)).push(Tok::End("text:p"@)) }
spec fn pars(v: Seq<Seq<char>>, n: int) -> Seq<Tok> decreases n { if n <= 0 { Seq::empty() } else { pars(v, n - 1) + par(v[n - 1]) } }
spec fn trees(v: Seq<XmlTag>, n: int) -> Seq<Tok> decreases n { if n <= 0 { Seq::empty() } else { trees(v, n - 1).push(Tok::Tree(v[n - 1])) } }
spec fn frames(v: Seq<DrawFrame>, n: int) -> Seq<Tok> decreases n { if n <= 0 { Seq::empty() } else { frames(v, n - 1).push(Tok::Frame(v[n - 1])) } }
spec fn btext(b: bool) -> Seq<char> { if b { "true"@ } else { "false"@ } }
spec fn val_attrs(m: Am, v: Value) -> Am {
    match v {
        Value::Empty => m,
        Value::Text(_) | Value::TextXml(_) => m.insert("office:value-type"@, "string"@),
        Value::DateTime(d) => m.insert("office:value-type"@, "date"@).insert("office:date-value"@, dt_text(d)),
        Value::TimeDuration(d) => m.insert("office:value-type"@, "time"@).insert("office:time-value"@, dur_text(d)),
        Value::Boolean(b) => m.insert("office:value-type"@, "boolean"@).insert("office:boolean-value"@, btext(b)),
        Value::Currency(x, c) => m.insert("office:value-type"@, "currency"@).insert("office:currency"@, c@).insert("office:value"@, ftext(x)),
        Value::Number(x) => m.insert("office:value-type"@, "float"@).insert("office:value"@, ftext(x)),
        Value::Percentage(x) => m.insert("office:value-type"@, "percentage"@).insert("office:value"@, ftext(x)),
    }
}
spec fn val_body(v: Value) -> Seq<Tok> {
    match v {
        Value::Empty => Seq::empty(),
        Value::Text(s) => pars(split_nl(s@), split_nl(s@).len() as int),
        Value::TextXml(t) => trees(t@, t@.len() as int),
        Value::DateTime(d) => par(dt_text(d)),
        Value::TimeDuration(d) => par(dur_text(d)),
        Value::Boolean(b) => par(btext(b)),
        Value::Currency(x, c) => Seq::empty().push(Tok::Open("text:p"@)).push(Tok::Text(c@)).push(Tok::Text(" "@)).push(Tok::Text(ftext(x))).push(Tok::End("text:p"@)),
        Value::Number(x) | Value::Percentage(x) => par(ftext(x)),
    }
}
spec fn many(n: u32) -> Option<Seq<char>> { if n > 1 { Some(dec(n as int)) } else { None } }
/// the attributes of a cell
spec fn cel_attrs(b: WorkBook, d: CellData) -> Am { val_attrs(m_m(b, d), d.value) }
spec fn note_body(d: CellData) -> Seq<Tok> { match d.extra { None => val_body(d.value), Some(x) => match x.annotation { Some(a) => val_body(d.value).push(Tok::Note(*a)), None => val_body(d.value) } } }
/// the content of a cell
spec fn cel_body(d: CellData) -> Seq<Tok> { match d.extra { None => note_body(d), Some(x) => note_body(d) + frames(x.draw_frames@, x.draw_frames@.len() as int) } }
impl CellData {
//@fn file=src/cell_.rs path=CellData::has_annotation
//@ret r
//@spec
    ensures r == (self.extra matches Some(x) && x.annotation is Some),
//@end
//@fn file=src/cell_.rs path=CellData::has_draw_frames
//@ret r
//@spec
    ensures r == (self.extra matches Some(x) && x.draw_frames@.len() > 0),
//@end
}
spec fn subs(d: CellData) -> bool { !(d.value is Empty) || (d.extra matches Some(x) && (x.annotation is Some || x.draw_frames@.len() > 0)) }
/// the writer while a cell is being written
#[verifier::opaque]
spec fn cst(a: G, tag: Nm, sub: bool, rep: int, attrs: Am, body: Seq<Tok>, extra: Seq<Nm>, cur: K) -> G {
    G { stack: if sub { a.stack.push(tag) + extra } else { a.stack }, cur: cur, inc: sub, col: a.col + rep,
        cels: a.cels.push(Cel { row: a.row, rown: a.rows.last().rown, col: a.col, coln: rep, covered: kind(tag) is Covered, attrs: attrs, body: body }), ..a }
}
spec fn ctag(t: Nm) -> bool { kind(t) is Cell || kind(t) is Covered }
broadcast proof fn bc_attr(a: G, tag: Nm, sub: bool, rep: int, m: Am, b: Seq<Tok>, e: Seq<Nm>, n: Nm, v: Seq<char>, num: int)
    requires ctag(tag), n != colsrep(),
    ensures #[trigger] g_attr(cst(a, tag, sub, rep, m, b, e, kind(tag)), n, v, num) == cst(a, tag, sub, rep, m.insert(n, v), b, e, kind(tag))
{ reveal(cst); let x = g_attr(cst(a, tag, sub, rep, m, b, e, kind(tag)), n, v, num); assert(x.cels =~= cst(a, tag, sub, rep, m.insert(n, v), b, e, kind(tag)).cels); }
broadcast proof fn bc_rep(a: G, tag: Nm, sub: bool, rep: int, m: Am, b: Seq<Tok>, e: Seq<Nm>, v: Seq<char>, num: int)
    requires ctag(tag),
    ensures #[trigger] g_attr(cst(a, tag, sub, rep, m, b, e, kind(tag)), colsrep(), v, num) == cst(a, tag, sub, num, m, b, e, kind(tag))
{ reveal(cst); let x = g_attr(cst(a, tag, sub, rep, m, b, e, kind(tag)), colsrep(), v, num); assert(x.cels =~= cst(a, tag, sub, num, m, b, e, kind(tag)).cels); }
broadcast proof fn bc_attr_ok(a: G, tag: Nm, sub: bool, rep: int, m: Am, b: Seq<Tok>, e: Seq<Nm>, n: Nm, num: int)
    requires ctag(tag),
    ensures #[trigger] attr_ok(cst(a, tag, sub, rep, m, b, e, kind(tag)), n, num) == (!m.contains_key(n) && (n == colsrep() ==> num >= 1))
{ reveal(cst); }
broadcast proof fn bc_text(a: G, tag: Nm, rep: int, m: Am, b: Seq<Tok>, e: Seq<Nm>, c: K, v: Seq<char>)
    ensures #[trigger] g_text(cst(a, tag, true, rep, m, b, e, c), v) == cst(a, tag, true, rep, m, b.push(Tok::Text(v)), e, K::Closed)
{ reveal(cst); assert(g_text(cst(a, tag, true, rep, m, b, e, c), v).cels =~= cst(a, tag, true, rep, m, b.push(Tok::Text(v)), e, K::Closed).cels); }
broadcast proof fn bc_tok(a: G, tag: Nm, rep: int, m: Am, b: Seq<Tok>, e: Seq<Nm>, c: K, v: Tok)
    ensures #[trigger] g_tok(cst(a, tag, true, rep, m, b, e, c), v) == cst(a, tag, true, rep, m, b.push(v), e, K::Closed)
{ reveal(cst); assert(g_tok(cst(a, tag, true, rep, m, b, e, c), v).cels =~= cst(a, tag, true, rep, m, b.push(v), e, K::Closed).cels); }
broadcast proof fn bc_elem(a: G, tag: Nm, rep: int, m: Am, b: Seq<Tok>, e: Seq<Nm>, c: K, n: Nm)
    ensures #[trigger] g_elem(cst(a, tag, true, rep, m, b, e, c), n) == cst(a, tag, true, rep, m, b.push(Tok::Open(n)), e.push(n), K::In)
{ reveal(cst); let x = g_elem(cst(a, tag, true, rep, m, b, e, c), n); let y = cst(a, tag, true, rep, m, b.push(Tok::Open(n)), e.push(n), K::In); assert(x.cels =~= y.cels); assert(x.stack =~= y.stack); }
broadcast proof fn bc_open_ok(a: G, tag: Nm, rep: int, m: Am, b: Seq<Tok>, e: Seq<Nm>, c: K, n: Nm)
    requires kind(n) is Other ensures #[trigger] open_ok(cst(a, tag, true, rep, m, b, e, c), n)
{ reveal(cst); }
broadcast proof fn bc_end_in(a: G, tag: Nm, rep: int, m: Am, b: Seq<Tok>, e: Seq<Nm>, c: K, n: Nm)
    requires kind(n) is Other, ensures #[trigger] g_end(cst(a, tag, true, rep, m, b, e.push(n), c), n) == cst(a, tag, true, rep, m, b.push(Tok::End(n)), e, K::Closed), end_ok(cst(a, tag, true, rep, m, b, e.push(n), c), n)
{ reveal(cst); let x = g_end(cst(a, tag, true, rep, m, b, e.push(n), c), n); let y = cst(a, tag, true, rep, m, b.push(Tok::End(n)), e, K::Closed); assert(x.cels =~= y.cels); assert(e.push(n).drop_last() =~= e); assert(x.stack =~= y.stack); }
broadcast proof fn bc_end_ok(a: G, tag: Nm, rep: int, m: Am, b: Seq<Tok>, e: Seq<Nm>, c: K, n: Nm)
    requires kind(n) is Other, ensures #[trigger] end_ok(cst(a, tag, true, rep, m, b, e.push(n), c), n)
{ reveal(cst); assert(e.push(n).drop_last() =~= e); }
broadcast proof fn bc_cur(a: G, tag: Nm, sub: bool, rep: int, m: Am, b: Seq<Tok>, e: Seq<Nm>, c: K)
    ensures (#[trigger] cst(a, tag, sub, rep, m, b, e, c)).cur == c, cst(a, tag, sub, rep, m, b, e, c).inc == sub
{ reveal(cst); }
proof fn bc_end(a: G, tag: Nm, rep: int, m: Am, b: Seq<Tok>, c: K)
    requires ctag(tag), a.inrow, !a.inc ensures ({ let g = cst(a, tag, true, rep, m, b, Seq::empty(), c); end_ok(g, tag) && written(a, g_end(g, tag), kind(tag) is Covered, rep, m, b) && g_end(g, tag).stack == a.stack })
{ reveal(cst); let g = cst(a, tag, true, rep, m, b, Seq::empty(), c); assert(g.stack =~= a.stack.push(tag)); assert(a.stack.push(tag).drop_last() =~= a.stack); }
proof fn bc_end0(a: G, tag: Nm, rep: int, m: Am, b: Seq<Tok>, c: K)
    requires ctag(tag), a.inrow, !a.inc ensures ({ let g = cst(a, tag, false, rep, m, b, Seq::empty(), c); written(a, g, kind(tag) is Covered, rep, m, b) && g.stack == a.stack })
{ reveal(cst); }
proof fn bc_begin(a: G, tag: Nm)
    requires ctag(tag), a.inrow, !a.inc ensures open_ok(a, tag), g_elem(a, tag) == cst(a, tag, true, 1, Map::empty(), Seq::empty(), Seq::empty(), kind(tag)), g_empty(a, tag) == cst(a, tag, false, 1, Map::empty(), Seq::empty(), Seq::empty(), kind(tag))
{ reveal(cst); let y = cst(a, tag, true, 1, Map::empty(), Seq::empty(), Seq::empty(), kind(tag)); assert(g_elem(a, tag).stack =~= y.stack); }
/// the cell was written
spec fn written(a: G, b: G, hidden: bool, repeat: int, attrs: Am, body: Seq<Tok>) -> bool {
    &&& in_place(a, b) && b.col == a.col + repeat
    &&& b.cels == a.cels.push(Cel { row: a.row, rown: a.rows.last().rown, col: a.col, coln: repeat, covered: hidden, attrs: attrs, body: body })
}
/// only attributes with smaller numbers are there
spec fn below(m: Am, k: int) -> bool { forall|n: Nm| #[trigger] m.contains_key(n) ==> ck(n) < k }
proof fn lemma_below(b: WorkBook, d: CellData) ensures below(m_f(d), 3), below(m_s(b, d), 4), below(m_v(b, d), 5), below(m_p(b, d), 7), below(m_m(b, d), 9)
{ cell_names(); reveal(m_f); reveal(m_s); reveal(m_v); reveal(m_p); reveal(m_m); }
broadcast group cell_steps { bc_cur, bc_end_ok, bc_attr, bc_rep, bc_attr_ok, bc_text, bc_tok, bc_elem, bc_open_ok, bc_end_in }
#[verifier::opaque]
spec fn m_f(d: CellData) -> Am { put(Map::empty(), "table:formula"@, match d.formula { Some(f) => Some(f@), None => None }) }
#[verifier::opaque]
spec fn m_s(b: WorkBook, d: CellData) -> Am { put(m_f(d), "table:style-name"@, match d.style { Some(s) => Some(s.id@), None => defstyle(b, vt(d.value)) }) }
#[verifier::opaque]
spec fn m_v(b: WorkBook, d: CellData) -> Am { match d.extra { None => m_s(b, d), Some(x) => put(m_s(b, d), "table:content-validation-name"@, match x.validation_name { Some(v) => Some(v.id@), None => None }) } }
#[verifier::opaque]
spec fn m_p(b: WorkBook, d: CellData) -> Am { match d.extra { None => m_v(b, d), Some(x) => put(put(m_v(b, d), "table:number-rows-spanned"@, many(x.span.row_span)), "table:number-columns-spanned"@, many(x.span.col_span)) } }
#[verifier::opaque]
spec fn m_m(b: WorkBook, d: CellData) -> Am { match d.extra { None => m_p(b, d), Some(x) => put(put(m_p(b, d), "table:number-matrix-rows-spanned"@, many(x.matrix_span.row_span)), "table:number-matrix-columns-spanned"@, many(x.matrix_span.col_span)) } }
/// keeps the definitions in the verifier's context
proof fn mention(g: G, n: Nm, t: Tok) ensures g_attr(g, n, n, 0) == g_attr(g, n, n, 0), g_text(g, n) == g_text(g, n), g_tok(g, t) == g_tok(g, t), g_elem(g, n) == g_elem(g, n), g_empty(g, n) == g_empty(g, n), g_end(g, n) == g_end(g, n), attr_ok(g, n, 0) == attr_ok(g, n, 0), open_ok(g, n) == open_ok(g, n), end_ok(g, n) == end_ok(g, n) {}
/// the match over the value, a block of write_cell
//@fn file=src/io/write.rs path=write_cell as=vp_write_value attr=verifier::spinoff_prover
//@slice match &cell.value { $body } ==> match &cell.value { $body } Ok(())
//@sig fn vp_write_value(cell: &CellData, Ghost(g0): Ghost<G>, Ghost(tag0): Ghost<Nm>, Ghost(sub): Ghost<bool>, Ghost(rep): Ghost<int>, Ghost(m): Ghost<Am>, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError>
//@ret r
//@subst for l in s.split('\n') { ==> let vp_ls = vp_split_nl(s); for l in vp_ls.iter() { let l: &str = *l;
//@spec
    requires wfg(old(xml_out)@), ctag(tag0), old(xml_out)@ == cst(g0, tag0, sub, rep, m, Seq::empty(), Seq::empty(), kind(tag0)), !(cell.value is Empty) ==> sub, below(m, 9),
    ensures r is Ok ==> wfg(final(xml_out)@) && final(xml_out)@ == cst(g0, tag0, sub, rep, val_attrs(m, cell.value), val_body(cell.value), Seq::empty(), final(xml_out)@.cur),
//@at start
    hide(g_attr); hide(g_text); hide(g_tok); hide(g_elem); hide(g_empty); hide(g_end); hide(attr_ok); hide(open_ok); hide(end_ok);
    broadcast use cell_steps;
    proof { cell_names(); mention(xml_out@, Seq::empty(), Tok::Text(Seq::empty())); }
    let ghost at = val_attrs(m, cell.value);
//@at beforeloop 0
    proof { assert(xml_out@ == cst(g0, tag0, sub, rep, at, Seq::empty(), Seq::empty(), kind(tag0))); }
//@loop 0 it=it
    invariant it.seq().len() == vp_ls@.len(), forall|k: int| 0 <= k < vp_ls@.len() ==> *(#[trigger] it.seq()[k]) == vp_ls@[k], vp_ls@.len() == split_nl(s@).len(), forall|k: int| 0 <= k < vp_ls@.len() ==> (#[trigger] vp_ls@[k])@ == split_nl(s@)[k],
        wfg(xml_out@), kind("text:p"@) is Other,
        xml_out@ == cst(g0, tag0, true, rep, at, pars(split_nl(s@), it.index@ as int), Seq::empty(), xml_out@.cur),
//@at loopstart 0
    broadcast use cell_steps;
    proof { assert(l@ == split_nl(s@)[it.index@ as int]); }
    let ghost b0 = pars(split_nl(s@), it.index@ as int);
    proof { assert(b0.push(Tok::Open("text:p"@)).push(Tok::Text(l@)).push(Tok::End("text:p"@)) =~= pars(split_nl(s@), it.index@ + 1)); }
//@at loopend 0
    proof { assert(xml_out@ == cst(g0, tag0, true, rep, at, pars(split_nl(s@), it.index@ + 1), Seq::empty(), K::Closed)); }
//@loop 1 it=it
    invariant it.seq().len() == t@.len(), forall|k: int| 0 <= k < t@.len() ==> *(#[trigger] it.seq()[k]) == t@[k],
        wfg(xml_out@),
        xml_out@ == cst(g0, tag0, true, rep, at, trees(t@, it.index@ as int), Seq::empty(), xml_out@.cur),
//@at loopstart 1
    broadcast use cell_steps;
    proof { assert(*tt == t@[it.index@ as int]); assert(trees(t@, it.index@ + 1) =~= trees(t@, it.index@ as int).push(Tok::Tree(*tt))); }
//@end
//@fn file=src/io/write.rs path=write_cell attr=verifier::rlimit(15)+verifier::spinoff_prover
//@params book cell is_hidden repeat xml_out
//@ret r
//@subst cell.value != Value::Empty ==> cell.value.vp_ne_empty()
//@subst .and_then(|v| v.validation_name.as_ref()) ==> .and_then(|v: &Box<CellDataExt>| -> (o: Option<&ValidationRef>) ensures o is Some == v.validation_name is Some, o is Some ==> *o->0 == v.validation_name->0 { v.validation_name.as_ref() })
//@subst .and_then(|v| v.annotation.as_ref()) ==> .and_then(|v: &Box<CellDataExt>| -> (o: Option<&Box<Annotation>>) ensures o is Some == v.annotation is Some, o is Some ==> *o->0 == v.annotation->0 { v.annotation.as_ref() })
//@subst .map(|v| v.$idf) ==> .map(|v: &Box<CellDataExt>| -> (o: CellSpan) ensures o == v.$idf { v.$idf })
//@subst .map(|v| &v.$idf) ==> .map(|v: &Box<CellDataExt>| -> (o: &Vec<DrawFrame>) ensures *o == v.$idf { &v.$idf })
//@subst for draw_frame in draw_frames { ==> for draw_frame in draw_frames.iter() {
//@subst match &cell.value { $body } ==> vp_write_value(cell, Ghost(g0), Ghost(tag0), Ghost(subs(*cell)), Ghost(repeat as int), Ghost(m_m(*book, *cell)), xml_out)?;
//@spec
    requires wfg(old(xml_out)@), old(xml_out)@.inrow, !old(xml_out)@.inc, repeat >= 1,
    ensures r is Ok ==> ({ let a = old(xml_out)@; let b = final(xml_out)@;
        wfg(b) && b.stack == a.stack && written(a, b, is_hidden, repeat as int, cel_attrs(*book, *cell), cel_body(*cell)) }),
//@at start
    hide(g_attr); hide(g_text); hide(g_tok); hide(g_elem); hide(g_empty); hide(g_end); hide(attr_ok); hide(open_ok); hide(end_ok);
    broadcast use cell_steps;
    proof { cell_names(); mention(xml_out@, Seq::empty(), Tok::Text(Seq::empty())); }
    let ghost tag0: Nm = if is_hidden { "table:covered-table-cell"@ } else { "table:table-cell"@ };
    let ghost (g0, at) = (xml_out@, cel_attrs(*book, *cell));
    proof { bc_begin(g0, tag0); lemma_below(*book, *cell); }
//@at before 0 if repeat > 1
    proof { assert(xml_out@ == cst(g0, tag0, subs(*cell), 1, m_f(*cell), Seq::empty(), Seq::empty(), kind(tag0))) by { reveal(m_f); }; }
//@at before 0 if let Some(style) = &cell.style
    proof { assert(xml_out@ == cst(g0, tag0, subs(*cell), repeat as int, m_f(*cell), Seq::empty(), Seq::empty(), kind(tag0))); }
//@at before 0 if let Some(validation_name)
    proof { assert(xml_out@ == cst(g0, tag0, subs(*cell), repeat as int, m_s(*book, *cell), Seq::empty(), Seq::empty(), kind(tag0))) by { reveal(m_s); }; }
//@at before 0 if let Some(span)
    proof { assert(xml_out@ == cst(g0, tag0, subs(*cell), repeat as int, m_v(*book, *cell), Seq::empty(), Seq::empty(), kind(tag0))) by { reveal(m_v); }; }
//@at before 1 if let Some(span)
    proof { assert(xml_out@ == cst(g0, tag0, subs(*cell), repeat as int, m_p(*book, *cell), Seq::empty(), Seq::empty(), kind(tag0))) by { reveal(m_p); }; }
//@at before 0 vp_write_value
    proof { assert(xml_out@ == cst(g0, tag0, subs(*cell), repeat as int, m_m(*book, *cell), Seq::empty(), Seq::empty(), kind(tag0))) by { reveal(m_m); }; }
//@at before 0 if let Some(annotation)
    let ghost c3 = xml_out@.cur;
    proof { assert(xml_out@ == cst(g0, tag0, subs(*cell), repeat as int, at, val_body(cell.value), Seq::empty(), c3)); }
//@at before 0 if let Some(draw_frames)
    let ghost c4 = xml_out@.cur;
    let ghost b4 = note_body(*cell);
    proof { assert(xml_out@ == cst(g0, tag0, subs(*cell), repeat as int, at, b4, Seq::empty(), c4)); }
//@at beforeloop 0
    proof { assert(b4 + frames(draw_frames@, 0) =~= b4); }
//@loop 0 it=it
    invariant it.seq().len() == draw_frames@.len(), forall|k: int| 0 <= k < draw_frames@.len() ==> *(#[trigger] it.seq()[k]) == draw_frames@[k],
        wfg(xml_out@), draw_frames@.len() > 0 ==> subs(*cell),
        xml_out@ == cst(g0, tag0, subs(*cell), repeat as int, at, b4 + frames(draw_frames@, it.index@ as int), Seq::empty(), xml_out@.cur),
//@at loopstart 0
    broadcast use cell_steps;
    proof { assert(*draw_frame == draw_frames@[it.index@ as int]); assert(b4 + frames(draw_frames@, it.index@ + 1) =~= (b4 + frames(draw_frames@, it.index@ as int)).push(Tok::Frame(*draw_frame))); }
//@at before 0 xml_out.end_elem_if
    let ghost c5 = xml_out@.cur;
    proof { assert(xml_out@ == cst(g0, tag0, subs(*cell), repeat as int, at, cel_body(*cell), Seq::empty(), c5)); bc_end(g0, tag0, repeat as int, at, cel_body(*cell), c5); bc_end0(g0, tag0, repeat as int, at, cel_body(*cell), c5); }
//@end
// ------------------------------------------------------------------ the cells of a sheet, in order
type Ent = ((u32, u32), CellData);
spec fn before(a: (u32, u32), b: (u32, u32)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
/// every cell once, by row and column
#[verifier::opaque]
spec fn listed(e: Seq<Ent>, m: Map<(u32, u32), CellData>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> before((#[trigger] e[i]).0, (#[trigger] e[j]).0)
    &&& forall|i: int| 0 <= i < e.len() ==> m.contains_key((#[trigger] e[i]).0) && m[e[i].0] == e[i].1
    &&& forall|k: (u32, u32)| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k
}
proof fn lemma_listed(e: Seq<Ent>, s: Sheet, i: int) requires listed(e, s.data@), sheet_ok(s), 0 <= i < e.len() ensures s.data@.contains_key(e[i].0), s.data@[e[i].0] == e[i].1, cell_ok(e[i].0, e[i].1), e[i].0.0 < u32::MAX, e[i].0.1 < u32::MAX { reveal(listed); }
proof fn lemma_order(e: Seq<Ent>, m: Map<(u32, u32), CellData>, i: int, j: int) requires listed(e, m), 0 <= i < j < e.len() ensures before(e[i].0, e[j].0) { reveal(listed); }
uninterp spec fn listing(m: Map<(u32, u32), CellData>) -> Seq<Ent>;
// trusted: BTreeMap::range(..) gives every entry once, in the order of the keys
#[verifier::external_body] struct VpRange<'a> { _x: &'a u8 }
impl<'a> VpRange<'a> {
    uninterp spec fn rest(&self) -> Seq<Ent>;
    #[verifier::external_body] fn next(&mut self) -> (r: Option<(&'a (u32, u32), &'a CellData)>)
        ensures match r { None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(), Some((k, v)) => old(self).rest().len() > 0 && *k == old(self).rest()[0].0 && *v == old(self).rest()[0].1 && final(self).rest() == old(self).rest().subrange(1, old(self).rest().len() as int) } { unimplemented!() }
}
#[verifier::external_body] fn vp_range_all<'a>(m: &'a BTreeMap<(u32, u32), CellData>) -> (r: VpRange<'a>) ensures r.rest() == listing(m@), listed(listing(m@), m@) { unimplemented!() }
//@struct file=src/sheet_.rs name=CellDataIter
//@subst std::collections::btree_map::Range<'a, (u32, u32), CellData> ==> VpRange<'a>
//@end
impl<'a> CellDataIter<'a> {
    spec fn wf_it(&self) -> bool { self.k_data is Some == self.v_data is Some }
    /// the cells still to come
    spec fn pend(&self) -> Seq<Ent> { match self.k_data { Some(k) => seq![(*k, *self.v_data->0)] + self.iter.rest(), None => self.iter.rest() } }
    /// the next cell is known
    spec fn loaded(&self) -> bool { self.k_data is None ==> self.iter.rest().len() == 0 }
//@fn file=src/sheet_.rs path=CellDataIter::new
//@params iter
//@ret r
//@subst std::collections::btree_map::Range<'a, (u32, u32), CellData> ==> VpRange<'a>
//@spec
    ensures r.wf_it(), r.pend() == iter.rest(),
//@end
//@fn file=src/sheet_.rs path=CellDataIter::peek_cell
//@ret r
//@subst self.k_data.copied() ==> vp_copied(self.k_data)
//@spec
    requires old(self).wf_it(), old(self).loaded(),
    ensures *final(self) == *old(self), r is Some == (old(self).pend().len() > 0), r matches Some(k) ==> k == old(self).pend()[0].0,
//@end
//@fn file=src/sheet_.rs path=CellDataIter::load_next_data
//@spec
    requires old(self).wf_it(),
    ensures final(self).wf_it(), final(self).loaded(), final(self).pend() =~= old(self).iter.rest(), final(self).iter.rest().len() <= old(self).iter.rest().len(),
//@end
//@fn file=src/sheet_.rs path=CellDataIter::next trait=Iterator
//@ret r
//@subst Option<Self::Item> ==> Option<((u32, u32), &'a CellData)>
//@spec
    requires old(self).wf_it(),
    ensures final(self).wf_it(), final(self).loaded(),
        match r { None => old(self).pend().len() == 0, Some((k, d)) => old(self).pend().len() > 0 && k == old(self).pend()[0].0 && *d == old(self).pend()[0].1 && final(self).pend() =~= old(self).pend().subrange(1, old(self).pend().len() as int) },
//@end
}
fn vp_copied(o: Option<&(u32, u32)>) -> (r: Option<(u32, u32)>) ensures r is Some == o is Some, o matches Some(k) ==> r == Some(*k) { match o { Some(k) => Some(*k), None => None } }

// ------------------------------------------------------------------ what is covered, what is where
spec fn opens(d: CellData) -> bool { d.extra matches Some(x) && (x.span.row_span > 1 || x.span.col_span > 1) }
spec fn inspan(k: (u32, u32), d: CellData, r: int, c: int) -> bool { d.extra matches Some(x) && k.0 <= r < k.0 + x.span.row_span && k.1 <= c < k.1 + x.span.col_span }
/// inside the span of one of the first n cells; only a cell that is not itself inside such a span has one
spec fn covb(e: Seq<Ent>, n: int, r: int, c: int) -> bool decreases n {
    n > 0 && (covb(e, n - 1, r, c) || (opens(e[n - 1].1) && !covb(e, n - 1, e[n - 1].0.0 as int, e[n - 1].0.1 as int) && inspan(e[n - 1].0, e[n - 1].1, r, c)))
}
/// the same, except for the cell that has the span
spec fn cova(e: Seq<Ent>, n: int, r: int, c: int) -> bool decreases n {
    n > 0 && (cova(e, n - 1, r, c) || (opens(e[n - 1].1) && !covb(e, n - 1, e[n - 1].0.0 as int, e[n - 1].0.1 as int) && inspan(e[n - 1].0, e[n - 1].1, r, c) && !(e[n - 1].0.0 == r && e[n - 1].0.1 == c)))
}
/// the position is covered by the span of another cell
#[verifier::opaque]
spec fn covered(e: Seq<Ent>, r: int, c: int) -> bool { cova(e, e.len() as int, r, c) }
proof fn lemma_cova(e: Seq<Ent>, n: int, r: int, c: int) requires 0 <= n <= e.len(), forall|j: int| 0 <= j < n ==> !((#[trigger] e[j]).0.0 == r && e[j].0.1 == c) ensures cova(e, n, r, c) == covb(e, n, r, c) decreases n
{ if n > 0 { lemma_cova(e, n - 1, r, c); assert(!(e[n - 1].0.0 == r && e[n - 1].0.1 == c)); } }
proof fn lemma_cova_tail(e: Seq<Ent>, i: int, n: int, r: int, c: int) requires 0 <= i <= n <= e.len(), forall|j: int| i <= j < n ==> after_eq((#[trigger] e[j]).0.0 as int, e[j].0.1 as int, r, c) ensures cova(e, n, r, c) == cova(e, i, r, c) decreases n
{ if n > i { lemma_cova_tail(e, i, n - 1, r, c); assert(after_eq(e[n - 1].0.0 as int, e[n - 1].0.1 as int, r, c)); } }
/// cells further on cover nothing that comes before them
proof fn lemma_covered(e: Seq<Ent>, m: Map<(u32, u32), CellData>, i: int, r: int, c: int)
    requires listed(e, m), 0 <= i <= e.len(), i < e.len() ==> after_eq(e[i].0.0 as int, e[i].0.1 as int, r, c), i > 0 ==> !after_eq(e[i - 1].0.0 as int, e[i - 1].0.1 as int, r, c)
    ensures covered(e, r, c) == covb(e, i, r, c)
{
    reveal(covered); reveal(listed);
    assert forall|j: int| 0 <= j < i implies !((#[trigger] e[j]).0.0 == r && e[j].0.1 == c) by { if j < i - 1 { assert(before(e[j].0, e[i - 1].0)); } }
    assert forall|j: int| i <= j < e.len() implies after_eq((#[trigger] e[j]).0.0 as int, e[j].0.1 as int, r, c) by { if i < j { assert(before(e[i].0, e[j].0)); } }
    lemma_cova(e, i, r, c); lemma_cova_tail(e, i, e.len() as int, r, c);
}
/// the position belongs to the cell
spec fn at_ent(x: Ent, r: int, c: int) -> bool { x.0.0 == r && x.0.1 <= c < x.0.1 + x.1.repeat }
spec fn has_data(e: Seq<Ent>, r: int) -> bool { exists|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0.0 == r }
spec fn same_content(c: Cel, b: WorkBook, d: CellData) -> bool { c.attrs == cel_attrs(b, d) && c.body == cel_body(d) }
/// what is written for a row of the positions is what the sheet has there
#[verifier::opaque]
spec fn cel_at(c: Cel, b: WorkBook, e: Seq<Ent>, rr: int) -> bool {
    &&& forall|x: int| c.col <= x < c.col + c.coln ==> #[trigger] covered(e, rr, x) == c.covered
    &&& forall|j: int, x: int| 0 <= j < e.len() && c.col <= x < c.col + c.coln && #[trigger] at_ent(e[j], rr, x) ==> same_content(c, b, e[j].1)
    &&& blank(c) || exists|j: int| 0 <= j < e.len() && #[trigger] at_ent(e[j], rr, c.col) && at_ent(e[j], rr, c.col + c.coln - 1)
}
/// rows that are repeated are written once, with the content of the first one
spec fn cel_right(c: Cel, b: WorkBook, e: Seq<Ent>) -> bool { cel_at(c, b, e, c.row) && (has_data(e, c.row) || forall|rr: int| c.row <= rr < c.row + c.rown ==> #[trigger] cel_at(c, b, e, rr)) }
spec fn data_row(v: RowEv, s: Sheet) -> bool { 0 <= v.row <= u32::MAX && v.rown == rrep(s, v.row as u32) && v.attrs == row_attrs(rat(s.row_header@, v.row as u32)) && v.hdr == hin(s, v.row, v.rown) }
spec fn row_fine(v: RowEv, s: Sheet, e: Seq<Ent>) -> bool { row_right(v, s) || (has_data(e, v.row) && data_row(v, s)) }
spec fn described(cs: Seq<Cel>, r: int, c: int) -> bool { exists|k: int| 0 <= k < cs.len() && at(#[trigger] cs[k], r, c) && cs[k].row == r }
#[verifier::opaque]
spec fn present(cs: Seq<Cel>, x: Ent) -> bool { forall|c: int| x.0.1 <= c < x.0.1 + x.1.repeat ==> #[trigger] described(cs, x.0.0 as int, c) }
proof fn lemma_present(a: Seq<Cel>, b: Seq<Cel>, x: Ent) requires present(a, x), ext(a, b) ensures present(b, x)
{ reveal(present); assert forall|c: int| x.0.1 <= c < x.0.1 + x.1.repeat implies #[trigger] described(b, x.0.0 as int, c) by { assert(described(a, x.0.0 as int, c)); let k = choose|k: int| 0 <= k < a.len() && at(#[trigger] a[k], x.0.0 as int, c) && a[k].row == x.0.0; assert(at(b[k], x.0.0 as int, c)); } }
/// the first n cells of the sheet are there, and nothing that is not in it
#[verifier::opaque]
spec fn grid_right(g: G, b: WorkBook, s: Sheet, e: Seq<Ent>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < g.cels.len() ==> cel_right(#[trigger] g.cels[i], b, e)
    &&& forall|i: int| 0 <= i < g.rows.len() ==> row_fine(#[trigger] g.rows[i], s, e)
    &&& forall|j: int| 0 <= j < n ==> present(g.cels, #[trigger] e[j])
}
/// the cells of a row do not overlap
#[verifier::opaque]
spec fn apart(e: Seq<Ent>, n: int) -> bool { forall|j: int, k: int| 0 <= j < n && k == j + 1 && k < e.len() && (#[trigger] e[k]).0.0 == (#[trigger] e[j]).0.0 ==> e[j].0.1 + e[j].1.repeat <= e[k].0.1 }
proof fn lemma_apart(e: Seq<Ent>, m: Map<(u32, u32), CellData>, n: int, j: int, k: int) requires listed(e, m), apart(e, n), 0 <= j < n, j < k < e.len(), e[k].0.0 == e[j].0.0 ensures e[j].0.1 + e[j].1.repeat <= e[k].0.1
{ reveal(apart); reveal(listed); if k == j + 1 { assert(e[k].0.0 == e[j].0.0); } else { assert(before(e[j].0, e[j + 1].0)); assert(before(e[j + 1].0, e[k].0)); assert(e[j + 1].0.0 == e[j].0.0); } }
/// the spans that are kept say what is covered from here on
#[verifier::opaque]
spec fn agree(s: Seq<CellRange>, e: Seq<Ent>, n: int, r0: int, c0: int) -> bool { forall|r: int, c: int| after_eq(r, c, r0, c0) ==> #[trigger] hid(s, r, c) == covb(e, n, r, c) }

// ------------------------------------------------------------------ the blocks of write_sheet's loop
#[verifier::external_body] fn vp_err() -> OdsError { unimplemented!() }
fn vp_span(s: CellSpan) -> (r: (u32, u32)) ensures r == (s.row_span, s.col_span) { (s.row_span, s.col_span) }
/// the place in the table between two cells
spec fn row_state(g: G, s: Sheet, prev_row: int, prev_rep: int, rgc: int, rh: bool) -> bool {
    &&& wfg(g) && g.inrow && !g.inc && g.row == prev_row && g.rows.len() > 0 && g.rows.last().rown == prev_rep
    &&& rgc == open_in(s.group_rows@, prev_row, prev_row + prev_rep) && rh == hin(s, prev_row, prev_rep) && laid(g.stack, rgc, rh, true)
}
//@fn file=src/io/write.rs path=write_sheet as=vp_row_change attr=verifier::spinoff_prover
//@slice if backward_delta_row > 0 && !first_cell { $body1 } if backward_delta_row > 0 { $body2 } if backward_delta_row > 0 || first_cell { $body3 } ==> if backward_delta_row > 0 && !first_cell { $body1 } if backward_delta_row > 0 { $body2 } if backward_delta_row > 0 || first_cell { $body3 } Ok(())
//@sig fn vp_row_change(sheet: &Sheet, max_cell: (u32, u32), first_cell: bool, prev_row: u32, prev_row_repeat: u32, prev_col: u32, cur_row: u32, cur_col: u32, cur_row_repeat: u32, backward_delta_row: u32, backward_delta_col: u32, spans: &Vec<CellRange>, row_group_count: &mut u32, row_header: &mut bool, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError>
//@ret r
//@subst &mut row_group_count ==> row_group_count
//@subst &mut row_header ==> row_header
//@subst &spans ==> spans
//@subst OdsError::Ods($e) ==> vp_err()
//@spec
    requires sheet_ok(*sheet), all_wf(spans@), max_cell.1 >= 1, cur_row < u32::MAX, prev_row <= cur_row, backward_delta_row == cur_row - prev_row, cur_row_repeat == rrep(*sheet, cur_row), prev_row_repeat >= 1, prev_row + prev_row_repeat <= u32::MAX,
        begun(spans@, prev_row as int), wfg(old(xml_out)@), !old(xml_out)@.inc, old(xml_out)@.inrow == !first_cell,
        first_cell ==> prev_row == 0 && prev_row_repeat == 1 && old(xml_out)@.row == 0 && *old(row_group_count) == 0 && !*old(row_header) && laid(old(xml_out)@.stack, 0, false, false),
        !first_cell ==> row_state(old(xml_out)@, *sheet, prev_row as int, prev_row_repeat as int, *old(row_group_count) as int, *old(row_header)),
    ensures r is Ok ==> ({ let a = old(xml_out)@; let b = final(xml_out)@; let r0 = if first_cell { 0 } else { prev_row + prev_row_repeat };
        if backward_delta_row > 0 || first_cell {
            &&& row_state(b, *sheet, cur_row as int, cur_row_repeat as int, *final(row_group_count) as int, *final(row_header))
            &&& base(b.stack, *final(row_group_count) as int, *final(row_header), true) =~= base(a.stack, *old(row_group_count) as int, *old(row_header), !first_cell)
            &&& same_table(a, b) && b.col == backward_delta_col && r0 <= cur_row && b.rows.len() > a.rows.len()
            &&& b.rows.last().row == cur_row && data_row(b.rows.last(), *sheet)
            &&& forall|i: int| a.rows.len() <= i < b.rows.len() - 1 ==> row_right(#[trigger] b.rows[i], *sheet)
            &&& forall|i: int| a.cels.len() <= i < b.cels.len() ==> (blank_right(#[trigger] b.cels[i], spans@, r0, cur_row as int, max_cell.1 as int) || (blank(b.cels[i]) && fits(b.cels[i], b, 0, backward_delta_col as int) && veil(b.cels[i], spans@, cur_row as int)))
        } else { b == a && *final(row_group_count) == *old(row_group_count) && *final(row_header) == *old(row_header) } }),
//@at start
    proof { lemma_cnt(sheet.group_rows@, sheet.group_rows@.len() as int, 0, 0); }
//@end
#[verifier::opaque]
spec fn filled(a: G, b: G, s: Seq<CellRange>, row: int, to: int) -> bool { fill(a, b, s, row, to) }
#[verifier::opaque]
spec fn cut(o: Seq<SplitCols>, s: Seq<CellRange>, row: int, from: int, to: int) -> bool { pieces(o, s, row, from, to) }
spec fn upto(o: Seq<SplitCols>, n: int, to: int) -> int { if n < o.len() { o[n].col as int } else { to } }
proof fn lemma_cut(o: Seq<SplitCols>, s: Seq<CellRange>, row: int, from: int, to: int, n: int) requires cut(o, s, row, from, to), 0 <= n < o.len(), to <= u32::MAX
    ensures from <= o[n].col <= o[n].col_to < to, upto(o, n + 1, to) == o[n].col_to + 1, piece(o[n], s, row), upto(o, 0, to) == from
{ reveal(cut); assert(piece(o[n], s, row)); if n + 1 < o.len() { assert(o[n].col_to + 1 == o[n + 1].col); } lemma_cut_in(o, s, row, from, to, n); lemma_cut_to(o, s, row, from, to, n); }
proof fn lemma_cut_in(o: Seq<SplitCols>, s: Seq<CellRange>, row: int, from: int, to: int, n: int) requires pieces(o, s, row, from, to), 0 <= n < o.len() ensures from <= o[n].col decreases n
{ if n > 0 { lemma_cut_in(o, s, row, from, to, n - 1); assert(piece(o[n - 1], s, row)); assert(o[n - 1].col_to + 1 == o[n].col); } }
proof fn lemma_cut_to(o: Seq<SplitCols>, s: Seq<CellRange>, row: int, from: int, to: int, n: int) requires pieces(o, s, row, from, to), 0 <= n < o.len() ensures o[n].col_to < to decreases o.len() - n
{ if n + 1 < o.len() { lemma_cut_to(o, s, row, from, to, n + 1); assert(piece(o[n + 1], s, row)); assert(o[n].col_to + 1 == o[n + 1].col); } }
proof fn lemma_filled(a: G, b: G, c: G, s: Seq<CellRange>, row: int, p: SplitCols)
    requires filled(a, b, s, row, p.col as int), piece(p, s, row), in_place(b, c), c.col == b.col + (p.col_to - p.col + 1), a.col <= p.col,
        c.cels == b.cels.push(Cel { row: b.row, rown: b.rows.last().rown, col: b.col, coln: p.col_to - p.col + 1, covered: p.hidden, attrs: Map::empty(), body: Seq::empty() }),
    ensures filled(a, c, s, row, p.col_to + 1)
{ reveal(filled);
    assert forall|i: int| 0 <= i < a.cels.len() implies #[trigger] c.cels[i] == a.cels[i] by { assert(b.cels[i] == a.cels[i]); }
    assert forall|i: int| a.cels.len() <= i < c.cels.len() implies blank(#[trigger] c.cels[i]) && fits(c.cels[i], a, a.col, p.col_to + 1) && veil(c.cels[i], s, row) by { if i < b.cels.len() { assert(c.cels[i] == b.cels[i]); } } }
/// the content was added up to column `to`, covered where the ranges say so
#[verifier::opaque]
spec fn copied(a: G, b: G, w: WorkBook, d: CellData, s: Seq<CellRange>, row: int, to: int) -> bool {
    in_place(a, b) && b.col == to && forall|i: int| a.cels.len() <= i < b.cels.len() ==> same_content(#[trigger] b.cels[i], w, d) && fits(b.cels[i], a, a.col, to) && veil(b.cels[i], s, row)
}
proof fn lemma_copied(a: G, b: G, c: G, w: WorkBook, d: CellData, s: Seq<CellRange>, row: int, p: SplitCols)
    requires copied(a, b, w, d, s, row, p.col as int), piece(p, s, row), a.col <= p.col, written(b, c, p.hidden, p.col_to - p.col + 1, cel_attrs(w, d), cel_body(d)),
    ensures copied(a, c, w, d, s, row, p.col_to + 1)
{ reveal(copied);
    assert forall|i: int| 0 <= i < a.cels.len() implies #[trigger] c.cels[i] == a.cels[i] by { assert(b.cels[i] == a.cels[i]); }
    assert forall|i: int| a.cels.len() <= i < c.cels.len() implies same_content(#[trigger] c.cels[i], w, d) && fits(c.cels[i], a, a.col, p.col_to + 1) && veil(c.cels[i], s, row) by { if i < b.cels.len() { assert(c.cels[i] == b.cels[i]); } } }
/// a span was added
proof fn lemma_push(s1: Seq<CellRange>, s2: Seq<CellRange>, row: u32, col: u32, d: CellData)
    requires s2.len() == s1.len() + 1, s2.drop_last() =~= s1, d.extra is Some, forall|y: int, x: int| #![trigger in_area(s2.last(), y, x)] in_area(s2.last(), y, x) <==> inspan((row, col), d, y, x),
    ensures forall|r: int, c: int| #[trigger] hid(s2, r, c) == (hid(s1, r, c) || inspan((row, col), d, r, c)),
{
    assert forall|r: int, c: int| #[trigger] hid(s2, r, c) == (hid(s1, r, c) || inspan((row, col), d, r, c)) by {
        if hid(s1, r, c) { let i = choose|i: int| 0 <= i < s1.len() && in_area(#[trigger] s1[i], r, c); assert(s2[i] == s2.drop_last()[i]); assert(in_area(s2[i], r, c)); }
        if inspan((row, col), d, r, c) { assert(in_area(s2.last(), r, c)); assert(in_area(s2[s2.len() - 1], r, c)); }
        if hid(s2, r, c) { let i = choose|i: int| 0 <= i < s2.len() && in_area(#[trigger] s2[i], r, c); if i < s1.len() { assert(s1[i] == s2.drop_last()[i]); assert(in_area(s1[i], r, c)); } else { assert(s2[i] == s2.last()); } }
    }
}
//@fn file=src/io/write.rs path=write_sheet as=vp_cells attr=verifier::spinoff_prover
//@slice remove_outlived($ro); $body for s in &split { write_cell($a) $opt?; } ==> remove_outlived($ro); $body for s in &split { write_cell($a) $opt?; } Ok(())
//@sig fn vp_cells(book: &WorkBook, cell: &CellData, cur_row: u32, cur_col: u32, cur_col_repeat: u32, spans: &mut Vec<CellRange>, split: &mut Vec<SplitCols>, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError>
//@ret r
//@subst &mut spans ==> spans
//@subst &spans ==> spans
//@subst &mut split ==> split
//@subst .map(|v| v.$idf) ==> .map(|v: &Box<CellDataExt>| -> (o: CellSpan) ensures o == v.$idf { v.$idf })
//@subst span.into() ==> vp_span(span)
//@spec
    requires wfg(old(xml_out)@), old(xml_out)@.inrow, !old(xml_out)@.inc, old(xml_out)@.row == cur_row, old(xml_out)@.col == cur_col, cell_ok((cur_row, cur_col), *cell), cur_col_repeat == cell.repeat, all_wf(old(spans)@),
    ensures r is Ok ==> ({ let a = old(xml_out)@; let b = final(xml_out)@;
        &&& wfg(b) && in_place(a, b) && b.col == cur_col + cur_col_repeat && all_wf(final(spans)@) && b.cels.len() > a.cels.len()
        &&& forall|r: int, c: int| after_eq(r, c, cur_row as int, cur_col as int) ==> #[trigger] hid(final(spans)@, r, c) == (hid(old(spans)@, r, c) || (opens(*cell) && !hid(old(spans)@, cur_row as int, cur_col as int) && inspan((cur_row, cur_col), *cell, r, c)))
        &&& forall|i: int| a.cels.len() <= i < b.cels.len() ==> same_content(#[trigger] b.cels[i], *book, *cell) && fits(b.cels[i], a, cur_col as int, cur_col + cur_col_repeat) && veil(b.cels[i], old(spans)@, cur_row as int)
        &&& begun(old(spans)@, cur_row as int) ==> begun(final(spans)@, cur_row as int) }),
//@at start
    let ghost s0 = spans@;
//@at before 0 if let Some(span)
    let ghost s1 = spans@;
    proof { assert(piece(split@[0], s1, cur_row as int)); assert(hid(s1, cur_row as int, cur_col as int) == split@[0].hidden);
        assert forall|x: int| cur_col <= x implies #[trigger] hid(s1, cur_row as int, x) == hid(s0, cur_row as int, x) by {} }
//@at beforeloop 0
    let ghost (o, to) = (split@, cur_col + cur_col_repeat);
    proof {
        if opens(*cell) && !hid(s0, cur_row as int, cur_col as int) { lemma_push(s1, spans@, cur_row, cur_col, *cell); assert(begun(s1, cur_row as int) ==> begun(spans@, cur_row as int)) by { assert(in_area(spans@.last(), cur_row as int, cur_col as int)); } }
        assert(forall|r: int, c: int| after_eq(r, c, cur_row as int, cur_col as int) ==> #[trigger] hid(spans@, r, c) == (hid(s0, r, c) || (opens(*cell) && !hid(s0, cur_row as int, cur_col as int) && inspan((cur_row, cur_col), *cell, r, c))));
        reveal(cut); reveal(copied); assert(cut(o, s1, cur_row as int, cur_col as int, to)); lemma_cut(o, s1, cur_row as int, cur_col as int, to, 0);
        assert forall|x: int| cur_col <= x implies #[trigger] hid(s1, cur_row as int, x) == hid(s0, cur_row as int, x) by {}
        assert(copied(old(xml_out)@, xml_out@, *book, *cell, s1, cur_row as int, cur_col as int));
    }
//@loop 0 it=it
    invariant it.seq().len() == o.len(), forall|k: int| 0 <= k < o.len() ==> *(#[trigger] it.seq()[k]) == o[k], cut(o, s1, cur_row as int, cur_col as int, to),
        wfg(xml_out@), xml_out@.inrow, !xml_out@.inc, old(xml_out)@.col == cur_col, to <= u32::MAX, xml_out@.col == upto(o, it.index@ as int, to), xml_out@.cels.len() == old(xml_out)@.cels.len() + it.index@,
        copied(old(xml_out)@, xml_out@, *book, *cell, s1, cur_row as int, upto(o, it.index@ as int, to)),
//@at loopstart 0
    let ghost g0 = xml_out@;
    proof { assert(*s == o[it.index@ as int]); lemma_cut(o, s1, cur_row as int, cur_col as int, to, it.index@ as int); }
//@at loopend 0
    proof { lemma_copied(old(xml_out)@, g0, xml_out@, *book, *cell, s1, cur_row as int, *s); }
//@at afterloop 0
    proof { reveal(copied); assert(o.len() > 0) by { reveal(cut); }
        assert forall|i: int| old(xml_out)@.cels.len() <= i < xml_out@.cels.len() implies veil(#[trigger] xml_out@.cels[i], s0, cur_row as int) by { assert forall|x: int| xml_out@.cels[i].col <= x < xml_out@.cels[i].col + xml_out@.cels[i].coln implies #[trigger] hid(s0, cur_row as int, x) == xml_out@.cels[i].covered by { assert(hid(s1, cur_row as int, x) == hid(s0, cur_row as int, x)); } } }
//@end
//@fn file=src/io/write.rs path=write_sheet as=vp_fill attr=verifier::spinoff_prover
//@slice if forward_delta_row > 0 { $body1 } else if forward_delta_col > 0 { $body2 } ==> if forward_delta_row > 0 { $body1 } else if forward_delta_col > 0 { $body2 } Ok(())
//@sig fn vp_fill(sheet: &Sheet, cur_row: u32, cur_col: u32, cur_col_repeat: u32, forward_delta_row: u32, forward_delta_col: u32, spans: &Vec<CellRange>, split: &mut Vec<SplitCols>, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError>
//@ret r
//@subst &spans ==> spans
//@subst &mut split ==> split
//@subst OdsError::Ods($e) ==> vp_err()
//@spec
    requires wfg(old(xml_out)@), old(xml_out)@.inrow, !old(xml_out)@.inc, cur_col_repeat >= 1, old(xml_out)@.col == cur_col + cur_col_repeat, cur_col + cur_col_repeat <= u32::MAX, cur_col + forward_delta_col <= u32::MAX,
    ensures r is Ok ==> ({ let a = old(xml_out)@; let b = final(xml_out)@; let to = cur_col + forward_delta_col;
        &&& wfg(b) && in_place(a, b)
        &&& forward_delta_row == 0 && forward_delta_col > 0 ==> b.col == to && a.col <= to
        &&& forall|i: int| a.cels.len() <= i < b.cels.len() ==> blank(#[trigger] b.cels[i]) && fits(b.cels[i], a, a.col, to) && veil(b.cels[i], spans@, cur_row as int) }),
//@at beforeloop 0
    let ghost (o, to) = (split@, cur_col + forward_delta_col);
    proof { reveal(cut); reveal(filled); assert(cut(o, spans@, cur_row as int, cur_col + cur_col_repeat, to)); lemma_cut(o, spans@, cur_row as int, cur_col + cur_col_repeat, to, 0); }
//@loop 0 it=it
    invariant it.seq().len() == o.len(), forall|k: int| 0 <= k < o.len() ==> *(#[trigger] it.seq()[k]) == o[k], cut(o, spans@, cur_row as int, cur_col + cur_col_repeat, to), old(xml_out)@.col == cur_col + cur_col_repeat,
        wfg(xml_out@), xml_out@.inrow, !xml_out@.inc, filled(old(xml_out)@, xml_out@, spans@, cur_row as int, upto(o, it.index@ as int, to)), xml_out@.col == upto(o, it.index@ as int, to), to <= u32::MAX,
//@at loopstart 0
    let ghost g0 = xml_out@;
    proof { assert(*s == o[it.index@ as int]); lemma_cut(o, spans@, cur_row as int, cur_col + cur_col_repeat, to, it.index@ as int); }
//@at loopend 0
    proof { lemma_filled(old(xml_out)@, g0, xml_out@, spans@, cur_row as int, *s); }
//@at afterloop 0
    proof { reveal(filled); }
//@at beforeloop 1
    let ghost (o, to) = (split@, cur_col + forward_delta_col);
    proof { reveal(cut); reveal(filled); assert(cut(o, spans@, cur_row as int, cur_col + cur_col_repeat, to)); lemma_cut(o, spans@, cur_row as int, cur_col + cur_col_repeat, to, 0); }
//@loop 1 it=it
    invariant it.seq().len() == o.len(), forall|k: int| 0 <= k < o.len() ==> *(#[trigger] it.seq()[k]) == o[k], cut(o, spans@, cur_row as int, cur_col + cur_col_repeat, to), old(xml_out)@.col == cur_col + cur_col_repeat,
        wfg(xml_out@), xml_out@.inrow, !xml_out@.inc, filled(old(xml_out)@, xml_out@, spans@, cur_row as int, upto(o, it.index@ as int, to)), xml_out@.col == upto(o, it.index@ as int, to), to <= u32::MAX,
//@at loopstart 1
    let ghost g0 = xml_out@;
    proof { assert(*s == o[it.index@ as int]); lemma_cut(o, spans@, cur_row as int, cur_col + cur_col_repeat, to, it.index@ as int); }
//@at loopend 1
    proof { lemma_filled(old(xml_out)@, g0, xml_out@, spans@, cur_row as int, *s); }
//@at afterloop 1
    proof { reveal(filled); }
//@end
// ------------------------------------------------------------------ one cell more
proof fn lemma_blank_at(c: Cel, b: WorkBook, e: Seq<Ent>, m: Map<(u32, u32), CellData>, i: int, rr: int, s: Seq<CellRange>, r0: int, c0: int)
    requires listed(e, m), blank(c), veil(c, s, rr), agree(s, e, i, r0, c0), 0 <= i <= e.len(),
        forall|x: int| c.col <= x < c.col + c.coln ==> #[trigger] after_eq(rr, x, r0, c0) && (i < e.len() ==> after_eq(e[i].0.0 as int, e[i].0.1 as int, rr, x)) && (i > 0 ==> !after_eq(e[i - 1].0.0 as int, e[i - 1].0.1 as int, rr, x)),
        forall|j: int, x: int| 0 <= j < e.len() && c.col <= x < c.col + c.coln ==> !#[trigger] at_ent(e[j], rr, x),
    ensures cel_at(c, b, e, rr)
{
    reveal(cel_at); reveal(agree);
    assert forall|x: int| c.col <= x < c.col + c.coln implies #[trigger] covered(e, rr, x) == c.covered by {
        assert(after_eq(rr, x, r0, c0)); if i < e.len() { assert(after_eq(e[i].0.0 as int, e[i].0.1 as int, rr, x)); }
        lemma_covered(e, m, i, rr, x); assert(hid(s, rr, x) == c.covered); assert(hid(s, rr, x) == covb(e, i, rr, x));
    }
}
spec fn key_at(e: Seq<Ent>, i: int, r: int, c: int) -> bool { e[i].0.0 == r && e[i].0.1 == c }
/// the rows before the row of the next cell, and the row's cells before it
proof fn lemma_rows_before(g0: G, g1: G, b: WorkBook, s: Sheet, e: Seq<Ent>, i: int, spans: Seq<CellRange>, prev_row: int, prev_col: int, r0: int, width: int)
    requires listed(e, s.data@), 0 <= i < e.len(), grid_right(g0, b, s, e, i), agree(spans, e, i, prev_row, prev_col), i > 0 ==> key_at(e, i - 1, prev_row, prev_col), i == 0 ==> prev_row == 0 && prev_col == 0 && r0 == 0, i > 0 ==> r0 > prev_row && e[i].0.0 > prev_row,
        same_table(g0, g1), g1.rows.len() > g0.rows.len(), g1.row == e[i].0.0, g1.rows.last().row == e[i].0.0, data_row(g1.rows.last(), s),
        forall|k: int| g0.rows.len() <= k < g1.rows.len() - 1 ==> row_right(#[trigger] g1.rows[k], s),
        forall|k: int| g0.cels.len() <= k < g1.cels.len() ==> (blank_right(#[trigger] g1.cels[k], spans, r0, e[i].0.0 as int, width) || (blank(g1.cels[k]) && fits(g1.cels[k], g1, 0, e[i].0.1 as int) && veil(g1.cels[k], spans, e[i].0.0 as int))),
    ensures grid_right(g1, b, s, e, i)
{
    reveal(grid_right);
    let (cr, cc) = (e[i].0.0 as int, e[i].0.1 as int);
    assert(has_data(e, cr));
    assert forall|k: int| 0 <= k < g1.rows.len() implies row_fine(#[trigger] g1.rows[k], s, e) by { if k < g0.rows.len() { assert(g1.rows[k] == g0.rows[k]); } else if k == g1.rows.len() - 1 { assert(g1.rows[k] == g1.rows.last()); } }
    assert forall|j: int| 0 <= j < i implies present(g1.cels, #[trigger] e[j]) by { lemma_present(g0.cels, g1.cels, e[j]); }
    // nothing between the cell before and this one
    assert forall|j: int, rr: int, x: int| 0 <= j < e.len() && (i == 0 || rr > prev_row) && (rr < cr || (rr == cr && x < cc)) implies !#[trigger] at_ent(e[j], rr, x) by {
        if j < i { if j < i - 1 { lemma_order(e, s.data@, j, i - 1); } } else if j > i { lemma_order(e, s.data@, i, j); }
    }
    assert forall|k: int| 0 <= k < g1.cels.len() implies cel_right(#[trigger] g1.cels[k], b, e) by {
        let c = g1.cels[k];
        if k < g0.cels.len() { assert(c == g0.cels[k]); }
        else if blank_right(c, spans, r0, cr, width) {
            assert forall|rr: int| c.row <= rr < c.row + c.rown implies #[trigger] cel_at(c, b, e, rr) by {
                assert(veil(c, spans, rr));
                lemma_blank_at(c, b, e, s.data@, i, rr, spans, prev_row, prev_col);
            }
            assert(cel_at(c, b, e, c.row));
        } else {
            assert(c.row == cr);
            lemma_blank_at(c, b, e, s.data@, i, cr, spans, prev_row, prev_col);
        }
    }
}
proof fn lemma_own_cells(g1: G, g2: G, b: WorkBook, s: Sheet, e: Seq<Ent>, i: int, spans: Seq<CellRange>, prev_row: int, prev_col: int)
    requires listed(e, s.data@), sheet_ok(s), 0 <= i < e.len(), grid_right(g1, b, s, e, i), agree(spans, e, i, prev_row, prev_col), i > 0 ==> key_at(e, i - 1, prev_row, prev_col), i == 0 ==> prev_row == 0 && prev_col == 0, apart(e, i + 1),
        wfg(g2), in_place(g1, g2), g1.inrow, g1.row == e[i].0.0, g2.col == e[i].0.1 + e[i].1.repeat,
        forall|k: int| g1.cels.len() <= k < g2.cels.len() ==> same_content(#[trigger] g2.cels[k], b, e[i].1) && fits(g2.cels[k], g1, e[i].0.1 as int, e[i].0.1 + e[i].1.repeat) && veil(g2.cels[k], spans, e[i].0.0 as int),
    ensures grid_right(g2, b, s, e, i + 1)
{
    reveal(grid_right);
    let (cr, cc, n) = (e[i].0.0 as int, e[i].0.1 as int, e[i].1.repeat as int);
    lemma_listed(e, s, i);
    assert(has_data(e, cr));
    assert forall|j: int| 0 <= j < i + 1 implies present(g2.cels, #[trigger] e[j]) by {
        if j < i { lemma_present(g1.cels, g2.cels, e[j]); } else {
            reveal(present);
            assert forall|c: int| cc <= c < cc + n implies #[trigger] described(g2.cels, cr, c) by { let l = g2.cels.len() - 1; assert(l >= 0 && g2.cels[l].row == cr && g2.cels[l].col + g2.cels[l].coln == cc + n) by { reveal(wfg); } thm_no_cell_missing(g2, l, c); }
        }
    }
    assert forall|j: int, x: int| 0 <= j < e.len() && cc <= x < cc + n && #[trigger] at_ent(e[j], cr, x) implies j == i by { if j < i { lemma_apart(e, s.data@, i + 1, j, i); } else if j > i { lemma_apart(e, s.data@, i + 1, i, j); } }
    assert forall|x: int| cc <= x < cc + n implies #[trigger] covered(e, cr, x) == covb(e, i, cr, x) by {
        if i > 0 { lemma_order(e, s.data@, i - 1, i); }
        if x == cc { lemma_covered(e, s.data@, i, cr, x); } else {
            if i + 1 < e.len() { lemma_order(e, s.data@, i, i + 1); if e[i + 1].0.0 == cr { lemma_apart(e, s.data@, i + 1, i, i + 1); } }
            lemma_covered(e, s.data@, i + 1, cr, x);
        }
    }
    assert forall|k: int| 0 <= k < g2.cels.len() implies cel_right(#[trigger] g2.cels[k], b, e) by {
        let c = g2.cels[k];
        if k < g1.cels.len() { assert(c == g1.cels[k]); }
        else {
            assert(c.row == cr); if i > 0 { lemma_order(e, s.data@, i - 1, i); }
            reveal(cel_at); reveal(agree);
            assert forall|x: int| c.col <= x < c.col + c.coln implies #[trigger] covered(e, cr, x) == c.covered by { assert(hid(spans, cr, x) == c.covered); assert(hid(spans, cr, x) == covb(e, i, cr, x)); assert(covered(e, cr, x) == covb(e, i, cr, x)); }
            assert(at_ent(e[i], cr, c.col) && at_ent(e[i], cr, c.col + c.coln - 1));
            assert(cel_at(c, b, e, cr));
        }
    }
}
proof fn lemma_after_cells(g2: G, g3: G, b: WorkBook, s: Sheet, e: Seq<Ent>, i: int, spans: Seq<CellRange>, to: int)
    requires listed(e, s.data@), 0 <= i < e.len(), grid_right(g2, b, s, e, i + 1), agree(spans, e, i + 1, e[i].0.0 as int, e[i].0.1 as int), apart(e, i + 1),
        in_place(g2, g3), g2.row == e[i].0.0, g2.col == e[i].0.1 + e[i].1.repeat, e[i].1.repeat >= 1, i + 1 < e.len() && e[i + 1].0.0 == e[i].0.0 ==> to <= e[i + 1].0.1,
        forall|k: int| g2.cels.len() <= k < g3.cels.len() ==> blank(#[trigger] g3.cels[k]) && fits(g3.cels[k], g2, g2.col, to) && veil(g3.cels[k], spans, e[i].0.0 as int),
    ensures grid_right(g3, b, s, e, i + 1)
{
    reveal(grid_right);
    let (cr, cc, n) = (e[i].0.0 as int, e[i].0.1 as int, e[i].1.repeat as int);
    assert(has_data(e, cr));
    assert forall|j: int| 0 <= j < i + 1 implies present(g3.cels, #[trigger] e[j]) by { lemma_present(g2.cels, g3.cels, e[j]); }
    if i + 1 < e.len() { lemma_order(e, s.data@, i, i + 1); }
    assert forall|j: int, x: int| 0 <= j < e.len() && cc + n <= x < to implies !#[trigger] at_ent(e[j], cr, x) by {
        if j < i { if e[j].0.0 == cr { lemma_apart(e, s.data@, i + 1, j, i); } } else if j > i + 1 { lemma_order(e, s.data@, i + 1, j); }
    }
    assert forall|k: int| 0 <= k < g3.cels.len() implies cel_right(#[trigger] g3.cels[k], b, e) by {
        let c = g3.cels[k];
        if k < g2.cels.len() { assert(c == g2.cels[k]); }
        else { assert(c.row == cr); lemma_blank_at(c, b, e, s.data@, i + 1, cr, spans, cr, cc); }
    }
}
proof fn lemma_agree(s0: Seq<CellRange>, s1: Seq<CellRange>, e: Seq<Ent>, m: Map<(u32, u32), CellData>, i: int, prev_row: int, prev_col: int)
    requires listed(e, m), 0 <= i < e.len(), agree(s0, e, i, prev_row, prev_col), i > 0 ==> key_at(e, i - 1, prev_row, prev_col), i == 0 ==> prev_row == 0 && prev_col == 0,
        forall|r: int, c: int| after_eq(r, c, e[i].0.0 as int, e[i].0.1 as int) ==> #[trigger] hid(s1, r, c) == (hid(s0, r, c) || (opens(e[i].1) && !hid(s0, e[i].0.0 as int, e[i].0.1 as int) && inspan(e[i].0, e[i].1, r, c))),
    ensures agree(s1, e, i + 1, e[i].0.0 as int, e[i].0.1 as int)
{
    reveal(agree);
    if i > 0 { lemma_order(e, m, i - 1, i); }
    let (cr, cc) = (e[i].0.0 as int, e[i].0.1 as int);
    assert(hid(s0, cr, cc) == covb(e, i, cr, cc));
    assert forall|r: int, c: int| after_eq(r, c, cr, cc) implies #[trigger] hid(s1, r, c) == covb(e, i + 1, r, c) by { assert(hid(s0, r, c) == covb(e, i, r, c)); }
}
proof fn lemma_grid_same(g: G, h: G, b: WorkBook, s: Sheet, e: Seq<Ent>, n: int) requires grid_right(g, b, s, e, n), g.cels == h.cels, g.rows == h.rows ensures grid_right(h, b, s, e, n) { reveal(grid_right); }
/// THEOREM: every cell of the sheet is in the table, at its own place, with its own content, covered if another cell's span says so.
proof fn thm_cell_kept(g: G, b: WorkBook, s: Sheet, k: (u32, u32), c: int)
    requires listed(listing(s.data@), s.data@), grid_right(g, b, s, listing(s.data@), listing(s.data@).len() as int), s.data@.contains_key(k), k.1 <= c < k.1 + s.data@[k].repeat
    ensures exists|i: int| 0 <= i < g.cels.len() && at(#[trigger] g.cels[i], k.0 as int, c) && same_content(g.cels[i], b, s.data@[k]) && g.cels[i].covered == covered(listing(s.data@), k.0 as int, c)
{
    reveal(grid_right); reveal(listed); reveal(present); let e = listing(s.data@);
    let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0 == k;
    assert(present(g.cels, e[j])); assert(described(g.cels, k.0 as int, c));
    let i = choose|i: int| 0 <= i < g.cels.len() && at(#[trigger] g.cels[i], k.0 as int, c) && g.cels[i].row == k.0;
    assert(cel_right(g.cels[i], b, e)); reveal(cel_at); assert(at_ent(e[j], k.0 as int, c)); assert(covered(e, k.0 as int, c) == g.cels[i].covered);
}
/// THEOREM: what is in the table is in the sheet.
proof fn thm_nothing_made_up(g: G, b: WorkBook, s: Sheet, i: int)
    requires listed(listing(s.data@), s.data@), grid_right(g, b, s, listing(s.data@), listing(s.data@).len() as int), 0 <= i < g.cels.len(), !blank(g.cels[i]), g.cels[i].coln >= 1
    ensures exists|k: (u32, u32)| #[trigger] s.data@.contains_key(k) && k.0 == g.cels[i].row && k.1 <= g.cels[i].col && g.cels[i].col + g.cels[i].coln <= k.1 + s.data@[k].repeat && same_content(g.cels[i], b, s.data@[k])
{
    reveal(grid_right); reveal(listed); let e = listing(s.data@); let c = g.cels[i];
    assert(cel_right(c, b, e)); reveal(cel_at);
    let j = choose|j: int| 0 <= j < e.len() && #[trigger] at_ent(e[j], c.row, c.col) && at_ent(e[j], c.row, c.col + c.coln - 1);
    assert(s.data@.contains_key(e[j].0));
}
// ------------------------------------------------------------------ the table
uninterp spec fn ranges_text(v: Seq<CellRange>) -> Seq<char>;
/// unit C01_text
#[verifier::external_body] fn format_cellranges(v: &[CellRange]) -> (r: String) ensures r@ == ranges_text(v@) { unimplemented!() }
spec fn tab_attrs(s: Sheet) -> Am {
    put(put(put(put(Map::empty().insert("table:name"@, s.name@), "table:style-name"@, match s.style { Some(x) => Some(x.id@), None => None }), "table:print-ranges"@, match s.print_ranges { Some(x) => Some(ranges_text(x@)), None => None }),
        "table:print"@, if s.print { None } else { Some("false"@) }), "table:display"@, if s.display { None } else { Some("false"@) })
}
impl Sheet {
//@fn file=src/sheet_.rs path=Sheet::print
//@ret r
//@spec
    ensures r == self.print,
//@end
//@fn file=src/sheet_.rs path=Sheet::display
//@ret r
//@spec
    ensures r == self.display,
//@end
    /// unit C05_iter
    #[verifier::external_body] fn used_grid_size(&self) -> (r: (u32, u32)) requires forall|k: (u32, u32)| #[trigger] self.data@.contains_key(k) ==> k.0 < u32::MAX && k.1 < u32::MAX
        ensures r.0 >= 1, r.1 >= 1, forall|k: (u32, u32)| #[trigger] self.data@.contains_key(k) ==> k.0 < r.0 && k.1 < r.1 { unimplemented!() }
}
/// which elements are written here is not part of the contract
#[verifier::external_body] fn vp_here(t: &XmlTag) -> bool { unimplemented!() }
spec fn new_table(a: G, b: G) -> bool { b.stack == a.stack.push("table:table"@) && !b.inrow && !b.inc && b.row == 0 && b.rows.len() == 0 && b.cels.len() == 0 && b.tcol == 0 && b.cols.len() == 0 }
//@fn file=src/io/write.rs path=write_sheet as=vp_table_head attr=verifier::spinoff_prover
//@slice xml_out.elem("table:table")?; $body let max_cell = $e; ==> xml_out.elem("table:table")?; $body Ok(())
//@sig fn vp_table_head(sheet: &Sheet, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError>
//@ret r
//@subst for tag in &sheet.extra { if $c { $body } } ==> for tag in sheet.extra.iter() { if vp_here(tag) { $body } }
//@spec
    requires wfg(old(xml_out)@), !old(xml_out)@.inrow, !old(xml_out)@.inc,
    ensures r is Ok ==> wfg(final(xml_out)@) && new_table(old(xml_out)@, final(xml_out)@) && final(xml_out)@.tattrs == tab_attrs(*sheet),
//@at start
    proof { names(); }
//@at beforeloop 0
    proof { assert(xml_out@.tattrs =~= tab_attrs(*sheet)); }
//@loop 0 it=it
    invariant wfg(xml_out@), new_table(old(xml_out)@, xml_out@), xml_out@.tattrs == tab_attrs(*sheet),
//@end
spec fn sheet_fits(s: Sheet) -> bool { sheet_ok(s) && cols_ok(s) }
/// the table that is written is the sheet
spec fn table_right(g: G, b: WorkBook, s: Sheet) -> bool {
    &&& wfg(g) && listed(listing(s.data@), s.data@) && grid_right(g, b, s, listing(s.data@), listing(s.data@).len() as int)
    &&& g.tattrs == tab_attrs(s) && forall|i: int| 0 <= i < g.cols.len() ==> col_right(#[trigger] g.cols[i], s)
}
//@fn file=src/io/write.rs path=write_sheet attr=verifier::spinoff_prover+verifier::rlimit(30)
//@params book sheet xml_out
//@ret r
//@subst xml_out.elem("table:table")?; $body let max_cell = $e; ==> vp_table_head(sheet, xml_out)?; let max_cell = $e;
//@subst if backward_delta_row > 0 && !first_cell { $body1 } if backward_delta_row > 0 { $body2 } if backward_delta_row > 0 || first_cell { $body3 } ==> vp_row_change(sheet, max_cell, first_cell, prev_row, prev_row_repeat, prev_col, cur_row, cur_col, cur_row_repeat, backward_delta_row, backward_delta_col, &spans, &mut row_group_count, &mut row_header, xml_out)?;
//@subst remove_outlived($ro); $body for s in &split { write_cell($a) $opt?; } ==> vp_cells(book, cell, cur_row, cur_col, cur_col_repeat, &mut spans, &mut split, xml_out)?;
//@subst if forward_delta_row > 0 { $body1 } else if forward_delta_col > 0 { $body2 } ==> vp_fill(sheet, cur_row, cur_col, cur_col_repeat, forward_delta_row, forward_delta_col, &spans, &mut split, xml_out)?;
//@subst CellDataIter::new(sheet.data.range(..)) ==> CellDataIter::new(vp_range_all(&sheet.data))
//@subst while let Some($p) = it.next() { $body } ==> loop { let vp_n = it.next(); if vp_n.is_none() { break; } proof { lemma_listed(e, *sheet, n); if n > 0 { lemma_order(e, sheet.data@, n - 1, n); } if n + 1 < e.len() { lemma_order(e, sheet.data@, n, n + 1); lemma_listed(e, *sheet, n + 1); assert(it.pend()[0] == e[n + 1]); } } let $p = vp_n.unwrap(); $body }
//@subst for tag in &sheet.extra { if $c { $body } } ==> for tag in sheet.extra.iter() { if vp_here(tag) { $body } }
//@spec
    requires wfg(old(xml_out)@), !old(xml_out)@.inrow, !old(xml_out)@.inc, sheet_fits(*sheet),
    ensures r is Ok ==> table_right(final(xml_out)@, *book, *sheet) && final(xml_out)@.stack =~= old(xml_out)@.stack && !final(xml_out)@.inrow && !final(xml_out)@.inc,
//@at start
    proof { names(); }
//@at beforeloop 0
    let ghost e = it.pend();
    let ghost gt = xml_out@;
    let ghost st = xml_out@.stack;
    let ghost mut n: int = 0;
    proof { reveal(grid_right); reveal(apart); reveal(agree); assert(it.pend() =~= e.subrange(0, e.len() as int)); lemma_cnt(sheet.group_rows@, sheet.group_rows@.len() as int, 0, 0); }
//@loop 0
    invariant_except_break it.pend() =~= e.subrange(n, e.len() as int),
    invariant it.wf_it(), 0 <= n <= e.len(), e == listing(sheet.data@), listed(e, sheet.data@), sheet_fits(*sheet), first_cell == (n == 0),
        max_cell.1 >= 1, forall|k: (u32, u32)| #[trigger] sheet.data@.contains_key(k) ==> k.0 < max_cell.0 && k.1 < max_cell.1,
        all_wf(spans@), begun(spans@, prev_row as int), agree(spans@, e, n, prev_row as int, prev_col as int), apart(e, n), grid_right(xml_out@, *book, *sheet, e, n),
        wfg(xml_out@), !xml_out@.inc, xml_out@.tattrs == gt.tattrs, xml_out@.cols == gt.cols,
        st.len() > 0, st.last() == "table:table"@, prev_row_repeat >= 1, prev_row + prev_row_repeat <= u32::MAX,
        n == 0 ==> prev_row == 0 && prev_row_repeat == 1 && prev_col == 0 && row_group_count == 0 && !row_header && xml_out@.row == 0,
        n > 0 ==> key_at(e, n - 1, prev_row as int, prev_col as int) && prev_row_repeat == rrep(*sheet, prev_row),
        0 < n < e.len() ==> row_state(xml_out@, *sheet, prev_row as int, prev_row_repeat as int, row_group_count as int, row_header) && base(xml_out@.stack, row_group_count as int, row_header, true) =~= st && (e[n].0.0 == prev_row ==> xml_out@.col == e[n].0.1),
        n == 0 || n == e.len() ==> !xml_out@.inrow && xml_out@.stack =~= st,
    ensures n == e.len(),
    decreases e.len() - n,
//@at loopstart 0
    proof { names(); }
    let ghost (g0, s0) = (xml_out@, spans@);
//@at before 0 vp_cells
    let ghost g1 = xml_out@;
//@at before 0 vp_fill
    let ghost g2 = xml_out@;
//@at before 0 if is_last_cell
    let ghost g3 = xml_out@;
    proof {
        assert(apart(e, n + 1)) by { reveal(apart); };
        if n == 0 || cur_row > prev_row { lemma_rows_before(g0, g1, *book, *sheet, e, n, s0, prev_row as int, prev_col as int, if n == 0 { 0 } else { prev_row + prev_row_repeat }, max_cell.1 as int); }
        lemma_own_cells(g1, g2, *book, *sheet, e, n, s0, prev_row as int, prev_col as int);
        lemma_agree(s0, spans@, e, sheet.data@, n, prev_row as int, prev_col as int);
        lemma_after_cells(g2, g3, *book, *sheet, e, n, spans@, cur_col + forward_delta_col);
    }
//@at loopend 0
    proof { lemma_grid_same(g3, xml_out@, *book, *sheet, e, n + 1); n = n + 1; }
//@at afterloop 0
    let ghost gl = xml_out@;
//@at after 0 xml_out.end_elem("table:table")?;
    proof { lemma_grid_same(gl, xml_out@, *book, *sheet, e, n); assert(xml_out@.stack =~= old(xml_out)@.stack); }
//@at beforeloop 1
    let ghost ge = xml_out@;
//@loop 1 it=jt
    invariant wfg(xml_out@), !xml_out@.inrow, !xml_out@.inc, xml_out@.cels == gl.cels, xml_out@.rows == gl.rows, xml_out@.cols == gl.cols, xml_out@.tattrs == gl.tattrs, xml_out@.stack == ge.stack,
//@at afterloop 1
    proof { lemma_grid_same(gl, xml_out@, *book, *sheet, e, n); }
//@end
} // verus!
fn main() {}
