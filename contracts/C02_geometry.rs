//@include pre.rs
// C02: geometry of ranges and groups.
verus! {

//@struct file=src/refs.rs name=CRow attr=derive(Clone,Copy)
//@end
//@struct file=src/refs.rs name=CCol attr=derive(Clone,Copy)
//@end
//@struct file=src/refs.rs name=CellRange
//@end
//@struct file=src/refs.rs name=ColRange
//@end
//@struct file=src/refs.rs name=RowRange
//@end
//@struct file=src/sheet_.rs name=Grouped attr=derive(Clone,Copy)
//@end
//@struct file=src/sheet_.rs name=Sheet
//@keep group_rows,group_cols
//@end

// ------------------------------------------------------------------ specification
/// The area of a range is the inclusive rectangle between its corners.
spec fn in_area(g: CellRange, row: int, col: int) -> bool {
    g.from_row.row <= row <= g.to_row.row && g.from_col.col <= col <= g.to_col.col
}
spec fn wf(g: CellRange) -> bool { g.from_row.row <= g.to_row.row && g.from_col.col <= g.to_col.col }
/// row-major order of cells
spec fn after_eq(row: int, col: int, row0: int, col0: int) -> bool { row > row0 || (row == row0 && col >= col0) }
spec fn nothing_left(g: CellRange, row: int, col: int) -> bool {
    forall|r: int, c: int| after_eq(r, c, row, col) ==> !in_area(g, r, c)
}
spec fn rel(g: CellRange) -> bool {
    g.iri is None && !g.from_row.row_abs && !g.from_col.col_abs && !g.to_row.row_abs && !g.to_col.col_abs && g.to_table is None
}
spec fn in_group(g: Grouped, i: int) -> bool { g.from <= i <= g.to }
spec fn gwf(g: Grouped) -> bool { g.from <= g.to }
spec fn nested(a: Grouped, b: Grouped) -> bool { forall|i: int| in_group(b, i) ==> in_group(a, i) }
spec fn disjoint(a: Grouped, b: Grouped) -> bool { forall|i: int| !(in_group(a, i) && in_group(b, i)) }
spec fn compatible(a: Grouped, b: Grouped) -> bool { nested(a, b) || nested(b, a) || disjoint(a, b) }
spec fn all_compatible(g: Grouped, s: Seq<Grouped>) -> bool { forall|k: int| 0 <= k < s.len() ==> compatible(g, #[trigger] s[k]) }
spec fn mk(from: u32, to: u32, display: bool) -> Grouped { Grouped { from: from, to: to, display: display } }

// trusted: a failed assert! does not return.
#[verifier::external_body]
fn vp_rejects(b: bool) ensures b { assert!(b) }
/// an assert! that has to hold.
fn vp_holds(b: bool) requires b {}

fn vp_position<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: Option<usize>)
    requires forall|k: int| 0 <= k < v@.len() ==> call_requires(f, (&#[trigger] v@[k],)),
    ensures match r {
        Some(i) => i < v@.len() && call_ensures(f, (&v@[i as int],), true) && forall|k: int| 0 <= k < i ==> call_ensures(f, (&#[trigger] v@[k],), false),
        None => forall|k: int| 0 <= k < v@.len() ==> call_ensures(f, (&#[trigger] v@[k],), false),
    },
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|k: int| 0 <= k < v@.len() ==> call_requires(f, (&#[trigger] v@[k],)), forall|k: int| 0 <= k < i ==> call_ensures(f, (&#[trigger] v@[k],), false),
        decreases v@.len() - i,
    {
        if f(&v[i]) { return Some(i); }
        i += 1;
    }
    None
}
spec fn is_group(g: Grouped, from: u32, to: u32) -> bool { g.from == from && g.to == to }
spec fn has_group(s: Seq<Grouped>, from: u32, to: u32) -> bool { exists|k: int| 0 <= k < s.len() && is_group(#[trigger] s[k], from, to) }
spec fn is_first(s: Seq<Grouped>, from: u32, to: u32, k: int) -> bool { 0 <= k < s.len() && is_group(s[k], from, to) && forall|j: int| 0 <= j < k ==> !is_group(#[trigger] s[j], from, to) }
spec fn first_group(s: Seq<Grouped>, from: u32, to: u32) -> int { choose|k: int| is_first(s, from, to, k) }
proof fn lemma_first(s: Seq<Grouped>, from: u32, to: u32, a: int, b: int)
    requires is_first(s, from, to, a), is_first(s, from, to, b),
    ensures a == b,
{
    if a < b { assert(!is_group(s[a], from, to)); }
    if b < a { assert(!is_group(s[b], from, to)); }
}

impl CellRange {
//@fn file=src/refs.rs path=CellRange::local
//@params row col to_row to_col
//@ret r
//@subst assert!($e) ==> vp_holds($e)
//@spec
    requires row <= to_row, col <= to_col,
    ensures rel(r), r.from_table is None, wf(r), forall|y: int, x: int| in_area(r, y, x) <==> (row <= y <= to_row && col <= x <= to_col),
        r.from_row.row == row, r.from_col.col == col, r.to_row.row == to_row, r.to_col.col == to_col,
//@end
//@fn file=src/refs.rs path=CellRange::local as=local_rejects
//@params row col to_row to_col
//@ret r
//@subst assert!($e) ==> vp_rejects($e)
//@spec
    ensures row <= to_row, col <= to_col, wf(r),
//@end
//@fn file=src/refs.rs path=CellRange::remote
//@params table row col to_row to_col
//@ret r
//@subst assert!($e) ==> vp_holds($e)
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@subst $idx.into() ==> $idx
//@spec
    requires row <= to_row, col <= to_col,
    ensures rel(r), r.from_table == Some(table), wf(r), forall|y: int, x: int| in_area(r, y, x) <==> (row <= y <= to_row && col <= x <= to_col),
        r.from_row.row == row, r.from_col.col == col, r.to_row.row == to_row, r.to_col.col == to_col,
//@end
//@fn file=src/refs.rs path=CellRange::origin_span
//@params row col span
//@ret r
//@subst assert!($e) ==> vp_holds($e)
//@spec
    requires span.0 > 0, span.1 > 0, row + span.0 <= u32::MAX, col + span.1 <= u32::MAX,
    ensures rel(r), r.from_table is None, wf(r),
        // exactly span.0 rows by span.1 columns, starting at the origin.
        forall|y: int, x: int| in_area(r, y, x) <==> (row <= y < row + span.0 && col <= x < col + span.1),
//@end
//@fn file=src/refs.rs path=CellRange::origin_span as=origin_span_rejects
//@params row col span
//@ret r
//@subst assert!($e) ==> vp_rejects($e)
//@spec
    requires row + span.0 <= u32::MAX, col + span.1 <= u32::MAX,
    ensures span.0 > 0, span.1 > 0,
//@end
//@fn file=src/refs.rs path=CellRange::contains
//@params row col
//@ret r
//@spec
    ensures r == in_area(*self, row as int, col as int),
//@end
//@fn file=src/refs.rs path=CellRange::out_looped
//@params row col
//@ret r
//@spec
    requires wf(*self),
    ensures r == nothing_left(*self, row as int, col as int),
//@at start
    proof {
        let (y, x) = (self.to_row.row as int, self.to_col.col as int);
        assert(in_area(*self, y, x));
        if !(row > y || (row == y && col > x)) { assert(after_eq(y, x, row as int, col as int)); }
    }
//@end
}
impl ColRange {
//@fn file=src/refs.rs path=ColRange::contains
//@params col
//@ret r
//@spec
    ensures r == (self.from_col.col <= col && col <= self.to_col.col),
//@end
//@fn file=src/refs.rs path=ColRange::new
//@params from_col to_col
//@ret r
//@subst assert!($e) ==> vp_rejects($e)
//@spec
    ensures r.from_col.col == from_col, r.to_col.col == to_col, !r.from_col.col_abs, !r.to_col.col_abs, r.iri is None, r.from_table is None, r.to_table is None,
//@end
}
impl RowRange {
//@fn file=src/refs.rs path=RowRange::contains
//@params row
//@ret r
//@spec
    ensures r == (self.from_row.row <= row && row <= self.to_row.row),
//@end
//@fn file=src/refs.rs path=RowRange::new
//@params from_row to_row
//@ret r
//@subst assert!($e) ==> vp_rejects($e)
//@spec
    ensures r.from_row.row == from_row, r.to_row.row == to_row, !r.from_row.row_abs, !r.to_row.row_abs, r.iri is None, r.from_table is None, r.to_table is None,
//@end
}

impl Grouped {
//@fn file=src/sheet_.rs path=Grouped::new
//@params from to display
//@ret r
//@spec
    ensures r == mk(from, to, display),
//@end
//@fn file=src/sheet_.rs path=Grouped::from
//@ret r
//@spec
    ensures r == self.from,
//@end
//@fn file=src/sheet_.rs path=Grouped::to
//@ret r
//@spec
    ensures r == self.to,
//@end
//@fn file=src/sheet_.rs path=Grouped::display
//@ret r
//@spec
    ensures r == self.display,
//@end
//@fn file=src/sheet_.rs path=Grouped::set_from
//@params from
//@spec
    ensures *final(self) == mk(from, old(self).to, old(self).display),
//@end
//@fn file=src/sheet_.rs path=Grouped::set_to
//@params to
//@spec
    ensures *final(self) == mk(old(self).from, to, old(self).display),
//@end
//@fn file=src/sheet_.rs path=Grouped::set_display
//@params display
//@spec
    ensures *final(self) == mk(old(self).from, old(self).to, display),
//@end
//@fn file=src/sheet_.rs path=Grouped::contains
//@params other
//@ret r
//@spec
    ensures gwf(*self) && gwf(*other) ==> r == nested(*self, *other),
//@at start
    proof {
        assert(gwf(*other) ==> in_group(*other, other.from as int) && in_group(*other, other.to as int));
    }
//@end
//@fn file=src/sheet_.rs path=Grouped::disjunct
//@params other
//@ret r
//@spec
    ensures gwf(*self) && gwf(*other) ==> r == disjoint(*self, *other),
//@at start
    proof {
        let m = if self.from >= other.from { self.from as int } else { other.from as int };
        assert(in_group(*self, m) && in_group(*other, m) || self.to < other.from || other.to < self.from || !gwf(*self) || !gwf(*other));
    }
//@end
}

impl Sheet {
//@gsubst &self.group_cols { ==> self.group_cols.iter() {
//@gsubst &self.group_rows { ==> self.group_rows.iter() {
//@fn file=src/sheet_.rs path=Sheet::add_col_group loops=1
//@params from to
//@subst assert!($e) ==> vp_holds($e)
//@spec
    requires from <= to, all_compatible(mk(from, to, true), old(self).group_cols@), forall|k: int| 0 <= k < old(self).group_cols@.len() ==> gwf(#[trigger] old(self).group_cols@[k]),
    ensures final(self).group_cols@ == old(self).group_cols@.push(mk(from, to, true)), final(self).group_rows@ == old(self).group_rows@,
//@loop 0 it=it
        invariant *self == *old(self), it.seq() == Seq::new(old(self).group_cols@.len(), |k: int| &old(self).group_cols@[k]), grp == mk(from, to, true), from <= to,
            all_compatible(grp, old(self).group_cols@), forall|k: int| 0 <= k < old(self).group_cols@.len() ==> gwf(#[trigger] old(self).group_cols@[k]),
//@at loopstart 0
            proof { assert(compatible(grp, old(self).group_cols@[it.index@])); assert(gwf(old(self).group_cols@[it.index@])); }
//@end
//@fn file=src/sheet_.rs path=Sheet::add_col_group as=add_col_group_rejects loops=1
//@params from to
//@subst assert!($e) ==> vp_rejects($e)
//@spec
    requires forall|k: int| 0 <= k < old(self).group_cols@.len() ==> gwf(#[trigger] old(self).group_cols@[k]),
    ensures from <= to, all_compatible(mk(from, to, true), old(self).group_cols@),
//@loop 0 it=it
        invariant *self == *old(self), it.seq() == Seq::new(old(self).group_cols@.len(), |k: int| &old(self).group_cols@[k]), grp == mk(from, to, true), from <= to,
            forall|k: int| 0 <= k < it.index@ ==> compatible(grp, #[trigger] old(self).group_cols@[k]), forall|k: int| 0 <= k < old(self).group_cols@.len() ==> gwf(#[trigger] old(self).group_cols@[k]),
//@at loopstart 0
            proof { assert(gwf(old(self).group_cols@[it.index@])); }
//@end
//@fn file=src/sheet_.rs path=Sheet::add_row_group loops=1
//@params from to
//@subst assert!($e) ==> vp_holds($e)
//@spec
    requires from <= to, all_compatible(mk(from, to, true), old(self).group_rows@), forall|k: int| 0 <= k < old(self).group_rows@.len() ==> gwf(#[trigger] old(self).group_rows@[k]),
    ensures final(self).group_rows@ == old(self).group_rows@.push(mk(from, to, true)), final(self).group_cols@ == old(self).group_cols@,
//@loop 0 it=it
        invariant *self == *old(self), it.seq() == Seq::new(old(self).group_rows@.len(), |k: int| &old(self).group_rows@[k]), grp == mk(from, to, true), from <= to,
            all_compatible(grp, old(self).group_rows@), forall|k: int| 0 <= k < old(self).group_rows@.len() ==> gwf(#[trigger] old(self).group_rows@[k]),
//@at loopstart 0
            proof { assert(compatible(grp, old(self).group_rows@[it.index@])); assert(gwf(old(self).group_rows@[it.index@])); }
//@end
//@fn file=src/sheet_.rs path=Sheet::add_row_group as=add_row_group_rejects loops=1
//@params from to
//@subst assert!($e) ==> vp_rejects($e)
//@spec
    requires forall|k: int| 0 <= k < old(self).group_rows@.len() ==> gwf(#[trigger] old(self).group_rows@[k]),
    ensures from <= to, all_compatible(mk(from, to, true), old(self).group_rows@),
//@loop 0 it=it
        invariant *self == *old(self), it.seq() == Seq::new(old(self).group_rows@.len(), |k: int| &old(self).group_rows@[k]), grp == mk(from, to, true), from <= to,
            forall|k: int| 0 <= k < it.index@ ==> compatible(grp, #[trigger] old(self).group_rows@[k]), forall|k: int| 0 <= k < old(self).group_rows@.len() ==> gwf(#[trigger] old(self).group_rows@[k]),
//@at loopstart 0
            proof { assert(gwf(old(self).group_rows@[it.index@])); }
//@end
//@fn file=src/sheet_.rs path=Sheet::remove_col_group
//@params from to
//@subst self.group_cols.iter().position(|v| $e) ==> vp_position(&self.group_cols, |v: &Grouped| -> (b: bool) ensures b == ($e) { $e })
//@spec
    ensures final(self).group_rows == old(self).group_rows,
        !has_group(old(self).group_cols@, from, to) ==> final(self).group_cols@ == old(self).group_cols@,
        has_group(old(self).group_cols@, from, to) ==> final(self).group_cols@ == old(self).group_cols@.remove(first_group(old(self).group_cols@, from, to)),
//@at before 0 self.group_cols.remove
    proof {
        let s0 = old(self).group_cols@;
        assert(is_first(s0, from, to, idx as int)) by { assert forall|j: int| 0 <= j < idx implies !is_group(#[trigger] s0[j], from, to) by {} }
        assert(is_first(s0, from, to, first_group(s0, from, to)));
        lemma_first(s0, from, to, idx as int, first_group(s0, from, to));
    }
//@end
//@fn file=src/sheet_.rs path=Sheet::remove_row_group
//@params from to
//@subst self.group_rows.iter().position(|v| $e) ==> vp_position(&self.group_rows, |v: &Grouped| -> (b: bool) ensures b == ($e) { $e })
//@spec
    ensures final(self).group_cols == old(self).group_cols,
        !has_group(old(self).group_rows@, from, to) ==> final(self).group_rows@ == old(self).group_rows@,
        has_group(old(self).group_rows@, from, to) ==> final(self).group_rows@ == old(self).group_rows@.remove(first_group(old(self).group_rows@, from, to)),
//@at before 0 self.group_rows.remove
    proof {
        let s0 = old(self).group_rows@;
        assert(is_first(s0, from, to, idx as int)) by { assert forall|j: int| 0 <= j < idx implies !is_group(#[trigger] s0[j], from, to) by {} }
        assert(is_first(s0, from, to, first_group(s0, from, to)));
        lemma_first(s0, from, to, idx as int, first_group(s0, from, to));
    }
//@end
}

} // verus!
fn main() {}
