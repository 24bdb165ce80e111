//@include pre.rs
use std::collections::BTreeMap;
// C04: row and column settings belong to exactly one row/column.
verus! {

//@struct file=src/sheet_.rs name=Visibility attr=derive(Clone,Copy)
//@end
//@struct file=src/style/units.rs name=Length attr=derive(Clone,Copy)
//@end
//@struct file=src/sheet_.rs name=Grouped attr=derive(Clone,Copy)
//@end
//@struct file=src/sheet_.rs name=ColHeader
//@end
//@struct file=src/sheet_.rs name=RowHeader
//@end
//@struct file=src/sheet_.rs name=Sheet
//@keep col_header,row_header,group_rows,group_cols
//@end
// the style references are generated by a macro (style_ref2!): a name.
struct ColStyleRef { id: String }
struct RowStyleRef { id: String }
struct CellStyleRef { id: String }

//@include hdr_col.inc.rs
//@include hdr_row.inc.rs
spec fn cdef() -> ColHeader { ColHeader { style: None, cellstyle: None, visible: Visibility::Visible, width: Length::Default, span: 1 } }
spec fn rdef() -> RowHeader { RowHeader { style: None, cellstyle: None, visible: Visibility::Visible, repeat: 1, span: 1, height: Length::Default } }
spec fn cparts(h: ColHeader, b: u32, col: u32, l: Option<(u32, ColHeader)>, s: Option<(u32, ColHeader)>, r: Option<(u32, ColHeader)>) -> bool {
    &&& l == (if b < col { Some((b, cspan(h, (col - b) as u32))) } else { None })
    &&& s == Some((col, cspan(h, 1)))
    &&& r == (if col + 1 < b + h.span { Some(((col + 1) as u32, cspan(h, (b + h.span - (col + 1)) as u32))) } else { None })
}
// trusted: the greatest entry at or below k.
#[verifier::external_body]
fn vp_floor<V>(m: &BTreeMap<u32, V>, k: u32) -> (r: Option<(&u32, &V)>)
    ensures match r {
        None => forall|j: u32| #[trigger] m@.contains_key(j) ==> j > k,
        Some((b, v)) => m@.contains_key(*b) && m@[*b] == *v && *b <= k && forall|j: u32| #[trigger] m@.contains_key(j) && j <= k ==> j <= *b,
    }
{ m.range(..=k).last() }
#[verifier::external_body]
fn vp_clone<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
fn vp_within(a: u32, b: u32, x: u32) -> (r: bool) ensures r == (a <= x < b) { a <= x && x < b }
fn vp_vis_default() -> (r: Visibility) ensures r == Visibility::Visible { Visibility::Visible }
fn vp_len_default() -> (r: Length) ensures r == Length::Default { Length::Default }
fn vp_span_is_one(h: Option<&ColHeader>) -> (r: bool) ensures r == (h matches Some(v) && v.span == 1) { match h { Some(v) => v.span == 1, None => false } }

#[verifier::external_body]
fn vp_floor_mut<V>(m: &mut BTreeMap<u32, V>, k: u32) -> (r: Option<(&u32, &mut V)>)
    ensures match r {
        None => *final(m) == *old(m) && forall|j: u32| #[trigger] old(m)@.contains_key(j) ==> j > k,
        Some((b, v)) => old(m)@.contains_key(*b) && old(m)@[*b] == *v && *b <= k && (forall|j: u32| #[trigger] old(m)@.contains_key(j) && j <= k ==> j <= *b)
            && final(m)@ == old(m)@.insert(*b, *final(v)),
    }
{ unimplemented!() }
fn vp_holds(b: bool) requires b {}
fn vp_position<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: Option<usize>)
    requires forall|k: int| 0 <= k < v@.len() ==> call_requires(f, (&#[trigger] v@[k],)),
    ensures match r {
        Some(i) => i < v@.len() && call_ensures(f, (&v@[i as int],), true) && forall|k: int| 0 <= k < i ==> call_ensures(f, (&#[trigger] v@[k],), false),
        None => forall|k: int| 0 <= k < v@.len() ==> call_ensures(f, (&#[trigger] v@[k],), false),
    },
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|k: int| 0 <= k < v@.len() ==> call_requires(f, (&#[trigger] v@[k],)), forall|k: int| 0 <= k < i ==> call_ensures(f, (&#[trigger] v@[k],), false),
        decreases v@.len() - i,
    {
        if f(&v[i]) { return Some(i); }
        i += 1;
    }
    None
}
spec fn is_group(g: Grouped, from: u32, to: u32) -> bool { g.from == from && g.to == to }
spec fn has_group(s: Seq<Grouped>, from: u32, to: u32) -> bool { exists|k: int| 0 <= k < s.len() && is_group(#[trigger] s[k], from, to) }
spec fn is_first(s: Seq<Grouped>, from: u32, to: u32, k: int) -> bool { 0 <= k < s.len() && is_group(s[k], from, to) && forall|j: int| 0 <= j < k ==> !is_group(#[trigger] s[j], from, to) }
spec fn first_group(s: Seq<Grouped>, from: u32, to: u32) -> int { choose|k: int| is_first(s, from, to, k) }
proof fn lemma_first(s: Seq<Grouped>, from: u32, to: u32, a: int, b: int)
    requires is_first(s, from, to, a), is_first(s, from, to, b),
    ensures a == b,
{
    if a < b { assert(!is_group(s[a], from, to)); }
    if b < a { assert(!is_group(s[b], from, to)); }
}
spec fn ins(m: Map<u32, RowHeader>, s: Seq<(u32, RowHeader)>, n: nat) -> Map<u32, RowHeader>
    decreases n
{
    if n == 0 { m } else { ins(m, s, (n - 1) as nat).insert(s[n - 1].0, s[n - 1].1) }
}
spec fn vis_of(display: bool) -> Visibility { if display { Visibility::Visible } else { Visibility::Collapsed } }

impl ColHeader {
//@fn file=src/sheet_.rs path=ColHeader::default trait=Default
//@ret r
//@subst visible: Default::default() ==> visible: vp_vis_default()
//@subst width: Default::default() ==> width: vp_len_default()
//@spec
    ensures r == cdef(),
//@end
}
impl RowHeader {
//@fn file=src/sheet_.rs path=RowHeader::default trait=Default
//@ret r
//@subst visible: Default::default() ==> visible: vp_vis_default()
//@subst height: Default::default() ==> height: vp_len_default()
//@spec
    ensures r == rdef(),
//@end
}
impl Sheet {
//@fn file=src/sheet_.rs path=Sheet::valid_col_header
//@params col
//@ret r
//@subst self.col_header.range(..=$k).last() ==> vp_floor(&self.col_header, $k)
//@subst self.col_header.range(..=$k).next_back() ==> vp_floor(&self.col_header, $k)
//@subst ($a..$b).contains(&$x) ==> vp_within($a, $b, $x)
//@spec
    requires cwf(self.col_header@),
    ensures match r { Some(h) => cat(self.col_header@, col) == Some(cone(*h)), None => cat(self.col_header@, col) is None },
//@at start
    proof {
        lemma_clookup(self.col_header@, col);
    }
//@end
//@fn file=src/sheet_.rs path=Sheet::create_split_col_header
//@params col
//@ret r
//@subst self.col_header.get(&col).filter(|v| v.span == 1).is_none() ==> !vp_span_is_one(self.col_header.get(&col))
//@subst in &self.col_header { ==> in self.col_header.iter() {
//@subst col_header.clone() ==> vp_clone(col_header)
//@spec
    requires cwf(old(self).col_header@), col < u32::MAX,
    ensures
        *r == cat_or(old(self).col_header@, col),
        final(r).span == 1 ==> cset(old(self).col_header@, final(self).col_header@, col, *final(r)),
        final(self).row_header == old(self).row_header, final(self).group_cols == old(self).group_cols, final(self).group_rows == old(self).group_rows,
//@at before 0 self.col_header.get_mut(&col)
    proof {
        let m = old(self).col_header@;
        let m1 = self.col_header@;
        if exists|k: u32| ccov(m, k, col) {
            let k = choose|k: u32| ccov(m, k, col);
            lemma_cat(m, k, col);
            if m.contains_key(col) && m[col].span == 1 { assert(ccov(m, col, col)); } else { lemma_csplit(m, k, col); assert(m1 =~= csplit(m, k, col)); }
        } else {
            assert(m.contains_key(col) ==> ccov(m, col, col));
            lemma_cnew(m, col);
            assert(m1 =~= m.insert(col, cdef()));
        }
        lemma_cready(m, m1, col);
    }
//@loop 0 it=it
    invariant_except_break col_col is None, left_hdr is None, split_hdr is None, right_hdr is None,
        forall|k: int| 0 <= k < it.index@ ==> !ccov(self.col_header@, *(#[trigger] it.seq()[k]).0, col),
    invariant *self == *old(self), cwf(self.col_header@), col < u32::MAX,
        forall|k: int| 0 <= k < it.seq().len() ==> self.col_header@.contains_key(*(#[trigger] it.seq()[k]).0) && self.col_header@[*it.seq()[k].0] == *it.seq()[k].1,
        forall|j: u32| self.col_header@.contains_key(j) ==> exists|k: int| 0 <= k < it.seq().len() && *(#[trigger] it.seq()[k]).0 == j,
    ensures match col_col {
        Some(b) => ccov(self.col_header@, b, col) && cparts(self.col_header@[b], b, col, left_hdr, split_hdr, right_hdr),
        None => forall|j: u32| !ccov(self.col_header@, j, col),
    },
//@end
//@fn file=src/sheet_.rs path=Sheet::set_colstyle
//@params col style
//@subst style.clone() ==> vp_clone(style)
//@spec
    requires cwf(old(self).col_header@), col < u32::MAX,
    ensures cset(old(self).col_header@, final(self).col_header@, col, ColHeader { style: Some(*style), ..cat_or(old(self).col_header@, col) }),
        final(self).row_header == old(self).row_header, final(self).group_cols == old(self).group_cols, final(self).group_rows == old(self).group_rows,
//@end
//@fn file=src/sheet_.rs path=Sheet::clear_colstyle
//@params col
//@subst style.clone() ==> vp_clone(style)
//@spec
    requires cwf(old(self).col_header@), col < u32::MAX,
    ensures cset(old(self).col_header@, final(self).col_header@, col, ColHeader { style: None, ..cat_or(old(self).col_header@, col) }),
        final(self).row_header == old(self).row_header, final(self).group_cols == old(self).group_cols, final(self).group_rows == old(self).group_rows,
//@end
//@fn file=src/sheet_.rs path=Sheet::colstyle
//@params col
//@ret r
//@spec
    requires cwf(self.col_header@),
    ensures match r { Some(s) => cat_or(self.col_header@, col).style == Some(*s), None => cat_or(self.col_header@, col).style is None },
//@end
//@fn file=src/sheet_.rs path=Sheet::set_col_cellstyle
//@params col style
//@subst style.clone() ==> vp_clone(style)
//@spec
    requires cwf(old(self).col_header@), col < u32::MAX,
    ensures cset(old(self).col_header@, final(self).col_header@, col, ColHeader { cellstyle: Some(*style), ..cat_or(old(self).col_header@, col) }),
        final(self).row_header == old(self).row_header, final(self).group_cols == old(self).group_cols, final(self).group_rows == old(self).group_rows,
//@end
//@fn file=src/sheet_.rs path=Sheet::clear_col_cellstyle
//@params col
//@subst style.clone() ==> vp_clone(style)
//@spec
    requires cwf(old(self).col_header@), col < u32::MAX,
    ensures cset(old(self).col_header@, final(self).col_header@, col, ColHeader { cellstyle: None, ..cat_or(old(self).col_header@, col) }),
        final(self).row_header == old(self).row_header, final(self).group_cols == old(self).group_cols, final(self).group_rows == old(self).group_rows,
//@end
//@fn file=src/sheet_.rs path=Sheet::col_cellstyle
//@params col
//@ret r
//@spec
    requires cwf(self.col_header@),
    ensures match r { Some(s) => cat_or(self.col_header@, col).cellstyle == Some(*s), None => cat_or(self.col_header@, col).cellstyle is None },
//@end
//@fn file=src/sheet_.rs path=Sheet::set_col_visible
//@params col visible
//@subst style.clone() ==> vp_clone(style)
//@spec
    requires cwf(old(self).col_header@), col < u32::MAX,
    ensures cset(old(self).col_header@, final(self).col_header@, col, ColHeader { visible: visible, ..cat_or(old(self).col_header@, col) }),
        final(self).row_header == old(self).row_header, final(self).group_cols == old(self).group_cols, final(self).group_rows == old(self).group_rows,
//@end
//@fn file=src/sheet_.rs path=Sheet::col_visible
//@params col
//@ret r
//@subst Default::default() ==> vp_vis_default()
//@spec
    requires cwf(self.col_header@),
    ensures r == cat_or(self.col_header@, col).visible,
//@end
//@fn file=src/sheet_.rs path=Sheet::set_col_width
//@params col width
//@subst style.clone() ==> vp_clone(style)
//@spec
    requires cwf(old(self).col_header@), col < u32::MAX,
    ensures cset(old(self).col_header@, final(self).col_header@, col, ColHeader { width: width, ..cat_or(old(self).col_header@, col) }),
        final(self).row_header == old(self).row_header, final(self).group_cols == old(self).group_cols, final(self).group_rows == old(self).group_rows,
//@end
//@fn file=src/sheet_.rs path=Sheet::col_width
//@params col
//@ret r
//@spec
    requires cwf(self.col_header@),
    ensures r == cat_or(self.col_header@, col).width,
//@end
//@fn file=src/sheet_.rs path=Sheet::set_col_group_displayed loops=1
//@params from to display
//@subst self.group_cols.iter().position(|v| $e) ==> vp_position(&self.group_cols, |v: &Grouped| -> (b: bool) ensures b == ($e) { $e })
//@subst in from..=to { ==> in from..to + 1 {
//@spec
    requires cwf(old(self).col_header@), to < u32::MAX, from <= to,
    ensures final(self).row_header == old(self).row_header, final(self).group_rows == old(self).group_rows,
        cwf(final(self).col_header@),
        final(self).group_cols@.len() == old(self).group_cols@.len(),
        // without such a group nothing changes
        !has_group(old(self).group_cols@, from, to) ==> *final(self) == *old(self),
        // only the flag of this group and the visibility of its cols changes.
        has_group(old(self).group_cols@, from, to) ==> {
            let g = first_group(old(self).group_cols@, from, to);
            &&& final(self).group_cols@ == old(self).group_cols@.update(g, Grouped { from: from, to: to, display: display })
            &&& forall|i: u32| cat(final(self).col_header@, i) == if from <= i <= to { Some(ColHeader { visible: vis_of(display), ..cat_or(old(self).col_header@, i) }) } else { cat(old(self).col_header@, i) }
        },
//@at beforeloop 0
            let ghost gs = self.group_cols@;
            proof {
                let s0 = old(self).group_cols@;
                assert(is_first(s0, from, to, idx as int)) by { assert forall|j: int| 0 <= j < idx implies !is_group(#[trigger] s0[j], from, to) by {} }
                assert(is_first(s0, from, to, first_group(s0, from, to)));
                lemma_first(s0, from, to, idx as int, first_group(s0, from, to));
                assert(gs =~= s0.update(idx as int, Grouped { from: from, to: to, display: display }));
            }
//@loop 0 it=it
    invariant self.row_header == old(self).row_header, self.group_rows == old(self).group_rows, self.group_cols@ == gs,
        cwf(self.col_header@), to < u32::MAX, from <= to, it.seq().len() == to + 1 - from, it.index@ <= it.seq().len(), forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == from + k,
        forall|i: u32| cat(self.col_header@, i) == if from <= i < from + it.index@ { Some(ColHeader { visible: vis_of(display), ..cat_or(old(self).col_header@, i) }) } else { cat(old(self).col_header@, i) },
//@end
//@fn file=src/sheet_.rs path=Sheet::valid_row_header
//@params row
//@ret r
//@subst self.row_header.range(..=$k).last() ==> vp_floor(&self.row_header, $k)
//@subst self.row_header.range(..=$k).next_back() ==> vp_floor(&self.row_header, $k)
//@subst ($a..$b).contains(&$x) ==> vp_within($a, $b, $x)
//@spec
    requires rwf(self.row_header@),
    ensures match r { Some(h) => rat(self.row_header@, row) == Some(rone(*h)), None => rat(self.row_header@, row) is None },
//@at start
    proof { lemma_rlookup(self.row_header@, row); }
//@end
//@fn file=src/sheet_.rs path=Sheet::create_split_row_header
//@params row
//@ret r
//@subst self.row_header.range_mut(..=$k).last() ==> vp_floor_mut(&mut self.row_header, $k)
//@subst self.row_header.range_mut(..=$k).next_back() ==> vp_floor_mut(&mut self.row_header, $k)
//@subst ($a..$b).contains(&$x) ==> vp_within($a, $b, $x)
//@subst row_header.clone() ==> vp_clone(row_header)
//@spec
    requires rwf(old(self).row_header@), row < u32::MAX,
    ensures
        *r == rat_or(old(self).row_header@, row),
        final(r).span == 1 ==> rset(old(self).row_header@, final(self).row_header@, row, *final(r)),
        final(self).col_header == old(self).col_header, final(self).group_cols == old(self).group_cols, final(self).group_rows == old(self).group_rows,
//@at beforeloop 0
    let ghost m0 = self.row_header@;
    let ghost cl = cloned@;
//@loop 0 it=it
    invariant self.col_header == old(self).col_header, self.group_cols == old(self).group_cols, self.group_rows == old(self).group_rows,
        it.seq() == cl, self.row_header@ == ins(m0, cl, it.index@ as nat),
//@at before 0 self.row_header.get_mut(&row)
    proof {
        let m = old(self).row_header@;
        let m1 = self.row_header@;
        reveal_with_fuel(ins, 4);
        if exists|k: u32| rcov(m, k, row) {
            let k = choose|k: u32| rcov(m, k, row);
            lemma_rat(m, k, row);
            lemma_rlookup(m, row);
            lemma_rsplit(m, k, row);
            assert(m1 =~= rsplit(m, k, row));
        } else {
            assert(m.contains_key(row) ==> rcov(m, row, row));
            lemma_rnew(m, row);
            assert forall|k: u32| #[trigger] m.contains_key(k) implies !(k <= row && row < k + m[k].span) by { assert(!rcov(m, k, row)); }
            assert(m1 =~= m.insert(row, rdef()));
        }
        lemma_rready(m, m1, row);
    }
//@end
//@fn file=src/sheet_.rs path=Sheet::set_rowstyle
//@params row style
//@subst style.clone() ==> vp_clone(style)
//@spec
    requires rwf(old(self).row_header@), row < u32::MAX,
    ensures rset(old(self).row_header@, final(self).row_header@, row, RowHeader { style: Some(*style), ..rat_or(old(self).row_header@, row) }),
        final(self).col_header == old(self).col_header, final(self).group_cols == old(self).group_cols, final(self).group_rows == old(self).group_rows,
//@end
//@fn file=src/sheet_.rs path=Sheet::clear_rowstyle
//@params row
//@subst style.clone() ==> vp_clone(style)
//@spec
    requires rwf(old(self).row_header@), row < u32::MAX,
    ensures rset(old(self).row_header@, final(self).row_header@, row, RowHeader { style: None, ..rat_or(old(self).row_header@, row) }),
        final(self).col_header == old(self).col_header, final(self).group_cols == old(self).group_cols, final(self).group_rows == old(self).group_rows,
//@end
//@fn file=src/sheet_.rs path=Sheet::rowstyle
//@params row
//@ret r
//@spec
    requires rwf(self.row_header@),
    ensures match r { Some(s) => rat_or(self.row_header@, row).style == Some(*s), None => rat_or(self.row_header@, row).style is None },
//@end
//@fn file=src/sheet_.rs path=Sheet::set_row_cellstyle
//@params row style
//@subst style.clone() ==> vp_clone(style)
//@spec
    requires rwf(old(self).row_header@), row < u32::MAX,
    ensures rset(old(self).row_header@, final(self).row_header@, row, RowHeader { cellstyle: Some(*style), ..rat_or(old(self).row_header@, row) }),
        final(self).col_header == old(self).col_header, final(self).group_cols == old(self).group_cols, final(self).group_rows == old(self).group_rows,
//@end
//@fn file=src/sheet_.rs path=Sheet::clear_row_cellstyle
//@params row
//@subst style.clone() ==> vp_clone(style)
//@spec
    requires rwf(old(self).row_header@), row < u32::MAX,
    ensures rset(old(self).row_header@, final(self).row_header@, row, RowHeader { cellstyle: None, ..rat_or(old(self).row_header@, row) }),
        final(self).col_header == old(self).col_header, final(self).group_cols == old(self).group_cols, final(self).group_rows == old(self).group_rows,
//@end
//@fn file=src/sheet_.rs path=Sheet::row_cellstyle
//@params row
//@ret r
//@spec
    requires rwf(self.row_header@),
    ensures match r { Some(s) => rat_or(self.row_header@, row).cellstyle == Some(*s), None => rat_or(self.row_header@, row).cellstyle is None },
//@end
//@fn file=src/sheet_.rs path=Sheet::set_row_visible
//@params row visible
//@subst style.clone() ==> vp_clone(style)
//@spec
    requires rwf(old(self).row_header@), row < u32::MAX,
    ensures rset(old(self).row_header@, final(self).row_header@, row, RowHeader { visible: visible, ..rat_or(old(self).row_header@, row) }),
        final(self).col_header == old(self).col_header, final(self).group_cols == old(self).group_cols, final(self).group_rows == old(self).group_rows,
//@end
//@fn file=src/sheet_.rs path=Sheet::row_visible
//@params row
//@ret r
//@subst Default::default() ==> vp_vis_default()
//@spec
    requires rwf(self.row_header@),
    ensures r == rat_or(self.row_header@, row).visible,
//@end
//@fn file=src/sheet_.rs path=Sheet::set_row_height
//@params row height
//@subst style.clone() ==> vp_clone(style)
//@spec
    requires rwf(old(self).row_header@), row < u32::MAX,
    ensures rset(old(self).row_header@, final(self).row_header@, row, RowHeader { height: height, ..rat_or(old(self).row_header@, row) }),
        final(self).col_header == old(self).col_header, final(self).group_cols == old(self).group_cols, final(self).group_rows == old(self).group_rows,
//@end
//@fn file=src/sheet_.rs path=Sheet::row_height
//@params row
//@ret r
//@spec
    requires rwf(self.row_header@),
    ensures r == rat_or(self.row_header@, row).height,
//@end
//@fn file=src/sheet_.rs path=Sheet::set_row_repeat
//@params row repeat
//@subst assert!($e) ==> vp_holds($e)
//@subst style.clone() ==> vp_clone(style)
//@spec
    requires rwf(old(self).row_header@), row < u32::MAX, repeat > 0,
    ensures rset(old(self).row_header@, final(self).row_header@, row, RowHeader { repeat: repeat, ..rat_or(old(self).row_header@, row) }),
        final(self).col_header == old(self).col_header, final(self).group_cols == old(self).group_cols, final(self).group_rows == old(self).group_rows,
//@end
//@fn file=src/sheet_.rs path=Sheet::row_repeat
//@params row
//@ret r
//@subst Default::default() ==> 0
//@spec
    requires rwf(self.row_header@),
    ensures rat(self.row_header@, row) matches Some(h) ==> r == h.repeat,
//@end
//@fn file=src/sheet_.rs path=Sheet::set_row_group_displayed loops=1
//@params from to display
//@subst self.group_rows.iter().position(|v| $e) ==> vp_position(&self.group_rows, |v: &Grouped| -> (b: bool) ensures b == ($e) { $e })
//@subst in from..=to { ==> in from..to + 1 {
//@spec
    requires rwf(old(self).row_header@), to < u32::MAX, from <= to,
    ensures final(self).col_header == old(self).col_header, final(self).group_cols == old(self).group_cols,
        rwf(final(self).row_header@),
        final(self).group_rows@.len() == old(self).group_rows@.len(),
        // without such a group nothing changes
        !has_group(old(self).group_rows@, from, to) ==> *final(self) == *old(self),
        // only the flag of this group and the visibility of its rows changes.
        has_group(old(self).group_rows@, from, to) ==> {
            let g = first_group(old(self).group_rows@, from, to);
            &&& final(self).group_rows@ == old(self).group_rows@.update(g, Grouped { from: from, to: to, display: display })
            &&& forall|i: u32| rat(final(self).row_header@, i) == if from <= i <= to { Some(RowHeader { visible: vis_of(display), ..rat_or(old(self).row_header@, i) }) } else { rat(old(self).row_header@, i) }
        },
//@at beforeloop 0
            let ghost gs = self.group_rows@;
            proof {
                let s0 = old(self).group_rows@;
                assert(is_first(s0, from, to, idx as int)) by { assert forall|j: int| 0 <= j < idx implies !is_group(#[trigger] s0[j], from, to) by {} }
                assert(is_first(s0, from, to, first_group(s0, from, to)));
                lemma_first(s0, from, to, idx as int, first_group(s0, from, to));
                assert(gs =~= s0.update(idx as int, Grouped { from: from, to: to, display: display }));
            }
//@loop 0 it=it
    invariant self.col_header == old(self).col_header, self.group_cols == old(self).group_cols, self.group_rows@ == gs,
        rwf(self.row_header@), to < u32::MAX, from <= to, it.seq().len() == to + 1 - from, it.index@ <= it.seq().len(), forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == from + k,
        forall|i: u32| rat(self.row_header@, i) == if from <= i < from + it.index@ { Some(RowHeader { visible: vis_of(display), ..rat_or(old(self).row_header@, i) }) } else { rat(old(self).row_header@, i) },
//@end
}

} // verus!
fn main() {}
