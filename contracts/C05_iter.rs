//@include pre.rs
use std::collections::BTreeMap;
use std::ops::{Bound, RangeBounds};
// C05: iteration yields exactly the cells of the requested area.
verus! {
//@include cellview.inc.rs

// ------------------------------------------------------------------ trusted: the iterators of BTreeMap
type Pos = (u32, u32);
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
struct VpIter<'a, V> { _x: &'a V }
/// entries of a sorted map that are still to come
uninterp spec fn rest<V>(i: VpIter<'_, V>) -> Seq<(Pos, V)>;
impl<'a, V> VpIter<'a, V> {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(&'a Pos, &'a V)>)
        ensures match r {
            None => rest(*old(self)).len() == 0 && *final(self) == *old(self),
            Some((k, v)) => rest(*old(self)).len() > 0 && (*k, *v) == rest(*old(self))[0] && rest(*final(self)) == rest(*old(self)).drop_first(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn next_back(&mut self) -> (r: Option<(&'a Pos, &'a V)>)
        ensures match r {
            None => rest(*old(self)).len() == 0 && *final(self) == *old(self),
            Some((k, v)) => rest(*old(self)).len() > 0 && (*k, *v) == rest(*old(self)).last() && rest(*final(self)) == rest(*old(self)).drop_last(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == rest(*self).len() { unimplemented!() }
}
spec fn pos_lt(a: Pos, b: Pos) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
type Bounds = (Bound<Pos>, Bound<Pos>);
spec fn lo_ok(b: Bound<Pos>, k: Pos) -> bool { match b { Bound::Included(x) => !pos_lt(k, x), Bound::Excluded(x) => pos_lt(x, k), Bound::Unbounded => true } }
spec fn hi_ok(b: Bound<Pos>, k: Pos) -> bool { match b { Bound::Included(x) => !pos_lt(x, k), Bound::Excluded(x) => pos_lt(k, x), Bound::Unbounded => true } }
spec fn sorted<V>(s: Seq<(Pos, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> pos_lt((#[trigger] s[i]).0, (#[trigger] s[j]).0) }
spec fn entries<V>(s: Seq<(Pos, V)>, m: Map<Pos, V>, b: Bounds) -> bool {
    &&& sorted(s)
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1 && lo_ok(b.0, s[i].0) && hi_ok(b.1, s[i].0)
    &&& forall|k: Pos| #[trigger] m.contains_key(k) && lo_ok(b.0, k) && hi_ok(b.1, k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
#[verifier::external_body]
fn vp_range<'a, V>(m: &'a BTreeMap<Pos, V>, b: Bounds) -> (r: VpIter<'a, V>) ensures entries(rest(r), m@, b) { unimplemented!() }
#[verifier::external_body]
fn vp_iter<'a, V>(m: &'a BTreeMap<Pos, V>) -> (r: VpIter<'a, V>) ensures entries(rest(r), m@, (Bound::Unbounded, Bound::Unbounded)), rest(r).len() == m@.len() { unimplemented!() }
/// Iterator::fold over the keys of a map
#[verifier::external_body]
fn vp_fold_keys<V, F: Fn(Pos, &Pos) -> Pos>(m: &BTreeMap<Pos, V>, init: Pos, f: F) -> (r: Pos)
    requires forall|a: Pos, k: Pos| call_requires(f, (a, &k)),
    ensures exists|acc: Seq<Pos>, ks: Seq<Pos>| #[trigger] folds(f, init, m@.dom(), acc, ks) && r == acc.last(),
{ unimplemented!() }
spec fn folds<F: Fn(Pos, &Pos) -> Pos>(f: F, init: Pos, dom: Set<Pos>, acc: Seq<Pos>, ks: Seq<Pos>) -> bool {
    &&& acc.len() == ks.len() + 1 && acc[0] == init
    &&& forall|k: Pos| #[trigger] dom.contains(k) <==> ks.contains(k)
    &&& forall|i: int| 0 <= i < ks.len() ==> call_ensures(f, (#[trigger] acc[i], &ks[i]), acc[i + 1])
}
fn vp_copied(o: Option<&Pos>) -> (r: Option<Pos>) ensures r == deref(o) { match o { Some(x) => Some(*x), None => None } }
fn vp_from_bool(b: bool) -> (r: usize) ensures r == (if b { 1usize } else { 0usize }) { if b { 1 } else { 0 } }
fn vp_max(a: u32, b: u32) -> (r: u32) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }

// ------------------------------------------------------------------ specification
/// the half open rectangle start..end
spec fn in_box(k: Pos, start: Pos, end: Pos) -> bool { start.0 <= k.0 < end.0 && start.1 <= k.1 < end.1 }
spec fn first_row(b: Bound<Pos>) -> Pos { match b { Bound::Included(x) => x, Bound::Excluded(x) => ((x.0 + 1) as u32, (x.1 + 1) as u32), Bound::Unbounded => (0, 0) } }
spec fn end_ok<V>(b: Bound<Pos>, m: Map<Pos, V>, e: Pos) -> bool { match b { Bound::Included(x) => e == ((x.0 + 1) as u32, (x.1 + 1) as u32), Bound::Excluded(x) => e == x, Bound::Unbounded => is_grid_size(m, e) } }
/// one past the last used row and column, never less than 1.
spec fn is_grid_size<V>(m: Map<Pos, V>, g: Pos) -> bool {
    &&& g.0 >= 1 && g.1 >= 1
    &&& forall|k: Pos| #[trigger] m.contains_key(k) ==> k.0 < g.0 && k.1 < g.1
    &&& g.0 == 1 || exists|k: Pos| #[trigger] m.contains_key(k) && k.0 + 1 == g.0
    &&& g.1 == 1 || exists|k: Pos| #[trigger] m.contains_key(k) && k.1 + 1 == g.1
}
/// index values below the maximum
spec fn small<V>(m: Map<Pos, V>) -> bool { forall|k: Pos| #[trigger] m.contains_key(k) ==> k.0 < u32::MAX && k.1 < u32::MAX }
spec fn bound_small(b: Bound<Pos>) -> bool { match b { Bound::Included(x) => x.0 < u32::MAX && x.1 < u32::MAX, Bound::Excluded(x) => x.0 < u32::MAX && x.1 < u32::MAX, Bound::Unbounded => true } }
/// column-wise order
spec fn col_lt(a: Pos, b: Pos) -> bool { a.1 < b.1 || (a.1 == b.1 && a.0 < b.0) }

proof fn lemma_folds_max<F: Fn(Pos, &Pos) -> Pos>(f: F, dom: Set<Pos>, acc: Seq<Pos>, ks: Seq<Pos>, n: int)
    requires folds(f, (0u32, 0u32), dom, acc, ks), 0 <= n <= ks.len(),
        forall|a: Pos, k: Pos, o: Pos| #[trigger] call_ensures(f, (a, &k), o) ==> o.0 == (if a.0 >= k.0 { a.0 } else { k.0 }) && o.1 == (if a.1 >= k.1 { a.1 } else { k.1 }),
    ensures forall|i: int| 0 <= i < n ==> (#[trigger] ks[i]).0 <= acc[n].0 && ks[i].1 <= acc[n].1,
        acc[n].0 == 0 || exists|i: int| 0 <= i < n && (#[trigger] ks[i]).0 == acc[n].0,
        acc[n].1 == 0 || exists|i: int| 0 <= i < n && (#[trigger] ks[i]).1 == acc[n].1,
    decreases n,
{
    if n > 0 {
        lemma_folds_max(f, dom, acc, ks, n - 1);
        assert(call_ensures(f, (acc[n - 1], &ks[n - 1]), acc[n - 1 + 1]));
        if acc[n].0 != 0 { if acc[n].0 == ks[n - 1].0 {} else { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] ks[i]).0 == acc[n - 1].0; assert(ks[i].0 == acc[n].0); } }
        if acc[n].1 != 0 { if acc[n].1 == ks[n - 1].1 {} else { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] ks[i]).1 == acc[n - 1].1; assert(ks[i].1 == acc[n].1); } }
    }
}

proof fn lemma_grid<F: Fn(Pos, &Pos) -> Pos, V>(f: F, m: Map<Pos, V>, acc: Seq<Pos>, ks: Seq<Pos>)
    requires folds(f, (0u32, 0u32), m.dom(), acc, ks), small(m),
        forall|a: Pos, k: Pos, o: Pos| #[trigger] call_ensures(f, (a, &k), o) ==> o.0 == (if a.0 >= k.0 { a.0 } else { k.0 }) && o.1 == (if a.1 >= k.1 { a.1 } else { k.1 }),
    ensures acc.last().0 < u32::MAX, acc.last().1 < u32::MAX, is_grid_size(m, ((acc.last().0 + 1) as u32, (acc.last().1 + 1) as u32)),
{
    lemma_folds_max(f, m.dom(), acc, ks, ks.len() as int);
    let a = acc.last();
    assert forall|i: int| 0 <= i < ks.len() implies m.contains_key(#[trigger] ks[i]) by { assert(ks.contains(ks[i])); assert(m.dom().contains(ks[i])); }
    if a.0 != 0 { let i = choose|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).0 == a.0; assert(m.contains_key(ks[i])); }
    if a.1 != 0 { let i = choose|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).1 == a.1; assert(m.contains_key(ks[i])); }
    assert forall|k: Pos| #[trigger] m.contains_key(k) implies k.0 <= a.0 && k.1 <= a.1 by { assert(m.dom().contains(k)); assert(ks.contains(k)); }
}
global size_of usize == 8;
proof fn lemma_mul()
    ensures forall|a: int, b: int| 0 <= a <= 0xffff_ffff && 0 <= b <= 0xffff_ffff ==> 0 <= #[trigger] (a * b) <= 0xffff_fffe_0000_0001,
{
    assert forall|a: int, b: int| 0 <= a <= 0xffff_ffff && 0 <= b <= 0xffff_ffff implies 0 <= #[trigger] (a * b) <= 0xffff_fffe_0000_0001 by { assert(0 <= a * b <= 0xffff_fffe_0000_0001) by (nonlinear_arith) requires 0 <= a <= 0xffff_ffff, 0 <= b <= 0xffff_ffff; }
}
/// a range with an inclusive or open start: every cell of the rectangle comes up, and no row before the first.
proof fn theorem_rows_of_a_range<V>(s: Seq<(Pos, V)>, m: Map<Pos, V>, b: Bounds, end: Pos)
    requires entries(s, m, b), end_ok(b.1, m, end), !(b.0 is Excluded), bound_small(b.0), bound_small(b.1),
    ensures forall|k: Pos| #[trigger] m.contains_key(k) && in_box(k, first_row(b.0), end) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k,
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.0 >= first_row(b.0).0,
        forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1,
        sorted(s),
{
}
//@gsubst std::collections::btree_map::Range<'a, (u32, u32), CellData> ==> VpIter<'a, CellData>
//@gsubst std::collections::btree_map::Iter<'a, (u32, u32), CellData> ==> VpIter<'a, CellData>
//@gsubst Option<Self::Item> ==> Option<(Pos, CellContentRef<'a>)>
//@struct file=src/sheet_.rs name=IterRows
//@end
//@struct file=src/sheet_.rs name=IterCols
//@end
//@struct file=src/sheet_.rs name=CellIter
//@end
//@struct file=src/sheet_.rs name=Range
//@end

impl Sheet {
//@fn file=src/sheet_.rs path=Sheet::cell_ref
//@params row col
//@ret r
//@subst self.data.get($k).map(CellData::cell_content_ref) ==> vp_map_ref(self.data.get($k))
//@spec
    ensures match r { Some(c) => self.data@.contains_key((row, col)) && rv(c) == dv(self.data@[(row, col)]), None => !self.data@.contains_key((row, col)) },
//@end
//@fn file=src/sheet_.rs path=Sheet::used_grid_size
//@ret r
//@subst self.data.keys().fold((0, 0), |mut max, (r, c)| $b) ==> { let vp_f = |max0: Pos, rc: &Pos| -> (o: Pos) ensures o.0 == (if max0.0 >= rc.0 { max0.0 } else { rc.0 }), o.1 == (if max0.1 >= rc.1 { max0.1 } else { rc.1 }) { let mut max = max0; let (r, c) = rc; $b }; let ghost g = vp_f; let vp_r = vp_fold_keys(&self.data, (0, 0), vp_f); proof { let (acc, ks) = choose|acc: Seq<Pos>, ks: Seq<Pos>| #[trigger] folds(g, (0u32, 0u32), self.data@.dom(), acc, ks) && vp_r == acc.last(); lemma_grid(g, self.data@, acc, ks); } vp_r }
//@subst u32::max($a, $b) ==> vp_max($a, $b)
//@spec
    requires small(self.data@),
    ensures is_grid_size(self.data@, r),
//@end
}
impl<'a> IterRows<'a> {
//@fn file=src/sheet_.rs path=IterRows::new
//@params sheet range
//@ret r
//@subst <R: RangeBounds<(u32, u32)>> ==>
//@subst range: R ==> range: Bounds
//@subst sheet.data.range($x) ==> vp_range(&sheet.data, $x)
//@spec
    requires bound_small(range.0), bound_small(range.1), small(sheet.data@),
    ensures entries(rest(r.iter), sheet.data@, range),
        r.start == first_row(range.0), end_ok(range.1, sheet.data@, r.end),
//@at start
    proof { lemma_mul(); }
//@end
//@fn file=src/sheet_.rs path=IterRows::next trait=Iterator
//@ret r
//@subst d.cell_content_ref() ==> d.cell_content_ref()
//@spec
    requires sorted(rest(old(self).iter)), forall|i: int| 0 <= i < rest(old(self).iter).len() ==> (#[trigger] rest(old(self).iter)[i]).0.0 >= old(self).start.0,
    ensures final(self).start == old(self).start, final(self).end == old(self).end,
        // the next cell of the area in row-major order, nothing is left out.
        match r {
            Some((k, c)) => exists|n: int| 0 <= n < rest(old(self).iter).len() && #[trigger] rest(old(self).iter)[n].0 == k && rv(c) == dv(rest(old(self).iter)[n].1) && in_box(k, old(self).start, old(self).end)
                && rest(final(self).iter) == rest(old(self).iter).skip(n + 1)
                && forall|i: int| 0 <= i < n ==> !in_box((#[trigger] rest(old(self).iter)[i]).0, old(self).start, old(self).end),
            None => forall|i: int| 0 <= i < rest(old(self).iter).len() ==> !in_box((#[trigger] rest(old(self).iter)[i]).0, old(self).start, old(self).end),
        },
//@at beforeloop 0
    let ghost mut n: int = 0;
    let ghost s0 = rest(self.iter);
    proof { assert(s0.skip(0) =~= s0); }
//@loop 0
        invariant self.start == old(self).start, self.end == old(self).end, s0 == rest(old(self).iter), 0 <= n <= s0.len(), rest(self.iter) == s0.skip(n),
            forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i]).0.0 >= self.start.0,
            forall|i: int| 0 <= i < n ==> !in_box((#[trigger] s0[i]).0, self.start, self.end),
        decreases s0.len() - n,
//@at loopstart 0
            proof { if n < s0.len() { assert(s0.skip(n)[0] == s0[n]); assert(s0.skip(n).drop_first() =~= s0.skip(n + 1)); n = n + 1; } }
//@end
}
spec fn ic_ok(i: IterCols<'_>) -> bool { i.cell.0 < i.end.0 || i.start.0 >= i.end.0 }
impl<'a> IterCols<'a> {
//@fn file=src/sheet_.rs path=IterCols::new
//@params sheet range
//@ret r
//@subst <R: RangeBounds<(u32, u32)>> ==>
//@subst range: R ==> range: Bounds
//@spec
    requires bound_small(range.0), bound_small(range.1), small(sheet.data@),
    ensures r.sheet == sheet, r.cell == r.start, ic_ok(r),
        r.start == first_row(range.0), end_ok(range.1, sheet.data@, r.end),
//@end
//@fn file=src/sheet_.rs path=IterCols::next trait=Iterator
//@ret r
//@spec
    requires old(self).start.0 <= old(self).cell.0, old(self).start.1 <= old(self).cell.1, ic_ok(*old(self)),
    ensures final(self).start == old(self).start, final(self).end == old(self).end, final(self).sheet == old(self).sheet,
        final(self).start.0 <= final(self).cell.0, final(self).start.1 <= final(self).cell.1, ic_ok(*final(self)),
        // the next cell of the area in column-major order, nothing is left out.
        match r {
            Some((k, c)) => in_box(k, old(self).start, old(self).end) && !col_lt(k, old(self).cell) && old(self).sheet.data@.contains_key(k) && rv(c) == dv(old(self).sheet.data@[k])
                && (forall|j: Pos| #[trigger] old(self).sheet.data@.contains_key(j) && in_box(j, old(self).start, old(self).end) ==> col_lt(j, old(self).cell) || !col_lt(j, k))
                // continues right behind it.
                && (forall|j: Pos| in_box(j, old(self).start, old(self).end) ==> (#[trigger] col_lt(j, final(self).cell) <==> !col_lt(k, j))),
            None => forall|j: Pos| #[trigger] old(self).sheet.data@.contains_key(j) && in_box(j, old(self).start, old(self).end) ==> col_lt(j, old(self).cell),
        },
//@loop 0
        invariant self.start == old(self).start, self.end == old(self).end, self.sheet == old(self).sheet, self.start.0 <= self.cell.0, self.start.1 <= self.cell.1, ic_ok(*self),
            !col_lt(self.cell, old(self).cell) || self.cell.0 >= self.end.0 || self.cell.1 >= self.end.1,
            forall|j: Pos| #[trigger] self.sheet.data@.contains_key(j) && in_box(j, self.start, self.end) ==> col_lt(j, old(self).cell) || !col_lt(j, self.cell),
            self.cell == old(self).cell || !col_lt(self.cell, old(self).cell),
        decreases self.end.1 - self.cell.1, self.end.0 - self.cell.0,
//@end
}
impl<'a> Range<'a> {
//@fn file=src/sheet_.rs path=Range::next trait=Iterator
//@ret r
//@spec
    ensures match r {
            None => rest(old(self).range).len() == 0,
            Some((k, c)) => rest(old(self).range).len() > 0 && k == rest(old(self).range)[0].0 && rv(c) == dv(rest(old(self).range)[0].1) && rest(final(self).range) == rest(old(self).range).drop_first(),
        },
//@end
//@fn file=src/sheet_.rs path=Range::next_back trait=DoubleEndedIterator
//@ret r
//@spec
    ensures match r {
            None => rest(old(self).range).len() == 0,
            Some((k, c)) => rest(old(self).range).len() > 0 && k == rest(old(self).range).last().0 && rv(c) == dv(rest(old(self).range).last().1) && rest(final(self).range) == rest(old(self).range).drop_last(),
        },
//@end
}
/// cells a CellIter has still to yield: the one already loaded and the rest.
spec fn left(i: CellIter<'_>) -> Seq<(Pos, CellData)> {
    match (i.k_data, i.v_data) { (Some(k), Some(v)) => seq![(*k, *v)] + rest(i.iter), _ => rest(i.iter) }
}
spec fn ci_wf(i: CellIter<'_>) -> bool { i.k_data is Some <==> i.v_data is Some }
impl<'a> CellIter<'a> {
//@fn file=src/sheet_.rs path=CellIter::load_next_data
//@spec
    requires ci_wf(*old(self)),
    ensures ci_wf(*final(self)), left(*final(self)) =~= rest(old(self).iter), final(self).k_data is None ==> left(*final(self)).len() == 0,
//@end
//@fn file=src/sheet_.rs path=CellIter::peek_cell
//@ret r
//@subst self.k_data.copied() ==> vp_copied(self.k_data)
//@spec
    ensures r == deref(old(self).k_data), *final(self) == *old(self),
//@end
//@fn file=src/sheet_.rs path=CellIter::next trait=Iterator
//@ret r
//@spec
    requires ci_wf(*old(self)),
    ensures ci_wf(*final(self)),
        match r {
            None => left(*old(self)).len() == 0,
            Some((k, c)) => left(*old(self)).len() > 0 && k == left(*old(self))[0].0 && rv(c) == dv(left(*old(self))[0].1) && left(*final(self)) =~= left(*old(self)).drop_first(),
        },
//@end
//@fn file=src/sheet_.rs path=CellIter::size_hint trait=Iterator
//@ret r
//@subst usize::from($e) ==> vp_from_bool($e)
//@spec
    requires ci_wf(*self), rest(self.iter).len() < usize::MAX,
    ensures r.0 == left(*self).len(), r.1 == Some(r.0),
//@end
}
} // verus!
fn main() {}
