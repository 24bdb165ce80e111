// ------------------------------------------------------------------ model of the written table
// The XML writer (unit C10_xml proves what it puts out) as the machine that an ODF reader runs over the
// elements and attributes it writes: rows and cells have no address in the file, their position is the
// sum of the repeat counts before them.
type Nm = Seq<char>;
type Am = Map<Seq<char>, Seq<char>>;
ghost enum K { Table, Row, Cell, Covered, Column, Other, In, Closed }
ghost enum Tok { Open(Nm), Empty(Nm), Attr(Nm, Seq<char>), Text(Seq<char>), End(Nm), Tree(XmlTag), Note(Annotation), Frame(DrawFrame) }
ghost struct Cel { row: int, rown: int, col: int, coln: int, covered: bool, attrs: Am, body: Seq<Tok> }
ghost struct RowEv { row: int, rown: int, attrs: Am, hdr: bool }
ghost struct ColEv { col: int, coln: int, attrs: Am, hdr: bool }
ghost struct G {
    /// open elements
    stack: Seq<Nm>,
    /// the element that takes attributes
    cur: K,
    /// inside a row, inside a cell
    inrow: bool, inc: bool,
    /// rows before the current one, columns before the next cell
    row: int, col: int,
    rows: Seq<RowEv>, cels: Seq<Cel>,
    tcol: int, cols: Seq<ColEv>,
    tattrs: Am,
}
spec fn kind(n: Nm) -> K {
    if n == "table:table-row"@ { K::Row } else if n == "table:table-cell"@ { K::Cell } else if n == "table:covered-table-cell"@ { K::Covered }
    else if n == "table:table-column"@ { K::Column } else if n == "table:table"@ { K::Table } else { K::Other }
}
spec fn rowsrep() -> Nm { "table:number-rows-repeated"@ }
spec fn colsrep() -> Nm { "table:number-columns-repeated"@ }
spec fn body_push(g: G, t: Tok, cur: K) -> G {
    let c = g.cels.last();
    G { cur: cur, cels: g.cels.drop_last().push(Cel { body: c.body.push(t), ..c }), ..g }
}
spec fn g_open(g: G, n: Nm) -> G {
    match kind(n) {
        K::Row => G { rows: g.rows.push(RowEv { row: g.row, rown: 1, attrs: Map::empty(), hdr: g.stack.len() > 0 && g.stack.last() == "table:table-header-rows"@ }), col: 0, cur: K::Row, ..g },
        K::Cell => G { cels: g.cels.push(Cel { row: g.row, rown: g.rows.last().rown, col: g.col, coln: 1, covered: false, attrs: Map::empty(), body: Seq::empty() }), col: g.col + 1, cur: K::Cell, ..g },
        K::Covered => G { cels: g.cels.push(Cel { row: g.row, rown: g.rows.last().rown, col: g.col, coln: 1, covered: true, attrs: Map::empty(), body: Seq::empty() }), col: g.col + 1, cur: K::Covered, ..g },
        K::Column => G { cols: g.cols.push(ColEv { col: g.tcol, coln: 1, attrs: Map::empty(), hdr: g.stack.len() > 0 && g.stack.last() == "table:table-header-columns"@ }), tcol: g.tcol + 1, cur: K::Column, ..g },
        K::Table => G { rows: Seq::empty(), cels: Seq::empty(), cols: Seq::empty(), row: 0, col: 0, tcol: 0, tattrs: Map::empty(), cur: K::Table, ..g },
        _ => G { cur: kind(n), ..g },
    }
}
spec fn g_elem(g: G, n: Nm) -> G {
    if g.inc { G { stack: g.stack.push(n), ..body_push(g, Tok::Open(n), K::In) } }
    else { G { stack: g.stack.push(n), inrow: g.inrow || kind(n) is Row, inc: kind(n) is Cell || kind(n) is Covered, ..g_open(g, n) } }
}
spec fn g_empty(g: G, n: Nm) -> G { if g.inc { body_push(g, Tok::Empty(n), K::In) } else { g_open(g, n) } }
spec fn g_end(g: G, n: Nm) -> G {
    let s = g.stack.drop_last();
    if kind(n) is Cell || kind(n) is Covered { G { stack: s, inc: false, cur: K::Closed, ..g } }
    else if g.inc { G { stack: s, ..body_push(g, Tok::End(n), K::Closed) } }
    else if kind(n) is Row { G { stack: s, cur: K::Closed, inrow: false, row: g.row + g.rows.last().rown, ..g } }
    else { G { stack: s, cur: K::Closed, ..g } }
}
spec fn g_attr(g: G, n: Nm, v: Seq<char>, num: int) -> G {
    match g.cur {
        K::Row => {
            let r = g.rows.last();
            let r2 = if n == rowsrep() { RowEv { rown: num, ..r } } else { RowEv { attrs: r.attrs.insert(n, v), ..r } };
            G { rows: g.rows.drop_last().push(r2), ..g }
        },
        K::Cell | K::Covered => {
            let c = g.cels.last();
            if n == colsrep() { G { cels: g.cels.drop_last().push(Cel { coln: num, ..c }), col: c.col + num, ..g } }
            else { G { cels: g.cels.drop_last().push(Cel { attrs: c.attrs.insert(n, v), ..c }), ..g } }
        },
        K::Column => {
            let c = g.cols.last();
            if n == colsrep() { G { cols: g.cols.drop_last().push(ColEv { coln: num, ..c }), tcol: c.col + num, ..g } }
            else { G { cols: g.cols.drop_last().push(ColEv { attrs: c.attrs.insert(n, v), ..c }), ..g } }
        },
        K::Table => G { tattrs: g.tattrs.insert(n, v), ..g },
        K::In => body_push(g, Tok::Attr(n, v), K::In),
        _ => g,
    }
}
spec fn g_text(g: G, v: Seq<char>) -> G { if g.inc { body_push(g, Tok::Text(v), K::Closed) } else { G { cur: K::Closed, ..g } } }
spec fn g_tok(g: G, t: Tok) -> G { if g.inc { body_push(g, t, K::Closed) } else { G { cur: K::Closed, ..g } } }

/// where an attribute can go wrong: no element takes it, or a row gets its repeat count after its first cell
spec fn attr_ok(g: G, n: Nm, num: int) -> bool {
    &&& !(g.cur is Closed)
    &&& g.cur is Row && n == rowsrep() ==> g.col == 0 && num >= 1
    &&& (g.cur is Cell || g.cur is Covered || g.cur is Column) && n == colsrep() ==> num >= 1
    // no attribute twice
    &&& g.cur is Row ==> !g.rows.last().attrs.contains_key(n)
    &&& g.cur is Cell || g.cur is Covered ==> !g.cels.last().attrs.contains_key(n)
    &&& g.cur is Column ==> !g.cols.last().attrs.contains_key(n)
    &&& g.cur is Table ==> !g.tattrs.contains_key(n)
}
spec fn open_ok(g: G, n: Nm) -> bool {
    &&& g.inc ==> kind(n) is Other
    &&& kind(n) is Cell || kind(n) is Covered ==> g.inrow
    &&& kind(n) is Row || kind(n) is Table ==> !g.inrow
}
/// an element is closed that was opened last, and a row only when its cells are
spec fn end_ok(g: G, n: Nm) -> bool { g.stack.len() > 0 && g.stack.last() == n && (kind(n) is Row ==> g.inrow && !g.inc) && (kind(n) is Cell || kind(n) is Covered ==> g.inc) }

// ------------------------------------------------------------------ every position belongs to one element
spec fn cel_lt(a: Cel, b: Cel) -> bool { a.row + a.rown <= b.row || (a.row == b.row && a.col + a.coln <= b.col) }
#[verifier::opaque]
spec fn wfg(g: G) -> bool {
    &&& forall|i: int| 0 <= i < g.cels.len() ==> (#[trigger] g.cels[i]).coln >= 1 && g.cels[i].rown >= 1 && g.cels[i].col >= 0
    &&& forall|i: int| 0 <= i < g.rows.len() ==> (#[trigger] g.rows[i]).rown >= 1
    &&& forall|i: int| 0 <= i < g.cols.len() ==> (#[trigger] g.cols[i]).coln >= 1
    &&& forall|i: int, j: int| 0 <= i < j < g.cels.len() ==> cel_lt(#[trigger] g.cels[i], #[trigger] g.cels[j])
    &&& forall|i: int, j: int| 0 <= i < j < g.rows.len() ==> (#[trigger] g.rows[i]).row + g.rows[i].rown <= (#[trigger] g.rows[j]).row
    &&& forall|i: int, j: int| 0 <= i < j < g.cols.len() ==> (#[trigger] g.cols[i]).col + g.cols[i].coln <= (#[trigger] g.cols[j]).col
    &&& forall|i: int| 0 <= i < g.cols.len() ==> (#[trigger] g.cols[i]).col + g.cols[i].coln <= g.tcol
    &&& g.cols.len() > 0 ==> g.cols.last().col + g.cols.last().coln == g.tcol
    &&& g.col >= 0
    // no gaps
    &&& g.cols.len() == 0 ==> g.tcol == 0
    &&& g.cols.len() > 0 ==> g.cols[0].col == 0
    &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < g.cols.len() ==> (#[trigger] g.cols[i]).col + g.cols[i].coln == (#[trigger] g.cols[j]).col
    &&& g.rows.len() == 0 ==> g.row == 0
    &&& g.rows.len() > 0 && !g.inrow ==> g.rows.last().row + g.rows.last().rown == g.row
    &&& g.rows.len() > 0 ==> g.rows[0].row == 0
    &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < g.rows.len() ==> (#[trigger] g.rows[i]).row + g.rows[i].rown == (#[trigger] g.rows[j]).row
    &&& g.cels.len() > 0 ==> g.cels[0].col == 0
    &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < g.cels.len() ==> (#[trigger] g.cels[j]).col == 0 || ((#[trigger] g.cels[i]).row == g.cels[j].row && g.cels[i].col + g.cels[i].coln == g.cels[j].col)
    &&& g.inrow && g.col > 0 ==> g.cels.len() > 0 && g.cels.last().row == g.row && g.cels.last().col + g.cels.last().coln == g.col
    &&& g.inc ==> g.inrow && g.cels.len() > 0
    &&& (g.cur is Cell || g.cur is Covered) ==> g.inrow && g.cels.len() > 0 && g.cels.last().col + g.cels.last().coln == g.col && g.cels.last().row == g.row && g.cels.last().rown == g.rows.last().rown
    &&& g.cur is In ==> g.inc
    &&& g.cur is Row ==> g.inrow && g.col == 0
    &&& g.cur is Column ==> g.cols.len() > 0
    // an open row is the last one, its cells are the ones before the cursor
    &&& g.inrow ==> g.rows.len() > 0 && g.rows.last().row == g.row
    &&& forall|i: int| 0 <= i < g.rows.len() - (if g.inrow { 1int } else { 0int }) ==> (#[trigger] g.rows[i]).row + g.rows[i].rown <= g.row
    &&& forall|i: int| 0 <= i < g.cels.len() ==> (#[trigger] g.cels[i]).row + g.cels[i].rown <= g.row
            || (g.inrow && g.col > 0 && g.cels[i].row == g.row && g.cels[i].rown == g.rows.last().rown && g.cels[i].col + g.cels[i].coln <= g.col)
}
proof fn wf_open(g: G, n: Nm) requires wfg(g), open_ok(g, n), !g.inc ensures wfg(G { inrow: g.inrow || kind(n) is Row, ..g_open(g, n) }) { reveal(wfg); }
proof fn wf_stack(g: G, s: Seq<Nm>) requires wfg(g) ensures wfg(G { stack: s, ..g }) { reveal(wfg); }
proof fn wf_into(g: G, n: Nm) requires wfg(g), g.inrow, g.cels.len() > 0, !(g.cur is In) ensures wfg(G { inc: true, ..g }) { reveal(wfg); }
proof fn wf_first(g: G, n: Nm) requires wfg(g), open_ok(g, n), !g.inc ensures wfg(g_elem(g, n)) {
    let o = G { inrow: g.inrow || kind(n) is Row, ..g_open(g, n) };
    wf_open(g, n); 
    if kind(n) is Cell || kind(n) is Covered { wf_into(o, n); wf_stack(G { inc: true, ..o }, g.stack.push(n)); assert(G { stack: g.stack.push(n), inc: true, ..o } == g_elem(g, n)); }
    else { wf_stack(o, g.stack.push(n)); assert(G { stack: g.stack.push(n), ..o } == g_elem(g, n)); }
}
proof fn wf_elem(g: G, n: Nm) requires wfg(g), open_ok(g, n) ensures wfg(g_elem(g, n)) { if g.inc { assert(kind(n) is Other); wf_body(g, Tok::Open(n), K::In); wf_stack(body_push(g, Tok::Open(n), K::In), g.stack.push(n)); } else { wf_first(g, n); } }
proof fn wf_empty(g: G, n: Nm) requires wfg(g), open_ok(g, n), !(kind(n) is Row) ensures wfg(g_empty(g, n)) { reveal(wfg); if g.inc { wf_body(g, Tok::Empty(n), K::In); } else { wf_open(g, n); } }
proof fn wf_body(g: G, t: Tok, k: K) requires wfg(g), g.inc, k is In || k is Closed ensures wfg(body_push(g, t, k)) { reveal(wfg); }
proof fn wf_end(g: G, n: Nm) requires wfg(g), end_ok(g, n) ensures wfg(g_end(g, n)) { reveal(wfg); if g.inc && !(kind(n) is Cell || kind(n) is Covered) { wf_body(g, Tok::End(n), K::Closed); } }
proof fn wf_attr(g: G, n: Nm, v: Seq<char>, num: int) requires wfg(g), attr_ok(g, n, num) ensures wfg(g_attr(g, n, v, num)) { reveal(wfg);
    if g.cur is In { wf_body(g, Tok::Attr(n, v), K::In); }
    if g.cur is Cell || g.cur is Covered { let l = g.cels.len() - 1; assert forall|i: int| 0 <= i < l implies cel_lt(#[trigger] g.cels[i], g.cels[l]) by {} }
    if g.cur is Column { let l = g.cols.len() - 1; assert forall|i: int| 0 <= i < l implies (#[trigger] g.cols[i]).col + g.cols[i].coln <= g.cols[l].col by {} }
}
proof fn wf_text(g: G, v: Seq<char>) requires wfg(g) ensures wfg(g_text(g, v)) { reveal(wfg); if g.inc { wf_body(g, Tok::Text(v), K::Closed); } }
proof fn wf_tok(g: G, t: Tok) requires wfg(g) ensures wfg(g_tok(g, t)) { reveal(wfg); if g.inc { wf_body(g, t, K::Closed); } }
/// THEOREM: no position is described by two cells, no row by two rows, no column by two columns.
proof fn thm_one_element_per_position(g: G, i: int, j: int, r: int, c: int)
    requires wfg(g), 0 <= i < g.cels.len(), 0 <= j < g.cels.len(), at(g.cels[i], r, c), at(g.cels[j], r, c)
    ensures i == j
{ reveal(wfg); if i < j { assert(cel_lt(g.cels[i], g.cels[j])); } if j < i { assert(cel_lt(g.cels[j], g.cels[i])); } }
/// THEOREM: every row before the end of the table is described, and every column.
proof fn thm_no_row_missing(g: G, r: int) requires wfg(g), 0 <= r < g.row ensures exists|i: int| 0 <= i < g.rows.len() && (#[trigger] g.rows[i]).row <= r < g.rows[i].row + g.rows[i].rown
{ reveal(wfg); assert(g.rows.len() > 0); let n = g.rows.len() - 1; if g.rows[n].row <= r { assert(g.rows[n] == g.rows.last()); } else { lemma_row_before(g, r, n); } }
proof fn lemma_row_before(g: G, r: int, n: int) requires wfg(g), 0 <= n < g.rows.len(), 0 <= r < g.rows[n].row ensures exists|i: int| 0 <= i < g.rows.len() && (#[trigger] g.rows[i]).row <= r < g.rows[i].row + g.rows[i].rown decreases n
{ reveal(wfg); assert(n > 0); assert(g.rows[n - 1].row + g.rows[n - 1].rown == g.rows[n].row); if r < g.rows[n - 1].row { lemma_row_before(g, r, n - 1); } }
proof fn thm_no_column_missing(g: G, c: int) requires wfg(g), 0 <= c < g.tcol ensures exists|i: int| 0 <= i < g.cols.len() && (#[trigger] g.cols[i]).col <= c < g.cols[i].col + g.cols[i].coln
{ reveal(wfg); assert(g.cols.len() > 0); let n = g.cols.len() - 1; if g.cols[n].col <= c { assert(g.cols[n] == g.cols.last()); } else { lemma_col_before(g, c, n); } }
proof fn lemma_col_before(g: G, c: int, n: int) requires wfg(g), 0 <= n < g.cols.len(), 0 <= c < g.cols[n].col ensures exists|i: int| 0 <= i < g.cols.len() && (#[trigger] g.cols[i]).col <= c < g.cols[i].col + g.cols[i].coln decreases n
{ reveal(wfg); assert(n > 0); assert(g.cols[n - 1].col + g.cols[n - 1].coln == g.cols[n].col); if c < g.cols[n - 1].col { lemma_col_before(g, c, n - 1); } }
/// THEOREM: there is no gap between the cells of a row.
proof fn thm_no_cell_missing(g: G, n: int, c: int) requires wfg(g), 0 <= n < g.cels.len(), 0 <= c < g.cels[n].col + g.cels[n].coln
    ensures exists|i: int| 0 <= i < g.cels.len() && at(#[trigger] g.cels[i], g.cels[n].row, c) && g.cels[i].row == g.cels[n].row decreases n
{ reveal(wfg); if c < g.cels[n].col { assert(n > 0); let p = g.cels[n - 1]; thm_no_cell_missing(g, n - 1, c); } else { assert(at(g.cels[n], g.cels[n].row, c)); } }
spec fn at(c: Cel, r: int, x: int) -> bool { c.row <= r < c.row + c.rown && c.col <= x < c.col + c.coln }

// ------------------------------------------------------------------ the writer
#[verifier::external_body]
struct OdsXmlWriter<'a> { _x: &'a u8 }
impl<'a> View for OdsXmlWriter<'a> { type V = G; uninterp spec fn view(&self) -> G; }
trait Shown { spec fn shown(&self) -> Seq<char>; spec fn num(&self) -> int; }
uninterp spec fn dec(n: int) -> Seq<char>;
impl Shown for u32 { spec fn shown(&self) -> Seq<char> { dec(*self as int) } spec fn num(&self) -> int { *self as int } }
impl Shown for str { spec fn shown(&self) -> Seq<char> { self@ } spec fn num(&self) -> int { 0 } }
impl Shown for String { spec fn shown(&self) -> Seq<char> { self@ } spec fn num(&self) -> int { 0 } }
uninterp spec fn ftext(x: f64) -> Seq<char>;
impl Shown for f64 { spec fn shown(&self) -> Seq<char> { ftext(*self) } spec fn num(&self) -> int { 0 } }
impl<T: Shown + ?Sized> Shown for &T { spec fn shown(&self) -> Seq<char> { (**self).shown() } spec fn num(&self) -> int { (**self).num() } }
#[verifier::external_body] struct OdsError {}
type Res = Result<(), OdsError>;
impl<'a> OdsXmlWriter<'a> {
    #[verifier::external_body] fn elem(&mut self, name: &str) -> (r: Res) requires wfg(old(self)@), open_ok(old(self)@, name@) ensures r is Ok ==> final(self)@ == g_elem(old(self)@, name@) && wfg(final(self)@) { unimplemented!() }
    #[verifier::external_body] fn empty(&mut self, name: &str) -> (r: Res) requires wfg(old(self)@), open_ok(old(self)@, name@), !(kind(name@) is Row) ensures r is Ok ==> final(self)@ == g_empty(old(self)@, name@) && wfg(final(self)@) { unimplemented!() }
    fn elem_if(&mut self, has: bool, name: &str) -> (r: Res) requires wfg(old(self)@), open_ok(old(self)@, name@), !(kind(name@) is Row)
        ensures r is Ok ==> final(self)@ == (if has { g_elem(old(self)@, name@) } else { g_empty(old(self)@, name@) }) && wfg(final(self)@) { if has { self.elem(name) } else { self.empty(name) } }
    #[verifier::external_body] fn end_elem(&mut self, name: &str) -> (r: Res) requires wfg(old(self)@), end_ok(old(self)@, name@) ensures r is Ok ==> final(self)@ == g_end(old(self)@, name@) && wfg(final(self)@) { unimplemented!() }
    fn end_elem_if(&mut self, has: bool, name: &str) -> (r: Res) requires wfg(old(self)@), has ==> end_ok(old(self)@, name@)
        ensures r is Ok ==> final(self)@ == (if has { g_end(old(self)@, name@) } else { old(self)@ }) && wfg(final(self)@) { if has { self.end_elem(name) } else { Ok(()) } }
    #[verifier::external_body] fn attr<T: Shown + ?Sized>(&mut self, name: &str, value: &T) -> (r: Res) requires wfg(old(self)@), attr_ok(old(self)@, name@, value.num()) ensures r is Ok ==> final(self)@ == g_attr(old(self)@, name@, value.shown(), value.num()) && wfg(final(self)@) { unimplemented!() }
    #[verifier::external_body] fn attr_esc<T: Shown + ?Sized>(&mut self, name: &str, value: &T) -> (r: Res) requires wfg(old(self)@), attr_ok(old(self)@, name@, value.num()) ensures r is Ok ==> final(self)@ == g_attr(old(self)@, name@, value.shown(), value.num()) && wfg(final(self)@) { unimplemented!() }
    #[verifier::external_body] fn attr_str(&mut self, name: &str, value: &str) -> (r: Res) requires wfg(old(self)@), attr_ok(old(self)@, name@, 0) ensures r is Ok ==> final(self)@ == g_attr(old(self)@, name@, value@, 0) && wfg(final(self)@) { unimplemented!() }
    #[verifier::external_body] fn text<T: Shown + ?Sized>(&mut self, value: &T) -> (r: Res) requires wfg(old(self)@) ensures r is Ok ==> final(self)@ == g_text(old(self)@, value.shown()) && wfg(final(self)@) { unimplemented!() }
    #[verifier::external_body] fn text_esc<T: Shown + ?Sized>(&mut self, value: &T) -> (r: Res) requires wfg(old(self)@) ensures r is Ok ==> final(self)@ == g_text(old(self)@, value.shown()) && wfg(final(self)@) { unimplemented!() }
    #[verifier::external_body] fn text_str(&mut self, value: &str) -> (r: Res) requires wfg(old(self)@) ensures r is Ok ==> final(self)@ == g_text(old(self)@, value@) && wfg(final(self)@) { unimplemented!() }
    fn elem_text_esc<T: Shown + ?Sized>(&mut self, name: &str, value: &T) -> (r: Res) requires wfg(old(self)@), old(self)@.inc, kind(name@) is Other
        ensures r is Ok ==> final(self)@ == g_end(g_text(g_elem(old(self)@, name@), value.shown()), name@) && wfg(final(self)@) { self.elem(name)?; self.text_esc(value)?; self.end_elem(name) }
}
