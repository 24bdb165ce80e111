//@include names.inc.rs

// ------------------------------------------------------------------ specification
spec fn plain_char(c: char) -> bool {
    ('0' <= c && c <= '9') || ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z') || c == '_' || (c as int) >= 128
}
spec fn plain_name(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain_char(#[trigger] s[i]) }
spec fn dq(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { dq(s.drop_last()) + (if s.last() == '\'' { seq!['\'', '\''] } else { seq![s.last()] }) }
}
spec fn quoted_on(b: Seq<char>, s: Seq<char>) -> Seq<char> { (b.push('\'') + dq(s)).push('\'') }
spec fn abs_on(b: Seq<char>, abs: bool) -> Seq<char> { if abs { b.push('$') } else { b } }
spec fn table_on(b: Seq<char>, s: Seq<char>, abs: bool) -> Seq<char> {
    if plain_name(s) { abs_on(b, abs) + s } else { quoted_on(abs_on(b, abs), s) }
}
spec fn iri_on(b: Seq<char>, iri: Option<String>) -> Seq<char> {
    match iri { Some(i) => quoted_on(b, i@).push('#'), None => b }
}
spec fn opt_table_on(b: Seq<char>, t: Option<String>, abs: bool) -> Seq<char> {
    match t { Some(i) => table_on(b, i@, abs), None => b }
}
spec fn col_on(b: Seq<char>, c: CCol) -> Seq<char> { abs_on(b, c.col_abs) + col_name(c.col as nat) }
spec fn row_on(b: Seq<char>, c: CRow) -> Seq<char> { abs_on(b, c.row_abs) + row_name(c.row as nat) }
/// b followed by the text of the reference: [iri#][table].[$]COL[$]ROW
spec fn cell_ref_on(b: Seq<char>, r: CellRef) -> Seq<char> {
    let abs = r.iri is Some || r.row.row_abs || r.col.col_abs;
    row_on(col_on(opt_table_on(iri_on(b, r.iri), r.table, abs).push('.'), r.col), r.row)
}
spec fn cell_range_on(b: Seq<char>, r: CellRange) -> Seq<char> {
    let abs = r.iri is Some || r.from_row.row_abs || r.from_col.col_abs || r.to_row.row_abs || r.to_col.col_abs;
    let h = row_on(col_on(opt_table_on(iri_on(b, r.iri), r.from_table, abs).push('.'), r.from_col), r.from_row);
    row_on(col_on(opt_table_on(h.push(':'), r.to_table, abs).push('.'), r.to_col), r.to_row)
}
spec fn col_range_on(b: Seq<char>, r: ColRange) -> Seq<char> {
    let abs = r.iri is Some || r.from_col.col_abs || r.to_col.col_abs;
    let h = col_on(opt_table_on(iri_on(b, r.iri), r.from_table, abs).push('.'), r.from_col);
    col_on(opt_table_on(h.push(':'), r.to_table, abs).push('.'), r.to_col)
}
spec fn row_range_on(b: Seq<char>, r: RowRange) -> Seq<char> {
    let abs = r.iri is Some || r.from_row.row_abs || r.to_row.row_abs;
    let h = row_on(opt_table_on(iri_on(b, r.iri), r.from_table, abs).push('.'), r.from_row);
    row_on(opt_table_on(h.push(':'), r.to_table, abs).push('.'), r.to_row)
}

// ------------------------------------------------------------------ trusted: std
#[verifier::external_body]
fn vp_write_str(f: &mut String, s: &str) -> (r: core::fmt::Result)
    ensures r is Ok, final(f)@ == old(f)@ + s@,
{ use std::fmt::Write; f.write_str(s) }
#[verifier::external_body]
fn vp_double_quotes(s: &str) -> (r: String)
    ensures r@ == dq(s@),
{ s.replace('\'', "''") }
#[verifier::external_body]
fn vp_any<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,)),
    ensures
        r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((#[trigger] s@[i],), true),
        !r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), false),
{ s.chars().any(f) }
#[verifier::external_body]
fn vp_is_ascii(c: char) -> (r: bool) ensures r == ((c as int) < 128) { c.is_ascii() }
#[verifier::external_body]
fn vp_is_ascii_alphanumeric(c: char) -> (r: bool) ensures r == (('0' <= c && c <= '9') || ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z')) { c.is_ascii_alphanumeric() }

//@gsubst Formatter<'_> ==> String
//@gsubst write!($f, "'") ==> vp_write_char($f, '\'')
//@gsubst write!($f, "#") ==> vp_write_char($f, '#')
//@gsubst write!($f, ".") ==> vp_write_char($f, '.')
//@gsubst write!($f, ":") ==> vp_write_char($f, ':')

//@struct file=src/refs.rs name=CRow attr=derive(Clone,Copy)
//@end
//@struct file=src/refs.rs name=CCol attr=derive(Clone,Copy)
//@end
//@struct file=src/refs.rs name=CellRef
//@end
//@struct file=src/refs.rs name=CellRange
//@end
//@struct file=src/refs.rs name=ColRange
//@end
//@struct file=src/refs.rs name=RowRange
//@end

spec fn crow(abs: bool, r: u32) -> CRow { CRow { row_abs: abs, row: r } }
spec fn ccol(abs: bool, c: u32) -> CCol { CCol { col_abs: abs, col: c } }
impl CRow {
//@fn file=src/refs.rs path=CRow::row
//@ret r
//@spec
    ensures r == self.row,
//@end
//@fn file=src/refs.rs path=CRow::row_abs
//@ret r
//@spec
    ensures r == self.row_abs,
//@end
}
impl CCol {
//@fn file=src/refs.rs path=CCol::col
//@ret r
//@spec
    ensures r == self.col,
//@end
//@fn file=src/refs.rs path=CCol::col_abs
//@ret r
//@spec
    ensures r == self.col_abs,
//@end
}
spec fn same_opt(r: Option<&String>, s: Option<String>) -> bool {
    (r is Some) == (s is Some) && (r is Some ==> *r->0 == s->0)
}
impl CellRef {
//@fn file=src/refs.rs path=CellRef::new_all
//@params iri table row_abs row col_abs col
//@ret r
//@spec
    ensures r.iri == iri, r.table == table, r.row == crow(row_abs, row), r.col == ccol(col_abs, col),
//@end
//@fn file=src/refs.rs path=CellRef::local
//@params row col
//@ret r
//@spec
    ensures r.iri is None, r.table is None, r.row == crow(false, row), r.col == ccol(false, col),
//@end
//@fn file=src/refs.rs path=CellRef::remote
//@params table row col
//@ret r
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@subst $idx.into() ==> $idx
//@spec
    ensures r.iri is None, r.table == Some(table), r.row == crow(false, row), r.col == ccol(false, col),
//@end
//@fn file=src/refs.rs path=CellRef::set_iri
//@params iri
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@subst $idx.into() ==> $idx
//@spec
    ensures final(self).iri is Some, final(self).iri->0 == iri, final(self).table == old(self).table, final(self).row == old(self).row, final(self).col == old(self).col,
//@end
//@fn file=src/refs.rs path=CellRef::set_table
//@params table
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@subst $idx.into() ==> $idx
//@spec
    ensures final(self).table is Some, final(self).table->0 == table, final(self).iri == old(self).iri, final(self).row == old(self).row, final(self).col == old(self).col,
//@end
//@fn file=src/refs.rs path=CellRef::iri
//@params 
//@ret r
//@spec
    ensures same_opt(r, self.iri),
//@end
//@fn file=src/refs.rs path=CellRef::table
//@params 
//@ret r
//@spec
    ensures same_opt(r, self.table),
//@end
//@fn file=src/refs.rs path=CellRef::set_row
//@params row
//@spec
    ensures final(self).row.row == row, final(self).iri == old(self).iri, final(self).table == old(self).table, final(self).col == old(self).col, final(self).row.row_abs == old(self).row.row_abs,
//@end
//@fn file=src/refs.rs path=CellRef::row
//@params 
//@ret r
//@spec
    ensures r == self.row.row,
//@end
//@fn file=src/refs.rs path=CellRef::set_row_abs
//@params abs
//@spec
    ensures final(self).row.row_abs == abs, final(self).iri == old(self).iri, final(self).table == old(self).table, final(self).col == old(self).col, final(self).row.row == old(self).row.row,
//@end
//@fn file=src/refs.rs path=CellRef::row_abs
//@params 
//@ret r
//@spec
    ensures r == self.row.row_abs,
//@end
//@fn file=src/refs.rs path=CellRef::set_col
//@params col
//@spec
    ensures final(self).col.col == col, final(self).iri == old(self).iri, final(self).table == old(self).table, final(self).row == old(self).row, final(self).col.col_abs == old(self).col.col_abs,
//@end
//@fn file=src/refs.rs path=CellRef::col
//@params 
//@ret r
//@spec
    ensures r == self.col.col,
//@end
//@fn file=src/refs.rs path=CellRef::set_col_abs
//@params abs
//@spec
    ensures final(self).col.col_abs == abs, final(self).iri == old(self).iri, final(self).table == old(self).table, final(self).row == old(self).row, final(self).col.col == old(self).col.col,
//@end
//@fn file=src/refs.rs path=CellRef::col_abs
//@params 
//@ret r
//@spec
    ensures r == self.col.col_abs,
//@end
//@fn file=src/refs.rs path=CellRef::to_formula
//@params 
//@ret r
//@spec
    ensures r@ == cell_ref_on(seq!['['], *self).push(']'),
//@end
//@fn file=src/refs.rs path=CellRef::absolute
//@params 
//@ret r
//@spec
    ensures r.iri == self.iri, r.table == self.table, r.row == crow(true, self.row.row), r.col == ccol(true, self.col.col),
//@end
//@fn file=src/refs.rs path=CellRef::absolute_row
//@params 
//@ret r
//@spec
    ensures r.iri == self.iri, r.table == self.table, r.row == crow(true, self.row.row), r.col == self.col,
//@end
//@fn file=src/refs.rs path=CellRef::absolute_col
//@params 
//@ret r
//@spec
    ensures r.iri == self.iri, r.table == self.table, r.col == ccol(true, self.col.col), r.row == self.row,
//@end
//@fn file=src/refs.rs path=CellRef::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r is Ok, final(f)@ == cell_ref_on(old(f)@, *self),
//@end
}
impl CellRange {
//@fn file=src/refs.rs path=CellRange::new_all
//@params iri table row_abs row col_abs col to_table to_row_abs to_row to_col_abs to_col
//@ret r
//@spec
    ensures r.iri == iri, r.from_table == table, r.from_row == crow(row_abs, row), r.from_col == ccol(col_abs, col), r.to_table == to_table, r.to_row == crow(to_row_abs, to_row), r.to_col == ccol(to_col_abs, to_col),
//@end
//@fn file=src/refs.rs path=CellRange::set_iri
//@params iri
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@subst $idx.into() ==> $idx
//@spec
    ensures final(self).iri is Some, final(self).iri->0 == iri, final(self).from_table == old(self).from_table, final(self).from_row == old(self).from_row, final(self).from_col == old(self).from_col, final(self).to_table == old(self).to_table, final(self).to_row == old(self).to_row, final(self).to_col == old(self).to_col,
//@end
//@fn file=src/refs.rs path=CellRange::set_table
//@params table
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@subst $idx.into() ==> $idx
//@spec
    ensures final(self).from_table is Some, final(self).from_table->0 == table, final(self).iri == old(self).iri, final(self).from_row == old(self).from_row, final(self).from_col == old(self).from_col, final(self).to_table == old(self).to_table, final(self).to_row == old(self).to_row, final(self).to_col == old(self).to_col,
//@end
//@fn file=src/refs.rs path=CellRange::set_to_table
//@params table
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@subst $idx.into() ==> $idx
//@spec
    ensures final(self).to_table is Some, final(self).to_table->0 == table, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).from_row == old(self).from_row, final(self).from_col == old(self).from_col, final(self).to_row == old(self).to_row, final(self).to_col == old(self).to_col,
//@end
//@fn file=src/refs.rs path=CellRange::iri
//@params 
//@ret r
//@spec
    ensures same_opt(r, self.iri),
//@end
//@fn file=src/refs.rs path=CellRange::table
//@params 
//@ret r
//@spec
    ensures same_opt(r, self.from_table),
//@end
//@fn file=src/refs.rs path=CellRange::to_table
//@params 
//@ret r
//@spec
    ensures same_opt(r, self.to_table),
//@end
//@fn file=src/refs.rs path=CellRange::set_row
//@params row
//@spec
    ensures final(self).from_row.row == row, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).from_col == old(self).from_col, final(self).to_table == old(self).to_table, final(self).to_row == old(self).to_row, final(self).to_col == old(self).to_col, final(self).from_row.row_abs == old(self).from_row.row_abs,
//@end
//@fn file=src/refs.rs path=CellRange::row
//@params 
//@ret r
//@spec
    ensures r == self.from_row.row,
//@end
//@fn file=src/refs.rs path=CellRange::set_row_abs
//@params abs
//@spec
    ensures final(self).from_row.row_abs == abs, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).from_col == old(self).from_col, final(self).to_table == old(self).to_table, final(self).to_row == old(self).to_row, final(self).to_col == old(self).to_col, final(self).from_row.row == old(self).from_row.row,
//@end
//@fn file=src/refs.rs path=CellRange::row_abs
//@params 
//@ret r
//@spec
    ensures r == self.from_row.row_abs,
//@end
//@fn file=src/refs.rs path=CellRange::set_col
//@params col
//@spec
    ensures final(self).from_col.col == col, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).from_row == old(self).from_row, final(self).to_table == old(self).to_table, final(self).to_row == old(self).to_row, final(self).to_col == old(self).to_col, final(self).from_col.col_abs == old(self).from_col.col_abs,
//@end
//@fn file=src/refs.rs path=CellRange::col
//@params 
//@ret r
//@spec
    ensures r == self.from_col.col,
//@end
//@fn file=src/refs.rs path=CellRange::set_col_abs
//@params abs
//@spec
    ensures final(self).from_col.col_abs == abs, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).from_row == old(self).from_row, final(self).to_table == old(self).to_table, final(self).to_row == old(self).to_row, final(self).to_col == old(self).to_col, final(self).from_col.col == old(self).from_col.col,
//@end
//@fn file=src/refs.rs path=CellRange::col_abs
//@params 
//@ret r
//@spec
    ensures r == self.from_col.col_abs,
//@end
//@fn file=src/refs.rs path=CellRange::set_to_row
//@params to_row
//@spec
    ensures final(self).to_row.row == to_row, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).from_row == old(self).from_row, final(self).from_col == old(self).from_col, final(self).to_table == old(self).to_table, final(self).to_col == old(self).to_col, final(self).to_row.row_abs == old(self).to_row.row_abs,
//@end
//@fn file=src/refs.rs path=CellRange::to_row
//@params 
//@ret r
//@spec
    ensures r == self.to_row.row,
//@end
//@fn file=src/refs.rs path=CellRange::set_to_row_abs
//@params abs
//@spec
    ensures final(self).to_row.row_abs == abs, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).from_row == old(self).from_row, final(self).from_col == old(self).from_col, final(self).to_table == old(self).to_table, final(self).to_col == old(self).to_col, final(self).to_row.row == old(self).to_row.row,
//@end
//@fn file=src/refs.rs path=CellRange::to_row_abs
//@params 
//@ret r
//@spec
    ensures r == self.to_row.row_abs,
//@end
//@fn file=src/refs.rs path=CellRange::set_to_col
//@params to_col
//@spec
    ensures final(self).to_col.col == to_col, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).from_row == old(self).from_row, final(self).from_col == old(self).from_col, final(self).to_table == old(self).to_table, final(self).to_row == old(self).to_row, final(self).to_col.col_abs == old(self).to_col.col_abs,
//@end
//@fn file=src/refs.rs path=CellRange::to_col
//@params 
//@ret r
//@spec
    ensures r == self.to_col.col,
//@end
//@fn file=src/refs.rs path=CellRange::set_to_col_abs
//@params abs
//@spec
    ensures final(self).to_col.col_abs == abs, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).from_row == old(self).from_row, final(self).from_col == old(self).from_col, final(self).to_table == old(self).to_table, final(self).to_row == old(self).to_row, final(self).to_col.col == old(self).to_col.col,
//@end
//@fn file=src/refs.rs path=CellRange::to_col_abs
//@params 
//@ret r
//@spec
    ensures r == self.to_col.col_abs,
//@end
//@fn file=src/refs.rs path=CellRange::to_formula
//@params 
//@ret r
//@spec
    ensures r@ == cell_range_on(seq!['['], *self).push(']'),
//@end
//@fn file=src/refs.rs path=CellRange::absolute
//@params 
//@ret r
//@spec
    ensures r.iri == self.iri, r.from_table == self.from_table, r.from_row == crow(true, self.from_row.row), r.from_col == ccol(true, self.from_col.col), r.to_table == self.to_table, r.to_row == crow(true, self.to_row.row), r.to_col == ccol(true, self.to_col.col),
//@end
//@fn file=src/refs.rs path=CellRange::absolute_rows
//@params 
//@ret r
//@spec
    ensures r.iri == self.iri, r.from_table == self.from_table, r.from_row == crow(true, self.from_row.row), r.from_col == self.from_col, r.to_table == self.to_table, r.to_row == crow(true, self.to_row.row), r.to_col == self.to_col,
//@end
//@fn file=src/refs.rs path=CellRange::absolute_cols
//@params 
//@ret r
//@spec
    ensures r.iri == self.iri, r.from_table == self.from_table, r.from_row == self.from_row, r.from_col == ccol(true, self.from_col.col), r.to_table == self.to_table, r.to_row == self.to_row, r.to_col == ccol(true, self.to_col.col),
//@end
//@fn file=src/refs.rs path=CellRange::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r is Ok, final(f)@ == cell_range_on(old(f)@, *self),
//@end
}
impl ColRange {
//@fn file=src/refs.rs path=ColRange::new_all
//@params iri table col_abs col to_table to_col_abs to_col
//@ret r
//@spec
    ensures r.iri == iri, r.from_table == table, r.from_col == ccol(col_abs, col), r.to_table == to_table, r.to_col == ccol(to_col_abs, to_col),
//@end
//@fn file=src/refs.rs path=ColRange::set_iri
//@params iri
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@subst $idx.into() ==> $idx
//@spec
    ensures final(self).iri is Some, final(self).iri->0 == iri, final(self).from_table == old(self).from_table, final(self).from_col == old(self).from_col, final(self).to_table == old(self).to_table, final(self).to_col == old(self).to_col,
//@end
//@fn file=src/refs.rs path=ColRange::set_table
//@params table
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@subst $idx.into() ==> $idx
//@spec
    ensures final(self).from_table is Some, final(self).from_table->0 == table, final(self).iri == old(self).iri, final(self).from_col == old(self).from_col, final(self).to_table == old(self).to_table, final(self).to_col == old(self).to_col,
//@end
//@fn file=src/refs.rs path=ColRange::set_to_table
//@params table
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@subst $idx.into() ==> $idx
//@spec
    ensures final(self).to_table is Some, final(self).to_table->0 == table, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).from_col == old(self).from_col, final(self).to_col == old(self).to_col,
//@end
//@fn file=src/refs.rs path=ColRange::iri
//@params 
//@ret r
//@spec
    ensures same_opt(r, self.iri),
//@end
//@fn file=src/refs.rs path=ColRange::table
//@params 
//@ret r
//@spec
    ensures same_opt(r, self.from_table),
//@end
//@fn file=src/refs.rs path=ColRange::to_table
//@params 
//@ret r
//@spec
    ensures same_opt(r, self.to_table),
//@end
//@fn file=src/refs.rs path=ColRange::set_col
//@params col
//@spec
    ensures final(self).from_col.col == col, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).to_table == old(self).to_table, final(self).to_col == old(self).to_col, final(self).from_col.col_abs == old(self).from_col.col_abs,
//@end
//@fn file=src/refs.rs path=ColRange::col
//@params 
//@ret r
//@spec
    ensures r == self.from_col.col,
//@end
//@fn file=src/refs.rs path=ColRange::set_col_abs
//@params abs
//@spec
    ensures final(self).from_col.col_abs == abs, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).to_table == old(self).to_table, final(self).to_col == old(self).to_col, final(self).from_col.col == old(self).from_col.col,
//@end
//@fn file=src/refs.rs path=ColRange::col_abs
//@params 
//@ret r
//@spec
    ensures r == self.from_col.col_abs,
//@end
//@fn file=src/refs.rs path=ColRange::set_to_col
//@params to_col
//@spec
    ensures final(self).to_col.col == to_col, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).from_col == old(self).from_col, final(self).to_table == old(self).to_table, final(self).to_col.col_abs == old(self).to_col.col_abs,
//@end
//@fn file=src/refs.rs path=ColRange::to_col
//@params 
//@ret r
//@spec
    ensures r == self.to_col.col,
//@end
//@fn file=src/refs.rs path=ColRange::set_to_col_abs
//@params abs
//@spec
    ensures final(self).to_col.col_abs == abs, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).from_col == old(self).from_col, final(self).to_table == old(self).to_table, final(self).to_col.col == old(self).to_col.col,
//@end
//@fn file=src/refs.rs path=ColRange::to_col_abs
//@params 
//@ret r
//@spec
    ensures r == self.to_col.col_abs,
//@end
//@fn file=src/refs.rs path=ColRange::to_formula
//@params 
//@ret r
//@spec
    ensures r@ == col_range_on(seq!['['], *self).push(']'),
//@end
//@fn file=src/refs.rs path=ColRange::absolute
//@params 
//@ret r
//@spec
    ensures r.iri == self.iri, r.from_table == self.from_table, r.from_col == ccol(true, self.from_col.col), r.to_table == self.to_table, r.to_col == ccol(true, self.to_col.col),
//@end
//@fn file=src/refs.rs path=ColRange::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r is Ok, final(f)@ == col_range_on(old(f)@, *self),
//@end
}
impl RowRange {
//@fn file=src/refs.rs path=RowRange::new_all
//@params iri table row_abs row to_table to_row_abs to_row
//@ret r
//@spec
    ensures r.iri == iri, r.from_table == table, r.from_row == crow(row_abs, row), r.to_table == to_table, r.to_row == crow(to_row_abs, to_row),
//@end
//@fn file=src/refs.rs path=RowRange::set_iri
//@params iri
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@subst $idx.into() ==> $idx
//@spec
    ensures final(self).iri is Some, final(self).iri->0 == iri, final(self).from_table == old(self).from_table, final(self).from_row == old(self).from_row, final(self).to_table == old(self).to_table, final(self).to_row == old(self).to_row,
//@end
//@fn file=src/refs.rs path=RowRange::set_table
//@params table
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@subst $idx.into() ==> $idx
//@spec
    ensures final(self).from_table is Some, final(self).from_table->0 == table, final(self).iri == old(self).iri, final(self).from_row == old(self).from_row, final(self).to_table == old(self).to_table, final(self).to_row == old(self).to_row,
//@end
//@fn file=src/refs.rs path=RowRange::set_to_table
//@params table
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@subst $idx.into() ==> $idx
//@spec
    ensures final(self).to_table is Some, final(self).to_table->0 == table, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).from_row == old(self).from_row, final(self).to_row == old(self).to_row,
//@end
//@fn file=src/refs.rs path=RowRange::iri
//@params 
//@ret r
//@spec
    ensures same_opt(r, self.iri),
//@end
//@fn file=src/refs.rs path=RowRange::table
//@params 
//@ret r
//@spec
    ensures same_opt(r, self.from_table),
//@end
//@fn file=src/refs.rs path=RowRange::to_table
//@params 
//@ret r
//@spec
    ensures same_opt(r, self.to_table),
//@end
//@fn file=src/refs.rs path=RowRange::set_row
//@params row
//@spec
    ensures final(self).from_row.row == row, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).to_table == old(self).to_table, final(self).to_row == old(self).to_row, final(self).from_row.row_abs == old(self).from_row.row_abs,
//@end
//@fn file=src/refs.rs path=RowRange::row
//@params 
//@ret r
//@spec
    ensures r == self.from_row.row,
//@end
//@fn file=src/refs.rs path=RowRange::set_row_abs
//@params abs
//@spec
    ensures final(self).from_row.row_abs == abs, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).to_table == old(self).to_table, final(self).to_row == old(self).to_row, final(self).from_row.row == old(self).from_row.row,
//@end
//@fn file=src/refs.rs path=RowRange::row_abs
//@params 
//@ret r
//@spec
    ensures r == self.from_row.row_abs,
//@end
//@fn file=src/refs.rs path=RowRange::set_to_row
//@params to_row
//@spec
    ensures final(self).to_row.row == to_row, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).from_row == old(self).from_row, final(self).to_table == old(self).to_table, final(self).to_row.row_abs == old(self).to_row.row_abs,
//@end
//@fn file=src/refs.rs path=RowRange::to_row
//@params 
//@ret r
//@spec
    ensures r == self.to_row.row,
//@end
//@fn file=src/refs.rs path=RowRange::set_to_row_abs
//@params abs
//@spec
    ensures final(self).to_row.row_abs == abs, final(self).iri == old(self).iri, final(self).from_table == old(self).from_table, final(self).from_row == old(self).from_row, final(self).to_table == old(self).to_table, final(self).to_row.row == old(self).to_row.row,
//@end
//@fn file=src/refs.rs path=RowRange::to_row_abs
//@params 
//@ret r
//@spec
    ensures r == self.to_row.row_abs,
//@end
//@fn file=src/refs.rs path=RowRange::to_formula
//@params 
//@ret r
//@spec
    ensures r@ == row_range_on(seq!['['], *self).push(']'),
//@end
//@fn file=src/refs.rs path=RowRange::absolute
//@params 
//@ret r
//@spec
    ensures r.iri == self.iri, r.from_table == self.from_table, r.from_row == crow(true, self.from_row.row), r.to_table == self.to_table, r.to_row == crow(true, self.to_row.row),
//@end
//@fn file=src/refs.rs path=RowRange::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r is Ok, final(f)@ == row_range_on(old(f)@, *self),
//@end
}

//@fn file=src/refs.rs path=format::fmt_row
//@params f row
//@ret r
//@spec
    ensures r is Ok, final(f)@ == row_on(old(f)@, *row),
//@end
//@fn file=src/refs.rs path=format::fmt_col
//@params f col
//@ret r
//@spec
    ensures r is Ok, final(f)@ == col_on(old(f)@, *col),
//@end
//@fn file=src/refs.rs path=format::fmt_iri
//@params f iri
//@ret r
//@subst write!($f, "{}", &$idi.replace('\'', "''")) ==> vp_write_str($f, &vp_double_quotes($idi))
//@spec
    ensures r is Ok, final(f)@ == (match iri { Some(i) => quoted_on(old(f)@, i@).push('#'), None => old(f)@ }),
//@end
//@fn file=src/refs.rs path=format::fmt_table_name
//@params f table_name abs
//@ret r
//@subst write!($f, "{}", &$idi.replace('\'', "''")) ==> vp_write_str($f, &vp_double_quotes($idi))
//@subst write!($f, "{}", table_name) ==> vp_write_str($f, table_name)
//@subst table_name.chars().any(|c| $e) ==> vp_any(table_name, |c: char| -> (b: bool) ensures b == !plain_char(c) { $e })
//@subst c.is_ascii() ==> vp_is_ascii(c)
//@subst c.is_ascii_alphanumeric() ==> vp_is_ascii_alphanumeric(c)
//@spec
    ensures r is Ok, final(f)@ == table_on(old(f)@, table_name@, abs),
//@end
//@fn file=src/refs.rs path=format::fmt_cell_ref
//@params f cell_ref
//@ret r
//@spec
    ensures r is Ok, final(f)@ == cell_ref_on(old(f)@, *cell_ref),
//@end
//@fn file=src/refs.rs path=format::fmt_cell_range
//@params f cell_range
//@ret r
//@spec
    ensures r is Ok, final(f)@ == cell_range_on(old(f)@, *cell_range),
//@end
//@fn file=src/refs.rs path=format::fmt_col_range
//@params f col_range
//@ret r
//@spec
    ensures r is Ok, final(f)@ == col_range_on(old(f)@, *col_range),
//@end
//@fn file=src/refs.rs path=format::fmt_row_range
//@params f row_range
//@ret r
//@spec
    ensures r is Ok, final(f)@ == row_range_on(old(f)@, *row_range),
//@end

