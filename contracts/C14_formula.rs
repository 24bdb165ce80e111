//@include pre.rs
use std::fmt;
// C14: reference helpers for formulas.
verus! {
//@include text.inc.rs

// trusted: a failed assert! does not return.
fn vp_holds(b: bool) requires b {}
impl CellRange {
//@fn file=src/refs.rs path=CellRange::local
//@params row col to_row to_col
//@ret r
//@subst assert!($e) ==> vp_holds($e)
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@subst $idx.into() ==> $idx
//@spec
    requires row <= to_row, col <= to_col,
    ensures r == range_of(false, false, row, col, to_row, to_col, None),
//@end
//@fn file=src/refs.rs path=CellRange::remote
//@params table row col to_row to_col
//@ret r
//@subst assert!($e) ==> vp_holds($e)
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@subst $idx.into() ==> $idx
//@spec
    requires row <= to_row, col <= to_col,
    ensures r == range_of(false, false, row, col, to_row, to_col, Some(table)),
//@end
}
/// the range a helper has to name
spec fn range_of(ra: bool, ca: bool, row: u32, col: u32, row2: u32, col2: u32, t: Option<String>) -> CellRange {
    CellRange { iri: None, from_table: t, from_row: crow(ra, row), from_col: ccol(ca, col), to_table: None, to_row: crow(ra, row2), to_col: ccol(ca, col2) }
}
spec fn ref_of(ra: bool, ca: bool, row: u32, col: u32, t: Option<String>) -> CellRef {
    CellRef { iri: None, table: t, row: crow(ra, row), col: ccol(ca, col) }
}
//@fn file=src/formula.rs path=fcellref
//@params row col
//@ret r
//@spec
    requires row < u32::MAX, col < u32::MAX,
    ensures r@ == cell_ref_on(seq!['['], ref_of(false, false, row, col, None)).push(']'),
//@end
//@fn file=src/formula.rs path=frangeref
//@params row col row_to col_to
//@ret r
//@spec
    requires row <= row_to, col <= col_to, row_to < u32::MAX, col_to < u32::MAX,
    ensures r@ == cell_range_on(seq!['['], range_of(false, false, row, col, row_to, col_to, None)).push(']'),
//@end
//@fn file=src/formula.rs path=fcellref_table
//@params table row col
//@ret r
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@spec
    requires row < u32::MAX, col < u32::MAX,
    ensures r@ == cell_ref_on(seq!['['], ref_of(false, false, row, col, Some(table))).push(']'),
//@end
//@fn file=src/formula.rs path=frangeref_table
//@params table row col row_to col_to
//@ret r
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@spec
    requires row <= row_to, col <= col_to, row_to < u32::MAX, col_to < u32::MAX,
    ensures r@ == cell_range_on(seq!['['], range_of(false, false, row, col, row_to, col_to, Some(table))).push(']'),
//@end
//@fn file=src/formula.rs path=fcellrefr
//@params row col
//@ret r
//@spec
    requires row < u32::MAX, col < u32::MAX,
    ensures r@ == cell_ref_on(seq!['['], ref_of(true, false, row, col, None)).push(']'),
//@end
//@fn file=src/formula.rs path=frangerefr
//@params row col row_to col_to
//@ret r
//@spec
    requires row <= row_to, col <= col_to, row_to < u32::MAX, col_to < u32::MAX,
    ensures r@ == cell_range_on(seq!['['], range_of(true, false, row, col, row_to, col_to, None)).push(']'),
//@end
//@fn file=src/formula.rs path=fcellrefr_table
//@params table row col
//@ret r
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@spec
    requires row < u32::MAX, col < u32::MAX,
    ensures r@ == cell_ref_on(seq!['['], ref_of(true, false, row, col, Some(table))).push(']'),
//@end
//@fn file=src/formula.rs path=frangerefr_table
//@params table row col row_to col_to
//@ret r
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@spec
    requires row <= row_to, col <= col_to, row_to < u32::MAX, col_to < u32::MAX,
    ensures r@ == cell_range_on(seq!['['], range_of(true, false, row, col, row_to, col_to, Some(table))).push(']'),
//@end
//@fn file=src/formula.rs path=fcellrefc
//@params row col
//@ret r
//@spec
    requires row < u32::MAX, col < u32::MAX,
    ensures r@ == cell_ref_on(seq!['['], ref_of(false, true, row, col, None)).push(']'),
//@end
//@fn file=src/formula.rs path=frangerefc
//@params row col row_to col_to
//@ret r
//@spec
    requires row <= row_to, col <= col_to, row_to < u32::MAX, col_to < u32::MAX,
    ensures r@ == cell_range_on(seq!['['], range_of(false, true, row, col, row_to, col_to, None)).push(']'),
//@end
//@fn file=src/formula.rs path=fcellrefc_table
//@params table row col
//@ret r
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@spec
    requires row < u32::MAX, col < u32::MAX,
    ensures r@ == cell_ref_on(seq!['['], ref_of(false, true, row, col, Some(table))).push(']'),
//@end
//@fn file=src/formula.rs path=frangerefc_table
//@params table row col row_to col_to
//@ret r
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@spec
    requires row <= row_to, col <= col_to, row_to < u32::MAX, col_to < u32::MAX,
    ensures r@ == cell_range_on(seq!['['], range_of(false, true, row, col, row_to, col_to, Some(table))).push(']'),
//@end
//@fn file=src/formula.rs path=fcellrefa
//@params row col
//@ret r
//@spec
    requires row < u32::MAX, col < u32::MAX,
    ensures r@ == cell_ref_on(seq!['['], ref_of(true, true, row, col, None)).push(']'),
//@end
//@fn file=src/formula.rs path=frangerefa
//@params row col row_to col_to
//@ret r
//@spec
    requires row <= row_to, col <= col_to, row_to < u32::MAX, col_to < u32::MAX,
    ensures r@ == cell_range_on(seq!['['], range_of(true, true, row, col, row_to, col_to, None)).push(']'),
//@end
//@fn file=src/formula.rs path=fcellrefa_table
//@params table row col
//@ret r
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@spec
    requires row < u32::MAX, col < u32::MAX,
    ensures r@ == cell_ref_on(seq!['['], ref_of(true, true, row, col, Some(table))).push(']'),
//@end
//@fn file=src/formula.rs path=frangerefa_table
//@params table row col row_to col_to
//@ret r
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@spec
    requires row <= row_to, col <= col_to, row_to < u32::MAX, col_to < u32::MAX,
    ensures r@ == cell_range_on(seq!['['], range_of(true, true, row, col, row_to, col_to, Some(table))).push(']'),
//@end

} // verus!
fn main() {}
