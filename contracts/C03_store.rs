//@include pre.rs
use std::collections::BTreeMap;
// C03: the sheet is a map from positions to cells.
verus! {
//@include cellview.inc.rs

impl Sheet {
//@fn file=src/sheet_.rs path=Sheet::is_empty
//@params row col
//@ret r
//@spec
    ensures r == !self.data@.contains_key((row, col)),
//@end
//@fn file=src/sheet_.rs path=Sheet::cell_count
//@ret r
//@spec
    ensures r == self.data@.len(),
//@end
//@fn file=src/sheet_.rs path=Sheet::cell
//@params row col
//@ret r
//@subst self.data.get($k).map(CellData::cloned_cell_content) ==> vp_map_cloned(self.data.get($k))
//@spec
    ensures match r { Some(c) => self.data@.contains_key((row, col)) && cv(c) == dv(self.data@[(row, col)]), None => !self.data@.contains_key((row, col)) },
//@end
//@fn file=src/sheet_.rs path=Sheet::cell_ref
//@params row col
//@ret r
//@subst self.data.get($k).map(CellData::cell_content_ref) ==> vp_map_ref(self.data.get($k))
//@spec
    ensures match r { Some(c) => self.data@.contains_key((row, col)) && rv(c) == dv(self.data@[(row, col)]), None => !self.data@.contains_key((row, col)) },
//@end
//@fn file=src/sheet_.rs path=Sheet::add_cell
//@params row col cell
//@spec
    ensures upd(old(self).data@, final(self).data@, (row, col), cv(cell)), same_rest(*old(self), *final(self)),
//@end
//@fn file=src/sheet_.rs path=Sheet::remove_cell
//@params row col
//@ret r
//@subst self.data.remove($k).map(CellData::into_cell_content) ==> vp_map_into(self.data.remove($k))
//@spec
    ensures final(self).data@ == old(self).data@.remove((row, col)), same_rest(*old(self), *final(self)),
        match r { Some(c) => old(self).data@.contains_key((row, col)) && cv(c) == dv(old(self).data@[(row, col)]), None => !old(self).data@.contains_key((row, col)) },
//@end
//@fn file=src/sheet_.rs path=Sheet::add_cell_data
//@params row col cell
//@spec
    ensures final(self).data@ == old(self).data@.insert((row, col), cell), same_rest(*old(self), *final(self)),
//@end
//@fn file=src/sheet_.rs path=Sheet::set_styled
//@params row col value style
//@subst self.data.entry((row, col)).or_default() ==> vp_entry(&mut self.data, (row, col))
//@subst <V: Into<Value>> ==>
//@subst : V, ==> : Value,
//@subst : V ==> : Value
//@subst $idx.into() ==> $idx
//@spec
    
    ensures upd(old(self).data@, final(self).data@, (row, col), Cell { value: value, style: Some(*style), ..cell_at(old(self).data@, (row, col)) }), same_rest(*old(self), *final(self)),
//@end
//@fn file=src/sheet_.rs path=Sheet::set_styled_value
//@params row col value style
//@subst self.data.entry((row, col)).or_default() ==> vp_entry(&mut self.data, (row, col))
//@subst <V: Into<Value>> ==>
//@subst : V, ==> : Value,
//@subst : V ==> : Value
//@subst $idx.into() ==> $idx
//@subst style.clone() ==> vp_clone(style)
//@spec
    
    ensures upd(old(self).data@, final(self).data@, (row, col), Cell { value: value, style: Some(*style), ..cell_at(old(self).data@, (row, col)) }), same_rest(*old(self), *final(self)),
//@end
//@fn file=src/sheet_.rs path=Sheet::set_value
//@params row col value
//@subst self.data.entry((row, col)).or_default() ==> vp_entry(&mut self.data, (row, col))
//@subst <V: Into<Value>> ==>
//@subst : V, ==> : Value,
//@subst : V ==> : Value
//@subst $idx.into() ==> $idx
//@spec
    
    ensures upd(old(self).data@, final(self).data@, (row, col), Cell { value: value, ..cell_at(old(self).data@, (row, col)) }), same_rest(*old(self), *final(self)),
//@end
//@fn file=src/sheet_.rs path=Sheet::value
//@params row col
//@ret r
//@spec
    ensures *r == cell_at(self.data@, (row, col)).value,
//@end
//@fn file=src/sheet_.rs path=Sheet::set_formula
//@params row col formula
//@subst self.data.entry((row, col)).or_default() ==> vp_entry(&mut self.data, (row, col))
//@subst <V: Into<String>> ==>
//@subst : V, ==> : String,
//@subst : V ==> : String
//@subst $idx.into() ==> $idx
//@spec
    
    ensures upd(old(self).data@, final(self).data@, (row, col), Cell { formula: Some(formula), ..cell_at(old(self).data@, (row, col)) }), same_rest(*old(self), *final(self)),
//@end
//@fn file=src/sheet_.rs path=Sheet::clear_formula
//@params row col
//@spec
    ensures same_rest(*old(self), *final(self)),
        !old(self).data@.contains_key((row, col)) ==> final(self).data@ == old(self).data@,
        old(self).data@.contains_key((row, col)) ==> upd(old(self).data@, final(self).data@, (row, col), Cell { formula: None, ..cell_at(old(self).data@, (row, col)) }),
//@end
//@fn file=src/sheet_.rs path=Sheet::formula
//@params row col
//@ret r
//@spec
    ensures match r { Some(s) => cell_at(self.data@, (row, col)).formula == Some(*s), None => cell_at(self.data@, (row, col)).formula is None },
//@end
//@fn file=src/sheet_.rs path=Sheet::set_cell_repeat
//@params row col repeat
//@subst self.data.entry((row, col)).or_default() ==> vp_entry(&mut self.data, (row, col))
//@spec
    
    ensures upd(old(self).data@, final(self).data@, (row, col), Cell { repeat: repeat, ..cell_at(old(self).data@, (row, col)) }), same_rest(*old(self), *final(self)),
//@end
//@fn file=src/sheet_.rs path=Sheet::cell_repeat
//@params row col
//@ret r
//@spec
    ensures r == cell_at(self.data@, (row, col)).repeat,
//@end
//@fn file=src/sheet_.rs path=Sheet::set_cellstyle
//@params row col style
//@subst self.data.entry((row, col)).or_default() ==> vp_entry(&mut self.data, (row, col))
//@subst style.clone() ==> vp_clone(style)
//@spec
    
    ensures upd(old(self).data@, final(self).data@, (row, col), Cell { style: Some(*style), ..cell_at(old(self).data@, (row, col)) }), same_rest(*old(self), *final(self)),
//@end
//@fn file=src/sheet_.rs path=Sheet::clear_cellstyle
//@params row col
//@spec
    ensures same_rest(*old(self), *final(self)),
        !old(self).data@.contains_key((row, col)) ==> final(self).data@ == old(self).data@,
        old(self).data@.contains_key((row, col)) ==> upd(old(self).data@, final(self).data@, (row, col), Cell { style: None, ..cell_at(old(self).data@, (row, col)) }),
//@end
//@fn file=src/sheet_.rs path=Sheet::cellstyle
//@params row col
//@ret r
//@spec
    ensures match r { Some(s) => cell_at(self.data@, (row, col)).style == Some(*s), None => cell_at(self.data@, (row, col)).style is None },
//@end
//@fn file=src/sheet_.rs path=Sheet::set_validation
//@params row col validation
//@subst self.data.entry((row, col)).or_default() ==> vp_entry(&mut self.data, (row, col))
//@subst validation.clone() ==> vp_clone(validation)
//@spec
    
    ensures upd(old(self).data@, final(self).data@, (row, col), Cell { validation: Some(*validation), ..cell_at(old(self).data@, (row, col)) }), same_rest(*old(self), *final(self)),
//@end
//@fn file=src/sheet_.rs path=Sheet::clear_validation
//@params row col
//@spec
    ensures same_rest(*old(self), *final(self)),
        !old(self).data@.contains_key((row, col)) ==> final(self).data@ == old(self).data@,
        old(self).data@.contains_key((row, col)) ==> upd(old(self).data@, final(self).data@, (row, col), Cell { validation: None, ..cell_at(old(self).data@, (row, col)) }),
//@end
//@fn file=src/sheet_.rs path=Sheet::validation
//@params row col
//@ret r
//@spec
    ensures match r { Some(s) => cell_at(self.data@, (row, col)).validation == Some(*s), None => cell_at(self.data@, (row, col)).validation is None },
//@end
//@fn file=src/sheet_.rs path=Sheet::set_row_span
//@params row col span
//@subst self.data.entry((row, col)).or_default() ==> vp_entry(&mut self.data, (row, col))
//@subst assert!($e) ==> vp_holds($e)
//@spec
    requires span > 0,
    ensures upd(old(self).data@, final(self).data@, (row, col), Cell { span: (span, cell_at(old(self).data@, (row, col)).span.1), ..cell_at(old(self).data@, (row, col)) }), same_rest(*old(self), *final(self)),
//@end
//@fn file=src/sheet_.rs path=Sheet::row_span
//@params row col
//@ret r
//@spec
    ensures r == cell_at(self.data@, (row, col)).span.0,
//@end
//@fn file=src/sheet_.rs path=Sheet::set_col_span
//@params row col span
//@subst self.data.entry((row, col)).or_default() ==> vp_entry(&mut self.data, (row, col))
//@subst assert!($e) ==> vp_holds($e)
//@spec
    requires span > 0,
    ensures upd(old(self).data@, final(self).data@, (row, col), Cell { span: (cell_at(old(self).data@, (row, col)).span.0, span), ..cell_at(old(self).data@, (row, col)) }), same_rest(*old(self), *final(self)),
//@end
//@fn file=src/sheet_.rs path=Sheet::col_span
//@params row col
//@ret r
//@spec
    ensures r == cell_at(self.data@, (row, col)).span.1,
//@end
//@fn file=src/sheet_.rs path=Sheet::set_matrix_row_span
//@params row col span
//@subst self.data.entry((row, col)).or_default() ==> vp_entry(&mut self.data, (row, col))
//@subst assert!($e) ==> vp_holds($e)
//@spec
    requires span > 0,
    ensures upd(old(self).data@, final(self).data@, (row, col), Cell { matrix: (span, cell_at(old(self).data@, (row, col)).matrix.1), ..cell_at(old(self).data@, (row, col)) }), same_rest(*old(self), *final(self)),
//@end
//@fn file=src/sheet_.rs path=Sheet::matrix_row_span
//@params row col
//@ret r
//@spec
    ensures r == cell_at(self.data@, (row, col)).matrix.0,
//@end
//@fn file=src/sheet_.rs path=Sheet::set_matrix_col_span
//@params row col span
//@subst self.data.entry((row, col)).or_default() ==> vp_entry(&mut self.data, (row, col))
//@subst assert!($e) ==> vp_holds($e)
//@spec
    requires span > 0,
    ensures upd(old(self).data@, final(self).data@, (row, col), Cell { matrix: (cell_at(old(self).data@, (row, col)).matrix.0, span), ..cell_at(old(self).data@, (row, col)) }), same_rest(*old(self), *final(self)),
//@end
//@fn file=src/sheet_.rs path=Sheet::matrix_col_span
//@params row col
//@ret r
//@spec
    ensures r == cell_at(self.data@, (row, col)).matrix.1,
//@end
//@fn file=src/sheet_.rs path=Sheet::set_annotation
//@params row col annotation
//@subst self.data.entry((row, col)).or_default() ==> vp_entry(&mut self.data, (row, col))
//@spec
    
    ensures upd(old(self).data@, final(self).data@, (row, col), Cell { annotation: Some(annotation), ..cell_at(old(self).data@, (row, col)) }), same_rest(*old(self), *final(self)),
//@end
//@fn file=src/sheet_.rs path=Sheet::clear_annotation
//@params row col
//@spec
    ensures same_rest(*old(self), *final(self)),
        !old(self).data@.contains_key((row, col)) ==> final(self).data@ == old(self).data@,
        old(self).data@.contains_key((row, col)) ==> upd(old(self).data@, final(self).data@, (row, col), Cell { annotation: None, ..cell_at(old(self).data@, (row, col)) }),
//@end
//@fn file=src/sheet_.rs path=Sheet::annotation
//@params row col
//@ret r
//@subst c.annotation.as_ref().map(|v| v.as_ref()) ==> vp_unbox(&c.annotation)
//@spec
    ensures match r { Some(s) => cell_at(self.data@, (row, col)).annotation == Some(*s), None => cell_at(self.data@, (row, col)).annotation is None },
//@end
//@fn file=src/sheet_.rs path=Sheet::add_draw_frame
//@params row col draw_frame
//@subst self.data.entry((row, col)).or_default() ==> vp_entry(&mut self.data, (row, col))
//@spec
    
    ensures upd(old(self).data@, final(self).data@, (row, col), Cell { frames: cell_at(old(self).data@, (row, col)).frames.push(draw_frame), ..cell_at(old(self).data@, (row, col)) }), same_rest(*old(self), *final(self)),
//@end
//@fn file=src/sheet_.rs path=Sheet::clear_draw_frames
//@params row col
//@spec
    ensures same_rest(*old(self), *final(self)),
        !old(self).data@.contains_key((row, col)) ==> final(self).data@ == old(self).data@,
        old(self).data@.contains_key((row, col)) ==> upd(old(self).data@, final(self).data@, (row, col), Cell { frames: Seq::empty(), ..cell_at(old(self).data@, (row, col)) }),
//@end
//@fn file=src/sheet_.rs path=Sheet::draw_frames
//@params row col
//@ret r
//@subst Some(c.draw_frames.as_ref()) ==> Some(&c.draw_frames)
//@spec
    ensures match r { Some(s) => cell_at(self.data@, (row, col)).frames == s@, None => cell_at(self.data@, (row, col)).frames == Seq::<DrawFrame>::empty() },
//@end
}
impl CellContent {
//@fn file=src/cell_.rs path=CellContent::default trait=Default
//@ret r
//@subst value: Default::default() ==> value: Value::Empty
//@subst Default::default() ==> CellSpan::default()
//@spec
    ensures cv(r) =~= blank(),
//@end
//@fn file=src/cell_.rs path=CellContent::new
//@ret r
//@subst Default::default() ==> CellContent::default()
//@spec
    ensures cv(r) =~= blank(),
//@end
//@fn file=src/cell_.rs path=CellContent::value
//@ret r
//@spec
    ensures *r == self.value,
//@end
//@fn file=src/cell_.rs path=CellContent::set_value
//@params value
//@subst <V: Into<Value>> ==>
//@subst : V, ==> : Value,
//@subst : V ==> : Value
//@subst $idx.into() ==> $idx
//@spec
    
    ensures cv(*final(self)) =~= (Cell { value: value, ..cv(*old(self)) }),
//@end
//@fn file=src/cell_.rs path=CellContent::formula
//@ret r
//@spec
    ensures deref(r) == cv(*self).formula,
//@end
//@fn file=src/cell_.rs path=CellContent::set_formula
//@params formula
//@subst <V: Into<String>> ==>
//@subst : V, ==> : String,
//@subst : V ==> : String
//@subst $idx.into() ==> $idx
//@spec
    
    ensures cv(*final(self)) =~= (Cell { formula: Some(formula), ..cv(*old(self)) }),
//@end
//@fn file=src/cell_.rs path=CellContent::clear_formula
//@spec
    
    ensures cv(*final(self)) =~= (Cell { formula: None, ..cv(*old(self)) }),
//@end
//@fn file=src/cell_.rs path=CellContent::style
//@ret r
//@spec
    ensures deref(r) == cv(*self).style,
//@end
//@fn file=src/cell_.rs path=CellContent::set_style
//@params style
//@subst style.clone() ==> vp_clone(style)
//@spec
    
    ensures cv(*final(self)) =~= (Cell { style: Some(*style), ..cv(*old(self)) }),
//@end
//@fn file=src/cell_.rs path=CellContent::clear_style
//@spec
    
    ensures cv(*final(self)) =~= (Cell { style: None, ..cv(*old(self)) }),
//@end
//@fn file=src/cell_.rs path=CellContent::set_repeat
//@params repeat
//@subst assert!($e) ==> vp_holds($e)
//@spec
    requires repeat > 0,
    ensures cv(*final(self)) =~= (Cell { repeat: repeat, ..cv(*old(self)) }),
//@end
//@fn file=src/cell_.rs path=CellContent::set_repeat as=set_repeat_rejects
//@params repeat
//@subst assert!($e) ==> vp_rejects($e)
//@spec
    ensures repeat > 0,
//@end
//@fn file=src/cell_.rs path=CellContent::get_repeat
//@ret r
//@spec
    ensures r == old(self).repeat, *final(self) == *old(self),
//@end
//@fn file=src/cell_.rs path=CellContent::validation
//@ret r
//@spec
    ensures deref(r) == cv(*self).validation,
//@end
//@fn file=src/cell_.rs path=CellContent::set_validation
//@params validation
//@subst validation.clone() ==> vp_clone(validation)
//@spec
    
    ensures cv(*final(self)) =~= (Cell { validation: Some(*validation), ..cv(*old(self)) }),
//@end
//@fn file=src/cell_.rs path=CellContent::clear_validation
//@spec
    
    ensures cv(*final(self)) =~= (Cell { validation: None, ..cv(*old(self)) }),
//@end
//@fn file=src/cell_.rs path=CellContent::set_row_span
//@params rows
//@subst assert!($e) ==> vp_holds($e)
//@spec
    requires rows > 0,
    ensures cv(*final(self)) =~= (Cell { span: (rows, cv(*old(self)).span.1), ..cv(*old(self)) }),
//@end
//@fn file=src/cell_.rs path=CellContent::set_row_span as=set_row_span_rejects
//@params rows
//@subst assert!($e) ==> vp_rejects($e)
//@spec
    ensures rows > 0,
//@end
//@fn file=src/cell_.rs path=CellContent::row_span
//@ret r
//@spec
    ensures r == cv(*self).span.0,
//@end
//@fn file=src/cell_.rs path=CellContent::set_col_span
//@params cols
//@subst assert!($e) ==> vp_holds($e)
//@spec
    requires cols > 0,
    ensures cv(*final(self)) =~= (Cell { span: (cv(*old(self)).span.0, cols), ..cv(*old(self)) }),
//@end
//@fn file=src/cell_.rs path=CellContent::set_col_span as=set_col_span_rejects
//@params cols
//@subst assert!($e) ==> vp_rejects($e)
//@spec
    ensures cols > 0,
//@end
//@fn file=src/cell_.rs path=CellContent::col_span
//@ret r
//@spec
    ensures r == cv(*self).span.1,
//@end
//@fn file=src/cell_.rs path=CellContent::set_matrix_row_span
//@params rows
//@subst assert!($e) ==> vp_holds($e)
//@spec
    requires rows > 0,
    ensures cv(*final(self)) =~= (Cell { matrix: (rows, cv(*old(self)).matrix.1), ..cv(*old(self)) }),
//@end
//@fn file=src/cell_.rs path=CellContent::set_matrix_row_span as=set_matrix_row_span_rejects
//@params rows
//@subst assert!($e) ==> vp_rejects($e)
//@spec
    ensures rows > 0,
//@end
//@fn file=src/cell_.rs path=CellContent::matrix_row_span
//@ret r
//@spec
    ensures r == cv(*self).matrix.0,
//@end
//@fn file=src/cell_.rs path=CellContent::set_matrix_col_span
//@params cols
//@subst assert!($e) ==> vp_holds($e)
//@spec
    requires cols > 0,
    ensures cv(*final(self)) =~= (Cell { matrix: (cv(*old(self)).matrix.0, cols), ..cv(*old(self)) }),
//@end
//@fn file=src/cell_.rs path=CellContent::set_matrix_col_span as=set_matrix_col_span_rejects
//@params cols
//@subst assert!($e) ==> vp_rejects($e)
//@spec
    ensures cols > 0,
//@end
//@fn file=src/cell_.rs path=CellContent::matrix_col_span
//@ret r
//@spec
    ensures r == cv(*self).matrix.1,
//@end
//@fn file=src/cell_.rs path=CellContent::set_annotation
//@params annotation
//@spec
    
    ensures cv(*final(self)) =~= (Cell { annotation: Some(annotation), ..cv(*old(self)) }),
//@end
//@fn file=src/cell_.rs path=CellContent::clear_annotation
//@spec
    
    ensures cv(*final(self)) =~= (Cell { annotation: None, ..cv(*old(self)) }),
//@end
//@fn file=src/cell_.rs path=CellContent::annotation
//@ret r
//@subst self.annotation.as_ref().map(|v| v.as_ref()) ==> vp_unbox(&self.annotation)
//@spec
    ensures deref(r) == cv(*self).annotation,
//@end
//@fn file=src/cell_.rs path=CellContent::set_draw_frames
//@params draw_frames
//@spec
    
    ensures cv(*final(self)) =~= (Cell { frames: draw_frames@, ..cv(*old(self)) }),
//@end
//@fn file=src/cell_.rs path=CellContent::draw_frames
//@ret r
//@spec
    ensures r@ == cv(*self).frames,
//@end
}
impl<'a> CellContentRef<'a> {
//@fn file=src/cell_.rs path=CellContentRef::value
//@ret r
//@spec
    ensures *r == rv(*self).value,
//@end
//@fn file=src/cell_.rs path=CellContentRef::formula
//@ret r
//@spec
    ensures deref(r) == rv(*self).formula,
//@end
//@fn file=src/cell_.rs path=CellContentRef::style
//@ret r
//@spec
    ensures deref(r) == rv(*self).style,
//@end
//@fn file=src/cell_.rs path=CellContentRef::validation
//@ret r
//@spec
    ensures deref(r) == rv(*self).validation,
//@end
//@fn file=src/cell_.rs path=CellContentRef::annotation
//@ret r
//@spec
    ensures deref(r) == rv(*self).annotation,
//@end
//@fn file=src/cell_.rs path=CellContentRef::repeat
//@ret r
//@spec
    ensures r == rv(*self).repeat,
//@end
//@fn file=src/cell_.rs path=CellContentRef::row_span
//@ret r
//@spec
    ensures r == rv(*self).span.0,
//@end
//@fn file=src/cell_.rs path=CellContentRef::col_span
//@ret r
//@spec
    ensures r == rv(*self).span.1,
//@end
//@fn file=src/cell_.rs path=CellContentRef::matrix_row_span
//@ret r
//@spec
    ensures r == rv(*self).matrix.0,
//@end
//@fn file=src/cell_.rs path=CellContentRef::matrix_col_span
//@ret r
//@spec
    ensures r == rv(*self).matrix.1,
//@end
//@fn file=src/cell_.rs path=CellContentRef::draw_frames
//@ret r
//@spec
    ensures (match r { Some(f) => f@, None => Seq::empty() }) == rv(*self).frames,
//@end
//@fn file=src/cell_.rs path=CellContentRef::to_owned
//@ret r
//@subst self.value.clone() ==> vp_clone(self.value)
//@subst self.draw_frames.cloned().unwrap_or_default() ==> vp_cloned_vec(self.draw_frames)
//@subst self.annotation.map(|v| Box::new(v.clone())) ==> vp_boxed(self.annotation)
//@subst self.$idx.cloned() ==> vp_cloned(self.$idx)
//@spec
    ensures cv(r) =~= rv(*self),
//@end
}
} // verus!
fn main() {}
