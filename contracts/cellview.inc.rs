//@struct file=src/cell_.rs name=CellSpan attr=derive(Clone,Copy)
//@end
//@struct file=src/cell_.rs name=CellData
//@end
//@struct file=src/cell_.rs name=CellDataExt
//@end
//@struct file=src/cell_.rs name=CellContent
//@end
//@struct file=src/cell_.rs name=CellContentRef
//@end
//@struct file=src/sheet_.rs name=Sheet
//@keep name,style,data,display,print
//@end
// opaque payloads, only moved and cloned here.
#[verifier::external_body] struct Annotation {}
#[verifier::external_body] struct DrawFrame {}
#[verifier::external_body] struct ValidationRef {}
#[verifier::external_body] struct CellStyleRef {}
#[verifier::external_body] struct TableStyleRef {}
#[verifier::external_body] struct OtherValue {}
// Value as far as the cell store looks at it.
enum Value { Empty, Other(OtherValue) }

// ------------------------------------------------------------------ specification
/// Everything a user can see of one cell.
#[verifier::ext_equal]
ghost struct Cell {
    value: Value, style: Option<CellStyleRef>, formula: Option<String>, repeat: u32, validation: Option<ValidationRef>,
    span: (u32, u32), matrix: (u32, u32), annotation: Option<Annotation>, frames: Seq<DrawFrame>,
}
spec fn blank() -> Cell {
    Cell { value: Value::Empty, style: None, formula: None, repeat: 1, validation: None, span: (1, 1), matrix: (1, 1), annotation: None, frames: Seq::empty() }
}
spec fn sp(s: CellSpan) -> (u32, u32) { (s.row_span, s.col_span) }
spec fn unbox(a: Option<Box<Annotation>>) -> Option<Annotation> { match a { Some(b) => Some(*b), None => None } }
spec fn dv(d: CellData) -> Cell {
    match d.extra {
        Some(x) => Cell { value: d.value, style: d.style, formula: d.formula, repeat: d.repeat, validation: x.validation_name, span: sp(x.span), matrix: sp(x.matrix_span), annotation: unbox(x.annotation), frames: x.draw_frames@ },
        None => Cell { value: d.value, style: d.style, formula: d.formula, repeat: d.repeat, ..blank() },
    }
}
spec fn cv(c: CellContent) -> Cell {
    Cell { value: c.value, style: c.style, formula: c.formula, repeat: c.repeat, validation: c.validation_name, span: sp(c.span), matrix: sp(c.matrix_span), annotation: unbox(c.annotation), frames: c.draw_frames@ }
}
spec fn deref<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
spec fn rv(c: CellContentRef) -> Cell {
    Cell { value: *c.value, style: deref(c.style), formula: deref(c.formula), repeat: c.repeat, validation: deref(c.validation_name), span: sp(c.span), matrix: sp(c.matrix_span), annotation: deref(c.annotation), frames: match c.draw_frames { Some(f) => f@, None => Seq::empty() } }
}
spec fn cell_at(m: Map<(u32, u32), CellData>, k: (u32, u32)) -> Cell { if m.contains_key(k) { dv(m[k]) } else { blank() } }
/// one cell is now c, every other cell is untouched.
spec fn upd(m: Map<(u32, u32), CellData>, m2: Map<(u32, u32), CellData>, k: (u32, u32), c: Cell) -> bool {
    m2.contains_key(k) && dv(m2[k]) =~= c && m2.remove(k) =~= m.remove(k)
}
spec fn same_rest(a: Sheet, b: Sheet) -> bool { a.name == b.name && a.style == b.style && a.display == b.display && a.print == b.print }
spec fn ext0() -> Cell { blank() }

// trusted: Clone gives an equal value.
#[verifier::external_body]
fn vp_clone<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
fn vp_holds(b: bool) requires b {}
#[verifier::external_body]
fn vp_rejects(b: bool) ensures b { assert!(b) }
fn vp_cloned<T>(o: Option<&T>) -> (r: Option<T>) ensures r == deref(o) { match o { Some(x) => Some(vp_clone(x)), None => None } }
fn vp_boxed(o: Option<&Annotation>) -> (r: Option<Box<Annotation>>) ensures unbox(r) == deref(o) { match o { Some(x) => Some(Box::new(vp_clone(x))), None => None } }
fn vp_cloned_vec(o: Option<&Vec<DrawFrame>>) -> (r: Vec<DrawFrame>) ensures r@ == (match o { Some(f) => f@, None => Seq::empty() }) { match o { Some(x) => vp_clone(x), None => Vec::new() } }
/// BTreeMap::entry(k).or_default()
fn vp_entry(m: &mut BTreeMap<(u32, u32), CellData>, k: (u32, u32)) -> (r: &mut CellData)
    ensures dv(*r) == cell_at(old(m)@, k), final(m)@ == old(m)@.insert(k, *final(r)),
{
    if !m.contains_key(&k) { m.insert(k, CellData::default()); }
    m.get_mut(&k).expect("entry")
}
fn vp_map_cloned(o: Option<&CellData>) -> (r: Option<CellContent>) ensures (match (o, r) { (Some(d), Some(c)) => cv(c) == dv(*d), (None, None) => true, _ => false }) { match o { Some(d) => Some(d.cloned_cell_content()), None => None } }
fn vp_map_ref(o: Option<&CellData>) -> (r: Option<CellContentRef<'_>>) ensures (match (o, r) { (Some(d), Some(c)) => rv(c) == dv(*d), (None, None) => true, _ => false }) { match o { Some(d) => Some(d.cell_content_ref()), None => None } }
fn vp_map_into(o: Option<CellData>) -> (r: Option<CellContent>) ensures (match (o, r) { (Some(d), Some(c)) => cv(c) == dv(d), (None, None) => true, _ => false }) { match o { Some(d) => Some(d.into_cell_content()), None => None } }
fn vp_unbox(a: &Option<Box<Annotation>>) -> (r: Option<&Annotation>) ensures deref(r) == unbox(*a) { match a { Some(b) => Some(&**b), None => None } }
fn vp_unbox_ref<'a>(a: Option<&'a Box<Annotation>>) -> (r: Option<&'a Annotation>) ensures (match (a, r) { (Some(x), Some(y)) => **x == *y, (None, None) => true, _ => false }) { match a { Some(b) => Some(&**b), None => None } }
fn vp_take_vec(v: &mut Vec<DrawFrame>) -> (r: Vec<DrawFrame>) ensures r@ == old(v)@, final(v)@ == Seq::<DrawFrame>::empty() { let mut n = Vec::new(); core::mem::swap(v, &mut n); n }

impl CellSpan {
//@fn file=src/cell_.rs path=CellSpan::default trait=Default
//@ret r
//@spec
    ensures sp(r) == (1u32, 1u32),
//@end
//@fn file=src/cell_.rs path=CellSpan::new
//@ret r
//@spec
    ensures sp(r) == (1u32, 1u32),
//@end
//@fn file=src/cell_.rs path=CellSpan::is_empty
//@ret r
//@spec
    ensures r == (sp(*self) == (1u32, 1u32)),
//@end
//@fn file=src/cell_.rs path=CellSpan::set_row_span
//@params rows
//@subst assert!($e) ==> vp_holds($e)
//@spec
    requires rows > 0,
    ensures sp(*final(self)) == (rows, old(self).col_span),
//@end
//@fn file=src/cell_.rs path=CellSpan::set_col_span
//@params cols
//@subst assert!($e) ==> vp_holds($e)
//@spec
    requires cols > 0,
    ensures sp(*final(self)) == (old(self).row_span, cols),
//@end
//@fn file=src/cell_.rs path=CellSpan::set_row_span as=set_row_span_rejects
//@params rows
//@subst assert!($e) ==> vp_rejects($e)
//@spec
    ensures rows > 0,
//@end
//@fn file=src/cell_.rs path=CellSpan::set_col_span as=set_col_span_rejects
//@params cols
//@subst assert!($e) ==> vp_rejects($e)
//@spec
    ensures cols > 0,
//@end
//@fn file=src/cell_.rs path=CellSpan::row_span
//@ret r
//@spec
    ensures r == self.row_span,
//@end
//@fn file=src/cell_.rs path=CellSpan::col_span
//@ret r
//@spec
    ensures r == self.col_span,
//@end
}
impl CellDataExt {
    // #[derive(Default)]
    fn default() -> (r: CellDataExt)
        ensures r.validation_name is None, sp(r.span) == (1u32, 1u32), sp(r.matrix_span) == (1u32, 1u32), r.annotation is None, r.draw_frames@ == Seq::<DrawFrame>::empty(),
    { CellDataExt { validation_name: None, span: CellSpan::default(), matrix_span: CellSpan::default(), annotation: None, draw_frames: Vec::new() } }
}
impl CellData {
//@fn file=src/cell_.rs path=CellData::default trait=Default
//@ret r
//@subst value: Default::default() ==> value: Value::Empty
//@spec
    ensures dv(r) == blank(),
//@end
//@fn file=src/cell_.rs path=CellData::extra_mut
//@ret r
//@subst Box::default() ==> Box::new(CellDataExt::default())
//@spec
    ensures
        dv(*old(self)) == dv(CellData { extra: Some(Box::new(*r)), ..*old(self) }),
        *final(self) == (CellData { extra: Some(Box::new(*final(r))), ..*old(self) }),
//@end
//@fn file=src/cell_.rs path=CellData::cloned_cell_content
//@ret r
//@subst extra.validation_name.clone() ==> vp_clone(&extra.validation_name)
//@subst extra.annotation.clone() ==> vp_clone(&extra.annotation)
//@subst extra.draw_frames.clone() ==> vp_clone(&extra.draw_frames)
//@subst self.$idx.clone() ==> vp_clone(&self.$idx)
//@subst Default::default() ==> CellSpan::default()
//@spec
    ensures cv(r) == dv(*self),
//@end
//@fn file=src/cell_.rs path=CellData::into_cell_content
//@ret r
//@subst Default::default() ==> CellSpan::default()
//@spec
    ensures cv(r) == dv(self),
//@end
//@fn file=src/cell_.rs path=CellData::cell_content_ref
//@ret r
//@subst annotation.map(|v| v.as_ref()) ==> vp_unbox_ref(annotation)
//@spec
    ensures rv(r) == dv(*self),
//@end
}
impl CellContent {
//@fn file=src/cell_.rs path=CellContent::into_celldata_ext
//@ret r
//@subst std::mem::take(&mut self.draw_frames) ==> vp_take_vec(&mut self.draw_frames)
//@spec
    ensures final(self).value == old(self).value, final(self).style == old(self).style, final(self).formula == old(self).formula, final(self).repeat == old(self).repeat,
        dv(CellData { value: old(self).value, formula: old(self).formula, style: old(self).style, repeat: old(self).repeat, extra: r }) =~= cv(*old(self)),
//@end
//@fn file=src/cell_.rs path=CellContent::into_celldata
//@ret r
//@spec
    ensures dv(r) == cv(self),
//@end
}
