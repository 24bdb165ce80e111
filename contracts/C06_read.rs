//@include pre.rs
use std::collections::BTreeMap;
// C06, C07, C08: what the reader makes of the elements of a table.
verus! {
//@struct file=src/refs.rs name=CRow attr=derive(Clone,Copy)
//@end
//@struct file=src/refs.rs name=CCol attr=derive(Clone,Copy)
//@end
//@struct file=src/refs.rs name=CellRange
//@end
//@struct file=src/sheet_.rs name=Grouped attr=derive(Clone,Copy)
//@end
//@struct file=src/sheet_.rs name=Header attr=derive(Clone,Copy)
//@end
//@struct file=src/sheet_.rs name=Visibility attr=derive(Clone,Copy,PartialEq,Eq,Structural)
//@end
//@struct file=src/style/units.rs name=Length attr=derive(Clone,Copy)
//@end
//@struct file=src/sheet_.rs name=ColHeader
//@end
//@struct file=src/sheet_.rs name=RowHeader
//@end
//@struct file=src/cell_.rs name=CellSpan attr=derive(Clone,Copy)
//@end
//@struct file=src/cell_.rs name=CellData
//@end
//@struct file=src/cell_.rs name=CellDataExt
//@end
//@struct file=src/sheet_.rs name=Sheet
//@keep name,style,data,display,print,col_header,row_header,group_rows,group_cols,header_rows,header_cols,print_ranges,extra
//@end
struct ColStyleRef { id: String }
struct RowStyleRef { id: String }
struct CellStyleRef { id: String }
struct TableStyleRef { id: String }
struct ValidationRef { id: String }
// proved in unit C12_book
impl ColStyleRef { #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } }
impl RowStyleRef { #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } }
impl CellStyleRef { #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } }
impl TableStyleRef { #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } }
impl ValidationRef { #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } }
//@struct file=src/value_.rs name=ValueType attr=derive(Clone,Copy,PartialEq,Eq)
//@end
//@struct file=src/value_.rs name=Value
//@subst Box<str> ==> String
//@end
#[verifier::external_body] #[derive(Clone, Copy)] struct NaiveDateTime {}
#[verifier::external_body] #[derive(Clone, Copy)] struct Duration {}
type TextTag = XmlTag;
#[verifier::external_body] struct Annotation {}
#[verifier::external_body] struct DrawFrame {}
#[verifier::external_body] struct XmlTag {}
//@struct file=src/io/read.rs name=OdsContext
//@keep ignore_empty_cells,col_group_buffer,row_group_buffer
//@end
impl OdsContext {
    // buffers are only reused
//@gsubst mem::take($e) ==> vp_take($e)
//@fn file=src/io/read.rs path=OdsContext::pop_colgroup_buf
//@ret r
//@spec
    ensures r@ == old(self).col_group_buffer@, final(self).col_group_buffer@.len() == 0, *final(self) == (OdsContext { col_group_buffer: final(self).col_group_buffer, ..*old(self) }),
//@end
//@fn file=src/io/read.rs path=OdsContext::pop_rowgroup_buf
//@ret r
//@spec
    ensures r@ == old(self).row_group_buffer@, final(self).row_group_buffer@.len() == 0, *final(self) == (OdsContext { row_group_buffer: final(self).row_group_buffer, ..*old(self) }),
//@end
//@fn file=src/io/read.rs path=OdsContext::push_colgroup_buf
//@params buf
//@spec
    ensures final(self).col_group_buffer@.len() == 0, *final(self) == (OdsContext { col_group_buffer: final(self).col_group_buffer, ..*old(self) }),
//@end
//@fn file=src/io/read.rs path=OdsContext::push_rowgroup_buf
//@params buf
//@spec
    ensures final(self).row_group_buffer@.len() == 0, *final(self) == (OdsContext { row_group_buffer: final(self).row_group_buffer, ..*old(self) }),
//@end
    #[verifier::external_body] fn pop_buf(&mut self) -> (r: Vec<u8>) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] fn push_buf(&mut self, buf: Vec<u8>) ensures *final(self) == *old(self) { unimplemented!() }
}
#[verifier::external_body] struct OdsError {}
fn vp_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { let mut n = Vec::new(); core::mem::swap(v, &mut n); n }
//@include rattr.inc.rs
//@names ak names "table:number-rows-repeated" "table:number-columns-repeated" "table:style-name" "table:default-cell-style-name" "table:visibility" "table:display" "table:name" "table:print-ranges" "table:print"
//@names ck cell_names "table:number-columns-repeated" "table:number-rows-spanned" "table:number-columns-spanned" "table:number-matrix-rows-spanned" "table:number-matrix-columns-spanned" "table:content-validation-name" "calcext:value-type" "office:value-type" "office:date-value" "office:time-value" "office:value" "office:boolean-value" "office:string-value" "office:currency" "table:formula" "table:style-name"
//@names ek elem_names "text:p" "office:annotation" "draw:frame" "table:table-cell" "table:covered-table-cell"
//@names tk tab_names "table:table" "table:title" "table:desc" "table:table-source" "office:dde-source" "table:scenario" "office:forms" "table:shapes" "table:named-expressions" "calcext:conditional-formats" "table:table-column-group" "table:table-header-columns" "table:table-columns" "table:table-column" "table:table-row-group" "table:table-header-rows" "table:table-rows" "table:table-row" "table:table-cell" "table:covered-table-cell"
//@names vk word_names "string" "float" "percentage" "date" "time" "boolean" "currency"
// ------------------------------------------------------------------ attribute texts (unit C09_text)
uninterp spec fn u32_of(s: Seq<char>) -> u32;
uninterp spec fn bool_of(s: Seq<char>) -> bool;
uninterp spec fn vis_of(s: Seq<char>) -> Visibility;
uninterp spec fn ranges_of(s: Seq<char>) -> Option<Seq<CellRange>>;
#[verifier::external_body] fn parse_u32(s: &VpBytes) -> (r: Result<u32, OdsError>) ensures r is Ok ==> r->Ok_0 == u32_of(s@) { unimplemented!() }
#[verifier::external_body] fn parse_bool(s: &VpBytes) -> (r: Result<bool, OdsError>) ensures r is Ok ==> r->Ok_0 == bool_of(s@) { unimplemented!() }
#[verifier::external_body] fn parse_visibility(s: &VpBytes) -> (r: Result<Visibility, OdsError>) ensures r is Ok ==> r->Ok_0 == vis_of(s@) { unimplemented!() }
spec fn dv(o: Option<Vec<CellRange>>) -> Option<Seq<CellRange>> { match o { Some(v) => Some(v@), None => None } }
#[verifier::external_body] fn parse_cellranges(s: &str) -> (r: Result<Option<Vec<CellRange>>, OdsError>) ensures r is Ok ==> dv(r->Ok_0) == ranges_of(s@) { unimplemented!() }

// ------------------------------------------------------------------ table
impl Sheet {
//@fn file=src/sheet_.rs path=Sheet::set_name
//@params name
//@subst <V: Into<String>> ==>
//@subst : V ==> : VpCow
//@subst name.into() ==> name.to_string()
//@spec
    ensures final(self).name@ == name.s@, same_cells(*old(self), *final(self)), final(self).style == old(self).style, final(self).display == old(self).display, final(self).print == old(self).print, final(self).print_ranges == old(self).print_ranges,
//@end
//@fn file=src/sheet_.rs path=Sheet::set_display
//@params display
//@spec
    ensures *final(self) == (Sheet { display: display, ..*old(self) }),
//@end
//@fn file=src/sheet_.rs path=Sheet::set_print
//@params print
//@spec
    ensures *final(self) == (Sheet { print: print, ..*old(self) }),
//@end
}
spec fn same_cells(a: Sheet, b: Sheet) -> bool { b.data == a.data && b.col_header == a.col_header && b.row_header == a.row_header && b.group_rows == a.group_rows && b.group_cols == a.group_cols && b.header_rows == a.header_rows && b.header_cols == a.header_cols && b.extra == a.extra }
spec fn same_head(a: Sheet, b: Sheet) -> bool { b.name == a.name && b.style == a.style && b.display == a.display && b.print == a.print && b.print_ranges == a.print_ranges && b.group_rows == a.group_rows && b.group_cols == a.group_cols && b.header_rows == a.header_rows && b.header_cols == a.header_cols && b.extra == a.extra }
spec fn sid_t(o: Option<TableStyleRef>) -> Option<Seq<char>> { match o { Some(x) => Some(x.id@), None => None } }
spec fn sid_c(o: Option<CellStyleRef>) -> Option<Seq<char>> { match o { Some(x) => Some(x.id@), None => None } }
spec fn sid_r(o: Option<RowStyleRef>) -> Option<Seq<char>> { match o { Some(x) => Some(x.id@), None => None } }
spec fn sid_o(o: Option<ColStyleRef>) -> Option<Seq<char>> { match o { Some(x) => Some(x.id@), None => None } }
/// the table has the name, style, print ranges and display state of its attributes
spec fn table_read(a: Sheet, b: Sheet, t: Seq<At>, n: int) -> bool {
    &&& same_cells(a, b)
    &&& b.name@ == (match av(t, n, "table:name"@) { Some(x) => unesc(x), None => a.name@ })
    &&& sid_t(b.style) == (match av(t, n, "table:style-name"@) { Some(x) => Some(unesc(x)), None => sid_t(a.style) })
    &&& b.print == (match av(t, n, "table:print"@) { Some(x) => bool_of(x), None => a.print })
    &&& b.display == (match av(t, n, "table:display"@) { Some(x) => bool_of(x), None => a.display })
    &&& dv(b.print_ranges) == (match av(t, n, "table:print-ranges"@) { Some(x) => ranges_of(unesc(x)), None => dv(a.print_ranges) })
}
//@fn file=src/io/read.rs path=read_table_attr
//@params ctx sheet super_tag
//@ret r
//@spec
    ensures r is Ok ==> table_read(*old(sheet), *final(sheet), super_tag.at(), super_tag.at().len() as int),
//@at start
    proof { names(); }
//@loop 0 it=it
    invariant it.seq().len() == vp_at@.len(), forall|i: int| 0 <= i < vp_at@.len() ==> *(#[trigger] it.seq()[i]) == vp_at@[i],
        ats(vp_at@) == super_tag.at(), table_read(*old(sheet), *sheet, super_tag.at(), it.index@ as int),
//@at loopstart 0
    proof { names(); assert(super_tag.at()[it.index@ as int] == attr.v()); }
//@end
// ------------------------------------------------------------------ rows
spec fn row_read(h: Option<RowHeader>, t: Seq<At>, n: int) -> bool {
    let st = av(t, n, "table:style-name"@); let ce = av(t, n, "table:default-cell-style-name"@); let vi = av(t, n, "table:visibility"@);
    match h {
        None => st is None && ce is None && vi is None,
        Some(h) => (st is Some || ce is Some || vi is Some) && sid_r(h.style) == mapu(st) && sid_c(h.cellstyle) == mapu(ce)
            && h.visible == (match vi { Some(x) => vis_of(x), None => Visibility::Visible }) && h.span == 1 && h.height == Length::Default,
    }
}
spec fn rep_read(t: Seq<At>, n: int, k: Seq<char>) -> u32 { match av(t, n, k) { Some(x) => u32_of(x), None => 1 } }
//@gsubst $idx.get_or_insert_with($idt::default) ==> vp_goi(&mut $idx, $idt::default())
impl RowHeader {
//@fn file=src/sheet_.rs path=RowHeader::default trait=Default
//@subst visible: Default::default() ==> visible: Visibility::Visible
//@subst height: Default::default() ==> height: Length::Default
//@ret r
//@spec
    ensures r.style is None, r.cellstyle is None, r.visible == Visibility::Visible, r.span == 1, r.height == Length::Default, r.repeat == 1,
//@end
}
impl ColHeader {
//@fn file=src/sheet_.rs path=ColHeader::default trait=Default
//@subst visible: Default::default() ==> visible: Visibility::Visible
//@subst width: Default::default() ==> width: Length::Default
//@ret r
//@spec
    ensures r.style is None, r.cellstyle is None, r.visible == Visibility::Visible, r.span == 1, r.width == Length::Default,
//@end
}
//@fn file=src/io/read.rs path=read_table_row_attr
//@params ctx sheet row super_tag
//@ret r
//@spec
    ensures r is Ok ==> ({ let t = super_tag.at(); let n = t.len() as int;
        &&& r->Ok_0 == rep_read(t, n, "table:number-rows-repeated"@)
        &&& same_head(*old(sheet), *final(sheet)) && final(sheet).data == old(sheet).data && final(sheet).col_header == old(sheet).col_header
        &&& final(sheet).row_header@ == old(sheet).row_header@ && row_read(None, t, n)
            || ({ let m = final(sheet).row_header@; m == old(sheet).row_header@.insert(row, m[row]) && row_read(Some(m[row]), t, n) && m[row].repeat == r->Ok_0 }) }),
//@at start
    proof { names(); }
//@loop 0 it=it
    invariant it.seq().len() == vp_at@.len(), forall|i: int| 0 <= i < vp_at@.len() ==> *(#[trigger] it.seq()[i]) == vp_at@[i],
        ats(vp_at@) == super_tag.at(), row_read(row_header, super_tag.at(), it.index@ as int), row_repeat == rep_read(super_tag.at(), it.index@ as int, "table:number-rows-repeated"@), *sheet == *old(sheet),
//@at loopstart 0
    proof { names(); assert(super_tag.at()[it.index@ as int] == attr.v()); }
//@end
// ------------------------------------------------------------------ columns
spec fn col_read(h: Option<ColHeader>, t: Seq<At>, n: int) -> bool {
    let st = av(t, n, "table:style-name"@); let ce = av(t, n, "table:default-cell-style-name"@); let vi = av(t, n, "table:visibility"@);
    match h {
        None => st is None && ce is None && vi is None,
        Some(h) => (st is Some || ce is Some || vi is Some) && sid_o(h.style) == mapu(st) && sid_c(h.cellstyle) == mapu(ce)
            && h.visible == (match vi { Some(x) => vis_of(x), None => Visibility::Visible }) && h.width == Length::Default,
    }
}
//@fn file=src/io/read.rs path=read_table_col_attr
//@params ctx sheet super_tag table_col
//@ret r
//@spec
    ensures r is Ok ==> ({ let t = super_tag.at(); let n = t.len() as int;
        &&& r->Ok_0 == rep_read(t, n, "table:number-columns-repeated"@)
        &&& same_head(*old(sheet), *final(sheet)) && final(sheet).data == old(sheet).data && final(sheet).row_header == old(sheet).row_header
        &&& final(sheet).col_header@ == old(sheet).col_header@ && col_read(None, t, n)
            || ({ let m = final(sheet).col_header@; m == old(sheet).col_header@.insert(table_col, m[table_col]) && col_read(Some(m[table_col]), t, n) && m[table_col].span == r->Ok_0 }) }),
//@at start
    proof { names(); }
//@loop 0 it=it
    invariant it.seq().len() == vp_at@.len(), forall|i: int| 0 <= i < vp_at@.len() ==> *(#[trigger] it.seq()[i]) == vp_at@[i],
        ats(vp_at@) == super_tag.at(), col_read(col_header, super_tag.at(), it.index@ as int), col_repeat == rep_read(super_tag.at(), it.index@ as int, "table:number-columns-repeated"@), *sheet == *old(sheet),
//@at loopstart 0
    proof { names(); assert(super_tag.at()[it.index@ as int] == attr.v()); }
//@end
// ------------------------------------------------------------------ groups
spec fn disp_read(t: Seq<At>, n: int) -> bool { match av(t, n, "table:display"@) { Some(x) => bool_of(x), None => true } }
//@fn file=src/io/read.rs path=read_table_column_group_attr
//@params table_col super_tag
//@ret r
//@spec
    ensures r is Ok ==> r->Ok_0.from == table_col && r->Ok_0.display == disp_read(super_tag.at(), super_tag.at().len() as int),
//@loop 0 it=it
    invariant it.seq().len() == vp_at@.len(), forall|i: int| 0 <= i < vp_at@.len() ==> *(#[trigger] it.seq()[i]) == vp_at@[i],
        ats(vp_at@) == super_tag.at(), display == disp_read(super_tag.at(), it.index@ as int),
//@at loopstart 0
    proof { assert(super_tag.at()[it.index@ as int] == attr.v()); }
//@end
//@fn file=src/io/read.rs path=read_table_row_group_attr
//@params row super_tag
//@ret r
//@spec
    ensures r is Ok ==> r->Ok_0.from == row && r->Ok_0.display == disp_read(super_tag.at(), super_tag.at().len() as int),
//@loop 0 it=it
    invariant it.seq().len() == vp_at@.len(), forall|i: int| 0 <= i < vp_at@.len() ==> *(#[trigger] it.seq()[i]) == vp_at@[i],
        ats(vp_at@) == super_tag.at(), display == disp_read(super_tag.at(), it.index@ as int),
//@at loopstart 0
    proof { assert(super_tag.at()[it.index@ as int] == attr.v()); }
//@end
// ------------------------------------------------------------------ events of the XML reader
ghost enum Ev { Start(Seq<char>, Seq<At>), Empty(Seq<char>, Seq<At>), End(Seq<char>), Eof, Other }
#[verifier::external_body] struct BytesEnd<'a> { _x: &'a u8 }
impl<'a> BytesEnd<'a> {
    uninterp spec fn tag(&self) -> Seq<char>;
    #[verifier::external_body] fn name(&self) -> (r: VpTagName) ensures r@ == self.tag() { unimplemented!() }
}
enum Event<'a> { Start(BytesStart<'a>), Empty(BytesStart<'a>), End(BytesEnd<'a>), Eof, Other }
spec fn ev(e: Event<'_>) -> Ev { match e { Event::Start(t) => Ev::Start(t.tag(), t.at()), Event::Empty(t) => Ev::Empty(t.tag(), t.at()), Event::End(t) => Ev::End(t.tag()), Event::Eof => Ev::Eof, Event::Other => Ev::Other } }
#[verifier::external_body] struct OdsXmlReader<'a> { _x: &'a u8 }
impl<'a> View for OdsXmlReader<'a> { type V = Seq<Ev>; uninterp spec fn view(&self) -> Seq<Ev>; }
impl<'a> OdsXmlReader<'a> {
    /// the next event; Eof after the last one
    #[verifier::external_body] fn read_event_into(&mut self, buf: &mut Vec<u8>) -> (r: Result<Event<'a>, OdsError>)
        ensures r is Ok ==> (if old(self)@.len() > 0 { ev(r->Ok_0) == old(self)@[0] && final(self)@ == old(self)@.drop_first() } else { r->Ok_0 is Eof && final(self)@ == old(self)@ }) { unimplemented!() }
}
#[verifier::external_body] fn vp_same_name(a: VpTagName, b: VpTagName) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
//@gsubst unused_event($a, $b) ==> vp_unused()
//@gsubst if cfg!(feature = "dump_xml") { $body } ==>
/// what follows an element that was read as a whole
uninterp spec fn after(r: Seq<Ev>) -> Seq<Ev>;
spec fn aft(r: Seq<Ev>) -> Seq<Ev> { if after(r).len() <= r.len() { after(r) } else { Seq::empty() } }

// ------------------------------------------------------------------ paragraphs of a cell
//@struct file=src/io/read.rs name=TextContent
//@end
//@struct file=src/io/read.rs name=ReadTableCell
//@end
ghost enum GC { Empty, Text(Seq<char>), Xml(XmlTag), XmlVec(Seq<XmlTag>) }
spec fn gc(t: TextContent) -> GC { match t { TextContent::Empty => GC::Empty, TextContent::Text(s) => GC::Text(s@), TextContent::Xml(x) => GC::Xml(x), TextContent::XmlVec(v) => GC::XmlVec(v@) } }
/// <text:p>s</text:p>
uninterp spec fn p_tag(s: Seq<char>) -> XmlTag;
#[verifier::external_body] fn vp_p_tag(s: String) -> (r: XmlTag) ensures r == p_tag(s@) { unimplemented!() }
spec fn pars(g: GC) -> Seq<XmlTag> { match g { GC::Empty => Seq::empty(), GC::Text(s) => seq![p_tag(s)], GC::Xml(x) => seq![x], GC::XmlVec(v) => v } }
/// one more paragraph
spec fn gappend(new: GC, old: GC) -> GC { if old is Empty { new } else { GC::XmlVec(pars(old) + pars(new)) } }
//@gsubst TextP::new().text($t).into_xmltag() ==> vp_p_tag($t)
//@gsubst vec![$x] ==> vp_vec1($x)
//@gsubst unreachable!(); ==> vp_unreachable()
fn vp_vec1<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); v }
fn vp_unreachable() requires false {}
//@fn file=src/io/read.rs path=append_text
//@params new_txt content
//@ret r
//@spec
    requires !(new_txt is XmlVec),
    ensures match gappend(gc(new_txt), gc(content)) { GC::XmlVec(v) => gc(r) matches GC::XmlVec(w) && w =~= v, g => gc(r) == g },
//@end
// ------------------------------------------------------------------ the value of a cell
uninterp spec fn f64_of(s: Seq<char>) -> f64;
uninterp spec fn dt_of(s: Seq<char>) -> NaiveDateTime;
uninterp spec fn dur_of(s: Seq<char>) -> Duration;
#[verifier::external_body] fn parse_f64(s: &VpBytes) -> (r: Result<f64, OdsError>) ensures r is Ok ==> r->Ok_0 == f64_of(s@) { unimplemented!() }
#[verifier::external_body] fn parse_datetime(s: &VpBytes) -> (r: Result<NaiveDateTime, OdsError>) ensures r is Ok ==> r->Ok_0 == dt_of(s@) { unimplemented!() }
#[verifier::external_body] fn parse_duration(s: &VpBytes) -> (r: Result<Duration, OdsError>) ensures r is Ok ==> r->Ok_0 == dur_of(s@) { unimplemented!() }
fn vp_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_owned() }
spec fn sv(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
spec fn type_of(w: Seq<char>) -> ValueType { if w == "string"@ { ValueType::Text } else if w == "float"@ { ValueType::Number } else if w == "percentage"@ { ValueType::Percentage } else if w == "date"@ { ValueType::DateTime } else if w == "time"@ { ValueType::TimeDuration } else if w == "boolean"@ { ValueType::Boolean } else if w == "currency"@ { ValueType::Currency } else { ValueType::Empty } }
/// the value attributes and the text of a cell
ghost struct Tv { ty: ValueType, dt: Option<NaiveDateTime>, dur: Option<Duration>, f: Option<f64>, b: Option<bool>, s: Option<Seq<char>>, cur: Option<Seq<char>>, text: GC }
spec fn tv(t: ReadTableCell) -> Tv { Tv { ty: t.val_type, dt: t.val_datetime, dur: t.val_duration, f: t.val_float, b: t.val_bool, s: sv(t.val_string), cur: sv(t.val_currency), text: gc(t.content) } }
/// the value of the given type, made of the value attributes and the paragraphs
spec fn value_of(v: Value, tc: Tv) -> bool {
    match tc.ty {
        ValueType::Empty => v is Empty,
        ValueType::Boolean => tc.b matches Some(b) && v == Value::Boolean(b),
        ValueType::Number => tc.f matches Some(f) && v == Value::Number(f),
        ValueType::Percentage => tc.f matches Some(f) && v == Value::Percentage(f),
        ValueType::Currency => tc.f matches Some(f) && v matches Value::Currency(g, c) && g == f && c@ == (match tc.cur { Some(x) => x, None => ""@ }),
        ValueType::Text => match tc.s {
            Some(s) => v matches Value::Text(x) && x@ == s,
            None => match tc.text { GC::Empty => v is Empty, GC::Text(s) => v matches Value::Text(x) && x@ == s, GC::Xml(x) => v matches Value::TextXml(y) && y@ == seq![x], GC::XmlVec(x) => v matches Value::TextXml(y) && y@ == x },
        },
        ValueType::TextXml => false,
        ValueType::DateTime => tc.dt matches Some(d) && v == Value::DateTime(d),
        ValueType::TimeDuration => tc.dur matches Some(d) && v == Value::TimeDuration(d),
    }
}
//@fn file=src/io/read.rs path=set_value
//@params tc cell
//@subst $idc.into_boxed_str() ==> $idc
//@subst "".into() ==> vp_string("")
//@ret r
//@spec
    requires old(cell).value is Empty, !(tc.val_type is TextXml),
    ensures r is Ok ==> value_of(final(cell).value, tv(tc)) && *final(cell) == (CellData { value: final(cell).value, ..*old(cell) }),
//@end
// ------------------------------------------------------------------ cells that hold nothing
impl CellSpan {
//@fn file=src/cell_.rs path=CellSpan::is_empty
//@ret r
//@spec
    ensures r == (self.row_span == 1 && self.col_span == 1),
//@end
}
spec fn deref<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
/// derived PartialEq of Value, compared with Value::Empty
fn vp_not_empty(v: &Value) -> (r: bool) ensures r == !(*v is Empty) { match v { Value::Empty => false, _ => true } }
fn vp_differs(a: Option<&CellStyleRef>, b: Option<&CellStyleRef>) -> (r: bool) ensures r == (sid_c(deref(a)) != sid_c(deref(b))) { match (a, b) { (Some(a), Some(b)) => !vp_str_eq(a.id.as_str(), b.id.as_str()), (None, None) => false, _ => true } }
#[verifier::external_body] fn vp_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
spec fn sid_v(o: Option<ValidationRef>) -> Option<Seq<char>> { match o { Some(x) => Some(x.id@), None => None } }
spec fn unbox(a: Option<Box<Annotation>>) -> Option<Annotation> { match a { Some(b) => Some(*b), None => None } }
spec fn sp(s: CellSpan) -> (u32, u32) { (s.row_span, s.col_span) }
/// everything but the value
ghost struct Cv { style: Option<Seq<char>>, formula: Option<Seq<char>>, validation: Option<Seq<char>>, span: (u32, u32), matrix: (u32, u32), note: Option<Annotation>, frames: Seq<DrawFrame> }
spec fn cv0() -> Cv { Cv { style: None, formula: None, validation: None, span: (1, 1), matrix: (1, 1), note: None, frames: Seq::empty() } }
spec fn cvw(d: CellData) -> Cv {
    match d.extra {
        Some(x) => Cv { style: sid_c(d.style), formula: sv(d.formula), validation: sid_v(x.validation_name), span: sp(x.span), matrix: sp(x.matrix_span), note: unbox(x.annotation), frames: x.draw_frames@ },
        None => Cv { style: sid_c(d.style), formula: sv(d.formula), ..cv0() },
    }
}
spec fn xvoid(v: Cv) -> bool { v.validation is None && v.span == (1u32, 1u32) && v.matrix == (1u32, 1u32) && v.note is None && v.frames.len() == 0 }
impl CellData {
//@fn file=src/cell_.rs path=CellData::default trait=Default
//@subst Default::default() ==> Value::Empty
//@ret r
//@spec
    ensures r.value is Empty, r.repeat == 1, cvw(r) == cv0(),
//@end
//@fn file=src/cell_.rs path=CellData::is_void_extra
//@ret r
//@spec
    ensures r == xvoid(cvw(*self)),
//@end
//@fn file=src/cell_.rs path=CellData::is_empty
//@subst self.value != Value::Empty ==> vp_not_empty(&self.value)
//@ret r
//@spec
    ensures r == (self.value is Empty && self.formula is None && xvoid(cvw(*self))),
//@end
//@fn file=src/cell_.rs path=CellData::is_void
//@params default_cellstyle
//@subst self.value != Value::Empty ==> vp_not_empty(&self.value)
//@subst self.style.as_ref() != default_cellstyle ==> vp_differs(self.style.as_ref(), default_cellstyle)
//@ret r
//@spec
    ensures r == (self.value is Empty && self.formula is None && (self.style is None || sid_c(self.style) == sid_c(deref(default_cellstyle))) && xvoid(cvw(*self))),
//@end
//@fn file=src/cell_.rs path=CellData::extra_mut
//@subst Box::default() ==> Box::new(vp_ext0())
//@ret r
//@spec
    ensures cvw(CellData { extra: Some(Box::new(*r)), ..*old(self) }) == cvw(*old(self)), *final(self) == (CellData { extra: Some(Box::new(*final(r))), ..*old(self) }),
//@end
}
// derived Default, CellSpan::default
#[verifier::external_body] fn vp_ext0() -> (r: CellDataExt) ensures r.validation_name is None, sp(r.span) == (1u32, 1u32), sp(r.matrix_span) == (1u32, 1u32), r.annotation is None, r.draw_frames@ == Seq::<DrawFrame>::empty() { unimplemented!() }
//@fn file=src/io/read.rs path=ignore_cell
//@params ctx default_cellstyle cell
//@ret r
//@spec
    ensures r == (cell.value is Empty && cell.formula is None && (final(ctx).ignore_empty_cells || cell.style is None || sid_c(cell.style) == sid_c(deref(default_cellstyle))) && xvoid(cvw(*cell))), *final(ctx) == *old(ctx),
//@end
// ------------------------------------------------------------------ a cell
/// the last number greater than one that the attribute gives
spec fn spn(t: Seq<At>, n: int, k: Seq<char>) -> u32 decreases n { if n <= 0 { 1 } else if t[n - 1].key == k && u32_of(t[n - 1].raw) > 1 { u32_of(t[n - 1].raw) } else { spn(t, n - 1, k) } }
spec fn cattr(t: Seq<At>, n: int) -> Cv {
    Cv { style: mapu(av(t, n, "table:style-name"@)), formula: mapu(av(t, n, "table:formula"@)), validation: mapu(av(t, n, "table:content-validation-name"@)),
        span: (spn(t, n, "table:number-rows-spanned"@), spn(t, n, "table:number-columns-spanned"@)),
        matrix: (spn(t, n, "table:number-matrix-rows-spanned"@), spn(t, n, "table:number-matrix-columns-spanned"@)), note: None, frames: Seq::empty() }
}
spec fn mapf<T>(o: Option<Seq<char>>, f: spec_fn(Seq<char>) -> T) -> Option<T> { match o { Some(x) => Some(f(x)), None => None } }
/// the value attributes
spec fn vattr(t: Seq<At>, n: int, g: GC) -> Tv {
    Tv { ty: match av(t, n, "office:value-type"@) { Some(x) => type_of(x), None => ValueType::Empty },
        dt: match av(t, n, "office:date-value"@) { Some(x) => Some(dt_of(x)), None => None },
        dur: match av(t, n, "office:time-value"@) { Some(x) => Some(dur_of(x)), None => None },
        f: match av(t, n, "office:value"@) { Some(x) => Some(f64_of(x)), None => None },
        b: match av(t, n, "office:boolean-value"@) { Some(x) => Some(bool_of(x)), None => None },
        s: mapu(av(t, n, "office:string-value"@)), cur: mapu(av(t, n, "office:currency"@)), text: g }
}
spec fn vparts(tc: ReadTableCell, t: Seq<At>, n: int) -> bool {
    &&& tc.val_type == (match av(t, n, "office:value-type"@) { Some(x) => type_of(x), None => ValueType::Empty })
    &&& tc.val_datetime == (match av(t, n, "office:date-value"@) { Some(x) => Some(dt_of(x)), None => None })
    &&& tc.val_duration == (match av(t, n, "office:time-value"@) { Some(x) => Some(dur_of(x)), None => None })
    &&& tc.val_float == (match av(t, n, "office:value"@) { Some(x) => Some(f64_of(x)), None => None })
    &&& tc.val_bool == (match av(t, n, "office:boolean-value"@) { Some(x) => Some(bool_of(x)), None => None })
    &&& sv(tc.val_string) == mapu(av(t, n, "office:string-value"@))
    &&& sv(tc.val_currency) == mapu(av(t, n, "office:currency"@))
}
spec fn some_cell(c: Option<CellData>, v: Cv, ty: ValueType) -> bool { match c { Some(d) => d.value is Empty && d.repeat == 1 && cvw(d) == v, None => v == cv0() && ty is Empty } }
//@fn file=src/io/read.rs path=read_table_cell as=vp_cell_attrs
//@slice let mut cell = $c; let mut repeat = $r; $bodyd let mut tc = ReadTableCell { $b1 }; for $ida in $idt.attributes().with_checks(false) { $body2 } ==> let mut cell = $c; let mut repeat = $r; let mut tc = ReadTableCell { $b1 }; for $ida in $idt.attributes().with_checks(false) { $body2 } Ok((cell, repeat, tc))
//@sig fn vp_cell_attrs(ctx: &mut OdsContext, super_tag: &BytesStart<'_>) -> Result<(Option<CellData>, u32, ReadTableCell), OdsError>
//@params ctx super_tag
//@ret r
//@spec
    ensures r is Ok ==> ({ let t = super_tag.at(); let n = t.len() as int; let (c, rep, tc) = r->Ok_0;
        &&& rep == rep_read(t, n, "table:number-columns-repeated"@) && tv(tc) == vattr(t, n, GC::Empty) && some_cell(c, cattr(t, n), tc.val_type) && tc.content is Empty && !(tc.val_type is TextXml) }), *final(ctx) == *old(ctx),
//@at start
    proof { cell_names(); word_names(); }
//@loop 0 it=it
    invariant it.seq().len() == vp_at@.len(), forall|i: int| 0 <= i < vp_at@.len() ==> *(#[trigger] it.seq()[i]) == vp_at@[i],
        ats(vp_at@) == super_tag.at(), repeat == rep_read(super_tag.at(), it.index@ as int, "table:number-columns-repeated"@), vparts(tc, super_tag.at(), it.index@ as int),
        some_cell(cell, cattr(super_tag.at(), it.index@ as int), tc.val_type), tc.content is Empty, *ctx == *old(ctx), !(tc.val_type is TextXml),
//@at loopstart 0
    proof { cell_names(); word_names(); assert(super_tag.at()[it.index@ as int] == attr.v()); }
//@end
/// what the content of a cell adds
ghost struct Bd { text: GC, note: Option<Annotation>, frames: Seq<DrawFrame> }
uninterp spec fn el_text(r: Seq<Ev>, tag: Seq<char>, at: Seq<At>) -> GC;
uninterp spec fn el_note(r: Seq<Ev>, at: Seq<At>) -> Annotation;
uninterp spec fn el_frame(r: Seq<Ev>, at: Seq<At>) -> DrawFrame;
#[verifier::external_body] fn read_text_or_tag(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>, tag: &BytesStart<'_>, empty_tag: bool) -> (r: Result<TextContent, OdsError>)
    ensures r is Ok ==> gc(r->Ok_0) == el_text(old(xml)@, tag.tag(), tag.at()) && !(r->Ok_0 is XmlVec) && final(xml)@ == aft(old(xml)@), *final(ctx) == *old(ctx) { unimplemented!() }
#[verifier::external_body] fn read_annotation(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>, tag: &BytesStart<'_>) -> (r: Result<Box<Annotation>, OdsError>)
    ensures r is Ok ==> *r->Ok_0 == el_note(old(xml)@, tag.at()) && final(xml)@ == aft(old(xml)@), *final(ctx) == *old(ctx) { unimplemented!() }
#[verifier::external_body] fn read_draw_frame(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>, tag: &BytesStart<'_>) -> (r: Result<DrawFrame, OdsError>)
    ensures r is Ok ==> r->Ok_0 == el_frame(old(xml)@, tag.at()) && final(xml)@ == aft(old(xml)@), *final(ctx) == *old(ctx) { unimplemented!() }
spec fn line(g: GC) -> GC { if g is Empty { GC::Text(Seq::empty()) } else { g } }
/// paragraphs, annotation and frames up to the end of the cell, and the events that follow
spec fn cbody(b: Bd, r: Seq<Ev>, tag: Seq<char>) -> (Bd, Seq<Ev>) decreases r.len() {
    if r.len() == 0 { (b, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Empty(n, a) => if n == "text:p"@ { cbody(Bd { text: gappend(GC::Text(Seq::empty()), b.text), ..b }, s, tag) } else { cbody(b, s, tag) },
            Ev::Start(n, a) => if n == "text:p"@ { cbody(Bd { text: gappend(line(el_text(s, n, a)), b.text), ..b }, aft(s), tag) }
                else if n == "office:annotation"@ { cbody(Bd { note: Some(el_note(s, a)), ..b }, aft(s), tag) }
                else if n == "draw:frame"@ { cbody(Bd { frames: b.frames.push(el_frame(s, a)), ..b }, aft(s), tag) }
                else { cbody(b, s, tag) },
            Ev::End(n) => if n == tag { (b, s) } else { cbody(b, s, tag) },
            Ev::Eof => (b, s),
            Ev::Other => cbody(b, s, tag),
        }
    }
}
/// the value with the given type, attributes and text
spec fn value_read(v: Value, t: Seq<At>, g: GC) -> bool { value_of(v, vattr(t, t.len() as int, g)) }
/// the cell that the element describes
spec fn cell_read(d: CellData, t: Seq<At>, b: Bd) -> bool {
    &&& cvw(d) == (Cv { note: b.note, frames: b.frames, ..cattr(t, t.len() as int) })
    &&& d.repeat == rep_read(t, t.len() as int, "table:number-columns-repeated"@)
    &&& value_read(d.value, t, b.text)
}
spec fn bd0() -> Bd { Bd { text: GC::Empty, note: None, frames: Seq::empty() } }
impl Sheet {
    // proved in unit C04_headers
    uninterp spec fn colstyle(&self, col: u32) -> Option<CellStyleRef>;
    #[verifier::external_body] fn valid_col_header(&self, col: u32) -> (r: Option<&ColHeader>) ensures self.colstyle(col) == (match r { Some(h) => h.cellstyle, None => None }) { unimplemented!() }
//@fn file=src/sheet_.rs path=Sheet::add_cell_data
//@params row col cell
//@spec
    ensures final(self).data@ == old(self).data@.insert((row, col), cell), same_head(*old(self), *final(self)), final(self).col_header == old(self).col_header, final(self).row_header == old(self).row_header,
//@end
}
//@fn file=src/io/read.rs path=read_table_cell attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml sheet row col super_tag empty_tag
//@subst let mut cell = $c; let mut repeat = $r; $bodyd let mut tc = ReadTableCell { $b1 }; for $ida in $idt.attributes().with_checks(false) { $body2 } ==> $bodyd let (mut cell, mut repeat, mut tc) = vp_cell_attrs(ctx, $idt)?;
//@subst xml_tag.name() == super_tag.name() ==> vp_same_name(xml_tag.name(), super_tag.name())
//@ret r
//@spec
    ensures r is Ok ==> ({ let t = super_tag.at(); let n = t.len() as int; let m = final(sheet).data@;
        let (b, rest) = if empty_tag { (bd0(), old(xml)@) } else { cbody(bd0(), old(xml)@, super_tag.tag()) };
        &&& r->Ok_0.0 == rep_read(t, n, "table:number-columns-repeated"@) && final(xml)@ == rest
        &&& same_head(*old(sheet), *final(sheet)) && final(sheet).col_header == old(sheet).col_header && final(sheet).row_header == old(sheet).row_header
        &&& r->Ok_0.1 ==> m == old(sheet).data@.insert((row, col), m[(row, col)]) && cell_read(m[(row, col)], t, b)
        // only a cell without content is left out, and one that only repeats the style of its column
        &&& !r->Ok_0.1 ==> m == old(sheet).data@ && cattr(t, n).formula is None && xvoid(Cv { note: b.note, frames: b.frames, ..cattr(t, n) }) && value_read(Value::Empty, t, b.text)
            && (old(ctx).ignore_empty_cells || cattr(t, n).style is None || cattr(t, n).style == sid_c(old(sheet).colstyle(col))) }), *final(ctx) == *old(ctx),
//@at start
    proof { elem_names(); }
//@loop 0
    invariant_except_break cbody(bd0(), old(xml)@, super_tag.tag()) == cbody(Bd { text: gc(tc.content), note: cnote(cell), frames: cframes(cell) }, xml@, super_tag.tag()),
    invariant *ctx == *old(ctx), *sheet == *old(sheet),
        tv(tc) == vattr(super_tag.at(), super_tag.at().len() as int, gc(tc.content)), bare(cell, cattr(super_tag.at(), super_tag.at().len() as int), tc.val_type), !(tc.val_type is TextXml),
    ensures cbody(bd0(), old(xml)@, super_tag.tag()) == (Bd { text: gc(tc.content), note: cnote(cell), frames: cframes(cell) }, xml@),
//@at loopstart 0
    proof { elem_names(); }
//@end
spec fn cnote(c: Option<CellData>) -> Option<Annotation> { match c { Some(d) => cvw(d).note, None => None } }
spec fn cframes(c: Option<CellData>) -> Seq<DrawFrame> { match c { Some(d) => cvw(d).frames, None => Seq::empty() } }
spec fn bare(c: Option<CellData>, v: Cv, ty: ValueType) -> bool { match c { Some(d) => d.value is Empty && d.repeat == 1 && Cv { note: None, frames: Seq::empty(), ..cvw(d) } == v, None => v == cv0() && ty is Empty } }
// ------------------------------------------------------------------ the table, one event after the other
/// where the reader is: the row and column that the next element describes
ghost struct Pos { row: int, col: int, data: bool, rep: int, cfrom: int, rfrom: int, cg: Seq<Grouped>, rg: Seq<Grouped> }
#[verifier::external_body] fn read_xml(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>, tag: &BytesStart<'_>, empty_tag: bool) -> (r: Result<XmlTag, OdsError>)
    ensures r is Ok ==> r->Ok_0 == el_xml(old(xml)@, tag.tag(), tag.at(), empty_tag) && final(xml)@ == (if empty_tag { old(xml)@ } else { aft(old(xml)@) }), *final(ctx) == *old(ctx) { unimplemented!() }
fn vp_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { if a { true } else { b } }

uninterp spec fn el_xml(r: Seq<Ev>, tag: Seq<char>, at: Seq<At>, empty: bool) -> XmlTag;
/// exactly this row has this repeat count now, as proved for Sheet::set_row_repeat in unit C04_headers
uninterp spec fn set_rep(a: Map<u32, RowHeader>, row: u32, rep: u32, b: Map<u32, RowHeader>) -> bool;
impl Sheet {
    #[verifier::external_body] fn set_row_repeat(&mut self, row: u32, repeat: u32) requires repeat > 0 ensures set_rep(old(self).row_header@, row, repeat, final(self).row_header@), *final(self) == (Sheet { row_header: final(self).row_header, ..*old(self) }) { unimplemented!() }
}
impl Grouped {
//@fn file=src/sheet_.rs path=Grouped::set_to
//@params to
//@spec
    ensures *final(self) == (Grouped { to: to, ..*old(self) }),
//@end
}
spec fn is_extra(n: Seq<char>) -> bool { n == "table:title"@ || n == "table:desc"@ || n == "table:table-source"@ || n == "office:dde-source"@ || n == "table:scenario"@ || n == "office:forms"@ || n == "table:shapes"@ || n == "table:named-expressions"@ || n == "calcext:conditional-formats"@ }
spec fn is_cell(n: Seq<char>) -> bool { n == "table:table-cell"@ || n == "table:covered-table-cell"@ }
/// nothing of the sheet changes but what is named
spec fn s_extra(a: Sheet, b: Sheet) -> bool { b.extra@ == a.extra@ && s_body(a, b) }
spec fn s_body(a: Sheet, b: Sheet) -> bool { b.group_rows@ == a.group_rows@ && b.group_cols@ == a.group_cols@ && s_hdr(a, b) }
spec fn s_hdr(a: Sheet, b: Sheet) -> bool { b.header_rows == a.header_rows && b.header_cols == a.header_cols && s_maps(a, b) }
spec fn s_maps(a: Sheet, b: Sheet) -> bool { b.data@ == a.data@ && s_heads(a, b) }
spec fn s_heads(a: Sheet, b: Sheet) -> bool { b.col_header@ == a.col_header@ && b.row_header@ == a.row_header@ && s_table(a, b) }
spec fn s_table(a: Sheet, b: Sheet) -> bool { b.name == a.name && b.style == a.style && b.display == a.display && b.print == a.print && b.print_ranges == a.print_ranges }
spec fn stretch(h: Option<Header>, from: int, to: int) -> Option<Header> { match h { Some(x) => Some(Header { from: x.from, to: to as u32 }), None => Some(Header { from: from as u32, to: to as u32 }) } }
/// one element begins: it describes the row, column, cell or group at the current position
spec fn begins(n: Seq<char>, t: Seq<At>, empty: bool, p: Pos, q: Pos, a: Sheet, b: Sheet, x: Seq<Ev>, y: Seq<Ev>, ctx: OdsContext) -> bool {
    let len = t.len() as int;
    if is_extra(n) { q == p && b.extra@ == a.extra@.push(el_xml(x, n, t, empty)) && s_body(a, b) }
    else if n == "table:table-column-group"@ && !empty { q == (Pos { cg: q.cg, ..p }) && q.cg == p.cg.push(q.cg.last()) && q.cg.last().from == p.col && q.cg.last().display == disp_read(t, len) && s_extra(a, b) && y == x }
    else if n == "table:table-row-group"@ && !empty { q == (Pos { rg: q.rg, ..p }) && q.rg == p.rg.push(q.rg.last()) && q.rg.last().from == p.row && q.rg.last().display == disp_read(t, len) && s_extra(a, b) && y == x }
    else if n == "table:table-header-columns"@ && !empty { q == (Pos { cfrom: p.col, ..p }) && s_extra(a, b) && y == x }
    else if n == "table:table-header-rows"@ && !empty { q == (Pos { rfrom: p.row, ..p }) && s_extra(a, b) && y == x }
    else if n == "table:table-column"@ && empty {
        &&& q == (Pos { col: p.col + rep_read(t, len, "table:number-columns-repeated"@), ..p }) && y == x
        &&& b.extra@ == a.extra@ && b.group_rows@ == a.group_rows@ && b.group_cols@ == a.group_cols@ && b.header_rows == a.header_rows && b.header_cols == a.header_cols && b.data@ == a.data@ && b.row_header@ == a.row_header@ && s_table(a, b)
        &&& b.col_header@ == a.col_header@ && col_read(None, t, len)
            || ({ let m = b.col_header@; let c = p.col as u32; m == a.col_header@.insert(c, m[c]) && col_read(Some(m[c]), t, len) && m[c].span == rep_read(t, len, "table:number-columns-repeated"@) })
    }
    else if n == "table:table-row"@ && !empty {
        &&& q == (Pos { col: 0, rep: rep_read(t, len, "table:number-rows-repeated"@) as int, ..p }) && y == x
        &&& b.extra@ == a.extra@ && b.group_rows@ == a.group_rows@ && b.group_cols@ == a.group_cols@ && b.header_rows == a.header_rows && b.header_cols == a.header_cols && b.data@ == a.data@ && b.col_header@ == a.col_header@ && s_table(a, b)
        &&& b.row_header@ == a.row_header@ && row_read(None, t, len)
            || ({ let m = b.row_header@; let r = p.row as u32; m == a.row_header@.insert(r, m[r]) && row_read(Some(m[r]), t, len) && m[r].repeat == rep_read(t, len, "table:number-rows-repeated"@) })
    }
    else if is_cell(n) {
        let (bd, rest) = if empty { (bd0(), x) } else { cbody(bd0(), x, n) };
        let k = (p.row as u32, p.col as u32);
        &&& q == (Pos { col: p.col + rep_read(t, len, "table:number-columns-repeated"@), data: q.data, ..p }) && y == rest
        &&& b.extra@ == a.extra@ && b.group_rows@ == a.group_rows@ && b.group_cols@ == a.group_cols@ && b.header_rows == a.header_rows && b.header_cols == a.header_cols && s_heads(a, b)
        &&& p.data ==> q.data
        &&& (b.data@ == a.data@.insert(k, b.data@[k]) && cell_read(b.data@[k], t, bd) && q.data)
            || (b.data@ == a.data@ && q.data == p.data && cattr(t, len).formula is None && xvoid(Cv { note: bd.note, frames: bd.frames, ..cattr(t, len) }) && value_read(Value::Empty, t, bd.text)
                && (ctx.ignore_empty_cells || cattr(t, len).style is None || cattr(t, len).style == sid_c(a.colstyle(p.col as u32))))
    }
    else { q == p && s_extra(a, b) && y == x }
}
/// one element ends
spec fn ends(n: Seq<char>, p: Pos, q: Pos, a: Sheet, b: Sheet, x: Seq<Ev>, y: Seq<Ev>) -> bool {
    &&& y == x && b.extra@ == a.extra@ && b.data@ == a.data@ && b.col_header@ == a.col_header@ && s_table(a, b)
    &&& if n == "table:table-column-group"@ && p.cg.len() > 0 { q == (Pos { cg: p.cg.drop_last(), ..p }) && b.group_cols@ == a.group_cols@.push(Grouped { to: (p.col - 1) as u32, ..p.cg.last() }) && b.group_rows@ == a.group_rows@ && s_hdr(a, b) }
        else if n == "table:table-row-group"@ && p.rg.len() > 0 { q == (Pos { rg: p.rg.drop_last(), ..p }) && b.group_rows@ == a.group_rows@.push(Grouped { to: (p.row - 1) as u32, ..p.rg.last() }) && b.group_cols@ == a.group_cols@ && s_hdr(a, b) }
        else if n == "table:table-header-columns"@ { q == p && b.header_cols == stretch(a.header_cols, p.cfrom, p.col - 1) && b.header_rows == a.header_rows && b.group_cols@ == a.group_cols@ && b.group_rows@ == a.group_rows@ && s_maps(a, b) }
        else if n == "table:table-header-rows"@ { q == p && b.header_rows == stretch(a.header_rows, p.rfrom, p.row - 1) && b.header_cols == a.header_cols && b.group_cols@ == a.group_cols@ && b.group_rows@ == a.group_rows@ && s_maps(a, b) }
        else if n == "table:table-row"@ {
            &&& q == (Pos { row: p.row + p.rep, rep: 1, data: false, ..p }) && b.group_cols@ == a.group_cols@ && b.group_rows@ == a.group_rows@ && b.header_rows == a.header_rows && b.header_cols == a.header_cols
            &&& if p.data { set_rep(a.row_header@, p.row as u32, p.rep as u32, b.row_header@) } else { b.row_header@ == a.row_header@ }
        }
        else { q == p && s_body(a, b) }
}
spec fn pos(row: u32, col: u32, data: bool, rep: u32, cf: u32, rf: u32, cg: Vec<Grouped>, rg: Vec<Grouped>) -> Pos { Pos { row: row as int, col: col as int, data: data, rep: rep as int, cfrom: cf as int, rfrom: rf as int, cg: cg@, rg: rg@ } }
spec fn posr(r: (bool, Sheet, u32, u32, bool, u32, u32, u32, Vec<Grouped>, Vec<Grouped>)) -> Pos { pos(r.2, r.3, r.4, r.5, r.6, r.7, r.8, r.9) }
//@fn file=src/io/read.rs path=read_table as=vp_table_event attr=verifier::spinoff_prover+verifier::rlimit(60)
//@slice let empty_tag = $e; $bodyd match &evt { $body } ==> let empty_tag = $e; match &evt { $body } assert(has_resolved(xml)); Ok((false, sheet, row, col, col_data, row_repeat, col_range_from, row_range_from, col_group, row_group))
//@sig fn vp_table_event(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>, evt: Event<'_>, mut sheet: Sheet, mut row: u32, mut col: u32, mut col_data: bool, mut row_repeat: u32, mut col_range_from: u32, mut row_range_from: u32, mut col_group: Vec<Grouped>, mut row_group: Vec<Grouped>) -> Result<(bool, Sheet, u32, u32, bool, u32, u32, u32, Vec<Grouped>, Vec<Grouped>), OdsError>
//@params ctx xml evt sheet row col col_data row_repeat col_range_from row_range_from col_group row_group
//@subst matches!(evt, Event::Empty(_)) ==> (match &evt { Event::Empty(_) => true, _ => false })
//@subst col_data |= have_data ==> col_data = vp_or(col_data, have_data)
//@subst break; ==> assert(has_resolved(xml)); return Ok((true, sheet, row, col, col_data, row_repeat, col_range_from, row_range_from, col_group, row_group));
//@ret r
//@spec
    requires row_repeat > 0, row + row_repeat <= u32::MAX,
        // positions inside the sheet, no group or header block without rows or columns
        match ev(evt) { Ev::Start(n, t) | Ev::Empty(n, t) => col + rep_read(t, t.len() as int, "table:number-columns-repeated"@) <= u32::MAX,
            Ev::End(n) => (n == "table:table-column-group"@ || n == "table:table-header-columns"@ ==> col > 0) && (n == "table:table-row-group"@ || n == "table:table-header-rows"@ ==> row > 0), _ => true },
    ensures r is Ok ==> r->Ok_0.0 == (ev(evt) == Ev::End("table:table"@)),
        r is Ok ==> (ev(evt) matches Ev::Start(n, t) ==> begins(n, t, false, pos(row, col, col_data, row_repeat, col_range_from, row_range_from, col_group, row_group), posr(r->Ok_0), sheet, r->Ok_0.1, old(xml)@, final(xml)@, *old(ctx))),
        r is Ok ==> (ev(evt) matches Ev::Empty(n, t) ==> begins(n, t, true, pos(row, col, col_data, row_repeat, col_range_from, row_range_from, col_group, row_group), posr(r->Ok_0), sheet, r->Ok_0.1, old(xml)@, final(xml)@, *old(ctx))),
        r is Ok ==> (ev(evt) matches Ev::End(n) ==> ends(n, pos(row, col, col_data, row_repeat, col_range_from, row_range_from, col_group, row_group), posr(r->Ok_0), sheet, r->Ok_0.1, old(xml)@, final(xml)@)),
        r is Ok ==> (ev(evt) is Eof || ev(evt) is Other ==> posr(r->Ok_0) == pos(row, col, col_data, row_repeat, col_range_from, row_range_from, col_group, row_group) && s_extra(sheet, r->Ok_0.1) && final(xml)@ == old(xml)@),
//@at start
    proof { tab_names(); }
//@end
//@fn file=src/io/read.rs path=read_table as=vp_table_begin
//@slice let mut row: u32 = $a; $bodyx let mut buf = $b; ==> let mut row: u32 = $a; $bodyx Ok((false, sheet, row, col, col_data, row_repeat, col_range_from, row_range_from, col_group, row_group))
//@sig fn vp_table_begin(ctx: &mut OdsContext, sheet: Sheet) -> Result<(bool, Sheet, u32, u32, bool, u32, u32, u32, Vec<Grouped>, Vec<Grouped>), OdsError>
//@params ctx sheet
//@ret r
//@spec
    requires old(ctx).col_group_buffer@.len() == 0, old(ctx).row_group_buffer@.len() == 0,
    ensures r is Ok ==> posr(r->Ok_0) == (Pos { row: 0, col: 0, data: false, rep: 1, cfrom: 0, rfrom: 0, cg: posr(r->Ok_0).cg, rg: posr(r->Ok_0).rg }) && r->Ok_0.8@.len() == 0 && r->Ok_0.9@.len() == 0 && r->Ok_0.1 == sheet,
//@end
} // verus!
fn main() {}
