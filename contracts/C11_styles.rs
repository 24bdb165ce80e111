//@include pre.rs
// C11: every style, format and page goes into the file with exactly its attributes, parts and conditions.
verus! {
global size_of usize == 8;
//@include tokw.inc.rs
//@gsubst for ($idk, $idv) in $m.iter() { $body } ==> let vp_as = vp_attrs($m); for kv in vp_as.iter() { let $idk = kv.0; let $idv = kv.1; $body }
//@glitmatch
//@include xmltag.inc.rs
//@include hashv.inc.rs
#[verifier::external_body] fn vp_panic() -> &'static str ensures false { unimplemented!() }
//@gsubst unreachable!() ==> vp_panic()
//@gsubst origin: Default::default() ==> origin: StyleOrigin::Content
//@gsubst styleuse: Default::default() ==> styleuse: StyleUse::Automatic
//@gsubst name: Default::default() ==> name: String::new()
//@gsubst display_name: Default::default() ==> display_name: String::new()
//@gsubst header: Default::default() ==> header: HeaderFooterStyle::vp_default()
//@gsubst footer: Default::default() ==> footer: HeaderFooterStyle::vp_default()
//@gsubst $idf: Default::default() ==> $idf: AttrMap2::vp_new()
//@gsubst $ida.as_ref().to_string() ==> vp_string($ida.as_ref())
//@gsubst String::from($ida.as_ref()) ==> vp_string($ida.as_ref())
//@gsubst AsRef<str> ==> VpAsRef
//@gsubst Into<String> ==> VpInto
//@gsubst get_or_insert_with(Vec::new) ==> get_or_insert(Vec::new())
//@gsubst part.content().filter(|v| !v.is_empty()) ==> vp_filled(part.content())
// trusted: the standard library's conversions and comparison of a text
#[verifier::external_body] fn vp_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] fn vp_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// a name or text given by the caller, as str / as String
trait VpAsRef { spec fn text(&self) -> Seq<char>; fn as_ref(&self) -> (r: &str) ensures r@ == self.text(); }
impl VpAsRef for String { spec fn text(&self) -> Seq<char> { self@ } fn as_ref(&self) -> (r: &str) { self.as_str() } }
trait VpInto: Sized { spec fn itext(&self) -> Seq<char>; fn into(self) -> (r: String) ensures r@ == self.itext(); }
impl VpInto for String { spec fn itext(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
fn vp_filled(o: Option<&String>) -> (r: Option<&String>) ensures match o { Some(v) => if v@.len() == 0 { r is None } else { r == o }, None => r is None } { match o { Some(v) => if v.is_empty() { None } else { o }, None => None } }
impl AttrMap2 {
    fn vp_new() -> (r: AttrMap2) ensures r.keys@.len() == 0, r.values@.len() == 0 { AttrMap2 { keys: Vec::new(), values: Vec::new() } }
//@fn file=src/attrmap2.rs path=AttrMap2::is_empty
//@ret r
//@spec
    ensures r == (self.keys@.len() == 0),
//@end
}
spec fn none(m: AttrMap2) -> bool { m.keys@.len() == 0 && m.values@.len() == 0 }
spec fn some(m: AttrMap2) -> bool { m.keys@.len() > 0 }
//@struct file=src/style/mod.rs name=StyleOrigin attr=derive(Clone,Copy,PartialEq,Eq,Structural)
//@end
//@struct file=src/style/mod.rs name=StyleUse attr=derive(Clone,Copy,PartialEq,Eq,Structural)
//@end
// ------------------------------------------------------------------ what a style is in the file
/// the attributes of a style besides its name and family
spec fn w_fattrs(w: W, m: AttrMap2, n: nat) -> W decreases n {
    if n == 0 { w } else {
        let p = w_fattrs(w, m, (n - 1) as nat);
        if m.keys@[n - 1]@ == "style:name"@ || m.keys@[n - 1]@ == "style:family"@ { p } else { w_attr(p, m.keys@[n - 1]@, m.values@[n - 1]@) }
    }
}
spec fn stag(u: StyleUse) -> Nm { if u == StyleUse::Default { "style:default-style"@ } else { "style:style"@ } }
/// a default style has no name
spec fn w_head(w: W, u: StyleUse, name: Seq<char>, family: Seq<char>, has: bool) -> W {
    let w1 = w_if(w, has, stag(u));
    w_attr(if u == StyleUse::Default { w1 } else { w_attr(w1, "style:name"@, name) }, "style:family"@, family)
}
/// a properties element, if there are properties
spec fn w_props(w: W, tag: Nm, m: AttrMap2) -> W { if some(m) { w_amap(w_empty(w, tag), m) } else { w } }
proof fn lemma_fattrs(w: W, m: AttrMap2, n: nat) ensures w_fattrs(w, m, n).stack == w.stack, w_fattrs(w, m, n).cur is Some == w.cur is Some decreases n { if n > 0 { lemma_fattrs(w, m, (n - 1) as nat); } }
proof fn lemma_attrs(w: W, m: AttrMap2, n: nat) ensures w_attrs(w, m, n).stack == w.stack, w_attrs(w, m, n).cur is Some == w.cur is Some decreases n { if n > 0 { lemma_attrs(w, m, (n - 1) as nat); } }
proof fn lemma_amap(w: W, m: AttrMap2) ensures w_amap(w, m).stack == w.stack { lemma_attrs(w, m, m.keys@.len()); }
proof fn lemma_props(w: W, tag: Nm, m: AttrMap2) ensures w_props(w, tag, m).stack == w.stack { lemma_amap(w_empty(w, tag), m); }
struct TableStyleRef { id: String }
impl TableStyleRef { fn as_str(&self) -> (r: &str) ensures r@ == self.id@ { self.id.as_str() } #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } }
struct RowStyleRef { id: String }
impl RowStyleRef { fn as_str(&self) -> (r: &str) ensures r@ == self.id@ { self.id.as_str() } #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } }
struct ColStyleRef { id: String }
impl ColStyleRef { fn as_str(&self) -> (r: &str) ensures r@ == self.id@ { self.id.as_str() } #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } }
struct CellStyleRef { id: String }
impl CellStyleRef { fn as_str(&self) -> (r: &str) ensures r@ == self.id@ { self.id.as_str() } #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } }
struct ParagraphStyleRef { id: String }
impl ParagraphStyleRef { fn as_str(&self) -> (r: &str) ensures r@ == self.id@ { self.id.as_str() } #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } }
struct TextStyleRef { id: String }
impl TextStyleRef { fn as_str(&self) -> (r: &str) ensures r@ == self.id@ { self.id.as_str() } #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } }
struct RubyStyleRef { id: String }
impl RubyStyleRef { fn as_str(&self) -> (r: &str) ensures r@ == self.id@ { self.id.as_str() } #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } }
struct GraphicStyleRef { id: String }
impl GraphicStyleRef { fn as_str(&self) -> (r: &str) ensures r@ == self.id@ { self.id.as_str() } #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } }
struct PageStyleRef { id: String }
impl PageStyleRef { fn as_str(&self) -> (r: &str) ensures r@ == self.id@ { self.id.as_str() } #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } }
struct MasterPageRef { id: String }
impl MasterPageRef { fn as_str(&self) -> (r: &str) ensures r@ == self.id@ { self.id.as_str() } #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } }
struct AnyStyleRef { id: String }
impl AnyStyleRef { fn as_str(&self) -> (r: &str) ensures r@ == self.id@ { self.id.as_str() } #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } }
// conditions and cell references: their texts are C16 and C01
#[verifier::external_body] struct Condition {}
#[verifier::external_body] struct ValueCondition {}
#[verifier::external_body] struct CellRef {}
uninterp spec fn condtext(c: Condition) -> Seq<char>;
uninterp spec fn vcondtext(c: ValueCondition) -> Seq<char>;
uninterp spec fn celltext(c: CellRef) -> Seq<char>;
impl Shown for Condition { spec fn shown(&self) -> Seq<char> { condtext(*self) } spec fn plain(&self) -> bool { false } }
impl Shown for ValueCondition { spec fn shown(&self) -> Seq<char> { vcondtext(*self) } spec fn plain(&self) -> bool { false } }
impl Shown for CellRef { spec fn shown(&self) -> Seq<char> { celltext(*self) } spec fn plain(&self) -> bool { false } }
//@struct file=src/style/stylemap.rs name=StyleMap
//@end
//@struct file=src/style/tabstop.rs name=TabStop
//@end
impl StyleMap {
//@fn file=src/style/stylemap.rs path=StyleMap::condition
//@ret r
//@spec
    ensures *r == self.condition,
//@end
//@fn file=src/style/stylemap.rs path=StyleMap::applied_style
//@ret r
//@spec
    ensures *r == self.applied_style,
//@end
//@fn file=src/style/stylemap.rs path=StyleMap::base_cell
//@ret r
//@spec
    ensures match (r, self.base_cell) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false },
//@end
//@fn file=src/style/stylemap.rs path=StyleMap::new
//@params condition, applied_style, base_cell
//@ret r
//@spec
    ensures r == (StyleMap { condition, applied_style, base_cell }),
//@end
//@fn file=src/style/stylemap.rs path=StyleMap::set_condition
//@params cond
//@spec
    ensures *final(self) == (StyleMap { condition: cond, ..*old(self) }),
//@end
//@fn file=src/style/stylemap.rs path=StyleMap::set_applied_style
//@params style
//@spec
    ensures *final(self) == (StyleMap { applied_style: style, ..*old(self) }),
//@end
//@fn file=src/style/stylemap.rs path=StyleMap::set_base_cell
//@params cellref
//@spec
    ensures *final(self) == (StyleMap { base_cell: cellref, ..*old(self) }),
//@end
}
impl TabStop {
//@fn file=src/style/tabstop.rs path=TabStop::new
//@ret r
//@spec
    ensures none(r.attr),
//@end
//@fn file=src/style/tabstop.rs path=TabStop::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/style/tabstop.rs path=TabStop::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, final(self).attr == *final(r),
//@end
}
spec fn w_map(w: W, m: StyleMap) -> W { w_oattr(w_attr(w_attr(w_empty(w, "style:map"@), "style:condition"@, condtext(m.condition)), "style:apply-style-name"@, m.applied_style.id@), "style:base-cell-address"@, match m.base_cell { Some(c) => Some(celltext(c)), None => None }) }
spec fn w_maps(w: W, v: Seq<StyleMap>, n: nat) -> W decreases n { if n == 0 { w } else { w_map(w_maps(w, v, (n - 1) as nat), v[n - 1]) } }
spec fn w_omaps(w: W, v: Option<Vec<StyleMap>>) -> W { match v { Some(m) => w_maps(w, m@, m@.len()), None => w } }
spec fn w_tabs(w: W, v: Seq<TabStop>, n: nat) -> W decreases n { if n == 0 { w } else { w_amap(w_empty(w_tabs(w, v, (n - 1) as nat), "style:tab-stop"@), v[n - 1].attr) } }
/// paragraph properties: tab stops stand inside
spec fn w_para(w: W, m: AttrMap2, t: Option<Vec<TabStop>>) -> W {
    match t {
        None => w_props(w, "style:paragraph-properties"@, m),
        Some(t) => w_end(w_end(w_tabs(w_open(w_amap(w_open(w, "style:paragraph-properties"@), m), "style:tab-stops"@), t@, t@.len()), "style:tab-stops"@), "style:paragraph-properties"@),
    }
}
//@struct file=src/style/tablestyle.rs name=TableStyle
//@end
impl TableStyle {
//@fn file=src/macro_style.rs path=TableStyle::origin macro=styles_styles2(TableStyle,TableStyleRef) macro_in=src/style/tablestyle.rs
//@ret r
//@spec
    ensures r == self.origin,
//@end
//@fn file=src/macro_style.rs path=TableStyle::set_origin macro=styles_styles2(TableStyle,TableStyleRef) macro_in=src/style/tablestyle.rs
//@params origin
//@spec
    ensures *final(self) == (TableStyle { origin, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=TableStyle::styleuse macro=styles_styles2(TableStyle,TableStyleRef) macro_in=src/style/tablestyle.rs
//@ret r
//@spec
    ensures r == self.styleuse,
//@end
//@fn file=src/macro_style.rs path=TableStyle::set_styleuse macro=styles_styles2(TableStyle,TableStyleRef) macro_in=src/style/tablestyle.rs
//@params styleuse
//@spec
    ensures *final(self) == (TableStyle { styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=TableStyle::name macro=styles_styles2(TableStyle,TableStyleRef) macro_in=src/style/tablestyle.rs
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_style.rs path=TableStyle::set_name macro=styles_styles2(TableStyle,TableStyleRef) macro_in=src/style/tablestyle.rs
//@params name
//@spec
    ensures final(self).name@ == name.text(), *final(self) == (TableStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=TableStyle::style_ref macro=styles_styles2(TableStyle,TableStyleRef) macro_in=src/style/tablestyle.rs
//@ret r
//@spec
    ensures r.id@ == self.name@,
//@end
//@fn file=src/style/tablestyle.rs path=TableStyle::new_empty
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.origin == StyleOrigin::Content, r.styleuse == StyleUse::Automatic, none(r.attr), none(r.tablestyle),
//@end
//@fn file=src/style/tablestyle.rs path=TableStyle::new
//@params name
//@ret r
//@spec
    ensures r.name@ == name.text(), r.origin == StyleOrigin::Content, r.styleuse == StyleUse::Automatic, none(r.attr), none(r.tablestyle),
//@end
//@fn file=src/style/tablestyle.rs path=TableStyle::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/style/tablestyle.rs path=TableStyle::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (TableStyle { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/tablestyle.rs path=TableStyle::tablestyle
//@ret r
//@spec
    ensures *r == self.tablestyle,
//@end
//@fn file=src/style/tablestyle.rs path=TableStyle::tablestyle_mut
//@ret r
//@spec
    ensures *r == old(self).tablestyle, *final(self) == (TableStyle { tablestyle: *final(r), ..*old(self) }),
//@end
}
spec fn has_tablestyle(s: TableStyle) -> bool { some(s.tablestyle) }
spec fn tablestyle_0(w: W, s: TableStyle) -> W { w_head(w, s.styleuse, s.name@, "table"@, has_tablestyle(s)) }
spec fn tablestyle_1(w: W, s: TableStyle) -> W { w_fattrs(tablestyle_0(w, s), s.attr, s.attr.keys@.len()) }
spec fn tablestyle_2(w: W, s: TableStyle) -> W { w_props(tablestyle_1(w, s), "style:table-properties"@, s.tablestyle) }
spec fn w_tablestyle(w: W, s: TableStyle) -> W { w_end_if(tablestyle_2(w, s), has_tablestyle(s), stag(s.styleuse)) }
//@fn file=src/io/write.rs path=write_tablestyle
//@params style, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_tablestyle(old(xml_out)@, *style) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost s0 = *style; let ghost st = tablestyle_0(w0, s0).stack;
//@loop 0 it=it
    invariant *style == s0, it.seq().len() == s0.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.attr.keys@[i]@ && it.seq()[i].1@ == s0.attr.values@[i]@, xml_out@ == w_fattrs(tablestyle_0(w0, s0), s0.attr, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == tablestyle_0(w0, s0).stack,
//@loop 1 it=it
    invariant *style == s0, it.seq().len() == s0.tablestyle.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.tablestyle.keys@[i]@ && it.seq()[i].1@ == s0.tablestyle.values@[i]@, xml_out@ == w_attrs(w_empty(tablestyle_1(w0, s0), "style:table-properties"@), s0.tablestyle, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == tablestyle_0(w0, s0).stack,
//@at afterloop 0
    proof { assert(xml_out@ == tablestyle_1(w0, s0)); }
//@end
//@struct file=src/style/rowstyle.rs name=RowStyle
//@end
impl RowStyle {
//@fn file=src/macro_style.rs path=RowStyle::origin macro=styles_styles2(RowStyle,RowStyleRef) macro_in=src/style/rowstyle.rs
//@ret r
//@spec
    ensures r == self.origin,
//@end
//@fn file=src/macro_style.rs path=RowStyle::set_origin macro=styles_styles2(RowStyle,RowStyleRef) macro_in=src/style/rowstyle.rs
//@params origin
//@spec
    ensures *final(self) == (RowStyle { origin, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=RowStyle::styleuse macro=styles_styles2(RowStyle,RowStyleRef) macro_in=src/style/rowstyle.rs
//@ret r
//@spec
    ensures r == self.styleuse,
//@end
//@fn file=src/macro_style.rs path=RowStyle::set_styleuse macro=styles_styles2(RowStyle,RowStyleRef) macro_in=src/style/rowstyle.rs
//@params styleuse
//@spec
    ensures *final(self) == (RowStyle { styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=RowStyle::name macro=styles_styles2(RowStyle,RowStyleRef) macro_in=src/style/rowstyle.rs
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_style.rs path=RowStyle::set_name macro=styles_styles2(RowStyle,RowStyleRef) macro_in=src/style/rowstyle.rs
//@params name
//@spec
    ensures final(self).name@ == name.text(), *final(self) == (RowStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=RowStyle::style_ref macro=styles_styles2(RowStyle,RowStyleRef) macro_in=src/style/rowstyle.rs
//@ret r
//@spec
    ensures r.id@ == self.name@,
//@end
//@fn file=src/style/rowstyle.rs path=RowStyle::new_empty
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.origin == StyleOrigin::Content, r.styleuse == StyleUse::Automatic, none(r.attr), none(r.rowstyle),
//@end
//@fn file=src/style/rowstyle.rs path=RowStyle::new
//@params name
//@ret r
//@spec
    ensures r.name@ == name.text(), r.origin == StyleOrigin::Content, r.styleuse == StyleUse::Automatic, none(r.attr), none(r.rowstyle),
//@end
//@fn file=src/style/rowstyle.rs path=RowStyle::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/style/rowstyle.rs path=RowStyle::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (RowStyle { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/rowstyle.rs path=RowStyle::rowstyle
//@ret r
//@spec
    ensures *r == self.rowstyle,
//@end
//@fn file=src/style/rowstyle.rs path=RowStyle::rowstyle_mut
//@ret r
//@spec
    ensures *r == old(self).rowstyle, *final(self) == (RowStyle { rowstyle: *final(r), ..*old(self) }),
//@end
}
spec fn has_rowstyle(s: RowStyle) -> bool { some(s.rowstyle) }
spec fn rowstyle_0(w: W, s: RowStyle) -> W { w_head(w, s.styleuse, s.name@, "table-row"@, has_rowstyle(s)) }
spec fn rowstyle_1(w: W, s: RowStyle) -> W { w_fattrs(rowstyle_0(w, s), s.attr, s.attr.keys@.len()) }
spec fn rowstyle_2(w: W, s: RowStyle) -> W { w_props(rowstyle_1(w, s), "style:table-row-properties"@, s.rowstyle) }
spec fn w_rowstyle(w: W, s: RowStyle) -> W { w_end_if(rowstyle_2(w, s), has_rowstyle(s), stag(s.styleuse)) }
//@fn file=src/io/write.rs path=write_rowstyle
//@params style, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_rowstyle(old(xml_out)@, *style) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost s0 = *style; let ghost st = rowstyle_0(w0, s0).stack;
//@loop 0 it=it
    invariant *style == s0, it.seq().len() == s0.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.attr.keys@[i]@ && it.seq()[i].1@ == s0.attr.values@[i]@, xml_out@ == w_fattrs(rowstyle_0(w0, s0), s0.attr, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == rowstyle_0(w0, s0).stack,
//@loop 1 it=it
    invariant *style == s0, it.seq().len() == s0.rowstyle.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.rowstyle.keys@[i]@ && it.seq()[i].1@ == s0.rowstyle.values@[i]@, xml_out@ == w_attrs(w_empty(rowstyle_1(w0, s0), "style:table-row-properties"@), s0.rowstyle, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == rowstyle_0(w0, s0).stack,
//@at afterloop 0
    proof { assert(xml_out@ == rowstyle_1(w0, s0)); }
//@end
//@struct file=src/style/colstyle.rs name=ColStyle
//@end
impl ColStyle {
//@fn file=src/macro_style.rs path=ColStyle::origin macro=styles_styles2(ColStyle,ColStyleRef) macro_in=src/style/colstyle.rs
//@ret r
//@spec
    ensures r == self.origin,
//@end
//@fn file=src/macro_style.rs path=ColStyle::set_origin macro=styles_styles2(ColStyle,ColStyleRef) macro_in=src/style/colstyle.rs
//@params origin
//@spec
    ensures *final(self) == (ColStyle { origin, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=ColStyle::styleuse macro=styles_styles2(ColStyle,ColStyleRef) macro_in=src/style/colstyle.rs
//@ret r
//@spec
    ensures r == self.styleuse,
//@end
//@fn file=src/macro_style.rs path=ColStyle::set_styleuse macro=styles_styles2(ColStyle,ColStyleRef) macro_in=src/style/colstyle.rs
//@params styleuse
//@spec
    ensures *final(self) == (ColStyle { styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=ColStyle::name macro=styles_styles2(ColStyle,ColStyleRef) macro_in=src/style/colstyle.rs
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_style.rs path=ColStyle::set_name macro=styles_styles2(ColStyle,ColStyleRef) macro_in=src/style/colstyle.rs
//@params name
//@spec
    ensures final(self).name@ == name.text(), *final(self) == (ColStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=ColStyle::style_ref macro=styles_styles2(ColStyle,ColStyleRef) macro_in=src/style/colstyle.rs
//@ret r
//@spec
    ensures r.id@ == self.name@,
//@end
//@fn file=src/style/colstyle.rs path=ColStyle::new_empty
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.origin == StyleOrigin::Content, r.styleuse == StyleUse::Automatic, none(r.attr), none(r.colstyle),
//@end
//@fn file=src/style/colstyle.rs path=ColStyle::new
//@params name
//@ret r
//@spec
    ensures r.name@ == name.text(), r.origin == StyleOrigin::Content, r.styleuse == StyleUse::Automatic, none(r.attr), none(r.colstyle),
//@end
//@fn file=src/style/colstyle.rs path=ColStyle::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/style/colstyle.rs path=ColStyle::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (ColStyle { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/colstyle.rs path=ColStyle::colstyle
//@ret r
//@spec
    ensures *r == self.colstyle,
//@end
//@fn file=src/style/colstyle.rs path=ColStyle::colstyle_mut
//@ret r
//@spec
    ensures *r == old(self).colstyle, *final(self) == (ColStyle { colstyle: *final(r), ..*old(self) }),
//@end
}
spec fn has_colstyle(s: ColStyle) -> bool { some(s.colstyle) }
spec fn colstyle_0(w: W, s: ColStyle) -> W { w_head(w, s.styleuse, s.name@, "table-column"@, has_colstyle(s)) }
spec fn colstyle_1(w: W, s: ColStyle) -> W { w_fattrs(colstyle_0(w, s), s.attr, s.attr.keys@.len()) }
spec fn colstyle_2(w: W, s: ColStyle) -> W { w_props(colstyle_1(w, s), "style:table-column-properties"@, s.colstyle) }
spec fn w_colstyle(w: W, s: ColStyle) -> W { w_end_if(colstyle_2(w, s), has_colstyle(s), stag(s.styleuse)) }
//@fn file=src/io/write.rs path=write_colstyle
//@params style, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_colstyle(old(xml_out)@, *style) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost s0 = *style; let ghost st = colstyle_0(w0, s0).stack;
//@loop 0 it=it
    invariant *style == s0, it.seq().len() == s0.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.attr.keys@[i]@ && it.seq()[i].1@ == s0.attr.values@[i]@, xml_out@ == w_fattrs(colstyle_0(w0, s0), s0.attr, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == colstyle_0(w0, s0).stack,
//@loop 1 it=it
    invariant *style == s0, it.seq().len() == s0.colstyle.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.colstyle.keys@[i]@ && it.seq()[i].1@ == s0.colstyle.values@[i]@, xml_out@ == w_attrs(w_empty(colstyle_1(w0, s0), "style:table-column-properties"@), s0.colstyle, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == colstyle_0(w0, s0).stack,
//@at afterloop 0
    proof { assert(xml_out@ == colstyle_1(w0, s0)); }
//@end
//@struct file=src/style/cellstyle.rs name=CellStyle
//@end
impl CellStyle {
//@fn file=src/macro_style.rs path=CellStyle::origin macro=styles_styles2(CellStyle,CellStyleRef) macro_in=src/style/cellstyle.rs
//@ret r
//@spec
    ensures r == self.origin,
//@end
//@fn file=src/macro_style.rs path=CellStyle::set_origin macro=styles_styles2(CellStyle,CellStyleRef) macro_in=src/style/cellstyle.rs
//@params origin
//@spec
    ensures *final(self) == (CellStyle { origin, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=CellStyle::styleuse macro=styles_styles2(CellStyle,CellStyleRef) macro_in=src/style/cellstyle.rs
//@ret r
//@spec
    ensures r == self.styleuse,
//@end
//@fn file=src/macro_style.rs path=CellStyle::set_styleuse macro=styles_styles2(CellStyle,CellStyleRef) macro_in=src/style/cellstyle.rs
//@params styleuse
//@spec
    ensures *final(self) == (CellStyle { styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=CellStyle::name macro=styles_styles2(CellStyle,CellStyleRef) macro_in=src/style/cellstyle.rs
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_style.rs path=CellStyle::set_name macro=styles_styles2(CellStyle,CellStyleRef) macro_in=src/style/cellstyle.rs
//@params name
//@spec
    ensures final(self).name@ == name.text(), *final(self) == (CellStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=CellStyle::style_ref macro=styles_styles2(CellStyle,CellStyleRef) macro_in=src/style/cellstyle.rs
//@ret r
//@spec
    ensures r.id@ == self.name@,
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::new_empty
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.origin == StyleOrigin::Content, r.styleuse == StyleUse::Automatic, none(r.attr), none(r.cellstyle), none(r.paragraphstyle), none(r.textstyle), r.stylemaps is None,
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (CellStyle { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::cellstyle
//@ret r
//@spec
    ensures *r == self.cellstyle,
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::cellstyle_mut
//@ret r
//@spec
    ensures *r == old(self).cellstyle, *final(self) == (CellStyle { cellstyle: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::paragraphstyle
//@ret r
//@spec
    ensures *r == self.paragraphstyle,
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::paragraphstyle_mut
//@ret r
//@spec
    ensures *r == old(self).paragraphstyle, *final(self) == (CellStyle { paragraphstyle: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::textstyle
//@ret r
//@spec
    ensures *r == self.textstyle,
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::textstyle_mut
//@ret r
//@spec
    ensures *r == old(self).textstyle, *final(self) == (CellStyle { textstyle: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::stylemaps
//@ret r
//@spec
    ensures match (r, self.stylemaps) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false },
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::push_stylemap
//@params stylemap
//@spec
    ensures final(self).stylemaps matches Some(v) && v@ == (match old(self).stylemaps { Some(o) => o@, None => Seq::empty() }).push(stylemap), *final(self) == (CellStyle { stylemaps: final(self).stylemaps, ..*old(self) }),
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::stylemaps_mut
//@ret r
//@spec
    ensures r@ == (match old(self).stylemaps { Some(o) => o@, None => Seq::empty() }), final(self).stylemaps == Some(*final(r)), *final(self) == (CellStyle { stylemaps: final(self).stylemaps, ..*old(self) }),
//@end
}
spec fn has_cellstyle(s: CellStyle) -> bool { some(s.cellstyle) || some(s.paragraphstyle) || some(s.textstyle) || s.stylemaps is Some }
spec fn cellstyle_0(w: W, s: CellStyle) -> W { w_head(w, s.styleuse, s.name@, "table-cell"@, has_cellstyle(s)) }
spec fn cellstyle_1(w: W, s: CellStyle) -> W { w_fattrs(cellstyle_0(w, s), s.attr, s.attr.keys@.len()) }
spec fn cellstyle_2(w: W, s: CellStyle) -> W { w_props(cellstyle_1(w, s), "style:table-cell-properties"@, s.cellstyle) }
spec fn cellstyle_3(w: W, s: CellStyle) -> W { w_props(cellstyle_2(w, s), "style:paragraph-properties"@, s.paragraphstyle) }
spec fn cellstyle_4(w: W, s: CellStyle) -> W { w_props(cellstyle_3(w, s), "style:text-properties"@, s.textstyle) }
spec fn cellstyle_5(w: W, s: CellStyle) -> W { w_omaps(cellstyle_4(w, s), s.stylemaps) }
spec fn w_cellstyle(w: W, s: CellStyle) -> W { w_end_if(cellstyle_5(w, s), has_cellstyle(s), stag(s.styleuse)) }
//@fn file=src/io/write.rs path=write_cellstyle
//@params style, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_cellstyle(old(xml_out)@, *style) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost s0 = *style; let ghost st = cellstyle_0(w0, s0).stack;
//@loop 0 it=it
    invariant *style == s0, it.seq().len() == s0.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.attr.keys@[i]@ && it.seq()[i].1@ == s0.attr.values@[i]@, xml_out@ == w_fattrs(cellstyle_0(w0, s0), s0.attr, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == cellstyle_0(w0, s0).stack,
//@loop 1 it=it
    invariant *style == s0, it.seq().len() == s0.cellstyle.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.cellstyle.keys@[i]@ && it.seq()[i].1@ == s0.cellstyle.values@[i]@, xml_out@ == w_attrs(w_empty(cellstyle_1(w0, s0), "style:table-cell-properties"@), s0.cellstyle, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == cellstyle_0(w0, s0).stack,
//@loop 2 it=it
    invariant *style == s0, it.seq().len() == s0.paragraphstyle.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.paragraphstyle.keys@[i]@ && it.seq()[i].1@ == s0.paragraphstyle.values@[i]@, xml_out@ == w_attrs(w_empty(cellstyle_2(w0, s0), "style:paragraph-properties"@), s0.paragraphstyle, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == cellstyle_0(w0, s0).stack,
//@loop 3 it=it
    invariant *style == s0, it.seq().len() == s0.textstyle.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.textstyle.keys@[i]@ && it.seq()[i].1@ == s0.textstyle.values@[i]@, xml_out@ == w_attrs(w_empty(cellstyle_3(w0, s0), "style:text-properties"@), s0.textstyle, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == cellstyle_0(w0, s0).stack,
//@loop 4 it=it
    invariant *style == s0, s0.stylemaps is Some, it.seq().len() == s0.stylemaps->0@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == s0.stylemaps->0@[i], xml_out@ == w_maps(cellstyle_4(w0, s0), s0.stylemaps->0@, it.index@ as nat), xml_out@.stack == st,
//@at loopstart 4
    proof { assert(*it.seq()[it.index@ as int] == s0.stylemaps->0@[it.index@ as int]); }
//@at afterloop 0
    proof { assert(xml_out@ == cellstyle_1(w0, s0)); }
//@end
//@struct file=src/style/paragraphstyle.rs name=ParagraphStyle
//@end
impl ParagraphStyle {
//@fn file=src/macro_style.rs path=ParagraphStyle::origin macro=styles_styles2(ParagraphStyle,ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@ret r
//@spec
    ensures r == self.origin,
//@end
//@fn file=src/macro_style.rs path=ParagraphStyle::set_origin macro=styles_styles2(ParagraphStyle,ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@params origin
//@spec
    ensures *final(self) == (ParagraphStyle { origin, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=ParagraphStyle::styleuse macro=styles_styles2(ParagraphStyle,ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@ret r
//@spec
    ensures r == self.styleuse,
//@end
//@fn file=src/macro_style.rs path=ParagraphStyle::set_styleuse macro=styles_styles2(ParagraphStyle,ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@params styleuse
//@spec
    ensures *final(self) == (ParagraphStyle { styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=ParagraphStyle::name macro=styles_styles2(ParagraphStyle,ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_style.rs path=ParagraphStyle::set_name macro=styles_styles2(ParagraphStyle,ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@params name
//@spec
    ensures final(self).name@ == name.text(), *final(self) == (ParagraphStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=ParagraphStyle::style_ref macro=styles_styles2(ParagraphStyle,ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@ret r
//@spec
    ensures r.id@ == self.name@,
//@end
//@fn file=src/style/paragraphstyle.rs path=ParagraphStyle::new_empty
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.origin == StyleOrigin::Content, r.styleuse == StyleUse::Automatic, none(r.attr), none(r.paragraphstyle), none(r.textstyle), r.tabstops is None,
//@end
//@fn file=src/style/paragraphstyle.rs path=ParagraphStyle::new
//@params name
//@ret r
//@spec
    ensures r.name@ == name.text(), r.origin == StyleOrigin::Content, r.styleuse == StyleUse::Automatic, none(r.attr), none(r.paragraphstyle), none(r.textstyle), r.tabstops is None,
//@end
//@fn file=src/style/paragraphstyle.rs path=ParagraphStyle::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/style/paragraphstyle.rs path=ParagraphStyle::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (ParagraphStyle { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/paragraphstyle.rs path=ParagraphStyle::paragraphstyle
//@ret r
//@spec
    ensures *r == self.paragraphstyle,
//@end
//@fn file=src/style/paragraphstyle.rs path=ParagraphStyle::paragraphstyle_mut
//@ret r
//@spec
    ensures *r == old(self).paragraphstyle, *final(self) == (ParagraphStyle { paragraphstyle: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/paragraphstyle.rs path=ParagraphStyle::textstyle
//@ret r
//@spec
    ensures *r == self.textstyle,
//@end
//@fn file=src/style/paragraphstyle.rs path=ParagraphStyle::textstyle_mut
//@ret r
//@spec
    ensures *r == old(self).textstyle, *final(self) == (ParagraphStyle { textstyle: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/paragraphstyle.rs path=ParagraphStyle::tabstops
//@ret r
//@spec
    ensures match (r, self.tabstops) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false },
//@end
//@fn file=src/style/paragraphstyle.rs path=ParagraphStyle::add_tabstop
//@params ts
//@spec
    ensures final(self).tabstops matches Some(v) && v@ == (match old(self).tabstops { Some(o) => o@, None => Seq::empty() }).push(ts), *final(self) == (ParagraphStyle { tabstops: final(self).tabstops, ..*old(self) }),
//@end
}
spec fn has_paragraphstyle(s: ParagraphStyle) -> bool { some(s.paragraphstyle) || some(s.textstyle) || s.tabstops is Some }
spec fn paragraphstyle_0(w: W, s: ParagraphStyle) -> W { w_head(w, s.styleuse, s.name@, "paragraph"@, has_paragraphstyle(s)) }
spec fn paragraphstyle_1(w: W, s: ParagraphStyle) -> W { w_fattrs(paragraphstyle_0(w, s), s.attr, s.attr.keys@.len()) }
spec fn paragraphstyle_2(w: W, s: ParagraphStyle) -> W { w_para(paragraphstyle_1(w, s), s.paragraphstyle, s.tabstops) }
spec fn paragraphstyle_3(w: W, s: ParagraphStyle) -> W { w_props(paragraphstyle_2(w, s), "style:text-properties"@, s.textstyle) }
spec fn w_paragraphstyle(w: W, s: ParagraphStyle) -> W { w_end_if(paragraphstyle_3(w, s), has_paragraphstyle(s), stag(s.styleuse)) }
//@fn file=src/io/write.rs path=write_paragraphstyle
//@params style, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_paragraphstyle(old(xml_out)@, *style) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost s0 = *style; let ghost st = paragraphstyle_0(w0, s0).stack;
//@loop 0 it=it
    invariant *style == s0, it.seq().len() == s0.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.attr.keys@[i]@ && it.seq()[i].1@ == s0.attr.values@[i]@, xml_out@ == w_fattrs(paragraphstyle_0(w0, s0), s0.attr, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == paragraphstyle_0(w0, s0).stack,
//@loop 1 it=it
    invariant *style == s0, it.seq().len() == s0.paragraphstyle.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.paragraphstyle.keys@[i]@ && it.seq()[i].1@ == s0.paragraphstyle.values@[i]@, xml_out@ == w_attrs(w_empty(paragraphstyle_1(w0, s0), "style:paragraph-properties"@), s0.paragraphstyle, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == paragraphstyle_0(w0, s0).stack,
//@loop 2 it=it
    invariant *style == s0, s0.tabstops is Some, it.seq().len() == s0.paragraphstyle.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.paragraphstyle.keys@[i]@ && it.seq()[i].1@ == s0.paragraphstyle.values@[i]@, xml_out@ == w_attrs(w_open(paragraphstyle_1(w0, s0), "style:paragraph-properties"@), s0.paragraphstyle, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == (w_open(paragraphstyle_1(w0, s0), "style:paragraph-properties"@)).stack, paragraphstyle_1(w0, s0).stack == st, st == paragraphstyle_0(w0, s0).stack,
//@loop 3 it=it
    invariant *style == s0, s0.tabstops is Some, it.seq().len() == s0.tabstops->0@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == s0.tabstops->0@[i], xml_out@ == w_tabs(w_open(w_amap(w_open(paragraphstyle_1(w0, s0), "style:paragraph-properties"@), s0.paragraphstyle), "style:tab-stops"@), s0.tabstops->0@, it.index@ as nat), xml_out@.stack == (w_open(w_amap(w_open(paragraphstyle_1(w0, s0), "style:paragraph-properties"@), s0.paragraphstyle), "style:tab-stops"@)).stack, (w_open(w_amap(w_open(paragraphstyle_1(w0, s0), "style:paragraph-properties"@), s0.paragraphstyle), "style:tab-stops"@)).stack == st.push("style:paragraph-properties"@).push("style:tab-stops"@),
//@at loopstart 3
    let ghost wt = xml_out@; let ghost ix = it.index@; proof { assert(*it.seq()[ix as int] == s0.tabstops->0@[ix as int]); }
//@loop 4 it=it
    invariant *style == s0, it.seq().len() == ts.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == ts.attr.keys@[i]@ && it.seq()[i].1@ == ts.attr.values@[i]@, xml_out@ == w_attrs(w_empty(wt, "style:tab-stop"@), ts.attr, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == wt.stack,
//@loop 5 it=it
    invariant *style == s0, it.seq().len() == s0.textstyle.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.textstyle.keys@[i]@ && it.seq()[i].1@ == s0.textstyle.values@[i]@, xml_out@ == w_attrs(w_empty(paragraphstyle_2(w0, s0), "style:text-properties"@), s0.textstyle, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == paragraphstyle_0(w0, s0).stack,
//@at afterloop 0
    proof { assert(xml_out@ == paragraphstyle_1(w0, s0)); }
//@end
//@struct file=src/style/textstyle.rs name=TextStyle
//@end
impl TextStyle {
//@fn file=src/macro_style.rs path=TextStyle::origin macro=styles_styles2(TextStyle,TextStyleRef) macro_in=src/style/textstyle.rs
//@ret r
//@spec
    ensures r == self.origin,
//@end
//@fn file=src/macro_style.rs path=TextStyle::set_origin macro=styles_styles2(TextStyle,TextStyleRef) macro_in=src/style/textstyle.rs
//@params origin
//@spec
    ensures *final(self) == (TextStyle { origin, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=TextStyle::styleuse macro=styles_styles2(TextStyle,TextStyleRef) macro_in=src/style/textstyle.rs
//@ret r
//@spec
    ensures r == self.styleuse,
//@end
//@fn file=src/macro_style.rs path=TextStyle::set_styleuse macro=styles_styles2(TextStyle,TextStyleRef) macro_in=src/style/textstyle.rs
//@params styleuse
//@spec
    ensures *final(self) == (TextStyle { styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=TextStyle::name macro=styles_styles2(TextStyle,TextStyleRef) macro_in=src/style/textstyle.rs
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_style.rs path=TextStyle::set_name macro=styles_styles2(TextStyle,TextStyleRef) macro_in=src/style/textstyle.rs
//@params name
//@spec
    ensures final(self).name@ == name.text(), *final(self) == (TextStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=TextStyle::style_ref macro=styles_styles2(TextStyle,TextStyleRef) macro_in=src/style/textstyle.rs
//@ret r
//@spec
    ensures r.id@ == self.name@,
//@end
//@fn file=src/style/textstyle.rs path=TextStyle::new_empty
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.origin == StyleOrigin::Content, r.styleuse == StyleUse::Automatic, none(r.attr), none(r.textstyle),
//@end
//@fn file=src/style/textstyle.rs path=TextStyle::new
//@params name
//@ret r
//@spec
    ensures r.name@ == name.text(), r.origin == StyleOrigin::Content, r.styleuse == StyleUse::Automatic, none(r.attr), none(r.textstyle),
//@end
//@fn file=src/style/textstyle.rs path=TextStyle::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/style/textstyle.rs path=TextStyle::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (TextStyle { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/textstyle.rs path=TextStyle::textstyle
//@ret r
//@spec
    ensures *r == self.textstyle,
//@end
//@fn file=src/style/textstyle.rs path=TextStyle::textstyle_mut
//@ret r
//@spec
    ensures *r == old(self).textstyle, *final(self) == (TextStyle { textstyle: *final(r), ..*old(self) }),
//@end
}
spec fn has_textstyle(s: TextStyle) -> bool { some(s.textstyle) }
spec fn textstyle_0(w: W, s: TextStyle) -> W { w_head(w, s.styleuse, s.name@, "text"@, has_textstyle(s)) }
spec fn textstyle_1(w: W, s: TextStyle) -> W { w_fattrs(textstyle_0(w, s), s.attr, s.attr.keys@.len()) }
spec fn textstyle_2(w: W, s: TextStyle) -> W { w_props(textstyle_1(w, s), "style:text-properties"@, s.textstyle) }
spec fn w_textstyle(w: W, s: TextStyle) -> W { w_end_if(textstyle_2(w, s), has_textstyle(s), stag(s.styleuse)) }
//@fn file=src/io/write.rs path=write_textstyle
//@params style, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_textstyle(old(xml_out)@, *style) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost s0 = *style; let ghost st = textstyle_0(w0, s0).stack;
//@loop 0 it=it
    invariant *style == s0, it.seq().len() == s0.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.attr.keys@[i]@ && it.seq()[i].1@ == s0.attr.values@[i]@, xml_out@ == w_fattrs(textstyle_0(w0, s0), s0.attr, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == textstyle_0(w0, s0).stack,
//@loop 1 it=it
    invariant *style == s0, it.seq().len() == s0.textstyle.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.textstyle.keys@[i]@ && it.seq()[i].1@ == s0.textstyle.values@[i]@, xml_out@ == w_attrs(w_empty(textstyle_1(w0, s0), "style:text-properties"@), s0.textstyle, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == textstyle_0(w0, s0).stack,
//@at afterloop 0
    proof { assert(xml_out@ == textstyle_1(w0, s0)); }
//@end
//@struct file=src/style/ruby.rs name=RubyStyle
//@end
impl RubyStyle {
//@fn file=src/macro_style.rs path=RubyStyle::origin macro=styles_styles2(RubyStyle,RubyStyleRef) macro_in=src/style/ruby.rs
//@ret r
//@spec
    ensures r == self.origin,
//@end
//@fn file=src/macro_style.rs path=RubyStyle::set_origin macro=styles_styles2(RubyStyle,RubyStyleRef) macro_in=src/style/ruby.rs
//@params origin
//@spec
    ensures *final(self) == (RubyStyle { origin, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=RubyStyle::styleuse macro=styles_styles2(RubyStyle,RubyStyleRef) macro_in=src/style/ruby.rs
//@ret r
//@spec
    ensures r == self.styleuse,
//@end
//@fn file=src/macro_style.rs path=RubyStyle::set_styleuse macro=styles_styles2(RubyStyle,RubyStyleRef) macro_in=src/style/ruby.rs
//@params styleuse
//@spec
    ensures *final(self) == (RubyStyle { styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=RubyStyle::name macro=styles_styles2(RubyStyle,RubyStyleRef) macro_in=src/style/ruby.rs
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_style.rs path=RubyStyle::set_name macro=styles_styles2(RubyStyle,RubyStyleRef) macro_in=src/style/ruby.rs
//@params name
//@spec
    ensures final(self).name@ == name.text(), *final(self) == (RubyStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=RubyStyle::style_ref macro=styles_styles2(RubyStyle,RubyStyleRef) macro_in=src/style/ruby.rs
//@ret r
//@spec
    ensures r.id@ == self.name@,
//@end
//@fn file=src/style/ruby.rs path=RubyStyle::new_empty
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.origin == StyleOrigin::Content, r.styleuse == StyleUse::Automatic, none(r.attr), none(r.rubystyle),
//@end
//@fn file=src/style/ruby.rs path=RubyStyle::new
//@params name
//@ret r
//@spec
    ensures r.name@ == name.text(), r.origin == StyleOrigin::Content, r.styleuse == StyleUse::Automatic, none(r.attr), none(r.rubystyle),
//@end
//@fn file=src/style/ruby.rs path=RubyStyle::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/style/ruby.rs path=RubyStyle::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (RubyStyle { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/ruby.rs path=RubyStyle::rubystyle
//@ret r
//@spec
    ensures *r == self.rubystyle,
//@end
//@fn file=src/style/ruby.rs path=RubyStyle::rubystyle_mut
//@ret r
//@spec
    ensures *r == old(self).rubystyle, *final(self) == (RubyStyle { rubystyle: *final(r), ..*old(self) }),
//@end
}
spec fn has_rubystyle(s: RubyStyle) -> bool { some(s.rubystyle) }
spec fn rubystyle_0(w: W, s: RubyStyle) -> W { w_head(w, s.styleuse, s.name@, "ruby"@, has_rubystyle(s)) }
spec fn rubystyle_1(w: W, s: RubyStyle) -> W { w_fattrs(rubystyle_0(w, s), s.attr, s.attr.keys@.len()) }
spec fn rubystyle_2(w: W, s: RubyStyle) -> W { w_props(rubystyle_1(w, s), "style:ruby-properties"@, s.rubystyle) }
spec fn w_rubystyle(w: W, s: RubyStyle) -> W { w_end_if(rubystyle_2(w, s), has_rubystyle(s), stag(s.styleuse)) }
//@fn file=src/io/write.rs path=write_rubystyle
//@params style, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_rubystyle(old(xml_out)@, *style) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost s0 = *style; let ghost st = rubystyle_0(w0, s0).stack;
//@loop 0 it=it
    invariant *style == s0, it.seq().len() == s0.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.attr.keys@[i]@ && it.seq()[i].1@ == s0.attr.values@[i]@, xml_out@ == w_fattrs(rubystyle_0(w0, s0), s0.attr, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == rubystyle_0(w0, s0).stack,
//@loop 1 it=it
    invariant *style == s0, it.seq().len() == s0.rubystyle.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.rubystyle.keys@[i]@ && it.seq()[i].1@ == s0.rubystyle.values@[i]@, xml_out@ == w_attrs(w_empty(rubystyle_1(w0, s0), "style:ruby-properties"@), s0.rubystyle, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == rubystyle_0(w0, s0).stack,
//@at afterloop 0
    proof { assert(xml_out@ == rubystyle_1(w0, s0)); }
//@end
//@struct file=src/style/graphicstyle.rs name=GraphicStyle
//@end
impl GraphicStyle {
//@fn file=src/macro_style.rs path=GraphicStyle::origin macro=styles_styles2(GraphicStyle,GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@ret r
//@spec
    ensures r == self.origin,
//@end
//@fn file=src/macro_style.rs path=GraphicStyle::set_origin macro=styles_styles2(GraphicStyle,GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@params origin
//@spec
    ensures *final(self) == (GraphicStyle { origin, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=GraphicStyle::styleuse macro=styles_styles2(GraphicStyle,GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@ret r
//@spec
    ensures r == self.styleuse,
//@end
//@fn file=src/macro_style.rs path=GraphicStyle::set_styleuse macro=styles_styles2(GraphicStyle,GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@params styleuse
//@spec
    ensures *final(self) == (GraphicStyle { styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=GraphicStyle::name macro=styles_styles2(GraphicStyle,GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_style.rs path=GraphicStyle::set_name macro=styles_styles2(GraphicStyle,GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@params name
//@spec
    ensures final(self).name@ == name.text(), *final(self) == (GraphicStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=GraphicStyle::style_ref macro=styles_styles2(GraphicStyle,GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@ret r
//@spec
    ensures r.id@ == self.name@,
//@end
//@fn file=src/style/graphicstyle.rs path=GraphicStyle::new_empty
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.origin == StyleOrigin::Content, r.styleuse == StyleUse::Automatic, none(r.attr), none(r.graphicstyle), none(r.paragraphstyle), none(r.textstyle),
//@end
//@fn file=src/style/graphicstyle.rs path=GraphicStyle::new
//@params name
//@ret r
//@spec
    ensures r.name@ == name.text(), r.origin == StyleOrigin::Content, r.styleuse == StyleUse::Automatic, none(r.attr), none(r.graphicstyle), none(r.paragraphstyle), none(r.textstyle),
//@end
//@fn file=src/style/graphicstyle.rs path=GraphicStyle::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/style/graphicstyle.rs path=GraphicStyle::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (GraphicStyle { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/graphicstyle.rs path=GraphicStyle::graphicstyle
//@ret r
//@spec
    ensures *r == self.graphicstyle,
//@end
//@fn file=src/style/graphicstyle.rs path=GraphicStyle::graphicstyle_mut
//@ret r
//@spec
    ensures *r == old(self).graphicstyle, *final(self) == (GraphicStyle { graphicstyle: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/graphicstyle.rs path=GraphicStyle::paragraphstyle
//@ret r
//@spec
    ensures *r == self.paragraphstyle,
//@end
//@fn file=src/style/graphicstyle.rs path=GraphicStyle::paragraphstyle_mut
//@ret r
//@spec
    ensures *r == old(self).paragraphstyle, *final(self) == (GraphicStyle { paragraphstyle: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/graphicstyle.rs path=GraphicStyle::textstyle
//@ret r
//@spec
    ensures *r == self.textstyle,
//@end
//@fn file=src/style/graphicstyle.rs path=GraphicStyle::textstyle_mut
//@ret r
//@spec
    ensures *r == old(self).textstyle, *final(self) == (GraphicStyle { textstyle: *final(r), ..*old(self) }),
//@end
}
spec fn has_graphicstyle(s: GraphicStyle) -> bool { some(s.graphicstyle) || some(s.paragraphstyle) || some(s.textstyle) }
spec fn graphicstyle_0(w: W, s: GraphicStyle) -> W { w_head(w, s.styleuse, s.name@, "graphic"@, has_graphicstyle(s)) }
spec fn graphicstyle_1(w: W, s: GraphicStyle) -> W { w_fattrs(graphicstyle_0(w, s), s.attr, s.attr.keys@.len()) }
spec fn graphicstyle_2(w: W, s: GraphicStyle) -> W { w_props(graphicstyle_1(w, s), "style:graphic-properties"@, s.graphicstyle) }
spec fn graphicstyle_3(w: W, s: GraphicStyle) -> W { w_props(graphicstyle_2(w, s), "style:paragraph-properties"@, s.paragraphstyle) }
spec fn graphicstyle_4(w: W, s: GraphicStyle) -> W { w_props(graphicstyle_3(w, s), "style:text-properties"@, s.textstyle) }
spec fn w_graphicstyle(w: W, s: GraphicStyle) -> W { w_end_if(graphicstyle_4(w, s), has_graphicstyle(s), stag(s.styleuse)) }
//@fn file=src/io/write.rs path=write_graphicstyle
//@params style, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_graphicstyle(old(xml_out)@, *style) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost s0 = *style; let ghost st = graphicstyle_0(w0, s0).stack;
//@loop 0 it=it
    invariant *style == s0, it.seq().len() == s0.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.attr.keys@[i]@ && it.seq()[i].1@ == s0.attr.values@[i]@, xml_out@ == w_fattrs(graphicstyle_0(w0, s0), s0.attr, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == graphicstyle_0(w0, s0).stack,
//@loop 1 it=it
    invariant *style == s0, it.seq().len() == s0.graphicstyle.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.graphicstyle.keys@[i]@ && it.seq()[i].1@ == s0.graphicstyle.values@[i]@, xml_out@ == w_attrs(w_empty(graphicstyle_1(w0, s0), "style:graphic-properties"@), s0.graphicstyle, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == graphicstyle_0(w0, s0).stack,
//@loop 2 it=it
    invariant *style == s0, it.seq().len() == s0.paragraphstyle.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.paragraphstyle.keys@[i]@ && it.seq()[i].1@ == s0.paragraphstyle.values@[i]@, xml_out@ == w_attrs(w_empty(graphicstyle_2(w0, s0), "style:paragraph-properties"@), s0.paragraphstyle, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == graphicstyle_0(w0, s0).stack,
//@loop 3 it=it
    invariant *style == s0, it.seq().len() == s0.textstyle.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == s0.textstyle.keys@[i]@ && it.seq()[i].1@ == s0.textstyle.values@[i]@, xml_out@ == w_attrs(w_empty(graphicstyle_3(w0, s0), "style:text-properties"@), s0.textstyle, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == st, st == graphicstyle_0(w0, s0).stack,
//@at afterloop 0
    proof { assert(xml_out@ == graphicstyle_1(w0, s0)); }
//@end
// ------------------------------------------------------------------ value formats
//@struct file=src/value_.rs name=ValueType attr=derive(Clone,Copy,PartialEq,Eq,Structural)
//@end
//@struct file=src/format/mod.rs name=FormatPartType attr=derive(Clone,Copy,PartialEq,Eq,Structural)
//@end
//@struct file=src/format/mod.rs name=FormatPart
//@end
//@struct file=src/format/stylemap.rs name=ValueStyleMap
//@end
impl FormatPart {
//@fn file=src/format/mod.rs path=FormatPart::part_type
//@ret r
//@spec
    ensures r == self.part_type,
//@end
//@fn file=src/format/mod.rs path=FormatPart::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/format/mod.rs path=FormatPart::position
//@ret r
//@spec
    ensures r == self.position,
//@end
//@fn file=src/format/mod.rs path=FormatPart::content
//@ret r
//@spec
    ensures match (r, self.content) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false },
//@end
}
impl ValueStyleMap {
//@fn file=src/format/stylemap.rs path=ValueStyleMap::new
//@params condition, applied_style
//@ret r
//@spec
    ensures r.condition == condition, r.applied_style@ == applied_style.text(),
//@end
//@fn file=src/format/stylemap.rs path=ValueStyleMap::condition
//@ret r
//@spec
    ensures *r == self.condition,
//@end
//@fn file=src/format/stylemap.rs path=ValueStyleMap::applied_style
//@ret r
//@spec
    ensures *r == self.applied_style,
//@end
//@fn file=src/format/stylemap.rs path=ValueStyleMap::set_condition
//@params cond
//@spec
    ensures *final(self) == (ValueStyleMap { condition: cond, ..*old(self) }),
//@end
//@fn file=src/format/stylemap.rs path=ValueStyleMap::set_applied_style
//@params style
//@spec
    ensures final(self).applied_style@ == style.text(), final(self).condition == old(self).condition,
//@end
}
/// what the writer sees of a value format
ghost struct VF { name: Seq<char>, ty: ValueType, origin: StyleOrigin, styleuse: StyleUse, attr: AttrMap2, text: AttrMap2, parts: Vec<FormatPart>, maps: Option<Vec<ValueStyleMap>> }
trait ValueFormatTrait: Sized {
    spec fn vf(&self) -> VF;
    fn name(&self) -> (r: &String) ensures r@ == self.vf().name;
    fn value_type(&self) -> (r: ValueType) ensures r == self.vf().ty;
    fn origin(&self) -> (r: StyleOrigin) ensures r == self.vf().origin;
    fn styleuse(&self) -> (r: StyleUse) ensures r == self.vf().styleuse;
    fn attrmap(&self) -> (r: &AttrMap2) ensures *r == self.vf().attr;
    fn textstyle(&self) -> (r: &AttrMap2) ensures *r == self.vf().text;
    fn parts(&self) -> (r: &Vec<FormatPart>) ensures *r == self.vf().parts;
    fn stylemaps(&self) -> (r: Option<&Vec<ValueStyleMap>>) ensures match (r, self.vf().maps) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false };
}
//@struct file=src/macro_format.rs name=ValueFormatBoolean macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@end
impl ValueFormatTrait for ValueFormatBoolean {
    spec fn vf(&self) -> VF { VF { name: self.name@, ty: ValueType::Boolean, origin: self.origin, styleuse: self.styleuse, attr: self.attr, text: self.textstyle, parts: self.parts, maps: self.stylemaps } }
//@fn file=src/macro_format.rs path=ValueFormatBoolean::name trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::value_type trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::origin trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::attrmap trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::textstyle trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::parts trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::stylemaps trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@spec

//@end
}
//@struct file=src/macro_format.rs name=ValueFormatNumber macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@end
impl ValueFormatTrait for ValueFormatNumber {
    spec fn vf(&self) -> VF { VF { name: self.name@, ty: ValueType::Number, origin: self.origin, styleuse: self.styleuse, attr: self.attr, text: self.textstyle, parts: self.parts, maps: self.stylemaps } }
//@fn file=src/macro_format.rs path=ValueFormatNumber::name trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::value_type trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::origin trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::attrmap trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::textstyle trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::parts trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::stylemaps trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@spec

//@end
}
//@struct file=src/macro_format.rs name=ValueFormatPercentage macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@end
impl ValueFormatTrait for ValueFormatPercentage {
    spec fn vf(&self) -> VF { VF { name: self.name@, ty: ValueType::Percentage, origin: self.origin, styleuse: self.styleuse, attr: self.attr, text: self.textstyle, parts: self.parts, maps: self.stylemaps } }
//@fn file=src/macro_format.rs path=ValueFormatPercentage::name trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::value_type trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::origin trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::attrmap trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::textstyle trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::parts trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::stylemaps trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@spec

//@end
}
//@struct file=src/macro_format.rs name=ValueFormatCurrency macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@end
impl ValueFormatTrait for ValueFormatCurrency {
    spec fn vf(&self) -> VF { VF { name: self.name@, ty: ValueType::Currency, origin: self.origin, styleuse: self.styleuse, attr: self.attr, text: self.textstyle, parts: self.parts, maps: self.stylemaps } }
//@fn file=src/macro_format.rs path=ValueFormatCurrency::name trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::value_type trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::origin trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::attrmap trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::textstyle trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::parts trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::stylemaps trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@spec

//@end
}
//@struct file=src/macro_format.rs name=ValueFormatText macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@end
impl ValueFormatTrait for ValueFormatText {
    spec fn vf(&self) -> VF { VF { name: self.name@, ty: ValueType::Text, origin: self.origin, styleuse: self.styleuse, attr: self.attr, text: self.textstyle, parts: self.parts, maps: self.stylemaps } }
//@fn file=src/macro_format.rs path=ValueFormatText::name trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatText::value_type trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatText::origin trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatText::styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatText::attrmap trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatText::textstyle trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatText::parts trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatText::stylemaps trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@spec

//@end
}
//@struct file=src/macro_format.rs name=ValueFormatDateTime macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@end
impl ValueFormatTrait for ValueFormatDateTime {
    spec fn vf(&self) -> VF { VF { name: self.name@, ty: ValueType::DateTime, origin: self.origin, styleuse: self.styleuse, attr: self.attr, text: self.textstyle, parts: self.parts, maps: self.stylemaps } }
//@fn file=src/macro_format.rs path=ValueFormatDateTime::name trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::value_type trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::origin trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::attrmap trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::textstyle trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::parts trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::stylemaps trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@spec

//@end
}
//@struct file=src/macro_format.rs name=ValueFormatTimeDuration macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@end
impl ValueFormatTrait for ValueFormatTimeDuration {
    spec fn vf(&self) -> VF { VF { name: self.name@, ty: ValueType::TimeDuration, origin: self.origin, styleuse: self.styleuse, attr: self.attr, text: self.textstyle, parts: self.parts, maps: self.stylemaps } }
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::name trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::value_type trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::origin trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::attrmap trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::textstyle trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::parts trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@spec

//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::stylemaps trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@spec

//@end
}
spec fn vtag(t: ValueType) -> Nm { match t { ValueType::Boolean => "number:boolean-style"@, ValueType::Number => "number:number-style"@, ValueType::Text => "number:text-style"@, ValueType::TextXml => "number:text-style"@, ValueType::TimeDuration => "number:time-style"@, ValueType::Percentage => "number:percentage-style"@, ValueType::Currency => "number:currency-style"@, ValueType::DateTime => "number:date-style"@, ValueType::Empty => ""@ } }
spec fn ptag(t: FormatPartType) -> Nm { match t { FormatPartType::Boolean => "number:boolean"@, FormatPartType::Number => "number:number"@, FormatPartType::ScientificNumber => "number:scientific-number"@, FormatPartType::CurrencySymbol => "number:currency-symbol"@, FormatPartType::Day => "number:day"@, FormatPartType::Month => "number:month"@, FormatPartType::Year => "number:year"@, FormatPartType::Era => "number:era"@, FormatPartType::DayOfWeek => "number:day-of-week"@, FormatPartType::WeekOfYear => "number:week-of-year"@, FormatPartType::Quarter => "number:quarter"@, FormatPartType::Hours => "number:hours"@, FormatPartType::Minutes => "number:minutes"@, FormatPartType::Seconds => "number:seconds"@, FormatPartType::Fraction => "number:fraction"@, FormatPartType::AmPm => "number:am-pm"@, FormatPartType::Text => "number:text"@, FormatPartType::TextContent => "number:text-content"@, FormatPartType::FillCharacter => "number:fill-character"@ } }
spec fn w_part(w: W, p: FormatPart) -> W {
    let tag = ptag(p.part_type);
    if p.part_type == FormatPartType::Text || p.part_type == FormatPartType::CurrencySymbol || p.part_type == FormatPartType::FillCharacter {
        let has = p.content is Some && p.content->0@.len() > 0;
        let w1 = w_amap(w_if(w, has, tag), p.attr);
        if has { w_end(w_text(w1, p.content->0@), tag) } else { w1 }
    } else if p.part_type == FormatPartType::Number && p.position is Some {
        let w1 = w_amap(w_open(w, tag), p.attr);
        let pos = dec(p.position->0 as int);
        w_end(match p.content {
            Some(c) => w_end(w_text(w_attr(w_open(w1, "number:embedded-text"@), "number:position"@, pos), c@), "number:embedded-text"@),
            None => w_attr(w_empty(w1, "number:embedded-text"@), "number:position"@, pos),
        }, tag)
    } else { w_amap(w_empty(w, tag), p.attr) }
}
spec fn w_parts(w: W, v: Seq<FormatPart>, n: nat) -> W decreases n { if n == 0 { w } else { w_part(w_parts(w, v, (n - 1) as nat), v[n - 1]) } }
spec fn w_vmap(w: W, m: ValueStyleMap) -> W { w_attr(w_attr(w_empty(w, "style:map"@), "style:condition"@, vcondtext(m.condition)), "style:apply-style-name"@, m.applied_style@) }
spec fn w_vmaps(w: W, v: Seq<ValueStyleMap>, n: nat) -> W decreases n { if n == 0 { w } else { w_vmap(w_vmaps(w, v, (n - 1) as nat), v[n - 1]) } }
spec fn vf_0(w: W, v: VF) -> W { w_attr(w_open(w, vtag(v.ty)), "style:name"@, v.name) }
spec fn vf_1(w: W, v: VF) -> W { w_amap(vf_0(w, v), v.attr) }
spec fn vf_2(w: W, v: VF) -> W { w_props(vf_1(w, v), "style:text-properties"@, v.text) }
spec fn vf_3(w: W, v: VF) -> W { w_parts(vf_2(w, v), v.parts@, v.parts@.len()) }
spec fn vf_4(w: W, v: VF) -> W { match v.maps { Some(m) => w_vmaps(vf_3(w, v), m@, m@.len()), None => vf_3(w, v) } }
spec fn w_vf(w: W, v: VF) -> W { w_end(vf_4(w, v), vtag(v.ty)) }
/// of the first n formats those of this origin and use
spec fn w_vfs<T: ValueFormatTrait>(w: W, v: Seq<T>, o: StyleOrigin, u: StyleUse, n: nat) -> W decreases n { if n == 0 { w } else { let p = w_vfs(w, v, o, u, (n - 1) as nat); if v[n - 1].vf().origin == o && v[n - 1].vf().styleuse == u { w_vf(p, v[n - 1].vf()) } else { p } } }
spec fn w_valuestyle<T: ValueFormatTrait>(w: W, m: HashMap<String, T>, o: StyleOrigin, u: StyleUse) -> W { w_vfs(w, vals(m), o, u, vals(m).len()) }
//@fn file=src/io/write.rs path=write_valuestyle
//@params value_formats, origin, styleuse, xml_out
//@ret r
//@spec
    requires forall|i: int| 0 <= i < vals(*value_formats).len() ==> (#[trigger] vals(*value_formats)[i]).vf().ty != ValueType::Empty,
    ensures r is Ok ==> final(xml_out)@ == w_valuestyle(old(xml_out)@, *value_formats, origin, styleuse) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost vs = vals(*value_formats);
//@loop 0 it=it
    invariant it.seq().len() == vs.len(), forall|i: int| 0 <= i < it.seq().len() ==> **(#[trigger] it.seq()[i]) == vs[i], xml_out@ == w_vfs(w0, vs, origin, styleuse, it.index@ as nat), xml_out@.stack == w0.stack, forall|i: int| 0 <= i < vs.len() ==> (#[trigger] vs[i]).vf().ty != ValueType::Empty,
//@at loopstart 0
    let ghost wl = xml_out@; let ghost ix = it.index@; let ghost vf = vs[ix as int].vf(); proof { assert(**it.seq()[ix as int] == vs[ix as int]); }
//@loop 1 it=it
    invariant it.seq().len() == vf.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == vf.attr.keys@[i]@ && it.seq()[i].1@ == vf.attr.values@[i]@, xml_out@ == w_attrs(vf_0(wl, vf), vf.attr, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == (vf_0(wl, vf)).stack,
//@at afterloop 1
    proof { assert(xml_out@ == vf_1(wl, vf)); assert(xml_out@.stack == wl.stack.push(vtag(vf.ty))); }
//@loop 2 it=it
    invariant it.seq().len() == vf.text.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == vf.text.keys@[i]@ && it.seq()[i].1@ == vf.text.values@[i]@, xml_out@ == w_attrs(w_empty(vf_1(wl, vf), "style:text-properties"@), vf.text, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == (w_empty(vf_1(wl, vf), "style:text-properties"@)).stack,
//@at beforeloop 3
    proof { lemma_props(vf_1(wl, vf), "style:text-properties"@, vf.text); assert(xml_out@ == vf_2(wl, vf)); assert(xml_out@.stack == wl.stack.push(vtag(vf.ty))); }
//@loop 3 it=it
    invariant it.seq().len() == vf.parts@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == vf.parts@[i], xml_out@ == w_parts(vf_2(wl, vf), vf.parts@, it.index@ as nat), xml_out@.stack == wl.stack.push(vtag(vf.ty)),
//@at loopstart 3
    let ghost wp = xml_out@; let ghost pt = vf.parts@[it.index@ as int]; proof { assert(*it.seq()[it.index@ as int] == pt); }
//@at loopend 3
    proof { assert(xml_out@ == w_part(wp, pt)); }
//@at before 0 if part.part_type() == FormatPartType::Text
    proof { assert(part_tag@ == ptag(pt.part_type)); }
//@loop 4 it=it
    invariant it.seq().len() == pt.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == pt.attr.keys@[i]@ && it.seq()[i].1@ == pt.attr.values@[i]@, xml_out@ == w_attrs(w_if(wp, content is Some, ptag(pt.part_type)), pt.attr, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == (w_if(wp, content is Some, ptag(pt.part_type))).stack,
//@loop 5 it=it
    invariant it.seq().len() == pt.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == pt.attr.keys@[i]@ && it.seq()[i].1@ == pt.attr.values@[i]@, xml_out@ == w_attrs(w_open(wp, ptag(pt.part_type)), pt.attr, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == (w_open(wp, ptag(pt.part_type))).stack,
//@loop 6 it=it
    invariant it.seq().len() == pt.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == pt.attr.keys@[i]@ && it.seq()[i].1@ == pt.attr.values@[i]@, xml_out@ == w_attrs(w_empty(wp, ptag(pt.part_type)), pt.attr, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == (w_empty(wp, ptag(pt.part_type))).stack,
//@loop 7 it=it
    invariant it.seq().len() == pt.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == pt.attr.keys@[i]@ && it.seq()[i].1@ == pt.attr.values@[i]@, xml_out@ == w_attrs(w_empty(wp, ptag(pt.part_type)), pt.attr, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == (w_empty(wp, ptag(pt.part_type))).stack,
//@loop 8 it=it
    invariant vf.maps is Some, it.seq().len() == vf.maps->0@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == vf.maps->0@[i], xml_out@ == w_vmaps(vf_3(wl, vf), vf.maps->0@, it.index@ as nat), xml_out@.stack == wl.stack.push(vtag(vf.ty)),
//@at loopstart 8
    proof { assert(*it.seq()[it.index@ as int] == vf.maps->0@[it.index@ as int]); }
//@at afterloop 3
    proof { assert(xml_out@ == vf_3(wl, vf)); }
//@end
// ------------------------------------------------------------------ pages
//@struct file=src/style/pagestyle.rs name=HeaderFooterStyle
//@end
//@struct file=src/style/pagestyle.rs name=PageStyle
//@end
impl HeaderFooterStyle {
    fn vp_default() -> (r: Self) ensures none(r.style) { HeaderFooterStyle { style: AttrMap2::vp_new() } }
//@fn file=src/style/pagestyle.rs path=HeaderFooterStyle::style
//@ret r
//@spec
    ensures *r == self.style,
//@end
//@fn file=src/style/pagestyle.rs path=HeaderFooterStyle::style_mut
//@ret r
//@spec
    ensures *r == old(self).style, final(self).style == *final(r),
//@end
}
impl PageStyle {
//@fn file=src/style/pagestyle.rs path=PageStyle::new_empty
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.master_page_usage is None, none(r.style), none(r.header.style), none(r.footer.style),
//@end
//@fn file=src/style/pagestyle.rs path=PageStyle::new
//@params name
//@ret r
//@spec
    ensures r.name@ == name.text(), r.master_page_usage is None, none(r.style), none(r.header.style), none(r.footer.style),
//@end
//@fn file=src/style/pagestyle.rs path=PageStyle::style_ref
//@ret r
//@spec
    ensures r.id@ == self.name@,
//@end
//@fn file=src/style/pagestyle.rs path=PageStyle::name
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/style/pagestyle.rs path=PageStyle::set_name
//@params name
//@spec
    ensures final(self).name@ == name.itext(), *final(self) == (PageStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/style/pagestyle.rs path=PageStyle::clear_page_usage
//@spec
    ensures *final(self) == (PageStyle { master_page_usage: None, ..*old(self) }),
//@end
//@fn file=src/style/pagestyle.rs path=PageStyle::headerstyle
//@ret r
//@spec
    ensures *r == self.header,
//@end
//@fn file=src/style/pagestyle.rs path=PageStyle::headerstyle_mut
//@ret r
//@spec
    ensures *r == old(self).header, *final(self) == (PageStyle { header: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/pagestyle.rs path=PageStyle::footerstyle
//@ret r
//@spec
    ensures *r == self.footer,
//@end
//@fn file=src/style/pagestyle.rs path=PageStyle::footerstyle_mut
//@ret r
//@spec
    ensures *r == old(self).footer, *final(self) == (PageStyle { footer: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/pagestyle.rs path=PageStyle::style
//@ret r
//@spec
    ensures *r == self.style,
//@end
//@fn file=src/style/pagestyle.rs path=PageStyle::style_mut
//@ret r
//@spec
    ensures *r == old(self).style, *final(self) == (PageStyle { style: *final(r), ..*old(self) }),
//@end
}
spec fn pg_0(w: W, p: PageStyle) -> W { w_oattr(w_attr(w_open(w, "style:page-layout"@), "style:name"@, p.name@), "style:page-usage"@, otext(p.master_page_usage)) }
spec fn pg_1(w: W, p: PageStyle) -> W { w_props(pg_0(w, p), "style:page-layout-properties"@, p.style) }
spec fn w_hfs(w: W, tag: Nm, m: AttrMap2) -> W { w_end(w_amap(w_empty(w_open(w, tag), "style:header-footer-properties"@), m), tag) }
spec fn pg_2(w: W, p: PageStyle) -> W { w_hfs(pg_1(w, p), "style:header-style"@, p.header.style) }
spec fn pg_3(w: W, p: PageStyle) -> W { w_hfs(pg_2(w, p), "style:footer-style"@, p.footer.style) }
spec fn w_page(w: W, p: PageStyle) -> W { w_end(pg_3(w, p), "style:page-layout"@) }
spec fn w_pages(w: W, v: Seq<PageStyle>, n: nat) -> W decreases n { if n == 0 { w } else { w_page(w_pages(w, v, (n - 1) as nat), v[n - 1]) } }
//@fn file=src/io/write.rs path=write_pagestyles
//@params styles, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_pages(old(xml_out)@, vals(*styles), vals(*styles).len()) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost vs = vals(*styles);
//@loop 0 it=it
    invariant it.seq().len() == vs.len(), forall|i: int| 0 <= i < it.seq().len() ==> **(#[trigger] it.seq()[i]) == vs[i], xml_out@ == w_pages(w0, vs, it.index@ as nat), xml_out@.stack == w0.stack,
//@at loopstart 0
    let ghost wl = xml_out@; let ghost pg = vs[it.index@ as int]; let ghost st = wl.stack.push("style:page-layout"@); proof { assert(**it.seq()[it.index@ as int] == pg); }
//@loop 1 it=it
    invariant it.seq().len() == pg.style.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == pg.style.keys@[i]@ && it.seq()[i].1@ == pg.style.values@[i]@, xml_out@ == w_attrs(w_empty(pg_0(wl, pg), "style:page-layout-properties"@), pg.style, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == (w_empty(pg_0(wl, pg), "style:page-layout-properties"@)).stack,
//@loop 2 it=it
    invariant it.seq().len() == pg.header.style.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == pg.header.style.keys@[i]@ && it.seq()[i].1@ == pg.header.style.values@[i]@, xml_out@ == w_attrs(w_empty(w_open(pg_1(wl, pg), "style:header-style"@), "style:header-footer-properties"@), pg.header.style, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == (w_empty(w_open(pg_1(wl, pg), "style:header-style"@), "style:header-footer-properties"@)).stack,
//@loop 3 it=it
    invariant it.seq().len() == pg.footer.style.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == pg.footer.style.keys@[i]@ && it.seq()[i].1@ == pg.footer.style.values@[i]@, xml_out@ == w_attrs(w_empty(w_open(pg_2(wl, pg), "style:footer-style"@), "style:header-footer-properties"@), pg.footer.style, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == (w_empty(w_open(pg_2(wl, pg), "style:footer-style"@), "style:header-footer-properties"@)).stack,
//@at before 0 xml_out.elem("style:header-style")
    proof { assert(xml_out@ == pg_1(wl, pg)); assert(xml_out@.stack == st); }
//@at before 0 xml_out.elem("style:footer-style")
    proof { assert(xml_out@ == pg_2(wl, pg)); assert(xml_out@.stack == st); }
//@at before 0 xml_out.end_elem("style:page-layout")
    proof { assert(xml_out@ == pg_3(wl, pg)); assert(xml_out@.stack == st); }
//@end
//@struct file=src/style/masterpage.rs name=HeaderFooter
//@end
//@struct file=src/style/masterpage.rs name=MasterPage
//@end
impl HeaderFooter {
//@fn file=src/style/masterpage.rs path=HeaderFooter::display
//@ret r
//@spec
    ensures r == self.display,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::is_empty
//@ret r
//@spec
    ensures r == hf_empty(*self),
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::left
//@ret r
//@subst self.region_left.as_ref() ==> &self.region_left
//@spec
    ensures *r == self.region_left,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::center
//@ret r
//@subst self.region_center.as_ref() ==> &self.region_center
//@spec
    ensures *r == self.region_center,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::right
//@ret r
//@subst self.region_right.as_ref() ==> &self.region_right
//@spec
    ensures *r == self.region_right,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::content
//@ret r
//@spec
    ensures *r == self.content,
//@end
}
impl MasterPage {
//@fn file=src/style/masterpage.rs path=MasterPage::name
//@ret r
//@spec
    ensures *r == self.name,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::display_name
//@ret r
//@spec
    ensures *r == self.display_name,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::pagestyle
//@ret r
//@spec
    ensures match (r, self.pagestyle) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false },
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::next_masterpage
//@ret r
//@spec
    ensures match (r, self.next_style_name) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false },
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::header
//@ret r
//@spec
    ensures *r == self.header,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::header_first
//@ret r
//@spec
    ensures *r == self.header_first,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::header_left
//@ret r
//@spec
    ensures *r == self.header_left,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::footer
//@ret r
//@spec
    ensures *r == self.footer,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::footer_first
//@ret r
//@spec
    ensures *r == self.footer_first,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::footer_left
//@ret r
//@spec
    ensures *r == self.footer_left,
//@end
}
spec fn hf_empty(h: HeaderFooter) -> bool { h.region_left@.len() == 0 && h.region_center@.len() == 0 && h.region_right@.len() == 0 && h.content@.len() == 0 }
spec fn w_region(w: W, tag: Nm, v: Vec<XmlTag>) -> W { if v@.len() > 0 { w_end(w_tags(w_open(w, tag), v@, v@.len()), tag) } else { w } }
spec fn rg_1(w: W, h: HeaderFooter) -> W { w_region(w, "style:region-left"@, h.region_left) }
spec fn rg_2(w: W, h: HeaderFooter) -> W { w_region(rg_1(w, h), "style:region-center"@, h.region_center) }
spec fn rg_3(w: W, h: HeaderFooter) -> W { w_region(rg_2(w, h), "style:region-right"@, h.region_right) }
/// the regions of a header, each with its content
spec fn w_regions(w: W, h: HeaderFooter) -> W { w_tags(rg_3(w, h), h.content@, h.content@.len()) }
//@fn file=src/io/write.rs path=write_regions
//@params hf, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_regions(old(xml_out)@, *hf) && final(xml_out)@.stack == old(xml_out)@.stack, r is Ok && hf_empty(*hf) ==> final(xml_out)@ == old(xml_out)@,
//@at start
    let ghost w0 = xml_out@;
//@loop 0 it=it
    invariant it.seq().len() == hf.region_left@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == hf.region_left@[i], xml_out@ == w_tags(w_open(w0, "style:region-left"@), hf.region_left@, it.index@ as nat), xml_out@.stack == w0.stack.push("style:region-left"@),
//@loop 1 it=it
    invariant it.seq().len() == hf.region_center@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == hf.region_center@[i], xml_out@ == w_tags(w_open(rg_1(w0, *hf), "style:region-center"@), hf.region_center@, it.index@ as nat), xml_out@.stack == w0.stack.push("style:region-center"@),
//@loop 2 it=it
    invariant it.seq().len() == hf.region_right@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == hf.region_right@[i], xml_out@ == w_tags(w_open(rg_2(w0, *hf), "style:region-right"@), hf.region_right@, it.index@ as nat), xml_out@.stack == w0.stack.push("style:region-right"@),
//@loop 3 it=it
    invariant it.seq().len() == hf.content@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == hf.content@[i], xml_out@ == w_tags(rg_3(w0, *hf), hf.content@, it.index@ as nat), xml_out@.stack == w0.stack,
//@end
/// a header or footer; an empty one is not displayed
spec fn w_hf(w: W, tag: Nm, h: HeaderFooter) -> W {
    let w1 = w_if(w, !hf_empty(h), tag);
    let w2 = if !h.display || hf_empty(h) { w_attr(w1, "style:display"@, "false"@) } else { w1 };
    w_end_if(w_regions(w2, h), !hf_empty(h), tag)
}
spec fn oref(o: Option<PageStyleRef>) -> Option<Seq<char>> { match o { Some(v) => Some(v.id@), None => None } }
spec fn omref(o: Option<MasterPageRef>) -> Option<Seq<char>> { match o { Some(v) => Some(v.id@), None => None } }
spec fn mp_0(w: W, m: MasterPage) -> W { w_oattr(w_oattr(w_oattr(w_attr(w_open(w, "style:master-page"@), "style:name"@, m.name@), "style:display-name"@, filled(m.display_name@)), "style:page-layout-name"@, oref(m.pagestyle)), "style:next-style-name"@, omref(m.next_style_name)) }
spec fn mp_1(w: W, m: MasterPage) -> W { w_hf(mp_0(w, m), "style:header"@, m.header) }
spec fn mp_2(w: W, m: MasterPage) -> W { w_hf(mp_1(w, m), "style:header-first"@, m.header_first) }
spec fn mp_3(w: W, m: MasterPage) -> W { w_hf(mp_2(w, m), "style:header-left"@, m.header_left) }
spec fn mp_4(w: W, m: MasterPage) -> W { w_hf(mp_3(w, m), "style:footer"@, m.footer) }
spec fn mp_5(w: W, m: MasterPage) -> W { w_hf(mp_4(w, m), "style:footer-first"@, m.footer_first) }
spec fn mp_6(w: W, m: MasterPage) -> W { w_hf(mp_5(w, m), "style:footer-left"@, m.footer_left) }
spec fn w_mp(w: W, m: MasterPage) -> W { w_end(mp_6(w, m), "style:master-page"@) }
spec fn w_mps(w: W, v: Seq<MasterPage>, n: nat) -> W decreases n { if n == 0 { w } else { w_mp(w_mps(w, v, (n - 1) as nat), v[n - 1]) } }
fn vp_hf(hf: &HeaderFooter, tag: &'static str, xml_out: &mut OdsXmlWriter<'_>) -> (r: Result<(), OdsError>)
    ensures r is Ok ==> final(xml_out)@ == w_hf(old(xml_out)@, tag@, *hf) && final(xml_out)@.stack == old(xml_out)@.stack,
{
    xml_out.elem_if(!hf.is_empty(), tag)?;
    if !hf.display() || hf.is_empty() {
        xml_out.attr_str("style:display", "false")?;
    }
    write_regions(hf, xml_out)?;
    xml_out.end_elem_if(!hf.is_empty(), tag)?;
    Ok(())
}
// the six equal groups of statements are verified once, as vp_hf above
//@fn file=src/io/write.rs path=write_masterpage
//@params masterpages, xml_out
//@ret r
//@subst xml_out.elem_if(!masterpage.$ida().is_empty(), $t)?; if !masterpage.$ida().display() || masterpage.$ida().is_empty() { xml_out.attr_str("style:display", "false")?; } write_regions(masterpage.$ida(), xml_out)?; xml_out.end_elem_if(!masterpage.$ida().is_empty(), $t)?; ==> vp_hf(masterpage.$ida(), $t, xml_out)?;
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_mps(old(xml_out)@, vals(*masterpages), vals(*masterpages).len()) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost vs = vals(*masterpages);
//@loop 0 it=it
    invariant it.seq().len() == vs.len(), forall|i: int| 0 <= i < it.seq().len() ==> **(#[trigger] it.seq()[i]) == vs[i], xml_out@ == w_mps(w0, vs, it.index@ as nat), xml_out@.stack == w0.stack,
//@at loopstart 0
    let ghost wl = xml_out@; let ghost mp = vs[it.index@ as int]; let ghost st = wl.stack.push("style:master-page"@); proof { assert(**it.seq()[it.index@ as int] == mp); }
//@at before 0 vp_hf(masterpage.header(), "style:header", xml_out)
    proof { assert(xml_out@ == mp_0(wl, mp)); assert(xml_out@.stack == st); }
//@end
// ------------------------------------------------------------------ all styles of a workbook
//@struct file=src/workbook_.rs name=WorkBook
//@keep tablestyles, rowstyles, colstyles, cellstyles, paragraphstyles, textstyles, rubystyles, graphicstyles, formats_boolean, formats_number, formats_percentage, formats_currency, formats_text, formats_datetime, formats_timeduration, pagestyles, masterpages
//@end
spec fn w_colstyles(w: W, v: Seq<ColStyle>, o: StyleOrigin, u: StyleUse, n: nat) -> W decreases n { if n == 0 { w } else { let p = w_colstyles(w, v, o, u, (n - 1) as nat); if v[n - 1].origin == o && v[n - 1].styleuse == u { w_colstyle(p, v[n - 1]) } else { p } } }
spec fn ss_1(w: W, b: WorkBook, o: StyleOrigin, u: StyleUse) -> W { w_colstyles(w, vals(b.colstyles), o, u, vals(b.colstyles).len()) }
spec fn w_rowstyles(w: W, v: Seq<RowStyle>, o: StyleOrigin, u: StyleUse, n: nat) -> W decreases n { if n == 0 { w } else { let p = w_rowstyles(w, v, o, u, (n - 1) as nat); if v[n - 1].origin == o && v[n - 1].styleuse == u { w_rowstyle(p, v[n - 1]) } else { p } } }
spec fn ss_2(w: W, b: WorkBook, o: StyleOrigin, u: StyleUse) -> W { w_rowstyles(ss_1(w, b, o, u), vals(b.rowstyles), o, u, vals(b.rowstyles).len()) }
spec fn w_tablestyles(w: W, v: Seq<TableStyle>, o: StyleOrigin, u: StyleUse, n: nat) -> W decreases n { if n == 0 { w } else { let p = w_tablestyles(w, v, o, u, (n - 1) as nat); if v[n - 1].origin == o && v[n - 1].styleuse == u { w_tablestyle(p, v[n - 1]) } else { p } } }
spec fn ss_3(w: W, b: WorkBook, o: StyleOrigin, u: StyleUse) -> W { w_tablestyles(ss_2(w, b, o, u), vals(b.tablestyles), o, u, vals(b.tablestyles).len()) }
spec fn w_cellstyles(w: W, v: Seq<CellStyle>, o: StyleOrigin, u: StyleUse, n: nat) -> W decreases n { if n == 0 { w } else { let p = w_cellstyles(w, v, o, u, (n - 1) as nat); if v[n - 1].origin == o && v[n - 1].styleuse == u { w_cellstyle(p, v[n - 1]) } else { p } } }
spec fn ss_4(w: W, b: WorkBook, o: StyleOrigin, u: StyleUse) -> W { w_cellstyles(ss_3(w, b, o, u), vals(b.cellstyles), o, u, vals(b.cellstyles).len()) }
spec fn w_paragraphstyles(w: W, v: Seq<ParagraphStyle>, o: StyleOrigin, u: StyleUse, n: nat) -> W decreases n { if n == 0 { w } else { let p = w_paragraphstyles(w, v, o, u, (n - 1) as nat); if v[n - 1].origin == o && v[n - 1].styleuse == u { w_paragraphstyle(p, v[n - 1]) } else { p } } }
spec fn ss_5(w: W, b: WorkBook, o: StyleOrigin, u: StyleUse) -> W { w_paragraphstyles(ss_4(w, b, o, u), vals(b.paragraphstyles), o, u, vals(b.paragraphstyles).len()) }
spec fn w_textstyles(w: W, v: Seq<TextStyle>, o: StyleOrigin, u: StyleUse, n: nat) -> W decreases n { if n == 0 { w } else { let p = w_textstyles(w, v, o, u, (n - 1) as nat); if v[n - 1].origin == o && v[n - 1].styleuse == u { w_textstyle(p, v[n - 1]) } else { p } } }
spec fn ss_6(w: W, b: WorkBook, o: StyleOrigin, u: StyleUse) -> W { w_textstyles(ss_5(w, b, o, u), vals(b.textstyles), o, u, vals(b.textstyles).len()) }
spec fn w_rubystyles(w: W, v: Seq<RubyStyle>, o: StyleOrigin, u: StyleUse, n: nat) -> W decreases n { if n == 0 { w } else { let p = w_rubystyles(w, v, o, u, (n - 1) as nat); if v[n - 1].origin == o && v[n - 1].styleuse == u { w_rubystyle(p, v[n - 1]) } else { p } } }
spec fn ss_7(w: W, b: WorkBook, o: StyleOrigin, u: StyleUse) -> W { w_rubystyles(ss_6(w, b, o, u), vals(b.rubystyles), o, u, vals(b.rubystyles).len()) }
spec fn w_graphicstyles(w: W, v: Seq<GraphicStyle>, o: StyleOrigin, u: StyleUse, n: nat) -> W decreases n { if n == 0 { w } else { let p = w_graphicstyles(w, v, o, u, (n - 1) as nat); if v[n - 1].origin == o && v[n - 1].styleuse == u { w_graphicstyle(p, v[n - 1]) } else { p } } }
spec fn ss_8(w: W, b: WorkBook, o: StyleOrigin, u: StyleUse) -> W { w_graphicstyles(ss_7(w, b, o, u), vals(b.graphicstyles), o, u, vals(b.graphicstyles).len()) }
/// the styles of this origin and use, each once
spec fn w_styles(w: W, b: WorkBook, o: StyleOrigin, u: StyleUse) -> W { ss_8(w, b, o, u) }
//@fn file=src/io/write.rs path=write_styles
//@params book, origin, styleuse, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_styles(old(xml_out)@, *book, origin, styleuse) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@;
//@loop 0 it=it
    invariant it.seq().len() == vals(book.colstyles).len(), forall|i: int| 0 <= i < it.seq().len() ==> **(#[trigger] it.seq()[i]) == vals(book.colstyles)[i], xml_out@ == w_colstyles(w0, vals(book.colstyles), origin, styleuse, it.index@ as nat), xml_out@.stack == w0.stack,
//@at loopstart 0
    proof { assert(**it.seq()[it.index@ as int] == vals(book.colstyles)[it.index@ as int]); }
//@at afterloop 0
    proof { assert(xml_out@ == ss_1(w0, *book, origin, styleuse)); }
//@loop 1 it=it
    invariant it.seq().len() == vals(book.rowstyles).len(), forall|i: int| 0 <= i < it.seq().len() ==> **(#[trigger] it.seq()[i]) == vals(book.rowstyles)[i], xml_out@ == w_rowstyles(ss_1(w0, *book, origin, styleuse), vals(book.rowstyles), origin, styleuse, it.index@ as nat), xml_out@.stack == w0.stack,
//@at loopstart 1
    proof { assert(**it.seq()[it.index@ as int] == vals(book.rowstyles)[it.index@ as int]); }
//@at afterloop 1
    proof { assert(xml_out@ == ss_2(w0, *book, origin, styleuse)); }
//@loop 2 it=it
    invariant it.seq().len() == vals(book.tablestyles).len(), forall|i: int| 0 <= i < it.seq().len() ==> **(#[trigger] it.seq()[i]) == vals(book.tablestyles)[i], xml_out@ == w_tablestyles(ss_2(w0, *book, origin, styleuse), vals(book.tablestyles), origin, styleuse, it.index@ as nat), xml_out@.stack == w0.stack,
//@at loopstart 2
    proof { assert(**it.seq()[it.index@ as int] == vals(book.tablestyles)[it.index@ as int]); }
//@at afterloop 2
    proof { assert(xml_out@ == ss_3(w0, *book, origin, styleuse)); }
//@loop 3 it=it
    invariant it.seq().len() == vals(book.cellstyles).len(), forall|i: int| 0 <= i < it.seq().len() ==> **(#[trigger] it.seq()[i]) == vals(book.cellstyles)[i], xml_out@ == w_cellstyles(ss_3(w0, *book, origin, styleuse), vals(book.cellstyles), origin, styleuse, it.index@ as nat), xml_out@.stack == w0.stack,
//@at loopstart 3
    proof { assert(**it.seq()[it.index@ as int] == vals(book.cellstyles)[it.index@ as int]); }
//@at afterloop 3
    proof { assert(xml_out@ == ss_4(w0, *book, origin, styleuse)); }
//@loop 4 it=it
    invariant it.seq().len() == vals(book.paragraphstyles).len(), forall|i: int| 0 <= i < it.seq().len() ==> **(#[trigger] it.seq()[i]) == vals(book.paragraphstyles)[i], xml_out@ == w_paragraphstyles(ss_4(w0, *book, origin, styleuse), vals(book.paragraphstyles), origin, styleuse, it.index@ as nat), xml_out@.stack == w0.stack,
//@at loopstart 4
    proof { assert(**it.seq()[it.index@ as int] == vals(book.paragraphstyles)[it.index@ as int]); }
//@at afterloop 4
    proof { assert(xml_out@ == ss_5(w0, *book, origin, styleuse)); }
//@loop 5 it=it
    invariant it.seq().len() == vals(book.textstyles).len(), forall|i: int| 0 <= i < it.seq().len() ==> **(#[trigger] it.seq()[i]) == vals(book.textstyles)[i], xml_out@ == w_textstyles(ss_5(w0, *book, origin, styleuse), vals(book.textstyles), origin, styleuse, it.index@ as nat), xml_out@.stack == w0.stack,
//@at loopstart 5
    proof { assert(**it.seq()[it.index@ as int] == vals(book.textstyles)[it.index@ as int]); }
//@at afterloop 5
    proof { assert(xml_out@ == ss_6(w0, *book, origin, styleuse)); }
//@loop 6 it=it
    invariant it.seq().len() == vals(book.rubystyles).len(), forall|i: int| 0 <= i < it.seq().len() ==> **(#[trigger] it.seq()[i]) == vals(book.rubystyles)[i], xml_out@ == w_rubystyles(ss_6(w0, *book, origin, styleuse), vals(book.rubystyles), origin, styleuse, it.index@ as nat), xml_out@.stack == w0.stack,
//@at loopstart 6
    proof { assert(**it.seq()[it.index@ as int] == vals(book.rubystyles)[it.index@ as int]); }
//@at afterloop 6
    proof { assert(xml_out@ == ss_7(w0, *book, origin, styleuse)); }
//@loop 7 it=it
    invariant it.seq().len() == vals(book.graphicstyles).len(), forall|i: int| 0 <= i < it.seq().len() ==> **(#[trigger] it.seq()[i]) == vals(book.graphicstyles)[i], xml_out@ == w_graphicstyles(ss_7(w0, *book, origin, styleuse), vals(book.graphicstyles), origin, styleuse, it.index@ as nat), xml_out@.stack == w0.stack,
//@at loopstart 7
    proof { assert(**it.seq()[it.index@ as int] == vals(book.graphicstyles)[it.index@ as int]); }
//@at afterloop 7
    proof { assert(xml_out@ == ss_8(w0, *book, origin, styleuse)); }
//@end
spec fn w_valuestyles(w: W, b: WorkBook, o: StyleOrigin, u: StyleUse) -> W { w_valuestyle(w_valuestyle(w_valuestyle(w_valuestyle(w_valuestyle(w_valuestyle(w_valuestyle(w, b.formats_boolean, o, u), b.formats_currency, o, u), b.formats_datetime, o, u), b.formats_number, o, u), b.formats_percentage, o, u), b.formats_text, o, u), b.formats_timeduration, o, u) }
//@fn file=src/io/write.rs path=write_valuestyles
//@params book, origin, style_use, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_valuestyles(old(xml_out)@, *book, origin, style_use) && final(xml_out)@.stack == old(xml_out)@.stack,
//@end
spec fn os_step(w: W, b: WorkBook, o: StyleOrigin) -> W { w_valuestyles(w_valuestyles(w_styles(w_styles(w, b, o, StyleUse::Default), b, o, StyleUse::Named), b, o, StyleUse::Named), b, o, StyleUse::Default) }
/// default and named styles of either origin stand in office:styles
spec fn w_office_styles(w: W, b: WorkBook) -> W { w_end(os_step(os_step(w_open(w, "office:styles"@), b, StyleOrigin::Content), b, StyleOrigin::Styles), "office:styles"@) }
//@fn file=src/io/write.rs path=write_office_styles
//@params book, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_office_styles(old(xml_out)@, *book) && final(xml_out)@.stack == old(xml_out)@.stack,
//@subst for origin in [StyleOrigin::Content, StyleOrigin::Styles] { $body } ==> let vp_os = vec_origins(); for vp_o in vp_os.iter() { let origin = *vp_o; $body }
//@at start
    let ghost w0 = xml_out@;
//@loop 0 it=it
    invariant it.seq().len() == 2, *it.seq()[0] == StyleOrigin::Content, *it.seq()[1] == StyleOrigin::Styles,
        xml_out@ == (if it.index@ == 0 { w_open(w0, "office:styles"@) } else if it.index@ == 1 { os_step(w_open(w0, "office:styles"@), *book, StyleOrigin::Content) } else { os_step(os_step(w_open(w0, "office:styles"@), *book, StyleOrigin::Content), *book, StyleOrigin::Styles) }),
        xml_out@.stack == w0.stack.push("office:styles"@),
//@end
#[verifier::external_body] fn vec_origins() -> (r: Vec<StyleOrigin>) ensures r@.len() == 2, r@[0] == StyleOrigin::Content, r@[1] == StyleOrigin::Styles { unimplemented!() }
//@fn file=src/io/write.rs path=write_office_automatic_styles
//@params book, origin, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_end(w_valuestyles(w_styles(w_pages(w_open(old(xml_out)@, "office:automatic-styles"@), vals(book.pagestyles), vals(book.pagestyles).len()), *book, origin, StyleUse::Automatic), *book, origin, StyleUse::Automatic), "office:automatic-styles"@) && final(xml_out)@.stack == old(xml_out)@.stack,
//@end
//@fn file=src/io/write.rs path=write_office_master_styles
//@params book, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_end(w_mps(w_open(old(xml_out)@, "office:master-styles"@), vals(book.masterpages), vals(book.masterpages).len()), "office:master-styles"@) && final(xml_out)@.stack == old(xml_out)@.stack,
//@end
} // verus!
fn main() {}
