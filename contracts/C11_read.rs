//@include pre.rs
// C11: what the reader makes of the elements of a style, a value format, a page or a master page.
verus! {
#[verifier::external_body] struct OdsError {}
//@include attrread.inc.rs
//@struct file=src/io/read.rs name=OdsContext
//@keep book
//@end
impl OdsContext {
    // buffers are only reused
    #[verifier::external_body] fn pop_buf(&mut self) -> (r: Vec<u8>) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] fn push_buf(&mut self, buf: Vec<u8>) ensures *final(self) == *old(self) { unimplemented!() }
}
//@fn file=src/io/read.rs path=copy_style_attr
//@params ctx attrmap super_tag
//@ret r
//@spec
    ensures *final(ctx) == *old(ctx), r is Ok && wfm(*old(attrmap)) ==> wfm(*final(attrmap)) && kv(*final(attrmap)) =~= kv(*old(attrmap)) + style_at(super_tag.at()) && r->Ok_0@ =~= style_name(super_tag.tag(), super_tag.at()),
//@at start
    let ghost m0 = kv(*attrmap); let ghost wf = wfm(*attrmap);
//@loop 0 it=it
    invariant it.seq().len() == vp_at@.len(), forall|i: int| 0 <= i < vp_at@.len() ==> *(#[trigger] it.seq()[i]) == vp_at@[i], ats(vp_at@) == super_tag.at(), *ctx == *old(ctx),
        wf ==> wfm(*attrmap) && kv(*attrmap) =~= m0 + stkv(super_tag.at(), it.index@ as int), osv(name) == mapu(av(super_tag.at(), it.index@ as int, "style:name"@)),
//@at loopstart 0
    proof { assert(super_tag.at()[it.index@ as int] == attr.v()); }
//@end
// ------------------------------------------------------------------ conditions of a style
struct AnyStyleRef { id: String }
struct PageStyleRef { id: String }
struct MasterPageRef { id: String }
// proved in unit C12_book; the texts of conditions and cell references are C16 and C01
impl AnyStyleRef { #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } }
impl PageStyleRef { #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl MasterPageRef { #[verifier::external_body] fn from(s: String) -> (r: Self) ensures r.id@ == s@ { unimplemented!() } #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VpFrom for PageStyleRef { spec fn ftext(&self) -> Seq<char> { self.id@ } fn vp_from(s: &str) -> (r: Self) { PageStyleRef::from(s) } }
#[verifier::external_body] struct Condition {}
#[verifier::external_body] struct ValueCondition {}
#[verifier::external_body] struct CellRef {}
uninterp spec fn cond_of(s: Seq<char>) -> Condition;
uninterp spec fn vcond_of(s: Seq<char>) -> ValueCondition;
uninterp spec fn cell_of(s: Seq<char>) -> CellRef;
impl Condition { #[verifier::external_body] fn new<S: VpInto>(s: S) -> (r: Self) ensures r == cond_of(s.itext()) { unimplemented!() } }
impl VpDefault for Condition { spec fn is_default(&self) -> bool { *self == cond_of(Seq::empty()) } #[verifier::external_body] fn vp_default() -> (r: Self) { unimplemented!() } }
impl ValueCondition { #[verifier::external_body] fn new<S: VpInto>(s: S) -> (r: Self) ensures r == vcond_of(s.itext()) { unimplemented!() } #[verifier::external_body] fn vp_default() -> (r: Self) ensures r == vcond_of(Seq::empty()) { unimplemented!() } }
#[verifier::external_body] fn parse_cellref(s: &str) -> (r: Result<CellRef, OdsError>) ensures r is Ok ==> r->Ok_0 == cell_of(s@) { unimplemented!() }
//@struct file=src/style/stylemap.rs name=StyleMap
//@end
//@struct file=src/style/tabstop.rs name=TabStop
//@end
//@struct file=src/format/stylemap.rs name=ValueStyleMap
//@end
ghost struct Sm { cond: Condition, style: Seq<char>, base: Option<CellRef> }
spec fn smv(m: StyleMap) -> Sm { Sm { cond: m.condition, style: m.applied_style.id@, base: m.base_cell } }
spec fn umap<T>(o: Option<Seq<char>>, f: spec_fn(Seq<char>) -> T) -> Option<T> { match o { Some(x) => Some(f(unesc(x))), None => None } }
spec fn utext(o: Option<Seq<char>>) -> Seq<char> { match o { Some(x) => unesc(x), None => Seq::empty() } }
spec fn sm_of(a: Seq<At>, n: int) -> Sm { Sm { cond: cond_of(utext(av(a, n, "style:condition"@))), style: utext(av(a, n, "style:apply-style-name"@)), base: match av(a, n, "style:base-cell-address"@) { Some(x) => Some(cell_of(unesc(x))), None => None } } }
ghost struct Vm { cond: ValueCondition, style: Seq<char> }
spec fn vmv(m: ValueStyleMap) -> Vm { Vm { cond: m.condition, style: m.applied_style@ } }
spec fn vm_of(a: Seq<At>, n: int) -> Vm { Vm { cond: vcond_of(utext(av(a, n, "style:condition"@))), style: utext(av(a, n, "style:apply-style-name"@)) } }
//@names mk map_names "style:condition" "style:apply-style-name" "style:base-cell-address"
impl StyleMap {
//@fn file=src/style/stylemap.rs path=StyleMap::new_empty
//@ret r
//@spec
    ensures smv(r) == sm_of(Seq::empty(), 0),
//@at start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
//@fn file=src/style/stylemap.rs path=StyleMap::set_condition
//@params cond
//@spec
    ensures *final(self) == (StyleMap { condition: cond, ..*old(self) }),
//@end
//@fn file=src/style/stylemap.rs path=StyleMap::set_applied_style
//@params style
//@spec
    ensures *final(self) == (StyleMap { applied_style: style, ..*old(self) }),
//@end
//@fn file=src/style/stylemap.rs path=StyleMap::set_base_cell
//@params cellref
//@spec
    ensures *final(self) == (StyleMap { base_cell: cellref, ..*old(self) }),
//@end
}
impl ValueStyleMap {
    fn vp_default() -> (r: Self) ensures vmv(r) == vm_of(Seq::empty(), 0) { let r = ValueStyleMap { condition: ValueCondition::vp_default(), applied_style: String::new() }; proof { assert(r.applied_style@ =~= Seq::<char>::empty()); } r }
//@fn file=src/format/stylemap.rs path=ValueStyleMap::set_condition
//@params cond
//@spec
    ensures *final(self) == (ValueStyleMap { condition: cond, ..*old(self) }),
//@end
//@fn file=src/format/stylemap.rs path=ValueStyleMap::set_applied_style
//@params style
//@spec
    ensures final(self).applied_style@ == style.text(), final(self).condition == old(self).condition,
//@end
}
impl TabStop {
//@fn file=src/style/tabstop.rs path=TabStop::new
//@ret r
//@spec
    ensures none(r.attr),
//@end
//@fn file=src/style/tabstop.rs path=TabStop::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, final(self).attr == *final(r),
//@end
}
//@fn file=src/io/read.rs path=read_stylemap
//@params ctx super_tag
//@ret r
//@spec
    ensures *final(ctx) == *old(ctx), r is Ok ==> smv(r->Ok_0) == sm_of(super_tag.at(), super_tag.at().len() as int),
//@loop 0 it=it
    invariant it.seq().len() == vp_at@.len(), forall|i: int| 0 <= i < vp_at@.len() ==> *(#[trigger] it.seq()[i]) == vp_at@[i], ats(vp_at@) == super_tag.at(), *ctx == *old(ctx), smv(sm) == sm_of(super_tag.at(), it.index@ as int),
//@at loopstart 0
    proof { map_names(); assert(super_tag.at()[it.index@ as int] == attr.v()); }
//@end
//@fn file=src/io/read.rs path=read_value_stylemap
//@params ctx super_tag
//@ret r
//@subst ValueStyleMap::default() ==> ValueStyleMap::vp_default()
//@spec
    ensures *final(ctx) == *old(ctx), r is Ok ==> vmv(r->Ok_0) == vm_of(super_tag.at(), super_tag.at().len() as int),
//@loop 0 it=it
    invariant it.seq().len() == vp_at@.len(), forall|i: int| 0 <= i < vp_at@.len() ==> *(#[trigger] it.seq()[i]) == vp_at@[i], ats(vp_at@) == super_tag.at(), *ctx == *old(ctx), vmv(sm) == vm_of(super_tag.at(), it.index@ as int),
//@at loopstart 0
    proof { map_names(); assert(super_tag.at()[it.index@ as int] == attr.v()); }
//@end
// ------------------------------------------------------------------ styles
/// what the elements within a style say: the attributes of its property elements, its conditions and tab stops
ghost struct Sg { own: Kv, para: Kv, text: Kv, maps: Seq<Sm>, tabs: Seq<Kv> }
spec fn sg0() -> Sg { Sg { own: Kv::empty(), para: Kv::empty(), text: Kv::empty(), maps: Seq::empty(), tabs: Seq::empty() } }
spec fn smaps(o: Option<Vec<StyleMap>>) -> Seq<Sm> { match o { Some(v) => Seq::new(v@.len(), |i: int| smv(v@[i])), None => Seq::empty() } }
spec fn stabs(o: Option<Vec<TabStop>>) -> Seq<Kv> { match o { Some(v) => Seq::new(v@.len(), |i: int| kv(v@[i].attr)), None => Seq::empty() } }
ghost struct Style { family: Seq<char>, name: Seq<char>, origin: StyleOrigin, styleuse: StyleUse, attr: Kv, body: Sg }
//@names sk style_names "style:style" "style:default-style" "style:map" "style:tab-stop" "style:tab-stops" "style:table-properties" "style:table-row-properties" "style:table-column-properties" "style:table-cell-properties" "style:paragraph-properties" "style:text-properties" "style:ruby-properties" "style:graphic-properties"
//@names fk family_names "table" "table-row" "table-column" "table-cell" "paragraph" "text" "ruby" "graphic"
spec fn is_style(t: Seq<char>) -> bool { t == "style:style"@ || t == "style:default-style"@ }
#[verifier::external_body] struct WorkBook {}
/// what was added to the workbook, in this order; what adding does to the maps of the workbook is proved in unit C12_book
ghost enum Added { Style(Style), Format(Seq<char>, Fmt), Font(Font), Page(Page), Master(Mp) }
spec fn opt(o: Option<Style>) -> Seq<Added> { match o { Some(s) => seq![Added::Style(s)], None => Seq::empty() } }
impl WorkBook {
    uninterp spec fn added(&self) -> Seq<Added>;
    #[verifier::external_body] fn add_tablestyle(&mut self, style: TableStyle) -> (r: TableStyleRef) ensures final(self).added() == old(self).added().push(Added::Style(st_tablestyle(style))) { unimplemented!() }
    #[verifier::external_body] fn add_rowstyle(&mut self, style: RowStyle) -> (r: RowStyleRef) ensures final(self).added() == old(self).added().push(Added::Style(st_rowstyle(style))) { unimplemented!() }
    #[verifier::external_body] fn add_colstyle(&mut self, style: ColStyle) -> (r: ColStyleRef) ensures final(self).added() == old(self).added().push(Added::Style(st_colstyle(style))) { unimplemented!() }
    #[verifier::external_body] fn add_cellstyle(&mut self, style: CellStyle) -> (r: CellStyleRef) ensures final(self).added() == old(self).added().push(Added::Style(st_cellstyle(style))) { unimplemented!() }
    #[verifier::external_body] fn add_paragraphstyle(&mut self, style: ParagraphStyle) -> (r: ParagraphStyleRef) ensures final(self).added() == old(self).added().push(Added::Style(st_paragraphstyle(style))) { unimplemented!() }
    #[verifier::external_body] fn add_textstyle(&mut self, style: TextStyle) -> (r: TextStyleRef) ensures final(self).added() == old(self).added().push(Added::Style(st_textstyle(style))) { unimplemented!() }
    #[verifier::external_body] fn add_rubystyle(&mut self, style: RubyStyle) -> (r: RubyStyleRef) ensures final(self).added() == old(self).added().push(Added::Style(st_rubystyle(style))) { unimplemented!() }
    #[verifier::external_body] fn add_graphicstyle(&mut self, style: GraphicStyle) -> (r: GraphicStyleRef) ensures final(self).added() == old(self).added().push(Added::Style(st_graphicstyle(style))) { unimplemented!() }
    #[verifier::external_body] fn add_boolean_format(&mut self, vstyle: ValueFormatBoolean) -> (r: ValueFormatRef) ensures final(self).added() == old(self).added().push(Added::Format("number:boolean-style"@, fmt_of(vstyle.raw()))) { unimplemented!() }
    #[verifier::external_body] fn add_datetime_format(&mut self, vstyle: ValueFormatDateTime) -> (r: ValueFormatRef) ensures final(self).added() == old(self).added().push(Added::Format("number:date-style"@, fmt_of(vstyle.raw()))) { unimplemented!() }
    #[verifier::external_body] fn add_timeduration_format(&mut self, vstyle: ValueFormatTimeDuration) -> (r: ValueFormatRef) ensures final(self).added() == old(self).added().push(Added::Format("number:time-style"@, fmt_of(vstyle.raw()))) { unimplemented!() }
    #[verifier::external_body] fn add_number_format(&mut self, vstyle: ValueFormatNumber) -> (r: ValueFormatRef) ensures final(self).added() == old(self).added().push(Added::Format("number:number-style"@, fmt_of(vstyle.raw()))) { unimplemented!() }
    #[verifier::external_body] fn add_currency_format(&mut self, vstyle: ValueFormatCurrency) -> (r: ValueFormatRef) ensures final(self).added() == old(self).added().push(Added::Format("number:currency-style"@, fmt_of(vstyle.raw()))) { unimplemented!() }
    #[verifier::external_body] fn add_percentage_format(&mut self, vstyle: ValueFormatPercentage) -> (r: ValueFormatRef) ensures final(self).added() == old(self).added().push(Added::Format("number:percentage-style"@, fmt_of(vstyle.raw()))) { unimplemented!() }
    #[verifier::external_body] fn add_text_format(&mut self, vstyle: ValueFormatText) -> (r: ValueFormatRef) ensures final(self).added() == old(self).added().push(Added::Format("number:text-style"@, fmt_of(vstyle.raw()))) { unimplemented!() }
    #[verifier::external_body] fn add_font(&mut self, font: FontFaceDecl) ensures final(self).added() == old(self).added().push(Added::Font(font_v(font))) { unimplemented!() }
    #[verifier::external_body] fn add_pagestyle(&mut self, pstyle: PageStyle) -> (r: PageStyleRef) ensures final(self).added() == old(self).added().push(Added::Page(page_v(pstyle))) { unimplemented!() }
    #[verifier::external_body] fn add_masterpage(&mut self, mpage: MasterPage) -> (r: MasterPageRef) ensures final(self).added() == old(self).added().push(Added::Master(master_v(mpage))) { unimplemented!() }
}
struct TableStyleRef { id: String }
//@struct file=src/style/tablestyle.rs name=TableStyle
//@end
impl TableStyle {
//@fn file=src/macro_style.rs path=TableStyle::set_origin macro=styles_styles2(TableStyle,TableStyleRef) macro_in=src/style/tablestyle.rs
//@params origin
//@spec
    ensures *final(self) == (TableStyle { origin, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=TableStyle::set_styleuse macro=styles_styles2(TableStyle,TableStyleRef) macro_in=src/style/tablestyle.rs
//@params styleuse
//@spec
    ensures *final(self) == (TableStyle { styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=TableStyle::set_name macro=styles_styles2(TableStyle,TableStyleRef) macro_in=src/style/tablestyle.rs
//@params name
//@spec
    ensures final(self).name@ == name.text(), *final(self) == (TableStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/style/tablestyle.rs path=TableStyle::new_empty
//@ret r
//@spec
    ensures none(r.attr), none(r.tablestyle),
//@end
//@fn file=src/style/tablestyle.rs path=TableStyle::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (TableStyle { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/tablestyle.rs path=TableStyle::tablestyle_mut
//@ret r
//@spec
    ensures *r == old(self).tablestyle, *final(self) == (TableStyle { tablestyle: *final(r), ..*old(self) }),
//@end
}
spec fn sg_tablestyle(s: TableStyle) -> Sg { Sg { own: kv(s.tablestyle), para: Kv::empty(), text: Kv::empty(), maps: Seq::empty(), tabs: Seq::empty() } }
spec fn st_tablestyle(s: TableStyle) -> Style { Style { family: "table"@, name: s.name@, origin: s.origin, styleuse: s.styleuse, attr: kv(s.attr), body: sg_tablestyle(s) } }
spec fn wf_tablestyle(s: TableStyle) -> bool { wfm(s.attr) && wfm(s.tablestyle) }
spec fn el_tablestyle(g: Sg, n: Seq<char>, a: Seq<At>) -> Sg { if n == "style:table-properties"@ { Sg { own: g.own + all_at(a), ..g } } else { g } }
/// the elements up to the end of the style (is there an end?), and the events that follow
spec fn rd_tablestyle(g: Sg, r: Seq<Ev>, tag: Seq<char>) -> (bool, Sg, Seq<Ev>) decreases r.len() {
    if r.len() == 0 { (false, g, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => rd_tablestyle(el_tablestyle(g, n, a), s, tag),
            Ev::Empty(n, a) => rd_tablestyle(el_tablestyle(g, n, a), s, tag),
            Ev::End(n) => if n == tag { (true, g, s) } else { rd_tablestyle(g, s, tag) },
            Ev::Eof => (false, g, s),
            _ => rd_tablestyle(g, s, tag),
        }
    }
}
proof fn len_tablestyle(g: Sg, r: Seq<Ev>, tag: Seq<char>) ensures rd_tablestyle(g, r, tag).2.len() <= r.len() decreases r.len() { if r.len() > 0 { match r[0] { Ev::Start(n, a) => len_tablestyle(el_tablestyle(g, n, a), r.drop_first(), tag), Ev::Empty(n, a) => len_tablestyle(el_tablestyle(g, n, a), r.drop_first(), tag), _ => len_tablestyle(g, r.drop_first(), tag) } } }
/// the style that the element describes, if it is complete, and the events that follow
spec fn style_tablestyle(tag: Seq<char>, a: Seq<At>, empty: bool, o: StyleOrigin, u: StyleUse, r: Seq<Ev>) -> (Option<Style>, Seq<Ev>) {
    let (end, g, rest) = if empty { (true, sg0(), r) } else { rd_tablestyle(sg0(), r, tag) };
    (if end { Some(Style { family: "table"@, name: style_name(tag, a), origin: o, styleuse: u, attr: style_at(a), body: g }) } else { None }, rest)
}
//@fn file=src/io/read.rs path=read_tablestyle attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml origin style_use super_tag empty_tag
//@ret r
//@spec
    requires is_style(super_tag.tag()),
    ensures r is Ok ==> ({ let (st, rest) = style_tablestyle(super_tag.tag(), super_tag.at(), empty_tag, origin, style_use, old(xml)@); final(xml)@ == rest && final(ctx).book.added() =~= old(ctx).book.added() + opt(st) }),
//@at start
    let ghost log = ctx.book.added(); let ghost tag = super_tag.tag(); let ghost at = super_tag.at(); let ghost xs = xml@;
    proof { style_names(); }
//@at before 0 if empty_tag
    let ghost s0 = style;
    proof {  assert(kv(style.attr) =~= style_at(at)); assert(sg_tablestyle(style) == sg0()) by { lemma_none(style.tablestyle); assert(sg_tablestyle(style).maps =~= Seq::empty()); assert(sg_tablestyle(style).tabs =~= Seq::empty()); } assert(wf_tablestyle(style)); assert(style.name@ =~= style_name(tag, at)); }
//@loop 0
    invariant_except_break ctx.book.added() == log, wf_tablestyle(style), kv(style.attr) == style_at(at), style.name@ == style_name(tag, at), style.origin == origin, style.styleuse == style_use,
        rd_tablestyle(sg0(), xs, tag) == rd_tablestyle(sg_tablestyle(style), xml@, tag),
    invariant tag == super_tag.tag(), at == super_tag.at(), is_style(tag),
    ensures ({ let (st, rest) = style_tablestyle(tag, at, false, origin, style_use, xs); xml@ == rest && ctx.book.added() =~= log + opt(st) }),
//@at loopstart 0
    let ghost sl = style; let ghost xl = xml@;
    proof { style_names(); }
//@end
struct RowStyleRef { id: String }
//@struct file=src/style/rowstyle.rs name=RowStyle
//@end
impl RowStyle {
//@fn file=src/macro_style.rs path=RowStyle::set_origin macro=styles_styles2(RowStyle,RowStyleRef) macro_in=src/style/rowstyle.rs
//@params origin
//@spec
    ensures *final(self) == (RowStyle { origin, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=RowStyle::set_styleuse macro=styles_styles2(RowStyle,RowStyleRef) macro_in=src/style/rowstyle.rs
//@params styleuse
//@spec
    ensures *final(self) == (RowStyle { styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=RowStyle::set_name macro=styles_styles2(RowStyle,RowStyleRef) macro_in=src/style/rowstyle.rs
//@params name
//@spec
    ensures final(self).name@ == name.text(), *final(self) == (RowStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/style/rowstyle.rs path=RowStyle::new_empty
//@ret r
//@spec
    ensures none(r.attr), none(r.rowstyle),
//@end
//@fn file=src/style/rowstyle.rs path=RowStyle::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (RowStyle { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/rowstyle.rs path=RowStyle::rowstyle_mut
//@ret r
//@spec
    ensures *r == old(self).rowstyle, *final(self) == (RowStyle { rowstyle: *final(r), ..*old(self) }),
//@end
}
spec fn sg_rowstyle(s: RowStyle) -> Sg { Sg { own: kv(s.rowstyle), para: Kv::empty(), text: Kv::empty(), maps: Seq::empty(), tabs: Seq::empty() } }
spec fn st_rowstyle(s: RowStyle) -> Style { Style { family: "table-row"@, name: s.name@, origin: s.origin, styleuse: s.styleuse, attr: kv(s.attr), body: sg_rowstyle(s) } }
spec fn wf_rowstyle(s: RowStyle) -> bool { wfm(s.attr) && wfm(s.rowstyle) }
spec fn el_rowstyle(g: Sg, n: Seq<char>, a: Seq<At>) -> Sg { if n == "style:table-row-properties"@ { Sg { own: g.own + all_at(a), ..g } } else { g } }
/// the elements up to the end of the style (is there an end?), and the events that follow
spec fn rd_rowstyle(g: Sg, r: Seq<Ev>, tag: Seq<char>) -> (bool, Sg, Seq<Ev>) decreases r.len() {
    if r.len() == 0 { (false, g, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => rd_rowstyle(el_rowstyle(g, n, a), s, tag),
            Ev::Empty(n, a) => rd_rowstyle(el_rowstyle(g, n, a), s, tag),
            Ev::End(n) => if n == tag { (true, g, s) } else { rd_rowstyle(g, s, tag) },
            Ev::Eof => (false, g, s),
            _ => rd_rowstyle(g, s, tag),
        }
    }
}
proof fn len_rowstyle(g: Sg, r: Seq<Ev>, tag: Seq<char>) ensures rd_rowstyle(g, r, tag).2.len() <= r.len() decreases r.len() { if r.len() > 0 { match r[0] { Ev::Start(n, a) => len_rowstyle(el_rowstyle(g, n, a), r.drop_first(), tag), Ev::Empty(n, a) => len_rowstyle(el_rowstyle(g, n, a), r.drop_first(), tag), _ => len_rowstyle(g, r.drop_first(), tag) } } }
/// the style that the element describes, if it is complete, and the events that follow
spec fn style_rowstyle(tag: Seq<char>, a: Seq<At>, empty: bool, o: StyleOrigin, u: StyleUse, r: Seq<Ev>) -> (Option<Style>, Seq<Ev>) {
    let (end, g, rest) = if empty { (true, sg0(), r) } else { rd_rowstyle(sg0(), r, tag) };
    (if end { Some(Style { family: "table-row"@, name: style_name(tag, a), origin: o, styleuse: u, attr: style_at(a), body: g }) } else { None }, rest)
}
//@fn file=src/io/read.rs path=read_rowstyle attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml origin style_use super_tag empty_tag
//@ret r
//@spec
    requires is_style(super_tag.tag()),
    ensures r is Ok ==> ({ let (st, rest) = style_rowstyle(super_tag.tag(), super_tag.at(), empty_tag, origin, style_use, old(xml)@); final(xml)@ == rest && final(ctx).book.added() =~= old(ctx).book.added() + opt(st) }),
//@at start
    let ghost log = ctx.book.added(); let ghost tag = super_tag.tag(); let ghost at = super_tag.at(); let ghost xs = xml@;
    proof { style_names(); }
//@at before 0 if empty_tag
    let ghost s0 = style;
    proof {  assert(kv(style.attr) =~= style_at(at)); assert(sg_rowstyle(style) == sg0()) by { lemma_none(style.rowstyle); assert(sg_rowstyle(style).maps =~= Seq::empty()); assert(sg_rowstyle(style).tabs =~= Seq::empty()); } assert(wf_rowstyle(style)); assert(style.name@ =~= style_name(tag, at)); }
//@loop 0
    invariant_except_break ctx.book.added() == log, wf_rowstyle(style), kv(style.attr) == style_at(at), style.name@ == style_name(tag, at), style.origin == origin, style.styleuse == style_use,
        rd_rowstyle(sg0(), xs, tag) == rd_rowstyle(sg_rowstyle(style), xml@, tag),
    invariant tag == super_tag.tag(), at == super_tag.at(), is_style(tag),
    ensures ({ let (st, rest) = style_rowstyle(tag, at, false, origin, style_use, xs); xml@ == rest && ctx.book.added() =~= log + opt(st) }),
//@at loopstart 0
    let ghost sl = style; let ghost xl = xml@;
    proof { style_names(); }
//@end
struct ColStyleRef { id: String }
//@struct file=src/style/colstyle.rs name=ColStyle
//@end
impl ColStyle {
//@fn file=src/macro_style.rs path=ColStyle::set_origin macro=styles_styles2(ColStyle,ColStyleRef) macro_in=src/style/colstyle.rs
//@params origin
//@spec
    ensures *final(self) == (ColStyle { origin, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=ColStyle::set_styleuse macro=styles_styles2(ColStyle,ColStyleRef) macro_in=src/style/colstyle.rs
//@params styleuse
//@spec
    ensures *final(self) == (ColStyle { styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=ColStyle::set_name macro=styles_styles2(ColStyle,ColStyleRef) macro_in=src/style/colstyle.rs
//@params name
//@spec
    ensures final(self).name@ == name.text(), *final(self) == (ColStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/style/colstyle.rs path=ColStyle::new_empty
//@ret r
//@spec
    ensures none(r.attr), none(r.colstyle),
//@end
//@fn file=src/style/colstyle.rs path=ColStyle::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (ColStyle { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/colstyle.rs path=ColStyle::colstyle_mut
//@ret r
//@spec
    ensures *r == old(self).colstyle, *final(self) == (ColStyle { colstyle: *final(r), ..*old(self) }),
//@end
}
spec fn sg_colstyle(s: ColStyle) -> Sg { Sg { own: kv(s.colstyle), para: Kv::empty(), text: Kv::empty(), maps: Seq::empty(), tabs: Seq::empty() } }
spec fn st_colstyle(s: ColStyle) -> Style { Style { family: "table-column"@, name: s.name@, origin: s.origin, styleuse: s.styleuse, attr: kv(s.attr), body: sg_colstyle(s) } }
spec fn wf_colstyle(s: ColStyle) -> bool { wfm(s.attr) && wfm(s.colstyle) }
spec fn el_colstyle(g: Sg, n: Seq<char>, a: Seq<At>) -> Sg { if n == "style:table-column-properties"@ { Sg { own: g.own + all_at(a), ..g } } else { g } }
/// the elements up to the end of the style (is there an end?), and the events that follow
spec fn rd_colstyle(g: Sg, r: Seq<Ev>, tag: Seq<char>) -> (bool, Sg, Seq<Ev>) decreases r.len() {
    if r.len() == 0 { (false, g, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => rd_colstyle(el_colstyle(g, n, a), s, tag),
            Ev::Empty(n, a) => rd_colstyle(el_colstyle(g, n, a), s, tag),
            Ev::End(n) => if n == tag { (true, g, s) } else { rd_colstyle(g, s, tag) },
            Ev::Eof => (false, g, s),
            _ => rd_colstyle(g, s, tag),
        }
    }
}
proof fn len_colstyle(g: Sg, r: Seq<Ev>, tag: Seq<char>) ensures rd_colstyle(g, r, tag).2.len() <= r.len() decreases r.len() { if r.len() > 0 { match r[0] { Ev::Start(n, a) => len_colstyle(el_colstyle(g, n, a), r.drop_first(), tag), Ev::Empty(n, a) => len_colstyle(el_colstyle(g, n, a), r.drop_first(), tag), _ => len_colstyle(g, r.drop_first(), tag) } } }
/// the style that the element describes, if it is complete, and the events that follow
spec fn style_colstyle(tag: Seq<char>, a: Seq<At>, empty: bool, o: StyleOrigin, u: StyleUse, r: Seq<Ev>) -> (Option<Style>, Seq<Ev>) {
    let (end, g, rest) = if empty { (true, sg0(), r) } else { rd_colstyle(sg0(), r, tag) };
    (if end { Some(Style { family: "table-column"@, name: style_name(tag, a), origin: o, styleuse: u, attr: style_at(a), body: g }) } else { None }, rest)
}
//@fn file=src/io/read.rs path=read_colstyle attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml origin style_use super_tag empty_tag
//@ret r
//@spec
    requires is_style(super_tag.tag()),
    ensures r is Ok ==> ({ let (st, rest) = style_colstyle(super_tag.tag(), super_tag.at(), empty_tag, origin, style_use, old(xml)@); final(xml)@ == rest && final(ctx).book.added() =~= old(ctx).book.added() + opt(st) }),
//@at start
    let ghost log = ctx.book.added(); let ghost tag = super_tag.tag(); let ghost at = super_tag.at(); let ghost xs = xml@;
    proof { style_names(); }
//@at before 0 if empty_tag
    let ghost s0 = style;
    proof {  assert(kv(style.attr) =~= style_at(at)); assert(sg_colstyle(style) == sg0()) by { lemma_none(style.colstyle); assert(sg_colstyle(style).maps =~= Seq::empty()); assert(sg_colstyle(style).tabs =~= Seq::empty()); } assert(wf_colstyle(style)); assert(style.name@ =~= style_name(tag, at)); }
//@loop 0
    invariant_except_break ctx.book.added() == log, wf_colstyle(style), kv(style.attr) == style_at(at), style.name@ == style_name(tag, at), style.origin == origin, style.styleuse == style_use,
        rd_colstyle(sg0(), xs, tag) == rd_colstyle(sg_colstyle(style), xml@, tag),
    invariant tag == super_tag.tag(), at == super_tag.at(), is_style(tag),
    ensures ({ let (st, rest) = style_colstyle(tag, at, false, origin, style_use, xs); xml@ == rest && ctx.book.added() =~= log + opt(st) }),
//@at loopstart 0
    let ghost sl = style; let ghost xl = xml@;
    proof { style_names(); }
//@end
struct CellStyleRef { id: String }
//@struct file=src/style/cellstyle.rs name=CellStyle
//@end
impl CellStyle {
//@fn file=src/macro_style.rs path=CellStyle::set_origin macro=styles_styles2(CellStyle,CellStyleRef) macro_in=src/style/cellstyle.rs
//@params origin
//@spec
    ensures *final(self) == (CellStyle { origin, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=CellStyle::set_styleuse macro=styles_styles2(CellStyle,CellStyleRef) macro_in=src/style/cellstyle.rs
//@params styleuse
//@spec
    ensures *final(self) == (CellStyle { styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=CellStyle::set_name macro=styles_styles2(CellStyle,CellStyleRef) macro_in=src/style/cellstyle.rs
//@params name
//@spec
    ensures final(self).name@ == name.text(), *final(self) == (CellStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::new_empty
//@ret r
//@spec
    ensures none(r.attr), none(r.cellstyle), none(r.paragraphstyle), none(r.textstyle), r.stylemaps is None,
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (CellStyle { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::cellstyle_mut
//@ret r
//@spec
    ensures *r == old(self).cellstyle, *final(self) == (CellStyle { cellstyle: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::paragraphstyle_mut
//@ret r
//@spec
    ensures *r == old(self).paragraphstyle, *final(self) == (CellStyle { paragraphstyle: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::textstyle_mut
//@ret r
//@spec
    ensures *r == old(self).textstyle, *final(self) == (CellStyle { textstyle: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/cellstyle.rs path=CellStyle::push_stylemap
//@params stylemap
//@spec
    ensures smaps(final(self).stylemaps) =~= smaps(old(self).stylemaps).push(smv(stylemap)), *final(self) == (CellStyle { stylemaps: final(self).stylemaps, ..*old(self) }),
//@end
}
spec fn sg_cellstyle(s: CellStyle) -> Sg { Sg { own: kv(s.cellstyle), para: kv(s.paragraphstyle), text: kv(s.textstyle), maps: smaps(s.stylemaps), tabs: Seq::empty() } }
spec fn st_cellstyle(s: CellStyle) -> Style { Style { family: "table-cell"@, name: s.name@, origin: s.origin, styleuse: s.styleuse, attr: kv(s.attr), body: sg_cellstyle(s) } }
spec fn wf_cellstyle(s: CellStyle) -> bool { wfm(s.attr) && wfm(s.cellstyle) && wfm(s.paragraphstyle) && wfm(s.textstyle) }
spec fn el_cellstyle(g: Sg, n: Seq<char>, a: Seq<At>) -> Sg { if n == "style:table-cell-properties"@ { Sg { own: g.own + all_at(a), ..g } } else if n == "style:paragraph-properties"@ { Sg { para: g.para + all_at(a), ..g } } else if n == "style:text-properties"@ { Sg { text: g.text + all_at(a), ..g } } else if n == "style:map"@ { Sg { maps: g.maps.push(sm_of(a, a.len() as int)), ..g } } else { g } }
/// the elements up to the end of the style (is there an end?), and the events that follow
spec fn rd_cellstyle(g: Sg, r: Seq<Ev>, tag: Seq<char>) -> (bool, Sg, Seq<Ev>) decreases r.len() {
    if r.len() == 0 { (false, g, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => rd_cellstyle(el_cellstyle(g, n, a), s, tag),
            Ev::Empty(n, a) => rd_cellstyle(el_cellstyle(g, n, a), s, tag),
            Ev::End(n) => if n == tag { (true, g, s) } else { rd_cellstyle(g, s, tag) },
            Ev::Eof => (false, g, s),
            _ => rd_cellstyle(g, s, tag),
        }
    }
}
proof fn len_cellstyle(g: Sg, r: Seq<Ev>, tag: Seq<char>) ensures rd_cellstyle(g, r, tag).2.len() <= r.len() decreases r.len() { if r.len() > 0 { match r[0] { Ev::Start(n, a) => len_cellstyle(el_cellstyle(g, n, a), r.drop_first(), tag), Ev::Empty(n, a) => len_cellstyle(el_cellstyle(g, n, a), r.drop_first(), tag), _ => len_cellstyle(g, r.drop_first(), tag) } } }
/// the style that the element describes, if it is complete, and the events that follow
spec fn style_cellstyle(tag: Seq<char>, a: Seq<At>, empty: bool, o: StyleOrigin, u: StyleUse, r: Seq<Ev>) -> (Option<Style>, Seq<Ev>) {
    let (end, g, rest) = if empty { (true, sg0(), r) } else { rd_cellstyle(sg0(), r, tag) };
    (if end { Some(Style { family: "table-cell"@, name: style_name(tag, a), origin: o, styleuse: u, attr: style_at(a), body: g }) } else { None }, rest)
}
//@fn file=src/io/read.rs path=read_cellstyle attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml origin style_use super_tag empty_tag
//@ret r
//@spec
    requires is_style(super_tag.tag()),
    ensures r is Ok ==> ({ let (st, rest) = style_cellstyle(super_tag.tag(), super_tag.at(), empty_tag, origin, style_use, old(xml)@); final(xml)@ == rest && final(ctx).book.added() =~= old(ctx).book.added() + opt(st) }),
//@at start
    let ghost log = ctx.book.added(); let ghost tag = super_tag.tag(); let ghost at = super_tag.at(); let ghost xs = xml@;
    proof { style_names(); }
//@at before 0 if empty_tag
    let ghost s0 = style;
    proof {  assert(kv(style.attr) =~= style_at(at)); assert(sg_cellstyle(style) == sg0()) by { lemma_none(style.cellstyle); lemma_none(style.paragraphstyle); lemma_none(style.textstyle); assert(sg_cellstyle(style).maps =~= Seq::empty()); assert(sg_cellstyle(style).tabs =~= Seq::empty()); } assert(wf_cellstyle(style)); assert(style.name@ =~= style_name(tag, at)); }
//@loop 0
    invariant_except_break ctx.book.added() == log, wf_cellstyle(style), kv(style.attr) == style_at(at), style.name@ == style_name(tag, at), style.origin == origin, style.styleuse == style_use,
        rd_cellstyle(sg0(), xs, tag) == rd_cellstyle(sg_cellstyle(style), xml@, tag),
    invariant tag == super_tag.tag(), at == super_tag.at(), is_style(tag),
    ensures ({ let (st, rest) = style_cellstyle(tag, at, false, origin, style_use, xs); xml@ == rest && ctx.book.added() =~= log + opt(st) }),
//@at loopstart 0
    let ghost sl = style; let ghost xl = xml@;
    proof { style_names(); }
//@end
struct ParagraphStyleRef { id: String }
//@struct file=src/style/paragraphstyle.rs name=ParagraphStyle
//@end
impl ParagraphStyle {
//@fn file=src/macro_style.rs path=ParagraphStyle::set_origin macro=styles_styles2(ParagraphStyle,ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@params origin
//@spec
    ensures *final(self) == (ParagraphStyle { origin, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=ParagraphStyle::set_styleuse macro=styles_styles2(ParagraphStyle,ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@params styleuse
//@spec
    ensures *final(self) == (ParagraphStyle { styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=ParagraphStyle::set_name macro=styles_styles2(ParagraphStyle,ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@params name
//@spec
    ensures final(self).name@ == name.text(), *final(self) == (ParagraphStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/style/paragraphstyle.rs path=ParagraphStyle::new_empty
//@ret r
//@spec
    ensures none(r.attr), none(r.paragraphstyle), none(r.textstyle), r.tabstops is None,
//@end
//@fn file=src/style/paragraphstyle.rs path=ParagraphStyle::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (ParagraphStyle { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/paragraphstyle.rs path=ParagraphStyle::paragraphstyle_mut
//@ret r
//@spec
    ensures *r == old(self).paragraphstyle, *final(self) == (ParagraphStyle { paragraphstyle: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/paragraphstyle.rs path=ParagraphStyle::textstyle_mut
//@ret r
//@spec
    ensures *r == old(self).textstyle, *final(self) == (ParagraphStyle { textstyle: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/paragraphstyle.rs path=ParagraphStyle::add_tabstop
//@params ts
//@spec
    ensures stabs(final(self).tabstops) =~= stabs(old(self).tabstops).push(kv(ts.attr)), *final(self) == (ParagraphStyle { tabstops: final(self).tabstops, ..*old(self) }),
//@end
}
spec fn sg_paragraphstyle(s: ParagraphStyle) -> Sg { Sg { own: Kv::empty(), para: kv(s.paragraphstyle), text: kv(s.textstyle), maps: Seq::empty(), tabs: stabs(s.tabstops) } }
spec fn st_paragraphstyle(s: ParagraphStyle) -> Style { Style { family: "paragraph"@, name: s.name@, origin: s.origin, styleuse: s.styleuse, attr: kv(s.attr), body: sg_paragraphstyle(s) } }
spec fn wf_paragraphstyle(s: ParagraphStyle) -> bool { wfm(s.attr) && wfm(s.paragraphstyle) && wfm(s.textstyle) }
spec fn el_paragraphstyle(g: Sg, n: Seq<char>, a: Seq<At>) -> Sg { if n == "style:paragraph-properties"@ { Sg { para: g.para + all_at(a), ..g } } else if n == "style:text-properties"@ { Sg { text: g.text + all_at(a), ..g } } else if n == "style:tab-stop"@ { Sg { tabs: g.tabs.push(all_at(a)), ..g } } else { g } }
/// the elements up to the end of the style (is there an end?), and the events that follow
spec fn rd_paragraphstyle(g: Sg, r: Seq<Ev>, tag: Seq<char>) -> (bool, Sg, Seq<Ev>) decreases r.len() {
    if r.len() == 0 { (false, g, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => rd_paragraphstyle(el_paragraphstyle(g, n, a), s, tag),
            Ev::Empty(n, a) => rd_paragraphstyle(el_paragraphstyle(g, n, a), s, tag),
            Ev::End(n) => if n == tag { (true, g, s) } else { rd_paragraphstyle(g, s, tag) },
            Ev::Eof => (false, g, s),
            _ => rd_paragraphstyle(g, s, tag),
        }
    }
}
proof fn len_paragraphstyle(g: Sg, r: Seq<Ev>, tag: Seq<char>) ensures rd_paragraphstyle(g, r, tag).2.len() <= r.len() decreases r.len() { if r.len() > 0 { match r[0] { Ev::Start(n, a) => len_paragraphstyle(el_paragraphstyle(g, n, a), r.drop_first(), tag), Ev::Empty(n, a) => len_paragraphstyle(el_paragraphstyle(g, n, a), r.drop_first(), tag), _ => len_paragraphstyle(g, r.drop_first(), tag) } } }
/// the style that the element describes, if it is complete, and the events that follow
spec fn style_paragraphstyle(tag: Seq<char>, a: Seq<At>, empty: bool, o: StyleOrigin, u: StyleUse, r: Seq<Ev>) -> (Option<Style>, Seq<Ev>) {
    let (end, g, rest) = if empty { (true, sg0(), r) } else { rd_paragraphstyle(sg0(), r, tag) };
    (if end { Some(Style { family: "paragraph"@, name: style_name(tag, a), origin: o, styleuse: u, attr: style_at(a), body: g }) } else { None }, rest)
}
//@fn file=src/io/read.rs path=read_paragraphstyle attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml origin style_use super_tag empty_tag
//@ret r
//@spec
    requires is_style(super_tag.tag()),
    ensures r is Ok ==> ({ let (st, rest) = style_paragraphstyle(super_tag.tag(), super_tag.at(), empty_tag, origin, style_use, old(xml)@); final(xml)@ == rest && final(ctx).book.added() =~= old(ctx).book.added() + opt(st) }),
//@at start
    let ghost log = ctx.book.added(); let ghost tag = super_tag.tag(); let ghost at = super_tag.at(); let ghost xs = xml@;
    proof { style_names(); }
//@at before 0 if empty_tag
    let ghost s0 = style;
    proof {  assert(kv(style.attr) =~= style_at(at)); assert(sg_paragraphstyle(style) == sg0()) by { lemma_none(style.paragraphstyle); lemma_none(style.textstyle); assert(sg_paragraphstyle(style).maps =~= Seq::empty()); assert(sg_paragraphstyle(style).tabs =~= Seq::empty()); } assert(wf_paragraphstyle(style)); assert(style.name@ =~= style_name(tag, at)); }
//@loop 0
    invariant_except_break ctx.book.added() == log, wf_paragraphstyle(style), kv(style.attr) == style_at(at), style.name@ == style_name(tag, at), style.origin == origin, style.styleuse == style_use,
        rd_paragraphstyle(sg0(), xs, tag) == rd_paragraphstyle(sg_paragraphstyle(style), xml@, tag),
    invariant tag == super_tag.tag(), at == super_tag.at(), is_style(tag),
    ensures ({ let (st, rest) = style_paragraphstyle(tag, at, false, origin, style_use, xs); xml@ == rest && ctx.book.added() =~= log + opt(st) }),
//@at loopstart 0
    let ghost sl = style; let ghost xl = xml@;
    proof { style_names(); }
//@end
struct TextStyleRef { id: String }
//@struct file=src/style/textstyle.rs name=TextStyle
//@end
impl TextStyle {
//@fn file=src/macro_style.rs path=TextStyle::set_origin macro=styles_styles2(TextStyle,TextStyleRef) macro_in=src/style/textstyle.rs
//@params origin
//@spec
    ensures *final(self) == (TextStyle { origin, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=TextStyle::set_styleuse macro=styles_styles2(TextStyle,TextStyleRef) macro_in=src/style/textstyle.rs
//@params styleuse
//@spec
    ensures *final(self) == (TextStyle { styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=TextStyle::set_name macro=styles_styles2(TextStyle,TextStyleRef) macro_in=src/style/textstyle.rs
//@params name
//@spec
    ensures final(self).name@ == name.text(), *final(self) == (TextStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/style/textstyle.rs path=TextStyle::new_empty
//@ret r
//@spec
    ensures none(r.attr), none(r.textstyle),
//@end
//@fn file=src/style/textstyle.rs path=TextStyle::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (TextStyle { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/textstyle.rs path=TextStyle::textstyle_mut
//@ret r
//@spec
    ensures *r == old(self).textstyle, *final(self) == (TextStyle { textstyle: *final(r), ..*old(self) }),
//@end
}
spec fn sg_textstyle(s: TextStyle) -> Sg { Sg { own: Kv::empty(), para: Kv::empty(), text: kv(s.textstyle), maps: Seq::empty(), tabs: Seq::empty() } }
spec fn st_textstyle(s: TextStyle) -> Style { Style { family: "text"@, name: s.name@, origin: s.origin, styleuse: s.styleuse, attr: kv(s.attr), body: sg_textstyle(s) } }
spec fn wf_textstyle(s: TextStyle) -> bool { wfm(s.attr) && wfm(s.textstyle) }
spec fn el_textstyle(g: Sg, n: Seq<char>, a: Seq<At>) -> Sg { if n == "style:text-properties"@ { Sg { text: g.text + all_at(a), ..g } } else { g } }
/// the elements up to the end of the style (is there an end?), and the events that follow
spec fn rd_textstyle(g: Sg, r: Seq<Ev>, tag: Seq<char>) -> (bool, Sg, Seq<Ev>) decreases r.len() {
    if r.len() == 0 { (false, g, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => rd_textstyle(el_textstyle(g, n, a), s, tag),
            Ev::Empty(n, a) => rd_textstyle(el_textstyle(g, n, a), s, tag),
            Ev::End(n) => if n == tag { (true, g, s) } else { rd_textstyle(g, s, tag) },
            Ev::Eof => (false, g, s),
            _ => rd_textstyle(g, s, tag),
        }
    }
}
proof fn len_textstyle(g: Sg, r: Seq<Ev>, tag: Seq<char>) ensures rd_textstyle(g, r, tag).2.len() <= r.len() decreases r.len() { if r.len() > 0 { match r[0] { Ev::Start(n, a) => len_textstyle(el_textstyle(g, n, a), r.drop_first(), tag), Ev::Empty(n, a) => len_textstyle(el_textstyle(g, n, a), r.drop_first(), tag), _ => len_textstyle(g, r.drop_first(), tag) } } }
/// the style that the element describes, if it is complete, and the events that follow
spec fn style_textstyle(tag: Seq<char>, a: Seq<At>, empty: bool, o: StyleOrigin, u: StyleUse, r: Seq<Ev>) -> (Option<Style>, Seq<Ev>) {
    let (end, g, rest) = if empty { (true, sg0(), r) } else { rd_textstyle(sg0(), r, tag) };
    (if end { Some(Style { family: "text"@, name: style_name(tag, a), origin: o, styleuse: u, attr: style_at(a), body: g }) } else { None }, rest)
}
//@fn file=src/io/read.rs path=read_textstyle attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml origin style_use super_tag empty_tag
//@ret r
//@spec
    requires is_style(super_tag.tag()),
    ensures r is Ok ==> ({ let (st, rest) = style_textstyle(super_tag.tag(), super_tag.at(), empty_tag, origin, style_use, old(xml)@); final(xml)@ == rest && final(ctx).book.added() =~= old(ctx).book.added() + opt(st) }),
//@at start
    let ghost log = ctx.book.added(); let ghost tag = super_tag.tag(); let ghost at = super_tag.at(); let ghost xs = xml@;
    proof { style_names(); }
//@at before 0 if empty_tag
    let ghost s0 = style;
    proof {  assert(kv(style.attr) =~= style_at(at)); assert(sg_textstyle(style) == sg0()) by { lemma_none(style.textstyle); assert(sg_textstyle(style).maps =~= Seq::empty()); assert(sg_textstyle(style).tabs =~= Seq::empty()); } assert(wf_textstyle(style)); assert(style.name@ =~= style_name(tag, at)); }
//@loop 0
    invariant_except_break ctx.book.added() == log, wf_textstyle(style), kv(style.attr) == style_at(at), style.name@ == style_name(tag, at), style.origin == origin, style.styleuse == style_use,
        rd_textstyle(sg0(), xs, tag) == rd_textstyle(sg_textstyle(style), xml@, tag),
    invariant tag == super_tag.tag(), at == super_tag.at(), is_style(tag),
    ensures ({ let (st, rest) = style_textstyle(tag, at, false, origin, style_use, xs); xml@ == rest && ctx.book.added() =~= log + opt(st) }),
//@at loopstart 0
    let ghost sl = style; let ghost xl = xml@;
    proof { style_names(); }
//@end
struct RubyStyleRef { id: String }
//@struct file=src/style/ruby.rs name=RubyStyle
//@end
impl RubyStyle {
//@fn file=src/macro_style.rs path=RubyStyle::set_origin macro=styles_styles2(RubyStyle,RubyStyleRef) macro_in=src/style/ruby.rs
//@params origin
//@spec
    ensures *final(self) == (RubyStyle { origin, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=RubyStyle::set_styleuse macro=styles_styles2(RubyStyle,RubyStyleRef) macro_in=src/style/ruby.rs
//@params styleuse
//@spec
    ensures *final(self) == (RubyStyle { styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=RubyStyle::set_name macro=styles_styles2(RubyStyle,RubyStyleRef) macro_in=src/style/ruby.rs
//@params name
//@spec
    ensures final(self).name@ == name.text(), *final(self) == (RubyStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/style/ruby.rs path=RubyStyle::new_empty
//@ret r
//@spec
    ensures none(r.attr), none(r.rubystyle),
//@end
//@fn file=src/style/ruby.rs path=RubyStyle::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (RubyStyle { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/ruby.rs path=RubyStyle::rubystyle_mut
//@ret r
//@spec
    ensures *r == old(self).rubystyle, *final(self) == (RubyStyle { rubystyle: *final(r), ..*old(self) }),
//@end
}
spec fn sg_rubystyle(s: RubyStyle) -> Sg { Sg { own: kv(s.rubystyle), para: Kv::empty(), text: Kv::empty(), maps: Seq::empty(), tabs: Seq::empty() } }
spec fn st_rubystyle(s: RubyStyle) -> Style { Style { family: "ruby"@, name: s.name@, origin: s.origin, styleuse: s.styleuse, attr: kv(s.attr), body: sg_rubystyle(s) } }
spec fn wf_rubystyle(s: RubyStyle) -> bool { wfm(s.attr) && wfm(s.rubystyle) }
spec fn el_rubystyle(g: Sg, n: Seq<char>, a: Seq<At>) -> Sg { if n == "style:ruby-properties"@ { Sg { own: g.own + all_at(a), ..g } } else { g } }
/// the elements up to the end of the style (is there an end?), and the events that follow
spec fn rd_rubystyle(g: Sg, r: Seq<Ev>, tag: Seq<char>) -> (bool, Sg, Seq<Ev>) decreases r.len() {
    if r.len() == 0 { (false, g, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => rd_rubystyle(el_rubystyle(g, n, a), s, tag),
            Ev::Empty(n, a) => rd_rubystyle(el_rubystyle(g, n, a), s, tag),
            Ev::End(n) => if n == tag { (true, g, s) } else { rd_rubystyle(g, s, tag) },
            Ev::Eof => (false, g, s),
            _ => rd_rubystyle(g, s, tag),
        }
    }
}
proof fn len_rubystyle(g: Sg, r: Seq<Ev>, tag: Seq<char>) ensures rd_rubystyle(g, r, tag).2.len() <= r.len() decreases r.len() { if r.len() > 0 { match r[0] { Ev::Start(n, a) => len_rubystyle(el_rubystyle(g, n, a), r.drop_first(), tag), Ev::Empty(n, a) => len_rubystyle(el_rubystyle(g, n, a), r.drop_first(), tag), _ => len_rubystyle(g, r.drop_first(), tag) } } }
/// the style that the element describes, if it is complete, and the events that follow
spec fn style_rubystyle(tag: Seq<char>, a: Seq<At>, empty: bool, o: StyleOrigin, u: StyleUse, r: Seq<Ev>) -> (Option<Style>, Seq<Ev>) {
    let (end, g, rest) = if empty { (true, sg0(), r) } else { rd_rubystyle(sg0(), r, tag) };
    (if end { Some(Style { family: "ruby"@, name: style_name(tag, a), origin: o, styleuse: u, attr: style_at(a), body: g }) } else { None }, rest)
}
//@fn file=src/io/read.rs path=read_rubystyle attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml origin style_use super_tag empty_tag
//@ret r
//@spec
    requires is_style(super_tag.tag()),
    ensures r is Ok ==> ({ let (st, rest) = style_rubystyle(super_tag.tag(), super_tag.at(), empty_tag, origin, style_use, old(xml)@); final(xml)@ == rest && final(ctx).book.added() =~= old(ctx).book.added() + opt(st) }),
//@at start
    let ghost log = ctx.book.added(); let ghost tag = super_tag.tag(); let ghost at = super_tag.at(); let ghost xs = xml@;
    proof { style_names(); }
//@at before 0 if empty_tag
    let ghost s0 = style;
    proof {  assert(kv(style.attr) =~= style_at(at)); assert(sg_rubystyle(style) == sg0()) by { lemma_none(style.rubystyle); assert(sg_rubystyle(style).maps =~= Seq::empty()); assert(sg_rubystyle(style).tabs =~= Seq::empty()); } assert(wf_rubystyle(style)); assert(style.name@ =~= style_name(tag, at)); }
//@loop 0
    invariant_except_break ctx.book.added() == log, wf_rubystyle(style), kv(style.attr) == style_at(at), style.name@ == style_name(tag, at), style.origin == origin, style.styleuse == style_use,
        rd_rubystyle(sg0(), xs, tag) == rd_rubystyle(sg_rubystyle(style), xml@, tag),
    invariant tag == super_tag.tag(), at == super_tag.at(), is_style(tag),
    ensures ({ let (st, rest) = style_rubystyle(tag, at, false, origin, style_use, xs); xml@ == rest && ctx.book.added() =~= log + opt(st) }),
//@at loopstart 0
    let ghost sl = style; let ghost xl = xml@;
    proof { style_names(); }
//@end
struct GraphicStyleRef { id: String }
//@struct file=src/style/graphicstyle.rs name=GraphicStyle
//@end
impl GraphicStyle {
//@fn file=src/macro_style.rs path=GraphicStyle::set_origin macro=styles_styles2(GraphicStyle,GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@params origin
//@spec
    ensures *final(self) == (GraphicStyle { origin, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=GraphicStyle::set_styleuse macro=styles_styles2(GraphicStyle,GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@params styleuse
//@spec
    ensures *final(self) == (GraphicStyle { styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_style.rs path=GraphicStyle::set_name macro=styles_styles2(GraphicStyle,GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@params name
//@spec
    ensures final(self).name@ == name.text(), *final(self) == (GraphicStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/style/graphicstyle.rs path=GraphicStyle::new_empty
//@ret r
//@spec
    ensures none(r.attr), none(r.graphicstyle), none(r.paragraphstyle), none(r.textstyle),
//@end
//@fn file=src/style/graphicstyle.rs path=GraphicStyle::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (GraphicStyle { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/graphicstyle.rs path=GraphicStyle::graphicstyle_mut
//@ret r
//@spec
    ensures *r == old(self).graphicstyle, *final(self) == (GraphicStyle { graphicstyle: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/graphicstyle.rs path=GraphicStyle::paragraphstyle_mut
//@ret r
//@spec
    ensures *r == old(self).paragraphstyle, *final(self) == (GraphicStyle { paragraphstyle: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/graphicstyle.rs path=GraphicStyle::textstyle_mut
//@ret r
//@spec
    ensures *r == old(self).textstyle, *final(self) == (GraphicStyle { textstyle: *final(r), ..*old(self) }),
//@end
}
spec fn sg_graphicstyle(s: GraphicStyle) -> Sg { Sg { own: kv(s.graphicstyle), para: kv(s.paragraphstyle), text: kv(s.textstyle), maps: Seq::empty(), tabs: Seq::empty() } }
spec fn st_graphicstyle(s: GraphicStyle) -> Style { Style { family: "graphic"@, name: s.name@, origin: s.origin, styleuse: s.styleuse, attr: kv(s.attr), body: sg_graphicstyle(s) } }
spec fn wf_graphicstyle(s: GraphicStyle) -> bool { wfm(s.attr) && wfm(s.graphicstyle) && wfm(s.paragraphstyle) && wfm(s.textstyle) }
spec fn el_graphicstyle(g: Sg, n: Seq<char>, a: Seq<At>) -> Sg { if n == "style:graphic-properties"@ { Sg { own: g.own + all_at(a), ..g } } else if n == "style:paragraph-properties"@ { Sg { para: g.para + all_at(a), ..g } } else if n == "style:text-properties"@ { Sg { text: g.text + all_at(a), ..g } } else { g } }
/// the elements up to the end of the style (is there an end?), and the events that follow
spec fn rd_graphicstyle(g: Sg, r: Seq<Ev>, tag: Seq<char>) -> (bool, Sg, Seq<Ev>) decreases r.len() {
    if r.len() == 0 { (false, g, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => rd_graphicstyle(el_graphicstyle(g, n, a), s, tag),
            Ev::Empty(n, a) => rd_graphicstyle(el_graphicstyle(g, n, a), s, tag),
            Ev::End(n) => if n == tag { (true, g, s) } else { rd_graphicstyle(g, s, tag) },
            Ev::Eof => (false, g, s),
            _ => rd_graphicstyle(g, s, tag),
        }
    }
}
proof fn len_graphicstyle(g: Sg, r: Seq<Ev>, tag: Seq<char>) ensures rd_graphicstyle(g, r, tag).2.len() <= r.len() decreases r.len() { if r.len() > 0 { match r[0] { Ev::Start(n, a) => len_graphicstyle(el_graphicstyle(g, n, a), r.drop_first(), tag), Ev::Empty(n, a) => len_graphicstyle(el_graphicstyle(g, n, a), r.drop_first(), tag), _ => len_graphicstyle(g, r.drop_first(), tag) } } }
/// the style that the element describes, if it is complete, and the events that follow
spec fn style_graphicstyle(tag: Seq<char>, a: Seq<At>, empty: bool, o: StyleOrigin, u: StyleUse, r: Seq<Ev>) -> (Option<Style>, Seq<Ev>) {
    let (end, g, rest) = if empty { (true, sg0(), r) } else { rd_graphicstyle(sg0(), r, tag) };
    (if end { Some(Style { family: "graphic"@, name: style_name(tag, a), origin: o, styleuse: u, attr: style_at(a), body: g }) } else { None }, rest)
}
//@fn file=src/io/read.rs path=read_graphicstyle attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml origin style_use super_tag empty_tag
//@ret r
//@spec
    requires is_style(super_tag.tag()),
    ensures r is Ok ==> ({ let (st, rest) = style_graphicstyle(super_tag.tag(), super_tag.at(), empty_tag, origin, style_use, old(xml)@); final(xml)@ == rest && final(ctx).book.added() =~= old(ctx).book.added() + opt(st) }),
//@at start
    let ghost log = ctx.book.added(); let ghost tag = super_tag.tag(); let ghost at = super_tag.at(); let ghost xs = xml@;
    proof { style_names(); }
//@at before 0 if empty_tag
    let ghost s0 = style;
    proof {  assert(kv(style.attr) =~= style_at(at)); assert(sg_graphicstyle(style) == sg0()) by { lemma_none(style.graphicstyle); lemma_none(style.paragraphstyle); lemma_none(style.textstyle); assert(sg_graphicstyle(style).maps =~= Seq::empty()); assert(sg_graphicstyle(style).tabs =~= Seq::empty()); } assert(wf_graphicstyle(style)); assert(style.name@ =~= style_name(tag, at)); }
//@loop 0
    invariant_except_break ctx.book.added() == log, wf_graphicstyle(style), kv(style.attr) == style_at(at), style.name@ == style_name(tag, at), style.origin == origin, style.styleuse == style_use,
        rd_graphicstyle(sg0(), xs, tag) == rd_graphicstyle(sg_graphicstyle(style), xml@, tag),
    invariant tag == super_tag.tag(), at == super_tag.at(), is_style(tag),
    ensures ({ let (st, rest) = style_graphicstyle(tag, at, false, origin, style_use, xs); xml@ == rest && ctx.book.added() =~= log + opt(st) }),
//@at loopstart 0
    let ghost sl = style; let ghost xl = xml@;
    proof { style_names(); }
//@end
// ------------------------------------------------------------------ value formats
//@gsubst attr.value ==> vp_value(attr)
fn vp_value(a: &Attribute) -> (r: &VpBytes) ensures r@ == a.v().raw { &a.value }
uninterp spec fn i32_of(raw: Seq<char>) -> i32;
#[verifier::external_body] fn parse_i32(s: &VpBytes) -> (r: Result<i32, OdsError>) ensures r is Ok ==> r->Ok_0 == i32_of(s@) { unimplemented!() }
#[verifier::external_body] fn parse_bool(s: &VpBytes) -> (r: Result<bool, OdsError>) ensures r is Ok ==> r->Ok_0 == bool_of(s@) { unimplemented!() }
uninterp spec fn bool_of(raw: Seq<char>) -> bool;
//@struct file=src/format/mod.rs name=FormatPartType attr=derive(Clone,Copy,PartialEq,Eq,Structural)
//@end
//@struct file=src/format/mod.rs name=FormatPart
//@end
ghost struct Part { ty: FormatPartType, attr: Kv, pos: Option<i32>, text: Option<Seq<char>> }
spec fn pt(p: FormatPart) -> Part { Part { ty: p.part_type, attr: kv(p.attr), pos: p.position, text: osv(p.content) } }
spec fn add_text(o: Option<Seq<char>>, s: Seq<char>) -> Option<Seq<char>> { match o { Some(x) => Some(x + s), None => Some(s) } }
impl FormatPart {
//@fn file=src/format/mod.rs path=FormatPart::new
//@params ftype
//@ret r
//@spec
    ensures none(r.attr), r.part_type == ftype, r.position is None, r.content is None,
//@end
//@fn file=src/format/mod.rs path=FormatPart::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (FormatPart { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/format/mod.rs path=FormatPart::set_position
//@params pos
//@spec
    ensures *final(self) == (FormatPart { position: Some(pos), ..*old(self) }),
//@end
//@fn file=src/format/mod.rs path=FormatPart::append_content
//@params content
//@spec
    ensures osv(final(self).content) == add_text(osv(old(self).content), content.text()), *final(self) == (FormatPart { content: final(self).content, ..*old(self) }),
//@end
}
/// the events after the end of the part; the text of the part, and the position and text of its embedded text
spec fn rdp(r: Seq<Ev>, tag: Seq<char>) -> Seq<Ev> decreases r.len() { if r.len() == 0 { r } else { match r[0] { Ev::End(n) => if n == tag { r.drop_first() } else { rdp(r.drop_first(), tag) }, Ev::Eof => r.drop_first(), _ => rdp(r.drop_first(), tag) } } }
spec fn rdt(t: Option<Seq<char>>, r: Seq<Ev>, tag: Seq<char>) -> Option<Seq<char>> decreases r.len() { if r.len() == 0 { t } else { match r[0] { Ev::End(n) => if n == tag { t } else { rdt(t, r.drop_first(), tag) }, Ev::Eof => t, Ev::Text(s) => rdt(add_text(t, s), r.drop_first(), tag), Ev::Ref(s) => rdt(add_text(t, s), r.drop_first(), tag), _ => rdt(t, r.drop_first(), tag) } } }
proof fn len_part(r: Seq<Ev>, tag: Seq<char>) ensures rdp(r, tag).len() <= r.len() decreases r.len() { if r.len() > 0 { len_part(r.drop_first(), tag); } }
ghost struct Em { pos: Option<i32>, text: Option<Seq<char>>, on: bool }
spec fn posv(p: Option<i32>, a: Seq<At>, n: int) -> Option<i32> { match av(a, n, "number:position"@) { Some(x) => Some(i32_of(x)), None => p } }
spec fn rdn(e: Em, r: Seq<Ev>, tag: Seq<char>) -> Em decreases r.len() {
    if r.len() == 0 { e } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => if n == "number:embedded-text"@ { rdn(Em { pos: posv(e.pos, a, a.len() as int), on: true, ..e }, s, tag) } else { rdn(e, s, tag) },
            Ev::Empty(n, a) => if n == "number:embedded-text"@ { rdn(Em { pos: posv(e.pos, a, a.len() as int), on: false, ..e }, s, tag) } else { rdn(e, s, tag) },
            Ev::Text(t) => rdn(if e.on { Em { text: add_text(e.text, t), ..e } } else { e }, s, tag),
            Ev::Ref(t) => rdn(if e.on { Em { text: add_text(e.text, t), ..e } } else { e }, s, tag),
            Ev::End(n) => if n == "number:embedded-text"@ { rdn(Em { on: false, ..e }, s, tag) } else if n == tag { e } else { rdn(e, s, tag) },
            Ev::Eof => e,
            _ => rdn(e, s, tag),
        }
    }
}
/// kind 0: no content, 1: with text, 2: with embedded text
spec fn part_of(ty: FormatPartType, kind: int, tag: Seq<char>, a: Seq<At>, empty: bool, r: Seq<Ev>) -> Part {
    let e = if empty { Em { pos: None, text: None, on: false } } else if kind == 1 { Em { pos: None, text: rdt(None, r, tag), on: false } } else if kind == 2 { rdn(Em { pos: None, text: None, on: false }, r, tag) } else { Em { pos: None, text: None, on: false } };
    Part { ty, attr: all_at(a), pos: e.pos, text: e.text }
}
spec fn part_rest(tag: Seq<char>, empty: bool, r: Seq<Ev>) -> Seq<Ev> { if empty { r } else { rdp(r, tag) } }
//@names ek emb_names "number:embedded-text" "number:number"
//@fn file=src/io/read.rs path=read_part attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml super_tag empty_tag part_type
//@ret r
//@spec
    requires super_tag.tag() != "number:embedded-text"@,
    ensures *final(ctx) == *old(ctx), r is Ok ==> wfm(r->Ok_0.attr) && pt(r->Ok_0) == part_of(part_type, 0, super_tag.tag(), super_tag.at(), empty_tag, old(xml)@) && final(xml)@ == part_rest(super_tag.tag(), empty_tag, old(xml)@),
//@at start
    let ghost tag = super_tag.tag(); let ghost at = super_tag.at(); let ghost xs = xml@; let ghost e0 = Em { pos: None, text: None, on: false };
    let ghost p0 = Part { ty: part_type, attr: all_at(at), pos: None, text: None };
//@at before 0 if !empty_tag
    proof { assert(kv(part.attr) =~= all_at(at)); assert(pt(part) == p0); }
//@loop 0
    invariant_except_break rdp(xs, tag) == rdp(xml@, tag), pt(part) == p0,
    invariant tag == super_tag.tag(), at == super_tag.at(), tag != "number:embedded-text"@, *ctx == *old(ctx), wfm(part.attr),
    ensures xml@ == rdp(xs, tag), pt(part) == p0,
//@at loopstart 0
    let ghost xl = xml@;
    proof { emb_names(); }
//@end
//@fn file=src/io/read.rs path=read_part_text attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml super_tag empty_tag part_type
//@ret r
//@spec
    requires super_tag.tag() != "number:embedded-text"@,
    ensures *final(ctx) == *old(ctx), r is Ok ==> wfm(r->Ok_0.attr) && pt(r->Ok_0) == part_of(part_type, 1, super_tag.tag(), super_tag.at(), empty_tag, old(xml)@) && final(xml)@ == part_rest(super_tag.tag(), empty_tag, old(xml)@),
//@at start
    let ghost tag = super_tag.tag(); let ghost at = super_tag.at(); let ghost xs = xml@; let ghost e0 = Em { pos: None, text: None, on: false };
    let ghost p0 = Part { ty: part_type, attr: all_at(at), pos: None, text: None };
//@at before 0 if !empty_tag
    proof { assert(kv(part.attr) =~= all_at(at)); assert(pt(part) == p0); }
//@loop 0
    invariant_except_break rdp(xs, tag) == rdp(xml@, tag), pt(part) == (Part { text: pt(part).text, ..p0 }), rdt(None, xs, tag) == rdt(pt(part).text, xml@, tag),
    invariant tag == super_tag.tag(), at == super_tag.at(), tag != "number:embedded-text"@, *ctx == *old(ctx), wfm(part.attr),
    ensures xml@ == rdp(xs, tag), pt(part) == (Part { text: rdt(None, xs, tag), ..p0 }),
//@at loopstart 0
    let ghost xl = xml@;
    proof { emb_names(); }
//@end
//@fn file=src/io/read.rs path=read_part_number attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml super_tag empty_tag part_type
//@ret r
//@subst for $ida in $t.attributes().with_checks(false) { $body } ==> let vp_at = vp_attributes($t)?; for $ida in vp_at.iter() { $body }
//@subst let attr = attr?; ==>
//@spec
    requires super_tag.tag() != "number:embedded-text"@,
    ensures *final(ctx) == *old(ctx), r is Ok ==> wfm(r->Ok_0.attr) && pt(r->Ok_0) == part_of(part_type, 2, super_tag.tag(), super_tag.at(), empty_tag, old(xml)@) && final(xml)@ == part_rest(super_tag.tag(), empty_tag, old(xml)@),
//@at start
    let ghost tag = super_tag.tag(); let ghost at = super_tag.at(); let ghost xs = xml@; let ghost e0 = Em { pos: None, text: None, on: false };
    let ghost p0 = Part { ty: part_type, attr: all_at(at), pos: None, text: None };
//@at before 0 if !empty_tag
    proof { assert(kv(part.attr) =~= all_at(at)); assert(pt(part) == p0); }
//@loop 0
    invariant_except_break rdp(xs, tag) == rdp(xml@, tag), pt(part) == (Part { pos: part.position, text: pt(part).text, ..p0 }), rdn(e0, xs, tag) == rdn(Em { pos: part.position, text: pt(part).text, on: embedded_text }, xml@, tag),
    invariant tag == super_tag.tag(), at == super_tag.at(), tag != "number:embedded-text"@, *ctx == *old(ctx), wfm(part.attr),
    ensures xml@ == rdp(xs, tag), pt(part) == (Part { pos: rdn(e0, xs, tag).pos, text: rdn(e0, xs, tag).text, ..p0 }),
//@at loopstart 0
    let ghost xl = xml@;
    proof { emb_names(); }
//@loop 1 it=it
    invariant it.seq().len() == vp_at@.len(), forall|i: int| 0 <= i < vp_at@.len() ==> *(#[trigger] it.seq()[i]) == vp_at@[i], ats(vp_at@) == xml_tag.at(), *ctx == *old(ctx), wfm(part.attr),
        pt(part) == (Part { pos: posv(pp, xml_tag.at(), it.index@ as int), ..p1 }),
//@at beforeloop 1
    let ghost pp = part.position; let ghost p1 = pt(part);
//@at loopstart 1
    proof { assert(xml_tag.at()[it.index@ as int] == attr.v()); }
//@loop 2 it=it
    invariant it.seq().len() == vp_at@.len(), forall|i: int| 0 <= i < vp_at@.len() ==> *(#[trigger] it.seq()[i]) == vp_at@[i], ats(vp_at@) == xml_tag.at(), *ctx == *old(ctx), wfm(part.attr),
        pt(part) == (Part { pos: posv(pp, xml_tag.at(), it.index@ as int), ..p1 }),
//@at beforeloop 2
    let ghost pp = part.position; let ghost p1 = pt(part);
//@at loopstart 2
    proof { assert(xml_tag.at()[it.index@ as int] == attr.v()); }
//@end
/// the value format as the trait shows it
ghost struct Vf { name: Seq<char>, origin: StyleOrigin, styleuse: StyleUse, attr: AttrMap2, textstyle: AttrMap2, parts: Seq<FormatPart>, maps: Seq<Vm> }
spec fn vmaps(o: Option<Vec<ValueStyleMap>>) -> Seq<Vm> { match o { Some(v) => Seq::new(v@.len(), |i: int| vmv(v@[i])), None => Seq::empty() } }
trait ValueFormatTrait: Sized {
    spec fn raw(&self) -> Vf;
    fn set_name<S: VpInto>(&mut self, name: S) ensures final(self).raw() == (Vf { name: name.itext(), ..old(self).raw() });
    fn set_origin(&mut self, origin: StyleOrigin) ensures final(self).raw() == (Vf { origin, ..old(self).raw() });
    fn set_styleuse(&mut self, styleuse: StyleUse) ensures final(self).raw() == (Vf { styleuse, ..old(self).raw() });
    fn attrmap_mut(&mut self) -> (r: &mut AttrMap2) ensures *r == old(self).raw().attr, final(self).raw() == (Vf { attr: *final(r), ..old(self).raw() });
    fn textstyle_mut(&mut self) -> (r: &mut AttrMap2) ensures *r == old(self).raw().textstyle, final(self).raw() == (Vf { textstyle: *final(r), ..old(self).raw() });
    fn push_part(&mut self, part: FormatPart) ensures final(self).raw() == (Vf { parts: old(self).raw().parts.push(part), ..old(self).raw() });
    fn push_stylemap(&mut self, stylemap: ValueStyleMap) ensures final(self).raw() == (Vf { maps: old(self).raw().maps.push(vmv(stylemap)), ..old(self).raw() });
}
spec fn none_f(v: Vf) -> bool { none(v.attr) && none(v.textstyle) && v.parts.len() == 0 && v.maps.len() == 0 }
proof fn lemma_pts(a: Seq<FormatPart>, b: Seq<FormatPart>) ensures b.len() > 0 && b == a.push(b.last()) ==> b.map_values(|p: FormatPart| pt(p)) == a.map_values(|p: FormatPart| pt(p)).push(pt(b.last())) { if b.len() > 0 && b == a.push(b.last()) { assert(b.map_values(|p: FormatPart| pt(p)) =~= a.map_values(|p: FormatPart| pt(p)).push(pt(b.last()))); } }
ghost struct Fmt { name: Seq<char>, origin: StyleOrigin, styleuse: StyleUse, attr: Kv, text: Kv, parts: Seq<Part>, maps: Seq<Vm> }
spec fn fmt_of(v: Vf) -> Fmt { Fmt { name: v.name, origin: v.origin, styleuse: v.styleuse, attr: kv(v.attr), text: kv(v.textstyle), parts: v.parts.map_values(|p: FormatPart| pt(p)), maps: v.maps } }
//@struct file=src/macro_format.rs name=ValueFormatBoolean macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@end
impl ValueFormatBoolean {
//@fn file=src/macro_format.rs path=ValueFormatBoolean::new_empty macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@ret r
//@subst String::from("") ==> String::new()
//@spec
    ensures none_f(r.raw()),
//@end
}
impl ValueFormatTrait for ValueFormatBoolean {
    spec fn raw(&self) -> Vf { Vf { name: self.name@, origin: self.origin, styleuse: self.styleuse, attr: self.attr, textstyle: self.textstyle, parts: self.parts@, maps: vmaps(self.stylemaps) } }
//@fn file=src/macro_format.rs path=ValueFormatBoolean::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@params name
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::set_origin trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@params origin
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::set_styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@params styleuse
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::attrmap_mut trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::textstyle_mut trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::push_part trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@params part
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::push_stylemap trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@params stylemap
//@subst self.stylemaps.get_or_insert_with(Vec::new).push(stylemap); ==> vp_push_map(&mut self.stylemaps, stylemap);
//@spec
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatDateTime macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@end
impl ValueFormatDateTime {
//@fn file=src/macro_format.rs path=ValueFormatDateTime::new_empty macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@ret r
//@subst String::from("") ==> String::new()
//@spec
    ensures none_f(r.raw()),
//@end
}
impl ValueFormatTrait for ValueFormatDateTime {
    spec fn raw(&self) -> Vf { Vf { name: self.name@, origin: self.origin, styleuse: self.styleuse, attr: self.attr, textstyle: self.textstyle, parts: self.parts@, maps: vmaps(self.stylemaps) } }
//@fn file=src/macro_format.rs path=ValueFormatDateTime::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@params name
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::set_origin trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@params origin
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::set_styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@params styleuse
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::attrmap_mut trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::textstyle_mut trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::push_part trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@params part
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::push_stylemap trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@params stylemap
//@subst self.stylemaps.get_or_insert_with(Vec::new).push(stylemap); ==> vp_push_map(&mut self.stylemaps, stylemap);
//@spec
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatTimeDuration macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@end
impl ValueFormatTimeDuration {
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::new_empty macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@ret r
//@subst String::from("") ==> String::new()
//@spec
    ensures none_f(r.raw()),
//@end
}
impl ValueFormatTrait for ValueFormatTimeDuration {
    spec fn raw(&self) -> Vf { Vf { name: self.name@, origin: self.origin, styleuse: self.styleuse, attr: self.attr, textstyle: self.textstyle, parts: self.parts@, maps: vmaps(self.stylemaps) } }
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@params name
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::set_origin trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@params origin
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::set_styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@params styleuse
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::attrmap_mut trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::textstyle_mut trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::push_part trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@params part
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::push_stylemap trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@params stylemap
//@subst self.stylemaps.get_or_insert_with(Vec::new).push(stylemap); ==> vp_push_map(&mut self.stylemaps, stylemap);
//@spec
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatNumber macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@end
impl ValueFormatNumber {
//@fn file=src/macro_format.rs path=ValueFormatNumber::new_empty macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@ret r
//@subst String::from("") ==> String::new()
//@spec
    ensures none_f(r.raw()),
//@end
}
impl ValueFormatTrait for ValueFormatNumber {
    spec fn raw(&self) -> Vf { Vf { name: self.name@, origin: self.origin, styleuse: self.styleuse, attr: self.attr, textstyle: self.textstyle, parts: self.parts@, maps: vmaps(self.stylemaps) } }
//@fn file=src/macro_format.rs path=ValueFormatNumber::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@params name
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::set_origin trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@params origin
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::set_styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@params styleuse
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::attrmap_mut trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::textstyle_mut trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::push_part trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@params part
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::push_stylemap trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@params stylemap
//@subst self.stylemaps.get_or_insert_with(Vec::new).push(stylemap); ==> vp_push_map(&mut self.stylemaps, stylemap);
//@spec
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatCurrency macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@end
impl ValueFormatCurrency {
//@fn file=src/macro_format.rs path=ValueFormatCurrency::new_empty macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@ret r
//@subst String::from("") ==> String::new()
//@spec
    ensures none_f(r.raw()),
//@end
}
impl ValueFormatTrait for ValueFormatCurrency {
    spec fn raw(&self) -> Vf { Vf { name: self.name@, origin: self.origin, styleuse: self.styleuse, attr: self.attr, textstyle: self.textstyle, parts: self.parts@, maps: vmaps(self.stylemaps) } }
//@fn file=src/macro_format.rs path=ValueFormatCurrency::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@params name
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::set_origin trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@params origin
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::set_styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@params styleuse
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::attrmap_mut trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::textstyle_mut trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::push_part trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@params part
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::push_stylemap trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@params stylemap
//@subst self.stylemaps.get_or_insert_with(Vec::new).push(stylemap); ==> vp_push_map(&mut self.stylemaps, stylemap);
//@spec
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatPercentage macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@end
impl ValueFormatPercentage {
//@fn file=src/macro_format.rs path=ValueFormatPercentage::new_empty macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@ret r
//@subst String::from("") ==> String::new()
//@spec
    ensures none_f(r.raw()),
//@end
}
impl ValueFormatTrait for ValueFormatPercentage {
    spec fn raw(&self) -> Vf { Vf { name: self.name@, origin: self.origin, styleuse: self.styleuse, attr: self.attr, textstyle: self.textstyle, parts: self.parts@, maps: vmaps(self.stylemaps) } }
//@fn file=src/macro_format.rs path=ValueFormatPercentage::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@params name
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::set_origin trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@params origin
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::set_styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@params styleuse
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::attrmap_mut trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::textstyle_mut trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::push_part trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@params part
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::push_stylemap trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@params stylemap
//@subst self.stylemaps.get_or_insert_with(Vec::new).push(stylemap); ==> vp_push_map(&mut self.stylemaps, stylemap);
//@spec
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatText macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@end
impl ValueFormatText {
//@fn file=src/macro_format.rs path=ValueFormatText::new_empty macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@ret r
//@subst String::from("") ==> String::new()
//@spec
    ensures none_f(r.raw()),
//@end
}
impl ValueFormatTrait for ValueFormatText {
    spec fn raw(&self) -> Vf { Vf { name: self.name@, origin: self.origin, styleuse: self.styleuse, attr: self.attr, textstyle: self.textstyle, parts: self.parts@, maps: vmaps(self.stylemaps) } }
//@fn file=src/macro_format.rs path=ValueFormatText::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@params name
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatText::set_origin trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@params origin
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatText::set_styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@params styleuse
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatText::attrmap_mut trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatText::textstyle_mut trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatText::push_part trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@params part
//@spec
//@end
//@fn file=src/macro_format.rs path=ValueFormatText::push_stylemap trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@params stylemap
//@subst self.stylemaps.get_or_insert_with(Vec::new).push(stylemap); ==> vp_push_map(&mut self.stylemaps, stylemap);
//@spec
//@end
}
fn vp_push_map(o: &mut Option<Vec<ValueStyleMap>>, m: ValueStyleMap) ensures vmaps(*final(o)) == vmaps(*old(o)).push(vmv(m)) { let ghost a = vmaps(*o); o.get_or_insert(Vec::new()).push(m); proof { assert(vmaps(*o) =~= a.push(vmv(m))); } }
/// the part that an element stands for, and how its content is read
spec fn part_kind(n: Seq<char>) -> Option<(FormatPartType, int)> {
    if n == "number:boolean"@ { Some((FormatPartType::Boolean, 0int)) } else if n == "number:number"@ { Some((FormatPartType::Number, 2int)) } else if n == "number:fraction"@ { Some((FormatPartType::Fraction, 0int)) } else if n == "number:scientific-number"@ { Some((FormatPartType::ScientificNumber, 0int)) } else if n == "number:text"@ || n == "loext:text"@ { Some((FormatPartType::Text, 1int)) } else if n == "number:am-pm"@ { Some((FormatPartType::AmPm, 0int)) } else if n == "number:day"@ { Some((FormatPartType::Day, 0int)) } else if n == "number:day-of-week"@ { Some((FormatPartType::DayOfWeek, 0int)) } else if n == "number:era"@ { Some((FormatPartType::Era, 0int)) } else if n == "number:hours"@ { Some((FormatPartType::Hours, 0int)) } else if n == "number:minutes"@ { Some((FormatPartType::Minutes, 0int)) } else if n == "number:month"@ { Some((FormatPartType::Month, 0int)) } else if n == "number:quarter"@ { Some((FormatPartType::Quarter, 0int)) } else if n == "number:seconds"@ { Some((FormatPartType::Seconds, 0int)) } else if n == "number:week-of-year"@ { Some((FormatPartType::WeekOfYear, 0int)) } else if n == "number:year"@ { Some((FormatPartType::Year, 0int)) } else if n == "number:currency-symbol"@ { Some((FormatPartType::CurrencySymbol, 1int)) } else if n == "number:fill-character"@ || n == "loext:fill-character"@ { Some((FormatPartType::FillCharacter, 1int)) } else if n == "number:text-content"@ { Some((FormatPartType::TextContent, 0int)) } else { None }
}
//@names pk part_names "number:boolean" "number:number" "number:fraction" "number:scientific-number" "number:text" "number:am-pm" "number:day" "number:day-of-week" "number:era" "number:hours" "number:minutes" "number:month" "number:quarter" "number:seconds" "number:week-of-year" "number:year" "number:currency-symbol" "number:fill-character" "number:text-content" "loext:text" "loext:fill-character" "style:map" "style:text-properties" "number:embedded-text"
//@names vk format_names "number:boolean-style" "number:date-style" "number:time-style" "number:number-style" "number:currency-style" "number:percentage-style" "number:text-style"
spec fn is_format(t: Seq<char>) -> bool { t == "number:boolean-style"@ || t == "number:date-style"@ || t == "number:time-style"@ || t == "number:number-style"@ || t == "number:currency-style"@ || t == "number:percentage-style"@ || t == "number:text-style"@ }
/// one element within a format
spec fn el_fmt(g: Fmt, n: Seq<char>, a: Seq<At>, empty: bool, s: Seq<Ev>) -> (Fmt, Seq<Ev>) {
    match part_kind(n) {
        Some((ty, k)) => (Fmt { parts: g.parts.push(part_of(ty, k, n, a, empty, s)), ..g }, part_rest(n, empty, s)),
        None => if n == "style:map"@ { (Fmt { maps: g.maps.push(vm_of(a, a.len() as int)), ..g }, s) } else if n == "style:text-properties"@ { (Fmt { text: g.text + all_at(a), ..g }, s) } else { (g, s) },
    }
}
proof fn len_el_fmt(g: Fmt, n: Seq<char>, a: Seq<At>, empty: bool, s: Seq<Ev>) ensures el_fmt(g, n, a, empty, s).1.len() <= s.len() { len_part(s, n); }
/// the elements up to the end of the format, and the events that follow
spec fn rd_fmt(g: Fmt, r: Seq<Ev>, tag: Seq<char>) -> (Fmt, Seq<Ev>) decreases r.len() via rd_fmt_dec {
    if r.len() == 0 { (g, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => { let (h, q) = el_fmt(g, n, a, false, s); rd_fmt(h, q, tag) },
            Ev::Empty(n, a) => { let (h, q) = el_fmt(g, n, a, true, s); rd_fmt(h, q, tag) },
            Ev::End(n) => if n == tag { (g, s) } else { rd_fmt(g, s, tag) },
            Ev::Eof => (g, s),
            _ => rd_fmt(g, s, tag),
        }
    }
}
#[via_fn] proof fn rd_fmt_dec(g: Fmt, r: Seq<Ev>, tag: Seq<char>) { if r.len() > 0 { match r[0] { Ev::Start(n, a) => len_el_fmt(g, n, a, false, r.drop_first()), Ev::Empty(n, a) => len_el_fmt(g, n, a, true, r.drop_first()), _ => {} } } }
proof fn len_fmt(g: Fmt, r: Seq<Ev>, tag: Seq<char>) ensures rd_fmt(g, r, tag).1.len() <= r.len() decreases r.len() { if r.len() > 0 { let s = r.drop_first(); match r[0] { Ev::Start(n, a) => { len_el_fmt(g, n, a, false, s); let (h, q) = el_fmt(g, n, a, false, s); len_fmt(h, q, tag); } Ev::Empty(n, a) => { len_el_fmt(g, n, a, true, s); let (h, q) = el_fmt(g, n, a, true, s); len_fmt(h, q, tag); } _ => len_fmt(g, s, tag) } } }
spec fn fmt0(tag: Seq<char>, a: Seq<At>, o: StyleOrigin, u: StyleUse) -> Fmt { Fmt { name: style_name(tag, a), origin: o, styleuse: u, attr: style_at(a), text: Kv::empty(), parts: Seq::empty(), maps: Seq::empty() } }
spec fn format_of(tag: Seq<char>, a: Seq<At>, empty: bool, o: StyleOrigin, u: StyleUse, r: Seq<Ev>) -> (Fmt, Seq<Ev>) { if empty { (fmt0(tag, a, o, u), r) } else { rd_fmt(fmt0(tag, a, o, u), r, tag) } }
//@fn file=src/io/read.rs path=read_value_format_parts attr=verifier::exec_allows_no_decreases_clause+verifier::rlimit(60)
//@params ctx xml origin styleuse valuestyle super_tag empty_tag
//@ret r
//@spec
    requires none_f(old(valuestyle).raw()), is_format(super_tag.tag()),
    ensures *final(ctx) == *old(ctx), r is Ok ==> ({ let (g, rest) = format_of(super_tag.tag(), super_tag.at(), empty_tag, origin, styleuse, old(xml)@); fmt_of(final(valuestyle).raw()) == g && final(xml)@ == rest }),
//@at start
    let ghost tag = super_tag.tag(); let ghost at = super_tag.at(); let ghost xs = xml@; let ghost g0 = fmt0(tag, at, origin, styleuse);
//@at before 0 if empty_tag
    proof { let v = valuestyle.raw(); lemma_none(v.textstyle); assert(kv(v.attr) =~= style_at(at)); assert(v.name =~= style_name(tag, at)); assert(fmt_of(v).parts =~= Seq::empty()); assert(v.maps =~= Seq::empty()); assert(fmt_of(v) == g0); }
//@loop 0
    invariant_except_break rd_fmt(g0, xs, tag) == rd_fmt(fmt_of(valuestyle.raw()), xml@, tag), wfm(valuestyle.raw().textstyle),
    invariant tag == super_tag.tag(), at == super_tag.at(), *ctx == *old(ctx), is_format(tag),
    ensures (fmt_of(valuestyle.raw()), xml@) == rd_fmt(g0, xs, tag),
//@at loopstart 0
    let ghost v0 = valuestyle.raw(); let ghost xl = xml@;
    proof { part_names(); }
//@at loopend 0
    proof { lemma_pts(v0.parts, valuestyle.raw().parts); }
//@end
// ------------------------------------------------------------------ formats, fonts, pages, master pages
#[verifier::external_body] struct ValueFormatRef {}
//@fn file=src/io/read.rs path=read_value_format
//@params ctx xml origin styleuse super_tag empty_tag
//@ret r
//@subst if cfg!(feature = "dump_unused") { $body } ==>
//@spec
    requires is_format(super_tag.tag()),
    ensures r is Ok ==> ({ let (g, rest) = format_of(super_tag.tag(), super_tag.at(), empty_tag, origin, styleuse, old(xml)@); final(xml)@ == rest && final(ctx).book.added() =~= old(ctx).book.added() + seq![Added::Format(super_tag.tag(), g)] }),
//@at start
    proof { format_names(); }
//@end
//@struct file=src/style/fontface.rs name=FontFaceDecl
//@end
ghost struct Font { name: Seq<char>, origin: StyleOrigin, attr: Kv }
spec fn font_v(f: FontFaceDecl) -> Font { Font { name: f.name@, origin: f.origin, attr: kv(f.attr) } }
impl FontFaceDecl {
//@fn file=src/style/fontface.rs path=FontFaceDecl::new_empty
//@ret r
//@subst "".to_string() ==> String::new()
//@spec
    ensures none(r.attr),
//@end
//@fn file=src/style/fontface.rs path=FontFaceDecl::set_name
//@params name
//@spec
    ensures final(self).name@ == name.text(), *final(self) == (FontFaceDecl { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/style/fontface.rs path=FontFaceDecl::set_origin
//@params origin
//@spec
    ensures *final(self) == (FontFaceDecl { origin, ..*old(self) }),
//@end
//@fn file=src/style/fontface.rs path=FontFaceDecl::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (FontFaceDecl { attr: *final(r), ..*old(self) }),
//@end
}
/// the fonts up to the end of the declarations, and the events that follow
spec fn rd_fonts(l: Seq<Added>, o: StyleOrigin, r: Seq<Ev>) -> (Seq<Added>, Seq<Ev>) decreases r.len() {
    if r.len() == 0 { (l, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => rd_fonts(if n == "style:font-face"@ { l.push(Added::Font(Font { name: style_name(n, a), origin: o, attr: style_at(a) })) } else { l }, o, s),
            Ev::Empty(n, a) => rd_fonts(if n == "style:font-face"@ { l.push(Added::Font(Font { name: style_name(n, a), origin: o, attr: style_at(a) })) } else { l }, o, s),
            Ev::End(n) => if n == "office:font-face-decls"@ { (l, s) } else { rd_fonts(l, o, s) },
            Ev::Eof => (l, s),
            _ => rd_fonts(l, o, s),
        }
    }
}
//@fn file=src/io/read.rs path=read_office_font_face_decls attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml origin
//@ret r
//@spec
    ensures r is Ok ==> (final(ctx).book.added(), final(xml)@) == rd_fonts(old(ctx).book.added(), origin, old(xml)@),
//@at start
    let ghost xs = xml@; let ghost l0 = ctx.book.added();
//@loop 0
    invariant_except_break rd_fonts(l0, origin, xs) == rd_fonts(ctx.book.added(), origin, xml@), none(font.attr), font.origin == origin,
    ensures (ctx.book.added(), xml@) == rd_fonts(l0, origin, xs),
//@at after 0 let name = copy_style_attr(ctx, font.attrmap_mut(), xml_tag)?;
    proof { assert(kv(font.attr) =~= style_at(xml_tag.at())); assert(name@ =~= style_name(xml_tag.tag(), xml_tag.at())); }
//@at after 1 let name = copy_style_attr(ctx, font.attrmap_mut(), xml_tag)?;
    proof { assert(kv(font.attr) =~= style_at(xml_tag.at())); assert(name@ =~= style_name(xml_tag.tag(), xml_tag.at())); }
//@end
// ------------------------------------------------------------------ page layouts
//@struct file=src/style/pagestyle.rs name=HeaderFooterStyle
//@end
//@struct file=src/style/pagestyle.rs name=PageStyle
//@end
ghost struct Page { name: Seq<char>, usage: Option<Seq<char>>, style: Kv, header: Kv, footer: Kv }
spec fn page_v(p: PageStyle) -> Page { Page { name: p.name@, usage: osv(p.master_page_usage), style: kv(p.style), header: kv(p.header.style), footer: kv(p.footer.style) } }
spec fn wf_page(p: PageStyle) -> bool { wfm(p.style) && wfm(p.header.style) && wfm(p.footer.style) }
impl VpDefault for HeaderFooterStyle { spec fn is_default(&self) -> bool { none(self.style) } fn vp_default() -> (r: Self) { HeaderFooterStyle { style: VpDefault::vp_default() } } }
impl HeaderFooterStyle {
//@fn file=src/style/pagestyle.rs path=HeaderFooterStyle::style_mut
//@ret r
//@spec
    ensures *r == old(self).style, *final(self) == (HeaderFooterStyle { style: *final(r), ..*old(self) }),
//@end
}
impl PageStyle {
//@fn file=src/style/pagestyle.rs path=PageStyle::new_empty
//@ret r
//@spec
    ensures none(r.style), none(r.header.style), none(r.footer.style), r.master_page_usage is None, r.name@ =~= Seq::<char>::empty(),
//@end
//@fn file=src/style/pagestyle.rs path=PageStyle::set_name
//@params name
//@spec
    ensures final(self).name@ == name.itext(), *final(self) == (PageStyle { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/style/pagestyle.rs path=PageStyle::headerstyle_mut
//@ret r
//@spec
    ensures *r == old(self).header, *final(self) == (PageStyle { header: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/pagestyle.rs path=PageStyle::footerstyle_mut
//@ret r
//@spec
    ensures *r == old(self).footer, *final(self) == (PageStyle { footer: *final(r), ..*old(self) }),
//@end
//@fn file=src/style/pagestyle.rs path=PageStyle::style_mut
//@ret r
//@spec
    ensures *r == old(self).style, *final(self) == (PageStyle { style: *final(r), ..*old(self) }),
//@end
}
//@names gk page_names "style:name" "style:page-usage" "style:page-layout-properties" "style:header-style" "style:footer-style" "style:header-footer-properties" "style:background-image" "style:page-layout"
spec fn page0(a: Seq<At>, n: int) -> Page { Page { name: utext(av(a, n, "style:name"@)), usage: mapu(av(a, n, "style:page-usage"@)), style: Kv::empty(), header: Kv::empty(), footer: Kv::empty() } }
/// one element of a page layout, within a header style / a footer style or not
spec fn el_page(p: Page, n: Seq<char>, a: Seq<At>, h: bool, f: bool) -> Page {
    if n == "style:page-layout-properties"@ { Page { style: p.style + all_at(a), ..p } }
    else if n == "style:header-footer-properties"@ { Page { header: if h { p.header + all_at(a) } else { p.header }, footer: if f { p.footer + all_at(a) } else { p.footer }, ..p } }
    else { p }
}
spec fn rd_page(p: Page, h: bool, f: bool, r: Seq<Ev>) -> (Page, Seq<Ev>) decreases r.len() {
    if r.len() == 0 { (p, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => rd_page(el_page(p, n, a, h, f), h || n == "style:header-style"@, f || n == "style:footer-style"@, s),
            Ev::Empty(n, a) => rd_page(el_page(p, n, a, h, f), h, f, s),
            Ev::End(n) => if n == "style:page-layout"@ { (p, s) } else { rd_page(p, h && n != "style:header-style"@, f && n != "style:footer-style"@, s) },
            Ev::Eof => (p, s),
            _ => rd_page(p, h, f, s),
        }
    }
}
proof fn len_page(p: Page, h: bool, f: bool, r: Seq<Ev>) ensures rd_page(p, h, f, r).1.len() <= r.len() decreases r.len() { if r.len() > 0 { let s = r.drop_first(); match r[0] {
    Ev::Start(n, a) => len_page(el_page(p, n, a, h, f), h || n == "style:header-style"@, f || n == "style:footer-style"@, s),
    Ev::Empty(n, a) => len_page(el_page(p, n, a, h, f), h, f, s),
    Ev::End(n) => len_page(p, h && n != "style:header-style"@, f && n != "style:footer-style"@, s),
    _ => len_page(p, h, f, s) } } }
spec fn page_of(a: Seq<At>, empty: bool, r: Seq<Ev>) -> (Page, Seq<Ev>) { let p = page0(a, a.len() as int); if empty { (p, r) } else { rd_page(p, false, false, r) } }
//@fn file=src/io/read.rs path=read_page_style attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml super_tag empty_tag
//@ret r
//@spec
    ensures r is Ok ==> ({ let (p, rest) = page_of(super_tag.at(), empty_tag, old(xml)@); final(xml)@ == rest && final(ctx).book.added() =~= old(ctx).book.added() + seq![Added::Page(p)] }),
//@at start
    let ghost xs = xml@; let ghost at = super_tag.at();
//@at beforeloop 0
    proof { lemma_none(pl.style); lemma_none(pl.header.style); lemma_none(pl.footer.style); }
//@loop 0 it=it
    invariant it.seq().len() == vp_at@.len(), forall|i: int| 0 <= i < vp_at@.len() ==> *(#[trigger] it.seq()[i]) == vp_at@[i], ats(vp_at@) == super_tag.at(), *ctx == *old(ctx), wf_page(pl), page_v(pl) == page0(super_tag.at(), it.index@ as int),
//@at loopstart 0
    proof { page_names(); assert(super_tag.at()[it.index@ as int] == attr.v()); }
//@loop 1
    invariant_except_break rd_page(page0(at, at.len() as int), false, false, xs) == rd_page(page_v(pl), headerstyle, footerstyle, xml@), wf_page(pl),
    invariant *ctx == *old(ctx),
    ensures (page_v(pl), xml@) == rd_page(page0(at, at.len() as int), false, false, xs),
//@at loopstart 1
    proof { page_names(); }
//@end
// ------------------------------------------------------------------ master pages
#[verifier::external_body] struct XmlTag {}
type TextTag = XmlTag;
// an element with its content, and its children: what read_xml and XmlTag::into_vec give (bounded: C20, C15)
uninterp spec fn xml_of(tag: Seq<char>, a: Seq<At>, empty: bool, r: Seq<Ev>) -> XmlTag;
uninterp spec fn xml_rest(tag: Seq<char>, empty: bool, r: Seq<Ev>) -> Seq<Ev>;
uninterp spec fn children(x: XmlTag) -> Seq<XmlTag>;
#[verifier::external_body] fn read_xml(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>, super_tag: &BytesStart<'_>, empty_tag: bool) -> (r: Result<XmlTag, OdsError>)
    ensures *final(ctx) == *old(ctx), r is Ok ==> r->Ok_0 == xml_of(super_tag.tag(), super_tag.at(), empty_tag, old(xml)@) && final(xml)@ == xml_rest(super_tag.tag(), empty_tag, old(xml)@) && final(xml)@.len() <= old(xml)@.len() { unimplemented!() }
#[verifier::external_body] proof fn axiom_xml_rest(tag: Seq<char>, empty: bool, r: Seq<Ev>) ensures xml_rest(tag, empty, r).len() <= r.len() {}
impl XmlTag { #[verifier::external_body] fn into_vec(self) -> (r: Result<Vec<XmlTag>, OdsError>) ensures r is Ok ==> r->Ok_0@ == children(self) { unimplemented!() } }
//@struct file=src/style/masterpage.rs name=HeaderFooter
//@end
//@struct file=src/style/masterpage.rs name=MasterPage
//@end
ghost struct Hf { display: bool, left: Seq<XmlTag>, center: Seq<XmlTag>, right: Seq<XmlTag>, content: Seq<XmlTag> }
spec fn hf_v(h: HeaderFooter) -> Hf { Hf { display: h.display, left: h.region_left@, center: h.region_center@, right: h.region_right@, content: h.content@ } }
impl VpDefault for HeaderFooter { spec fn is_default(&self) -> bool { hf_v(*self) == hf0(Seq::empty(), 0) } fn vp_default() -> (r: Self) { HeaderFooter::vp_dflt() } }
impl HeaderFooter {
//@fn file=src/style/masterpage.rs path=HeaderFooter::default trait=Default as=vp_dflt
//@ret r
//@spec
    ensures hf_v(r) == hf0(Seq::empty(), 0),
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::new
//@ret r
//@spec
    ensures hf_v(r) =~= hf0(Seq::empty(), 0),
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::set_display
//@params display
//@spec
    ensures hf_v(*final(self)) == (Hf { display, ..hf_v(*old(self)) }),
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::set_left
//@params txt
//@spec
    ensures hf_v(*final(self)) == (Hf { left: txt@, ..hf_v(*old(self)) }),
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::set_center
//@params txt
//@spec
    ensures hf_v(*final(self)) == (Hf { center: txt@, ..hf_v(*old(self)) }),
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::set_right
//@params txt
//@spec
    ensures hf_v(*final(self)) == (Hf { right: txt@, ..hf_v(*old(self)) }),
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::set_content
//@params txt
//@spec
    ensures hf_v(*final(self)) == (Hf { content: txt@, ..hf_v(*old(self)) }),
//@end
}
ghost struct Mp { name: Seq<char>, display: Seq<char>, page: Option<Seq<char>>, next: Option<Seq<char>>, header: Hf, header_first: Hf, header_left: Hf, footer: Hf, footer_first: Hf, footer_left: Hf }
spec fn opr(o: Option<PageStyleRef>) -> Option<Seq<char>> { match o { Some(s) => Some(s.id@), None => None } }
spec fn omr(o: Option<MasterPageRef>) -> Option<Seq<char>> { match o { Some(s) => Some(s.id@), None => None } }
spec fn master_v(m: MasterPage) -> Mp { Mp { name: m.name@, display: m.display_name@, page: opr(m.pagestyle), next: omr(m.next_style_name), header: hf_v(m.header), header_first: hf_v(m.header_first), header_left: hf_v(m.header_left), footer: hf_v(m.footer), footer_first: hf_v(m.footer_first), footer_left: hf_v(m.footer_left) } }
impl MasterPage {
//@fn file=src/style/masterpage.rs path=MasterPage::new_empty
//@ret r
//@spec
    ensures master_v(r) =~= mp0(Seq::empty(), 0),
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_name
//@params name
//@spec
    ensures master_v(*final(self)) == (Mp { name: name@, ..master_v(*old(self)) }),
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_display_name
//@params display_name
//@spec
    ensures master_v(*final(self)) == (Mp { display: display_name@, ..master_v(*old(self)) }),
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_pagestyle
//@params name
//@spec
    ensures master_v(*final(self)) == (Mp { page: Some(name.id@), ..master_v(*old(self)) }),
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_next_masterpage
//@params master
//@spec
    ensures master_v(*final(self)) == (Mp { next: Some(master.id@), ..master_v(*old(self)) }),
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_header
//@params header
//@spec
    ensures master_v(*final(self)) == (Mp { header: hf_v(header), ..master_v(*old(self)) }),
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_header_first
//@params header
//@spec
    ensures master_v(*final(self)) == (Mp { header_first: hf_v(header), ..master_v(*old(self)) }),
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_header_left
//@params header
//@spec
    ensures master_v(*final(self)) == (Mp { header_left: hf_v(header), ..master_v(*old(self)) }),
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_footer
//@params footer
//@spec
    ensures master_v(*final(self)) == (Mp { footer: hf_v(footer), ..master_v(*old(self)) }),
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_footer_first
//@params footer
//@spec
    ensures master_v(*final(self)) == (Mp { footer_first: hf_v(footer), ..master_v(*old(self)) }),
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_footer_left
//@params footer
//@spec
    ensures master_v(*final(self)) == (Mp { footer_left: hf_v(footer), ..master_v(*old(self)) }),
//@end
}
//@names hk hf_names "style:display" "style:region-left" "style:region-center" "style:region-right" "text:p" "text:h"
spec fn hf0(a: Seq<At>, n: int) -> Hf { Hf { display: match av(a, n, "style:display"@) { Some(x) => bool_of(x), None => true }, left: Seq::empty(), center: Seq::empty(), right: Seq::empty(), content: Seq::empty() } }
/// an element of a header or footer; paragraphs and headings are collected until the end
spec fn el_hf(h: Hf, c: Seq<XmlTag>, n: Seq<char>, a: Seq<At>, empty: bool, s: Seq<Ev>) -> (Hf, Seq<XmlTag>, Seq<Ev>) {
    let x = xml_of(n, a, empty, s); let q = xml_rest(n, empty, s);
    if n == "style:region-left"@ { (Hf { left: children(x), ..h }, c, q) }
    else if n == "style:region-center"@ { (Hf { center: children(x), ..h }, c, q) }
    else if n == "style:region-right"@ { (Hf { right: children(x), ..h }, c, q) }
    else if n == "text:p"@ || n == "text:h"@ { (h, c.push(x), q) }
    else { (h, c, s) }
}
spec fn rd_hf(h: Hf, c: Seq<XmlTag>, r: Seq<Ev>, tag: Seq<char>) -> (Hf, Seq<Ev>) decreases r.len() via rd_hf_dec {
    if r.len() == 0 { (h, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => { let (g, d, q) = el_hf(h, c, n, a, false, s); rd_hf(g, d, q, tag) },
            Ev::Empty(n, a) => { let (g, d, q) = el_hf(h, c, n, a, true, s); rd_hf(g, d, q, tag) },
            Ev::End(n) => if n == tag { (Hf { content: c, ..h }, s) } else { rd_hf(h, c, s, tag) },
            Ev::Eof => (h, s),
            _ => rd_hf(h, c, s, tag),
        }
    }
}
#[via_fn] proof fn rd_hf_dec(h: Hf, c: Seq<XmlTag>, r: Seq<Ev>, tag: Seq<char>) { if r.len() > 0 { match r[0] { Ev::Start(n, a) => axiom_xml_rest(n, false, r.drop_first()), Ev::Empty(n, a) => axiom_xml_rest(n, true, r.drop_first()), _ => {} } } }
proof fn len_hf(h: Hf, c: Seq<XmlTag>, r: Seq<Ev>, tag: Seq<char>) ensures rd_hf(h, c, r, tag).1.len() <= r.len() decreases r.len() { if r.len() > 0 { let s = r.drop_first(); match r[0] {
    Ev::Start(n, a) => { axiom_xml_rest(n, false, s); let (g, d, q) = el_hf(h, c, n, a, false, s); len_hf(g, d, q, tag); }
    Ev::Empty(n, a) => { axiom_xml_rest(n, true, s); let (g, d, q) = el_hf(h, c, n, a, true, s); len_hf(g, d, q, tag); }
    _ => len_hf(h, c, s, tag) } } }
spec fn hf_of(a: Seq<At>, r: Seq<Ev>, tag: Seq<char>) -> (Hf, Seq<Ev>) { rd_hf(hf0(a, a.len() as int), Seq::empty(), r, tag) }
//@fn file=src/io/read.rs path=read_headerfooter attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml super_tag
//@ret r
//@subst &vp_value(attr) ==> vp_value(attr)
//@subst Vec::new() ==> Vec::<XmlTag>::new()
//@spec
    ensures *final(ctx) == *old(ctx), r is Ok ==> (hf_v(r->Ok_0), final(xml)@) == hf_of(super_tag.at(), old(xml)@, super_tag.tag()),
//@at start
    let ghost xs = xml@; let ghost at = super_tag.at(); let ghost tag = super_tag.tag();
//@loop 0 it=it
    invariant it.seq().len() == vp_at@.len(), forall|i: int| 0 <= i < vp_at@.len() ==> *(#[trigger] it.seq()[i]) == vp_at@[i], ats(vp_at@) == super_tag.at(), *ctx == *old(ctx), hf_v(hf) == hf0(super_tag.at(), it.index@ as int),
//@at loopstart 0
    proof { hf_names(); assert(super_tag.at()[it.index@ as int] == attr.v()); }
//@at beforeloop 1
    proof { assert(content@ =~= Seq::empty()); }
//@loop 1
    invariant_except_break rd_hf(hf0(at, at.len() as int), Seq::empty(), xs, tag) == rd_hf(hf_v(hf), content@, xml@, tag),
    invariant *ctx == *old(ctx), tag == super_tag.tag(),
    ensures (hf_v(hf), xml@) == rd_hf(hf0(at, at.len() as int), Seq::empty(), xs, tag),
//@at loopstart 1
    let ghost xl = xml@;
    proof { hf_names(); if xl.len() > 0 { match xl[0] { Ev::Start(n, a) => axiom_xml_rest(n, false, xl.drop_first()), Ev::Empty(n, a) => axiom_xml_rest(n, true, xl.drop_first()), _ => {} } } }
//@end
//@names jk master_names "style:name" "style:page-layout-name" "style:display-name" "style:next-style-name" "style:header" "style:header-first" "style:header-left" "style:footer" "style:footer-first" "style:footer-left" "style:master-page"
spec fn mp0(a: Seq<At>, n: int) -> Mp { let h = hf0(Seq::empty(), 0); Mp { name: utext(av(a, n, "style:name"@)), display: utext(av(a, n, "style:display-name"@)), page: mapu(av(a, n, "style:page-layout-name"@)), next: mapu(av(a, n, "style:next-style-name"@)), header: h, header_first: h, header_left: h, footer: h, footer_first: h, footer_left: h } }
spec fn el_mp(m: Mp, n: Seq<char>, a: Seq<At>, s: Seq<Ev>) -> (Mp, Seq<Ev>) {
    let (h, q) = hf_of(a, s, n);
    if n == "style:header"@ { (Mp { header: h, ..m }, q) } else if n == "style:header-first"@ { (Mp { header_first: h, ..m }, q) } else if n == "style:header-left"@ { (Mp { header_left: h, ..m }, q) }
    else if n == "style:footer"@ { (Mp { footer: h, ..m }, q) } else if n == "style:footer-first"@ { (Mp { footer_first: h, ..m }, q) } else if n == "style:footer-left"@ { (Mp { footer_left: h, ..m }, q) }
    else { (m, s) }
}
spec fn rd_mp(m: Mp, r: Seq<Ev>) -> (Mp, Seq<Ev>) decreases r.len() via rd_mp_dec {
    if r.len() == 0 { (m, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => { let (g, q) = el_mp(m, n, a, s); rd_mp(g, q) },
            Ev::End(n) => if n == "style:master-page"@ { (m, s) } else { rd_mp(m, s) },
            Ev::Eof => (m, s),
            _ => rd_mp(m, s),
        }
    }
}
#[via_fn] proof fn rd_mp_dec(m: Mp, r: Seq<Ev>) { if r.len() > 0 { match r[0] { Ev::Start(n, a) => len_hf(hf0(a, a.len() as int), Seq::empty(), r.drop_first(), n), _ => {} } } }
proof fn len_mp(m: Mp, r: Seq<Ev>) ensures rd_mp(m, r).1.len() <= r.len() decreases r.len() { if r.len() > 0 { let s = r.drop_first(); match r[0] {
    Ev::Start(n, a) => { len_hf(hf0(a, a.len() as int), Seq::empty(), s, n); let (g, q) = el_mp(m, n, a, s); len_mp(g, q); }
    _ => len_mp(m, s) } } }
spec fn master_of(a: Seq<At>, empty: bool, r: Seq<Ev>) -> (Mp, Seq<Ev>) { let m = mp0(a, a.len() as int); if empty { (m, r) } else { rd_mp(m, r) } }
//@fn file=src/io/read.rs path=read_master_page attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml origin super_tag empty_tag
//@ret r
//@spec
    ensures r is Ok ==> ({ let (m, rest) = master_of(super_tag.at(), empty_tag, old(xml)@); final(xml)@ == rest && final(ctx).book.added() =~= old(ctx).book.added() + seq![Added::Master(m)] }),
//@at start
    let ghost xs = xml@; let ghost at = super_tag.at();
//@loop 0 it=it
    invariant it.seq().len() == vp_at@.len(), forall|i: int| 0 <= i < vp_at@.len() ==> *(#[trigger] it.seq()[i]) == vp_at@[i], ats(vp_at@) == super_tag.at(), *ctx == *old(ctx), master_v(masterpage) == mp0(super_tag.at(), it.index@ as int),
//@at loopstart 0
    proof { master_names(); assert(super_tag.at()[it.index@ as int] == attr.v()); }
//@loop 1
    invariant_except_break rd_mp(mp0(at, at.len() as int), xs) == rd_mp(master_v(masterpage), xml@),
    invariant *ctx == *old(ctx),
    ensures (master_v(masterpage), xml@) == rd_mp(mp0(at, at.len() as int), xs),
//@at loopstart 1
    proof { master_names(); }
//@end
// ------------------------------------------------------------------ a style of any family; the lists of styles
spec fn style_fam(f: Seq<char>, tag: Seq<char>, a: Seq<At>, empty: bool, o: StyleOrigin, u: StyleUse, r: Seq<Ev>) -> (Option<Style>, Seq<Ev>) {
    if f == "table"@ { style_tablestyle(tag, a, empty, o, u, r) } else if f == "table-column"@ { style_colstyle(tag, a, empty, o, u, r) } else if f == "table-row"@ { style_rowstyle(tag, a, empty, o, u, r) } else if f == "table-cell"@ { style_cellstyle(tag, a, empty, o, u, r) } else if f == "graphic"@ { style_graphicstyle(tag, a, empty, o, u, r) } else if f == "paragraph"@ { style_paragraphstyle(tag, a, empty, o, u, r) } else if f == "text"@ { style_textstyle(tag, a, empty, o, u, r) } else if f == "ruby"@ { style_rubystyle(tag, a, empty, o, u, r) } else { (None, r) }
}
/// the style, of the family that the attribute style:family names (after the first n attributes)
spec fn any_style(a: Seq<At>, n: int, tag: Seq<char>, empty: bool, o: StyleOrigin, u: StyleUse, r: Seq<Ev>) -> (Seq<Added>, Seq<Ev>) decreases n {
    if n <= 0 { (Seq::empty(), r) } else {
        let (l, q) = any_style(a, n - 1, tag, empty, o, u, r);
        if a[n - 1].key == "style:family"@ { let (s, q2) = style_fam(a[n - 1].raw, tag, a, empty, o, u, q); (l + opt(s), q2) } else { (l, q) }
    }
}
proof fn len_fam(f: Seq<char>, tag: Seq<char>, a: Seq<At>, empty: bool, o: StyleOrigin, u: StyleUse, r: Seq<Ev>) ensures style_fam(f, tag, a, empty, o, u, r).1.len() <= r.len() { len_tablestyle(sg0(), r, tag); len_colstyle(sg0(), r, tag); len_rowstyle(sg0(), r, tag); len_cellstyle(sg0(), r, tag); len_graphicstyle(sg0(), r, tag); len_paragraphstyle(sg0(), r, tag); len_textstyle(sg0(), r, tag); len_rubystyle(sg0(), r, tag); }
proof fn len_any(a: Seq<At>, n: int, tag: Seq<char>, empty: bool, o: StyleOrigin, u: StyleUse, r: Seq<Ev>) ensures any_style(a, n, tag, empty, o, u, r).1.len() <= r.len() decreases n { if n > 0 { len_any(a, n - 1, tag, empty, o, u, r); len_fam(a[n - 1].raw, tag, a, empty, o, u, any_style(a, n - 1, tag, empty, o, u, r).1); } }
spec fn style_list(a: Seq<At>, tag: Seq<char>, empty: bool, o: StyleOrigin, u: StyleUse, r: Seq<Ev>) -> (Seq<Added>, Seq<Ev>) { any_style(a, a.len() as int, tag, empty, o, u, r) }
//@fn file=src/io/read.rs path=read_style_style
//@params ctx xml origin style_use super_tag empty_tag
//@ret r
//@subst value => { return Err(OdsError::Ods(format!($x))); } ==> _ => { return Err(vp_err()); }
//@subst match vp_value(attr).as_ref() { $body } ==> match vp_value(attr) { $body }
//@spec
    requires is_style(super_tag.tag()),
    ensures r is Ok ==> ({ let (l, rest) = style_list(super_tag.at(), super_tag.tag(), empty_tag, origin, style_use, old(xml)@); final(xml)@ == rest && final(ctx).book.added() =~= old(ctx).book.added() + l }),
//@at start
    let ghost xs = xml@; let ghost l0 = ctx.book.added();
//@loop 0 it=it
    invariant it.seq().len() == vp_at@.len(), forall|i: int| 0 <= i < vp_at@.len() ==> *(#[trigger] it.seq()[i]) == vp_at@[i], ats(vp_at@) == super_tag.at(), true, is_style(super_tag.tag()), ({ let (l, rest) = any_style(super_tag.at(), it.index@ as int, super_tag.tag(), empty_tag, origin, style_use, xs); xml@ == rest && ctx.book.added() =~= l0 + l }),
//@at loopstart 0
    proof { family_names(); assert(super_tag.at()[it.index@ as int] == attr.v()); }
//@end
//@names ok list_names "style:style" "style:default-style" "style:page-layout" "style:master-page" "office:styles" "office:automatic-styles" "office:master-styles" "number:boolean-style" "number:date-style" "number:time-style" "number:number-style" "number:currency-style" "number:percentage-style" "number:text-style"
/// office:styles: one element; all elements up to the end
spec fn el_named(n: Seq<char>, a: Seq<At>, empty: bool, o: StyleOrigin, s: Seq<Ev>) -> (Seq<Added>, Seq<Ev>) { if n == "style:style"@ { style_list(a, n, empty, o, StyleUse::Named, s) } else if n == "style:default-style"@ { style_list(a, n, empty, o, StyleUse::Default, s) } else if is_format(n) { ({ let (g, q) = format_of(n, a, empty, o, StyleUse::Named, s); (seq![Added::Format(n, g)], q) }) } else { (Seq::empty(), s) } }
proof fn len_el_named(n: Seq<char>, a: Seq<At>, empty: bool, o: StyleOrigin, s: Seq<Ev>) ensures el_named(n, a, empty, o, s).1.len() <= s.len() { len_any(a, a.len() as int, n, empty, o, StyleUse::Named, s); len_any(a, a.len() as int, n, empty, o, StyleUse::Default, s); len_fmt(fmt0(n, a, o, StyleUse::Named), s, n); }
spec fn rd_named(l: Seq<Added>, o: StyleOrigin, r: Seq<Ev>) -> (Seq<Added>, Seq<Ev>) decreases r.len() via rd_named_dec {
    if r.len() == 0 { (l, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => { let (d, q) = el_named(n, a, false, o, s); rd_named(l + d, o, q) },
            Ev::Empty(n, a) => { let (d, q) = el_named(n, a, true, o, s); rd_named(l + d, o, q) },
            Ev::End(n) => if n == "office:styles"@ { (l, s) } else { rd_named(l, o, s) },
            Ev::Eof => (l, s),
            _ => rd_named(l, o, s),
        }
    }
}
#[via_fn] proof fn rd_named_dec(l: Seq<Added>, o: StyleOrigin, r: Seq<Ev>) { if r.len() > 0 { match r[0] { Ev::Start(n, a) => len_el_named(n, a, false, o, r.drop_first()), Ev::Empty(n, a) => len_el_named(n, a, true, o, r.drop_first()), _ => {} } } }
//@fn file=src/io/read.rs path=read_office_styles attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml origin
//@ret r
//@spec
    ensures r is Ok ==> (final(ctx).book.added(), final(xml)@) == rd_named(old(ctx).book.added(), origin, old(xml)@),
//@at start
    let ghost xs = xml@; let ghost l0 = ctx.book.added();
//@loop 0
    invariant_except_break rd_named(l0, origin, xs) == rd_named(ctx.book.added(), origin, xml@),
    ensures (ctx.book.added(), xml@) == rd_named(l0, origin, xs),
//@at loopstart 0
    let ghost xl = xml@; let ghost ll = ctx.book.added();
    proof { list_names(); }
//@at loopend 0
    proof { if xl.len() > 0 { match xl[0] { Ev::Start(n, a) => assert(ctx.book.added() =~= ll + el_named(n, a, false, origin, xl.drop_first()).0), Ev::Empty(n, a) => assert(ctx.book.added() =~= ll + el_named(n, a, true, origin, xl.drop_first()).0), _ => {} } } }
//@end
/// office:automatic-styles: one element; all elements up to the end
spec fn el_auto(n: Seq<char>, a: Seq<At>, empty: bool, o: StyleOrigin, s: Seq<Ev>) -> (Seq<Added>, Seq<Ev>) { if n == "style:style"@ { style_list(a, n, empty, o, StyleUse::Automatic, s) } else if is_format(n) { ({ let (g, q) = format_of(n, a, empty, o, StyleUse::Automatic, s); (seq![Added::Format(n, g)], q) }) } else if n == "style:page-layout"@ { ({ let (p, q) = page_of(a, empty, s); (seq![Added::Page(p)], q) }) } else { (Seq::empty(), s) } }
proof fn len_el_auto(n: Seq<char>, a: Seq<At>, empty: bool, o: StyleOrigin, s: Seq<Ev>) ensures el_auto(n, a, empty, o, s).1.len() <= s.len() { len_any(a, a.len() as int, n, empty, o, StyleUse::Automatic, s); len_fmt(fmt0(n, a, o, StyleUse::Automatic), s, n); len_page(page0(a, a.len() as int), false, false, s); }
spec fn rd_auto(l: Seq<Added>, o: StyleOrigin, r: Seq<Ev>) -> (Seq<Added>, Seq<Ev>) decreases r.len() via rd_auto_dec {
    if r.len() == 0 { (l, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => { let (d, q) = el_auto(n, a, false, o, s); rd_auto(l + d, o, q) },
            Ev::Empty(n, a) => { let (d, q) = el_auto(n, a, true, o, s); rd_auto(l + d, o, q) },
            Ev::End(n) => if n == "office:automatic-styles"@ { (l, s) } else { rd_auto(l, o, s) },
            Ev::Eof => (l, s),
            _ => rd_auto(l, o, s),
        }
    }
}
#[via_fn] proof fn rd_auto_dec(l: Seq<Added>, o: StyleOrigin, r: Seq<Ev>) { if r.len() > 0 { match r[0] { Ev::Start(n, a) => len_el_auto(n, a, false, o, r.drop_first()), Ev::Empty(n, a) => len_el_auto(n, a, true, o, r.drop_first()), _ => {} } } }
//@fn file=src/io/read.rs path=read_office_automatic_styles attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml origin
//@ret r
//@spec
    ensures r is Ok ==> (final(ctx).book.added(), final(xml)@) == rd_auto(old(ctx).book.added(), origin, old(xml)@),
//@at start
    let ghost xs = xml@; let ghost l0 = ctx.book.added();
//@loop 0
    invariant_except_break rd_auto(l0, origin, xs) == rd_auto(ctx.book.added(), origin, xml@),
    ensures (ctx.book.added(), xml@) == rd_auto(l0, origin, xs),
//@at loopstart 0
    let ghost xl = xml@; let ghost ll = ctx.book.added();
    proof { list_names(); }
//@at loopend 0
    proof { if xl.len() > 0 { match xl[0] { Ev::Start(n, a) => assert(ctx.book.added() =~= ll + el_auto(n, a, false, origin, xl.drop_first()).0), Ev::Empty(n, a) => assert(ctx.book.added() =~= ll + el_auto(n, a, true, origin, xl.drop_first()).0), _ => {} } } }
//@end
/// office:master-styles: one element; all elements up to the end
spec fn el_masters(n: Seq<char>, a: Seq<At>, empty: bool, o: StyleOrigin, s: Seq<Ev>) -> (Seq<Added>, Seq<Ev>) { if n == "style:master-page"@ { ({ let (m, q) = master_of(a, empty, s); (seq![Added::Master(m)], q) }) } else { (Seq::empty(), s) } }
proof fn len_el_masters(n: Seq<char>, a: Seq<At>, empty: bool, o: StyleOrigin, s: Seq<Ev>) ensures el_masters(n, a, empty, o, s).1.len() <= s.len() { len_mp(mp0(a, a.len() as int), s); }
spec fn rd_masters(l: Seq<Added>, o: StyleOrigin, r: Seq<Ev>) -> (Seq<Added>, Seq<Ev>) decreases r.len() via rd_masters_dec {
    if r.len() == 0 { (l, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => { let (d, q) = el_masters(n, a, false, o, s); rd_masters(l + d, o, q) },
            Ev::Empty(n, a) => { let (d, q) = el_masters(n, a, true, o, s); rd_masters(l + d, o, q) },
            Ev::End(n) => if n == "office:master-styles"@ { (l, s) } else { rd_masters(l, o, s) },
            Ev::Eof => (l, s),
            _ => rd_masters(l, o, s),
        }
    }
}
#[via_fn] proof fn rd_masters_dec(l: Seq<Added>, o: StyleOrigin, r: Seq<Ev>) { if r.len() > 0 { match r[0] { Ev::Start(n, a) => len_el_masters(n, a, false, o, r.drop_first()), Ev::Empty(n, a) => len_el_masters(n, a, true, o, r.drop_first()), _ => {} } } }
//@fn file=src/io/read.rs path=read_office_master_styles attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml origin
//@ret r
//@spec
    ensures r is Ok ==> (final(ctx).book.added(), final(xml)@) == rd_masters(old(ctx).book.added(), origin, old(xml)@),
//@at start
    let ghost xs = xml@; let ghost l0 = ctx.book.added();
//@loop 0
    invariant_except_break rd_masters(l0, origin, xs) == rd_masters(ctx.book.added(), origin, xml@),
    ensures (ctx.book.added(), xml@) == rd_masters(l0, origin, xs),
//@at loopstart 0
    let ghost xl = xml@; let ghost ll = ctx.book.added();
    proof { list_names(); }
//@at loopend 0
    proof { if xl.len() > 0 { match xl[0] { Ev::Start(n, a) => assert(ctx.book.added() =~= ll + el_masters(n, a, false, origin, xl.drop_first()).0), Ev::Empty(n, a) => assert(ctx.book.added() =~= ll + el_masters(n, a, true, origin, xl.drop_first()).0), _ => {} } } }
//@end
} // verus!
fn main() {}
