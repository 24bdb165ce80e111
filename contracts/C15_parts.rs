//@include pre.rs
// C15: the parts of a workbook beside the cells: metadata, settings, validations, scripts, fonts, annotations, frames.
verus! {
global size_of usize == 8;
//@include tokw.inc.rs
//@include xmltag.inc.rs
// ------------------------------------------------------------------ trusted parts
#[verifier::external_body] #[derive(Clone, Copy)] struct NaiveDateTime {}
#[verifier::external_body] #[derive(Clone, Copy)] struct Duration {}
uninterp spec fn secs(d: Duration) -> int;
impl Duration { #[verifier::external_body] fn num_seconds(&self) -> (r: i64) ensures r == secs(*self) { unimplemented!() } }
uninterp spec fn dttext(d: NaiveDateTime) -> Seq<char>;
uninterp spec fn durtext(d: Duration) -> Seq<char>;
// contracts of unit C09_text; both write digits and the letters P Y M D T H S : - . only
#[verifier::external_body] fn format_datetime(v: NaiveDateTime) -> (r: String) ensures r@ == dttext(v), nospecial(r@) { unimplemented!() }
#[verifier::external_body] fn format_duration2(v: Duration) -> (r: String) ensures r@ == durtext(v), nospecial(r@) { unimplemented!() }
#[derive(Clone, Copy)]
//@struct file=src/xlink.rs name=XLinkActuate
//@end
#[derive(Clone, Copy)]
//@struct file=src/xlink.rs name=XLinkShow
//@end
#[derive(Clone, Copy)]
//@struct file=src/xlink.rs name=XLinkType
//@end
uninterp spec fn word_actuate(v: XLinkActuate) -> Seq<char>;
uninterp spec fn word_show(v: XLinkShow) -> Seq<char>;
uninterp spec fn word_type(v: XLinkType) -> Seq<char>;
impl Shown for XLinkActuate { spec fn shown(&self) -> Seq<char> { word_actuate(*self) } spec fn plain(&self) -> bool { true } }
impl Shown for XLinkShow { spec fn shown(&self) -> Seq<char> { word_show(*self) } spec fn plain(&self) -> bool { true } }
impl Shown for XLinkType { spec fn shown(&self) -> Seq<char> { word_type(*self) } spec fn plain(&self) -> bool { true } }
//@include hashv.inc.rs
//@gsubst panic!($x) ==> { vp_panic(); }
//@gsubst panic!() ==> { vp_panic(); }
//@gsubst unreachable!() ==> { vp_panic() }
#[verifier::external_body] fn vp_panic() ensures false { unimplemented!() }
#[verifier::external_body] fn vp_unbox(o: &Option<Box<TextTag>>) -> (r: Option<&TextTag>) ensures match (r, *o) { (Some(a), Some(b)) => *a == *b, (None, None) => true, _ => false } { unimplemented!() }
#[verifier::external_body] fn vp_ostr(o: &Option<String>) -> (r: Option<&str>) ensures match (r, *o) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false } { unimplemented!() }
// ------------------------------------------------------------------ validations
#[verifier::external_body] struct Condition {}
#[verifier::external_body] struct CellRef {}
uninterp spec fn condtext(c: Condition) -> Seq<char>;
uninterp spec fn celltext(c: CellRef) -> Seq<char>;
impl Shown for CellRef { spec fn shown(&self) -> Seq<char> { celltext(*self) } spec fn plain(&self) -> bool { false } }
// trusted: "of:" and the condition
#[verifier::external_body] fn format_validation_condition(v: &Validation) -> (r: String) ensures r@ == "of:"@ + condtext(v.condition) { unimplemented!() }
#[derive(Clone, Copy)]
//@struct file=src/validation.rs name=ValidationDisplay
//@end
#[derive(Clone, Copy)]
//@struct file=src/validation.rs name=MessageType
//@end
//@struct file=src/validation.rs name=ValidationHelp
//@end
//@struct file=src/validation.rs name=ValidationError
//@end
//@struct file=src/validation.rs name=Validation
//@end
struct ValidationRef { id: String }
spec fn word_msg(m: MessageType) -> Seq<char> { match m { MessageType::Error => "stop"@, MessageType::Warning => "warning"@, MessageType::Info => "information"@ } }
spec fn word_list(m: ValidationDisplay) -> Seq<char> { match m { ValidationDisplay::NoDisplay => "none"@, ValidationDisplay::Unsorted => "unsorted"@, ValidationDisplay::SortAscending => "sort-ascending"@ } }
impl Shown for MessageType { spec fn shown(&self) -> Seq<char> { word_msg(*self) } spec fn plain(&self) -> bool { true } }
impl ValidationHelp {
//@fn file=src/validation.rs path=ValidationHelp::display
//@ret r
//@spec
    ensures r == self.display,
//@end
//@fn file=src/validation.rs path=ValidationHelp::title
//@ret r
//@subst self.title.as_deref() ==> vp_ostr(&self.title)
//@spec
    ensures match (r, self.title) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false },
//@end
//@fn file=src/validation.rs path=ValidationHelp::text
//@ret r
//@subst self.text.as_deref() ==> vp_unbox(&self.text)
//@spec
    ensures match (r, self.text) { (Some(a), Some(b)) => *a == *b, (None, None) => true, _ => false },
//@end
//@fn file=src/validation.rs path=ValidationHelp::set_display
//@params display
//@spec
    ensures *final(self) == (ValidationHelp { display, ..*old(self) }),
//@end
//@fn file=src/validation.rs path=ValidationHelp::set_title
//@params title
//@spec
    ensures *final(self) == (ValidationHelp { title, ..*old(self) }),
//@end
//@fn file=src/validation.rs path=ValidationHelp::set_text
//@params text
//@spec
    ensures final(self).display == old(self).display, final(self).title == old(self).title, match (final(self).text, text) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false },
//@end
}
impl ValidationError {
//@fn file=src/validation.rs path=ValidationError::display
//@ret r
//@spec
    ensures r == self.display,
//@end
//@fn file=src/validation.rs path=ValidationError::msg_type
//@ret r
//@spec
    ensures *r == self.msg_type,
//@end
//@fn file=src/validation.rs path=ValidationError::title
//@ret r
//@subst self.title.as_deref() ==> vp_ostr(&self.title)
//@spec
    ensures match (r, self.title) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false },
//@end
//@fn file=src/validation.rs path=ValidationError::text
//@ret r
//@subst self.text.as_deref() ==> vp_unbox(&self.text)
//@spec
    ensures match (r, self.text) { (Some(a), Some(b)) => *a == *b, (None, None) => true, _ => false },
//@end
//@fn file=src/validation.rs path=ValidationError::set_display
//@params display
//@spec
    ensures *final(self) == (ValidationError { display, ..*old(self) }),
//@end
//@fn file=src/validation.rs path=ValidationError::set_msg_type
//@params msg_type
//@spec
    ensures *final(self) == (ValidationError { msg_type, ..*old(self) }),
//@end
//@fn file=src/validation.rs path=ValidationError::set_title
//@params title
//@spec
    ensures *final(self) == (ValidationError { title, ..*old(self) }),
//@end
//@fn file=src/validation.rs path=ValidationError::set_text
//@params text
//@spec
    ensures final(self).display == old(self).display, final(self).msg_type == old(self).msg_type, final(self).title == old(self).title, match (final(self).text, text) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false },
//@end
}
impl Validation {
//@fn file=src/validation.rs path=Validation::name
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/validation.rs path=Validation::condition
//@ret r
//@spec
    ensures *r == self.condition,
//@end
//@fn file=src/validation.rs path=Validation::base_cell
//@ret r
//@spec
    ensures *r == self.base_cell,
//@end
//@fn file=src/validation.rs path=Validation::allow_empty
//@ret r
//@spec
    ensures r == self.allow_empty,
//@end
//@fn file=src/validation.rs path=Validation::display
//@ret r
//@spec
    ensures r == self.display_list,
//@end
//@fn file=src/validation.rs path=Validation::err
//@ret r
//@spec
    ensures match (r, self.err) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false },
//@end
//@fn file=src/validation.rs path=Validation::help
//@ret r
//@spec
    ensures match (r, self.help) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false },
//@end
//@fn file=src/validation.rs path=Validation::set_condition
//@params cond
//@spec
    ensures *final(self) == (Validation { condition: cond, ..*old(self) }),
//@end
//@fn file=src/validation.rs path=Validation::set_base_cell
//@params base
//@spec
    ensures *final(self) == (Validation { base_cell: base, ..*old(self) }),
//@end
//@fn file=src/validation.rs path=Validation::set_allow_empty
//@params allow
//@spec
    ensures *final(self) == (Validation { allow_empty: allow, ..*old(self) }),
//@end
//@fn file=src/validation.rs path=Validation::set_display
//@params display
//@spec
    ensures *final(self) == (Validation { display_list: display, ..*old(self) }),
//@end
//@fn file=src/validation.rs path=Validation::set_err
//@params err
//@spec
    ensures *final(self) == (Validation { err: err, ..*old(self) }),
//@end
//@fn file=src/validation.rs path=Validation::set_help
//@params help
//@spec
    ensures *final(self) == (Validation { help: help, ..*old(self) }),
//@end
}
spec fn w_vtext(w: W, t: XmlTag) -> W { if t.name@ == "table:error-message"@ || t.name@ == "table:help-message"@ { w_cons(w, t.content, t.content@.len()) } else { w_tag(w, t) } }
spec fn w_verr(w: W, e: ValidationError) -> W
{
    let has = e.text is Some;
    let w1 = w_oattr(w_attr(w_attr(w_if(w, has, "table:error-message"@), "table:display"@, btext(e.display)), "table:message-type"@, word_msg(e.msg_type)), "table:title"@, otext(e.title));
    w_end_if(match e.text { Some(t) => w_vtext(w1, *t), None => w1 }, has, "table:error-message"@)
}
spec fn w_vhelp(w: W, e: ValidationHelp) -> W
{
    let has = e.text is Some;
    let w1 = w_oattr(w_attr(w_if(w, has, "table:help-message"@), "table:display"@, btext(e.display)), "table:title"@, otext(e.title));
    w_end_if(match e.text { Some(t) => w_vtext(w1, *t), None => w1 }, has, "table:help-message"@)
}
#[verifier::opaque]
spec fn w_v0(w: W, v: Validation) -> W
{ w_attr(w_attr(w_attr(w_attr(w_attr(w_open(w, "table:content-validation"@), "table:name"@, v.name@), "table:condition"@, "of:"@ + condtext(v.condition)), "table:allow-empty-cell"@, btext(v.allow_empty)), "table:display-list"@, word_list(v.display_list)), "table:base-cell-address"@, celltext(v.base_cell)) }
#[verifier::opaque]
spec fn w_v1(w: W, v: Validation) -> W { match v.err { Some(e) => w_verr(w_v0(w, v), e), None => w_v0(w, v) } }
#[verifier::opaque]
spec fn w_v2(w: W, v: Validation) -> W { match v.help { Some(e) => w_vhelp(w_v1(w, v), e), None => w_v1(w, v) } }
spec fn w_validation(w: W, v: Validation) -> W { w_end(w_v2(w, v), "table:content-validation"@) }
spec fn w_validations(w: W, vs: Seq<Validation>, n: nat) -> W decreases n { if n == 0 { w } else { w_validation(w_validations(w, vs, (n - 1) as nat), vs[n - 1]) } }
//@fn file=src/io/write.rs path=write_validation_text
//@params text, xml_out
//@ret r
//@subst match text.name() { "table:error-message" | "table:help-message" => { $body } _ => $e, } ==> if vp_is(text.name(), "table:error-message") || vp_is(text.name(), "table:help-message") { $body } else { $e }
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_vtext(old(xml_out)@, *text) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@;
//@loop 0 it=it
    invariant it.seq().len() == text.content@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == text.content@[i],
        xml_out@ == w_cons(w0, text.content, it.index@ as nat), xml_out@.stack == w0.stack,
//@at loopstart 0
    proof { let i = it.index@ as nat; assert(w_cons(w0, text.content, i + 1) == w_con(w_cons(w0, text.content, i), text.content@[i as int])); }
//@end
#[verifier::external_body] fn vp_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
//@struct file=src/workbook_.rs name=WorkBook
//@keep sheets, version, scripts, event_listener, validations, fonts, metadata, config, manifest
//@end
impl WorkBook {
//@fn file=src/workbook_.rs path=WorkBook::version
//@ret r
//@spec
    ensures *r == self.version,
//@end
}
#[verifier::external_body] struct CellData {}
//@struct file=src/sheet_.rs name=Sheet
//@keep data
//@subst BTreeMap<(u32, u32), CellData> ==> std::collections::BTreeMap<(u32, u32), CellData>
//@end
//@struct file=src/ds/detach.rs name=Detach
//@end
impl<T> Detach<T> {
//@fn file=src/ds/detach.rs path=Detach::as_ref
//@ret r
//@spec
    requires self.val is Some,
    ensures *r == *self.val->Some_0,
//@end
}
//@fn file=src/io/write.rs path=write_content_validations attr=verifier::rlimit(40)
//@params book, xml_out
//@ret r
//@subst xml_out.attr_str("table:allow-empty-cell", $x,) ==> xml_out.attr_str("table:allow-empty-cell", $x)
//@spec
    ensures r is Ok ==> final(xml_out)@ == (if vals(book.validations).len() == 0 { old(xml_out)@ } else { w_end(w_validations(w_open(old(xml_out)@, "table:content-validations"@), vals(book.validations), vals(book.validations).len()), "table:content-validations"@) }) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost vs = vals(book.validations); let ghost w1 = w_open(w0, "table:content-validations"@);
//@loop 0 it=it
    invariant vs == vals(book.validations), it.seq().len() == vs.len(), forall|i: int| 0 <= i < it.seq().len() ==> **(#[trigger] it.seq()[i]) == vs[i],
        xml_out@ == w_validations(w1, vs, it.index@ as nat), xml_out@.stack == w1.stack,
//@at loopstart 0
    let ghost w2 = xml_out@; let ghost i = it.index@;
    proof { reveal(w_v0); }
//@at before 0 if let Some(err) = valid.err()
    assert(xml_out@ == w_v0(w2, vs[i]) && xml_out@.stack == w2.stack.push("table:content-validation"@)) by { reveal(w_v0); }
//@at before 0 if let Some(err) = valid.help()
    assert(xml_out@ == w_v1(w2, vs[i]) && xml_out@.stack == w2.stack.push("table:content-validation"@)) by { reveal(w_v1); }
//@at before 0 xml_out.end_elem("table:content-validation")
    assert(xml_out@ == w_v2(w2, vs[i]) && xml_out@.stack == w2.stack.push("table:content-validation"@)) by { reveal(w_v2); }
//@end
// ------------------------------------------------------------------ scripts, events, fonts
//@struct file=src/workbook_.rs name=Script
//@end
//@struct file=src/workbook_.rs name=EventListener
//@end
spec fn w_script(w: W, x: Script) -> W { w_end(w_cons(w_attr(w_open(w, "office:script"@), "script:language"@, x.script_lang@), x.script, x.script@.len()), "office:script"@) }
spec fn w_scripts(w: W, v: Seq<Script>, n: nat) -> W decreases n { if n == 0 { w } else { w_script(w_scripts(w, v, (n - 1) as nat), v[n - 1]) } }
spec fn w_event(w: W, e: EventListener) -> W
{ w_attr(w_attr(w_attr(w_attr(w_attr(w_attr(w_empty(w, "script:event-listener"@), "script:event-name"@, e.event_name@), "script:language"@, e.script_lang@), "script:macro-name"@, e.macro_name@), "xlink:actuate"@, word_actuate(e.actuate)), "xlink:href"@, e.href@), "xlink:type"@, word_type(e.link_type)) }
spec fn w_events(w: W, v: Seq<EventListener>, n: nat) -> W decreases n { if n == 0 { w } else { w_event(w_events(w, v, (n - 1) as nat), v[n - 1]) } }
//@fn file=src/io/write.rs path=write_scripts
//@params scripts, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_scripts(old(xml_out)@, scripts@, scripts@.len()) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@;
//@loop 0 it=it
    invariant it.seq().len() == scripts@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == scripts@[i],
        xml_out@ == w_scripts(w0, scripts@, it.index@ as nat), xml_out@.stack == w0.stack,
//@at loopstart 0
    let ghost w1 = w_attr(w_open(xml_out@, "office:script"@), "script:language"@, script.script_lang@);
//@loop 1 it=it2
    invariant it2.seq().len() == script.script@.len(), forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == script.script@[i],
        xml_out@ == w_cons(w1, script.script, it2.index@ as nat), xml_out@.stack == w1.stack, w1.stack == w0.stack.push("office:script"@),
//@at loopstart 1
    proof { let i = it2.index@ as nat; assert(w_cons(w1, script.script, i + 1) == w_con(w_cons(w1, script.script, i), script.script@[i as int])); }
//@end
//@fn file=src/io/write.rs path=write_event_listeners
//@params events, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_events(old(xml_out)@, vals(*events), vals(*events).len()) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost vs = vals(*events);
//@loop 0 it=it
    invariant vs == vals(*events), it.seq().len() == vs.len(), forall|i: int| 0 <= i < it.seq().len() ==> **(#[trigger] it.seq()[i]) == vs[i],
        xml_out@ == w_events(w0, vs, it.index@ as nat), xml_out@.stack == w0.stack,
//@end
//@fn file=src/io/write.rs path=write_office_scripts
//@params book, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == ({ let has = book.scripts@.len() > 0 || vals(book.event_listener).len() > 0; w_end_if(w_events(w_scripts(w_if(old(xml_out)@, has, "office:scripts"@), book.scripts@, book.scripts@.len()), vals(book.event_listener), vals(book.event_listener).len()), has, "office:scripts"@) }) && final(xml_out)@.stack == old(xml_out)@.stack,
//@end
#[derive(Clone, Copy)]
//@struct file=src/style/mod.rs name=StyleOrigin
//@end
#[verifier::external_body] fn vp_same(a: StyleOrigin, b: StyleOrigin) -> (r: bool) ensures r == (a == b) { unimplemented!() }
//@struct file=src/style/fontface.rs name=FontFaceDecl
//@end
impl FontFaceDecl {
//@fn file=src/style/fontface.rs path=FontFaceDecl::origin
//@ret r
//@spec
    ensures r == self.origin,
//@end
//@fn file=src/style/fontface.rs path=FontFaceDecl::name
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/style/fontface.rs path=FontFaceDecl::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
}
spec fn w_font(w: W, f: FontFaceDecl, o: StyleOrigin) -> W { if f.origin == o { w_amap(w_attr(w_empty(w, "style:font-face"@), "style:name"@, f.name@), f.attr) } else { w } }
spec fn w_fonts(w: W, v: Seq<FontFaceDecl>, o: StyleOrigin, n: nat) -> W decreases n { if n == 0 { w } else { w_font(w_fonts(w, v, o, (n - 1) as nat), v[n - 1], o) } }
//@fn file=src/io/write.rs path=write_style_font_face
//@params fonts, origin, xml_out
//@ret r
//@subst $ids.origin() == origin ==> vp_same($ids.origin(), origin)
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_fonts(old(xml_out)@, vals(*fonts), origin, vals(*fonts).len()) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost vs = vals(*fonts);
//@loop 0 it=it
    invariant vs == vals(*fonts), it.seq().len() == vs.len(), forall|i: int| 0 <= i < it.seq().len() ==> **(#[trigger] it.seq()[i]) == vs[i],
        xml_out@ == w_fonts(w0, vs, origin, it.index@ as nat), xml_out@.stack == w0.stack,
//@at loopstart 0
    let ghost ff = vs[it.index@]; let ghost w1 = w_attr(w_empty(xml_out@, "style:font-face"@), "style:name"@, ff.name@);
//@loop 1 it=it2
    invariant it2.seq().len() == ff.attr.keys@.len(), forall|i: int| 0 <= i < it2.seq().len() ==> (#[trigger] it2.seq()[i]).0@ == ff.attr.keys@[i]@ && it2.seq()[i].1@ == ff.attr.values@[i]@,
        xml_out@ == w_attrs(w1, ff.attr, it2.index@ as nat), xml_out@.cur is Some, xml_out@.stack == w0.stack,
//@end
//@fn file=src/io/write.rs path=write_office_font_face_decls
//@params book, origin, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == ({ let has = vals(book.fonts).len() > 0; w_end_if(w_fonts(w_if(old(xml_out)@, has, "office:font-face-decls"@), vals(book.fonts), origin, vals(book.fonts).len()), has, "office:font-face-decls"@) }) && final(xml_out)@.stack == old(xml_out)@.stack,
//@end
// ------------------------------------------------------------------ annotations and frames
//@struct file=src/draw.rs name=Annotation
//@end
//@struct file=src/draw.rs name=DrawFrame
//@end
//@struct file=src/draw.rs name=DrawFrameContent
//@end
//@struct file=src/draw.rs name=DrawImage
//@end
impl Annotation {
//@fn file=src/draw.rs path=Annotation::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/draw.rs path=Annotation::name
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/draw.rs path=Annotation::display
//@ret r
//@spec
    ensures r == self.display,
//@end
//@fn file=src/draw.rs path=Annotation::creator
//@ret r
//@spec
    ensures match (r, self.creator) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false },
//@end
//@fn file=src/draw.rs path=Annotation::date
//@ret r
//@spec
    ensures match (r, self.date) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false },
//@end
//@fn file=src/draw.rs path=Annotation::text
//@ret r
//@spec
    ensures *r == self.text,
//@end
//@fn file=src/draw.rs path=Annotation::set_display
//@params display
//@spec
    ensures *final(self) == (Annotation { display: display, ..*old(self) }),
//@end
//@fn file=src/draw.rs path=Annotation::set_date
//@params date
//@spec
    ensures *final(self) == (Annotation { date: date, ..*old(self) }),
//@end
//@fn file=src/draw.rs path=Annotation::set_text
//@params text
//@spec
    ensures *final(self) == (Annotation { text: text, ..*old(self) }),
//@end
//@fn file=src/draw.rs path=Annotation::push_text
//@params text
//@spec
    ensures final(self).text@ == old(self).text@.push(text), *final(self) == (Annotation { text: final(self).text, ..*old(self) }),
//@end
}
impl DrawFrame {
//@fn file=src/draw.rs path=DrawFrame::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/draw.rs path=DrawFrame::desc
//@ret r
//@spec
    ensures match (r, self.desc) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false },
//@end
//@fn file=src/draw.rs path=DrawFrame::title
//@ret r
//@spec
    ensures match (r, self.title) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false },
//@end
//@fn file=src/draw.rs path=DrawFrame::content_ref
//@ret r
//@spec
    ensures *r == self.content,
//@end
//@fn file=src/draw.rs path=DrawFrame::set_content
//@params content
//@spec
    ensures *final(self) == (DrawFrame { content, ..*old(self) }),
//@end
//@fn file=src/draw.rs path=DrawFrame::push_content
//@params content
//@spec
    ensures final(self).content@ == old(self).content@.push(content), *final(self) == (DrawFrame { content: final(self).content, ..*old(self) }),
//@end
//@fn file=src/draw.rs path=DrawFrame::clear_desc
//@spec
    ensures *final(self) == (DrawFrame { desc: None, ..*old(self) }),
//@end
//@fn file=src/draw.rs path=DrawFrame::clear_title
//@spec
    ensures *final(self) == (DrawFrame { title: None, ..*old(self) }),
//@end
}
impl DrawImage {
//@fn file=src/draw.rs path=DrawImage::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/draw.rs path=DrawImage::get_binary_base64
//@ret r
//@spec
    ensures match (r, self.binary_data) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false },
//@end
//@fn file=src/draw.rs path=DrawImage::get_text
//@ret r
//@spec
    ensures *r == self.text,
//@end
}
spec fn w_image(w: W, d: DrawImage) -> W
{ w_end(w_tags(w_oleaf(w_amap(w_open(w, "draw:image"@), d.attr), "office:binary-data"@, otext(d.binary_data)), d.text@, d.text@.len()), "draw:image"@) }
spec fn w_fcon(w: W, c: DrawFrameContent) -> W { match c { DrawFrameContent::Image(d) => w_image(w, d) } }
spec fn w_fcons(w: W, v: Seq<DrawFrameContent>, n: nat) -> W decreases n { if n == 0 { w } else { w_fcon(w_fcons(w, v, (n - 1) as nat), v[n - 1]) } }
spec fn w_frame(w: W, f: DrawFrame) -> W
{ w_end(w_oleaf(w_oleaf(w_fcons(w_amap(w_open(w, "draw:frame"@), f.attr), f.content@, f.content@.len()), "svg:desc"@, otext(f.desc)), "svg:title"@, otext(f.title)), "draw:frame"@) }
spec fn w_note(w: W, a: Annotation) -> W
{
    let w1 = w_amap(w_attr(w_attr(w_open(w, "office:annotation"@), "office:display"@, btext(a.display)), "office:name"@, a.name@), a.attr);
    let w2 = w_oleaf(w_oleaf(w1, "dc:creator"@, otext(a.creator)), "dc:date"@, match a.date { Some(d) => Some(dttext(d)), None => None });
    w_end(w_tags(w2, a.text@, a.text@.len()), "office:annotation"@)
}
//@fn file=src/io/write.rs path=write_draw_image
//@params draw_image, xml_out
//@ret r
//@spec
    requires draw_image.binary_data is Some ==> nospecial(draw_image.binary_data->Some_0@),
    ensures r is Ok ==> final(xml_out)@ == w_image(old(xml_out)@, *draw_image) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost w1 = w_open(w0, "draw:image"@); let ghost w2 = w_oleaf(w_amap(w1, draw_image.attr), "office:binary-data"@, otext(draw_image.binary_data));
//@loop 0 it=it
    invariant it.seq().len() == draw_image.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == draw_image.attr.keys@[i]@ && it.seq()[i].1@ == draw_image.attr.values@[i]@,
        xml_out@ == w_attrs(w1, draw_image.attr, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == w1.stack,
//@loop 1 it=it2
    invariant it2.seq().len() == draw_image.text@.len(), forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == draw_image.text@[i],
        xml_out@ == w_tags(w2, draw_image.text@, it2.index@ as nat), xml_out@.stack == w1.stack,
//@end
//@fn file=src/io/write.rs path=write_draw_frame
//@params draw_frame, xml_out
//@ret r
//@spec
    requires forall|i: int| 0 <= i < draw_frame.content@.len() ==> b64_frame(#[trigger] draw_frame.content@[i]),
    ensures r is Ok ==> final(xml_out)@ == w_frame(old(xml_out)@, *draw_frame) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost w1 = w_open(w0, "draw:frame"@); let ghost w2 = w_amap(w1, draw_frame.attr);
//@loop 0 it=it
    invariant it.seq().len() == draw_frame.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == draw_frame.attr.keys@[i]@ && it.seq()[i].1@ == draw_frame.attr.values@[i]@,
        xml_out@ == w_attrs(w1, draw_frame.attr, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == w1.stack,
//@loop 1 it=it2
    invariant it2.seq().len() == draw_frame.content@.len(), forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == draw_frame.content@[i],
        forall|i: int| 0 <= i < draw_frame.content@.len() ==> b64_frame(#[trigger] draw_frame.content@[i]),
        xml_out@ == w_fcons(w2, draw_frame.content@, it2.index@ as nat), xml_out@.stack == w1.stack,
//@end
/// what is given as base64 is base64 (set_binary_base64 asks for it)
spec fn b64_frame(c: DrawFrameContent) -> bool { match c { DrawFrameContent::Image(d) => d.binary_data is Some ==> nospecial(d.binary_data->Some_0@) } }
//@fn file=src/io/write.rs path=write_annotation
//@params annotation, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_note(old(xml_out)@, *annotation) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost a = *annotation; let ghost w0 = xml_out@; let ghost w1 = w_attr(w_attr(w_open(w0, "office:annotation"@), "office:display"@, btext(a.display)), "office:name"@, a.name@);
    let ghost w2 = w_oleaf(w_oleaf(w_amap(w1, a.attr), "dc:creator"@, otext(a.creator)), "dc:date"@, match a.date { Some(d) => Some(dttext(d)), None => None });
//@loop 0 it=it
    invariant it.seq().len() == a.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == a.attr.keys@[i]@ && it.seq()[i].1@ == a.attr.values@[i]@,
        xml_out@ == w_attrs(w1, a.attr, it.index@ as nat), xml_out@.cur is Some, xml_out@.stack == w1.stack,
//@loop 1 it=it2
    invariant it2.seq().len() == a.text@.len(), forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == a.text@[i],
        xml_out@ == w_tags(w2, a.text@, it2.index@ as nat), xml_out@.stack == w1.stack,
//@end
// ------------------------------------------------------------------ the manifest
//@struct file=src/manifest.rs name=Manifest
//@end
spec fn w_entry(w: W, m: Manifest) -> W { w_attr(w_oattr(w_attr(w_empty(w, "manifest:file-entry"@), "manifest:full-path"@, m.full_path@), "manifest:version"@, otext(m.version)), "manifest:media-type"@, m.media_type@) }
spec fn w_entries(w: W, v: Seq<Manifest>, n: nat) -> W decreases n { if n == 0 { w } else { w_entry(w_entries(w, v, (n - 1) as nat), v[n - 1]) } }
//@fn file=src/io/write.rs path=write_ods_manifest
//@params book, xml_out
//@ret r
//@spec
    requires old(xml_out)@ == (W { done: Seq::empty(), cur: None, stack: Seq::empty() }),
    ensures r is Ok ==> final(xml_out)@ == w_end(w_entries(w_attr(w_attr(w_open(old(xml_out)@, "manifest:manifest"@), "xmlns:manifest"@, "urn:oasis:names:tc:opendocument:xmlns:manifest:1.0"@), "manifest:version"@, book.version@), vals(book.manifest), vals(book.manifest).len()), "manifest:manifest"@),
//@at start
    let ghost w0 = xml_out@; let ghost vs = vals(book.manifest);
    let ghost w1 = w_attr(w_attr(w_open(w0, "manifest:manifest"@), "xmlns:manifest"@, "urn:oasis:names:tc:opendocument:xmlns:manifest:1.0"@), "manifest:version"@, book.version@);
//@loop 0 it=it
    invariant vs == vals(book.manifest), it.seq().len() == vs.len(), forall|i: int| 0 <= i < it.seq().len() ==> **(#[trigger] it.seq()[i]) == vs[i],
        xml_out@ == w_entries(w1, vs, it.index@ as nat), xml_out@.stack == w1.stack,
//@end
// ------------------------------------------------------------------ metadata
//@struct file=src/metadata.rs name=Metadata
//@end
//@struct file=src/metadata.rs name=MetaTemplate
//@end
//@struct file=src/metadata.rs name=MetaAutoReload
//@end
//@struct file=src/metadata.rs name=MetaHyperlinkBehaviour
//@end
//@struct file=src/metadata.rs name=MetaDocumentStatistics
//@end
//@struct file=src/metadata.rs name=MetaUserDefined
//@end
//@struct file=src/metadata.rs name=MetaValue
//@end
impl MetaTemplate {
//@fn file=src/metadata.rs path=MetaTemplate::is_empty
//@ret r
//@spec
    ensures r == (self.date is None && self.actuate is None && self.href is None && self.title is None && self.link_type is None),
//@end
}
impl MetaAutoReload {
//@fn file=src/metadata.rs path=MetaAutoReload::is_empty
//@ret r
//@spec
    ensures r == (self.delay is None && self.actuate is None && self.href is None && self.show is None && self.link_type is None),
//@end
}
impl MetaHyperlinkBehaviour {
//@fn file=src/metadata.rs path=MetaHyperlinkBehaviour::is_empty
//@ret r
//@spec
    ensures r == (self.target_frame_name is None && self.show is None),
//@end
}
spec fn odt(v: Option<NaiveDateTime>) -> Option<Seq<char>> { match v { Some(d) => Some(dttext(d)), None => None } }
spec fn odur(v: Option<Duration>) -> Option<Seq<char>> { match v { Some(d) => Some(durtext(d)), None => None } }
spec fn oact(v: Option<XLinkActuate>) -> Option<Seq<char>> { match v { Some(d) => Some(word_actuate(d)), None => None } }
spec fn oshow(v: Option<XLinkShow>) -> Option<Seq<char>> { match v { Some(d) => Some(word_show(d)), None => None } }
spec fn otype(v: Option<XLinkType>) -> Option<Seq<char>> { match v { Some(d) => Some(word_type(d)), None => None } }
#[verifier::opaque] spec fn mt_generator(w: W, m: Metadata) -> W { w_leaf(w_open(w, "office:meta"@), "meta:generator"@, m.generator@) }
#[verifier::opaque] spec fn mt_title(w: W, m: Metadata) -> W { w_oleaf(mt_generator(w, m), "dc:title"@, filled(m.title@)) }
#[verifier::opaque] spec fn mt_description(w: W, m: Metadata) -> W { w_oleaf(mt_title(w, m), "dc:description"@, filled(m.description@)) }
#[verifier::opaque] spec fn mt_subject(w: W, m: Metadata) -> W { w_oleaf(mt_description(w, m), "dc:subject"@, filled(m.subject@)) }
#[verifier::opaque] spec fn mt_keyword(w: W, m: Metadata) -> W { w_oleaf(mt_subject(w, m), "meta:keyword"@, filled(m.keyword@)) }
#[verifier::opaque] spec fn mt_initial_creator(w: W, m: Metadata) -> W { w_oleaf(mt_keyword(w, m), "meta:initial-creator"@, filled(m.initial_creator@)) }
#[verifier::opaque] spec fn mt_creator(w: W, m: Metadata) -> W { w_oleaf(mt_initial_creator(w, m), "dc:creator"@, filled(m.creator@)) }
#[verifier::opaque] spec fn mt_printed_by(w: W, m: Metadata) -> W { w_oleaf(mt_creator(w, m), "meta:printed-by"@, filled(m.printed_by@)) }
#[verifier::opaque] spec fn mt_creation_date(w: W, m: Metadata) -> W { w_oleaf(mt_printed_by(w, m), "meta:creation-date"@, odt(m.creation_date)) }
#[verifier::opaque] spec fn mt_date(w: W, m: Metadata) -> W { w_oleaf(mt_creation_date(w, m), "dc:date"@, odt(m.date)) }
#[verifier::opaque] spec fn mt_print_date(w: W, m: Metadata) -> W { w_oleaf(mt_date(w, m), "meta:print-date"@, odt(m.print_date)) }
#[verifier::opaque] spec fn mt_language(w: W, m: Metadata) -> W { w_oleaf(mt_print_date(w, m), "dc:language"@, filled(m.language@)) }
#[verifier::opaque] spec fn mt_cycles(w: W, m: Metadata) -> W { w_oleaf(mt_language(w, m), "meta:editing-cycles"@, if m.editing_cycles > 0 { Some(dec(m.editing_cycles as int)) } else { None }) }
#[verifier::opaque] spec fn mt_duration(w: W, m: Metadata) -> W { w_oleaf(mt_cycles(w, m), "meta:editing-duration"@, if secs(m.editing_duration) > 0 { Some(durtext(m.editing_duration)) } else { None }) }
#[verifier::opaque] spec fn mt_template(w: W, m: Metadata) -> W { ({ let t = m.template; if t.date is None && t.actuate is None && t.href is None && t.title is None && t.link_type is None { mt_duration(w, m) } else { w_oattr(w_oattr(w_oattr(w_oattr(w_oattr(w_empty(mt_duration(w, m), "meta:template"@), "meta:date"@, odt(t.date)), "xlink:actuate"@, oact(t.actuate)), "xlink:href"@, otext(t.href)), "xlink:title"@, otext(t.title)), "xlink:type"@, otype(t.link_type)) } }) }
#[verifier::opaque] spec fn mt_reload(w: W, m: Metadata) -> W { ({ let t = m.auto_reload; if t.delay is None && t.actuate is None && t.href is None && t.show is None && t.link_type is None { mt_template(w, m) } else { w_oattr(w_oattr(w_oattr(w_oattr(w_oattr(w_empty(mt_template(w, m), "meta:auto-reload"@), "meta:delay"@, odur(t.delay)), "xlink:actuate"@, oact(t.actuate)), "xlink:href"@, otext(t.href)), "xlink:show"@, oshow(t.show)), "xlink:type"@, otype(t.link_type)) } }) }
#[verifier::opaque] spec fn mt_links(w: W, m: Metadata) -> W { ({ let t = m.hyperlink_behaviour; if t.target_frame_name is None && t.show is None { mt_reload(w, m) } else { w_oattr(w_oattr(w_empty(mt_reload(w, m), "meta:hyperlink-behaviour"@), "office:target-frame-name"@, otext(t.target_frame_name)), "xlink:show"@, oshow(t.show)) } }) }
#[verifier::opaque] spec fn mt_stat(w: W, m: Metadata) -> W { ({ let t = m.document_statistics; w_attr(w_attr(w_attr(w_attr(w_empty(mt_links(w, m), "meta:document-statistic"@), "meta:table-count"@, dec(t.table_count as int)), "meta:cell-count"@, dec(t.cell_count as int)), "meta:object-count"@, dec(t.object_count as int)), "meta:ole-object-count"@, dec(t.ole_object_count as int)) }) }
spec fn w_udef(w: W, u: MetaUserDefined) -> W
{
    let w1 = w_attr(w_open(w, "meta:user-defined"@), "meta:name"@, u.name@);
    let ty = match u.value { MetaValue::Boolean(_) => Some("boolean"@), MetaValue::Datetime(_) => Some("date"@), MetaValue::Float(_) => Some("float"@), MetaValue::TimeDuration(_) => Some("time"@), MetaValue::String(_) => None };
    let tx = match u.value { MetaValue::Boolean(v) => btext(v), MetaValue::Datetime(v) => dttext(v), MetaValue::Float(v) => ftext(v), MetaValue::TimeDuration(v) => durtext(v), MetaValue::String(v) => v@ };
    w_end(w_text(w_oattr(w1, "meta:value-type"@, ty), tx), "meta:user-defined"@)
}
spec fn w_udefs(w: W, v: Seq<MetaUserDefined>, n: nat) -> W decreases n { if n == 0 { w } else { w_udef(w_udefs(w, v, (n - 1) as nat), v[n - 1]) } }
//@fn file=src/io/write.rs path=write_office_meta as=vp_meta_head attr=verifier::rlimit(40)+verifier::spinoff_prover
//@slice xml_out.elem("office:meta")?; $body if !book.metadata.template.is_empty() { $bodyb } ==> xml_out.elem("office:meta")?; $body Ok(())
//@sig fn vp_meta_head(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError>
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == mt_duration(old(xml_out)@, book.metadata) && final(xml_out)@.stack == old(xml_out)@.stack.push("office:meta"@),
//@at start
    hide(w_open); hide(w_empty); hide(w_attr); hide(w_text); hide(w_end); hide(w_leaf);
    broadcast use group_ws;
    let ghost w0 = xml_out@; let ghost m = book.metadata; proof { w_mention(w0, Seq::empty()); }
//@at before 0 if !book.metadata.title.is_empty()
    assert(xml_out@ == mt_generator(w0, m) && xml_out@.stack == w0.stack.push("office:meta"@)) by { reveal(mt_generator); }
//@at before 0 if !book.metadata.description.is_empty()
    assert(xml_out@ == mt_title(w0, m) && xml_out@.stack == w0.stack.push("office:meta"@)) by { reveal(mt_title); }
//@at before 0 if !book.metadata.subject.is_empty()
    assert(xml_out@ == mt_description(w0, m) && xml_out@.stack == w0.stack.push("office:meta"@)) by { reveal(mt_description); }
//@at before 0 if !book.metadata.keyword.is_empty()
    assert(xml_out@ == mt_subject(w0, m) && xml_out@.stack == w0.stack.push("office:meta"@)) by { reveal(mt_subject); }
//@at before 0 if !book.metadata.initial_creator.is_empty()
    assert(xml_out@ == mt_keyword(w0, m) && xml_out@.stack == w0.stack.push("office:meta"@)) by { reveal(mt_keyword); }
//@at before 0 if !book.metadata.creator.is_empty()
    assert(xml_out@ == mt_initial_creator(w0, m) && xml_out@.stack == w0.stack.push("office:meta"@)) by { reveal(mt_initial_creator); }
//@at before 0 if !book.metadata.printed_by.is_empty()
    assert(xml_out@ == mt_creator(w0, m) && xml_out@.stack == w0.stack.push("office:meta"@)) by { reveal(mt_creator); }
//@at before 0 if let Some(v) = book.metadata.creation_date
    assert(xml_out@ == mt_printed_by(w0, m) && xml_out@.stack == w0.stack.push("office:meta"@)) by { reveal(mt_printed_by); }
//@at before 0 if let Some(v) = book.metadata.date
    assert(xml_out@ == mt_creation_date(w0, m) && xml_out@.stack == w0.stack.push("office:meta"@)) by { reveal(mt_creation_date); }
//@at before 0 if let Some(v) = book.metadata.print_date
    assert(xml_out@ == mt_date(w0, m) && xml_out@.stack == w0.stack.push("office:meta"@)) by { reveal(mt_date); }
//@at before 0 if !book.metadata.language.is_empty()
    assert(xml_out@ == mt_print_date(w0, m) && xml_out@.stack == w0.stack.push("office:meta"@)) by { reveal(mt_print_date); }
//@at before 0 if book.metadata.editing_cycles > 0
    assert(xml_out@ == mt_language(w0, m) && xml_out@.stack == w0.stack.push("office:meta"@)) by { reveal(mt_language); }
//@at before 0 if book.metadata.editing_duration.num_seconds() > 0
    assert(xml_out@ == mt_cycles(w0, m) && xml_out@.stack == w0.stack.push("office:meta"@)) by { reveal(mt_cycles); }
//@at before 0 Ok(())
    assert(xml_out@ == mt_duration(w0, m) && xml_out@.stack == w0.stack.push("office:meta"@)) by { reveal(mt_duration); }
//@end
//@fn file=src/io/write.rs path=write_office_meta as=vp_meta_template attr=verifier::spinoff_prover
//@slice if !book.metadata.template.is_empty() { $body } ==> if !book.metadata.template.is_empty() { $body } Ok(())
//@sig fn vp_meta_template(book: &WorkBook, Ghost(w9): Ghost<W>, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError>
//@ret r
//@spec
    requires old(xml_out)@ == mt_duration(w9, book.metadata),
    ensures r is Ok ==> final(xml_out)@ == mt_template(w9, book.metadata) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    hide(w_open); hide(w_empty); hide(w_attr); hide(w_text); hide(w_end); hide(w_leaf);
    broadcast use group_ws;
    let ghost w0 = xml_out@; let ghost m = book.metadata; proof { w_mention(w0, Seq::empty()); }
    proof { reveal(mt_template); }
//@end
//@fn file=src/io/write.rs path=write_office_meta as=vp_meta_reload attr=verifier::spinoff_prover
//@slice if !book.metadata.auto_reload.is_empty() { $body } ==> if !book.metadata.auto_reload.is_empty() { $body } Ok(())
//@sig fn vp_meta_reload(book: &WorkBook, Ghost(w9): Ghost<W>, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError>
//@ret r
//@spec
    requires old(xml_out)@ == mt_template(w9, book.metadata),
    ensures r is Ok ==> final(xml_out)@ == mt_reload(w9, book.metadata) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    hide(w_open); hide(w_empty); hide(w_attr); hide(w_text); hide(w_end); hide(w_leaf);
    broadcast use group_ws;
    let ghost w0 = xml_out@; let ghost m = book.metadata; proof { w_mention(w0, Seq::empty()); }
    proof { reveal(mt_reload); }
//@end
//@fn file=src/io/write.rs path=write_office_meta as=vp_meta_links attr=verifier::spinoff_prover
//@slice if !book.metadata.hyperlink_behaviour.is_empty() { $body } ==> if !book.metadata.hyperlink_behaviour.is_empty() { $body } Ok(())
//@sig fn vp_meta_links(book: &WorkBook, Ghost(w9): Ghost<W>, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError>
//@ret r
//@spec
    requires old(xml_out)@ == mt_reload(w9, book.metadata),
    ensures r is Ok ==> final(xml_out)@ == mt_links(w9, book.metadata) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    hide(w_open); hide(w_empty); hide(w_attr); hide(w_text); hide(w_end); hide(w_leaf);
    broadcast use group_ws;
    let ghost w0 = xml_out@; let ghost m = book.metadata; proof { w_mention(w0, Seq::empty()); }
    proof { reveal(mt_links); }
//@end
//@fn file=src/io/write.rs path=write_office_meta as=vp_meta_stat attr=verifier::spinoff_prover
//@slice xml_out.empty("meta:document-statistic")?; $body for userdef in &book.metadata.user_defined { $bodyb } ==> xml_out.empty("meta:document-statistic")?; $body Ok(())
//@sig fn vp_meta_stat(book: &WorkBook, Ghost(w9): Ghost<W>, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError>
//@ret r
//@spec
    requires old(xml_out)@ == mt_links(w9, book.metadata),
    ensures r is Ok ==> final(xml_out)@ == mt_stat(w9, book.metadata) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    hide(w_open); hide(w_empty); hide(w_attr); hide(w_text); hide(w_end); hide(w_leaf);
    broadcast use group_ws;
    let ghost w0 = xml_out@; let ghost m = book.metadata; proof { w_mention(w0, Seq::empty()); }
    proof { reveal(mt_stat); }
//@end
//@fn file=src/io/write.rs path=write_office_meta attr=verifier::rlimit(40)+verifier::spinoff_prover
//@params book, xml_out
//@ret r
//@subst xml_out.elem("office:meta")?; $body if !book.metadata.template.is_empty() { $bodyb } ==> vp_meta_head(book, xml_out)?; vp_meta_template(book, Ghost(w0), xml_out)?;
//@subst if !book.metadata.auto_reload.is_empty() { $body } ==> vp_meta_reload(book, Ghost(w0), xml_out)?;
//@subst if !book.metadata.hyperlink_behaviour.is_empty() { $body } ==> vp_meta_links(book, Ghost(w0), xml_out)?;
//@subst xml_out.empty("meta:document-statistic")?; $body for userdef in &book.metadata.user_defined { ==> vp_meta_stat(book, Ghost(w0), xml_out)?; for userdef in &book.metadata.user_defined {
//@subst MetaValue::String(_) => unreachable!(), ==> MetaValue::String(_) => { vp_panic(); "" }
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_end(w_udefs(mt_stat(old(xml_out)@, book.metadata), book.metadata.user_defined@, book.metadata.user_defined@.len()), "office:meta"@) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    hide(w_open); hide(w_empty); hide(w_attr); hide(w_text); hide(w_end); hide(w_leaf);
    broadcast use group_ws;
    let ghost w0 = xml_out@; let ghost m = book.metadata; proof { w_mention(w0, Seq::empty()); }
//@loop 0 it=it
    invariant m == book.metadata, it.seq().len() == m.user_defined@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == m.user_defined@[i],
        xml_out@ == w_udefs(mt_stat(w0, m), m.user_defined@, it.index@ as nat), xml_out@.stack == w0.stack.push("office:meta"@),
//@at loopstart 0
    broadcast use group_ws;
//@end
// ------------------------------------------------------------------ settings
//@struct file=src/config.rs name=ConfigValue
//@end
//@struct file=src/config.rs name=ConfigMap
//@end
//@struct file=src/config.rs name=ConfigItem
//@end
//@struct file=src/config.rs name=Config
//@end
// a base64 value holds base64 text
#[verifier::external_body] proof fn axiom_base64(v: ConfigValue) ensures v is Base64Binary ==> nospecial(v->Base64Binary_0@) {}
spec fn c_at(m: ConfigMap, k: Nm) -> Option<ConfigItem> { if m.key_index@.contains_key(k) && m.key_index@[k] < m.values@.len() { Some(m.values@[m.key_index@[k] as int].1) } else { None } }
spec fn c_map(i: ConfigItem) -> Option<ConfigMap> { match i { ConfigItem::Value(_) => None, ConfigItem::Set(m) => Some(m), ConfigItem::Vec(m) => Some(m), ConfigItem::Map(m) => Some(m), ConfigItem::Entry(m) => Some(m) } }
/// names and positions agree
spec fn c_ok(m: ConfigMap) -> bool
{
    &&& forall|k: Nm| #[trigger] m.key_index@.contains_key(k) ==> m.key_index@[k] < m.values@.len() && m.values@[m.key_index@[k] as int].0@ == k
    &&& forall|i: int| 0 <= i < m.values@.len() ==> m.key_index@.contains_key((#[trigger] m.values@[i]).0@) && m.key_index@[m.values@[i].0@] == i
}
#[verifier::external_body] fn vp_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
impl ConfigMap {
    #[verifier::external_body] fn vp_items(&self) -> (r: &Vec<(String, ConfigItem)>) ensures *r == self.values { unimplemented!() }
//@fn file=src/config.rs path=ConfigMap::insert
//@params name, item
//@subst fn insert<S, V>(&mut self, name: S, item: V) where S: AsRef<str>, V: Into<ConfigItem>, ==> fn insert(&mut self, name: &str, item: ConfigItem)
//@subst item.into() ==> item
//@subst name.as_ref().to_string() ==> vp_string(name)
//@subst name.as_ref() ==> name
//@spec
    requires c_ok(*old(self)),
    ensures c_ok(*final(self)), c_at(*final(self), name@) == Some(item), forall|k: Nm| k != name@ ==> #[trigger] c_at(*final(self), k) == c_at(*old(self), k),
        final(self).values@.len() == old(self).values@.len() + (if c_at(*old(self), name@) is Some { 0int } else { 1 }),
        forall|i: int| 0 <= i < old(self).values@.len() ==> (#[trigger] final(self).values@[i]).0@ == old(self).values@[i].0@,
//@end
//@fn file=src/config.rs path=ConfigMap::get
//@params name
//@ret r
//@subst fn get<S>(&self, name: S) -> Option<&ConfigItem> where S: AsRef<str>, ==> fn get(&self, name: &str) -> Option<&ConfigItem>
//@subst name.as_ref() ==> name
//@subst self.values.get(*idx).map(|v| &v.1) ==> vp_second(self.values.get(*idx))
//@spec
    ensures match r { Some(v) => c_at(*self, name@) == Some(*v), None => c_at(*self, name@) is None },
//@end
}
fn vp_second<'a>(o: Option<&'a (String, ConfigItem)>) -> (r: Option<&'a ConfigItem>) ensures match (r, o) { (Some(a), Some(b)) => *a == b.1, (None, None) => true, _ => false } { match o { Some(v) => Some(&v.1), None => None } }
//@struct file=src/config.rs name=ConfigItemType
//@end
impl ConfigItem {
    #[verifier::external_body] fn vp_items(&self) -> (r: &Vec<(String, ConfigItem)>) ensures match c_map(*self) { Some(m) => *r == m.values, None => r@.len() == 0 } { unimplemented!() }
//@fn file=src/config.rs path=ConfigItem::as_value
//@ret r
//@spec
    ensures match r { Some(v) => *self == ConfigItem::Value(*v), None => !(*self is Value) },
//@end
//@fn file=src/config.rs path=ConfigItem::is_map
//@ret r
//@spec
    ensures r == c_map(*self) is Some,
//@end
//@fn file=src/config.rs path=ConfigItem::as_map
//@ret r
//@spec
    ensures match r { Some(m) => c_map(*self) == Some(*m), None => c_map(*self) is None },
//@end
//@fn file=src/config.rs path=ConfigItem::insert
//@params name, item
//@subst fn insert<S, V>(&mut self, name: S, item: V) where S: AsRef<str>, V: Into<ConfigItem>, ==> fn insert(&mut self, name: &str, item: ConfigItem)
//@subst item.into() ==> item
//@spec
    requires c_map(*old(self)) is Some, c_ok(c_map(*old(self))->Some_0),
    ensures c_map(*final(self)) is Some, c_ok(c_map(*final(self))->Some_0), same_kind(*old(self), *final(self)),
        c_at(c_map(*final(self))->Some_0, name@) == Some(item), forall|k: Nm| k != name@ ==> #[trigger] c_at(c_map(*final(self))->Some_0, k) == c_at(c_map(*old(self))->Some_0, k),
//@end
//@fn file=src/config.rs path=ConfigItem::get
//@params name
//@ret r
//@subst fn get<S>(&self, name: S) -> Option<&ConfigItem> where S: AsRef<str>, ==> fn get(&self, name: &str) -> Option<&ConfigItem>
//@subst name.as_ref() ==> name
//@subst panic!() ==> { vp_panic(); None }
//@spec
    ensures c_map(*self) is Some ==> match r { Some(v) => c_at(c_map(*self)->Some_0, name@) == Some(*v), None => c_at(c_map(*self)->Some_0, name@) is None },
//@end
//@fn file=src/config.rs path=ConfigItem::as_map_mut
//@ret r
//@spec
    ensures match r { Some(m) => c_map(*old(self)) == Some(*m) && c_map(*final(self)) == Some(*final(m)) && same_kind(*old(self), *final(self)), None => c_map(*old(self)) is None && *final(self) == *old(self) },
//@end
}
spec fn same_kind(a: ConfigItem, b: ConfigItem) -> bool { a is Value == b is Value && a is Set == b is Set && a is Vec == b is Vec && a is Map == b is Map && a is Entry == b is Entry }
spec fn w_cvalue(w: W, name: Nm, v: ConfigValue) -> W
{
    let ty = match v { ConfigValue::Base64Binary(_) => "base64Binary"@, ConfigValue::Boolean(_) => "boolean"@, ConfigValue::DateTime(_) => "datetime"@, ConfigValue::Double(_) => "double"@, ConfigValue::Int(_) => "int"@, ConfigValue::Long(_) => "long"@, ConfigValue::Short(_) => "short"@, ConfigValue::String(_) => "string"@ };
    let tx = match v { ConfigValue::Base64Binary(t) => t@, ConfigValue::Boolean(t) => btext(t), ConfigValue::DateTime(t) => dttext(t), ConfigValue::Double(t) => ftext(t), ConfigValue::Int(t) => dec(t as int), ConfigValue::Long(t) => dec(t as int), ConfigValue::Short(t) => dec(t as int), ConfigValue::String(t) => t@ };
    let has = match v { ConfigValue::Base64Binary(t) => t@.len() > 0, ConfigValue::String(t) => t@.len() > 0, _ => true };
    w_end_if(w_text(w_attr(w_attr(w_if(w, has, "config:config-item"@), "config:name"@, name), "config:type"@, ty), tx), has, "config:config-item"@)
}
/// one entry of the settings, everything below it included; `named` for entries of a named map
spec fn w_citem(w: W, name: Option<Nm>, c: ConfigItem) -> W decreases c, 0nat
{
    match c {
        ConfigItem::Value(v) => match name { Some(n) => w_cvalue(w, n, v), None => w },
        ConfigItem::Set(m) => w_end(w_centries(w_oattr(w_open(w, "config:config-item-set"@), "config:name"@, name), m, m.values@.len()), "config:config-item-set"@),
        ConfigItem::Vec(m) => w_end(w_cnum(w_oattr(w_open(w, "config:config-item-map-indexed"@), "config:name"@, name), m, c_count(m)), "config:config-item-map-indexed"@),
        ConfigItem::Map(m) => w_end(w_centries(w_oattr(w_open(w, "config:config-item-map-named"@), "config:name"@, name), m, m.values@.len()), "config:config-item-map-named"@),
        ConfigItem::Entry(m) => w_end(w_centries(w_oattr(w_open(w, "config:config-item-map-entry"@), "config:name"@, name), m, m.values@.len()), "config:config-item-map-entry"@),
    }
}
spec fn w_centries(w: W, m: ConfigMap, n: nat) -> W decreases m, n
{ if n == 0 || n > m.values@.len() { w } else { w_citem(w_centries(w, m, (n - 1) as nat), Some(m.values@[n - 1].0@), m.values@[n - 1].1) } }
/// the entries 0, 1, 2 .. of an indexed map
spec fn w_cnum(w: W, m: ConfigMap, n: nat) -> W decreases m, n
{ if n == 0 { w } else if m.key_index@.contains_key(dec(n - 1)) && m.key_index@[dec(n - 1)] < m.values@.len() { w_citem(w_cnum(w, m, (n - 1) as nat), None, m.values@[m.key_index@[dec(n - 1)] as int].1) } else { w } }
spec fn is_count(m: ConfigMap, n: nat) -> bool { (forall|i: int| 0 <= i < n ==> #[trigger] c_at(m, dec(i)) is Some) && c_at(m, dec(n as int)) is None }
spec fn c_count(m: ConfigMap) -> nat { choose|n: nat| is_count(m, n) }
proof fn lemma_count(m: ConfigMap, n: nat) requires is_count(m, n) ensures c_count(m) == n
{ let k = c_count(m); assert(is_count(m, k)); if k < n { assert(c_at(m, dec(k as int)) is Some); } if n < k { assert(c_at(m, dec(n as int)) is Some); } }
//@fn file=src/io/write.rs path=write_config_item
//@params name, value, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_cvalue(old(xml_out)@, name@, *value) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    proof { axiom_base64(*value); }
//@end
#[verifier::external_body] fn vp_num(i: i32) -> (r: String) ensures r@ == dec(i as int) { unimplemented!() }
//@gsubst for (name, item) in $m.iter() { $body } ==> let vp_es = $m.vp_items(); for vp_e in vp_es.iter() { let name = &vp_e.0; let item = &vp_e.1; $body }
//@fn file=src/io/write.rs path=write_config_item_set attr=verifier::exec_allows_no_decreases_clause
//@params name, set, xml_out
//@ret r
//@spec
    requires set is Set,
    ensures r is Ok ==> final(xml_out)@ == w_citem(old(xml_out)@, Some(name@), *set) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost nm = Some(name@); let ghost w1 = w_oattr(w_open(w0, "config:config-item-set"@), "config:name"@, nm); let ghost m = set->Set_0;
//@loop 0 it=it
    invariant *set == ConfigItem::Set(m), it.seq().len() == m.values@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == m.values@[i],
        xml_out@ == w_centries(w1, m, it.index@ as nat), xml_out@.stack == w0.stack.push("config:config-item-set"@), w1 == w_oattr(w_open(w0, "config:config-item-set"@), "config:name"@, nm),
//@at loopstart 0
    proof { let i = it.index@ as nat; assert(w_centries(w1, m, i + 1) == w_citem(w_centries(w1, m, i), Some(m.values@[i as int].0@), m.values@[i as int].1)); let c = m.values@[i as int].1; let n = Some(m.values@[i as int].0@);
        if let ConfigItem::Value(v) = c { assert(w_citem(xml_out@, n, c) == w_cvalue(xml_out@, n->Some_0, v)); } }
//@end
//@fn file=src/io/write.rs path=write_config_item_map_named attr=verifier::exec_allows_no_decreases_clause
//@params name, map, xml_out
//@ret r
//@spec
    requires map is Map,
    ensures r is Ok ==> final(xml_out)@ == w_citem(old(xml_out)@, Some(name@), *map) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost nm = Some(name@); let ghost w1 = w_oattr(w_open(w0, "config:config-item-map-named"@), "config:name"@, nm); let ghost m = map->Map_0;
//@loop 0 it=it
    invariant *map == ConfigItem::Map(m), it.seq().len() == m.values@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == m.values@[i],
        xml_out@ == w_centries(w1, m, it.index@ as nat), xml_out@.stack == w0.stack.push("config:config-item-map-named"@), w1 == w_oattr(w_open(w0, "config:config-item-map-named"@), "config:name"@, nm),
//@at loopstart 0
    proof { let i = it.index@ as nat; assert(w_centries(w1, m, i + 1) == w_citem(w_centries(w1, m, i), Some(m.values@[i as int].0@), m.values@[i as int].1)); let c = m.values@[i as int].1; let n = Some(m.values@[i as int].0@);
        if let ConfigItem::Value(v) = c { assert(w_citem(xml_out@, n, c) == w_cvalue(xml_out@, n->Some_0, v)); } }
//@end
//@fn file=src/io/write.rs path=write_config_item_map_entry attr=verifier::exec_allows_no_decreases_clause
//@params name, map_entry, xml_out
//@ret r
//@spec
    requires map_entry is Entry,
    ensures r is Ok ==> final(xml_out)@ == w_citem(old(xml_out)@, (match name { Some(n) => Some(n@), None => None }), *map_entry) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost nm = (match name { Some(n) => Some(n@), None => None }); let ghost w1 = w_oattr(w_open(w0, "config:config-item-map-entry"@), "config:name"@, nm); let ghost m = map_entry->Entry_0;
//@loop 0 it=it
    invariant *map_entry == ConfigItem::Entry(m), it.seq().len() == m.values@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == m.values@[i],
        xml_out@ == w_centries(w1, m, it.index@ as nat), xml_out@.stack == w0.stack.push("config:config-item-map-entry"@), w1 == w_oattr(w_open(w0, "config:config-item-map-entry"@), "config:name"@, nm),
//@at loopstart 0
    proof { let i = it.index@ as nat; assert(w_centries(w1, m, i + 1) == w_citem(w_centries(w1, m, i), Some(m.values@[i as int].0@), m.values@[i as int].1)); let c = m.values@[i as int].1; let n = Some(m.values@[i as int].0@);
        if let ConfigItem::Value(v) = c { assert(w_citem(xml_out@, n, c) == w_cvalue(xml_out@, n->Some_0, v)); } }
//@end
//@fn file=src/io/write.rs path=write_config_item_map_indexed attr=verifier::exec_allows_no_decreases_clause
//@params name, vec, xml_out
//@ret r
//@subst index.to_string() ==> vp_num(index)
//@subst ConfigItem::Value(value) => write_config_item(name, value, xml_out)?, ==> ConfigItem::Value(value) => { vp_panic(); }
//@spec
    requires vec is Vec,
    ensures r is Ok ==> final(xml_out)@ == w_citem(old(xml_out)@, Some(name@), *vec) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost w1 = w_attr(w_open(w0, "config:config-item-map-indexed"@), "config:name"@, name@); let ghost m = vec->Vec_0;
//@loop 0
    invariant *vec == ConfigItem::Vec(m), 0 <= index, forall|i: int| 0 <= i < index ==> #[trigger] c_at(m, dec(i)) is Some,
        xml_out@ == w_cnum(w1, m, index as nat), xml_out@.stack == w0.stack.push("config:config-item-map-indexed"@),
    ensures is_count(m, index as nat),
//@at loopstart 0
    assume(index < i32::MAX);
    proof { let i = index as nat; if c_at(m, dec(i as int)) is Some { assert(w_cnum(w1, m, i + 1) == w_citem(w_cnum(w1, m, i), None, m.values@[m.key_index@[dec(i as int)] as int].1)); } }
//@at afterloop 0
    proof { lemma_count(m, index as nat); }
//@end
// ------------------------------------------------------------------ counters of the document
spec fn cells_of(v: Seq<Detach<Sheet>>, n: nat) -> int decreases n { if n == 0 { 0 } else { cells_of(v, (n - 1) as nat) + v[n - 1].val->Some_0.data@.dom().len() } }
proof fn lemma_cells(v: Seq<Detach<Sheet>>, i: nat, n: nat) requires i <= n ensures 0 <= cells_of(v, i) <= cells_of(v, n) decreases n { if i < n { lemma_cells(v, i, (n - 1) as nat); } else if i > 0 { lemma_cells(v, (i - 1) as nat, (n - 1) as nat); } }
#[verifier::external_body] fn vp_generator() -> (r: String) { unimplemented!() }
//@fn file=src/io/write.rs path=calc_metadata
//@params book
//@ret r
//@subst format!($x) ==> vp_generator()
//@subst for $idx in book.iter_sheets() { $body } ==> for vp_d in book.sheets.iter() { let $idx = vp_d.as_ref(); $body }
//@spec
    requires forall|i: int| 0 <= i < old(book).sheets@.len() ==> (#[trigger] old(book).sheets@[i]).val is Some,
        cells_of(old(book).sheets@, old(book).sheets@.len()) <= u32::MAX, old(book).sheets@.len() <= u32::MAX,
    ensures r is Ok, final(book).metadata.document_statistics.table_count == old(book).sheets@.len(),
        final(book).metadata.document_statistics.cell_count == cells_of(old(book).sheets@, old(book).sheets@.len()),
        // nothing else changes
        *final(book) == (WorkBook { metadata: final(book).metadata, ..*old(book) }),
        final(book).metadata == (Metadata { generator: final(book).metadata.generator, document_statistics: final(book).metadata.document_statistics, ..old(book).metadata }),
        final(book).metadata.document_statistics == (MetaDocumentStatistics { table_count: final(book).metadata.document_statistics.table_count, cell_count: final(book).metadata.document_statistics.cell_count, ..old(book).metadata.document_statistics }),
//@at start
    let ghost b0 = *book;
//@loop 0 it=it
    invariant book.sheets == b0.sheets, it.seq().len() == b0.sheets@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == b0.sheets@[i],
        forall|i: int| 0 <= i < b0.sheets@.len() ==> (#[trigger] b0.sheets@[i]).val is Some,
        cells_of(b0.sheets@, b0.sheets@.len()) <= u32::MAX, cell_count == cells_of(b0.sheets@, it.index@ as nat),
//@at loopstart 0
    proof { lemma_cells(b0.sheets@, (it.index@ + 1) as nat, b0.sheets@.len()); lemma_cells(b0.sheets@, it.index@ as nat, b0.sheets@.len()); broadcast use vstd::std_specs::btree::group_btree_axioms; }
//@end
spec fn c_root(b: WorkBook) -> ConfigItem { b.config.val->Some_0.config }
// the Deref of Detach, and Config::iter
impl Detach<Config> { #[verifier::external_body] fn vp_items(&self) -> (r: &Vec<(String, ConfigItem)>) requires self.val is Some ensures match c_map(self.val->Some_0.config) { Some(m) => *r == m.values, None => r@.len() == 0 } { unimplemented!() } }
//@fn file=src/io/write.rs path=write_office_settings
//@params book, xml_out
//@ret r
//@spec
    requires book.config.val is Some, c_root(*book) is Set,
    ensures r is Ok ==> final(xml_out)@ == w_end(w_centries(w_open(old(xml_out)@, "office:settings"@), c_root(*book)->Set_0, c_root(*book)->Set_0.values@.len()), "office:settings"@) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@; let ghost w1 = w_open(w0, "office:settings"@); let ghost m = c_root(*book)->Set_0;
//@loop 0 it=it
    invariant c_root(*book) == ConfigItem::Set(m), it.seq().len() == m.values@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == m.values@[i],
        xml_out@ == w_centries(w1, m, it.index@ as nat), xml_out@.stack == w0.stack.push("office:settings"@),
//@at loopstart 0
    proof { let i = it.index@ as nat; assert(w_centries(w1, m, i + 1) == w_citem(w_centries(w1, m, i), Some(m.values@[i as int].0@), m.values@[i as int].1)); }
//@end
} // verus!
fn main() {}
