//@include pre.rs
// C20: markup, drawings, headers, footers and checks hold exactly what was put into them.
verus! {
global size_of usize == 8;
//@include attrmap.inc.rs
//@gfmt
//@gsubst &mut Formatter<'_> ==> &mut String
//@gsubst Result<(), std::fmt::Error> ==> Result<(), FmtErr>
//@gsubst std::fmt::Result ==> Result<(), FmtErr>
//@gsubst attr: Default::default() ==> attr: AttrMap2::new()
//@gsubst name: Default::default() ==> name: String::new()
//@gsubst display_name: Default::default() ==> display_name: String::new()
//@gsubst text: Default::default() ==> text: Vec::new()
//@gsubst region_left: Default::default() ==> region_left: Vec::new()
//@gsubst region_center: Default::default() ==> region_center: Vec::new()
//@gsubst region_right: Default::default() ==> region_right: Vec::new()
//@gsubst content: Default::default() ==> content: Vec::new()
//@gsubst pagestyle: Default::default() ==> pagestyle: None
//@gsubst next_style_name: Default::default() ==> next_style_name: None
//@gsubst header: Default::default() ==> header: HeaderFooter::default()
//@gsubst header_first: Default::default() ==> header_first: HeaderFooter::default()
//@gsubst header_left: Default::default() ==> header_left: HeaderFooter::default()
//@gsubst footer: Default::default() ==> footer: HeaderFooter::default()
//@gsubst footer_first: Default::default() ==> footer_first: HeaderFooter::default()
//@gsubst footer_left: Default::default() ==> footer_left: HeaderFooter::default()
//@gsubst condition: Default::default() ==> condition: vp_condition()
//@gsubst base_cell: Default::default() ==> base_cell: vp_cellref()
//@gsubst display_list: Default::default() ==> display_list: ValidationDisplay::vp_default()
//@gsubst content: vec![] ==> content: Vec::new()
//@gsubst $ida.as_str().to_string() ==> vp_string($ida.as_str())
//@gsubst $ida.as_ref().to_string() ==> vp_string($ida.as_ref())
//@gsubst $ida.as_str() ==> $ida.as_str()
//@gsubst $idv.to_string() ==> vp_show(&$idv)
//@gsubst self.region_left.as_ref() ==> &self.region_left
//@gsubst self.region_center.as_ref() ==> &self.region_center
//@gsubst self.region_right.as_ref() ==> &self.region_right
//@gsubst self.region_left.as_mut() ==> &mut self.region_left
//@gsubst self.region_center.as_mut() ==> &mut self.region_center
//@gsubst self.region_right.as_mut() ==> &mut self.region_right
//@gsubst self.title.as_deref() ==> vp_deref_str(&self.title)
//@gsubst self.text.as_deref() ==> vp_deref_tag(&self.text)
//@gsubst <'a, S: Into<&'a str>, T: Into<String>> ==> <T: VpInto>
//@gsubst <'a, S: Into<&'a str>> ==>
//@gsubst set_attr(name.into(), ==> set_attr(name,
//@gsubst attr(name.into()) ==> attr(name)
//@gsubst AsRef<str> ==> VpAsRef
//@gsubst Into<String> ==> VpInto
//@gsubst Into<XmlTag> ==> VpIntoTag
/// a name or text given by the caller, as str / as String
trait VpAsRef { spec fn text(&self) -> Seq<char>; fn as_ref(&self) -> (r: &str) ensures r@ == self.text(); }
trait VpInto: Sized { spec fn itext(&self) -> Seq<char>; fn into(self) -> (r: String) ensures r@ == self.itext(); }
impl VpInto for String { spec fn itext(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VpInto for &str { spec fn itext(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { vp_string(self) } }
/// an element given by the caller
trait VpIntoTag: Sized { spec fn is(&self, t: XmlTag) -> bool; fn into(self) -> (r: XmlTag) ensures self.is(r); }
impl VpIntoTag for XmlTag { spec fn is(&self, t: XmlTag) -> bool { t == *self } fn into(self) -> (r: XmlTag) { self } }
uninterp spec fn is_ws(c: char) -> bool;
#[verifier::external_body] fn vp_blank(s: &String) -> (r: bool) ensures r == (forall|i: int| 0 <= i < s@.len() ==> is_ws(#[trigger] s@[i])) { unimplemented!() }
#[verifier::external_body] struct OdsError {}
#[verifier::external_body] fn vp_oerr() -> OdsError { unimplemented!() }
spec fn no_attr() -> IMap<Seq<char>, Seq<char>> { IMap::empty() }
// ------------------------------------------------------------------ elements
//@struct file=src/xmltree.rs name=XmlTag
//@end
//@struct file=src/xmltree.rs name=XmlContent
//@end
type TextTag = XmlTag;
/// a fresh element
spec fn is_new(t: XmlTag, name: Seq<char>) -> bool { t.name@ =~= name && t.attr.wf() && t.attr@ =~= no_attr() && t.content@.len() == 0 }
/// an element with one text and nothing else
spec fn is_par(t: XmlTag, text: Seq<char>) -> bool { t.name@ == "text:p"@ && t.attr.wf() && t.attr@ =~= no_attr() && t.content@.len() == 1 && (t.content@[0] matches XmlContent::Text(s) && s@ == text) }
/// b is a with one more piece of text / one more element
spec fn plus_text(a: Seq<XmlContent>, b: Seq<XmlContent>, text: Seq<char>) -> bool { b.len() == a.len() + 1 && b.drop_last() =~= a && (b.last() matches XmlContent::Text(s) && s@ == text) }
spec fn plus_tag<T: VpIntoTag>(a: Seq<XmlContent>, b: Seq<XmlContent>, t: T) -> bool { b.len() == a.len() + 1 && b.drop_last() =~= a && (b.last() matches XmlContent::Tag(x) && t.is(x)) }
spec fn plus_par(a: Seq<XmlTag>, b: Seq<XmlTag>, text: Seq<char>) -> bool { b.len() == a.len() + 1 && b.drop_last() =~= a && is_par(b.last(), text) }
/// the plain text: the texts in document order
spec fn plain(t: XmlTag) -> Seq<char> decreases t, 0nat { plain_n(t.content, t.content@.len()) }
spec fn plain_n(v: Vec<XmlContent>, n: nat) -> Seq<char> decreases v, n { if n == 0 || n > v@.len() { Seq::empty() } else { plain_n(v, (n - 1) as nat) + plain_c(v@[n - 1]) } }
spec fn plain_c(c: XmlContent) -> Seq<char> decreases c, 0nat { match c { XmlContent::Text(t) => t@, XmlContent::Tag(t) => plain(t) } }
/// the elements among the first n pieces; no text other than white space
spec fn els(v: Seq<XmlContent>, n: nat) -> Seq<XmlTag> decreases n { if n == 0 { Seq::empty() } else { match v[n - 1] { XmlContent::Tag(t) => els(v, (n - 1) as nat).push(t), XmlContent::Text(_) => els(v, (n - 1) as nat) } } }
spec fn blank(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_ws(#[trigger] s[i]) }
spec fn no_text(v: Seq<XmlContent>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> ((#[trigger] v[i]) matches XmlContent::Text(s) ==> blank(s@)) }
impl XmlTag {
//@fn file=src/xmltree.rs path=XmlTag::new
//@params name
//@ret r
//@spec
    ensures is_new(r, name.itext()),
//@end
//@fn file=src/xmltree.rs path=XmlTag::set_name
//@params name
//@spec
    ensures final(self).name@ == name.itext(), final(self).attr == old(self).attr, final(self).content == old(self).content,
//@end
//@fn file=src/xmltree.rs path=XmlTag::name
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/xmltree.rs path=XmlTag::is_empty
//@ret r
//@spec
    ensures r == (self.content@.len() == 0),
//@end
//@fn file=src/xmltree.rs path=XmlTag::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/xmltree.rs path=XmlTag::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, final(self).attr == *final(r), final(self).name == old(self).name, final(self).content == old(self).content,
//@end
//@fn file=src/xmltree.rs path=XmlTag::set_attr
//@params name value
//@subst name: S ==> name: &str
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert(name@, value.itext()), final(self).name == old(self).name, final(self).content == old(self).content,
//@end
//@fn file=src/xmltree.rs path=XmlTag::get_attr
//@params name
//@ret r
//@subst name: S ==> name: &str
//@spec
    requires self.attr.wf(),
    ensures match r { Some(s) => self.attr@.contains_key(name@) && s@ == self.attr@[name@], None => !self.attr@.contains_key(name@) },
//@end
//@fn file=src/xmltree.rs path=XmlTag::add_tag
//@params tag
//@spec
    ensures plus_tag(old(self).content@, final(self).content@, tag), final(self).name == old(self).name, final(self).attr == old(self).attr,
//@end
//@fn file=src/xmltree.rs path=XmlTag::add_text
//@params text
//@spec
    ensures plus_text(old(self).content@, final(self).content@, text.itext()), final(self).name == old(self).name, final(self).attr == old(self).attr,
//@end
//@fn file=src/xmltree.rs path=XmlTag::attr
//@params name value
//@ret r
//@subst name: S ==> name: &str
//@spec
    requires self.attr.wf(),
    ensures r.attr.wf(), r.attr@ =~= self.attr@.insert(name@, value.itext()), r.name == self.name, r.content == self.content,
//@end
//@fn file=src/xmltree.rs path=XmlTag::tag
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.content@, r.content@, tag), r.name == self.name, r.attr == self.attr,
//@end
//@fn file=src/xmltree.rs path=XmlTag::text
//@params text
//@ret r
//@spec
    ensures plus_text(self.content@, r.content@, text.itext()), r.name == self.name, r.attr == self.attr,
//@end
//@fn file=src/xmltree.rs path=XmlTag::content
//@ret r
//@spec
    ensures *r == self.content,
//@end
//@fn file=src/xmltree.rs path=XmlTag::content_mut
//@ret r
//@spec
    ensures *r == old(self).content, final(self).content == *final(r), final(self).name == old(self).name, final(self).attr == old(self).attr,
//@end
//@fn file=src/xmltree.rs path=XmlTag::into_mixed_vec
//@ret r
//@spec
    ensures r == self.content,
//@end
//@fn file=src/xmltree.rs path=XmlTag::extract_text attr=verifier::exec_allows_no_decreases_clause
//@params buf
//@spec
    ensures final(buf)@ =~= old(buf)@ + plain(*self),
//@at start
    let ghost b0 = buf@;
//@loop 0 it=it
    invariant it.seq().len() == self.content@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.content@[i],
        buf@ =~= b0 + plain_n(self.content, it.index@ as nat),
//@at loopstart 0
    proof { let i = it.index@ as nat; assert(plain_n(self.content, i + 1) == plain_n(self.content, i) + plain_c(self.content@[i as int])); }
//@end
//@fn file=src/xmltree.rs path=XmlTag::into_vec
//@ret r
//@subst !$idv.trim().is_empty() ==> !vp_blank(&$idv)
//@subst OdsError::Parse($a, $b) ==> vp_oerr()
//@subst for $idc in self.content ==> for $idc in &cs
//@subst content.push($idv) ==> content.push(vp_tag($idv))
//@spec
    ensures match r { Ok(v) => no_text(self.content@, self.content@.len()) && v@ =~= els(self.content@, self.content@.len()), Err(_) => !no_text(self.content@, self.content@.len()) },
//@at start
    let cs = self.content; let ghost g = self.content@;
//@loop 0 it=it
    invariant it.seq().len() == g.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == g[i], g == self.content@,
        no_text(g, it.index@ as nat), content@ =~= els(g, it.index@ as nat),
//@end
}
#[verifier::external_body] fn vp_tag(t: &XmlTag) -> (r: XmlTag) ensures r == *t { unimplemented!() }
impl VpIntoTag for &str { spec fn is(&self, t: XmlTag) -> bool { is_new(t, self@) } fn into(self) -> (r: XmlTag) { VpTagFrom::from_str(self) } }
impl VpIntoTag for String { spec fn is(&self, t: XmlTag) -> bool { is_new(t, self@) } fn into(self) -> (r: XmlTag) { VpTagFrom::from_string(self) } }
struct VpTagFrom {}
impl VpTagFrom {
//@fn file=src/xmltree.rs path=XmlTag::from trait=From<&str> as=from_str
//@params name
//@ret r
//@subst Self ==> XmlTag
//@spec
    ensures is_new(r, name@),
//@end
//@fn file=src/xmltree.rs path=XmlTag::from trait=From<String> as=from_string
//@params name
//@ret r
//@subst Self ==> XmlTag
//@spec
    ensures is_new(r, name@),
//@end
}
struct VpVec {}
impl VpVec {
//@fn file=src/xmltree.rs path=Vec::add_text trait=XmlVec
//@params v, txt
//@subst &mut self, txt ==> v: &mut Vec<XmlTag>, txt
//@subst self.push($x.into()) ==> v.push($x.into_xmltag())
//@spec
    ensures plus_par(old(v)@, final(v)@, txt.itext()),
//@end
//@fn file=src/xmltree.rs path=Vec::add_tag trait=XmlVec
//@params v, tag
//@subst &mut self, tag ==> v: &mut Vec<XmlTag>, tag
//@subst self.push ==> v.push
//@spec
    ensures final(v)@.len() == old(v)@.len() + 1, final(v)@.drop_last() =~= old(v)@, tag.is(final(v)@.last()),
//@end
}
// ------------------------------------------------------------------ text elements
//@struct file=src/macro_text.rs name=TextH macro=text_tag(TextH,"text:h") macro_in=src/text.rs
//@end
impl VpIntoTag for TextH { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { TextH::vp_from(self) } }
impl TextH {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<TextH> macro=text_tag(TextH,"text:h") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=TextH::default trait=Default macro=text_tag(TextH,"text:h") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:h"@),
//@end
//@fn file=src/macro_text.rs path=TextH::new macro=text_tag(TextH,"text:h") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:h"@),
//@end
//@fn file=src/macro_text.rs path=TextH::tag macro=text_tag(TextH,"text:h") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=TextH::text macro=text_tag(TextH,"text:h") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=TextH::into_xmltag macro=text_tag(TextH,"text:h") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=TextP macro=text_tag(TextP,"text:p") macro_in=src/text.rs
//@end
impl VpIntoTag for TextP { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { TextP::vp_from(self) } }
impl TextP {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<TextP> macro=text_tag(TextP,"text:p") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=TextP::default trait=Default macro=text_tag(TextP,"text:p") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:p"@),
//@end
//@fn file=src/macro_text.rs path=TextP::new macro=text_tag(TextP,"text:p") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:p"@),
//@end
//@fn file=src/macro_text.rs path=TextP::tag macro=text_tag(TextP,"text:p") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=TextP::text macro=text_tag(TextP,"text:p") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=TextP::into_xmltag macro=text_tag(TextP,"text:p") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=TextSpan macro=text_tag(TextSpan,"text:span") macro_in=src/text.rs
//@end
impl VpIntoTag for TextSpan { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { TextSpan::vp_from(self) } }
impl TextSpan {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<TextSpan> macro=text_tag(TextSpan,"text:span") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=TextSpan::default trait=Default macro=text_tag(TextSpan,"text:span") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:span"@),
//@end
//@fn file=src/macro_text.rs path=TextSpan::new macro=text_tag(TextSpan,"text:span") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:span"@),
//@end
//@fn file=src/macro_text.rs path=TextSpan::tag macro=text_tag(TextSpan,"text:span") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=TextSpan::text macro=text_tag(TextSpan,"text:span") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=TextSpan::into_xmltag macro=text_tag(TextSpan,"text:span") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=TextA macro=text_tag(TextA,"text:a") macro_in=src/text.rs
//@end
impl VpIntoTag for TextA { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { TextA::vp_from(self) } }
impl TextA {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<TextA> macro=text_tag(TextA,"text:a") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=TextA::default trait=Default macro=text_tag(TextA,"text:a") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:a"@),
//@end
//@fn file=src/macro_text.rs path=TextA::new macro=text_tag(TextA,"text:a") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:a"@),
//@end
//@fn file=src/macro_text.rs path=TextA::tag macro=text_tag(TextA,"text:a") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=TextA::text macro=text_tag(TextA,"text:a") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=TextA::into_xmltag macro=text_tag(TextA,"text:a") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=TextS macro=text_tag(TextS,"text:s") macro_in=src/text.rs
//@end
impl VpIntoTag for TextS { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { TextS::vp_from(self) } }
impl TextS {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<TextS> macro=text_tag(TextS,"text:s") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=TextS::default trait=Default macro=text_tag(TextS,"text:s") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:s"@),
//@end
//@fn file=src/macro_text.rs path=TextS::new macro=text_tag(TextS,"text:s") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:s"@),
//@end
//@fn file=src/macro_text.rs path=TextS::tag macro=text_tag(TextS,"text:s") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=TextS::text macro=text_tag(TextS,"text:s") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=TextS::into_xmltag macro=text_tag(TextS,"text:s") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=TextTab macro=text_tag(TextTab,"text:tab") macro_in=src/text.rs
//@end
impl VpIntoTag for TextTab { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { TextTab::vp_from(self) } }
impl TextTab {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<TextTab> macro=text_tag(TextTab,"text:tab") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=TextTab::default trait=Default macro=text_tag(TextTab,"text:tab") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:tab"@),
//@end
//@fn file=src/macro_text.rs path=TextTab::new macro=text_tag(TextTab,"text:tab") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:tab"@),
//@end
//@fn file=src/macro_text.rs path=TextTab::tag macro=text_tag(TextTab,"text:tab") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=TextTab::text macro=text_tag(TextTab,"text:tab") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=TextTab::into_xmltag macro=text_tag(TextTab,"text:tab") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=SoftPageBreak macro=text_tag(SoftPageBreak,"text:soft-page-break") macro_in=src/text.rs
//@end
impl VpIntoTag for SoftPageBreak { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { SoftPageBreak::vp_from(self) } }
impl SoftPageBreak {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<SoftPageBreak> macro=text_tag(SoftPageBreak,"text:soft-page-break") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=SoftPageBreak::default trait=Default macro=text_tag(SoftPageBreak,"text:soft-page-break") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:soft-page-break"@),
//@end
//@fn file=src/macro_text.rs path=SoftPageBreak::new macro=text_tag(SoftPageBreak,"text:soft-page-break") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:soft-page-break"@),
//@end
//@fn file=src/macro_text.rs path=SoftPageBreak::tag macro=text_tag(SoftPageBreak,"text:soft-page-break") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=SoftPageBreak::text macro=text_tag(SoftPageBreak,"text:soft-page-break") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=SoftPageBreak::into_xmltag macro=text_tag(SoftPageBreak,"text:soft-page-break") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaDate macro=text_tag(MetaDate,"text:date") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaDate { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaDate::vp_from(self) } }
impl MetaDate {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaDate> macro=text_tag(MetaDate,"text:date") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaDate::default trait=Default macro=text_tag(MetaDate,"text:date") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:date"@),
//@end
//@fn file=src/macro_text.rs path=MetaDate::new macro=text_tag(MetaDate,"text:date") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:date"@),
//@end
//@fn file=src/macro_text.rs path=MetaDate::tag macro=text_tag(MetaDate,"text:date") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaDate::text macro=text_tag(MetaDate,"text:date") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaDate::into_xmltag macro=text_tag(MetaDate,"text:date") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaTime macro=text_tag(MetaTime,"text:time") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaTime { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaTime::vp_from(self) } }
impl MetaTime {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaTime> macro=text_tag(MetaTime,"text:time") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaTime::default trait=Default macro=text_tag(MetaTime,"text:time") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:time"@),
//@end
//@fn file=src/macro_text.rs path=MetaTime::new macro=text_tag(MetaTime,"text:time") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:time"@),
//@end
//@fn file=src/macro_text.rs path=MetaTime::tag macro=text_tag(MetaTime,"text:time") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaTime::text macro=text_tag(MetaTime,"text:time") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaTime::into_xmltag macro=text_tag(MetaTime,"text:time") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaPageNumber macro=text_tag(MetaPageNumber,"text:page-number") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaPageNumber { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaPageNumber::vp_from(self) } }
impl MetaPageNumber {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaPageNumber> macro=text_tag(MetaPageNumber,"text:page-number") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaPageNumber::default trait=Default macro=text_tag(MetaPageNumber,"text:page-number") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:page-number"@),
//@end
//@fn file=src/macro_text.rs path=MetaPageNumber::new macro=text_tag(MetaPageNumber,"text:page-number") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:page-number"@),
//@end
//@fn file=src/macro_text.rs path=MetaPageNumber::tag macro=text_tag(MetaPageNumber,"text:page-number") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaPageNumber::text macro=text_tag(MetaPageNumber,"text:page-number") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaPageNumber::into_xmltag macro=text_tag(MetaPageNumber,"text:page-number") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaAuthorName macro=text_tag(MetaAuthorName,"text:author-name") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaAuthorName { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaAuthorName::vp_from(self) } }
impl MetaAuthorName {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaAuthorName> macro=text_tag(MetaAuthorName,"text:author-name") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaAuthorName::default trait=Default macro=text_tag(MetaAuthorName,"text:author-name") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:author-name"@),
//@end
//@fn file=src/macro_text.rs path=MetaAuthorName::new macro=text_tag(MetaAuthorName,"text:author-name") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:author-name"@),
//@end
//@fn file=src/macro_text.rs path=MetaAuthorName::tag macro=text_tag(MetaAuthorName,"text:author-name") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaAuthorName::text macro=text_tag(MetaAuthorName,"text:author-name") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaAuthorName::into_xmltag macro=text_tag(MetaAuthorName,"text:author-name") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaAuthorInitials macro=text_tag(MetaAuthorInitials,"text:author-initials") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaAuthorInitials { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaAuthorInitials::vp_from(self) } }
impl MetaAuthorInitials {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaAuthorInitials> macro=text_tag(MetaAuthorInitials,"text:author-initials") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaAuthorInitials::default trait=Default macro=text_tag(MetaAuthorInitials,"text:author-initials") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:author-initials"@),
//@end
//@fn file=src/macro_text.rs path=MetaAuthorInitials::new macro=text_tag(MetaAuthorInitials,"text:author-initials") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:author-initials"@),
//@end
//@fn file=src/macro_text.rs path=MetaAuthorInitials::tag macro=text_tag(MetaAuthorInitials,"text:author-initials") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaAuthorInitials::text macro=text_tag(MetaAuthorInitials,"text:author-initials") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaAuthorInitials::into_xmltag macro=text_tag(MetaAuthorInitials,"text:author-initials") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaFileName macro=text_tag(MetaFileName,"text:file-name") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaFileName { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaFileName::vp_from(self) } }
impl MetaFileName {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaFileName> macro=text_tag(MetaFileName,"text:file-name") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaFileName::default trait=Default macro=text_tag(MetaFileName,"text:file-name") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:file-name"@),
//@end
//@fn file=src/macro_text.rs path=MetaFileName::new macro=text_tag(MetaFileName,"text:file-name") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:file-name"@),
//@end
//@fn file=src/macro_text.rs path=MetaFileName::tag macro=text_tag(MetaFileName,"text:file-name") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaFileName::text macro=text_tag(MetaFileName,"text:file-name") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaFileName::into_xmltag macro=text_tag(MetaFileName,"text:file-name") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaSheetName macro=text_tag(MetaSheetName,"text:sheet-name") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaSheetName { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaSheetName::vp_from(self) } }
impl MetaSheetName {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaSheetName> macro=text_tag(MetaSheetName,"text:sheet-name") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaSheetName::default trait=Default macro=text_tag(MetaSheetName,"text:sheet-name") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:sheet-name"@),
//@end
//@fn file=src/macro_text.rs path=MetaSheetName::new macro=text_tag(MetaSheetName,"text:sheet-name") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:sheet-name"@),
//@end
//@fn file=src/macro_text.rs path=MetaSheetName::tag macro=text_tag(MetaSheetName,"text:sheet-name") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaSheetName::text macro=text_tag(MetaSheetName,"text:sheet-name") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaSheetName::into_xmltag macro=text_tag(MetaSheetName,"text:sheet-name") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaInitialCreator macro=text_tag(MetaInitialCreator,"text:initial-creator") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaInitialCreator { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaInitialCreator::vp_from(self) } }
impl MetaInitialCreator {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaInitialCreator> macro=text_tag(MetaInitialCreator,"text:initial-creator") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaInitialCreator::default trait=Default macro=text_tag(MetaInitialCreator,"text:initial-creator") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:initial-creator"@),
//@end
//@fn file=src/macro_text.rs path=MetaInitialCreator::new macro=text_tag(MetaInitialCreator,"text:initial-creator") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:initial-creator"@),
//@end
//@fn file=src/macro_text.rs path=MetaInitialCreator::tag macro=text_tag(MetaInitialCreator,"text:initial-creator") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaInitialCreator::text macro=text_tag(MetaInitialCreator,"text:initial-creator") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaInitialCreator::into_xmltag macro=text_tag(MetaInitialCreator,"text:initial-creator") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaCreationDate macro=text_tag(MetaCreationDate,"text:creation-date") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaCreationDate { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaCreationDate::vp_from(self) } }
impl MetaCreationDate {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaCreationDate> macro=text_tag(MetaCreationDate,"text:creation-date") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaCreationDate::default trait=Default macro=text_tag(MetaCreationDate,"text:creation-date") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:creation-date"@),
//@end
//@fn file=src/macro_text.rs path=MetaCreationDate::new macro=text_tag(MetaCreationDate,"text:creation-date") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:creation-date"@),
//@end
//@fn file=src/macro_text.rs path=MetaCreationDate::tag macro=text_tag(MetaCreationDate,"text:creation-date") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaCreationDate::text macro=text_tag(MetaCreationDate,"text:creation-date") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaCreationDate::into_xmltag macro=text_tag(MetaCreationDate,"text:creation-date") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaCreationTime macro=text_tag(MetaCreationTime,"text:creation-time") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaCreationTime { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaCreationTime::vp_from(self) } }
impl MetaCreationTime {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaCreationTime> macro=text_tag(MetaCreationTime,"text:creation-time") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaCreationTime::default trait=Default macro=text_tag(MetaCreationTime,"text:creation-time") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:creation-time"@),
//@end
//@fn file=src/macro_text.rs path=MetaCreationTime::new macro=text_tag(MetaCreationTime,"text:creation-time") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:creation-time"@),
//@end
//@fn file=src/macro_text.rs path=MetaCreationTime::tag macro=text_tag(MetaCreationTime,"text:creation-time") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaCreationTime::text macro=text_tag(MetaCreationTime,"text:creation-time") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaCreationTime::into_xmltag macro=text_tag(MetaCreationTime,"text:creation-time") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaDescription macro=text_tag(MetaDescription,"text:description") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaDescription { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaDescription::vp_from(self) } }
impl MetaDescription {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaDescription> macro=text_tag(MetaDescription,"text:description") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaDescription::default trait=Default macro=text_tag(MetaDescription,"text:description") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:description"@),
//@end
//@fn file=src/macro_text.rs path=MetaDescription::new macro=text_tag(MetaDescription,"text:description") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:description"@),
//@end
//@fn file=src/macro_text.rs path=MetaDescription::tag macro=text_tag(MetaDescription,"text:description") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaDescription::text macro=text_tag(MetaDescription,"text:description") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaDescription::into_xmltag macro=text_tag(MetaDescription,"text:description") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaPrintTime macro=text_tag(MetaPrintTime,"text:print-time") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaPrintTime { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaPrintTime::vp_from(self) } }
impl MetaPrintTime {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaPrintTime> macro=text_tag(MetaPrintTime,"text:print-time") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaPrintTime::default trait=Default macro=text_tag(MetaPrintTime,"text:print-time") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:print-time"@),
//@end
//@fn file=src/macro_text.rs path=MetaPrintTime::new macro=text_tag(MetaPrintTime,"text:print-time") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:print-time"@),
//@end
//@fn file=src/macro_text.rs path=MetaPrintTime::tag macro=text_tag(MetaPrintTime,"text:print-time") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaPrintTime::text macro=text_tag(MetaPrintTime,"text:print-time") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaPrintTime::into_xmltag macro=text_tag(MetaPrintTime,"text:print-time") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaPrintDate macro=text_tag(MetaPrintDate,"text:print-date") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaPrintDate { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaPrintDate::vp_from(self) } }
impl MetaPrintDate {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaPrintDate> macro=text_tag(MetaPrintDate,"text:print-date") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaPrintDate::default trait=Default macro=text_tag(MetaPrintDate,"text:print-date") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:print-date"@),
//@end
//@fn file=src/macro_text.rs path=MetaPrintDate::new macro=text_tag(MetaPrintDate,"text:print-date") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:print-date"@),
//@end
//@fn file=src/macro_text.rs path=MetaPrintDate::tag macro=text_tag(MetaPrintDate,"text:print-date") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaPrintDate::text macro=text_tag(MetaPrintDate,"text:print-date") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaPrintDate::into_xmltag macro=text_tag(MetaPrintDate,"text:print-date") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaPrintedBy macro=text_tag(MetaPrintedBy,"text:printed-by") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaPrintedBy { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaPrintedBy::vp_from(self) } }
impl MetaPrintedBy {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaPrintedBy> macro=text_tag(MetaPrintedBy,"text:printed-by") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaPrintedBy::default trait=Default macro=text_tag(MetaPrintedBy,"text:printed-by") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:printed-by"@),
//@end
//@fn file=src/macro_text.rs path=MetaPrintedBy::new macro=text_tag(MetaPrintedBy,"text:printed-by") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:printed-by"@),
//@end
//@fn file=src/macro_text.rs path=MetaPrintedBy::tag macro=text_tag(MetaPrintedBy,"text:printed-by") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaPrintedBy::text macro=text_tag(MetaPrintedBy,"text:printed-by") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaPrintedBy::into_xmltag macro=text_tag(MetaPrintedBy,"text:printed-by") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaTitle macro=text_tag(MetaTitle,"text:title") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaTitle { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaTitle::vp_from(self) } }
impl MetaTitle {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaTitle> macro=text_tag(MetaTitle,"text:title") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaTitle::default trait=Default macro=text_tag(MetaTitle,"text:title") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:title"@),
//@end
//@fn file=src/macro_text.rs path=MetaTitle::new macro=text_tag(MetaTitle,"text:title") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:title"@),
//@end
//@fn file=src/macro_text.rs path=MetaTitle::tag macro=text_tag(MetaTitle,"text:title") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaTitle::text macro=text_tag(MetaTitle,"text:title") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaTitle::into_xmltag macro=text_tag(MetaTitle,"text:title") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaSubject macro=text_tag(MetaSubject,"text:subject") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaSubject { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaSubject::vp_from(self) } }
impl MetaSubject {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaSubject> macro=text_tag(MetaSubject,"text:subject") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaSubject::default trait=Default macro=text_tag(MetaSubject,"text:subject") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:subject"@),
//@end
//@fn file=src/macro_text.rs path=MetaSubject::new macro=text_tag(MetaSubject,"text:subject") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:subject"@),
//@end
//@fn file=src/macro_text.rs path=MetaSubject::tag macro=text_tag(MetaSubject,"text:subject") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaSubject::text macro=text_tag(MetaSubject,"text:subject") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaSubject::into_xmltag macro=text_tag(MetaSubject,"text:subject") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaKeywords macro=text_tag(MetaKeywords,"text:keywords") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaKeywords { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaKeywords::vp_from(self) } }
impl MetaKeywords {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaKeywords> macro=text_tag(MetaKeywords,"text:keywords") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaKeywords::default trait=Default macro=text_tag(MetaKeywords,"text:keywords") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:keywords"@),
//@end
//@fn file=src/macro_text.rs path=MetaKeywords::new macro=text_tag(MetaKeywords,"text:keywords") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:keywords"@),
//@end
//@fn file=src/macro_text.rs path=MetaKeywords::tag macro=text_tag(MetaKeywords,"text:keywords") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaKeywords::text macro=text_tag(MetaKeywords,"text:keywords") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaKeywords::into_xmltag macro=text_tag(MetaKeywords,"text:keywords") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaEditingCycles macro=text_tag(MetaEditingCycles,"text:editing-cycles") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaEditingCycles { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaEditingCycles::vp_from(self) } }
impl MetaEditingCycles {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaEditingCycles> macro=text_tag(MetaEditingCycles,"text:editing-cycles") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaEditingCycles::default trait=Default macro=text_tag(MetaEditingCycles,"text:editing-cycles") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:editing-cycles"@),
//@end
//@fn file=src/macro_text.rs path=MetaEditingCycles::new macro=text_tag(MetaEditingCycles,"text:editing-cycles") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:editing-cycles"@),
//@end
//@fn file=src/macro_text.rs path=MetaEditingCycles::tag macro=text_tag(MetaEditingCycles,"text:editing-cycles") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaEditingCycles::text macro=text_tag(MetaEditingCycles,"text:editing-cycles") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaEditingCycles::into_xmltag macro=text_tag(MetaEditingCycles,"text:editing-cycles") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaEditingDuration macro=text_tag(MetaEditingDuration,"text:editing-duration") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaEditingDuration { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaEditingDuration::vp_from(self) } }
impl MetaEditingDuration {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaEditingDuration> macro=text_tag(MetaEditingDuration,"text:editing-duration") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaEditingDuration::default trait=Default macro=text_tag(MetaEditingDuration,"text:editing-duration") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:editing-duration"@),
//@end
//@fn file=src/macro_text.rs path=MetaEditingDuration::new macro=text_tag(MetaEditingDuration,"text:editing-duration") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:editing-duration"@),
//@end
//@fn file=src/macro_text.rs path=MetaEditingDuration::tag macro=text_tag(MetaEditingDuration,"text:editing-duration") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaEditingDuration::text macro=text_tag(MetaEditingDuration,"text:editing-duration") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaEditingDuration::into_xmltag macro=text_tag(MetaEditingDuration,"text:editing-duration") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaModificationTime macro=text_tag(MetaModificationTime,"text:modification-time") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaModificationTime { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaModificationTime::vp_from(self) } }
impl MetaModificationTime {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaModificationTime> macro=text_tag(MetaModificationTime,"text:modification-time") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaModificationTime::default trait=Default macro=text_tag(MetaModificationTime,"text:modification-time") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:modification-time"@),
//@end
//@fn file=src/macro_text.rs path=MetaModificationTime::new macro=text_tag(MetaModificationTime,"text:modification-time") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:modification-time"@),
//@end
//@fn file=src/macro_text.rs path=MetaModificationTime::tag macro=text_tag(MetaModificationTime,"text:modification-time") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaModificationTime::text macro=text_tag(MetaModificationTime,"text:modification-time") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaModificationTime::into_xmltag macro=text_tag(MetaModificationTime,"text:modification-time") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaModificationDate macro=text_tag(MetaModificationDate,"text:modification-date") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaModificationDate { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaModificationDate::vp_from(self) } }
impl MetaModificationDate {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaModificationDate> macro=text_tag(MetaModificationDate,"text:modification-date") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaModificationDate::default trait=Default macro=text_tag(MetaModificationDate,"text:modification-date") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:modification-date"@),
//@end
//@fn file=src/macro_text.rs path=MetaModificationDate::new macro=text_tag(MetaModificationDate,"text:modification-date") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:modification-date"@),
//@end
//@fn file=src/macro_text.rs path=MetaModificationDate::tag macro=text_tag(MetaModificationDate,"text:modification-date") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaModificationDate::text macro=text_tag(MetaModificationDate,"text:modification-date") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaModificationDate::into_xmltag macro=text_tag(MetaModificationDate,"text:modification-date") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaCreator macro=text_tag(MetaCreator,"text:creator") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaCreator { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaCreator::vp_from(self) } }
impl MetaCreator {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaCreator> macro=text_tag(MetaCreator,"text:creator") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaCreator::default trait=Default macro=text_tag(MetaCreator,"text:creator") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:creator"@),
//@end
//@fn file=src/macro_text.rs path=MetaCreator::new macro=text_tag(MetaCreator,"text:creator") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:creator"@),
//@end
//@fn file=src/macro_text.rs path=MetaCreator::tag macro=text_tag(MetaCreator,"text:creator") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaCreator::text macro=text_tag(MetaCreator,"text:creator") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaCreator::into_xmltag macro=text_tag(MetaCreator,"text:creator") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaPageCount macro=text_tag(MetaPageCount,"text:page-count") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaPageCount { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaPageCount::vp_from(self) } }
impl MetaPageCount {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaPageCount> macro=text_tag(MetaPageCount,"text:page-count") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaPageCount::default trait=Default macro=text_tag(MetaPageCount,"text:page-count") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:page-count"@),
//@end
//@fn file=src/macro_text.rs path=MetaPageCount::new macro=text_tag(MetaPageCount,"text:page-count") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:page-count"@),
//@end
//@fn file=src/macro_text.rs path=MetaPageCount::tag macro=text_tag(MetaPageCount,"text:page-count") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaPageCount::text macro=text_tag(MetaPageCount,"text:page-count") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaPageCount::into_xmltag macro=text_tag(MetaPageCount,"text:page-count") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
//@struct file=src/macro_text.rs name=MetaCharacterCount macro=text_tag(MetaCharacterCount,"text:character-count") macro_in=src/text.rs
//@end
impl VpIntoTag for MetaCharacterCount { spec fn is(&self, t: XmlTag) -> bool { t == self.xml } fn into(self) -> (r: XmlTag) { MetaCharacterCount::vp_from(self) } }
impl MetaCharacterCount {
//@fn file=src/macro_text.rs path=XmlTag::from trait=From<MetaCharacterCount> macro=text_tag(MetaCharacterCount,"text:character-count") macro_in=src/text.rs as=vp_from
//@params t
//@ret r
//@spec
    ensures r == t.xml,
//@end
//@fn file=src/macro_text.rs path=MetaCharacterCount::default trait=Default macro=text_tag(MetaCharacterCount,"text:character-count") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:character-count"@),
//@end
//@fn file=src/macro_text.rs path=MetaCharacterCount::new macro=text_tag(MetaCharacterCount,"text:character-count") macro_in=src/text.rs
//@ret r
//@spec
    ensures is_new(r.xml, "text:character-count"@),
//@end
//@fn file=src/macro_text.rs path=MetaCharacterCount::tag macro=text_tag(MetaCharacterCount,"text:character-count") macro_in=src/text.rs
//@params tag
//@ret r
//@spec
    ensures plus_tag(self.xml.content@, r.xml.content@, tag), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaCharacterCount::text macro=text_tag(MetaCharacterCount,"text:character-count") macro_in=src/text.rs
//@params text
//@ret r
//@spec
    ensures plus_text(self.xml.content@, r.xml.content@, text.itext()), r.xml.name == self.xml.name, r.xml.attr == self.xml.attr,
//@end
//@fn file=src/macro_text.rs path=MetaCharacterCount::into_xmltag macro=text_tag(MetaCharacterCount,"text:character-count") macro_in=src/text.rs
//@ret r
//@spec
    ensures r == self.xml,
//@end
}
/// a list of names, each followed by a blank
spec fn names_text(v: Seq<Seq<char>>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { names_text(v, (n - 1) as nat) + v[n - 1] + seq![' '] } }

//@struct file=src/macro_style.rs name=ParagraphStyleRef macro=style_ref2(ParagraphStyleRef)>style_ref2_base(ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@end
impl ParagraphStyleRef { spec fn text(&self) -> Seq<char> { self.id@ }
    #[verifier::external_body] fn clone(&self) -> (r: ParagraphStyleRef) ensures r == *self { unimplemented!() }
//@fn file=src/macro_style.rs path=ParagraphStyleRef::as_str macro=style_ref2(ParagraphStyleRef)>style_ref2_base(ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@ret r
//@spec
    ensures r@ == self.text(),
//@end
//@fn file=src/macro_style.rs path=ParagraphStyleRef::from trait=From<&str> macro=style_ref2(ParagraphStyleRef)>style_ref2_base(ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs as=from_str
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@subst vp_show(&id) ==> vp_string(id)
//@spec
    ensures r.text() == id@,
//@end
//@fn file=src/macro_style.rs path=ParagraphStyleRef::from trait=From<String> macro=style_ref2(ParagraphStyleRef)>style_ref2_base(ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs as=from_string
//@params id
//@ret r
//@spec
    ensures r.text() == id@,
//@end
}
//@struct file=src/macro_style.rs name=TextStyleRef macro=style_ref2(TextStyleRef)>style_ref2_base(TextStyleRef) macro_in=src/style/textstyle.rs
//@end
impl TextStyleRef { spec fn text(&self) -> Seq<char> { self.id@ }
    #[verifier::external_body] fn clone(&self) -> (r: TextStyleRef) ensures r == *self { unimplemented!() }
//@fn file=src/macro_style.rs path=TextStyleRef::as_str macro=style_ref2(TextStyleRef)>style_ref2_base(TextStyleRef) macro_in=src/style/textstyle.rs
//@ret r
//@spec
    ensures r@ == self.text(),
//@end
//@fn file=src/macro_style.rs path=TextStyleRef::from trait=From<&str> macro=style_ref2(TextStyleRef)>style_ref2_base(TextStyleRef) macro_in=src/style/textstyle.rs as=from_str
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@subst vp_show(&id) ==> vp_string(id)
//@spec
    ensures r.text() == id@,
//@end
//@fn file=src/macro_style.rs path=TextStyleRef::from trait=From<String> macro=style_ref2(TextStyleRef)>style_ref2_base(TextStyleRef) macro_in=src/style/textstyle.rs as=from_string
//@params id
//@ret r
//@spec
    ensures r.text() == id@,
//@end
}
//@struct file=src/macro_style.rs name=GraphicStyleRef macro=style_ref2(GraphicStyleRef)>style_ref2_base(GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@end
impl GraphicStyleRef { spec fn text(&self) -> Seq<char> { self.id@ }
    #[verifier::external_body] fn clone(&self) -> (r: GraphicStyleRef) ensures r == *self { unimplemented!() }
//@fn file=src/macro_style.rs path=GraphicStyleRef::as_str macro=style_ref2(GraphicStyleRef)>style_ref2_base(GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@ret r
//@spec
    ensures r@ == self.text(),
//@end
//@fn file=src/macro_style.rs path=GraphicStyleRef::from trait=From<&str> macro=style_ref2(GraphicStyleRef)>style_ref2_base(GraphicStyleRef) macro_in=src/style/graphicstyle.rs as=from_str
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@subst vp_show(&id) ==> vp_string(id)
//@spec
    ensures r.text() == id@,
//@end
//@fn file=src/macro_style.rs path=GraphicStyleRef::from trait=From<String> macro=style_ref2(GraphicStyleRef)>style_ref2_base(GraphicStyleRef) macro_in=src/style/graphicstyle.rs as=from_string
//@params id
//@ret r
//@spec
    ensures r.text() == id@,
//@end
}
//@struct file=src/macro_style.rs name=PageStyleRef macro=style_ref2(PageStyleRef)>style_ref2_base(PageStyleRef) macro_in=src/style/pagestyle.rs
//@end
impl PageStyleRef { spec fn text(&self) -> Seq<char> { self.id@ }
    #[verifier::external_body] fn clone(&self) -> (r: PageStyleRef) ensures r == *self { unimplemented!() }
//@fn file=src/macro_style.rs path=PageStyleRef::as_str macro=style_ref2(PageStyleRef)>style_ref2_base(PageStyleRef) macro_in=src/style/pagestyle.rs
//@ret r
//@spec
    ensures r@ == self.text(),
//@end
//@fn file=src/macro_style.rs path=PageStyleRef::from trait=From<&str> macro=style_ref2(PageStyleRef)>style_ref2_base(PageStyleRef) macro_in=src/style/pagestyle.rs as=from_str
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@subst vp_show(&id) ==> vp_string(id)
//@spec
    ensures r.text() == id@,
//@end
//@fn file=src/macro_style.rs path=PageStyleRef::from trait=From<String> macro=style_ref2(PageStyleRef)>style_ref2_base(PageStyleRef) macro_in=src/style/pagestyle.rs as=from_string
//@params id
//@ret r
//@spec
    ensures r.text() == id@,
//@end
}
//@struct file=src/macro_style.rs name=MasterPageRef macro=style_ref2(MasterPageRef)>style_ref2_base(MasterPageRef) macro_in=src/style/masterpage.rs
//@end
impl MasterPageRef { spec fn text(&self) -> Seq<char> { self.id@ }
    #[verifier::external_body] fn clone(&self) -> (r: MasterPageRef) ensures r == *self { unimplemented!() }
//@fn file=src/macro_style.rs path=MasterPageRef::as_str macro=style_ref2(MasterPageRef)>style_ref2_base(MasterPageRef) macro_in=src/style/masterpage.rs
//@ret r
//@spec
    ensures r@ == self.text(),
//@end
//@fn file=src/macro_style.rs path=MasterPageRef::from trait=From<&str> macro=style_ref2(MasterPageRef)>style_ref2_base(MasterPageRef) macro_in=src/style/masterpage.rs as=from_str
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@subst vp_show(&id) ==> vp_string(id)
//@spec
    ensures r.text() == id@,
//@end
//@fn file=src/macro_style.rs path=MasterPageRef::from trait=From<String> macro=style_ref2(MasterPageRef)>style_ref2_base(MasterPageRef) macro_in=src/style/masterpage.rs as=from_string
//@params id
//@ret r
//@spec
    ensures r.text() == id@,
//@end
}
//@struct file=src/macro_style.rs name=ValidationRef macro=style_ref2(ValidationRef)>style_ref2_base(ValidationRef) macro_in=src/validation.rs
//@end
impl ValidationRef { spec fn text(&self) -> Seq<char> { self.id@ }
    #[verifier::external_body] fn clone(&self) -> (r: ValidationRef) ensures r == *self { unimplemented!() }
//@fn file=src/macro_style.rs path=ValidationRef::as_str macro=style_ref2(ValidationRef)>style_ref2_base(ValidationRef) macro_in=src/validation.rs
//@ret r
//@spec
    ensures r@ == self.text(),
//@end
//@fn file=src/macro_style.rs path=ValidationRef::from trait=From<&str> macro=style_ref2(ValidationRef)>style_ref2_base(ValidationRef) macro_in=src/validation.rs as=from_str
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@subst vp_show(&id) ==> vp_string(id)
//@spec
    ensures r.text() == id@,
//@end
//@fn file=src/macro_style.rs path=ValidationRef::from trait=From<String> macro=style_ref2(ValidationRef)>style_ref2_base(ValidationRef) macro_in=src/validation.rs as=from_string
//@params id
//@ret r
//@spec
    ensures r.text() == id@,
//@end
}
impl TextH {
//@fn file=src/text.rs path=TextH::class_names
//@params class_names
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("text:class-names"@, names_text(class_names@.map_values(|x: &ParagraphStyleRef| x.text()), class_names@.len())), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@loop 0 it=it
    invariant it.seq().len() == class_names@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == class_names@[i], self.xml.attr.wf(),
        buf@ =~= names_text(class_names@.map_values(|x: &ParagraphStyleRef| x.text()), it.index@ as nat),
//@end
//@fn file=src/text.rs path=TextH::style_name
//@params name
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("text:style-name"@, name.text()), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@end
//@fn file=src/text.rs path=TextH::condstyle_name
//@params name
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("text:cond-style-name"@, name.text()), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@end
//@fn file=src/text.rs path=TextH::id
//@params id
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("text:id"@, id@), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@end
//@fn file=src/text.rs path=TextH::xml_id
//@params id
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("xml:id"@, id@), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@end
//@fn file=src/text.rs path=TextH::list_header
//@params lh
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("text:is-list-header"@, lh.shown()), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@end
//@fn file=src/text.rs path=TextH::outline_level
//@params l
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("text:outline-level"@, l.shown()), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@end
//@fn file=src/text.rs path=TextH::restart_numbering
//@params r
//@ret rr
//@spec
    requires self.xml.attr.wf(),
    ensures rr.xml.attr.wf(), rr.xml.attr@ =~= self.xml.attr@.insert("text:restart-numbering"@, r.shown()), rr.xml.name == self.xml.name, rr.xml.content == self.xml.content,
//@end
//@fn file=src/text.rs path=TextH::start_value
//@params l
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("text:start-value"@, l.shown()), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@end
}
impl TextP {
//@fn file=src/text.rs path=TextP::class_names
//@params class_names
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("text:class-names"@, names_text(class_names@.map_values(|x: &ParagraphStyleRef| x.text()), class_names@.len())), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@loop 0 it=it
    invariant it.seq().len() == class_names@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == class_names@[i], self.xml.attr.wf(),
        buf@ =~= names_text(class_names@.map_values(|x: &ParagraphStyleRef| x.text()), it.index@ as nat),
//@end
//@fn file=src/text.rs path=TextP::style_name
//@params name
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("text:style-name"@, name.text()), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@end
//@fn file=src/text.rs path=TextP::condstyle_name
//@params name
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("text:cond-style-name"@, name.text()), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@end
//@fn file=src/text.rs path=TextP::id
//@params id
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("text:id"@, id@), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@end
//@fn file=src/text.rs path=TextP::xml_id
//@params id
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("xml:id"@, id@), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@end
}
impl TextSpan {
//@fn file=src/text.rs path=TextSpan::class_names
//@params class_names
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("text:class-names"@, names_text(class_names@.map_values(|x: &TextStyleRef| x.text()), class_names@.len())), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@loop 0 it=it
    invariant it.seq().len() == class_names@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == class_names@[i], self.xml.attr.wf(),
        buf@ =~= names_text(class_names@.map_values(|x: &TextStyleRef| x.text()), it.index@ as nat),
//@end
//@fn file=src/text.rs path=TextSpan::style_name
//@params name
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("text:style-name"@, name.text()), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@end
}
impl TextA {
//@fn file=src/text.rs path=TextA::style_name
//@params style
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("text:style-name"@, style.text()), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@end
//@fn file=src/text.rs path=TextA::visited_style_name
//@params style
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("text:visited-style-name"@, style.text()), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@end
//@fn file=src/text.rs path=TextA::href
//@params uri
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("xlink:href"@, uri.itext()), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@end
}
impl TextS {
//@fn file=src/text.rs path=TextS::count
//@params count
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("text:c"@, count.shown()), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@end
}
impl TextTab {
//@fn file=src/text.rs path=TextTab::tab_ref
//@params tab_ref
//@ret r
//@spec
    requires self.xml.attr.wf(),
    ensures r.xml.attr.wf(), r.xml.attr@ =~= self.xml.attr@.insert("text:tab-ref"@, tab_ref.shown()), r.xml.name == self.xml.name, r.xml.content == self.xml.content,
//@end
}
// ------------------------------------------------------------------ drawings
//@struct file=src/style/units.rs name=Length
//@end
impl Shown for Length { spec fn shown(&self) -> Seq<char> { match self { Length::Cm(v) => v.shown() + "cm"@, Length::Mm(v) => v.shown() + "mm"@, Length::In(v) => v.shown() + "in"@, Length::Pt(v) => v.shown() + "pt"@, Length::Pc(v) => v.shown() + "pc"@, Length::Em(v) => v.shown() + "em"@, Length::Default => ""@ } } }
impl Length {
//@fn file=src/style/units.rs path=Length::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}

//@struct file=src/style/units.rs name=Percent
//@end
impl Shown for Percent { spec fn shown(&self) -> Seq<char> { match self { Percent::Percent(v) => v.shown() + "%"@ } } }
impl Percent {
//@fn file=src/style/units.rs path=Percent::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}

//@struct file=src/style/units.rs name=RelativeScale
//@end
impl Shown for RelativeScale { spec fn shown(&self) -> Seq<char> { match self { RelativeScale::Scale => "scale"@, RelativeScale::ScaleMin => "scale-min"@, RelativeScale::Percent(v) => v.shown() } } }
impl RelativeScale {
//@fn file=src/style/units.rs path=RelativeScale::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}

//@struct file=src/xlink.rs name=XLinkActuate
//@end
impl Shown for XLinkActuate { spec fn shown(&self) -> Seq<char> { match self { XLinkActuate::OnLoad => "onLoad"@, XLinkActuate::OnRequest => "onRequest"@ } } }
impl XLinkActuate {
//@fn file=src/xlink.rs path=XLinkActuate::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}

//@struct file=src/xlink.rs name=XLinkShow
//@end
impl Shown for XLinkShow { spec fn shown(&self) -> Seq<char> { match self { XLinkShow::New => "new"@, XLinkShow::Replace => "replace"@ } } }
impl XLinkShow {
//@fn file=src/xlink.rs path=XLinkShow::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}

//@struct file=src/xlink.rs name=XLinkType
//@end
impl Shown for XLinkType { spec fn shown(&self) -> Seq<char> { match self { XLinkType::Simple => "simple"@, XLinkType::Extended => "extended"@, XLinkType::Locator => "locator"@, XLinkType::Arc => "arc"@, XLinkType::Resource => "resource"@, XLinkType::Title => "title"@, XLinkType::None => "none"@ } } }
impl XLinkType {
//@fn file=src/xlink.rs path=XLinkType::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}

#[verifier::external_body] struct CellRef {}
uninterp spec fn cellref_text(c: CellRef) -> Seq<char>;
impl Shown for CellRef { spec fn shown(&self) -> Seq<char> { cellref_text(*self) } }
#[verifier::external_body] struct NaiveDateTime {}
spec fn otext(s: Option<String>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
spec fn rtext(s: Option<&String>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
/// same but for the field named

//@struct file=src/draw.rs name=DrawFrameContent
//@end
//@struct file=src/draw.rs name=DrawImage
//@end
//@struct file=src/draw.rs name=DrawFrame
//@end
//@struct file=src/draw.rs name=Annotation
//@end
impl Annotation {
//@fn file=src/draw.rs path=Annotation::new_empty
//@ret r
//@spec
    ensures !r.display, r.text@.len() == 0, r.creator is None, r.date is None, r.attr.wf(), r.attr@ =~= no_attr(), r.name@ =~= Seq::<char>::empty(),
//@end
//@fn file=src/draw.rs path=Annotation::new
//@params annotation
//@ret r
//@spec
    ensures r.display, r.text@.len() == 1, is_par(r.text@[0], annotation.itext()), r.creator is None, r.date is None, r.attr.wf(), r.attr@ =~= no_attr(), r.name@ =~= Seq::<char>::empty(),
//@end
//@fn file=src/draw.rs path=Annotation::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/draw.rs path=Annotation::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, final(self).attr == *final(r), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
//@fn file=src/draw.rs path=Annotation::name
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/draw.rs path=Annotation::set_name
//@params name
//@spec
    ensures final(self).name@ == name.itext(), final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text, final(self).attr == old(self).attr,
//@end
//@fn file=src/draw.rs path=Annotation::display
//@ret r
//@spec
    ensures r == self.display,
//@end
//@fn file=src/draw.rs path=Annotation::set_display
//@params display
//@spec
    ensures final(self).display == display, final(self).name == old(self).name, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text, final(self).attr == old(self).attr,
//@end
//@fn file=src/draw.rs path=Annotation::creator
//@ret r
//@spec
    ensures rtext(r) == otext(self.creator),
//@end
//@fn file=src/draw.rs path=Annotation::set_creator
//@params creator
//@subst creator.map(|$idv| $e) ==> creator.map(|$idv: S| -> (o: String) ensures o@ == $idv.itext() { $e })
//@spec
    ensures match creator { Some(s) => otext(final(self).creator) == Some(s.itext()), None => final(self).creator is None }, final(self).name == old(self).name, final(self).display == old(self).display, final(self).date == old(self).date, final(self).text == old(self).text, final(self).attr == old(self).attr,
//@end
//@fn file=src/draw.rs path=Annotation::date
//@ret r
//@spec
    ensures match r { Some(d) => self.date == Some(*d), None => self.date is None },
//@end
//@fn file=src/draw.rs path=Annotation::set_date
//@params date
//@spec
    ensures final(self).date == date, final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).text == old(self).text, final(self).attr == old(self).attr,
//@end
//@fn file=src/draw.rs path=Annotation::text
//@ret r
//@spec
    ensures *r == self.text,
//@end
//@fn file=src/draw.rs path=Annotation::push_text
//@params text
//@spec
    ensures final(self).text@ =~= old(self).text@.push(text), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).attr == old(self).attr,
//@end
//@fn file=src/draw.rs path=Annotation::push_text_str
//@params text
//@spec
    ensures plus_par(old(self).text@, final(self).text@, text.itext()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).attr == old(self).attr,
//@end
//@fn file=src/draw.rs path=Annotation::set_text
//@params text
//@spec
    ensures final(self).text == text, final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).attr == old(self).attr,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_caption_point_x macro=draw_caption_point_x(attr) macro_in=src/draw.rs
//@params x
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:caption-point-x"@, x.shown()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_caption_point_y macro=draw_caption_point_y(attr) macro_in=src/draw.rs
//@params y
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:caption-point-y"@, y.shown()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_class_names macro=draw_class_names(attr) macro_in=src/draw.rs
//@params names
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:class-names"@, names_text(names@.map_values(|x: GraphicStyleRef| x.text()), names@.len())), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@loop 0 it=it
    invariant it.seq().len() == names@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == names@[i], self.attr.wf(), *self == *old(self),
        s@ =~= names_text(names@.map_values(|x: GraphicStyleRef| x.text()), it.index@ as nat),
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_corner_radius macro=draw_corner_radius(attr) macro_in=src/draw.rs
//@params radius
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:corner-radius"@, radius.shown()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_id macro=draw_id(attr) macro_in=src/draw.rs
//@params id
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:id"@, id.itext()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_layer macro=draw_layer(attr) macro_in=src/draw.rs
//@params layer
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:layer"@, layer.itext()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_style_name macro=draw_style_name(attr) macro_in=src/draw.rs
//@params style
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:style-name"@, style.text()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_text_style_name macro=draw_text_style_name(attr) macro_in=src/draw.rs
//@params style
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:text-style-name"@, style.text()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_transform macro=draw_transform(attr) macro_in=src/draw.rs
//@params transform
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:transform"@, names_text(transform@.map_values(|x: S| x.text()), transform@.len())), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@loop 0 it=it
    invariant it.seq().len() == transform@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == transform@[i], self.attr.wf(), *self == *old(self),
        s@ =~= names_text(transform@.map_values(|x: S| x.text()), it.index@ as nat),
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_z_index macro=draw_z_index(attr) macro_in=src/draw.rs
//@params z_index
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:z-index"@, z_index.shown()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_svg.rs path=set_height macro=svg_height(attr) macro_in=src/draw.rs
//@params height
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("svg:height"@, height.shown()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_svg.rs path=set_width macro=svg_width(attr) macro_in=src/draw.rs
//@params width
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("svg:width"@, width.shown()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_svg.rs path=svg_x macro=svg_x(attr) macro_in=src/draw.rs
//@params x
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("svg:x"@, x.shown()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_svg.rs path=svg_y macro=svg_y(attr) macro_in=src/draw.rs
//@params y
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("svg:y"@, y.shown()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_table.rs path=set_table_end_cell_address macro=table_end_cell_address(attr) macro_in=src/draw.rs
//@params cellref
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("table:end-cell-address"@, cellref.shown()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_table.rs path=set_table_end_x macro=table_end_x(attr) macro_in=src/draw.rs
//@params x
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("table:end-x"@, x.shown()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_table.rs path=set_table_end_y macro=table_end_y(attr) macro_in=src/draw.rs
//@params y
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("table:end-y"@, y.shown()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_table.rs path=set_table_table_background macro=table_table_background(attr) macro_in=src/draw.rs
//@params is_bg
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("table:table-background"@, is_bg.shown()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
//@fn file=src/macro_style.rs path=set_xml_id macro=xml_id(attr) macro_in=src/draw.rs
//@params id
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("xml:id"@, id.itext()), final(self).name == old(self).name, final(self).display == old(self).display, final(self).creator == old(self).creator, final(self).date == old(self).date, final(self).text == old(self).text,
//@end
}
impl DrawFrame {
    fn default() -> (r: DrawFrame) ensures r.title is None, r.desc is None, r.attr.wf(), r.attr@ =~= no_attr(), r.content@.len() == 0 { DrawFrame { title: None, desc: None, attr: AttrMap2::new(), content: Vec::new() } }
//@fn file=src/draw.rs path=DrawFrame::new
//@ret r
//@subst Default::default() ==> Self::default()
//@spec
    ensures r.title is None, r.desc is None, r.attr.wf(), r.attr@ =~= no_attr(), r.content@.len() == 0,
//@end
//@fn file=src/draw.rs path=DrawFrame::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/draw.rs path=DrawFrame::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, final(self).attr == *final(r), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/draw.rs path=DrawFrame::desc
//@ret r
//@spec
    ensures rtext(r) == otext(self.desc),
//@end
//@fn file=src/draw.rs path=DrawFrame::set_desc
//@params desc
//@spec
    ensures otext(final(self).desc) == Some(desc.itext()), final(self).title == old(self).title, final(self).attr == old(self).attr, final(self).content == old(self).content,
//@end
//@fn file=src/draw.rs path=DrawFrame::clear_desc
//@spec
    ensures final(self).desc is None, final(self).title == old(self).title, final(self).attr == old(self).attr, final(self).content == old(self).content,
//@end
//@fn file=src/draw.rs path=DrawFrame::title
//@ret r
//@spec
    ensures rtext(r) == otext(self.title),
//@end
//@fn file=src/draw.rs path=DrawFrame::set_title
//@params title
//@spec
    ensures otext(final(self).title) == Some(title.itext()), final(self).desc == old(self).desc, final(self).attr == old(self).attr, final(self).content == old(self).content,
//@end
//@fn file=src/draw.rs path=DrawFrame::clear_title
//@spec
    ensures final(self).title is None, final(self).desc == old(self).desc, final(self).attr == old(self).attr, final(self).content == old(self).content,
//@end
//@fn file=src/draw.rs path=DrawFrame::set_content
//@params content
//@spec
    ensures final(self).content == content, final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).attr == old(self).attr,
//@end
//@fn file=src/draw.rs path=DrawFrame::push_content
//@params content
//@spec
    ensures final(self).content@ =~= old(self).content@.push(content), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).attr == old(self).attr,
//@end
//@fn file=src/draw.rs path=DrawFrame::clear_content
//@spec
    ensures final(self).content@.len() == 0, final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).attr == old(self).attr,
//@end
//@fn file=src/draw.rs path=DrawFrame::content_ref
//@ret r
//@spec
    ensures *r == self.content,
//@end
//@fn file=src/draw.rs path=DrawFrame::content_mut
//@ret r
//@spec
    ensures *r == old(self).content, final(self).content == *final(r), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).attr == old(self).attr,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_name macro=draw_name(attr) macro_in=src/draw.rs
//@params id
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:name"@, id.itext()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_caption_id macro=draw_caption_id(attr) macro_in=src/draw.rs
//@params id
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:caption-id"@, id.itext()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_class_names macro=draw_class_names(attr) macro_in=src/draw.rs
//@params names
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:class-names"@, names_text(names@.map_values(|x: GraphicStyleRef| x.text()), names@.len())), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@loop 0 it=it
    invariant it.seq().len() == names@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == names@[i], self.attr.wf(), *self == *old(self),
        s@ =~= names_text(names@.map_values(|x: GraphicStyleRef| x.text()), it.index@ as nat),
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_corner_radius macro=draw_corner_radius(attr) macro_in=src/draw.rs
//@params radius
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:corner-radius"@, radius.shown()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_copy_of macro=draw_copy_of(attr) macro_in=src/draw.rs
//@params name
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:copy-of"@, name.itext()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_id macro=draw_id(attr) macro_in=src/draw.rs
//@params id
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:id"@, id.itext()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_layer macro=draw_layer(attr) macro_in=src/draw.rs
//@params layer
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:layer"@, layer.itext()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_style_name macro=draw_style_name(attr) macro_in=src/draw.rs
//@params style
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:style-name"@, style.text()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_text_style_name macro=draw_text_style_name(attr) macro_in=src/draw.rs
//@params style
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:text-style-name"@, style.text()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_transform macro=draw_transform(attr) macro_in=src/draw.rs
//@params transform
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:transform"@, names_text(transform@.map_values(|x: S| x.text()), transform@.len())), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@loop 0 it=it
    invariant it.seq().len() == transform@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == transform@[i], self.attr.wf(), *self == *old(self),
        s@ =~= names_text(transform@.map_values(|x: S| x.text()), it.index@ as nat),
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_z_index macro=draw_z_index(attr) macro_in=src/draw.rs
//@params z_index
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:z-index"@, z_index.shown()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_style.rs path=set_rel_height macro=style_rel_height(attr) macro_in=src/draw.rs
//@params rel_height
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("style:rel-height"@, rel_height.shown()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_style.rs path=set_rel_width macro=style_rel_width(attr) macro_in=src/draw.rs
//@params rel_width
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("style:rel-width"@, rel_width.shown()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_svg.rs path=set_height macro=svg_height(attr) macro_in=src/draw.rs
//@params height
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("svg:height"@, height.shown()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_svg.rs path=set_width macro=svg_width(attr) macro_in=src/draw.rs
//@params width
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("svg:width"@, width.shown()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_svg.rs path=svg_x macro=svg_x(attr) macro_in=src/draw.rs
//@params x
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("svg:x"@, x.shown()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_svg.rs path=svg_y macro=svg_y(attr) macro_in=src/draw.rs
//@params y
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("svg:y"@, y.shown()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_table.rs path=set_table_end_cell_address macro=table_end_cell_address(attr) macro_in=src/draw.rs
//@params cellref
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("table:end-cell-address"@, cellref.shown()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_table.rs path=set_table_end_x macro=table_end_x(attr) macro_in=src/draw.rs
//@params x
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("table:end-x"@, x.shown()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_table.rs path=set_table_end_y macro=table_end_y(attr) macro_in=src/draw.rs
//@params y
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("table:end-y"@, y.shown()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_attr_table.rs path=set_table_table_background macro=table_table_background(attr) macro_in=src/draw.rs
//@params is_bg
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("table:table-background"@, is_bg.shown()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
//@fn file=src/macro_style.rs path=set_xml_id macro=xml_id(attr) macro_in=src/draw.rs
//@params id
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("xml:id"@, id.itext()), final(self).title == old(self).title, final(self).desc == old(self).desc, final(self).content == old(self).content,
//@end
}
impl DrawImage {
    fn default() -> (r: DrawImage) ensures r.binary_data is None, r.attr.wf(), r.attr@ =~= no_attr(), r.text@.len() == 0 { DrawImage { binary_data: None, attr: AttrMap2::new(), text: Vec::new() } }
//@fn file=src/draw.rs path=DrawImage::new
//@ret r
//@subst Default::default() ==> Self::default()
//@spec
    ensures r.binary_data is None, r.attr.wf(), r.attr@ =~= no_attr(), r.text@.len() == 0,
//@end
//@fn file=src/draw.rs path=DrawImage::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/draw.rs path=DrawImage::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, final(self).attr == *final(r), final(self).binary_data == old(self).binary_data, final(self).text == old(self).text,
//@end
//@fn file=src/draw.rs path=DrawImage::get_binary_base64
//@ret r
//@spec
    ensures rtext(r) == otext(self.binary_data),
//@end
//@fn file=src/draw.rs path=DrawImage::set_binary_base64
//@params binary
//@spec
    ensures otext(final(self).binary_data) == Some(binary@), final(self).attr == old(self).attr, final(self).text == old(self).text,
//@end
//@fn file=src/draw.rs path=DrawImage::clear_binary
//@spec
    ensures final(self).binary_data is None, final(self).attr == old(self).attr, final(self).text == old(self).text,
//@end
//@fn file=src/draw.rs path=DrawImage::get_text
//@ret r
//@spec
    ensures *r == self.text,
//@end
//@fn file=src/draw.rs path=DrawImage::push_text
//@params text
//@spec
    ensures final(self).text@ =~= old(self).text@.push(text), final(self).attr == old(self).attr, final(self).binary_data == old(self).binary_data,
//@end
//@fn file=src/draw.rs path=DrawImage::push_text_str
//@params text
//@spec
    ensures plus_par(old(self).text@, final(self).text@, text.itext()), final(self).attr == old(self).attr, final(self).binary_data == old(self).binary_data,
//@end
//@fn file=src/draw.rs path=DrawImage::set_text
//@params text
//@spec
    ensures final(self).text == text, final(self).attr == old(self).attr, final(self).binary_data == old(self).binary_data,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_filter_name macro=draw_filter_name(attr) macro_in=src/draw.rs
//@params name
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:filter-name"@, name.itext()), final(self).binary_data == old(self).binary_data, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_draw.rs path=set_draw_mime_type macro=draw_mime_type(attr) macro_in=src/draw.rs
//@params name
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("draw:mime-type"@, name.itext()), final(self).binary_data == old(self).binary_data, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_xlink.rs path=set_xlink_actuate macro=xlink_actuate(attr) macro_in=src/draw.rs
//@params actuate
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("xlink:actuate"@, actuate.shown()), final(self).binary_data == old(self).binary_data, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_xlink.rs path=set_xlink_href macro=xlink_href(attr) macro_in=src/draw.rs
//@params href
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("xlink:href"@, href.itext()), final(self).binary_data == old(self).binary_data, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_xlink.rs path=set_xlink_show macro=xlink_show(attr) macro_in=src/draw.rs
//@params show
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("xlink:show"@, show.shown()), final(self).binary_data == old(self).binary_data, final(self).text == old(self).text,
//@end
//@fn file=src/macro_attr_xlink.rs path=set_xlink_type macro=xlink_type(attr) macro_in=src/draw.rs
//@params ty
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("xlink:type"@, ty.shown()), final(self).binary_data == old(self).binary_data, final(self).text == old(self).text,
//@end
//@fn file=src/macro_style.rs path=set_xml_id macro=xml_id(attr) macro_in=src/draw.rs
//@params id
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr.wf(), final(self).attr@ =~= old(self).attr@.insert("xml:id"@, id.itext()), final(self).binary_data == old(self).binary_data, final(self).text == old(self).text,
//@end
}
// ------------------------------------------------------------------ headers, footers, master pages
//@struct file=src/style/masterpage.rs name=HeaderFooter
//@end
//@struct file=src/style/masterpage.rs name=MasterPage
//@end
/// an empty header, which is shown once it is filled
spec fn hf_new(h: HeaderFooter) -> bool { h.display && hf_empty(h) }
spec fn hf_empty(h: HeaderFooter) -> bool { h.region_left@.len() == 0 && h.region_center@.len() == 0 && h.region_right@.len() == 0 && h.content@.len() == 0 }
impl HeaderFooter {
//@fn file=src/style/masterpage.rs path=HeaderFooter::new
//@ret r
//@spec
    ensures hf_new(r),
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::default trait=Default
//@ret r
//@spec
    ensures hf_new(r),
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::display
//@ret r
//@spec
    ensures r == self.display,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::set_display
//@params display
//@spec
    ensures final(self).display == display, final(self).region_left == old(self).region_left, final(self).region_center == old(self).region_center, final(self).region_right == old(self).region_right, final(self).content == old(self).content,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::is_empty
//@ret r
//@spec
    ensures r == hf_empty(*self),
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::set_left
//@params txt
//@spec
    ensures final(self).region_left == txt, final(self).display == old(self).display, final(self).region_center == old(self).region_center, final(self).region_right == old(self).region_right, final(self).content == old(self).content,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::add_left
//@params txt
//@spec
    ensures final(self).region_left@ =~= old(self).region_left@.push(txt), final(self).display == old(self).display, final(self).region_center == old(self).region_center, final(self).region_right == old(self).region_right, final(self).content == old(self).content,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::clear_left
//@spec
    ensures final(self).region_left@.len() == 0, final(self).display == old(self).display, final(self).region_center == old(self).region_center, final(self).region_right == old(self).region_right, final(self).content == old(self).content,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::left
//@ret r
//@spec
    ensures *r == self.region_left,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::left_mut
//@ret r
//@spec
    ensures *r == old(self).region_left, final(self).region_left == *final(r), final(self).display == old(self).display, final(self).region_center == old(self).region_center, final(self).region_right == old(self).region_right, final(self).content == old(self).content,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::set_center
//@params txt
//@spec
    ensures final(self).region_center == txt, final(self).display == old(self).display, final(self).region_left == old(self).region_left, final(self).region_right == old(self).region_right, final(self).content == old(self).content,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::add_center
//@params txt
//@spec
    ensures final(self).region_center@ =~= old(self).region_center@.push(txt), final(self).display == old(self).display, final(self).region_left == old(self).region_left, final(self).region_right == old(self).region_right, final(self).content == old(self).content,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::clear_center
//@spec
    ensures final(self).region_center@.len() == 0, final(self).display == old(self).display, final(self).region_left == old(self).region_left, final(self).region_right == old(self).region_right, final(self).content == old(self).content,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::center
//@ret r
//@spec
    ensures *r == self.region_center,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::center_mut
//@ret r
//@spec
    ensures *r == old(self).region_center, final(self).region_center == *final(r), final(self).display == old(self).display, final(self).region_left == old(self).region_left, final(self).region_right == old(self).region_right, final(self).content == old(self).content,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::set_right
//@params txt
//@spec
    ensures final(self).region_right == txt, final(self).display == old(self).display, final(self).region_left == old(self).region_left, final(self).region_center == old(self).region_center, final(self).content == old(self).content,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::add_right
//@params txt
//@spec
    ensures final(self).region_right@ =~= old(self).region_right@.push(txt), final(self).display == old(self).display, final(self).region_left == old(self).region_left, final(self).region_center == old(self).region_center, final(self).content == old(self).content,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::clear_right
//@spec
    ensures final(self).region_right@.len() == 0, final(self).display == old(self).display, final(self).region_left == old(self).region_left, final(self).region_center == old(self).region_center, final(self).content == old(self).content,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::right
//@ret r
//@spec
    ensures *r == self.region_right,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::right_mut
//@ret r
//@spec
    ensures *r == old(self).region_right, final(self).region_right == *final(r), final(self).display == old(self).display, final(self).region_left == old(self).region_left, final(self).region_center == old(self).region_center, final(self).content == old(self).content,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::set_content
//@params txt
//@spec
    ensures final(self).content == txt, final(self).display == old(self).display, final(self).region_left == old(self).region_left, final(self).region_center == old(self).region_center, final(self).region_right == old(self).region_right,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::add_content
//@params txt
//@spec
    ensures final(self).content@ =~= old(self).content@.push(txt), final(self).display == old(self).display, final(self).region_left == old(self).region_left, final(self).region_center == old(self).region_center, final(self).region_right == old(self).region_right,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::content
//@ret r
//@spec
    ensures *r == self.content,
//@end
//@fn file=src/style/masterpage.rs path=HeaderFooter::content_mut
//@ret r
//@spec
    ensures *r == old(self).content, final(self).content == *final(r), final(self).display == old(self).display, final(self).region_left == old(self).region_left, final(self).region_center == old(self).region_center, final(self).region_right == old(self).region_right,
//@end
}
impl MasterPage {
//@fn file=src/style/masterpage.rs path=MasterPage::new_empty
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.display_name@ =~= Seq::<char>::empty(), r.pagestyle is None, r.next_style_name is None, hf_new(r.header), hf_new(r.header_first), hf_new(r.header_left), hf_new(r.footer), hf_new(r.footer_first), hf_new(r.footer_left),
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::new
//@params name
//@ret r
//@spec
    ensures r.name@ == name.text(), r.display_name@ =~= Seq::<char>::empty(), r.pagestyle is None, r.next_style_name is None, hf_new(r.header), hf_new(r.header_first), hf_new(r.header_left), hf_new(r.footer), hf_new(r.footer_first), hf_new(r.footer_left),
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::masterpage_ref
//@ret r
//@subst MasterPageRef::from(self.name()) ==> MasterPageRef::from_str(self.name().as_str())
//@spec
    ensures r.text() == self.name@,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_name
//@params name
//@spec
    ensures final(self).name == name, final(self).display_name == old(self).display_name, final(self).pagestyle == old(self).pagestyle, final(self).next_style_name == old(self).next_style_name, final(self).header == old(self).header, final(self).header_first == old(self).header_first, final(self).header_left == old(self).header_left, final(self).footer == old(self).footer, final(self).footer_first == old(self).footer_first, final(self).footer_left == old(self).footer_left,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::name
//@ret r
//@spec
    ensures *r == self.name,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_display_name
//@params display_name
//@spec
    ensures final(self).display_name == display_name, final(self).name == old(self).name, final(self).pagestyle == old(self).pagestyle, final(self).next_style_name == old(self).next_style_name, final(self).header == old(self).header, final(self).header_first == old(self).header_first, final(self).header_left == old(self).header_left, final(self).footer == old(self).footer, final(self).footer_first == old(self).footer_first, final(self).footer_left == old(self).footer_left,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::display_name
//@ret r
//@spec
    ensures *r == self.display_name,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_pagestyle
//@params name
//@spec
    ensures final(self).pagestyle == Some(*name), final(self).name == old(self).name, final(self).display_name == old(self).display_name, final(self).next_style_name == old(self).next_style_name, final(self).header == old(self).header, final(self).header_first == old(self).header_first, final(self).header_left == old(self).header_left, final(self).footer == old(self).footer, final(self).footer_first == old(self).footer_first, final(self).footer_left == old(self).footer_left,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::pagestyle
//@ret r
//@spec
    ensures match r { Some(p) => self.pagestyle == Some(*p), None => self.pagestyle is None },
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_next_masterpage
//@params master
//@spec
    ensures final(self).next_style_name == Some(*master), final(self).name == old(self).name, final(self).display_name == old(self).display_name, final(self).pagestyle == old(self).pagestyle, final(self).header == old(self).header, final(self).header_first == old(self).header_first, final(self).header_left == old(self).header_left, final(self).footer == old(self).footer, final(self).footer_first == old(self).footer_first, final(self).footer_left == old(self).footer_left,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::next_masterpage
//@ret r
//@spec
    ensures match r { Some(p) => self.next_style_name == Some(*p), None => self.next_style_name is None },
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_header
//@params header
//@spec
    ensures final(self).header == header, final(self).name == old(self).name, final(self).display_name == old(self).display_name, final(self).pagestyle == old(self).pagestyle, final(self).next_style_name == old(self).next_style_name, final(self).header_first == old(self).header_first, final(self).header_left == old(self).header_left, final(self).footer == old(self).footer, final(self).footer_first == old(self).footer_first, final(self).footer_left == old(self).footer_left,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::header
//@ret r
//@spec
    ensures *r == self.header,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::header_mut
//@ret r
//@spec
    ensures *r == old(self).header, final(self).header == *final(r), final(self).name == old(self).name, final(self).display_name == old(self).display_name, final(self).pagestyle == old(self).pagestyle, final(self).next_style_name == old(self).next_style_name, final(self).header_first == old(self).header_first, final(self).header_left == old(self).header_left, final(self).footer == old(self).footer, final(self).footer_first == old(self).footer_first, final(self).footer_left == old(self).footer_left,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_header_first
//@params header
//@spec
    ensures final(self).header_first == header, final(self).name == old(self).name, final(self).display_name == old(self).display_name, final(self).pagestyle == old(self).pagestyle, final(self).next_style_name == old(self).next_style_name, final(self).header == old(self).header, final(self).header_left == old(self).header_left, final(self).footer == old(self).footer, final(self).footer_first == old(self).footer_first, final(self).footer_left == old(self).footer_left,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::header_first
//@ret r
//@spec
    ensures *r == self.header_first,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::header_first_mut
//@ret r
//@spec
    ensures *r == old(self).header_first, final(self).header_first == *final(r), final(self).name == old(self).name, final(self).display_name == old(self).display_name, final(self).pagestyle == old(self).pagestyle, final(self).next_style_name == old(self).next_style_name, final(self).header == old(self).header, final(self).header_left == old(self).header_left, final(self).footer == old(self).footer, final(self).footer_first == old(self).footer_first, final(self).footer_left == old(self).footer_left,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_header_left
//@params header
//@spec
    ensures final(self).header_left == header, final(self).name == old(self).name, final(self).display_name == old(self).display_name, final(self).pagestyle == old(self).pagestyle, final(self).next_style_name == old(self).next_style_name, final(self).header == old(self).header, final(self).header_first == old(self).header_first, final(self).footer == old(self).footer, final(self).footer_first == old(self).footer_first, final(self).footer_left == old(self).footer_left,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::header_left
//@ret r
//@spec
    ensures *r == self.header_left,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::header_left_mut
//@ret r
//@spec
    ensures *r == old(self).header_left, final(self).header_left == *final(r), final(self).name == old(self).name, final(self).display_name == old(self).display_name, final(self).pagestyle == old(self).pagestyle, final(self).next_style_name == old(self).next_style_name, final(self).header == old(self).header, final(self).header_first == old(self).header_first, final(self).footer == old(self).footer, final(self).footer_first == old(self).footer_first, final(self).footer_left == old(self).footer_left,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_footer
//@params footer
//@spec
    ensures final(self).footer == footer, final(self).name == old(self).name, final(self).display_name == old(self).display_name, final(self).pagestyle == old(self).pagestyle, final(self).next_style_name == old(self).next_style_name, final(self).header == old(self).header, final(self).header_first == old(self).header_first, final(self).header_left == old(self).header_left, final(self).footer_first == old(self).footer_first, final(self).footer_left == old(self).footer_left,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::footer
//@ret r
//@spec
    ensures *r == self.footer,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::footer_mut
//@ret r
//@spec
    ensures *r == old(self).footer, final(self).footer == *final(r), final(self).name == old(self).name, final(self).display_name == old(self).display_name, final(self).pagestyle == old(self).pagestyle, final(self).next_style_name == old(self).next_style_name, final(self).header == old(self).header, final(self).header_first == old(self).header_first, final(self).header_left == old(self).header_left, final(self).footer_first == old(self).footer_first, final(self).footer_left == old(self).footer_left,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_footer_first
//@params footer
//@spec
    ensures final(self).footer_first == footer, final(self).name == old(self).name, final(self).display_name == old(self).display_name, final(self).pagestyle == old(self).pagestyle, final(self).next_style_name == old(self).next_style_name, final(self).header == old(self).header, final(self).header_first == old(self).header_first, final(self).header_left == old(self).header_left, final(self).footer == old(self).footer, final(self).footer_left == old(self).footer_left,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::footer_first
//@ret r
//@spec
    ensures *r == self.footer_first,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::footer_first_mut
//@ret r
//@spec
    ensures *r == old(self).footer_first, final(self).footer_first == *final(r), final(self).name == old(self).name, final(self).display_name == old(self).display_name, final(self).pagestyle == old(self).pagestyle, final(self).next_style_name == old(self).next_style_name, final(self).header == old(self).header, final(self).header_first == old(self).header_first, final(self).header_left == old(self).header_left, final(self).footer == old(self).footer, final(self).footer_left == old(self).footer_left,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_footer_left
//@params footer
//@spec
    ensures final(self).footer_left == footer, final(self).name == old(self).name, final(self).display_name == old(self).display_name, final(self).pagestyle == old(self).pagestyle, final(self).next_style_name == old(self).next_style_name, final(self).header == old(self).header, final(self).header_first == old(self).header_first, final(self).header_left == old(self).header_left, final(self).footer == old(self).footer, final(self).footer_first == old(self).footer_first,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::footer_left
//@ret r
//@spec
    ensures *r == self.footer_left,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::footer_left_mut
//@ret r
//@spec
    ensures *r == old(self).footer_left, final(self).footer_left == *final(r), final(self).name == old(self).name, final(self).display_name == old(self).display_name, final(self).pagestyle == old(self).pagestyle, final(self).next_style_name == old(self).next_style_name, final(self).header == old(self).header, final(self).header_first == old(self).header_first, final(self).header_left == old(self).header_left, final(self).footer == old(self).footer, final(self).footer_first == old(self).footer_first,
//@end
}
// ------------------------------------------------------------------ checks and conditional styles
#[verifier::external_body] struct Condition {}
#[verifier::external_body] struct ValueCondition {}
uninterp spec fn def_condition() -> Condition;
uninterp spec fn def_cellref() -> CellRef;
#[verifier::external_body] fn vp_condition() -> (r: Condition) ensures r == def_condition() { unimplemented!() }
#[verifier::external_body] fn vp_cellref() -> (r: CellRef) ensures r == def_cellref() { unimplemented!() }
#[verifier::external_body] fn vp_clone(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] fn vp_deref_str(s: &Option<String>) -> (r: Option<&str>) ensures match r { Some(x) => otext(*s) == Some(x@), None => s is None } { unimplemented!() }
fn vp_deref_tag(s: &Option<Box<TextTag>>) -> (r: Option<&TextTag>) ensures match r { Some(x) => *s matches Some(b) && *b == *x, None => s is None } { match s { Some(b) => Some(b), None => None } }
impl ValidationDisplay { fn vp_default() -> (r: ValidationDisplay) ensures r is Unsorted { ValidationDisplay::Unsorted } }
//@struct file=src/validation.rs name=ValidationDisplay attr=derive(Clone,Copy)
//@end
//@struct file=src/validation.rs name=MessageType attr=derive(Clone,Copy)
//@end
//@struct file=src/validation.rs name=ValidationHelp
//@end
//@struct file=src/validation.rs name=ValidationError
//@end
//@struct file=src/validation.rs name=Validation
//@end
spec fn tagof(t: Option<Box<TextTag>>) -> Option<TextTag> { match t { Some(b) => Some(*b), None => None } }
spec fn rtag(t: Option<&TextTag>) -> Option<TextTag> { match t { Some(b) => Some(*b), None => None } }
impl Shown for MessageType { spec fn shown(&self) -> Seq<char> { match self { MessageType::Error => "stop"@, MessageType::Warning => "warning"@, MessageType::Info => "information"@ } } }
impl MessageType {
//@fn file=src/validation.rs path=MessageType::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@end
}
impl ValidationHelp {
//@fn file=src/validation.rs path=ValidationHelp::new
//@ret r
//@spec
    ensures r.display, r.title is None, r.text is None,
//@end
//@fn file=src/validation.rs path=ValidationHelp::default trait=Default
//@ret r
//@spec
    ensures r.display, r.title is None, r.text is None,
//@end
//@fn file=src/validation.rs path=ValidationHelp::set_display
//@params display
//@spec
    ensures final(self).display == display, final(self).title == old(self).title, final(self).text == old(self).text,
//@end
//@fn file=src/validation.rs path=ValidationHelp::display
//@ret r
//@spec
    ensures r == self.display,
//@end
//@fn file=src/validation.rs path=ValidationHelp::set_title
//@params title
//@spec
    ensures final(self).title == title, final(self).display == old(self).display, final(self).text == old(self).text,
//@end
//@fn file=src/validation.rs path=ValidationHelp::title
//@ret r
//@spec
    ensures match r { Some(x) => otext(self.title) == Some(x@), None => self.title is None },
//@end
//@fn file=src/validation.rs path=ValidationHelp::set_text
//@params text
//@spec
    ensures tagof(final(self).text) == text, final(self).display == old(self).display, final(self).title == old(self).title,
//@end
//@fn file=src/validation.rs path=ValidationHelp::text
//@ret r
//@spec
    ensures rtag(r) == tagof(self.text),
//@end
}
impl ValidationError {
//@fn file=src/validation.rs path=ValidationError::new
//@ret r
//@spec
    ensures r.display, r.title is None, r.text is None, r.msg_type is Error,
//@end
//@fn file=src/validation.rs path=ValidationError::default trait=Default
//@ret r
//@spec
    ensures r.display, r.title is None, r.text is None, r.msg_type is Error,
//@end
//@fn file=src/validation.rs path=ValidationError::set_display
//@params display
//@spec
    ensures final(self).display == display, final(self).msg_type == old(self).msg_type, final(self).title == old(self).title, final(self).text == old(self).text,
//@end
//@fn file=src/validation.rs path=ValidationError::display
//@ret r
//@spec
    ensures r == self.display,
//@end
//@fn file=src/validation.rs path=ValidationError::set_title
//@params title
//@spec
    ensures final(self).title == title, final(self).display == old(self).display, final(self).msg_type == old(self).msg_type, final(self).text == old(self).text,
//@end
//@fn file=src/validation.rs path=ValidationError::title
//@ret r
//@spec
    ensures match r { Some(x) => otext(self.title) == Some(x@), None => self.title is None },
//@end
//@fn file=src/validation.rs path=ValidationError::set_text
//@params text
//@spec
    ensures tagof(final(self).text) == text, final(self).display == old(self).display, final(self).msg_type == old(self).msg_type, final(self).title == old(self).title,
//@end
//@fn file=src/validation.rs path=ValidationError::text
//@ret r
//@spec
    ensures rtag(r) == tagof(self.text),
//@end
//@fn file=src/validation.rs path=ValidationError::set_msg_type
//@params msg_type
//@spec
    ensures final(self).msg_type == msg_type, final(self).display == old(self).display, final(self).title == old(self).title, final(self).text == old(self).text,
//@end
//@fn file=src/validation.rs path=ValidationError::msg_type
//@ret r
//@spec
    ensures *r == self.msg_type,
//@end
}
impl Validation {
//@fn file=src/validation.rs path=Validation::new
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.condition == def_condition(), r.base_cell == def_cellref(), r.allow_empty, r.display_list is Unsorted, r.help is None, r.err matches Some(e) && e.display && e.msg_type is Error && e.title is None && e.text is None,
//@end
//@fn file=src/validation.rs path=Validation::set_name
//@params name
//@spec
    ensures final(self).name@ == name.text(), final(self).condition == old(self).condition, final(self).base_cell == old(self).base_cell, final(self).allow_empty == old(self).allow_empty, final(self).display_list == old(self).display_list, final(self).err == old(self).err, final(self).help == old(self).help,
//@end
//@fn file=src/validation.rs path=Validation::name
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/validation.rs path=Validation::validation_ref
//@ret r
//@subst ValidationRef::from(self.name.clone()) ==> ValidationRef::from_string(vp_clone(&self.name))
//@spec
    ensures r.text() == self.name@,
//@end
//@fn file=src/validation.rs path=Validation::set_condition
//@params cond
//@spec
    ensures final(self).condition == cond, final(self).name == old(self).name, final(self).base_cell == old(self).base_cell, final(self).allow_empty == old(self).allow_empty, final(self).display_list == old(self).display_list, final(self).err == old(self).err, final(self).help == old(self).help,
//@end
//@fn file=src/validation.rs path=Validation::condition
//@ret r
//@spec
    ensures *r == self.condition,
//@end
//@fn file=src/validation.rs path=Validation::set_base_cell
//@params base
//@spec
    ensures final(self).base_cell == base, final(self).name == old(self).name, final(self).condition == old(self).condition, final(self).allow_empty == old(self).allow_empty, final(self).display_list == old(self).display_list, final(self).err == old(self).err, final(self).help == old(self).help,
//@end
//@fn file=src/validation.rs path=Validation::base_cell
//@ret r
//@spec
    ensures *r == self.base_cell,
//@end
//@fn file=src/validation.rs path=Validation::set_allow_empty
//@params allow
//@spec
    ensures final(self).allow_empty == allow, final(self).name == old(self).name, final(self).condition == old(self).condition, final(self).base_cell == old(self).base_cell, final(self).display_list == old(self).display_list, final(self).err == old(self).err, final(self).help == old(self).help,
//@end
//@fn file=src/validation.rs path=Validation::allow_empty
//@ret r
//@spec
    ensures r == self.allow_empty,
//@end
//@fn file=src/validation.rs path=Validation::set_display
//@params display
//@spec
    ensures final(self).display_list == display, final(self).name == old(self).name, final(self).condition == old(self).condition, final(self).base_cell == old(self).base_cell, final(self).allow_empty == old(self).allow_empty, final(self).err == old(self).err, final(self).help == old(self).help,
//@end
//@fn file=src/validation.rs path=Validation::display
//@ret r
//@spec
    ensures r == self.display_list,
//@end
//@fn file=src/validation.rs path=Validation::set_err
//@params err
//@spec
    ensures final(self).err == err, final(self).name == old(self).name, final(self).condition == old(self).condition, final(self).base_cell == old(self).base_cell, final(self).allow_empty == old(self).allow_empty, final(self).display_list == old(self).display_list, final(self).help == old(self).help,
//@end
//@fn file=src/validation.rs path=Validation::err
//@ret r
//@spec
    ensures match r { Some(x) => self.err == Some(*x), None => self.err is None },
//@end
//@fn file=src/validation.rs path=Validation::set_help
//@params help
//@spec
    ensures final(self).help == help, final(self).name == old(self).name, final(self).condition == old(self).condition, final(self).base_cell == old(self).base_cell, final(self).allow_empty == old(self).allow_empty, final(self).display_list == old(self).display_list, final(self).err == old(self).err,
//@end
//@fn file=src/validation.rs path=Validation::help
//@ret r
//@spec
    ensures match r { Some(x) => self.help == Some(*x), None => self.help is None },
//@end
}
//@struct file=src/macro_style.rs name=AnyStyleRef macro=style_ref2_base(AnyStyleRef) macro_in=src/style/mod.rs
//@end
impl AnyStyleRef { spec fn text(&self) -> Seq<char> { self.id@ }
//@fn file=src/macro_style.rs path=AnyStyleRef::from trait=From<&str> macro=style_ref2_base(AnyStyleRef) macro_in=src/style/mod.rs as=from_str
//@params id
//@ret r
//@subst vp_show(&id) ==> vp_string(id)
//@subst id.to_string() ==> vp_string(id)
//@spec
    ensures r.text() == id@,
//@end
}
//@struct file=src/style/stylemap.rs name=StyleMap
//@end
//@struct file=src/format/stylemap.rs name=ValueStyleMap
//@end
impl StyleMap {
//@fn file=src/style/stylemap.rs path=StyleMap::new_empty
//@ret r
//@subst AnyStyleRef::from("") ==> AnyStyleRef::from_str("")
//@spec
    ensures r.condition == def_condition(), r.applied_style.text() =~= Seq::<char>::empty(), r.base_cell is None,
//@at start
    proof { reveal_strlit(""); }
//@end
//@fn file=src/style/stylemap.rs path=StyleMap::new
//@params condition applied_style base_cell
//@ret r
//@spec
    ensures r.condition == condition, r.applied_style == applied_style, r.base_cell == base_cell,
//@end
//@fn file=src/style/stylemap.rs path=StyleMap::set_condition
//@params cond
//@spec
    ensures final(self).condition == cond, final(self).applied_style == old(self).applied_style, final(self).base_cell == old(self).base_cell,
//@end
//@fn file=src/style/stylemap.rs path=StyleMap::condition
//@ret r
//@spec
    ensures *r == self.condition,
//@end
//@fn file=src/style/stylemap.rs path=StyleMap::set_applied_style
//@params style
//@spec
    ensures final(self).applied_style == style, final(self).condition == old(self).condition, final(self).base_cell == old(self).base_cell,
//@end
//@fn file=src/style/stylemap.rs path=StyleMap::applied_style
//@ret r
//@spec
    ensures *r == self.applied_style,
//@end
//@fn file=src/style/stylemap.rs path=StyleMap::set_base_cell
//@params cellref
//@spec
    ensures final(self).base_cell == cellref, final(self).condition == old(self).condition, final(self).applied_style == old(self).applied_style,
//@end
//@fn file=src/style/stylemap.rs path=StyleMap::base_cell
//@ret r
//@spec
    ensures match r { Some(x) => self.base_cell == Some(*x), None => self.base_cell is None },
//@end
}
impl ValueStyleMap {
//@fn file=src/format/stylemap.rs path=ValueStyleMap::new
//@params condition applied_style
//@ret r
//@spec
    ensures r.condition == condition, r.applied_style@ == applied_style.text(),
//@end
//@fn file=src/format/stylemap.rs path=ValueStyleMap::set_condition
//@params cond
//@spec
    ensures final(self).condition == cond, final(self).applied_style == old(self).applied_style,
//@end
//@fn file=src/format/stylemap.rs path=ValueStyleMap::condition
//@ret r
//@spec
    ensures *r == self.condition,
//@end
//@fn file=src/format/stylemap.rs path=ValueStyleMap::set_applied_style
//@params style
//@spec
    ensures final(self).applied_style@ == style.text(), final(self).condition == old(self).condition,
//@end
//@fn file=src/format/stylemap.rs path=ValueStyleMap::applied_style
//@ret r
//@spec
    ensures *r == self.applied_style,
//@end
}
// ------------------------------------------------------------------ theorems
/// what was set is what is got, and nothing else changed
proof fn thm_set_get(m: IMap<Seq<char>, Seq<char>>, k: Seq<char>, v: Seq<char>, j: Seq<char>)
    ensures m.insert(k, v)[k] == v, m.insert(k, v).contains_key(k), j != k ==> m.insert(k, v).contains_key(j) == m.contains_key(j) && (m.contains_key(j) ==> m.insert(k, v)[j] == m[j])
{ }
/// the plain text of a paragraph with one text is that text
proof fn thm_par(t: XmlTag, s: Seq<char>) requires is_par(t, s) ensures plain(t) =~= s
{ assert(plain(t) == plain_n(t.content, 1)); assert(plain_n(t.content, 1) == plain_n(t.content, 0) + plain_c(t.content@[0])); assert(plain_n(t.content, 0) =~= Seq::<char>::empty()); }
} // verus!
fn main() {}
