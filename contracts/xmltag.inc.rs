// ------------------------------------------------------------------ markup that is passed through
//@struct file=src/xmltree.rs name=XmlTag
//@end
//@struct file=src/xmltree.rs name=XmlContent
//@end
type TextTag = XmlTag;
impl XmlTag {
//@fn file=src/xmltree.rs path=XmlTag::name
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/xmltree.rs path=XmlTag::is_empty
//@ret r
//@spec
    ensures r == (self.content@.len() == 0),
//@end
//@fn file=src/xmltree.rs path=XmlTag::attrmap
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/xmltree.rs path=XmlTag::content
//@ret r
//@spec
    ensures *r == self.content,
//@end
}
spec fn w_tag(w: W, t: XmlTag) -> W decreases t, 0nat
{
    let has = t.content@.len() > 0;
    w_end_if(w_cons(w_amap(w_if(w, has, t.name@), t.attr), t.content, t.content@.len()), has, t.name@)
}
spec fn w_cons(w: W, v: Vec<XmlContent>, n: nat) -> W decreases v, n
{ if n == 0 || n > v@.len() { w } else { w_con(w_cons(w, v, (n - 1) as nat), v@[n - 1]) } }
spec fn w_con(w: W, c: XmlContent) -> W decreases c, 0nat
{ match c { XmlContent::Text(t) => w_text(w, t@), XmlContent::Tag(t) => w_tag(w, t) } }
/// the same for a list of elements
spec fn w_tags(w: W, v: Seq<XmlTag>, n: nat) -> W decreases n { if n == 0 { w } else { w_tag(w_tags(w, v, (n - 1) as nat), v[n - 1]) } }
//@fn file=src/io/write.rs path=write_xmlcontent attr=verifier::exec_allows_no_decreases_clause
//@params x, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_con(old(xml_out)@, *x) && final(xml_out)@.stack == old(xml_out)@.stack,
//@end
//@fn file=src/io/write.rs path=write_xmltag attr=verifier::exec_allows_no_decreases_clause
//@params x, xml_out
//@ret r
//@spec
    ensures r is Ok ==> final(xml_out)@ == w_tag(old(xml_out)@, *x) && final(xml_out)@.stack == old(xml_out)@.stack,
//@at start
    let ghost w0 = xml_out@;
    let ghost has = x.content@.len() > 0;
//@loop 0 it=it
    invariant has == (x.content@.len() > 0), it.seq().len() == x.attr.keys@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == x.attr.keys@[i]@ && it.seq()[i].1@ == x.attr.values@[i]@,
        xml_out@ == w_attrs(w_if(w0, has, x.name@), x.attr, it.index@ as nat), xml_out@.cur is Some,
        xml_out@.stack == w_if(w0, has, x.name@).stack,
//@loop 1 it=it
    invariant has == (x.content@.len() > 0), it.seq().len() == x.content@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == x.content@[i],
        xml_out@ == w_cons(w_amap(w_if(w0, has, x.name@), x.attr), x.content, it.index@ as nat),
        xml_out@.stack == w_if(w0, has, x.name@).stack,
//@at loopstart 1
    proof { let w1 = w_amap(w_if(w0, has, x.name@), x.attr); let i = it.index@ as nat; assert(w_cons(w1, x.content, i + 1) == w_con(w_cons(w1, x.content, i), x.content@[i as int])); assert(w_con(xml_out@, x.content@[i as int]) == match x.content@[i as int] { XmlContent::Text(t) => w_text(xml_out@, t@), XmlContent::Tag(t) => w_tag(xml_out@, t) }); }
//@end
