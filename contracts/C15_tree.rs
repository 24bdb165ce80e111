//@include pre.rs
// C15/C20: markup that is passed through: what the reader makes of the elements of a document tree.
verus! {
#[verifier::external_body] struct OdsError {}
//@include attrread.inc.rs
//@struct file=src/xmltree.rs name=XmlTag
//@end
//@struct file=src/xmltree.rs name=XmlContent
//@end
type TextTag = XmlTag;
//@struct file=src/io/read.rs name=TextContent
//@end
//@struct file=src/io/read.rs name=OdsContext
//@keep xml_buffer
//@end
//@gsubst stack.last_mut() ==> vp_last_mut(&mut stack)
//@gsubst unreachable!() ==> return Err(vp_unreachable())
//@gsubst mem::take(&mut self.xml_buffer) ==> vp_take(&mut self.xml_buffer)
//@gsubst content: vec![] ==> content: Vec::new()
//@gsubst T: Into<XmlTag> ==> T: VpIntoTag
//@gsubst OdsError::Ods(format!($x)) ==> vp_err()
//@gsubst old_txt.push_str(&v) ==> old_txt.push_str(v.as_ref())
#[verifier::external_body] fn vp_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures match r { Some(x) => old(v)@.len() > 0 && *x == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(x)), None => old(v)@.len() == 0 && final(v)@ == old(v)@ } { v.last_mut() }
#[verifier::external_body] fn vp_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { std::mem::take(v) }
// quick-xml reports an end tag without its start tag as an error, so these places are not reached
#[verifier::external_body] fn vp_unreachable() -> (r: OdsError) ensures false { unreachable!() }
trait VpIntoTag: Sized { spec fn tagv(&self) -> XmlTag; fn into(self) -> (r: XmlTag) ensures r == self.tagv(); }
impl VpIntoTag for XmlTag { spec fn tagv(&self) -> XmlTag { *self } fn into(self) -> (r: XmlTag) { self } }
impl OdsContext {
    // buffers are only reused
    #[verifier::external_body] fn pop_buf(&mut self) -> (r: Vec<u8>) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] fn push_buf(&mut self, buf: Vec<u8>) ensures *final(self) == *old(self) { unimplemented!() }
//@fn file=src/io/read.rs path=OdsContext::pop_xml_buf
//@ret r
//@spec
    ensures r@ == old(self).xml_buffer@, final(self).xml_buffer@.len() == 0,
//@end
//@fn file=src/io/read.rs path=OdsContext::push_xml_buf
//@params buf
//@spec
    ensures final(self).xml_buffer@.len() == 0,
//@end
}
// ------------------------------------------------------------------ trees
/// an element with its attributes and its content
ghost struct Xt { name: Seq<char>, attr: Kv, kids: Seq<Xc> }
ghost enum Xc { Text(Seq<char>), Tag(Xt) }
spec fn xt(t: XmlTag) -> Xt decreases t, 0nat { Xt { name: t.name@, attr: kv(t.attr), kids: xcs(t.content, t.content@.len()) } }
spec fn xcs(v: Vec<XmlContent>, n: nat) -> Seq<Xc> decreases v, n { if n == 0 || n > v@.len() { Seq::empty() } else { xcs(v, (n - 1) as nat).push(xc(v@[n - 1])) } }
spec fn xc(c: XmlContent) -> Xc decreases c, 0nat { match c { XmlContent::Text(t) => Xc::Text(t@), XmlContent::Tag(t) => Xc::Tag(xt(t)) } }
proof fn lemma_same(v: Vec<XmlContent>, w: Vec<XmlContent>, n: nat) requires n <= v@.len(), n <= w@.len(), forall|i: int| 0 <= i < n ==> v@[i] == w@[i] ensures xcs(v, n) == xcs(w, n) decreases n { if n > 0 { lemma_same(v, w, (n - 1) as nat); } }
proof fn lemma_push(v: Vec<XmlContent>, w: Vec<XmlContent>, c: XmlContent) requires w@ == v@.push(c) ensures xcs(w, w@.len()) == xcs(v, v@.len()).push(xc(c)) { lemma_same(v, w, v@.len()); }
proof fn lemma_kids(v: Vec<XmlContent>, n: nat) requires n <= v@.len() ensures xcs(v, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] xcs(v, n)[i] == xc(v@[i]) decreases n { if n > 0 { lemma_kids(v, (n - 1) as nat); } }
spec fn add(t: Xt, c: Xc) -> Xt { Xt { kids: t.kids.push(c), ..t } }
spec fn el(n: Seq<char>, a: Seq<At>) -> Xt { Xt { name: n, attr: all_at(a), kids: Seq::empty() } }
spec fn wft(t: XmlTag) -> bool { wfm(t.attr) }
impl XmlTag {
//@fn file=src/xmltree.rs path=XmlTag::new
//@params name
//@ret r
//@spec
    ensures none(r.attr), r.content@.len() == 0, r.name@ == name.itext(),
//@end
//@fn file=src/xmltree.rs path=XmlTag::attrmap_mut
//@ret r
//@spec
    ensures *r == old(self).attr, *final(self) == (XmlTag { attr: *final(r), ..*old(self) }),
//@end
//@fn file=src/xmltree.rs path=XmlTag::add_tag
//@params tag
//@spec
    ensures xt(*final(self)) == add(xt(*old(self)), Xc::Tag(xt(tag.tagv()))), final(self).attr == old(self).attr,
//@subst self.content.push(XmlContent::Tag(tag.into())); ==> let vp_c = XmlContent::Tag(tag.into()); self.content.push(vp_c); proof { lemma_push(old(self).content, self.content, vp_c); }
//@end
//@fn file=src/xmltree.rs path=XmlTag::add_text
//@params text
//@spec
    ensures xt(*final(self)) == add(xt(*old(self)), Xc::Text(text.itext())), final(self).attr == old(self).attr,
//@subst self.content.push(XmlContent::Text(text.into())); ==> let vp_c = XmlContent::Text(text.into()); self.content.push(vp_c); proof { lemma_push(old(self).content, self.content, vp_c); }
//@end
}
#[verifier::external_body] fn vp_blank(s: &String) -> (r: bool) ensures r == blank(s@) { unimplemented!() }
uninterp spec fn blank(s: Seq<char>) -> bool;
/// the elements among the content, in order
spec fn tags(v: Seq<XmlContent>, n: nat) -> Seq<XmlTag> decreases n { if n == 0 || n > v.len() { Seq::empty() } else { match v[n - 1] { XmlContent::Tag(t) => tags(v, (n - 1) as nat).push(t), XmlContent::Text(_) => tags(v, (n - 1) as nat) } } }
//@gsubst v.trim().is_empty() ==> vp_blank(&v)
impl XmlTag {
//@fn file=src/xmltree.rs path=XmlTag::into_vec
//@ret r
//@subst Vec::new() ==> Vec::<XmlTag>::new()
//@spec
    ensures r is Ok ==> r->Ok_0@ =~= tags(self.content@, self.content@.len()), r is Err ==> exists|i: int| 0 <= i < self.content@.len() && (#[trigger] self.content@[i] matches XmlContent::Text(t) && !blank(t@)),
//@loop 0 it=it
    invariant it.seq() == self.content@, content@ =~= tags(self.content@, it.index@ as nat),
//@end
//@fn file=src/xmltree.rs path=XmlTag::into_mixed_vec
//@ret r
//@spec
    ensures r == self.content,
//@end
}
proof fn lemma_el(t: XmlTag, n: Seq<char>, a: Seq<At>) requires t.name@ == n, t.content@.len() == 0, kv(t.attr) =~= all_at(a) ensures xt(t) == el(n, a) { assert(xcs(t.content, 0) =~= Seq::empty()); }
// ------------------------------------------------------------------ read_xml
/// the open elements, the innermost last
spec fn stv(s: Seq<XmlTag>) -> Seq<Xt> { Seq::new(s.len(), |i: int| xt(s[i])) }
spec fn top(s: Seq<Xt>, c: Xc) -> Seq<Xt> { s.update(s.len() - 1, add(s.last(), c)) }
/// an element ends: it becomes content of the one around it
spec fn fold(s: Seq<Xt>) -> Seq<Xt> { top(s.drop_last(), Xc::Tag(s.last())) }
spec fn rdx(st: Seq<Xt>, r: Seq<Ev>) -> (Seq<Xt>, Seq<Ev>) decreases r.len() {
    if r.len() == 0 || st.len() == 0 { (st, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => rdx(st.push(el(n, a)), s),
            Ev::Empty(n, a) => rdx(top(st, Xc::Tag(el(n, a))), s),
            Ev::End(n) => if st.len() == 1 { (st, s) } else { rdx(fold(st), s) },
            Ev::Text(t) => rdx(top(st, Xc::Text(t)), s),
            Ev::Ref(t) => rdx(top(st, Xc::Text(t)), s),
            Ev::Eof => (st, s),
            _ => rdx(st, s),
        }
    }
}
proof fn lemma_rdx(st: Seq<Xt>, r: Seq<Ev>) requires st.len() > 0 ensures rdx(st, r).0.len() > 0, rdx(st, r).1.len() <= r.len() decreases r.len() { if r.len() > 0 { let s = r.drop_first(); match r[0] {
    Ev::Start(n, a) => lemma_rdx(st.push(el(n, a)), s), Ev::Empty(n, a) => lemma_rdx(top(st, Xc::Tag(el(n, a))), s), Ev::End(n) => if st.len() > 1 { lemma_rdx(fold(st), s) },
    Ev::Text(t) => lemma_rdx(top(st, Xc::Text(t)), s), Ev::Ref(t) => lemma_rdx(top(st, Xc::Text(t)), s), Ev::Eof => {} _ => lemma_rdx(st, s) } } }
/// the element and what follows it
spec fn xml_of(tag: Seq<char>, a: Seq<At>, empty: bool, r: Seq<Ev>) -> Xt { if empty { el(tag, a) } else { rdx(seq![el(tag, a)], r).0.last() } }
spec fn xml_rest(tag: Seq<char>, a: Seq<At>, empty: bool, r: Seq<Ev>) -> Seq<Ev> { if empty { r } else { rdx(seq![el(tag, a)], r).1 } }
//@fn file=src/io/read.rs path=read_xml attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml super_tag empty_tag
//@ret r
//@spec
    requires old(ctx).xml_buffer@.len() == 0,
    ensures r is Ok ==> final(ctx).xml_buffer@.len() == 0 && xt(r->Ok_0) == xml_of(super_tag.tag(), super_tag.at(), empty_tag, old(xml)@) && final(xml)@ == xml_rest(super_tag.tag(), super_tag.at(), empty_tag, old(xml)@),
//@at start
    let ghost tag0 = super_tag.tag(); let ghost at = super_tag.at(); let ghost xs = xml@; let ghost s0 = seq![el(tag0, at)];
//@at before 0 if !empty_tag
    proof { lemma_el(stack@[0], tag0, at); assert(stv(stack@) =~= s0); }
//@loop 0
    invariant_except_break rdx(s0, xs) == rdx(stv(stack@), xml@),
    invariant stack@.len() > 0,
    ensures (stv(stack@), xml@) == rdx(s0, xs),
//@at loopstart 0
    let ghost st = stack@; let ghost xl = xml@;
//@at loopend 0
    proof { assert(xl.len() > 0); match xl[0] {
        Ev::Start(n, a) => { lemma_el(stack@.last(), n, a); assert(stv(stack@) =~= stv(st).push(el(n, a))); }
        Ev::Empty(n, a) => { assert(stv(stack@) =~= top(stv(st), Xc::Tag(el(n, a)))); }
        Ev::End(n) => { assert(stv(stack@) =~= fold(stv(st))); }
        Ev::Text(t) => { assert(stv(stack@) =~= top(stv(st), Xc::Text(t))); }
        Ev::Ref(t) => { assert(stv(stack@) =~= top(stv(st), Xc::Text(t))); }
        _ => {} } }
//@at before 0 if let Some(parent) = vp_last_mut(&mut stack) { parent.add_tag(emptytag)
    proof { lemma_el(emptytag, xml_tag.tag(), xml_tag.at()); }
//@end
// ------------------------------------------------------------------ read_text_or_tag
/// nothing yet, text only, or an element with markup
ghost enum Tc { Empty, Text(Seq<char>), Xml(Xt) }
spec fn tcv(c: TextContent) -> Tc { match c { TextContent::Empty => Tc::Empty, TextContent::Text(s) => Tc::Text(s@), TextContent::Xml(t) => Tc::Xml(xt(t)), TextContent::XmlVec(_) => Tc::Empty } }
/// the first element within makes it an element of its own, with the text so far
spec fn opened(tag: Seq<char>, a: Seq<At>, c: Tc) -> Xt { match c { Tc::Empty => el(tag, a), Tc::Text(t) => add(el(tag, a), Xc::Text(t)), Tc::Xml(x) => x } }
spec fn addt(c: Tc, t: Seq<char>) -> Tc { match c { Tc::Empty => Tc::Text(t), Tc::Text(u) => Tc::Text(u + t), Tc::Xml(x) => Tc::Xml(add(x, Xc::Text(t))) } }
spec fn rdc(c: Tc, st: Seq<Xt>, r: Seq<Ev>, tag: Seq<char>, at: Seq<At>) -> (Tc, Seq<Ev>) decreases r.len() {
    if r.len() == 0 { (c, r) } else {
        let s = r.drop_first();
        match r[0] {
            Ev::Start(n, a) => rdc(Tc::Xml(el(n, a)), st.push(opened(tag, at, c)), s, tag, at),
            Ev::Empty(n, a) => rdc(Tc::Xml(add(opened(tag, at, c), Xc::Tag(el(n, a)))), st, s, tag, at),
            Ev::Text(t) => rdc(addt(c, t), st, s, tag, at),
            Ev::Ref(t) => rdc(addt(c, t), st, s, tag, at),
            Ev::End(n) => if st.len() == 0 { (c, s) } else { rdc(match c { Tc::Xml(x) => Tc::Xml(add(st.last(), Xc::Tag(x))), _ => c }, st.drop_last(), s, tag, at) },
            Ev::Eof => (c, s),
            _ => rdc(c, st, s, tag, at),
        }
    }
}
spec fn content_of(tag: Seq<char>, at: Seq<At>, empty: bool, r: Seq<Ev>) -> (Tc, Seq<Ev>) { if empty { (Tc::Empty, r) } else { rdc(Tc::Empty, Seq::empty(), r, tag, at) } }
//@fn file=src/io/read.rs path=read_text_or_tag as=vp_create_toplevel
//@slice let create_toplevel = |ctx: &mut OdsContext, t: Option<String>| -> Result<XmlTag, OdsError> { $body }; ==> $body
//@sig fn vp_create_toplevel(ctx: &mut OdsContext, super_tag: &BytesStart<'_>, t: Option<String>) -> (r: Result<XmlTag, OdsError>)
//@spec
    ensures *final(ctx) == *old(ctx), r is Ok ==> xt(r->Ok_0) == opened(super_tag.tag(), super_tag.at(), match t { None => Tc::Empty, Some(s) => Tc::Text(s@) }),
//@at before 0 if let Some(t) = t
    proof { lemma_el(toplevel, super_tag.tag(), super_tag.at()); }
//@end
//@fn file=src/io/read.rs path=read_text_or_tag attr=verifier::exec_allows_no_decreases_clause
//@params ctx xml super_tag empty_tag
//@ret r
//@subst let create_toplevel = |ctx: &mut OdsContext, t: Option<String>| -> Result<XmlTag, OdsError> { $body }; ==>
//@subst create_toplevel(ctx, $t) ==> vp_create_toplevel(ctx, super_tag, $t)
//@spec
    requires old(ctx).xml_buffer@.len() == 0,
    ensures r is Ok ==> final(ctx).xml_buffer@.len() == 0 && !(r->Ok_0 is XmlVec) && (tcv(r->Ok_0), final(xml)@) == content_of(super_tag.tag(), super_tag.at(), empty_tag, old(xml)@),
//@at start
    let ghost tag0 = super_tag.tag(); let ghost at = super_tag.at(); let ghost xs = xml@;
//@at beforeloop 0
    proof { assert(stv(stack@) =~= Seq::empty()); }
//@loop 0
    invariant_except_break rdc(Tc::Empty, Seq::empty(), xs, tag0, at) == rdc(tcv(cellcontent), stv(stack@), xml@, tag0, at),
    invariant !(cellcontent is XmlVec), tag0 == super_tag.tag(), at == super_tag.at(),
    ensures (tcv(cellcontent), xml@) == rdc(Tc::Empty, Seq::empty(), xs, tag0, at),
//@at loopstart 0
    let ghost st = stack@; let ghost xl = xml@; let ghost cl = tcv(cellcontent);
//@at after 0 copy_attr2(ctx, new_tag.attrmap_mut(), xml_tag)?;
    proof { lemma_el(new_tag, xml_tag.tag(), xml_tag.at()); }
//@at after 0 copy_attr2(ctx, emptytag.attrmap_mut(), xml_tag)?;
    proof { lemma_el(emptytag, xml_tag.tag(), xml_tag.at()); }
//@at loopend 0
    proof { assert(xl.len() > 0); match xl[0] {
        Ev::Start(n, a) => { assert(stv(stack@) =~= stv(st).push(opened(tag0, at, cl))); }
        Ev::End(n) => { assert(stv(stack@) =~= stv(st).drop_last()); }
        _ => { assert(stack@ =~= st); } } }
//@end
// ------------------------------------------------------------------ every tree comes back
/// an element of a document: name, attributes, content; written as an empty element or not
ghost struct Nx { name: Seq<char>, at: Seq<At>, short: bool, kids: Seq<Nc> }
/// content: text, the text of a reference, a comment or the like, an element
ghost enum Nc { Text(Seq<char>), Ref(Seq<char>), Other, Tag(Nx) }
spec fn evs(x: Nx) -> Seq<Ev> decreases x, 0nat { if x.short && x.kids.len() == 0 { seq![Ev::Empty(x.name, x.at)] } else { seq![Ev::Start(x.name, x.at)] + evks(x.kids, x.kids.len()) + seq![Ev::End(x.name)] } }
spec fn evks(k: Seq<Nc>, n: nat) -> Seq<Ev> decreases k, n { if n == 0 || n > k.len() { Seq::empty() } else { evks(k, (n - 1) as nat) + evc(k[n - 1]) } }
spec fn evc(c: Nc) -> Seq<Ev> decreases c, 0nat { match c { Nc::Text(t) => seq![Ev::Text(t)], Nc::Ref(t) => seq![Ev::Ref(t)], Nc::Other => seq![Ev::Other], Nc::Tag(x) => evs(x) } }
/// the tree it stands for
spec fn tree(x: Nx) -> Xt decreases x, 0nat { Xt { name: x.name, attr: all_at(x.at), kids: trees(x.kids, x.kids.len()) } }
spec fn trees(k: Seq<Nc>, n: nat) -> Seq<Xc> decreases k, n { if n == 0 || n > k.len() { Seq::empty() } else { match k[n - 1] { Nc::Text(t) => trees(k, (n - 1) as nat).push(Xc::Text(t)), Nc::Ref(t) => trees(k, (n - 1) as nat).push(Xc::Text(t)), Nc::Other => trees(k, (n - 1) as nat), Nc::Tag(x) => trees(k, (n - 1) as nat).push(Xc::Tag(tree(x))) } } }
spec fn with(t: Xt, k: Seq<Xc>) -> Xt { Xt { kids: t.kids + k, ..t } }
spec fn lastw(st: Seq<Xt>, k: Seq<Xc>) -> Seq<Xt> { st.update(st.len() - 1, with(st.last(), k)) }
proof fn lemma_kids_read(st: Seq<Xt>, k: Seq<Nc>, n: nat, r: Seq<Ev>) requires st.len() > 0, n <= k.len() ensures rdx(st, evks(k, n) + r) == rdx(lastw(st, trees(k, n)), r) decreases k, n
{
    if n == 0 { assert(evks(k, n) + r =~= r); assert(st.last().kids + Seq::<Xc>::empty() =~= st.last().kids); assert(lastw(st, trees(k, n)) =~= st); }
    else {
        let c = k[n - 1]; let m = (n - 1) as nat;
        assert(evks(k, n) + r =~= evks(k, m) + (evc(c) + r));
        lemma_kids_read(st, k, m, evc(c) + r);
        let s1 = lastw(st, trees(k, m));
        match c {
            Nc::Text(t) => { assert((evc(c) + r).drop_first() =~= r); assert(st.last().kids + trees(k, n) =~= (st.last().kids + trees(k, m)).push(Xc::Text(t))); assert(top(s1, Xc::Text(t)) =~= lastw(st, trees(k, n))); }
            Nc::Ref(t) => { assert((evc(c) + r).drop_first() =~= r); assert(st.last().kids + trees(k, n) =~= (st.last().kids + trees(k, m)).push(Xc::Text(t))); assert(top(s1, Xc::Text(t)) =~= lastw(st, trees(k, n))); }
            Nc::Other => { assert((evc(c) + r).drop_first() =~= r); }
            Nc::Tag(x) => { lemma_tag_read(s1, x, r); assert(st.last().kids + trees(k, n) =~= (st.last().kids + trees(k, m)).push(Xc::Tag(tree(x)))); assert(top(s1, Xc::Tag(tree(x))) =~= lastw(st, trees(k, n))); }
        }
    }
}
proof fn lemma_tag_read(st: Seq<Xt>, x: Nx, r: Seq<Ev>) requires st.len() > 0 ensures rdx(st, evs(x) + r) == rdx(top(st, Xc::Tag(tree(x))), r) decreases x, 0nat
{
    if x.short && x.kids.len() == 0 { assert((evs(x) + r).drop_first() =~= r); assert(tree(x).kids =~= Seq::empty()); }
    else {
        let e = seq![Ev::End(x.name)] + r; let body = evks(x.kids, x.kids.len()) + e;
        assert((evs(x) + r).drop_first() =~= body);
        let s1 = st.push(el(x.name, x.at));
        lemma_kids_read(s1, x.kids, x.kids.len(), e);
        let s2 = lastw(s1, trees(x.kids, x.kids.len()));
        assert(e.drop_first() =~= r);
        assert(Seq::<Xc>::empty() + trees(x.kids, x.kids.len()) =~= trees(x.kids, x.kids.len()));
        assert(s2.last() == tree(x));
        assert(s2.drop_last() =~= st);
        assert(s2.len() > 1);
    }
}
/// for every document tree, read_xml gives exactly this tree and goes on exactly behind it
proof fn thm_tree(x: Nx, r: Seq<Ev>)
    ensures x.short && x.kids.len() == 0 ==> xml_of(x.name, x.at, true, r) == tree(x) && xml_rest(x.name, x.at, true, r) == r,
        !(x.short && x.kids.len() == 0) ==> ({ let body = evks(x.kids, x.kids.len()) + seq![Ev::End(x.name)] + r; xml_of(x.name, x.at, false, body) == tree(x) && xml_rest(x.name, x.at, false, body) == r }),
{
    if x.short && x.kids.len() == 0 { assert(tree(x).kids =~= Seq::empty()); }
    else {
        let e = seq![Ev::End(x.name)] + r; let st = seq![el(x.name, x.at)]; let k = x.kids;
        assert(evks(k, k.len()) + seq![Ev::End(x.name)] + r =~= evks(k, k.len()) + e);
        lemma_kids_read(st, k, k.len(), e);
        assert(e.drop_first() =~= r);
        assert(Seq::<Xc>::empty() + trees(k, k.len()) =~= trees(k, k.len()));
        assert(lastw(st, trees(k, k.len())).last() == tree(x));
    }
}
/// the same for the content of a cell: text only stays text, markup gives the tree, with the text before the first element in one piece
spec fn no_tag(k: Seq<Nc>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> !(#[trigger] k[i] is Tag) }
spec fn joined(k: Seq<Nc>, n: nat) -> Tc decreases n { if n == 0 || n > k.len() { Tc::Empty } else { match k[n - 1] { Nc::Text(t) => addt(joined(k, (n - 1) as nat), t), Nc::Ref(t) => addt(joined(k, (n - 1) as nat), t), _ => joined(k, (n - 1) as nat) } } }
spec fn mixed(tag: Seq<char>, at: Seq<At>, k: Seq<Nc>, n: nat) -> Tc decreases n { if n == 0 || n > k.len() { Tc::Empty } else { let c = mixed(tag, at, k, (n - 1) as nat); match k[n - 1] { Nc::Text(t) => addt(c, t), Nc::Ref(t) => addt(c, t), Nc::Other => c, Nc::Tag(x) => Tc::Xml(add(opened(tag, at, c), Xc::Tag(tree(x)))) } } }
proof fn lemma_inner(c: Xt, st: Seq<Xt>, k: Seq<Nc>, n: nat, r: Seq<Ev>, tag: Seq<char>, at: Seq<At>) requires n <= k.len() ensures rdc(Tc::Xml(c), st, evks(k, n) + r, tag, at) == rdc(Tc::Xml(with(c, trees(k, n))), st, r, tag, at) decreases k, n
{
    if n == 0 { assert(evks(k, n) + r =~= r); assert(c.kids + Seq::<Xc>::empty() =~= c.kids); }
    else {
        let d = k[n - 1]; let m = (n - 1) as nat;
        assert(evks(k, n) + r =~= evks(k, m) + (evc(d) + r));
        lemma_inner(c, st, k, m, evc(d) + r, tag, at);
        let c1 = with(c, trees(k, m));
        match d {
            Nc::Text(t) => { assert((evc(d) + r).drop_first() =~= r); assert(add(c1, Xc::Text(t)).kids =~= c.kids + trees(k, n)); }
            Nc::Ref(t) => { assert((evc(d) + r).drop_first() =~= r); assert(add(c1, Xc::Text(t)).kids =~= c.kids + trees(k, n)); }
            Nc::Other => { assert((evc(d) + r).drop_first() =~= r); }
            Nc::Tag(x) => { lemma_inner_tag(Tc::Xml(c1), st, x, r, tag, at); assert(add(c1, Xc::Tag(tree(x))).kids =~= c.kids + trees(k, n)); }
        }
    }
}
proof fn lemma_inner_tag(c: Tc, st: Seq<Xt>, x: Nx, r: Seq<Ev>, tag: Seq<char>, at: Seq<At>) ensures rdc(c, st, evs(x) + r, tag, at) == rdc(Tc::Xml(add(opened(tag, at, c), Xc::Tag(tree(x)))), st, r, tag, at) decreases x, 0nat
{
    if x.short && x.kids.len() == 0 { assert((evs(x) + r).drop_first() =~= r); assert(tree(x).kids =~= Seq::empty()); }
    else {
        let e = seq![Ev::End(x.name)] + r; let k = x.kids; let s1 = st.push(opened(tag, at, c));
        assert((evs(x) + r).drop_first() =~= evks(k, k.len()) + e);
        lemma_inner(el(x.name, x.at), s1, k, k.len(), e, tag, at);
        assert(e.drop_first() =~= r);
        assert(Seq::<Xc>::empty() + trees(k, k.len()) =~= trees(k, k.len()));
        assert(s1.drop_last() =~= st);
    }
}
proof fn lemma_outer(k: Seq<Nc>, n: nat, r: Seq<Ev>, tag: Seq<char>, at: Seq<At>) requires n <= k.len() ensures rdc(Tc::Empty, Seq::empty(), evks(k, n) + r, tag, at) == rdc(mixed(tag, at, k, n), Seq::empty(), r, tag, at) decreases n
{
    if n == 0 { assert(evks(k, n) + r =~= r); }
    else {
        let d = k[n - 1]; let m = (n - 1) as nat;
        assert(evks(k, n) + r =~= evks(k, m) + (evc(d) + r));
        lemma_outer(k, m, evc(d) + r, tag, at);
        match d { Nc::Tag(x) => lemma_inner_tag(mixed(tag, at, k, m), Seq::empty(), x, r, tag, at), _ => { assert((evc(d) + r).drop_first() =~= r); } }
    }
}
proof fn lemma_joined(tag: Seq<char>, at: Seq<At>, k: Seq<Nc>, n: nat) requires n <= k.len(), no_tag(k, n) ensures mixed(tag, at, k, n) == joined(k, n) decreases n { if n > 0 { assert(!(k[n - 1] is Tag)); assert forall|i: int| 0 <= i < n - 1 implies !(#[trigger] k[i] is Tag) by {} lemma_joined(tag, at, k, (n - 1) as nat); } }
proof fn thm_content(x: Nx, r: Seq<Ev>)
    ensures content_of(x.name, x.at, false, evks(x.kids, x.kids.len()) + seq![Ev::End(x.name)] + r) == (mixed(x.name, x.at, x.kids, x.kids.len()), r),
        no_tag(x.kids, x.kids.len()) ==> mixed(x.name, x.at, x.kids, x.kids.len()) == joined(x.kids, x.kids.len()),
{
    let e = seq![Ev::End(x.name)] + r; let k = x.kids;
    assert(evks(k, k.len()) + seq![Ev::End(x.name)] + r =~= evks(k, k.len()) + e);
    lemma_outer(k, k.len(), e, x.name, x.at);
    assert(e.drop_first() =~= r);
    if no_tag(k, k.len()) { lemma_joined(x.name, x.at, k, k.len()); }
}
} // verus!
fn main() {}