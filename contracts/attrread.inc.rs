// attributes of an element, as the reader copies them
//@gsubst $ida.decode_and_unescape_value(ctx.decoder)?.as_ref().into() ==> VpFrom::vp_from($ida.vp_decode()?.as_ref())
//@include rattr.inc.rs
//@include evt.inc.rs
//@gsubst $idf: Default::default() ==> $idf: VpDefault::vp_default()
//@gsubst $ida.as_ref().to_string() ==> vp_string($ida.as_ref())
//@gsubst String::from($ida.as_ref()) ==> vp_string($ida.as_ref())
//@gsubst AsRef<str> ==> VpAsRef
//@gsubst Into<String> ==> VpInto
//@gsubst get_or_insert_with(Vec::new) ==> get_or_insert(Vec::new())
//@gsubst from_utf8($a)? ==> vp_utf8($a)?
//@gsubst $idn.unwrap_or_default() ==> vp_or_empty($idn)
//@gsubst xml_tag.name().as_ref() == super_tag.name().as_ref() ==> vp_same_name(xml_tag.name(), super_tag.name())
//@gsubst xml_tag.name() == super_tag.name() ==> vp_same_name(xml_tag.name(), super_tag.name())
//@gsubst ":default".to_string() ==> vp_string(":default")
// trusted: the standard library's conversions of a text
#[verifier::external_body] fn vp_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] fn vp_utf8(s: &VpBytes) -> (r: Result<&str, OdsError>) ensures r is Ok ==> r->Ok_0@ == s@ { unimplemented!() }
fn vp_or_empty(o: Option<String>) -> (r: String) ensures r@ =~= (match o { Some(s) => s@, None => Seq::empty() }) { match o { Some(s) => s, None => String::new() } }
/// a name or text given by the caller, as str / as String
trait VpAsRef { spec fn text(&self) -> Seq<char>; fn as_ref(&self) -> (r: &str) ensures r@ == self.text(); }
impl VpAsRef for String { spec fn text(&self) -> Seq<char> { self@ } fn as_ref(&self) -> (r: &str) { self.as_str() } }
impl VpAsRef for VpCow { spec fn text(&self) -> Seq<char> { self.s@ } fn as_ref(&self) -> (r: &str) { self.s.as_str() } }
trait VpInto: Sized { spec fn itext(&self) -> Seq<char>; fn into(self) -> (r: String) ensures r@ == self.itext(); }
impl VpInto for String { spec fn itext(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VpInto for VpCow { spec fn itext(&self) -> Seq<char> { self.s@ } fn into(self) -> (r: String) { self.s } }
impl VpInto for &str { spec fn itext(&self) -> Seq<char> { (**self)@ } fn into(self) -> (r: String) { vp_string(self) } }
/// From<&str>
trait VpFrom: Sized { spec fn ftext(&self) -> Seq<char>; fn vp_from(s: &str) -> (r: Self) ensures r.ftext() == s@; }
impl VpFrom for String { spec fn ftext(&self) -> Seq<char> { self@ } fn vp_from(s: &str) -> (r: Self) { vp_string(s) } }
// attributes
#[verifier::external_body] struct DefaultAtom {}
impl DefaultAtom { uninterp spec fn view(&self) -> Seq<char>; #[verifier::external_body] fn from(s: &str) -> (r: Self) ensures r@ == s@ { unimplemented!() } }
//@struct file=src/attrmap2.rs name=AttrMap2
//@subst Box<str> ==> String
//@end
// trusted: Default of the standard library and derived Default
trait VpDefault: Sized { spec fn is_default(&self) -> bool; fn vp_default() -> (r: Self) ensures r.is_default(); }
impl VpDefault for String { spec fn is_default(&self) -> bool { self@ =~= Seq::<char>::empty() } fn vp_default() -> (r: Self) { String::new() } }
impl<T> VpDefault for Vec<T> { spec fn is_default(&self) -> bool { self@ =~= Seq::<T>::empty() } fn vp_default() -> (r: Self) { Vec::new() } }
impl<T> VpDefault for Option<T> { spec fn is_default(&self) -> bool { *self is None } fn vp_default() -> (r: Self) { None } }
impl VpDefault for AttrMap2 { spec fn is_default(&self) -> bool { none(*self) } fn vp_default() -> (r: Self) { AttrMap2 { keys: Vec::new(), values: Vec::new() } } }
type Kv = Seq<(Seq<char>, Seq<char>)>;
/// names and values, in order
spec fn kv(m: AttrMap2) -> Kv { Seq::new(m.keys@.len(), |i: int| (m.keys@[i]@, m.values@[i]@)) }
spec fn wfm(m: AttrMap2) -> bool { m.keys@.len() == m.values@.len() }
spec fn none(m: AttrMap2) -> bool { m.keys@.len() == 0 && m.values@.len() == 0 }
proof fn lemma_none(m: AttrMap2) requires none(m) ensures wfm(m), kv(m) =~= Kv::empty() {}
impl AttrMap2 {
//@fn file=src/attrmap2.rs path=AttrMap2::push_attr
//@params name value
//@subst .into_boxed_str() ==>
//@spec
    ensures wfm(*old(self)) ==> wfm(*final(self)) && kv(*final(self)) =~= kv(*old(self)).push((name@, value.itext())),
//@end
}
/// the attributes of an element; of a style all but the name
spec fn atkv(a: Seq<At>, n: int) -> Kv decreases n { if n <= 0 { Kv::empty() } else { atkv(a, n - 1).push((a[n - 1].key, unesc(a[n - 1].raw))) } }
spec fn stkv(a: Seq<At>, n: int) -> Kv decreases n { if n <= 0 { Kv::empty() } else if a[n - 1].key == "style:name"@ { stkv(a, n - 1) } else { stkv(a, n - 1).push((a[n - 1].key, unesc(a[n - 1].raw))) } }
spec fn all_at(a: Seq<At>) -> Kv { atkv(a, a.len() as int) }
spec fn style_at(a: Seq<At>) -> Kv { stkv(a, a.len() as int) }
/// a default style has no name of its own
spec fn style_name(tag: Seq<char>, a: Seq<At>) -> Seq<char> { match atv(a, "style:name"@) { Some(x) => unesc(x), None => if tag == "style:default-style"@ { ":default"@ } else { Seq::empty() } } }
spec fn osv(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
//@struct file=src/style/mod.rs name=StyleOrigin attr=derive(Clone,Copy,PartialEq,Eq,Structural)
//@end
//@struct file=src/style/mod.rs name=StyleUse attr=derive(Clone,Copy,PartialEq,Eq,Structural)
//@end
impl VpDefault for StyleOrigin { spec fn is_default(&self) -> bool { *self == StyleOrigin::Content } fn vp_default() -> (r: Self) { StyleOrigin::Content } }
impl VpDefault for StyleUse { spec fn is_default(&self) -> bool { *self == StyleUse::Automatic } fn vp_default() -> (r: Self) { StyleUse::Automatic } }
//@fn file=src/io/read.rs path=copy_attr2
//@params ctx attrmap super_tag
//@ret r
//@subst for $ida in $t.attributes().with_checks(false) { $body } ==> let vp_at = vp_attributes($t)?; for $ida in vp_at.iter() { $body }
//@subst let attr = attr?; ==>
//@spec
    ensures *final(ctx) == *old(ctx), r is Ok && wfm(*old(attrmap)) ==> wfm(*final(attrmap)) && kv(*final(attrmap)) =~= kv(*old(attrmap)) + all_at(super_tag.at()),
//@at start
    let ghost m0 = kv(*attrmap); let ghost wf = wfm(*attrmap);
//@loop 0 it=it
    invariant it.seq().len() == vp_at@.len(), forall|i: int| 0 <= i < vp_at@.len() ==> *(#[trigger] it.seq()[i]) == vp_at@[i], ats(vp_at@) == super_tag.at(), *ctx == *old(ctx),
        wf ==> wfm(*attrmap) && kv(*attrmap) =~= m0 + atkv(super_tag.at(), it.index@ as int),
//@at loopstart 0
    proof { assert(super_tag.at()[it.index@ as int] == attr.v()); }
//@end
