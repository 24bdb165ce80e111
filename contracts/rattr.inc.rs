// ------------------------------------------------------------------ what the reader is given
// quick-xml's start tag: a list of attributes, each a name and the text between the quotes.
ghost struct At { key: Seq<char>, raw: Seq<char> }
/// the text between the quotes without its escapes (quick-xml; assumed)
uninterp spec fn unesc(raw: Seq<char>) -> Seq<char>;
#[verifier::external_body] struct VpBytes {}
impl View for VpBytes { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VpBytes { #[verifier::external_body] fn as_ref(&self) -> (r: &VpBytes) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] struct VpTagName {}
impl View for VpTagName { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VpTagName { #[verifier::external_body] fn as_ref(&self) -> (r: &VpBytes) ensures r@ == self@ { unimplemented!() } }
struct Attribute { key: VpTagName, value: VpBytes }
impl Attribute { spec fn v(&self) -> At { At { key: self.key@, raw: self.value@ } } }
#[verifier::external_body] struct BytesStart<'a> { _x: &'a u8 }
impl<'a> BytesStart<'a> {
    uninterp spec fn at(&self) -> Seq<At>;
    uninterp spec fn tag(&self) -> Seq<char>;
    #[verifier::external_body] fn name(&self) -> (r: VpTagName) ensures r@ == self.tag() { unimplemented!() }
}
spec fn ats(v: Seq<Attribute>) -> Seq<At> { Seq::new(v.len(), |i: int| v[i].v()) }
#[verifier::external_body] fn vp_attributes(t: &BytesStart<'_>) -> (r: Result<Vec<Attribute>, OdsError>) ensures r is Ok ==> ats(r->Ok_0@) == t.at() { unimplemented!() }
/// comparison with a byte string literal (ASCII)
#[verifier::external_body] fn vp_bytes(a: &VpBytes, b: &'static str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] fn vp_is_bytes(a: &VpBytes, b: &'static str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] fn vp_unused() -> (r: Result<(), OdsError>) { unimplemented!() }
#[verifier::external_body] fn vp_err() -> (r: OdsError) { unimplemented!() }
/// Cow<str>
struct VpCow { s: String }
impl VpCow {
    fn as_ref(&self) -> (r: &str) ensures r@ == self.s@ { self.s.as_str() }
    fn to_string(self) -> (r: String) ensures r@ == self.s@ { self.s }
}
impl Attribute { #[verifier::external_body] fn vp_decode(&self) -> (r: Result<VpCow, OdsError>) ensures r is Ok ==> r->Ok_0.s@ == unesc(self.value@) { unimplemented!() } }
//@gorguard
//@gbyteq
//@glitmatch
//@gsubst for $ida in $t.attributes().with_checks(false) { match $ida2? { $body } } ==> let vp_at = vp_attributes($t)?; for $ida in vp_at.iter() { match $ida2 { $body } }
//@gsubst $ida.decode_and_unescape_value(ctx.decoder) ==> $ida.vp_decode()
//@gsubst unused_attr($a, $b, $c) ==> vp_unused()
//@gsubst OdsError::Parse($a, $b) ==> vp_err()
/// the last of the first n attributes with this name
spec fn av(a: Seq<At>, n: int, k: Seq<char>) -> Option<Seq<char>> decreases n { if n <= 0 { None } else if a[n - 1].key == k { Some(a[n - 1].raw) } else { av(a, n - 1, k) } }
spec fn atv(a: Seq<At>, k: Seq<char>) -> Option<Seq<char>> { av(a, a.len() as int, k) }
spec fn mapu(o: Option<Seq<char>>) -> Option<Seq<char>> { match o { Some(x) => Some(unesc(x)), None => None } }
fn vp_goi<T>(o: &mut Option<T>, d: T) -> (r: &mut T) ensures *r == (match *old(o) { Some(x) => x, None => d }), *final(o) == Some(*final(r))
{ if o.is_none() { *o = Some(d); } o.as_mut().expect("inserted") }
