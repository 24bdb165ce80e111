// ------------------------------------------------------------------ the written document
// The XML writer (unit C10_xml proves the characters it puts out for each call) as the document it
// has put out: elements with their attributes (a map: the order of attributes means nothing), text, ends.
type Nm = Seq<char>;
ghost struct El { name: Nm, attrs: Map<Nm, Seq<char>>, empty: bool }
ghost enum Tok { El(El), Text(Seq<char>), End(Nm) }
ghost struct W { done: Seq<Tok>, cur: Option<El>, stack: Seq<Nm> }
spec fn w_all(w: W) -> Seq<Tok> { match w.cur { Some(e) => w.done.push(Tok::El(e)), None => w.done } }
spec fn w_open(w: W, n: Nm) -> W { W { done: w_all(w), cur: Some(El { name: n, attrs: Map::empty(), empty: false }), stack: w.stack.push(n) } }
spec fn w_empty(w: W, n: Nm) -> W { W { done: w_all(w), cur: Some(El { name: n, attrs: Map::empty(), empty: true }), stack: w.stack } }
spec fn w_if(w: W, has: bool, n: Nm) -> W { if has { w_open(w, n) } else { w_empty(w, n) } }
spec fn w_attr(w: W, k: Nm, v: Seq<char>) -> W { match w.cur { Some(e) => W { cur: Some(El { attrs: e.attrs.insert(k, v), ..e }), ..w }, None => w } }
spec fn w_text(w: W, v: Seq<char>) -> W { W { done: if v.len() == 0 { w_all(w) } else { w_all(w).push(Tok::Text(v)) }, cur: None, ..w } }
spec fn w_end(w: W, n: Nm) -> W { W { done: w_all(w).push(Tok::End(n)), cur: None, stack: w.stack.drop_last() } }
spec fn w_end_if(w: W, has: bool, n: Nm) -> W { if has { w_end(w, n) } else { w } }
spec fn w_leaf(w: W, n: Nm, v: Seq<char>) -> W { w_end(w_text(w_open(w, n), v), n) }
spec fn w_oleaf(w: W, n: Nm, v: Option<Seq<char>>) -> W { match v { Some(x) => w_leaf(w, n, x), None => w } }
spec fn w_oattr(w: W, n: Nm, v: Option<Seq<char>>) -> W { match v { Some(x) => w_attr(w, n, x), None => w } }
spec fn filled(s: Seq<char>) -> Option<Seq<char>> { if s.len() == 0 { None } else { Some(s) } }
spec fn otext(s: Option<String>) -> Option<Seq<char>> { match s { Some(v) => Some(v@), None => None } }
mod vpb { use vstd::prelude::*; verus! { pub broadcast proof fn push_pop(s: Seq<Seq<char>>, n: Seq<char>) ensures #[trigger] s.push(n).drop_last() == s { assert(s.push(n).drop_last() =~= s); } } }
broadcast use vpb::push_pop;
#[verifier::external_body] struct OdsXmlWriter<'a> { _x: &'a u8 }
impl<'a> View for OdsXmlWriter<'a> { type V = W; uninterp spec fn view(&self) -> W; }
/// no character that XML reserves: may go out without escaping
uninterp spec fn nospecial(s: Seq<char>) -> bool;
trait Shown { spec fn shown(&self) -> Seq<char>; spec fn plain(&self) -> bool; }
uninterp spec fn dec(n: int) -> Seq<char>;
uninterp spec fn ftext(x: f64) -> Seq<char>;
spec fn btext(b: bool) -> Seq<char> { if b { "true"@ } else { "false"@ } }
impl Shown for u32 { spec fn shown(&self) -> Seq<char> { dec(*self as int) } spec fn plain(&self) -> bool { true } }
impl Shown for i32 { spec fn shown(&self) -> Seq<char> { dec(*self as int) } spec fn plain(&self) -> bool { true } }
impl Shown for i64 { spec fn shown(&self) -> Seq<char> { dec(*self as int) } spec fn plain(&self) -> bool { true } }
impl Shown for i16 { spec fn shown(&self) -> Seq<char> { dec(*self as int) } spec fn plain(&self) -> bool { true } }
impl Shown for bool { spec fn shown(&self) -> Seq<char> { btext(*self) } spec fn plain(&self) -> bool { true } }
impl Shown for f64 { spec fn shown(&self) -> Seq<char> { ftext(*self) } spec fn plain(&self) -> bool { true } }
impl Shown for str { spec fn shown(&self) -> Seq<char> { self@ } spec fn plain(&self) -> bool { nospecial(self@) } }
impl Shown for String { spec fn shown(&self) -> Seq<char> { self@ } spec fn plain(&self) -> bool { nospecial(self@) } }
impl<T: Shown + ?Sized> Shown for &T { spec fn shown(&self) -> Seq<char> { (**self).shown() } spec fn plain(&self) -> bool { (**self).plain() } }
#[verifier::external_body] struct OdsError {}
type Res = Result<(), OdsError>;
impl<'a> OdsXmlWriter<'a> {
    #[verifier::external_body] fn dtd(&mut self, enc: &str) -> (r: Res) requires w_all(old(self)@).len() == 0 ensures r is Ok ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] fn close(&mut self) -> (r: Res) requires old(self)@.stack.len() == 0 ensures r is Ok ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] fn set_line_break(&mut self, b: bool) -> (r: bool) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] fn elem(&mut self, name: &str) -> (r: Res) ensures r is Ok ==> final(self)@ == w_open(old(self)@, name@) { unimplemented!() }
    #[verifier::external_body] fn empty(&mut self, name: &str) -> (r: Res) ensures r is Ok ==> final(self)@ == w_empty(old(self)@, name@) { unimplemented!() }
    #[verifier::external_body] fn elem_if(&mut self, has: bool, name: &str) -> (r: Res) ensures r is Ok ==> final(self)@ == w_if(old(self)@, has, name@) { unimplemented!() }
    #[verifier::external_body] fn end_elem(&mut self, name: &str) -> (r: Res) requires old(self)@.stack.len() > 0, old(self)@.stack.last() == name@ ensures r is Ok ==> final(self)@ == w_end(old(self)@, name@) { unimplemented!() }
    #[verifier::external_body] fn end_elem_if(&mut self, has: bool, name: &str) -> (r: Res) requires has ==> old(self)@.stack.len() > 0 && old(self)@.stack.last() == name@ ensures r is Ok ==> final(self)@ == w_end_if(old(self)@, has, name@) { unimplemented!() }
    #[verifier::external_body] fn attr<T: Shown + ?Sized>(&mut self, name: &str, value: &T) -> (r: Res) requires old(self)@.cur is Some, value.plain() ensures r is Ok ==> final(self)@ == w_attr(old(self)@, name@, value.shown()) { unimplemented!() }
    #[verifier::external_body] fn attr_esc<T: Shown + ?Sized>(&mut self, name: &str, value: &T) -> (r: Res) requires old(self)@.cur is Some ensures r is Ok ==> final(self)@ == w_attr(old(self)@, name@, value.shown()) { unimplemented!() }
    // (attr_str and text_str take 'static text: the compiler admits constants only; those are checked by eye)
    #[verifier::external_body] fn attr_str(&mut self, name: &'static str, value: &'static str) -> (r: Res) requires old(self)@.cur is Some ensures r is Ok ==> final(self)@ == w_attr(old(self)@, name@, value@) { unimplemented!() }
    #[verifier::external_body] fn text<T: Shown + ?Sized>(&mut self, value: &T) -> (r: Res) requires value.plain() ensures r is Ok ==> final(self)@ == w_text(old(self)@, value.shown()) { unimplemented!() }
    #[verifier::external_body] fn text_esc<T: Shown + ?Sized>(&mut self, value: &T) -> (r: Res) ensures r is Ok ==> final(self)@ == w_text(old(self)@, value.shown()) { unimplemented!() }
    #[verifier::external_body] fn text_str(&mut self, value: &'static str) -> (r: Res) ensures r is Ok ==> final(self)@ == w_text(old(self)@, value@) { unimplemented!() }
    #[verifier::external_body] fn elem_text<T: Shown + ?Sized>(&mut self, name: &str, value: &T) -> (r: Res) requires value.plain() ensures r is Ok ==> final(self)@ == w_leaf(old(self)@, name@, value.shown()) { unimplemented!() }
    #[verifier::external_body] fn elem_text_esc<T: Shown + ?Sized>(&mut self, name: &str, value: &T) -> (r: Res) ensures r is Ok ==> final(self)@ == w_leaf(old(self)@, name@, value.shown()) { unimplemented!() }
}
// attributes
#[verifier::external_body] struct DefaultAtom {}
impl DefaultAtom { uninterp spec fn view(&self) -> Seq<char>; #[verifier::external_body] fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
//@struct file=src/attrmap2.rs name=AttrMap2
//@subst Box<str> ==> String
//@end
// trusted: the iterator of AttrMap2 walks the two lists in step
#[verifier::external_body] fn vp_attrs<'a>(m: &'a AttrMap2) -> (r: Vec<(&'a DefaultAtom, &'a str)>)
    ensures r@.len() == m.keys@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == m.keys@[i]@ && r@[i].1@ == m.values@[i]@ { unimplemented!() }
spec fn w_attrs(w: W, m: AttrMap2, n: nat) -> W decreases n { if n == 0 { w } else { w_attr(w_attrs(w, m, (n - 1) as nat), m.keys@[n - 1]@, m.values@[n - 1]@) } }
spec fn w_amap(w: W, m: AttrMap2) -> W { w_attrs(w, m, m.keys@.len()) }
//@gsubst for ($idk, $idv) in $m.attrmap().iter() { $body } ==> let vp_as = vp_attrs($m.attrmap()); for kv in vp_as.iter() { let $idk = kv.0; let $idv = kv.1; $body }
// what the steps do to the open elements; for use where their definitions are hidden
broadcast proof fn ws_open(w: W, n: Nm) ensures (#[trigger] w_open(w, n)).stack == w.stack.push(n), w_open(w, n).cur is Some {}
broadcast proof fn ws_empty(w: W, n: Nm) ensures (#[trigger] w_empty(w, n)).stack == w.stack, w_empty(w, n).cur is Some {}
broadcast proof fn ws_attr(w: W, k: Nm, v: Seq<char>) ensures (#[trigger] w_attr(w, k, v)).stack == w.stack, w_attr(w, k, v).cur is Some == w.cur is Some {}
broadcast proof fn ws_text(w: W, v: Seq<char>) ensures (#[trigger] w_text(w, v)).stack == w.stack {}
broadcast proof fn ws_end(w: W, n: Nm) ensures (#[trigger] w_end(w, n)).stack == w.stack.drop_last() {}
broadcast proof fn ws_leaf(w: W, n: Nm, v: Seq<char>) ensures (#[trigger] w_leaf(w, n, v)).stack == w.stack {}
broadcast group group_ws { ws_open, ws_empty, ws_attr, ws_text, ws_end, ws_leaf }
proof fn w_mention(w: W, n: Nm) ensures w_open(w, n) == w_open(w, n), w_empty(w, n) == w_empty(w, n), w_attr(w, n, n) == w_attr(w, n, n), w_text(w, n) == w_text(w, n), w_end(w, n) == w_end(w, n), w_leaf(w, n, n) == w_leaf(w, n, n) {}
