// ------------------------------------------------------------------ events of the XML reader
ghost enum Ev { Start(Seq<char>, Seq<At>), Empty(Seq<char>, Seq<At>), End(Seq<char>), Text(Seq<char>), Ref(Seq<char>), Eof, Other }
#[verifier::external_body] struct BytesEnd<'a> { _x: &'a u8 }
impl<'a> BytesEnd<'a> {
    uninterp spec fn tag(&self) -> Seq<char>;
    #[verifier::external_body] fn name(&self) -> (r: VpTagName) ensures r@ == self.tag() { unimplemented!() }
}
/// a piece of text, and a reference such as &amp; with the text it stands for
#[verifier::external_body] struct BytesText<'a> { _x: &'a u8 }
impl<'a> BytesText<'a> { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn decode(&self) -> (r: Result<VpCow, OdsError>) ensures r is Ok ==> r->Ok_0.s@ == self.text() { unimplemented!() } }
#[verifier::external_body] struct BytesRef<'a> { _x: &'a u8 }
impl<'a> BytesRef<'a> { uninterp spec fn text(&self) -> Seq<char>; }
#[verifier::external_body] fn entity(xml_ref: &BytesRef<'_>) -> (r: Result<VpCow, OdsError>) ensures r is Ok ==> r->Ok_0.s@ == xml_ref.text() { unimplemented!() }
enum Event<'a> { Start(BytesStart<'a>), Empty(BytesStart<'a>), End(BytesEnd<'a>), Text(BytesText<'a>), GeneralRef(BytesRef<'a>), Eof, Other }
spec fn ev(e: Event<'_>) -> Ev { match e { Event::Start(t) => Ev::Start(t.tag(), t.at()), Event::Empty(t) => Ev::Empty(t.tag(), t.at()), Event::End(t) => Ev::End(t.tag()), Event::Text(t) => Ev::Text(t.text()), Event::GeneralRef(t) => Ev::Ref(t.text()), Event::Eof => Ev::Eof, Event::Other => Ev::Other } }
#[verifier::external_body] struct OdsXmlReader<'a> { _x: &'a u8 }
impl<'a> View for OdsXmlReader<'a> { type V = Seq<Ev>; uninterp spec fn view(&self) -> Seq<Ev>; }
impl<'a> OdsXmlReader<'a> {
    /// the next event; Eof after the last one
    #[verifier::external_body] fn read_event_into(&mut self, buf: &mut Vec<u8>) -> (r: Result<Event<'a>, OdsError>)
        ensures r is Ok ==> (if old(self)@.len() > 0 { ev(r->Ok_0) == old(self)@[0] && final(self)@ == old(self)@.drop_first() } else { r->Ok_0 is Eof && final(self)@ == old(self)@ }) { unimplemented!() }
}
#[verifier::external_body] fn vp_same_name(a: VpTagName, b: VpTagName) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
//@gsubst unused_event($a, $b) ==> vp_unused()
//@gsubst if cfg!(feature = "dump_xml") { $body } ==>
//@gsubst matches!(evt, Event::Empty(_)) ==> (match &evt { Event::Empty(_) => true, _ => false })
//@gsubst matches!(evt, Event::Start(_)) ==> (match &evt { Event::Start(_) => true, _ => false })
