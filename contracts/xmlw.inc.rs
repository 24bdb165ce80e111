// The XML writer: every method appends exactly the stated bytes, and character data is escaped.
global size_of usize == 8;
#[verifier::external_body] struct IoErr {}
type IoResult = Result<(), IoErr>;
/// trusted: the bytes of a text (UTF-8)
uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
/// trusted: what Display writes
trait Display { spec fn shown(&self) -> Seq<char>; }
impl Display for str { spec fn shown(&self) -> Seq<char> { self@ } }
impl Display for String { spec fn shown(&self) -> Seq<char> { self@ } }
/// trusted: a String that is only appended to, seen as its bytes
#[verifier::external_body] struct VpBuf {}
impl VpBuf {
    uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn push(&mut self, c: char) ensures (c as u32) < 128 ==> final(self)@ == old(self)@.push(c as u8) { unimplemented!() }
    #[verifier::external_body]
    fn push_str(&mut self, s: &str) ensures final(self)@ == old(self)@ + utf8(s@) { unimplemented!() }
    /// the bytes written to `tmp2` are UTF-8 again (escaping replaces ASCII characters by ASCII texts)
    #[verifier::external_body]
    fn push_utf8(&mut self, s: &Vec<u8>) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    fn push_shown<T: Display + ?Sized>(&mut self, t: &T) ensures final(self)@ == old(self)@ + utf8(t.shown()) { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
}
#[verifier::external_body]
fn vp_put_shown<T: Display + ?Sized>(v: &mut Vec<u8>, t: &T) ensures final(v)@ == old(v)@ + utf8(t.shown()) { unimplemented!() }
/// io::Write for Vec<u8> of a literal
#[verifier::external_body]
fn vp_put(v: &mut Vec<u8>, s: &str) ensures final(v)@ == old(v)@ + ascii(s@) { unimplemented!() }
/// trusted: io::Write::write_all appends everything or fails
#[verifier::external_body] struct VpSink {}
impl VpSink {
    uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn write_all(&mut self, b: &VpBuf) -> (r: IoResult) ensures r.is_ok() ==> final(self)@ == old(self)@ + b@ { unimplemented!() }
}
spec fn ascii(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
#[verifier::external_body] struct Stack {}
impl Stack {
    // without the feature check_xml the stack is an empty type and these do nothing
    #[verifier::external_body] fn push(&mut self, n: &str) {}
    #[verifier::external_body] fn new() -> Self { unimplemented!() }
}
//@struct file=src/io/xmlwriter.rs name=Open
//@end
//@struct file=src/io/xmlwriter.rs name=XmlWriter
//@subst XmlWriter<W: Write> ==> XmlWriter
//@subst Box<W> ==> VpSink
//@subst buf: String ==> buf: VpBuf
//@end

// ------------------------------------------------------------------ what is written
spec fn out(w: XmlWriter) -> Seq<u8> { w.writer@ + w.buf@ }
spec fn nl(lb: bool) -> Seq<u8> { if lb { seq![10u8] } else { seq![] } }
/// the end of a pending start tag
spec fn closer(o: Open, lb: bool) -> Seq<u8> { match o { Open::None => seq![], Open::Elem => seq![62u8], Open::Empty => seq![47u8, 62u8] + nl(lb) } }
spec fn start_tag(n: Seq<char>) -> Seq<u8> { seq![60u8] + utf8(n) }
spec fn end_tag(n: Seq<char>, lb: bool) -> Seq<u8> { seq![60u8, 47u8] + utf8(n) + seq![62u8] + nl(lb) }
spec fn attr_text(n: Seq<u8>, v: Seq<u8>) -> Seq<u8> { seq![32u8] + n + seq![61u8, 34u8] + v + seq![34u8] }
spec fn base(w: XmlWriter) -> Seq<u8> { out(w) + closer(w.open, w.line_break) }
// the five characters XML reserves in character data and attribute values
spec fn esc1(c: u8) -> Seq<u8> {
    if c == 34 { ascii("&quot;"@) } else if c == 39 { ascii("&apos;"@) } else if c == 38 { ascii("&amp;"@) }
    else if c == 60 { ascii("&lt;"@) } else if c == 62 { ascii("&gt;"@) } else { seq![c] }
}
spec fn esc(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { esc(s.drop_last()) + esc1(s.last()) } }
spec fn esn1(c: u8) -> Seq<u8> { if c == 92 { seq![92u8, 92u8] } else { esc1(c) } }
spec fn esn(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { esn(s.drop_last()) + esn1(s.last()) } }
/// any escaping that protects the reserved characters and reads back as the same characters is as good
spec fn data_ok(e: Seq<u8>, s: Seq<u8>) -> bool { unesc(e) == Some(s) && safe(e) }
spec fn safe(e: Seq<u8>) -> bool { forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] != 34 && e[i] != 39 && e[i] != 60 && e[i] != 62 }
/// how an XML reader resolves the predefined entities; None: a reference that is not one of them
spec fn ent(s: Seq<u8>) -> Option<(u8, int)> {
    if starts(s, ascii("&quot;"@)) { Some((34u8, 6)) } else if starts(s, ascii("&apos;"@)) { Some((39u8, 6)) }
    else if starts(s, ascii("&amp;"@)) { Some((38u8, 5)) } else if starts(s, ascii("&lt;"@)) { Some((60u8, 4)) }
    else if starts(s, ascii("&gt;"@)) { Some((62u8, 4)) } else { None }
}
spec fn starts(s: Seq<u8>, p: Seq<u8>) -> bool { s.len() >= p.len() && s.subrange(0, p.len() as int) =~= p }
spec fn unesc(s: Seq<u8>) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Some(seq![]) }
    else if s[0] != 38 { match unesc(s.drop_first()) { Some(r) => Some(seq![s[0]] + r), None => None } }
    else { match ent(s) {
        Some((c, n)) => if 0 < n <= s.len() { match unesc(s.subrange(n, s.len() as int)) { Some(r) => Some(seq![c] + r), None => None } } else { None },
        None => None } }
}
proof fn lits() ensures
    ascii("&quot;"@) =~= seq![38u8, 113u8, 117u8, 111u8, 116u8, 59u8], ascii("&apos;"@) =~= seq![38u8, 97u8, 112u8, 111u8, 115u8, 59u8],
    ascii("&amp;"@) =~= seq![38u8, 97u8, 109u8, 112u8, 59u8], ascii("&lt;"@) =~= seq![38u8, 108u8, 116u8, 59u8], ascii("&gt;"@) =~= seq![38u8, 103u8, 116u8, 59u8],
{ reveal_strlit("&quot;"); reveal_strlit("&apos;"); reveal_strlit("&amp;"); reveal_strlit("&lt;"); reveal_strlit("&gt;"); }
/// one escaped character in front
proof fn lemma_un1(c: u8, t: Seq<u8>)
    ensures unesc(esc1(c) + t) == (match unesc(t) { Some(r) => Some(seq![c] + r), None => None })
{
    lits();
    let s = esc1(c) + t;
    if c == 34 || c == 39 || c == 38 || c == 60 || c == 62 {
        let n = esc1(c).len() as int;
        assert(s.subrange(0, n) =~= esc1(c));
        assert(s[0] == 38 && s[1] == esc1(c)[1] && s[2] == esc1(c)[2]);
        assert(s.subrange(n, s.len() as int) =~= t);
        assert(ent(s) == Some((c, n))) by {
            if c != 34 && starts(s, ascii("&quot;"@)) { assert(s.subrange(0, 6)[1] == 113u8); }
            if c != 39 && starts(s, ascii("&apos;"@)) { assert(s.subrange(0, 6)[1] == 97u8); assert(s.subrange(0, 6)[2] == 112u8); }
            if c != 38 && starts(s, ascii("&amp;"@)) { assert(s.subrange(0, 5)[1] == 97u8); assert(s.subrange(0, 5)[2] == 109u8); }
            if c != 60 && starts(s, ascii("&lt;"@)) { assert(s.subrange(0, 4)[1] == 108u8); }
        }
    } else {
        assert(s[0] == c && s.drop_first() =~= t);
    }
}
proof fn lemma_un(s: Seq<u8>, t: Seq<u8>)
    ensures unesc(esc(s) + t) == (match unesc(t) { Some(r) => Some(s + r), None => None })
    decreases s.len()
{
    if s.len() == 0 { assert(esc(s) + t =~= t); match unesc(t) { Some(r) => { assert(s + r =~= r); }, None => {} } }
    else {
        let a = s.drop_last(); let c = s.last();
        assert(esc(s) + t =~= esc(a) + (esc1(c) + t));
        lemma_un(a, esc1(c) + t);
        lemma_un1(c, t);
        match unesc(t) { Some(r) => { assert(a + (seq![c] + r) =~= s + r); }, None => {} }
    }
}
/// THEOREM: escaped text reads back as the text, and holds no delimiter.
proof fn thm_escape(s: Seq<u8>) ensures data_ok(esc(s), s)
{
    lemma_un(s, seq![]);
    assert(esc(s) + Seq::<u8>::empty() =~= esc(s));
    assert(s + Seq::<u8>::empty() =~= s);
    lemma_safe(s);
}
proof fn lemma_safe(s: Seq<u8>) ensures safe(esc(s)) decreases s.len()
{
    lits();
    if s.len() > 0 { lemma_safe(s.drop_last()); assert(safe(esc1(s.last()))); }
}
/// THEOREM: an attribute value ends at its own closing quote, for every value and whatever follows.
proof fn thm_attr_ends(v: Seq<u8>, rest: Seq<u8>)
    ensures ({ let t = esc(v) + seq![34u8] + rest; let n = esc(v).len() as int; t[n] == 34 && (forall|i: int| 0 <= i < n ==> #[trigger] t[i] != 34 && t[i] != 60) && t.subrange(0, n) =~= esc(v) })
{ lemma_safe(v); }
/// THEOREM: character data ends at the next tag, for every text and whatever follows.
proof fn thm_text_ends(v: Seq<u8>, rest: Seq<u8>)
    ensures ({ let t = esc(v) + seq![60u8] + rest; let n = esc(v).len() as int; t[n] == 60 && (forall|i: int| 0 <= i < n ==> #[trigger] t[i] != 60) && unesc(t.subrange(0, n)) == Some(v) })
{ lemma_safe(v); thm_escape(v); assert((esc(v) + seq![60u8] + rest).subrange(0, esc(v).len() as int) =~= esc(v)); }
/// names of attributes: everything but a backslash reads back
proof fn thm_names(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> s[i] != 92 ensures esn(s) == esc(s), data_ok(esn(s), s) decreases s.len()
{ if s.len() > 0 { thm_names(s.drop_last()); } thm_escape(s); }

#[verifier::external_body]
proof fn axiom_utf8(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 ensures utf8(s) == ascii(s) {}
/// the same delimiters pushed one by one or together
proof fn delims() ensures
    utf8("<"@) == seq![60u8],
    utf8("</"@) == seq![60u8, 47u8],
    utf8(">"@) == seq![62u8],
    utf8("/>"@) == seq![47u8, 62u8],
    utf8("\n"@) == seq![10u8],
    utf8(">\n"@) == seq![62u8, 10u8],
    utf8("/>\n"@) == seq![47u8, 62u8, 10u8],
    utf8(" "@) == seq![32u8],
    utf8("="@) == seq![61u8],
    utf8("\""@) == seq![34u8],
    utf8("=\""@) == seq![61u8, 34u8],
    utf8("\" "@) == seq![34u8, 32u8],
{
    reveal_strlit("<"); axiom_utf8("<"@); assert(ascii("<"@) =~= seq![60u8]);
    reveal_strlit("</"); axiom_utf8("</"@); assert(ascii("</"@) =~= seq![60u8, 47u8]);
    reveal_strlit(">"); axiom_utf8(">"@); assert(ascii(">"@) =~= seq![62u8]);
    reveal_strlit("/>"); axiom_utf8("/>"@); assert(ascii("/>"@) =~= seq![47u8, 62u8]);
    reveal_strlit("\n"); axiom_utf8("\n"@); assert(ascii("\n"@) =~= seq![10u8]);
    reveal_strlit(">\n"); axiom_utf8(">\n"@); assert(ascii(">\n"@) =~= seq![62u8, 10u8]);
    reveal_strlit("/>\n"); axiom_utf8("/>\n"@); assert(ascii("/>\n"@) =~= seq![47u8, 62u8, 10u8]);
    reveal_strlit(" "); axiom_utf8(" "@); assert(ascii(" "@) =~= seq![32u8]);
    reveal_strlit("="); axiom_utf8("="@); assert(ascii("="@) =~= seq![61u8]);
    reveal_strlit("\""); axiom_utf8("\""@); assert(ascii("\""@) =~= seq![34u8]);
    reveal_strlit("=\""); axiom_utf8("=\""@); assert(ascii("=\""@) =~= seq![61u8, 34u8]);
    reveal_strlit("\" "); axiom_utf8("\" "@); assert(ascii("\" "@) =~= seq![34u8, 32u8]);
}

//@gsubst XmlWriter<W> ==> XmlWriter
//@gsubst io::Result<()> ==> IoResult
//@gsubst let _ = write!(self.buf, "{}", $t) ==> self.buf.push_shown($t)
//@gsubst write!(self.tmp, "{}", $t) ==> vp_put_shown(&mut self.tmp, $t)
//@gsubst write!(tmp2, $l) ==> vp_put(tmp2, $l)
//@gsubst unsafe { self.buf.push_str(from_utf8_unchecked(&self.tmp2)); } ==> self.buf.push_utf8(&self.tmp2);
//@gsubst if cfg!(feature = "check_xml") && $c { $body } ==>
//@gsubst if cfg!(feature = "check_xml") { $body } ==>
//@fn file=src/io/xmlwriter.rs path=XmlWriter::escape//escape_impl as=escape_text
//@params text tmp2
//@subst match c { $body } ==> match *c { $body }
//@spec
    ensures final(tmp2)@ == esc(text@),
//@loop 0 it=it
    invariant tmp2@ == esc(text@.subrange(0, it.index@ as int)), it.seq().len() == text@.len(), forall|i: int| 0 <= i < text@.len() ==> *(#[trigger] it.seq()[i]) == text@[i],
//@at loopend 0
    proof { let k = it.index@ as int; assert(*c == text@[k]); assert(text@.subrange(0, k + 1).drop_last() =~= text@.subrange(0, k)); assert(tmp2@ =~= esc(text@.subrange(0, k + 1))); }
//@at afterloop 0
    proof { assert(text@.subrange(0, text@.len() as int) =~= text@); }
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::escape_name//escape_impl as=escape_ident
//@params text tmp2
//@subst match c { $body } ==> match *c { $body }
//@spec
    ensures final(tmp2)@ == esn(text@),
//@loop 0 it=it
    invariant tmp2@ == esn(text@.subrange(0, it.index@ as int)), it.seq().len() == text@.len(), forall|i: int| 0 <= i < text@.len() ==> *(#[trigger] it.seq()[i]) == text@[i],
//@at loopend 0
    proof { reveal_strlit("\\\\"); let k = it.index@ as int; assert(*c == text@[k]); assert(text@.subrange(0, k + 1).drop_last() =~= text@.subrange(0, k)); assert(ascii("\\\\"@) =~= seq![92u8, 92u8]); assert(tmp2@ =~= esn(text@.subrange(0, k + 1))); }
//@at afterloop 0
    proof { assert(text@.subrange(0, text@.len() as int) =~= text@); }
//@end
impl XmlWriter {
//@fn file=src/io/xmlwriter.rs path=XmlWriter::new
//@params writer
//@ret r
//@subst writer: W ==> writer: VpSink
//@subst Box::new($x) ==> $x
//@subst buf: Default::default() ==> buf: VpBuf::new()
//@subst tmp: Default::default() ==> tmp: Vec::new()
//@subst tmp2: Default::default() ==> tmp2: Vec::new()
//@spec
    ensures out(r) == writer@, r.open == Open::None, !r.line_break,
//@at start
    proof { assert(writer@ + Seq::<u8>::empty() =~= writer@); }
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::line_break
//@params line_break
//@ret r
//@spec
    ensures out(r) == out(self), r.open == self.open, r.line_break == line_break,
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::set_line_break
//@params line_break
//@ret r
//@subst std::mem::replace(&mut self.line_break, $v) ==> { let vp_o = self.line_break; self.line_break = $v; vp_o }
//@spec
    ensures out(*final(self)) == out(*old(self)), final(self).open == old(self).open, final(self).line_break == line_break, r == old(self).line_break,
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::write_buf
//@ret r
//@subst self.buf.as_bytes() ==> &self.buf
//@spec
    ensures r.is_ok() ==> out(*final(self)) == out(*old(self)) && final(self).buf@ == Seq::<u8>::empty(), final(self).open == old(self).open, final(self).line_break == old(self).line_break,
//@at start
    proof { assert(forall|s: Seq<u8>| #[trigger] (s + Seq::<u8>::empty()) =~= s); }
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::close_elem
//@ret r
//@spec
    ensures r.is_ok() ==> out(*final(self)) =~= base(*old(self)), final(self).open == Open::None, final(self).line_break == old(self).line_break,
//@at start
    proof { delims(); }
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::dtd
//@params encoding
//@ret r
//@spec
    ensures r.is_ok() ==> out(*final(self)) =~= out(*old(self)) + utf8("<?xml version=\"1.0\" encoding=\""@) + utf8(encoding@) + utf8("\" ?>\n"@) + nl(old(self).line_break),
      final(self).open == old(self).open, final(self).line_break == old(self).line_break,
//@at start
    proof { delims(); }
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::elem_text
//@params name text
//@ret r
//@spec
    ensures r.is_ok() ==> out(*final(self)) =~= base(*old(self)) + start_tag(name@) + seq![62u8] + utf8(text.shown()) + end_tag(name@, old(self).line_break),
      final(self).open == Open::None, final(self).line_break == old(self).line_break,
//@at start
    proof { delims(); }
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::elem_text_esc
//@params name text
//@ret r
//@spec
    ensures r.is_ok() ==> out(*final(self)) =~= base(*old(self)) + start_tag(name@) + seq![62u8] + esc(utf8(text.shown())) + end_tag(name@, old(self).line_break),
      r.is_ok() ==> final(self).open == Open::None, final(self).line_break == old(self).line_break,
//@at start
    proof { delims(); }
    proof { assert(forall|a: Seq<u8>, b: Seq<u8>, c: u8| #[trigger] (a + b.push(c)) =~= (a + b).push(c)); assert(forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] (a + (b + c)) =~= (a + b) + c); }
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::elem
//@params name
//@ret r
//@spec
    ensures r.is_ok() ==> out(*final(self)) =~= base(*old(self)) + start_tag(name@), r.is_ok() ==> final(self).open == Open::Elem, final(self).line_break == old(self).line_break,
//@at start
    proof { delims(); }
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::elem_if
//@params has_content name
//@ret r
//@spec
    ensures r.is_ok() ==> out(*final(self)) =~= base(*old(self)) + start_tag(name@), r.is_ok() ==> final(self).open == (if has_content { Open::Elem } else { Open::Empty }), final(self).line_break == old(self).line_break,
//@at start
    proof { delims(); }
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::empty
//@params name
//@ret r
//@spec
    ensures r.is_ok() ==> out(*final(self)) =~= base(*old(self)) + start_tag(name@), r.is_ok() ==> final(self).open == Open::Empty, final(self).line_break == old(self).line_break,
//@at start
    proof { delims(); }
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::attr_str
//@params name value
//@ret r
//@spec
    ensures r.is_ok() ==> out(*final(self)) =~= out(*old(self)) + attr_text(utf8(name@), utf8(value@)), final(self).open == old(self).open, final(self).line_break == old(self).line_break,
//@at start
    proof { delims(); }
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::attr
//@params name value
//@ret r
//@spec
    ensures r.is_ok() ==> out(*final(self)) =~= out(*old(self)) + attr_text(utf8(name@), utf8(value.shown())), final(self).open == old(self).open, final(self).line_break == old(self).line_break,
//@at start
    proof { delims(); }
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::attr_esc
//@params name value
//@ret r
//@spec
    ensures r.is_ok() ==> out(*final(self)) =~= out(*old(self)) + attr_text(esn(utf8(name@)), esc(utf8(value.shown()))), final(self).open == old(self).open, final(self).line_break == old(self).line_break,
//@at start
    proof { delims(); }
    proof { assert(forall|a: Seq<u8>, b: Seq<u8>, c: u8| #[trigger] (a + b.push(c)) =~= (a + b).push(c)); assert(forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] (a + (b + c)) =~= (a + b) + c); }
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::escape
//@params text
//@ret r
//@subst fn escape_impl($p) { $body } ==>
//@subst escape_impl(&self.tmp, &mut self.tmp2) ==> escape_text(self.tmp.as_slice(), &mut self.tmp2)
//@spec
    ensures r.is_ok(), out(*final(self)) =~= out(*old(self)) + esc(utf8(text.shown())), final(self).open == old(self).open, final(self).line_break == old(self).line_break,
//@at start
    proof { assert(forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) =~= s); }
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::escape_name
//@params text
//@ret r
//@subst fn escape_impl($p) { $body } ==>
//@subst escape_impl(&self.tmp, &mut self.tmp2) ==> escape_ident(self.tmp.as_slice(), &mut self.tmp2)
//@spec
    ensures r.is_ok(), out(*final(self)) =~= out(*old(self)) + esn(utf8(text.shown())), final(self).open == old(self).open, final(self).line_break == old(self).line_break,
//@at start
    proof { assert(forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) =~= s); }
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::text_str
//@params text
//@ret r
//@spec
    ensures r.is_ok() ==> out(*final(self)) =~= base(*old(self)) + utf8(text@), final(self).open == Open::None, final(self).line_break == old(self).line_break,
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::text
//@params text
//@ret r
//@spec
    ensures r.is_ok() ==> out(*final(self)) =~= base(*old(self)) + utf8(text.shown()), final(self).open == Open::None, final(self).line_break == old(self).line_break,
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::text_esc
//@params text
//@ret r
//@spec
    ensures r.is_ok() ==> out(*final(self)) =~= base(*old(self)) + esc(utf8(text.shown())), final(self).open == Open::None, final(self).line_break == old(self).line_break,
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::end_elem_if
//@params has_content name
//@ret r
//@spec
    ensures r.is_ok() ==> out(*final(self)) =~= base(*old(self)) + (if has_content { end_tag(name@, old(self).line_break) } else { seq![] }), final(self).open == Open::None, final(self).line_break == old(self).line_break,
//@at start
    proof { delims(); }
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::end_elem
//@params name
//@ret r
//@spec
    ensures r.is_ok() ==> out(*final(self)) =~= base(*old(self)) + end_tag(name@, old(self).line_break), final(self).open == Open::None, final(self).line_break == old(self).line_break,
//@end
//@fn file=src/io/xmlwriter.rs path=XmlWriter::close
//@ret r
//@spec
    ensures r.is_ok() ==> out(*final(self)) == out(*old(self)) && final(self).buf@.len() == 0,
//@end
}
