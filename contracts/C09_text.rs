//@include pre.rs
// C09: the text of a value and the value are inverse to each other.
verus! {
global size_of usize == 8;
spec fn ascii(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
#[verifier::external_body] fn vp_is_bytes(s: &[u8], l: &str) -> (r: bool) ensures r == (s@ == ascii(l@)) { unimplemented!() }
#[verifier::external_body] fn vp_is(s: &str, l: &str) -> (r: bool) ensures r == (s@ == l@) { unimplemented!() }
#[verifier::external_body] fn vp_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] fn vp_utf8_text(s: &[u8]) -> Result<String, OdsError> { unimplemented!() }
#[verifier::external_body] struct TokErr {}
#[verifier::external_body] struct OdsError {}
#[verifier::external_body] fn vp_err() -> TokErr { unimplemented!() }
#[verifier::external_body] fn vp_oerr() -> OdsError { unimplemented!() }
#[verifier::external_body] fn vp_into(e: TokErr) -> OdsError { unimplemented!() }
fn vp_lift<T>(r: Result<T, TokErr>) -> (q: Result<T, OdsError>) ensures r matches Ok(v) ==> q == Ok::<T, OdsError>(v), r is Err ==> q is Err { match r { Ok(v) => Ok(v), Err(e) => Err(vp_into(e)) } }
//@glitmatch
//@gfmt
//@gsubst KSpan<'_> ==> &[u8]
//@gsubst KTokenResult<'_, $t> ==> Result<$t, TokErr>
//@gsubst KTokenizerResult<'_, $t> ==> Result<(&[u8], $t), TokErr>
//@gsubst nom::Err::Error(KTokenizerError::new($a, $b)) ==> vp_err()
//@gsubst OdsError::Ods($x) ==> vp_oerr()
//@gsubst OdsError::Parse($x) ==> vp_oerr()
//@gsubst &mut Formatter<'_> ==> &mut String
//@gsubst std::fmt::Result ==> Result<(), TokErr>

// ------------------------------------------------------------------ words
//@struct file=src/sheet_.rs name=Visibility
//@end
//@struct file=src/xlink.rs name=XLinkActuate
//@end
//@struct file=src/xlink.rs name=XLinkShow
//@end
//@struct file=src/xlink.rs name=XLinkType
//@end
//@struct file=src/style/units.rs name=FormatSource
//@end
//@struct file=src/style/units.rs name=TransliterationStyle
//@end
//@struct file=src/style/units.rs name=MasterPageUsage
//@end
spec fn word_visibility(v: Visibility) -> Seq<char> { match v { Visibility::Visible => "visible"@, Visibility::Collapsed => "collapse"@, Visibility::Filtered => "filter"@ } }
spec fn word_actuate(v: XLinkActuate) -> Seq<char> { match v { XLinkActuate::OnLoad => "onLoad"@, XLinkActuate::OnRequest => "onRequest"@ } }
spec fn word_show(v: XLinkShow) -> Seq<char> { match v { XLinkShow::New => "new"@, XLinkShow::Replace => "replace"@ } }
spec fn word_type(v: XLinkType) -> Seq<char> { match v { XLinkType::Simple => "simple"@, XLinkType::Extended => "extended"@, XLinkType::Locator => "locator"@, XLinkType::Arc => "arc"@, XLinkType::Resource => "resource"@, XLinkType::Title => "title"@, XLinkType::None => "none"@ } }
spec fn word_source(v: FormatSource) -> Seq<char> { match v { FormatSource::Fixed => "fixed"@, FormatSource::Language => "language"@ } }
spec fn word_trans(v: TransliterationStyle) -> Seq<char> { match v { TransliterationStyle::Short => "short"@, TransliterationStyle::Medium => "medium"@, TransliterationStyle::Long => "long"@ } }
spec fn word_usage(v: MasterPageUsage) -> Seq<char> { match v { MasterPageUsage::All => "all"@, MasterPageUsage::Left => "left"@, MasterPageUsage::Mirrored => "mirrored"@, MasterPageUsage::Right => "right"@ } }
fn vp_lit(f: &mut String, s: &str) ensures final(f)@ == old(f)@ + s@ { f.push_str(s); }
fn vp_lit_ok(f: &mut String, s: &str) -> (r: Result<(), TokErr>) ensures r.is_ok(), final(f)@ == old(f)@ + s@ { f.push_str(s); Ok(()) }
//@gsubst Result<(), fmt::Error> ==> Result<(), TokErr>
//@gsubst Result<(), std::fmt::Error> ==> Result<(), TokErr>
//@gsubst f.write_str($s) ==> vp_lit_ok(f, $s)
proof fn words() ensures
    forall|a: Seq<char>, b: Seq<char>| #![trigger ascii(a), ascii(b)] a.len() != b.len() ==> ascii(a) != ascii(b),
    forall|a: Seq<char>, b: Seq<char>| #![trigger ascii(a), ascii(b)] a.len() > 0 && b.len() > 0 && (a[0] as u8) != (b[0] as u8) ==> ascii(a) != ascii(b),
    forall|a: Seq<char>, b: Seq<char>| #![trigger ascii(a), ascii(b)] a.len() > 2 && b.len() > 2 && (a[2] as u8) != (b[2] as u8) ==> ascii(a) != ascii(b),
{
    assert forall|a: Seq<char>, b: Seq<char>| #![trigger ascii(a), ascii(b)] a.len() != b.len() implies ascii(a) != ascii(b) by { assert(ascii(a).len() == a.len()); assert(ascii(b).len() == b.len()); }
    assert forall|a: Seq<char>, b: Seq<char>| #![trigger ascii(a), ascii(b)] a.len() > 0 && b.len() > 0 && (a[0] as u8) != (b[0] as u8) implies ascii(a) != ascii(b) by { assert(ascii(a)[0] == a[0] as u8); assert(ascii(b)[0] == b[0] as u8); }
    assert forall|a: Seq<char>, b: Seq<char>| #![trigger ascii(a), ascii(b)] a.len() > 2 && b.len() > 2 && (a[2] as u8) != (b[2] as u8) implies ascii(a) != ascii(b) by { assert(ascii(a)[2] == a[2] as u8); assert(ascii(b)[2] == b[2] as u8); }
}
impl Visibility {
//@fn file=src/sheet_.rs path=Visibility::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ == old(f)@ + word_visibility(*self),
//@end
}
//@fn file=src/io/parse.rs path=parse_visibility
//@params input
//@ret r
//@spec
    ensures match r { Ok(v) => input@ == ascii(word_visibility(v)), Err(_) => forall|v: Visibility| input@ != #[trigger] ascii(word_visibility(v)) },
//@at start
    proof { reveal_strlit("visible"); reveal_strlit("collapse"); reveal_strlit("filter"); words(); }
//@end
/// THEOREM: different values have different words, so a value reads back as itself.
proof fn thm_visibility(a: Visibility, b: Visibility) ensures ascii(word_visibility(a)) == ascii(word_visibility(b)) ==> a == b { reveal_strlit("visible"); reveal_strlit("collapse"); reveal_strlit("filter"); words(); }
impl XLinkActuate {
//@fn file=src/xlink.rs path=XLinkActuate::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ == old(f)@ + word_actuate(*self),
//@end
}
//@fn file=src/io/parse.rs path=parse_xlink_actuate
//@params input
//@ret r
//@spec
    ensures match r { Ok(v) => input@ == ascii(word_actuate(v)), Err(_) => forall|v: XLinkActuate| input@ != #[trigger] ascii(word_actuate(v)) },
//@at start
    proof { reveal_strlit("onLoad"); reveal_strlit("onRequest"); words(); }
//@end
/// THEOREM: different values have different words, so a value reads back as itself.
proof fn thm_actuate(a: XLinkActuate, b: XLinkActuate) ensures ascii(word_actuate(a)) == ascii(word_actuate(b)) ==> a == b { reveal_strlit("onLoad"); reveal_strlit("onRequest"); words(); }
impl XLinkShow {
//@fn file=src/xlink.rs path=XLinkShow::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ == old(f)@ + word_show(*self),
//@end
}
//@fn file=src/io/parse.rs path=parse_xlink_show
//@params input
//@ret r
//@spec
    ensures match r { Ok(v) => input@ == ascii(word_show(v)), Err(_) => forall|v: XLinkShow| input@ != #[trigger] ascii(word_show(v)) },
//@at start
    proof { reveal_strlit("new"); reveal_strlit("replace"); words(); }
//@end
/// THEOREM: different values have different words, so a value reads back as itself.
proof fn thm_show(a: XLinkShow, b: XLinkShow) ensures ascii(word_show(a)) == ascii(word_show(b)) ==> a == b { reveal_strlit("new"); reveal_strlit("replace"); words(); }
impl XLinkType {
//@fn file=src/xlink.rs path=XLinkType::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ == old(f)@ + word_type(*self),
//@end
}
//@fn file=src/io/parse.rs path=parse_xlink_type
//@params input
//@ret r
//@spec
    ensures match r { Ok(v) => input@ == ascii(word_type(v)), Err(_) => forall|v: XLinkType| input@ != #[trigger] ascii(word_type(v)) },
//@at start
    proof { reveal_strlit("simple"); reveal_strlit("extended"); reveal_strlit("locator"); reveal_strlit("arc"); reveal_strlit("resource"); reveal_strlit("title"); reveal_strlit("none"); words(); }
//@end
/// THEOREM: different values have different words, so a value reads back as itself.
proof fn thm_type(a: XLinkType, b: XLinkType) ensures ascii(word_type(a)) == ascii(word_type(b)) ==> a == b { reveal_strlit("simple"); reveal_strlit("extended"); reveal_strlit("locator"); reveal_strlit("arc"); reveal_strlit("resource"); reveal_strlit("title"); reveal_strlit("none"); words(); }
impl FormatSource {
//@fn file=src/style/units.rs path=FormatSource::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ == old(f)@ + word_source(*self),
//@end
//@fn file=src/style/units.rs path=FormatSource::parse_attr trait=ParseStyleAttr<FormatSource>
//@params attr
//@ret r
//@spec
    ensures attr is None ==> r == Ok::<Option<FormatSource>, OdsError>(None), attr matches Some(t) ==> (match r { Ok(v) => v is Some && t@ == word_source(v->0), Err(_) => forall|v: FormatSource| t@ != #[trigger] word_source(v) }),
//@at start
    proof { reveal_strlit("fixed"); reveal_strlit("language"); }
//@end
}
/// THEOREM: different values have different words, so a value reads back as itself.
proof fn thm_source(a: FormatSource, b: FormatSource) ensures word_source(a) == word_source(b) ==> a == b { reveal_strlit("fixed"); reveal_strlit("language"); let (x, y) = (word_source(a), word_source(b)); if x == y { assert(x.len() == y.len()); assert(x[0] == y[0]); assert(x[1] == y[1]); } }
impl TransliterationStyle {
//@fn file=src/style/units.rs path=TransliterationStyle::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ == old(f)@ + word_trans(*self),
//@end
//@fn file=src/style/units.rs path=TransliterationStyle::parse_attr trait=ParseStyleAttr<TransliterationStyle>
//@params attr
//@ret r
//@spec
    ensures attr is None ==> r == Ok::<Option<TransliterationStyle>, OdsError>(None), attr matches Some(t) ==> (match r { Ok(v) => v is Some && t@ == word_trans(v->0), Err(_) => forall|v: TransliterationStyle| t@ != #[trigger] word_trans(v) }),
//@at start
    proof { reveal_strlit("short"); reveal_strlit("medium"); reveal_strlit("long"); }
//@end
}
/// THEOREM: different values have different words, so a value reads back as itself.
proof fn thm_trans(a: TransliterationStyle, b: TransliterationStyle) ensures word_trans(a) == word_trans(b) ==> a == b { reveal_strlit("short"); reveal_strlit("medium"); reveal_strlit("long"); let (x, y) = (word_trans(a), word_trans(b)); if x == y { assert(x.len() == y.len()); assert(x[0] == y[0]); assert(x[1] == y[1]); } }
impl MasterPageUsage {
//@fn file=src/style/units.rs path=MasterPageUsage::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ == old(f)@ + word_usage(*self),
//@end
//@fn file=src/style/units.rs path=MasterPageUsage::parse_attr trait=ParseStyleAttr<MasterPageUsage>
//@params attr
//@ret r
//@spec
    ensures attr is None ==> r == Ok::<Option<MasterPageUsage>, OdsError>(None), attr matches Some(t) ==> (match r { Ok(v) => v is Some && t@ == word_usage(v->0), Err(_) => forall|v: MasterPageUsage| t@ != #[trigger] word_usage(v) }),
//@at start
    proof { reveal_strlit("all"); reveal_strlit("left"); reveal_strlit("mirrored"); reveal_strlit("right"); }
//@end
}
/// THEOREM: different values have different words, so a value reads back as itself.
proof fn thm_usage(a: MasterPageUsage, b: MasterPageUsage) ensures word_usage(a) == word_usage(b) ==> a == b { reveal_strlit("all"); reveal_strlit("left"); reveal_strlit("mirrored"); reveal_strlit("right"); let (x, y) = (word_usage(a), word_usage(b)); if x == y { assert(x.len() == y.len()); assert(x[0] == y[0]); assert(x[1] == y[1]); } }
// ------------------------------------------------------------------ booleans and integers
//@fn file=src/io/parse.rs path=token_bool
//@params input
//@ret r
//@spec
    ensures input@ == ascii("true"@) ==> r == Ok::<bool, TokErr>(true), input@ == ascii("false"@) ==> r == Ok::<bool, TokErr>(false), input@ != ascii("true"@) && input@ != ascii("false"@) ==> r is Err,
//@at start
    proof { reveal_strlit("true"); reveal_strlit("false"); words(); }
//@end
spec fn digit(c: u8) -> bool { 48 <= c <= 57 }
spec fn digits(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
spec fn dval(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dval(s.drop_last()) * 10 + (s.last() - 48) } }
spec fn sdigits(s: Seq<u8>) -> bool { s.len() > 0 && (s[0] == 45 || digit(s[0])) && digits(s.drop_first()) }
spec fn sval(s: Seq<u8>) -> int { if s.len() > 0 && s[0] == 45 { -dval(s.drop_first()) } else { dval(s) } }
/// str::parse of an integer type with the given limits, on text of digits with an optional minus
spec fn int_ok(s: Seq<u8>, lo: int, hi: int) -> bool { s.len() > (if s[0] == 45 { 1int } else { 0int }) && lo <= sval(s) <= hi }
#[verifier::external_body] fn vp_parse_u32(s: &[u8]) -> (r: Result<u32, TokErr>) ensures digits(s@) ==> (match r { Ok(v) => s@.len() > 0 && v == dval(s@), Err(_) => s@.len() == 0 || dval(s@) > u32::MAX }) { unimplemented!() }
#[verifier::external_body] fn vp_parse_i16(s: &[u8]) -> (r: Result<i16, TokErr>) ensures sdigits(s@) ==> (match r { Ok(v) => int_ok(s@, i16::MIN as int, i16::MAX as int) && v == sval(s@), Err(_) => !int_ok(s@, i16::MIN as int, i16::MAX as int) }) { unimplemented!() }
#[verifier::external_body] fn vp_parse_i32(s: &[u8]) -> (r: Result<i32, TokErr>) ensures sdigits(s@) ==> (match r { Ok(v) => int_ok(s@, i32::MIN as int, i32::MAX as int) && v == sval(s@), Err(_) => !int_ok(s@, i32::MIN as int, i32::MAX as int) }) { unimplemented!() }
#[verifier::external_body] fn vp_parse_i64(s: &[u8]) -> (r: Result<i64, TokErr>) ensures sdigits(s@) ==> (match r { Ok(v) => int_ok(s@, i64::MIN as int, i64::MAX as int) && v == sval(s@), Err(_) => !int_ok(s@, i64::MIN as int, i64::MAX as int) }) { unimplemented!() }
fn vp_digit(c: &u8) -> (r: bool) ensures r == digit(*c) { *c >= 48 && *c <= 57 }
//@gsubst $idc.is_dec_digit() ==> vp_digit($idc)
//@gsubst unsafe { from_utf8_unchecked($x) }.parse::<u32>() ==> vp_parse_u32($x)
//@gsubst unsafe { from_utf8_unchecked($x) }.parse::<i16>() ==> vp_parse_i16($x)
//@gsubst unsafe { from_utf8_unchecked($x) }.parse::<i32>() ==> vp_parse_i32($x)
//@gsubst unsafe { from_utf8_unchecked($x) }.parse::<i64>() ==> vp_parse_i64($x)
//@fn file=src/io/parse.rs path=all_digits
//@params input
//@ret r
//@spec
    ensures r is Ok == digits(input@),
//@loop 0 it=it
    invariant it.seq().len() == input@.len(), forall|i: int| 0 <= i < input@.len() ==> *(#[trigger] it.seq()[i]) == input@[i], forall|i: int| 0 <= i < it.index@ ==> digit(#[trigger] input@[i]),
//@at before 0 return
    proof { assert(!digit(input@[it.index@ as int])); }
//@end
//@fn file=src/io/parse.rs path=sign_all_digits
//@params input
//@ret r
//@subst let mut it = input.iter(); ==> let vp_first = input.first();
//@subst match it.next() ==> match vp_first
//@subst Some(v) if v.is_dec_digit() => ==> Some(v) if vp_digit(v) =>
//@subst for b in it { $body } ==> let vp_rest = vstd::slice::slice_subrange(input, 1, input.len()); for b in vp_rest { $body }
//@spec
    ensures r is Ok == sdigits(input@),
//@loop 0 it=jt
    invariant input@.len() > 0, vp_rest@ =~= input@.drop_first(), input@[0] == 45 || digit(input@[0]), jt.seq().len() == vp_rest@.len(), forall|i: int| 0 <= i < vp_rest@.len() ==> *(#[trigger] jt.seq()[i]) == vp_rest@[i], forall|i: int| 0 <= i < jt.index@ ==> digit(#[trigger] vp_rest@[i]),
//@at before 1 return
    proof { assert(!digit(vp_rest@[jt.index@ as int])); assert(!digit(input@.drop_first()[jt.index@ as int])); }
//@end
//@fn file=src/io/parse.rs path=token_u32
//@params input
//@ret r
//@spec
    ensures match r { Ok(v) => digits(input@) && input@.len() > 0 && v == dval(input@), Err(_) => !digits(input@) || input@.len() == 0 || dval(input@) > u32::MAX },
//@end
//@fn file=src/io/parse.rs path=token_i16
//@params input
//@ret r
//@spec
    ensures match r { Ok(v) => sdigits(input@) && v == sval(input@), Err(_) => !sdigits(input@) || !int_ok(input@, i16::MIN as int, i16::MAX as int) },
//@end
//@fn file=src/io/parse.rs path=token_i32
//@params input
//@ret r
//@spec
    ensures match r { Ok(v) => sdigits(input@) && v == sval(input@), Err(_) => !sdigits(input@) || !int_ok(input@, i32::MIN as int, i32::MAX as int) },
//@end
//@fn file=src/io/parse.rs path=token_i64
//@params input
//@ret r
//@spec
    ensures match r { Ok(v) => sdigits(input@) && v == sval(input@), Err(_) => !sdigits(input@) || !int_ok(input@, i64::MIN as int, i64::MAX as int) },
//@end
//@fn file=src/io/parse.rs path=parse_bool
//@params input
//@ret r
//@subst Ok(token_bool(input)?) ==> vp_lift(token_bool(input))
//@spec
    ensures match r { Ok(v) => input@ == ascii(if v { "true"@ } else { "false"@ }), Err(_) => input@ != ascii("true"@) && input@ != ascii("false"@) },
//@end
//@fn file=src/io/parse.rs path=parse_u32
//@params input
//@ret r
//@subst Ok(token_u32(input)?) ==> vp_lift(token_u32(input))
//@spec
    ensures match r { Ok(v) => digits(input@) && input@.len() > 0 && v == dval(input@), Err(_) => !digits(input@) || input@.len() == 0 || dval(input@) > u32::MAX },
//@end
//@fn file=src/io/parse.rs path=parse_i64
//@params input
//@ret r
//@subst Ok(token_i64(input)?) ==> vp_lift(token_i64(input))
//@spec
    ensures match r { Ok(v) => sdigits(input@) && v == sval(input@), Err(_) => !sdigits(input@) || !int_ok(input@, i64::MIN as int, i64::MAX as int) },
//@end
//@fn file=src/io/parse.rs path=parse_i32
//@params input
//@ret r
//@subst Ok(token_i32(input)?) ==> vp_lift(token_i32(input))
//@spec
    ensures match r { Ok(v) => sdigits(input@) && v == sval(input@), Err(_) => !sdigits(input@) || !int_ok(input@, i32::MIN as int, i32::MAX as int) },
//@end
//@fn file=src/io/parse.rs path=parse_i16
//@params input
//@ret r
//@subst Ok(token_i16(input)?) ==> vp_lift(token_i16(input))
//@spec
    ensures match r { Ok(v) => sdigits(input@) && v == sval(input@), Err(_) => !sdigits(input@) || !int_ok(input@, i16::MIN as int, i16::MAX as int) },
//@end
/// nom's digit1: the longest non-empty run of digits in front
spec fn drun(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 || !digit(s[0]) { 0 } else { 1 + drun(s.drop_first()) } }
#[verifier::external_body]
fn digit1(s: &[u8]) -> (r: Result<(&[u8], &[u8]), TokErr>)
    ensures match r { Ok((rest, d)) => d@.len() == drun(s@) && d@.len() > 0 && d@ == s@.subrange(0, drun(s@)) && rest@ == s@.subrange(drun(s@), s@.len() as int) && digits(d@), Err(_) => drun(s@) == 0 }
{ unimplemented!() }
spec fn head(s: Seq<u8>) -> Seq<u8> { s.subrange(0, drun(s)) }
spec fn tail(s: Seq<u8>) -> Seq<u8> { s.subrange(drun(s), s.len() as int) }
//@fn file=src/io/parse.rs path=token_datepart
//@params input
//@ret r
//@spec
    ensures match r { Ok((rest, v)) => drun(input@) > 0 && v == dval(head(input@)) && rest@ == tail(input@), Err(_) => drun(input@) == 0 || dval(head(input@)) > i64::MAX },
//@at start
    proof { lemma_nosign(head(input@)); }
//@end
proof fn lemma_nosign(s: Seq<u8>) ensures digits(s) && s.len() > 0 ==> sdigits(s) && sval(s) == dval(s) && dval(s) >= 0, digits(s) ==> dval(s) >= 0
    decreases s.len()
{
    if digits(s) && s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_first().len() implies digit(#[trigger] s.drop_first()[i]) by { assert(s.drop_first()[i] == s[i + 1]); }
        assert forall|i: int| 0 <= i < s.drop_last().len() implies digit(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lemma_nosign(s.drop_last());
        assert(digit(s.last()));
    }
}
/// value of the first k of nine fraction digits, missing ones are zero
spec fn nval(d: Seq<u8>, k: int) -> int decreases k { if k <= 0 { 0 } else { nval(d, k - 1) * 10 + (if k - 1 < d.len() { d[k - 1] - 48 } else { 0 }) } }
spec fn pow10(k: int) -> int decreases k { if k <= 0 { 1 } else { 10 * pow10(k - 1) } }
proof fn lemma_nval(d: Seq<u8>, k: int) requires digits(d), 0 <= k <= 9 ensures 0 <= nval(d, k) < pow10(k) <= 1_000_000_000, pow10(k) >= 1, k < 9 ==> pow10(k) <= 100_000_000 decreases k
{ reveal_with_fuel(pow10, 11); if k > 0 { lemma_nval(d, k - 1); if k - 1 < d.len() { assert(digit(d[k - 1])); } } }
//@fn file=src/io/parse.rs path=token_nano
//@params input
//@ret r
//@spec
    ensures match r { Ok((rest, v)) => drun(input@) > 0 && v == nval(head(input@), 9) && 0 <= v < 1_000_000_000 && rest@ == tail(input@), Err(_) => drun(input@) == 0 },
//@loop 0 it=it
    invariant it.seq().len() == 9, forall|k: int| 0 <= k < 9 ==> #[trigger] it.seq()[k] == k, v == nval(result@, it.index@ as int), 0 <= v < pow10(it.index@ as int), digits(result@),
//@at loopstart 0
    proof { lemma_nval(result@, it.index@ as int); lemma_nval(result@, it.index@ as int + 1); assert(i == it.index@); if i < result@.len() { assert(digit(result@[i as int])); } }
//@at afterloop 0
    proof { lemma_nval(result@, 9); }
//@end
// ------------------------------------------------------------------ durations
/// trusted: chrono::Duration is a number of nanoseconds within its limits
#[verifier::external_body] #[derive(Clone, Copy)] struct Duration {}
spec fn dlim() -> int { 9_223_372_036_854_775_807int * 1_000_000 }
spec fn iabs(n: int) -> int { if n < 0 { -n } else { n } }
spec fn try_ns(n: int, r: Option<Duration>) -> bool { match r { Some(d) => d.ns() == n, None => iabs(n) > dlim() } }
impl Duration {
    uninterp spec fn ns(&self) -> int;
    #[verifier::external_body] fn zero() -> (r: Duration) ensures r.ns() == 0 { unimplemented!() }
    #[verifier::external_body] fn abs(&self) -> (r: Duration) ensures r.ns() == iabs(self.ns()) { unimplemented!() }
    #[verifier::external_body] fn num_hours(&self) -> (r: i64) ensures self.ns() >= 0 ==> r == self.ns() / 3_600_000_000_000 { unimplemented!() }
    #[verifier::external_body] fn num_minutes(&self) -> (r: i64) ensures self.ns() >= 0 ==> r == self.ns() / 60_000_000_000 { unimplemented!() }
    #[verifier::external_body] fn num_seconds(&self) -> (r: i64) ensures self.ns() >= 0 ==> r == self.ns() / 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] fn num_days(&self) -> (r: i64) ensures self.ns() >= 0 ==> r == self.ns() / 86_400_000_000_000 { unimplemented!() }
    #[verifier::external_body] fn subsec_nanos(&self) -> (r: i32) ensures self.ns() >= 0 ==> r == self.ns() % 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] fn try_days(n: i64) -> (r: Option<Duration>) ensures try_ns(n * 86_400_000_000_000, r) { unimplemented!() }
    #[verifier::external_body] fn try_hours(n: i64) -> (r: Option<Duration>) ensures try_ns(n * 3_600_000_000_000, r) { unimplemented!() }
    #[verifier::external_body] fn try_minutes(n: i64) -> (r: Option<Duration>) ensures try_ns(n * 60_000_000_000, r) { unimplemented!() }
    #[verifier::external_body] fn try_seconds(n: i64) -> (r: Option<Duration>) ensures try_ns(n * 1_000_000_000, r) { unimplemented!() }
    #[verifier::external_body] fn nanoseconds(n: i64) -> (r: Duration) ensures r.ns() == n { unimplemented!() }
}
#[verifier::external_body] fn vp_neg(d: Duration) -> (r: Duration) ensures r.ns() == -d.ns() { unimplemented!() }
#[verifier::external_body] fn vp_negative(d: &Duration) -> (r: bool) ensures r == (d.ns() < 0) { unimplemented!() }
/// b.and_then(|b| a.checked_add(&b)).ok_or_else(err)
#[verifier::external_body] fn vp_add(a: Duration, b: Option<Duration>) -> (r: Result<Duration, TokErr>)
    ensures match r { Ok(d) => b is Some && d.ns() == a.ns() + b->0.ns(), Err(_) => b is None || iabs(a.ns() + b->0.ns()) > dlim() } { unimplemented!() }
// decimal text of numbers
uninterp spec fn dec(n: int) -> Seq<char>;
uninterp spec fn dec9(n: int) -> Seq<char>;
#[verifier::external_body] fn vp_shown<T: Shown + ?Sized>(f: &mut String, t: &T) ensures final(f)@ == old(f)@ + t.shown() { unimplemented!() }
#[verifier::external_body] fn vp_dec9(f: &mut String, t: &i32) ensures final(f)@ == old(f)@ + dec9(*t as int) { unimplemented!() }
trait Shown { spec fn shown(&self) -> Seq<char>; }
impl Shown for i64 { spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
impl Shown for i32 { spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
impl Shown for str { spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: Shown + ?Sized> Shown for &T { spec fn shown(&self) -> Seq<char> { (**self).shown() } }
/// the parts of a duration, as written
spec fn p_h(n: int) -> int { iabs(n) / 3_600_000_000_000 }
spec fn p_m(n: int) -> int { iabs(n) / 60_000_000_000 % 60 }
spec fn p_s(n: int) -> int { iabs(n) / 1_000_000_000 % 60 }
spec fn p_n(n: int) -> int { iabs(n) % 1_000_000_000 }
spec fn dur_text(n: int) -> Seq<char> {
    (if n < 0 { "-"@ } else { ""@ }) + "PT"@ + dec(p_h(n)) + "H"@ + dec(p_m(n)) + "M"@ + dec(p_s(n)) + "."@ + dec9(p_n(n)) + "S"@
}
struct Tmp(Duration);
impl Tmp {
//@fn file=src/io/format.rs path=format_duration2//fmt
//@params f
//@ret r
//@subst self.0 < Duration::zero() ==> vp_negative(&self.0)
//@subst Duration::zero() > self.0 ==> vp_negative(&self.0)
//@spec
    ensures r.is_ok(), final(f)@ == old(f)@ + dur_text(self.0.ns()),
//@at start
    proof {
        assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c));
        assert(iabs(self.0.ns()) >= 0);
    }
//@end
}
spec fn opt0(o: Option<i64>) -> int { match o { Some(v) => v as int, None => 0 } }
/// what the parts of a parsed duration are worth
type DurTime = ((), Option<i64>, Option<i64>, Option<(i64, Option<i64>)>);
type DurParts = (Option<()>, (), Option<i64>, Option<DurTime>);
spec fn dur_value(p: DurParts) -> int {
    let t = match p.3 { Some(t) => opt0(t.1) * 3_600_000_000_000 + opt0(t.2) * 60_000_000_000 + (match t.3 { Some((s, n)) => s * 1_000_000_000 + opt0(n), None => 0 }), None => 0 };
    let a = opt0(p.2) * 86_400_000_000_000 + t;
    if p.0 is Some { -a } else { a }
}
/// the parts are read as unsigned numbers, nanoseconds are below a second
spec fn dur_parts_ok(p: DurParts) -> bool {
    (p.2 matches Some(d) ==> d >= 0) && (p.3 matches Some(t) ==> (t.1 matches Some(h) ==> h >= 0) && (t.2 matches Some(m) ==> m >= 0) && (t.3 matches Some(s) ==> s.0 >= 0 && (s.1 matches Some(n) ==> 0 <= n < 1_000_000_000)))
}
/// the nom grammar of a duration (bounded check)
uninterp spec fn dur_parse(s: Seq<u8>) -> Option<DurParts>;
#[verifier::external_body] fn vp_dur_grammar(s: &[u8]) -> (r: Result<(&[u8], DurParts), TokErr>)
    ensures match r { Ok((rest, p)) => dur_parse(s@) == Some(p) && dur_parts_ok(p), Err(_) => dur_parse(s@) is None } { unimplemented!() }
//@fn file=src/io/parse.rs path=token_duration
//@params input
//@ret r
//@subst all_consuming(tuple($g))(input)? ==> vp_dur_grammar(input)?
//@subst let err = || $e; ==>
//@subst let add = |a: Duration, b: Option<Duration>| $e; ==>
//@subst add($a, $b)? ==> vp_add($a, $b)?
//@subst -result ==> vp_neg(result)
//@spec
    ensures match r {
        Ok(d) => dur_parse(input@) is Some && d.ns() == dur_value(dur_parse(input@)->0),
        Err(_) => dur_parse(input@) is None || iabs(dur_value(dur_parse(input@)->0)) > dlim(),
    },
//@end
/// THEOREM: the parts written for a duration are worth the duration.
proof fn thm_duration(n: int)
    requires p_h(n) <= i64::MAX
    ensures ({ let p: DurParts = (if n < 0 { Some(()) } else { None }, (), None, Some(((), Some(p_h(n) as i64), Some(p_m(n) as i64), Some((p_s(n) as i64, Some(p_n(n) as i64)))))); dur_parts_ok(p) && dur_value(p) == n })
{
    let a = iabs(n);
    assert(a / 60_000_000_000 == a / 1_000_000_000 / 60 && a / 3_600_000_000_000 == a / 1_000_000_000 / 60 / 60) by (nonlinear_arith) requires a >= 0;
    assert(p_h(n) >= 0 && 0 <= p_m(n) < 60 && 0 <= p_s(n) < 60 && 0 <= p_n(n) < 1_000_000_000);
    assert(a == (a / 1_000_000_000) * 1_000_000_000 + a % 1_000_000_000);
}
// ------------------------------------------------------------------ dates
/// chrono's Parsed: the fields a date-time is assembled from
struct Parsed { year: Option<i32>, month: Option<u32>, day: Option<u32>, hour_div_12: Option<u32>, hour_mod_12: Option<u32>, minute: Option<u32>, second: Option<u32>, nanosecond: Option<u32> }
#[verifier::external_body] #[derive(Clone, Copy)] struct NaiveDateTime {}
struct Ymd { y: int, m: int, d: int, h: int, mi: int, s: int, n: int }
uninterp spec fn dt_of(x: Ymd) -> Option<NaiveDateTime>;
spec fn o32(o: Option<u32>) -> int { match o { Some(v) => v as int, None => 0 } }
impl Parsed {
    #[verifier::external_body] fn new() -> (r: Parsed) ensures r.year is None, r.month is None, r.day is None, r.hour_div_12 is None, r.hour_mod_12 is None, r.minute is None, r.second is None, r.nanosecond is None { unimplemented!() }
    #[verifier::external_body] fn to_naive_datetime_with_offset(&self, o: i32) -> (r: Result<NaiveDateTime, TokErr>)
        ensures self.year is Some && self.month is Some && self.day is Some && self.hour_div_12 is Some && self.hour_mod_12 is Some && self.minute is Some && o == 0 ==> ({
            let x = dt_of(Ymd { y: self.year->0 as int, m: self.month->0 as int, d: self.day->0 as int, h: self.hour_div_12->0 * 12 + self.hour_mod_12->0, mi: self.minute->0 as int, s: o32(self.second), n: o32(self.nanosecond) });
            match r { Ok(v) => x == Some(v), Err(_) => x is None } }) { unimplemented!() }
}
#[verifier::external_body] fn vp_epoch() -> NaiveDateTime { unimplemented!() }
type DtTime = ((), i64, (), i64, (), i64, Option<((), i64)>);
type DtParts = (Option<()>, i64, (), i64, (), i64, Option<DtTime>, Option<()>);
uninterp spec fn dt_parse(s: Seq<u8>) -> Option<DtParts>;
spec fn small(n: i64) -> bool { 0 <= n <= 2_000_000_000 }
spec fn dt_parts_ok(p: DtParts) -> bool { p.1 >= 0 && p.3 >= 0 && p.5 >= 0 && (p.6 matches Some(t) ==> t.1 >= 0 && t.3 >= 0 && t.5 >= 0 && (t.6 matches Some(n) ==> 0 <= n.1 < 1_000_000_000)) }
spec fn dt_small(p: DtParts) -> bool { small(p.1) && small(p.3) && small(p.5) && (p.6 matches Some(t) ==> small(t.1) && small(t.3) && small(t.5)) }
#[verifier::external_body] fn vp_dt_grammar(s: &[u8]) -> (r: Result<(&[u8], DtParts), TokErr>)
    ensures match r { Ok((rest, p)) => dt_parse(s@) == Some(p) && dt_parts_ok(p), Err(_) => dt_parse(s@) is None } { unimplemented!() }
spec fn dt_value(p: DtParts) -> Ymd {
    let y = if p.0 is Some { -p.1 } else { p.1 as int };
    match p.6 {
        Some(t) => Ymd { y, m: p.3 as int, d: p.5 as int, h: t.1 as int, mi: t.3 as int, s: t.5 as int, n: (match t.6 { Some(n) => n.1 as int, None => 0 }) },
        None => Ymd { y, m: p.3 as int, d: p.5 as int, h: 0, mi: 0, s: 0, n: 0 },
    }
}
//@fn file=src/io/parse.rs path=token_datetime
//@params input
//@ret r
//@subst terminated(tuple($g), eof,)(input)? ==> vp_dt_grammar(input)?
//@subst terminated(tuple($g), eof)(input)? ==> vp_dt_grammar(input)?
//@subst chrono::format::Parsed::new() ==> Parsed::new()
//@subst NaiveDateTime::default() ==> vp_epoch()
//@spec
    ensures match r {
        Ok(d) => dt_parse(input@) is Some && (dt_small(dt_parse(input@)->0) && dt_of(dt_value(dt_parse(input@)->0)) is Some ==> dt_of(dt_value(dt_parse(input@)->0)) == Some(d)),
        Err(_) => dt_parse(input@) is None,
    },
//@end
// ------------------------------------------------------------------ lengths
//@struct file=src/style/units.rs name=Length
//@end
uninterp spec fn f64_text(v: f64) -> Seq<char>;
/// what str::parse::<f64> reads
uninterp spec fn f64_parse(s: Seq<char>) -> Option<f64>;
impl Shown for f64 { spec fn shown(&self) -> Seq<char> { f64_text(*self) } }
spec fn len_text(l: Length) -> Seq<char> { match l { Length::Cm(v) => f64_text(v) + "cm"@, Length::Mm(v) => f64_text(v) + "mm"@, Length::In(v) => f64_text(v) + "in"@, Length::Pt(v) => f64_text(v) + "pt"@, Length::Pc(v) => f64_text(v) + "pc"@, Length::Em(v) => f64_text(v) + "em"@, Length::Default => ""@ } }
spec fn ends(s: Seq<char>, e: Seq<char>) -> bool { s.len() >= e.len() && s.subrange(s.len() - e.len(), s.len() as int) =~= e }
#[verifier::external_body] fn vp_ends(s: &str, e: &str) -> (r: bool) ensures r == ends(s@, e@) { unimplemented!() }
/// s.split_at(s.len() - 2).0.parse::<f64>(), for a text that ends in two ASCII letters
#[verifier::external_body] fn vp_cut2(s: &str) -> (r: Result<f64, OdsError>)
    ensures s@.len() >= 2 ==> (match r { Ok(v) => f64_parse(s@.subrange(0, s@.len() - 2)) == Some(v), Err(_) => f64_parse(s@.subrange(0, s@.len() - 2)) is None }) { unimplemented!() }
spec fn len_parse(s: Seq<char>) -> Option<Length> {
    let v = f64_parse(s.subrange(0, s.len() - 2));
    if v is None { None } else if ends(s, "cm"@) { Some(Length::Cm(v->0)) } else if ends(s, "mm"@) { Some(Length::Mm(v->0)) } else if ends(s, "in"@) { Some(Length::In(v->0)) }
    else if ends(s, "pt"@) { Some(Length::Pt(v->0)) } else if ends(s, "pc"@) { Some(Length::Pc(v->0)) } else if ends(s, "em"@) { Some(Length::Em(v->0)) } else { None }
}
impl Length {
//@fn file=src/style/units.rs path=Length::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + len_text(*self),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); reveal_strlit(""); }
//@end
//@fn file=src/style/units.rs path=Length::parse_attr trait=ParseStyleAttr<Length>
//@params attr
//@ret r
//@subst s.ends_with($e) ==> vp_ends(s, $e)
//@subst s.split_at(s.len() - 2).0.parse()? ==> vp_cut2(s)?
//@spec
    ensures attr is None ==> r == Ok::<Option<Length>, OdsError>(None), attr matches Some(t) ==> (match r { Ok(v) => v is Some && len_parse(t@) == v, Err(_) => len_parse(t@) is None }),
//@at start
    proof { suffixes(); if attr is Some { distinct(attr->0@); } }
//@end
}
proof fn suffixes() ensures "cm"@ =~= seq!['c', 'm'], "mm"@ =~= seq!['m', 'm'], "in"@ =~= seq!['i', 'n'], "pt"@ =~= seq!['p', 't'], "pc"@ =~= seq!['p', 'c'], "em"@ =~= seq!['e', 'm']
{ reveal_strlit("cm"); reveal_strlit("mm"); reveal_strlit("in"); reveal_strlit("pt"); reveal_strlit("pc"); reveal_strlit("em"); }
/// a text ends in at most one of the units: the order of the tests does not matter
proof fn distinct(s: Seq<char>) ensures
    ends(s, "cm"@) ==> s.len() >= 2 && s[s.len() - 2] == 'c' && s[s.len() - 1] == 'm', ends(s, "mm"@) ==> s.len() >= 2 && s[s.len() - 2] == 'm' && s[s.len() - 1] == 'm',
    ends(s, "in"@) ==> s.len() >= 2 && s[s.len() - 2] == 'i', ends(s, "pt"@) ==> s.len() >= 2 && s[s.len() - 2] == 'p' && s[s.len() - 1] == 't',
    ends(s, "pc"@) ==> s.len() >= 2 && s[s.len() - 2] == 'p' && s[s.len() - 1] == 'c', ends(s, "em"@) ==> s.len() >= 2 && s[s.len() - 2] == 'e',
{
    suffixes();
    if s.len() >= 2 { let t = s.subrange(s.len() - 2, s.len() as int); assert(t[0] == s[s.len() - 2] && t[1] == s[s.len() - 1]); }
}
spec fn len_num(l: Length) -> f64 { match l { Length::Cm(v) => v, Length::Mm(v) => v, Length::In(v) => v, Length::Pt(v) => v, Length::Pc(v) => v, Length::Em(v) => v, Length::Default => 0.0f64 } }
/// THEOREM: the text of a length is read back as the length, for every number whose text is read back.
proof fn thm_length(l: Length)
    requires l != Length::Default, f64_parse(f64_text(len_num(l))) == Some(len_num(l))
    ensures len_parse(len_text(l)) == Some(l)
{
    suffixes();
    let s = len_text(l); distinct(s);
    let v = len_num(l);
    let u = match l { Length::Cm(_) => "cm"@, Length::Mm(_) => "mm"@, Length::In(_) => "in"@, Length::Pt(_) => "pt"@, Length::Pc(_) => "pc"@, Length::Em(_) => "em"@, Length::Default => ""@ };
    assert(s =~= f64_text(v) + u);
    assert(s.subrange(0, s.len() - 2) =~= f64_text(v));
    assert(s.subrange(s.len() - 2, s.len() as int) =~= u);
    assert(ends(s, u));
    assert(f64_parse(f64_text(v)) == Some(v));
    let t = s.subrange(s.len() - 2, s.len() as int);
    assert(t[0] == s[s.len() - 2] && t[1] == s[s.len() - 1]);
}
} // verus!
fn main() {}
