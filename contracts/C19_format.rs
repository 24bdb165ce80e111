//@include pre.rs
// C19: value formats are built as asked; the ready-made formats are what they are called.
verus! {
global size_of usize == 8;
//@include attrmap.inc.rs
#[verifier::external_body] struct ValueStyleMap {}
struct StyleOrigin { x: u8 }
struct StyleUse { x: u8 }
uninterp spec fn def_origin() -> StyleOrigin;
uninterp spec fn def_use() -> StyleUse;
#[verifier::external_body] fn vp_origin() -> (r: StyleOrigin) ensures r == def_origin() { unimplemented!() }
#[verifier::external_body] fn vp_use() -> (r: StyleUse) ensures r == def_use() { unimplemented!() }
//@gfmt
//@gsubst &mut Formatter<'_> ==> &mut String
//@gsubst Result<(), std::fmt::Error> ==> Result<(), FmtErr>
//@gsubst std::fmt::Result ==> Result<(), FmtErr>
//@gsubst name: String::from("") ==> name: String::new()
//@gsubst origin: Default::default() ==> origin: vp_origin()
//@gsubst styleuse: Default::default() ==> styleuse: vp_use()
//@gsubst attr: Default::default() ==> attr: AttrMap2::new()
//@gsubst textstyle: Default::default() ==> textstyle: AttrMap2::new()
//@gsubst parts: Default::default() ==> parts: Vec::new()
//@gsubst $ida.as_ref().to_string() ==> vp_string($ida.as_ref())
//@gsubst $ida.id.language.to_string() ==> vp_show(&$ida.id.language)
//@gsubst "long".to_string() ==> vp_string("long")
//@gsubst "short".to_string() ==> vp_string("short")
//@gsubst $idv.to_string() ==> vp_show(&$idv)
//@gsubst String::from("true") ==> vp_string("true")
//@gsubst AsRef<str> ==> VpAsRef
//@gsubst Into<String> ==> VpInto
//@gsubst locale != Locale::UNKNOWN ==> locale.known()
//@gsubst Self::LOCALE ==> Self::vp_locale_const()
/// a name or text given by the caller, as str / as String
trait VpAsRef { spec fn text(&self) -> Seq<char>; fn as_ref(&self) -> (r: &str) ensures r@ == self.text(); }
impl VpAsRef for String { spec fn text(&self) -> Seq<char> { self@ } fn as_ref(&self) -> (r: &str) { self.as_str() } }
trait VpInto: Sized { spec fn itext(&self) -> Seq<char>; fn into(self) -> (r: String) ensures r@ == self.itext(); }
impl VpInto for String { spec fn itext(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VpInto for &str { spec fn itext(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { vp_string(self) } }
//@include locale.inc.rs

//@names nk key_names "number:calendar" "number:country" "number:decimal-places" "number:decimal-replacement" "number:denominator-value" "number:display-factor" "number:exponent-interval" "number:forced-exponent-sign" "number:grouping" "number:language" "number:max-denominator-value" "number:min-decimal-places" "number:min-denominator-digits" "number:min-exponent-digits" "number:min-integer-digits" "number:min-numerator-digits" "number:possessive-form" "number:script" "number:style" "number:textual" "number:truncate-on-overflow"
//@struct file=src/format/mod.rs name=FormatNumberStyle
//@end
impl Shown for FormatNumberStyle { spec fn shown(&self) -> Seq<char> { match self { FormatNumberStyle::Short => "short"@, FormatNumberStyle::Long => "long"@ } } }
impl FormatNumberStyle {
//@fn file=src/format/mod.rs path=FormatNumberStyle::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@end
}
//@struct file=src/format/mod.rs name=FormatCalendarStyle
//@end
impl Shown for FormatCalendarStyle { spec fn shown(&self) -> Seq<char> { match self { FormatCalendarStyle::Gregorian => "gregorian"@, FormatCalendarStyle::Gengou => "gengou"@, FormatCalendarStyle::Roc => "ROC"@, FormatCalendarStyle::Hanja => "hanja"@, FormatCalendarStyle::Hijri => "hijri"@, FormatCalendarStyle::Jewish => "jewish"@, FormatCalendarStyle::Buddhist => "buddhist"@ } } }
impl FormatCalendarStyle {
//@fn file=src/format/mod.rs path=FormatCalendarStyle::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@end
}
//@struct file=src/format/mod.rs name=FormatPartType attr=derive(Clone,Copy)
//@end
//@struct file=src/format/mod.rs name=FormatPart
//@end
/// what a part of a format shows
struct PartV { t: FormatPartType, attr: IMap<Seq<char>, Seq<char>>, pos: Option<i32>, content: Option<Seq<char>> }
spec fn otext(s: Option<String>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
impl FormatPart {
    spec fn view(&self) -> PartV { PartV { t: self.part_type, attr: self.attr@, pos: self.position, content: otext(self.content) } }
    spec fn wf(&self) -> bool { self.attr.wf() }
    spec fn fresh(&self, t: FormatPartType) -> bool { self.wf() && is_part(*self, t, no_attr(), None) }

//@fn file=src/format/mod.rs path=FormatPart::new
//@params ftype
//@ret r
//@spec
    ensures r.fresh(ftype),
//@end
//@fn file=src/format/mod.rs path=FormatPart::set_part_type
//@params p_type
//@spec
    requires old(self).wf(), ensures final(self).wf(), final(self)@ == (PartV { t: p_type, ..old(self)@ }),
//@end
//@fn file=src/format/mod.rs path=FormatPart::part_type
//@ret r
//@spec
    ensures r == self@.t,
//@end
//@fn file=src/format/mod.rs path=FormatPart::set_attr
//@params name value
//@spec
    requires old(self).wf(), ensures final(self).wf(), final(self)@ == (PartV { attr: old(self)@.attr.insert(name@, value@), ..old(self)@ }),
//@end
//@fn file=src/format/mod.rs path=FormatPart::attr_def
//@params name default
//@ret r
//@subst <'a, 'b, S> ==> <'a, 'b>
//@subst where S: Into<&'a str>, ==>
//@subst default: S ==> default: &'a str
//@spec
    requires self.wf(), ensures r@ == (if self@.attr.contains_key(name@) { self@.attr[name@] } else { default@ }),
//@end
//@fn file=src/format/mod.rs path=FormatPart::set_position
//@params pos
//@spec
    requires old(self).wf(), ensures final(self).wf(), final(self)@ == (PartV { pos: Some(pos), ..old(self)@ }),
//@end
//@fn file=src/format/mod.rs path=FormatPart::clear_position
//@spec
    requires old(self).wf(), ensures final(self).wf(), final(self)@ == (PartV { pos: None, ..old(self)@ }),
//@end
//@fn file=src/format/mod.rs path=FormatPart::position
//@ret r
//@spec
    ensures r == self@.pos,
//@end
//@fn file=src/format/mod.rs path=FormatPart::set_content
//@params content
//@spec
    requires old(self).wf(), ensures final(self).wf(), final(self)@ == (PartV { content: Some(content.itext()), ..old(self)@ }),
//@end
//@fn file=src/format/mod.rs path=FormatPart::append_content
//@params content
//@spec
    requires old(self).wf(), ensures final(self).wf(), final(self)@ == (PartV { content: Some(match old(self)@.content { Some(c) => c + content.text(), None => content.text() }), ..old(self)@ }),
//@end
//@fn file=src/format/mod.rs path=FormatPart::clear_content
//@spec
    requires old(self).wf(), ensures final(self).wf(), final(self)@ == (PartV { content: None, ..old(self)@ }),
//@end
//@fn file=src/format/mod.rs path=FormatPart::content
//@ret r
//@spec
    ensures match r { Some(s) => self@.content == Some(s@), None => self@.content is None },
//@end
}
spec fn no_attr() -> IMap<Seq<char>, Seq<char>> { IMap::empty() }
spec fn is_part(p: FormatPart, t: FormatPartType, a: IMap<Seq<char>, Seq<char>>, c: Option<Seq<char>>) -> bool {
    p.wf() && p@.t == t && p@.attr =~= a && p@.pos is None && p@.content == c
}
trait ValueFormatTrait: Sized {
    spec fn sparts(&self) -> Seq<FormatPart>;
    /// everything but the parts is the same
    spec fn same(&self, o: &Self) -> bool;
    fn push_part(&mut self, part: FormatPart) ensures final(self).sparts() == old(self).sparts().push(part), final(self).same(old(self));
}
//@struct file=src/format/builder.rs name=PartNumberBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartNumberBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartNumberBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Number), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartNumberBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
//@fn file=src/format/builder.rs path=PartNumberBuilder::if_then
//@params test build
//@ret r
//@spec
    requires test ==> call_requires(build, (self,)),
    ensures if test { call_ensures(build, (self,), r) } else { r == self },
//@end
//@fn file=src/format/builder.rs path=PartNumberBuilder::decimal_places
//@params n
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:decimal-places"@, n.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartNumberBuilder::fixed_decimal_places
//@params n
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:decimal-places"@, n.shown()).insert("number:min-decimal-places"@, n.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartNumberBuilder::grouping
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:grouping"@, "true"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartNumberBuilder::min_decimal_places
//@params n
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:min-decimal-places"@, n.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartNumberBuilder::min_integer_digits
//@params n
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:min-integer-digits"@, n.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartNumberBuilder::display_factor
//@params f
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:display-factor"@, f.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartNumberBuilder::decimal_replacement
//@params c
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:decimal-replacement"@, c.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartNumberBuilder::embedded_text
//@params text pos
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@ == (PartV { pos: Some(pos), content: Some(text.itext()), ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
}
//@struct file=src/format/builder.rs name=PartFillCharacterBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartFillCharacterBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartFillCharacterBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::FillCharacter), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartFillCharacterBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
//@fn file=src/format/builder.rs path=PartFillCharacterBuilder::if_then
//@params test build
//@ret r
//@spec
    requires test ==> call_requires(build, (self,)),
    ensures if test { call_ensures(build, (self,), r) } else { r == self },
//@end
//@fn file=src/format/builder.rs path=PartFillCharacterBuilder::fill_char
//@params c
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@ == (PartV { content: Some(c.shown()), ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
}
//@struct file=src/format/builder.rs name=PartScientificBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartScientificBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartScientificBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::ScientificNumber), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartScientificBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
//@fn file=src/format/builder.rs path=PartScientificBuilder::if_then
//@params test build
//@ret r
//@spec
    requires test ==> call_requires(build, (self,)),
    ensures if test { call_ensures(build, (self,), r) } else { r == self },
//@end
//@fn file=src/format/builder.rs path=PartScientificBuilder::decimal_places
//@params n
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:decimal-places"@, n.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartScientificBuilder::expontent_interval
//@params n
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:exponent-interval"@, n.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartScientificBuilder::forced_exponent_sign
//@params b
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:forced-exponent-sign"@, b.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartScientificBuilder::grouping
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:grouping"@, "true"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartScientificBuilder::min_decimal_places
//@params n
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:min-decimal-places"@, n.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartScientificBuilder::min_exponent_digits
//@params n
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:min-exponent-digits"@, n.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartScientificBuilder::min_integer_digits
//@params n
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:min-integer-digits"@, n.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
}
//@struct file=src/format/builder.rs name=PartFractionBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartFractionBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartFractionBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Fraction), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartFractionBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
//@fn file=src/format/builder.rs path=PartFractionBuilder::if_then
//@params test build
//@ret r
//@spec
    requires test ==> call_requires(build, (self,)),
    ensures if test { call_ensures(build, (self,), r) } else { r == self },
//@end
//@fn file=src/format/builder.rs path=PartFractionBuilder::denominator
//@params n
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:denominator-value"@, n.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartFractionBuilder::grouping
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:grouping"@, "true"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartFractionBuilder::max_denominator
//@params n
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:max-denominator-value"@, n.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartFractionBuilder::min_denominator_digits
//@params n
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:min-denominator-digits"@, n.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartFractionBuilder::min_integer_digits
//@params n
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:min-integer-digits"@, n.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartFractionBuilder::min_numerator_digits
//@params n
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:min-numerator-digits"@, n.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
}
//@struct file=src/format/builder.rs name=PartCurrencySymbolBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartCurrencySymbolBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartCurrencySymbolBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::CurrencySymbol), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartCurrencySymbolBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
//@fn file=src/format/builder.rs path=PartCurrencySymbolBuilder::if_then
//@params test build
//@ret r
//@spec
    requires test ==> call_requires(build, (self,)),
    ensures if test { call_ensures(build, (self,), r) } else { r == self },
//@end
//@fn file=src/format/builder.rs path=PartCurrencySymbolBuilder::locale
//@params v
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@ == (PartV { attr: cur_locale(self.part@.attr, v), ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartCurrencySymbolBuilder::symbol
//@params v
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@ == (PartV { content: Some(v.itext()), ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
}
//@struct file=src/format/builder.rs name=PartDayBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartDayBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartDayBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Day), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartDayBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
//@fn file=src/format/builder.rs path=PartDayBuilder::if_then
//@params test build
//@ret r
//@spec
    requires test ==> call_requires(build, (self,)),
    ensures if test { call_ensures(build, (self,), r) } else { r == self },
//@end
//@fn file=src/format/builder.rs path=PartDayBuilder::long_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "long"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartDayBuilder::short_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "short"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartDayBuilder::style
//@params style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, style.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartDayBuilder::calendar
//@params calendar
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:calendar"@, calendar.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
}
//@struct file=src/format/builder.rs name=PartMonthBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartMonthBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartMonthBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Month), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartMonthBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
//@fn file=src/format/builder.rs path=PartMonthBuilder::if_then
//@params test build
//@ret r
//@spec
    requires test ==> call_requires(build, (self,)),
    ensures if test { call_ensures(build, (self,), r) } else { r == self },
//@end
//@fn file=src/format/builder.rs path=PartMonthBuilder::long_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "long"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartMonthBuilder::short_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "short"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartMonthBuilder::style
//@params style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, style.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartMonthBuilder::textual
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:textual"@, true.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartMonthBuilder::possessive_form
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:possessive-form"@, true.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartMonthBuilder::calendar
//@params calendar
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:calendar"@, calendar.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
}
//@struct file=src/format/builder.rs name=PartYearBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartYearBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartYearBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Year), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartYearBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
//@fn file=src/format/builder.rs path=PartYearBuilder::if_then
//@params test build
//@ret r
//@spec
    requires test ==> call_requires(build, (self,)),
    ensures if test { call_ensures(build, (self,), r) } else { r == self },
//@end
//@fn file=src/format/builder.rs path=PartYearBuilder::long_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "long"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartYearBuilder::short_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "short"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartYearBuilder::style
//@params style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, style.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartYearBuilder::calendar
//@params calendar
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:calendar"@, calendar.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
}
//@struct file=src/format/builder.rs name=PartEraBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartEraBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartEraBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Era), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartEraBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
//@fn file=src/format/builder.rs path=PartEraBuilder::if_then
//@params test build
//@ret r
//@spec
    requires test ==> call_requires(build, (self,)),
    ensures if test { call_ensures(build, (self,), r) } else { r == self },
//@end
//@fn file=src/format/builder.rs path=PartEraBuilder::long_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "long"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartEraBuilder::short_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "short"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartEraBuilder::style
//@params style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, style.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartEraBuilder::calendar
//@params calendar
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:calendar"@, calendar.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
}
//@struct file=src/format/builder.rs name=PartDayOfWeekBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartDayOfWeekBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartDayOfWeekBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::DayOfWeek), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartDayOfWeekBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
//@fn file=src/format/builder.rs path=PartDayOfWeekBuilder::if_then
//@params test build
//@ret r
//@spec
    requires test ==> call_requires(build, (self,)),
    ensures if test { call_ensures(build, (self,), r) } else { r == self },
//@end
//@fn file=src/format/builder.rs path=PartDayOfWeekBuilder::long_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "long"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartDayOfWeekBuilder::short_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "short"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartDayOfWeekBuilder::style
//@params style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, style.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartDayOfWeekBuilder::calendar
//@params calendar
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:calendar"@, calendar.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
}
//@struct file=src/format/builder.rs name=PartWeekOfYearBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartWeekOfYearBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartWeekOfYearBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::WeekOfYear), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartWeekOfYearBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
//@fn file=src/format/builder.rs path=PartWeekOfYearBuilder::if_then
//@params test build
//@ret r
//@spec
    requires test ==> call_requires(build, (self,)),
    ensures if test { call_ensures(build, (self,), r) } else { r == self },
//@end
//@fn file=src/format/builder.rs path=PartWeekOfYearBuilder::calendar
//@params calendar
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:calendar"@, calendar.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
}
//@struct file=src/format/builder.rs name=PartQuarterBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartQuarterBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartQuarterBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Quarter), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartQuarterBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
//@fn file=src/format/builder.rs path=PartQuarterBuilder::if_then
//@params test build
//@ret r
//@spec
    requires test ==> call_requires(build, (self,)),
    ensures if test { call_ensures(build, (self,), r) } else { r == self },
//@end
//@fn file=src/format/builder.rs path=PartQuarterBuilder::long_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "long"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartQuarterBuilder::short_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "short"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartQuarterBuilder::style
//@params style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, style.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartQuarterBuilder::calendar
//@params calendar
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:calendar"@, calendar.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
}
//@struct file=src/format/builder.rs name=PartHoursBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartHoursBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartHoursBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Hours), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartHoursBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
//@fn file=src/format/builder.rs path=PartHoursBuilder::if_then
//@params test build
//@ret r
//@spec
    requires test ==> call_requires(build, (self,)),
    ensures if test { call_ensures(build, (self,), r) } else { r == self },
//@end
//@fn file=src/format/builder.rs path=PartHoursBuilder::long_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "long"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartHoursBuilder::short_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "short"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartHoursBuilder::style
//@params style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, style.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
}
//@struct file=src/format/builder.rs name=PartMinutesBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartMinutesBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartMinutesBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Minutes), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartMinutesBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
//@fn file=src/format/builder.rs path=PartMinutesBuilder::if_then
//@params test build
//@ret r
//@spec
    requires test ==> call_requires(build, (self,)),
    ensures if test { call_ensures(build, (self,), r) } else { r == self },
//@end
//@fn file=src/format/builder.rs path=PartMinutesBuilder::long_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "long"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartMinutesBuilder::short_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "short"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartMinutesBuilder::style
//@params style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, style.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
}
//@struct file=src/format/builder.rs name=PartSecondsBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartSecondsBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartSecondsBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Seconds), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartSecondsBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
//@fn file=src/format/builder.rs path=PartSecondsBuilder::if_then
//@params test build
//@ret r
//@spec
    requires test ==> call_requires(build, (self,)),
    ensures if test { call_ensures(build, (self,), r) } else { r == self },
//@end
//@fn file=src/format/builder.rs path=PartSecondsBuilder::decimal_places
//@params n
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:decimal-places"@, n.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartSecondsBuilder::long_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "long"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartSecondsBuilder::short_style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, "short"@), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
//@fn file=src/format/builder.rs path=PartSecondsBuilder::style
//@params style
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@.attr =~= self.part@.attr.insert("number:style"@, style.shown()), r.part@ == (PartV { attr: r.part@.attr, ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
}
//@struct file=src/format/builder.rs name=PartAmPmBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartAmPmBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartAmPmBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::AmPm), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartAmPmBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
}
//@struct file=src/format/builder.rs name=PartBooleanBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartBooleanBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartBooleanBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Boolean), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartBooleanBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
}
//@struct file=src/format/builder.rs name=PartTextBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartTextBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartTextBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Text), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartTextBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
//@fn file=src/format/builder.rs path=PartTextBuilder::if_then
//@params test build
//@ret r
//@spec
    requires test ==> call_requires(build, (self,)),
    ensures if test { call_ensures(build, (self,), r) } else { r == self },
//@end
//@fn file=src/format/builder.rs path=PartTextBuilder::text
//@params v
//@ret r
//@spec
    requires self.part.wf(), ensures r.part@ == (PartV { content: Some(v.itext()), ..self.part@ }), r.part.wf(), r.valueformat == self.valueformat,
//@end
}
//@struct file=src/format/builder.rs name=PartTextContentBuilder
//@end
impl<'vf, T: ValueFormatTrait> PartTextContentBuilder<'vf, T> {
//@fn file=src/format/builder.rs path=PartTextContentBuilder::new
//@params valueformat
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::TextContent), *r.valueformat == *old(valueformat), *final(valueformat) == *final(r.valueformat),
//@end
//@fn file=src/format/builder.rs path=PartTextContentBuilder::build
//@spec
    ensures final(self.valueformat).sparts() == old(self.valueformat).sparts().push(self.part), final(self.valueformat).same(old(self.valueformat)),
//@end
}
spec fn opt_ins<T: Shown>(m: IMap<Seq<char>, Seq<char>>, k: Seq<char>, v: Option<T>) -> IMap<Seq<char>, Seq<char>> { match v { Some(x) => m.insert(k, x.shown()), None => m } }
spec fn cur_locale(m: IMap<Seq<char>, Seq<char>>, l: Locale) -> IMap<Seq<char>, Seq<char>> { opt_ins(opt_ins(m.insert("number:language"@, l.id.language.shown()), "number:country"@, l.id.region), "number:script"@, l.id.script) }

//@struct file=src/macro_format.rs name=ValueFormatBoolean macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@end
impl ValueFormatBoolean {
//@fn file=src/macro_format.rs path=ValueFormatBoolean::new_empty macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.attr@ =~= no_attr(), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::new_named macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@params name
//@ret r
//@spec
    ensures r.name@ == name.text(), r.attr@ =~= no_attr(), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::new_localized macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@params name locale
//@ret r
//@spec
    ensures r.name@ == name.text(), r.attr@ =~= loc_attr(locale), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_attr_number.rs path=set_locale macro=valueformat(ValueFormatBoolean,ValueType::Boolean)>number_locale(attr) macro_in=src/format/mod.rs
//@params locale
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == sp_locale(old(self).attr@, locale, "number:language"@, "number:country"@, "number:script"@), *final(self) == (ValueFormatBoolean { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_format.rs path=part_boolean macro=part_boolean() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Boolean), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=push_boolean macro=push_boolean() macro_in=src/format/mod.rs
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Boolean, no_attr(), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
}
impl ValueFormatTrait for ValueFormatBoolean {
    spec fn sparts(&self) -> Seq<FormatPart> { self.parts@ }
    spec fn same(&self, o: &Self) -> bool { *self == (ValueFormatBoolean { parts: self.parts, ..*o }) }
//@fn file=src/macro_format.rs path=ValueFormatBoolean::push_part trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@params part
//@spec

//@end
}
impl ValueFormatBoolean {
//@fn file=src/macro_format.rs path=ValueFormatBoolean::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@params name
//@spec
    ensures final(self).name@ == name.itext(), *final(self) == (ValueFormatBoolean { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::name trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::set_origin trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@params origin
//@spec
    ensures *final(self) == (ValueFormatBoolean { origin: origin, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::set_styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@params styleuse
//@spec
    ensures *final(self) == (ValueFormatBoolean { styleuse: styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::attrmap trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::textstyle trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.textstyle,
//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::parts trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.parts,
//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::push_parts trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@params partvec
//@spec
    ensures final(self).parts@ =~= old(self).parts@ + old(partvec)@, final(partvec)@.len() == 0, final(self).same(old(self)),
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatNumber macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@end
impl ValueFormatNumber {
//@fn file=src/macro_format.rs path=ValueFormatNumber::new_empty macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.attr@ =~= no_attr(), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::new_named macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@params name
//@ret r
//@spec
    ensures r.name@ == name.text(), r.attr@ =~= no_attr(), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::new_localized macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@params name locale
//@ret r
//@spec
    ensures r.name@ == name.text(), r.attr@ =~= loc_attr(locale), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_attr_number.rs path=set_locale macro=valueformat(ValueFormatNumber,ValueType::Number)>number_locale(attr) macro_in=src/format/mod.rs
//@params locale
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == sp_locale(old(self).attr@, locale, "number:language"@, "number:country"@, "number:script"@), *final(self) == (ValueFormatNumber { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_format.rs path=part_fill_character macro=part_fill_character() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::FillCharacter), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_fraction macro=part_fraction() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Fraction), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_number macro=part_number() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Number), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_scientific macro=part_scientific() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::ScientificNumber), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_text macro=part_text() macro_in=src/format/mod.rs
//@params text
//@ret r
//@spec
    ensures is_part(r.part, FormatPartType::Text, no_attr(), Some(text.itext())), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=push_fraction macro=push_fraction() macro_in=src/format/mod.rs
//@params d md mi mn grouping
//@subst |$idp| $idp.$idm() ==> |$idp: PartFractionBuilder<'_, Self>| -> (q: PartFractionBuilder<'_, Self>) requires $idp.part.wf() ensures clos_$idm(q.part, $idp.part), q.valueformat == $idp.valueformat { $idp.$idm() }
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Fraction, frac_attr(d, md, mi, mn, grouping), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_number macro=push_number() macro_in=src/format/mod.rs
//@params dec grouping
//@subst |$idp| $idp.$idm() ==> |$idp: PartNumberBuilder<'_, Self>| -> (q: PartNumberBuilder<'_, Self>) requires $idp.part.wf() ensures clos_$idm(q.part, $idp.part), q.valueformat == $idp.valueformat { $idp.$idm() }
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Number, num_attr(Some(dec), Some(0), grouping, true), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_number_fix macro=push_number_fix() macro_in=src/format/mod.rs
//@params dec grouping
//@subst |$idp| $idp.$idm() ==> |$idp: PartNumberBuilder<'_, Self>| -> (q: PartNumberBuilder<'_, Self>) requires $idp.part.wf() ensures clos_$idm(q.part, $idp.part), q.valueformat == $idp.valueformat { $idp.$idm() }
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Number, num_attr(Some(dec), Some(dec), grouping, true), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_scientific macro=push_scientific() macro_in=src/format/mod.rs
//@params dec
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::ScientificNumber, no_attr().insert("number:decimal-places"@, dec.shown()), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_text macro=push_text() macro_in=src/format/mod.rs
//@params text
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Text, no_attr(), Some(text.itext())), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
}
impl ValueFormatTrait for ValueFormatNumber {
    spec fn sparts(&self) -> Seq<FormatPart> { self.parts@ }
    spec fn same(&self, o: &Self) -> bool { *self == (ValueFormatNumber { parts: self.parts, ..*o }) }
//@fn file=src/macro_format.rs path=ValueFormatNumber::push_part trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@params part
//@spec

//@end
}
impl ValueFormatNumber {
//@fn file=src/macro_format.rs path=ValueFormatNumber::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@params name
//@spec
    ensures final(self).name@ == name.itext(), *final(self) == (ValueFormatNumber { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::name trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::set_origin trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@params origin
//@spec
    ensures *final(self) == (ValueFormatNumber { origin: origin, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::set_styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@params styleuse
//@spec
    ensures *final(self) == (ValueFormatNumber { styleuse: styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::attrmap trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::textstyle trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.textstyle,
//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::parts trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.parts,
//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::push_parts trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@params partvec
//@spec
    ensures final(self).parts@ =~= old(self).parts@ + old(partvec)@, final(partvec)@.len() == 0, final(self).same(old(self)),
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatPercentage macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@end
impl ValueFormatPercentage {
//@fn file=src/macro_format.rs path=ValueFormatPercentage::new_empty macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.attr@ =~= no_attr(), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::new_named macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@params name
//@ret r
//@spec
    ensures r.name@ == name.text(), r.attr@ =~= no_attr(), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::new_localized macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@params name locale
//@ret r
//@spec
    ensures r.name@ == name.text(), r.attr@ =~= loc_attr(locale), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_attr_number.rs path=set_locale macro=valueformat(ValueFormatPercentage,ValueType::Percentage)>number_locale(attr) macro_in=src/format/mod.rs
//@params locale
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == sp_locale(old(self).attr@, locale, "number:language"@, "number:country"@, "number:script"@), *final(self) == (ValueFormatPercentage { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_format.rs path=part_fill_character macro=part_fill_character() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::FillCharacter), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_number macro=part_number() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Number), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_text macro=part_text() macro_in=src/format/mod.rs
//@params text
//@ret r
//@spec
    ensures is_part(r.part, FormatPartType::Text, no_attr(), Some(text.itext())), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=push_number macro=push_number() macro_in=src/format/mod.rs
//@params dec grouping
//@subst |$idp| $idp.$idm() ==> |$idp: PartNumberBuilder<'_, Self>| -> (q: PartNumberBuilder<'_, Self>) requires $idp.part.wf() ensures clos_$idm(q.part, $idp.part), q.valueformat == $idp.valueformat { $idp.$idm() }
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Number, num_attr(Some(dec), Some(0), grouping, true), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_number_fix macro=push_number_fix() macro_in=src/format/mod.rs
//@params dec grouping
//@subst |$idp| $idp.$idm() ==> |$idp: PartNumberBuilder<'_, Self>| -> (q: PartNumberBuilder<'_, Self>) requires $idp.part.wf() ensures clos_$idm(q.part, $idp.part), q.valueformat == $idp.valueformat { $idp.$idm() }
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Number, num_attr(Some(dec), Some(dec), grouping, true), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_text macro=push_text() macro_in=src/format/mod.rs
//@params text
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Text, no_attr(), Some(text.itext())), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
}
impl ValueFormatTrait for ValueFormatPercentage {
    spec fn sparts(&self) -> Seq<FormatPart> { self.parts@ }
    spec fn same(&self, o: &Self) -> bool { *self == (ValueFormatPercentage { parts: self.parts, ..*o }) }
//@fn file=src/macro_format.rs path=ValueFormatPercentage::push_part trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@params part
//@spec

//@end
}
impl ValueFormatPercentage {
//@fn file=src/macro_format.rs path=ValueFormatPercentage::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@params name
//@spec
    ensures final(self).name@ == name.itext(), *final(self) == (ValueFormatPercentage { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::name trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::set_origin trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@params origin
//@spec
    ensures *final(self) == (ValueFormatPercentage { origin: origin, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::set_styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@params styleuse
//@spec
    ensures *final(self) == (ValueFormatPercentage { styleuse: styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::attrmap trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::textstyle trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.textstyle,
//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::parts trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.parts,
//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::push_parts trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@params partvec
//@spec
    ensures final(self).parts@ =~= old(self).parts@ + old(partvec)@, final(partvec)@.len() == 0, final(self).same(old(self)),
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatCurrency macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@end
impl ValueFormatCurrency {
//@fn file=src/macro_format.rs path=ValueFormatCurrency::new_empty macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.attr@ =~= no_attr(), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::new_named macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@params name
//@ret r
//@spec
    ensures r.name@ == name.text(), r.attr@ =~= no_attr(), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::new_localized macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@params name locale
//@ret r
//@spec
    ensures r.name@ == name.text(), r.attr@ =~= loc_attr(locale), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_attr_number.rs path=set_locale macro=valueformat(ValueFormatCurrency,ValueType::Currency)>number_locale(attr) macro_in=src/format/mod.rs
//@params locale
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == sp_locale(old(self).attr@, locale, "number:language"@, "number:country"@, "number:script"@), *final(self) == (ValueFormatCurrency { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_format.rs path=part_currency macro=part_currency() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::CurrencySymbol), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_fill_character macro=part_fill_character() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::FillCharacter), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_number macro=part_number() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Number), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_text macro=part_text() macro_in=src/format/mod.rs
//@params text
//@ret r
//@spec
    ensures is_part(r.part, FormatPartType::Text, no_attr(), Some(text.itext())), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=push_currency_symbol macro=push_currency_symbol() macro_in=src/format/mod.rs
//@params locale symbol
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::CurrencySymbol, cur_locale(no_attr(), locale), Some(symbol.itext())), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_number macro=push_number() macro_in=src/format/mod.rs
//@params dec grouping
//@subst |$idp| $idp.$idm() ==> |$idp: PartNumberBuilder<'_, Self>| -> (q: PartNumberBuilder<'_, Self>) requires $idp.part.wf() ensures clos_$idm(q.part, $idp.part), q.valueformat == $idp.valueformat { $idp.$idm() }
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Number, num_attr(Some(dec), Some(0), grouping, true), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_number_fix macro=push_number_fix() macro_in=src/format/mod.rs
//@params dec grouping
//@subst |$idp| $idp.$idm() ==> |$idp: PartNumberBuilder<'_, Self>| -> (q: PartNumberBuilder<'_, Self>) requires $idp.part.wf() ensures clos_$idm(q.part, $idp.part), q.valueformat == $idp.valueformat { $idp.$idm() }
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Number, num_attr(Some(dec), Some(dec), grouping, true), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_text macro=push_text() macro_in=src/format/mod.rs
//@params text
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Text, no_attr(), Some(text.itext())), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
}
impl ValueFormatTrait for ValueFormatCurrency {
    spec fn sparts(&self) -> Seq<FormatPart> { self.parts@ }
    spec fn same(&self, o: &Self) -> bool { *self == (ValueFormatCurrency { parts: self.parts, ..*o }) }
//@fn file=src/macro_format.rs path=ValueFormatCurrency::push_part trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@params part
//@spec

//@end
}
impl ValueFormatCurrency {
//@fn file=src/macro_format.rs path=ValueFormatCurrency::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@params name
//@spec
    ensures final(self).name@ == name.itext(), *final(self) == (ValueFormatCurrency { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::name trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::set_origin trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@params origin
//@spec
    ensures *final(self) == (ValueFormatCurrency { origin: origin, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::set_styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@params styleuse
//@spec
    ensures *final(self) == (ValueFormatCurrency { styleuse: styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::attrmap trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::textstyle trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.textstyle,
//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::parts trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.parts,
//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::push_parts trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@params partvec
//@spec
    ensures final(self).parts@ =~= old(self).parts@ + old(partvec)@, final(partvec)@.len() == 0, final(self).same(old(self)),
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatText macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@end
impl ValueFormatText {
//@fn file=src/macro_format.rs path=ValueFormatText::new_empty macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.attr@ =~= no_attr(), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@end
//@fn file=src/macro_format.rs path=ValueFormatText::new_named macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@params name
//@ret r
//@spec
    ensures r.name@ == name.text(), r.attr@ =~= no_attr(), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@end
//@fn file=src/macro_format.rs path=ValueFormatText::new_localized macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@params name locale
//@ret r
//@spec
    ensures r.name@ == name.text(), r.attr@ =~= loc_attr(locale), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_attr_number.rs path=set_locale macro=valueformat(ValueFormatText,ValueType::Text)>number_locale(attr) macro_in=src/format/mod.rs
//@params locale
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == sp_locale(old(self).attr@, locale, "number:language"@, "number:country"@, "number:script"@), *final(self) == (ValueFormatText { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_format.rs path=part_fill_character macro=part_fill_character() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::FillCharacter), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_text macro=part_text() macro_in=src/format/mod.rs
//@params text
//@ret r
//@spec
    ensures is_part(r.part, FormatPartType::Text, no_attr(), Some(text.itext())), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_text_content macro=part_text_content() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::TextContent), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=push_text macro=push_text() macro_in=src/format/mod.rs
//@params text
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Text, no_attr(), Some(text.itext())), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_text_content macro=push_text_content() macro_in=src/format/mod.rs
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::TextContent, no_attr(), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
}
impl ValueFormatTrait for ValueFormatText {
    spec fn sparts(&self) -> Seq<FormatPart> { self.parts@ }
    spec fn same(&self, o: &Self) -> bool { *self == (ValueFormatText { parts: self.parts, ..*o }) }
//@fn file=src/macro_format.rs path=ValueFormatText::push_part trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@params part
//@spec

//@end
}
impl ValueFormatText {
//@fn file=src/macro_format.rs path=ValueFormatText::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@params name
//@spec
    ensures final(self).name@ == name.itext(), *final(self) == (ValueFormatText { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatText::name trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_format.rs path=ValueFormatText::set_origin trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@params origin
//@spec
    ensures *final(self) == (ValueFormatText { origin: origin, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatText::set_styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@params styleuse
//@spec
    ensures *final(self) == (ValueFormatText { styleuse: styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatText::attrmap trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/macro_format.rs path=ValueFormatText::textstyle trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.textstyle,
//@end
//@fn file=src/macro_format.rs path=ValueFormatText::parts trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.parts,
//@end
//@fn file=src/macro_format.rs path=ValueFormatText::push_parts trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@params partvec
//@spec
    ensures final(self).parts@ =~= old(self).parts@ + old(partvec)@, final(partvec)@.len() == 0, final(self).same(old(self)),
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatDateTime macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@end
impl ValueFormatDateTime {
//@fn file=src/macro_format.rs path=ValueFormatDateTime::new_empty macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.attr@ =~= no_attr(), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::new_named macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@params name
//@ret r
//@spec
    ensures r.name@ == name.text(), r.attr@ =~= no_attr(), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::new_localized macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@params name locale
//@ret r
//@spec
    ensures r.name@ == name.text(), r.attr@ =~= loc_attr(locale), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_attr_number.rs path=set_locale macro=valueformat(ValueFormatDateTime,ValueType::DateTime)>number_locale(attr) macro_in=src/format/mod.rs
//@params locale
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == sp_locale(old(self).attr@, locale, "number:language"@, "number:country"@, "number:script"@), *final(self) == (ValueFormatDateTime { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_format.rs path=part_am_pm macro=part_am_pm() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::AmPm), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_day macro=part_day() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Day), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_day_of_week macro=part_day_of_week() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::DayOfWeek), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_era macro=part_era() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Era), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_fill_character macro=part_fill_character() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::FillCharacter), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_hours macro=part_hours() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Hours), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_minutes macro=part_minutes() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Minutes), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_month macro=part_month() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Month), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_quarter macro=part_quarter() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Quarter), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_seconds macro=part_seconds() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Seconds), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_text macro=part_text() macro_in=src/format/mod.rs
//@params text
//@ret r
//@spec
    ensures is_part(r.part, FormatPartType::Text, no_attr(), Some(text.itext())), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_week_of_year macro=part_week_of_year() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::WeekOfYear), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_year macro=part_year() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Year), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=push_am_pm macro=push_am_pm() macro_in=src/format/mod.rs
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::AmPm, no_attr(), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_day macro=push_day() macro_in=src/format/mod.rs
//@params style
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Day, no_attr().insert("number:style"@, style.shown()), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_day_of_week macro=push_day_of_week() macro_in=src/format/mod.rs
//@params style calendar
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::DayOfWeek, no_attr().insert("number:style"@, style.shown()).insert("number:calendar"@, calendar.shown()), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_era macro=push_era() macro_in=src/format/mod.rs
//@params style calendar
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Era, no_attr().insert("number:style"@, style.shown()).insert("number:calendar"@, calendar.shown()), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_hours macro=push_hours() macro_in=src/format/mod.rs
//@params style
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Hours, no_attr().insert("number:style"@, style.shown()), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_minutes macro=push_minutes() macro_in=src/format/mod.rs
//@params style
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Minutes, no_attr().insert("number:style"@, style.shown()), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_month macro=push_month() macro_in=src/format/mod.rs
//@params style textual
//@subst |$idp| $idp.$idm() ==> |$idp: PartMonthBuilder<'_, Self>| -> (q: PartMonthBuilder<'_, Self>) requires $idp.part.wf() ensures clos_$idm(q.part, $idp.part), q.valueformat == $idp.valueformat { $idp.$idm() }
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Month, month_attr(style, textual), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_quarter macro=push_quarter() macro_in=src/format/mod.rs
//@params style calendar
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Quarter, no_attr().insert("number:style"@, style.shown()).insert("number:calendar"@, calendar.shown()), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_seconds macro=push_seconds() macro_in=src/format/mod.rs
//@params style dec
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Seconds, no_attr().insert("number:style"@, style.shown()).insert("number:decimal-places"@, dec.shown()), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_text macro=push_text() macro_in=src/format/mod.rs
//@params text
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Text, no_attr(), Some(text.itext())), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_week_of_year macro=push_week_of_year() macro_in=src/format/mod.rs
//@params calendar
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::WeekOfYear, no_attr().insert("number:calendar"@, calendar.shown()), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_year macro=push_year() macro_in=src/format/mod.rs
//@params style
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Year, no_attr().insert("number:style"@, style.shown()), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
}
impl ValueFormatTrait for ValueFormatDateTime {
    spec fn sparts(&self) -> Seq<FormatPart> { self.parts@ }
    spec fn same(&self, o: &Self) -> bool { *self == (ValueFormatDateTime { parts: self.parts, ..*o }) }
//@fn file=src/macro_format.rs path=ValueFormatDateTime::push_part trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@params part
//@spec

//@end
}
impl ValueFormatDateTime {
//@fn file=src/macro_format.rs path=ValueFormatDateTime::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@params name
//@spec
    ensures final(self).name@ == name.itext(), *final(self) == (ValueFormatDateTime { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::name trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::set_origin trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@params origin
//@spec
    ensures *final(self) == (ValueFormatDateTime { origin: origin, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::set_styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@params styleuse
//@spec
    ensures *final(self) == (ValueFormatDateTime { styleuse: styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::attrmap trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::textstyle trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.textstyle,
//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::parts trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.parts,
//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::push_parts trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@params partvec
//@spec
    ensures final(self).parts@ =~= old(self).parts@ + old(partvec)@, final(partvec)@.len() == 0, final(self).same(old(self)),
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatTimeDuration macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@end
impl ValueFormatTimeDuration {
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::new_empty macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.name@ =~= Seq::<char>::empty(), r.attr@ =~= no_attr(), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::new_named macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@params name
//@ret r
//@spec
    ensures r.name@ == name.text(), r.attr@ =~= no_attr(), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::new_localized macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@params name locale
//@ret r
//@spec
    ensures r.name@ == name.text(), r.attr@ =~= loc_attr(locale), r.attr.wf(), r.textstyle.wf(), r.textstyle@ =~= no_attr(), r.parts@.len() == 0, r.stylemaps is None, r.origin == def_origin(), r.styleuse == def_use(),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_attr_number.rs path=set_locale macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration)>number_locale(attr) macro_in=src/format/mod.rs
//@params locale
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == sp_locale(old(self).attr@, locale, "number:language"@, "number:country"@, "number:script"@), *final(self) == (ValueFormatTimeDuration { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_number.rs path=set_truncate_on_overflow macro=number_truncate_on_overflow(attr) macro_in=src/format/mod.rs
//@params truncate
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("number:truncate-on-overflow"@, truncate.shown()), *final(self) == (ValueFormatTimeDuration { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_format.rs path=part_am_pm macro=part_am_pm() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::AmPm), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_fill_character macro=part_fill_character() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::FillCharacter), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_hours macro=part_hours() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Hours), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_minutes macro=part_minutes() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Minutes), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_seconds macro=part_seconds() macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r.part.fresh(FormatPartType::Seconds), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=part_text macro=part_text() macro_in=src/format/mod.rs
//@params text
//@ret r
//@spec
    ensures is_part(r.part, FormatPartType::Text, no_attr(), Some(text.itext())), *r.valueformat == *old(self), *final(self) == *final(r.valueformat),
//@end
//@fn file=src/macro_format.rs path=push_am_pm macro=push_am_pm() macro_in=src/format/mod.rs
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::AmPm, no_attr(), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_hours macro=push_hours() macro_in=src/format/mod.rs
//@params style
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Hours, no_attr().insert("number:style"@, style.shown()), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_minutes macro=push_minutes() macro_in=src/format/mod.rs
//@params style
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Minutes, no_attr().insert("number:style"@, style.shown()), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_seconds macro=push_seconds() macro_in=src/format/mod.rs
//@params style dec
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Seconds, no_attr().insert("number:style"@, style.shown()).insert("number:decimal-places"@, dec.shown()), None), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/macro_format.rs path=push_text macro=push_text() macro_in=src/format/mod.rs
//@params text
//@spec
    ensures final(self).parts@ == old(self).parts@.push(final(self).parts@.last()), final(self).parts@.len() > 0, is_part(final(self).parts@.last(), FormatPartType::Text, no_attr(), Some(text.itext())), final(self).same(old(self)),
//@at start
    proof { key_names(); }
//@end
}
impl ValueFormatTrait for ValueFormatTimeDuration {
    spec fn sparts(&self) -> Seq<FormatPart> { self.parts@ }
    spec fn same(&self, o: &Self) -> bool { *self == (ValueFormatTimeDuration { parts: self.parts, ..*o }) }
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::push_part trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@params part
//@spec

//@end
}
impl ValueFormatTimeDuration {
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@params name
//@spec
    ensures final(self).name@ == name.itext(), *final(self) == (ValueFormatTimeDuration { name: final(self).name, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::name trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::set_origin trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@params origin
//@spec
    ensures *final(self) == (ValueFormatTimeDuration { origin: origin, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::set_styleuse trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@params styleuse
//@spec
    ensures *final(self) == (ValueFormatTimeDuration { styleuse: styleuse, ..*old(self) }),
//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::attrmap trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.attr,
//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::textstyle trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.textstyle,
//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::parts trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.parts,
//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::push_parts trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@params partvec
//@spec
    ensures final(self).parts@ =~= old(self).parts@ + old(partvec)@, final(partvec)@.len() == 0, final(self).same(old(self)),
//@end
}
spec fn loc_attr(l: Locale) -> IMap<Seq<char>, Seq<char>> { if l.sknown() { cur_locale(no_attr(), l) } else { no_attr() } }
spec fn ins_if(m: IMap<Seq<char>, Seq<char>>, b: bool, k: Seq<char>, v: Seq<char>) -> IMap<Seq<char>, Seq<char>> { if b { m.insert(k, v) } else { m } }
/// a number: decimal places, at least so many of them, grouped, at least one integer digit
spec fn num_attr(dec: Option<u8>, min: Option<u8>, grouping: bool, int1: bool) -> IMap<Seq<char>, Seq<char>> {
    ins_if(ins_if(opt_ins(opt_ins(no_attr(), "number:decimal-places"@, dec), "number:min-decimal-places"@, min), grouping, "number:grouping"@, "true"@), int1, "number:min-integer-digits"@, 1u8.shown())
}
spec fn frac_attr(d: i64, md: u8, mi: u8, mn: u8, grouping: bool) -> IMap<Seq<char>, Seq<char>> {
    ins_if(no_attr().insert("number:denominator-value"@, d.shown()).insert("number:min-denominator-digits"@, md.shown()).insert("number:min-integer-digits"@, mi.shown()).insert("number:min-numerator-digits"@, mn.shown()), grouping, "number:grouping"@, "true"@)
}
spec fn month_attr(style: FormatNumberStyle, textual: bool) -> IMap<Seq<char>, Seq<char>> { ins_if(no_attr().insert("number:style"@, style.shown()), textual, "number:textual"@, "true"@) }
spec fn clos_grouping(q: FormatPart, p: FormatPart) -> bool { q.wf() && q@ == (PartV { attr: q@.attr, ..p@ }) && q@.attr =~= p@.attr.insert("number:grouping"@, "true"@) }
spec fn clos_textual(q: FormatPart, p: FormatPart) -> bool { q.wf() && q@ == (PartV { attr: q@.attr, ..p@ }) && q@.attr =~= p@.attr.insert("number:textual"@, "true"@) }
spec fn p_num(p: FormatPart, dec: u8, min: Option<u8>, grouping: bool, int1: bool) -> bool { is_part(p, FormatPartType::Number, num_attr(Some(dec), min, grouping, int1), None) }
spec fn p_text(p: FormatPart, s: Seq<char>) -> bool { is_part(p, FormatPartType::Text, no_attr(), Some(s)) }
spec fn p_cur(p: FormatPart, l: Locale, s: Seq<char>) -> bool { is_part(p, FormatPartType::CurrencySymbol, cur_locale(no_attr(), l), Some(s)) }
spec fn p_long(p: FormatPart, t: FormatPartType) -> bool { is_part(p, t, no_attr().insert("number:style"@, "long"@), None) }
spec fn p_hms(s: Seq<FormatPart>, i: int) -> bool {
    p_long(s[i], FormatPartType::Hours) && p_text(s[i + 1], ":"@) && p_long(s[i + 2], FormatPartType::Minutes) && p_text(s[i + 3], ":"@) && p_long(s[i + 4], FormatPartType::Seconds)
}
spec fn p_3(s: Seq<FormatPart>, a: FormatPartType, b: FormatPartType, c: FormatPartType, sep: Seq<char>) -> bool {
    p_long(s[0], a) && p_text(s[1], sep) && p_long(s[2], b) && p_text(s[3], sep) && p_long(s[4], c)
}

trait VpHead: Sized { spec fn head(&self, name: Seq<char>, attr: IMap<Seq<char>, Seq<char>>) -> bool; }
impl VpHead for ValueFormatBoolean { spec fn head(&self, name: Seq<char>, attr: IMap<Seq<char>, Seq<char>>) -> bool { self.name@ == name && self.attr.wf() && self.attr@ =~= attr && self.textstyle.wf() && self.textstyle@ =~= no_attr() && self.stylemaps is None && self.origin == def_origin() && self.styleuse == def_use() } }
impl VpHead for ValueFormatNumber { spec fn head(&self, name: Seq<char>, attr: IMap<Seq<char>, Seq<char>>) -> bool { self.name@ == name && self.attr.wf() && self.attr@ =~= attr && self.textstyle.wf() && self.textstyle@ =~= no_attr() && self.stylemaps is None && self.origin == def_origin() && self.styleuse == def_use() } }
impl VpHead for ValueFormatPercentage { spec fn head(&self, name: Seq<char>, attr: IMap<Seq<char>, Seq<char>>) -> bool { self.name@ == name && self.attr.wf() && self.attr@ =~= attr && self.textstyle.wf() && self.textstyle@ =~= no_attr() && self.stylemaps is None && self.origin == def_origin() && self.styleuse == def_use() } }
impl VpHead for ValueFormatCurrency { spec fn head(&self, name: Seq<char>, attr: IMap<Seq<char>, Seq<char>>) -> bool { self.name@ == name && self.attr.wf() && self.attr@ =~= attr && self.textstyle.wf() && self.textstyle@ =~= no_attr() && self.stylemaps is None && self.origin == def_origin() && self.styleuse == def_use() } }
impl VpHead for ValueFormatText { spec fn head(&self, name: Seq<char>, attr: IMap<Seq<char>, Seq<char>>) -> bool { self.name@ == name && self.attr.wf() && self.attr@ =~= attr && self.textstyle.wf() && self.textstyle@ =~= no_attr() && self.stylemaps is None && self.origin == def_origin() && self.styleuse == def_use() } }
impl VpHead for ValueFormatDateTime { spec fn head(&self, name: Seq<char>, attr: IMap<Seq<char>, Seq<char>>) -> bool { self.name@ == name && self.attr.wf() && self.attr@ =~= attr && self.textstyle.wf() && self.textstyle@ =~= no_attr() && self.stylemaps is None && self.origin == def_origin() && self.styleuse == def_use() } }
impl VpHead for ValueFormatTimeDuration { spec fn head(&self, name: Seq<char>, attr: IMap<Seq<char>, Seq<char>>) -> bool { self.name@ == name && self.attr.wf() && self.attr@ =~= attr && self.textstyle.wf() && self.textstyle@ =~= no_attr() && self.stylemaps is None && self.origin == def_origin() && self.styleuse == def_use() } }
//@fn file=src/format/create.rs path=create_loc_boolean_format
//@params name locale
//@ret r
//@spec
    ensures r.parts@.len() == 1, r.head(name.text(), loc_attr(locale)), is_part(r.parts@[0], FormatPartType::Boolean, no_attr(), None),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_loc_number_format
//@params name locale decimal grouping
//@ret r
//@subst |$idp| $idp.$idm() ==> |$idp: PartNumberBuilder<'_, ValueFormatNumber>| -> (q: PartNumberBuilder<'_, ValueFormatNumber>) requires $idp.part.wf() ensures clos_$idm(q.part, $idp.part), q.valueformat == $idp.valueformat { $idp.$idm() }
//@spec
    ensures r.parts@.len() == 1, r.head(name.text(), loc_attr(locale)), p_num(r.parts@[0], decimal, None, grouping, true),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_loc_number_format_fixed
//@params name locale decimal grouping
//@ret r
//@subst |$idp| $idp.$idm() ==> |$idp: PartNumberBuilder<'_, ValueFormatNumber>| -> (q: PartNumberBuilder<'_, ValueFormatNumber>) requires $idp.part.wf() ensures clos_$idm(q.part, $idp.part), q.valueformat == $idp.valueformat { $idp.$idm() }
//@spec
    ensures r.parts@.len() == 1, r.head(name.text(), loc_attr(locale)), p_num(r.parts@[0], decimal, Some(decimal), grouping, true),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_loc_percentage_format
//@params name locale decimal
//@ret r
//@spec
    ensures r.parts@.len() == 2, r.head(name.text(), loc_attr(locale)), p_num(r.parts@[0], decimal, None, false, false), p_text(r.parts@[1], "%"@),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_loc_currency_prefix
//@params name locale sl symbol
//@ret r
//@spec
    ensures r.parts@.len() == 3, r.head(name.text(), loc_attr(locale)), p_cur(r.parts@[0], sl, symbol.itext()), p_text(r.parts@[1], " "@), p_num(r.parts@[2], 2, Some(2), true, false),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_loc_currency_suffix
//@params name locale sl symbol
//@ret r
//@spec
    ensures r.parts@.len() == 3, r.head(name.text(), loc_attr(locale)), p_cur(r.parts@[2], sl, symbol.itext()), p_text(r.parts@[1], " "@), p_num(r.parts@[0], 2, Some(2), true, false),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_loc_date_dmy_format
//@params name locale
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head(name.text(), loc_attr(locale)), p_3(r.parts@, FormatPartType::Day, FormatPartType::Month, FormatPartType::Year, "."@),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_loc_date_mdy_format
//@params name locale
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head(name.text(), loc_attr(locale)), p_3(r.parts@, FormatPartType::Month, FormatPartType::Day, FormatPartType::Year, "/"@),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_loc_datetime_format
//@params name locale
//@ret r
//@spec
    ensures r.parts@.len() == 11, r.head(name.text(), loc_attr(locale)), p_3(r.parts@, FormatPartType::Day, FormatPartType::Month, FormatPartType::Year, "."@), p_text(r.parts@[5], " "@), p_hms(r.parts@, 6),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_loc_time_format
//@params name locale
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head(name.text(), loc_attr(locale)), p_hms(r.parts@, 0),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_loc_time_interval_format
//@params name locale
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head(name.text(), loc_attr(locale).insert("number:truncate-on-overflow"@, "false"@)), p_hms(r.parts@, 0),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_boolean_format
//@params name
//@ret r
//@spec
    ensures r.parts@.len() == 1, r.head(name.text(), no_attr()), is_part(r.parts@[0], FormatPartType::Boolean, no_attr(), None),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_number_format
//@params name decimal grouping
//@ret r
//@subst |$idp| $idp.$idm() ==> |$idp: PartNumberBuilder<'_, ValueFormatNumber>| -> (q: PartNumberBuilder<'_, ValueFormatNumber>) requires $idp.part.wf() ensures clos_$idm(q.part, $idp.part), q.valueformat == $idp.valueformat { $idp.$idm() }
//@spec
    ensures r.parts@.len() == 1, r.head(name.text(), no_attr()), p_num(r.parts@[0], decimal, None, grouping, false),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_number_format_fixed
//@params name decimal grouping
//@ret r
//@subst |$idp| $idp.$idm() ==> |$idp: PartNumberBuilder<'_, ValueFormatNumber>| -> (q: PartNumberBuilder<'_, ValueFormatNumber>) requires $idp.part.wf() ensures clos_$idm(q.part, $idp.part), q.valueformat == $idp.valueformat { $idp.$idm() }
//@spec
    ensures r.parts@.len() == 1, r.head(name.text(), no_attr()), p_num(r.parts@[0], decimal, Some(decimal), grouping, true),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_percentage_format
//@params name decimal
//@ret r
//@spec
    ensures r.parts@.len() == 2, r.head(name.text(), no_attr()), p_num(r.parts@[0], decimal, Some(decimal), false, false), p_text(r.parts@[1], "%"@),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_currency_prefix
//@params name sl symbol
//@ret r
//@spec
    ensures r.parts@.len() == 3, r.head(name.text(), no_attr()), p_cur(r.parts@[0], sl, symbol.itext()), p_text(r.parts@[1], " "@), p_num(r.parts@[2], 2, Some(2), true, false),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_currency_suffix
//@params name sl symbol
//@ret r
//@spec
    ensures r.parts@.len() == 3, r.head(name.text(), no_attr()), p_cur(r.parts@[2], sl, symbol.itext()), p_text(r.parts@[1], " "@), p_num(r.parts@[0], 2, Some(2), true, false),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_date_iso_format
//@params name
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head(name.text(), no_attr()), p_3(r.parts@, FormatPartType::Year, FormatPartType::Month, FormatPartType::Day, "-"@),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_date_dmy_format
//@params name
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head(name.text(), no_attr()), p_3(r.parts@, FormatPartType::Day, FormatPartType::Month, FormatPartType::Year, "."@),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_date_mdy_format
//@params name
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head(name.text(), no_attr()), p_3(r.parts@, FormatPartType::Month, FormatPartType::Day, FormatPartType::Year, "/"@),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_datetime_format
//@params name
//@ret r
//@spec
    ensures r.parts@.len() == 11, r.head(name.text(), no_attr()), p_3(r.parts@, FormatPartType::Year, FormatPartType::Month, FormatPartType::Day, "-"@), p_text(r.parts@[5], " "@), p_hms(r.parts@, 6),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_time_of_day_format
//@params name
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head(name.text(), no_attr()), p_hms(r.parts@, 0),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/format/create.rs path=create_time_interval_format
//@params name
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head(name.text(), no_attr().insert("number:truncate-on-overflow"@, "false"@)), p_hms(r.parts@, 0),
//@at start
    proof { key_names(); }
//@end
// ------------------------------------------------------------------ default formats of the locales
uninterp spec fn locale_of(s: Seq<char>) -> Locale;
#[verifier::external_body] fn vp_locale(s: &str) -> (r: Locale) ensures r == locale_of(s@), r.sknown() { unimplemented!() }
//@struct file=src/macro_style.rs name=ValueFormatRef macro=style_ref2(ValueFormatRef)>style_ref2_base(ValueFormatRef) macro_in=src/format/mod.rs
//@end
impl VpAsRef for ValueFormatRef { spec fn text(&self) -> Seq<char> { self.id@ } fn as_ref(&self) -> (r: &str) { self.id.as_str() } }
impl ValueFormatRef { fn from(s: &str) -> (r: ValueFormatRef) ensures r.id@ == s@ { ValueFormatRef { id: vp_string(s) } } }
struct DefaultFormat {}
impl DefaultFormat {
//@fn file=src/defaultstyles.rs path=DefaultFormat::bool
//@ret r
//@spec
    ensures r.text() == "bool1"@,
//@end
//@fn file=src/defaultstyles.rs path=DefaultFormat::number
//@ret r
//@spec
    ensures r.text() == "num1"@,
//@end
//@fn file=src/defaultstyles.rs path=DefaultFormat::percent
//@ret r
//@spec
    ensures r.text() == "percent1"@,
//@end
//@fn file=src/defaultstyles.rs path=DefaultFormat::currency
//@ret r
//@spec
    ensures r.text() == "currency1"@,
//@end
//@fn file=src/defaultstyles.rs path=DefaultFormat::date
//@ret r
//@spec
    ensures r.text() == "date1"@,
//@end
//@fn file=src/defaultstyles.rs path=DefaultFormat::datetime
//@ret r
//@spec
    ensures r.text() == "datetime1"@,
//@end
//@fn file=src/defaultstyles.rs path=DefaultFormat::time_of_day
//@ret r
//@spec
    ensures r.text() == "time1"@,
//@end
//@fn file=src/defaultstyles.rs path=DefaultFormat::time_interval
//@ret r
//@spec
    ensures r.text() == "interval1"@,
//@end
}
struct LocaleDefault {}
impl LocaleDefault {
//@fn file=src/locale/default.rs path=LocaleDefault::locale trait=LocalizedValueFormat
//@ret r
//@subst LocaleDefault::LOCALE ==> Self::vp_locale_const()
//@spec
    ensures r == locale_of("en"@),
//@end
//@constfn file=src/locale/default.rs path=LocaleDefault::LOCALE as=vp_locale_const
//@subst locale!($e) ==> vp_locale($e)
//@spec
    ensures r == locale_of("en"@), r.sknown(),
//@end
//@fn file=src/locale/default.rs path=LocaleDefault::boolean_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 1, r.head("bool1"@, cur_locale(no_attr(), locale_of("en"@))), is_part(r.parts@[0], FormatPartType::Boolean, no_attr(), None),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/default.rs path=LocaleDefault::number_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 1, r.head("num1"@, cur_locale(no_attr(), locale_of("en"@))), p_num(r.parts@[0], 2, None, false, true),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/default.rs path=LocaleDefault::percentage_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 2, r.head("percent1"@, cur_locale(no_attr(), locale_of("en"@))), p_num(r.parts@[0], 2, None, false, true), p_text(r.parts@[1], "%"@),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/default.rs path=LocaleDefault::currency_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 3, r.head("currency1"@, cur_locale(no_attr(), locale_of("en"@))), p_cur(r.parts@[0], locale_of("en"@), "$"@), p_text(r.parts@[1], " "@), p_num(r.parts@[2], 2, Some(2), true, true),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/default.rs path=LocaleDefault::date_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head("date1"@, cur_locale(no_attr(), locale_of("en"@))), p_3(r.parts@, FormatPartType::Year, FormatPartType::Month, FormatPartType::Day, "-"@),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/default.rs path=LocaleDefault::datetime_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 11, r.head("datetime1"@, cur_locale(no_attr(), locale_of("en"@))), p_3(r.parts@, FormatPartType::Year, FormatPartType::Month, FormatPartType::Day, "-"@), p_text(r.parts@[5], " "@), p_hms(r.parts@, 6),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/default.rs path=LocaleDefault::time_of_day_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head("time1"@, cur_locale(no_attr(), locale_of("en"@))), p_hms(r.parts@, 0),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/default.rs path=LocaleDefault::time_interval_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head("interval1"@, cur_locale(no_attr(), locale_of("en"@)).insert("number:truncate-on-overflow"@, "false"@)), p_hms(r.parts@, 0),
//@at start
    proof { key_names(); }
//@end
}
struct LocaleEnUs {}
impl LocaleEnUs {
//@fn file=src/locale/en_us.rs path=LocaleEnUs::locale trait=LocalizedValueFormat
//@ret r
//@subst LocaleEnUs::LOCALE ==> Self::vp_locale_const()
//@spec
    ensures r == locale_of("en-US"@),
//@end
//@constfn file=src/locale/en_us.rs path=LocaleEnUs::LOCALE as=vp_locale_const
//@subst locale!($e) ==> vp_locale($e)
//@spec
    ensures r == locale_of("en-US"@), r.sknown(),
//@end
//@fn file=src/locale/en_us.rs path=LocaleEnUs::boolean_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 1, r.head("bool1"@, cur_locale(no_attr(), locale_of("en-US"@))), is_part(r.parts@[0], FormatPartType::Boolean, no_attr(), None),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/en_us.rs path=LocaleEnUs::number_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 1, r.head("num1"@, cur_locale(no_attr(), locale_of("en-US"@))), p_num(r.parts@[0], 2, None, false, true),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/en_us.rs path=LocaleEnUs::percentage_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 2, r.head("percent1"@, cur_locale(no_attr(), locale_of("en-US"@))), p_num(r.parts@[0], 2, None, false, true), p_text(r.parts@[1], "%"@),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/en_us.rs path=LocaleEnUs::currency_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 3, r.head("currency1"@, cur_locale(no_attr(), locale_of("en-US"@))), p_cur(r.parts@[0], locale_of("en-US"@), "$"@), p_text(r.parts@[1], " "@), p_num(r.parts@[2], 2, Some(2), true, true),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/en_us.rs path=LocaleEnUs::date_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head("date1"@, cur_locale(no_attr(), locale_of("en-US"@))), p_3(r.parts@, FormatPartType::Month, FormatPartType::Day, FormatPartType::Year, "/"@),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/en_us.rs path=LocaleEnUs::datetime_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 11, r.head("datetime1"@, cur_locale(no_attr(), locale_of("en-US"@))), p_3(r.parts@, FormatPartType::Day, FormatPartType::Month, FormatPartType::Year, "."@), p_text(r.parts@[5], " "@), p_hms(r.parts@, 6),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/en_us.rs path=LocaleEnUs::time_of_day_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 7, r.head("time1"@, cur_locale(no_attr(), locale_of("en-US"@))), p_hms(r.parts@, 0), p_text(r.parts@[5], " "@), is_part(r.parts@[6], FormatPartType::AmPm, no_attr(), None),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/en_us.rs path=LocaleEnUs::time_interval_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head("interval1"@, cur_locale(no_attr(), locale_of("en-US"@)).insert("number:truncate-on-overflow"@, "false"@)), p_hms(r.parts@, 0),
//@at start
    proof { key_names(); }
//@end
}
struct LocaleDeAt {}
impl LocaleDeAt {
//@fn file=src/locale/de_at.rs path=LocaleDeAt::locale trait=LocalizedValueFormat
//@ret r
//@subst LocaleDeAt::LOCALE ==> Self::vp_locale_const()
//@spec
    ensures r == locale_of("de-AT"@),
//@end
//@constfn file=src/locale/de_at.rs path=LocaleDeAt::LOCALE as=vp_locale_const
//@subst locale!($e) ==> vp_locale($e)
//@spec
    ensures r == locale_of("de-AT"@), r.sknown(),
//@end
//@fn file=src/locale/de_at.rs path=LocaleDeAt::boolean_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 1, r.head("bool1"@, cur_locale(no_attr(), locale_of("de-AT"@))), is_part(r.parts@[0], FormatPartType::Boolean, no_attr(), None),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/de_at.rs path=LocaleDeAt::number_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 1, r.head("num1"@, cur_locale(no_attr(), locale_of("de-AT"@))), p_num(r.parts@[0], 2, None, false, true),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/de_at.rs path=LocaleDeAt::percentage_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 2, r.head("percent1"@, cur_locale(no_attr(), locale_of("de-AT"@))), p_num(r.parts@[0], 2, None, false, true), p_text(r.parts@[1], "%"@),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/de_at.rs path=LocaleDeAt::currency_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 3, r.head("currency1"@, cur_locale(no_attr(), locale_of("de-AT"@))), p_cur(r.parts@[0], locale_of("de-AT"@), "€"@), p_text(r.parts@[1], " "@), p_num(r.parts@[2], 2, Some(2), true, true),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/de_at.rs path=LocaleDeAt::date_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head("date1"@, cur_locale(no_attr(), locale_of("de-AT"@))), p_3(r.parts@, FormatPartType::Day, FormatPartType::Month, FormatPartType::Year, "."@),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/de_at.rs path=LocaleDeAt::datetime_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 11, r.head("datetime1"@, cur_locale(no_attr(), locale_of("de-AT"@))), p_3(r.parts@, FormatPartType::Day, FormatPartType::Month, FormatPartType::Year, "."@), p_text(r.parts@[5], " "@), p_hms(r.parts@, 6),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/de_at.rs path=LocaleDeAt::time_of_day_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head("time1"@, cur_locale(no_attr(), locale_of("de-AT"@))), p_hms(r.parts@, 0),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/de_at.rs path=LocaleDeAt::time_interval_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head("interval1"@, cur_locale(no_attr(), locale_of("de-AT"@)).insert("number:truncate-on-overflow"@, "false"@)), p_hms(r.parts@, 0),
//@at start
    proof { key_names(); }
//@end
}
struct LocaleCsCz {}
impl LocaleCsCz {
//@fn file=src/locale/cs_cz.rs path=LocaleCsCz::locale trait=LocalizedValueFormat
//@ret r
//@subst LocaleCsCz::LOCALE ==> Self::vp_locale_const()
//@spec
    ensures r == locale_of("cs-CZ"@),
//@end
//@constfn file=src/locale/cs_cz.rs path=LocaleCsCz::LOCALE as=vp_locale_const
//@subst locale!($e) ==> vp_locale($e)
//@spec
    ensures r == locale_of("cs-CZ"@), r.sknown(),
//@end
//@fn file=src/locale/cs_cz.rs path=LocaleCsCz::boolean_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 1, r.head("bool1"@, cur_locale(no_attr(), locale_of("cs-CZ"@))), is_part(r.parts@[0], FormatPartType::Boolean, no_attr(), None),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/cs_cz.rs path=LocaleCsCz::number_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 1, r.head("num1"@, cur_locale(no_attr(), locale_of("cs-CZ"@))), p_num(r.parts@[0], 2, None, false, true),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/cs_cz.rs path=LocaleCsCz::percentage_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 2, r.head("percent1"@, cur_locale(no_attr(), locale_of("cs-CZ"@))), p_num(r.parts@[0], 2, None, false, true), p_text(r.parts@[1], "%"@),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/cs_cz.rs path=LocaleCsCz::currency_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 3, r.head("currency1"@, cur_locale(no_attr(), locale_of("cs-CZ"@))), p_cur(r.parts@[0], locale_of("cs-CZ"@), "Kč"@), p_text(r.parts@[1], " "@), p_num(r.parts@[2], 2, Some(2), true, true),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/cs_cz.rs path=LocaleCsCz::date_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head("date1"@, cur_locale(no_attr(), locale_of("cs-CZ"@))), p_3(r.parts@, FormatPartType::Day, FormatPartType::Month, FormatPartType::Year, "."@),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/cs_cz.rs path=LocaleCsCz::datetime_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 11, r.head("datetime1"@, cur_locale(no_attr(), locale_of("cs-CZ"@))), p_3(r.parts@, FormatPartType::Day, FormatPartType::Month, FormatPartType::Year, "."@), p_text(r.parts@[5], " "@), p_hms(r.parts@, 6),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/cs_cz.rs path=LocaleCsCz::time_of_day_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head("time1"@, cur_locale(no_attr(), locale_of("cs-CZ"@))), p_hms(r.parts@, 0),
//@at start
    proof { key_names(); }
//@end
//@fn file=src/locale/cs_cz.rs path=LocaleCsCz::time_interval_format trait=LocalizedValueFormat
//@ret r
//@spec
    ensures r.parts@.len() == 5, r.head("interval1"@, cur_locale(no_attr(), locale_of("cs-CZ"@)).insert("number:truncate-on-overflow"@, "false"@)), p_hms(r.parts@, 0),
//@at start
    proof { key_names(); }
//@end
}
} // verus!
fn main() {}
