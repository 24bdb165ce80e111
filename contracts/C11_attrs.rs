//@include pre.rs
// C11: an attribute map is a map, and every typed setter changes exactly its ODF attribute.
verus! {
global size_of usize == 8;
//@include attrmap.inc.rs
#[verifier::external_body] struct StyleMap {}
#[verifier::external_body] struct StyleOrigin {}
#[verifier::external_body] struct StyleUse {}
//@gfmt
//@gsubst &mut Formatter<'_> ==> &mut String
//@gsubst Result<(), std::fmt::Error> ==> Result<(), FmtErr>
//@gsubst std::fmt::Result ==> Result<(), FmtErr>
//@gsubst fmt::Result ==> Result<(), FmtErr>
//@gsubst Result<(), fmt::Error> ==> Result<(), FmtErr>
//@gsubst f.write_str($s) ==> vp_lit_ok(f, $s)
//@gsubst $idv.fmt(f) ==> vp_fmt($idv, f)
//@gsubst $ida.as_str().to_string() ==> vp_string($ida.as_str())
//@gsubst $ida.as_ref().to_string() ==> vp_string($ida.as_str())
//@gsubst locale.id.language.to_string() ==> vp_show(&locale.id.language)
//@gsubst FontWeight::Bold.to_string() ==> vp_show(&FontWeight::Bold)
//@gsubst "italic".to_string() ==> vp_string("italic")
//@gsubst $idv.to_string() ==> vp_show(&$idv)
//@gsubst assert!($c) ==> vp_holds($c)
//@gsubst <S: Into<String>> ==>
//@gsubst : S ==> : String
//@gsubst set_attr($k, $idv.into()) ==> set_attr($k, $idv)
//@gsubst set_attr($k, $idv.into(),) ==> set_attr($k, $idv)
//@gsubst set_attr($k, class) ==> set_attr($k, vp_string(class))
//@gsubst locale != Locale::UNKNOWN ==> locale.known()
//@gsubst $ida == Length::Default ==> vp_is_default(&$ida)
//@gsubst self.style_mut() ==> self.style
// ------------------------------------------------------------------ units: what they write
//@struct file=src/style/units.rs name=Angle
//@end
impl Shown for Angle { spec fn shown(&self) -> Seq<char> { match self { Angle::Deg(v) => v.shown() + "deg"@, Angle::Grad(v) => v.shown() + "grad"@, Angle::Rad(v) => v.shown() + "rad"@ } } }
impl Angle {
//@fn file=src/style/units.rs path=Angle::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=Length
//@end
impl Shown for Length { spec fn shown(&self) -> Seq<char> { match self { Length::Cm(v) => v.shown() + "cm"@, Length::Mm(v) => v.shown() + "mm"@, Length::In(v) => v.shown() + "in"@, Length::Pt(v) => v.shown() + "pt"@, Length::Pc(v) => v.shown() + "pc"@, Length::Em(v) => v.shown() + "em"@, Length::Default => ""@ } } }
impl Length {
//@fn file=src/style/units.rs path=Length::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=Percent
//@end
impl Shown for Percent { spec fn shown(&self) -> Seq<char> { match self { Percent::Percent(v) => v.shown() + "%"@ } } }
impl Percent {
//@fn file=src/style/units.rs path=Percent::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=LengthPercent
//@end
impl Shown for LengthPercent { spec fn shown(&self) -> Seq<char> { match self { LengthPercent::Length(v) => v.shown(), LengthPercent::Percent(v) => v.shown() } } }
impl LengthPercent {
//@fn file=src/style/units.rs path=LengthPercent::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=FormatSource
//@end
impl Shown for FormatSource { spec fn shown(&self) -> Seq<char> { match self { FormatSource::Fixed => "fixed"@, FormatSource::Language => "language"@ } } }
impl FormatSource {
//@fn file=src/style/units.rs path=FormatSource::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=TransliterationStyle
//@end
impl Shown for TransliterationStyle { spec fn shown(&self) -> Seq<char> { match self { TransliterationStyle::Short => "short"@, TransliterationStyle::Medium => "medium"@, TransliterationStyle::Long => "long"@ } } }
impl TransliterationStyle {
//@fn file=src/style/units.rs path=TransliterationStyle::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=FontFamilyGeneric
//@end
impl Shown for FontFamilyGeneric { spec fn shown(&self) -> Seq<char> { match self { FontFamilyGeneric::Decorative => "decorative"@, FontFamilyGeneric::Modern => "modern"@, FontFamilyGeneric::Roman => "roman"@, FontFamilyGeneric::Script => "script"@, FontFamilyGeneric::Swiss => "swiss"@, FontFamilyGeneric::System => "system"@ } } }
impl FontFamilyGeneric {
//@fn file=src/style/units.rs path=FontFamilyGeneric::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=FontPitch
//@end
impl Shown for FontPitch { spec fn shown(&self) -> Seq<char> { match self { FontPitch::Variable => "variable"@, FontPitch::Fixed => "fixed"@ } } }
impl FontPitch {
//@fn file=src/style/units.rs path=FontPitch::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=MasterPageUsage
//@end
impl Shown for MasterPageUsage { spec fn shown(&self) -> Seq<char> { match self { MasterPageUsage::All => "all"@, MasterPageUsage::Left => "left"@, MasterPageUsage::Mirrored => "mirrored"@, MasterPageUsage::Right => "right"@ } } }
impl MasterPageUsage {
//@fn file=src/style/units.rs path=MasterPageUsage::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=TabStopType
//@end
impl Shown for TabStopType { spec fn shown(&self) -> Seq<char> { match self { TabStopType::Center => "center"@, TabStopType::Left => "left"@, TabStopType::Right => "right"@, TabStopType::Char => "char"@ } } }
impl TabStopType {
//@fn file=src/style/units.rs path=TabStopType::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=FontStretch
//@end
impl Shown for FontStretch { spec fn shown(&self) -> Seq<char> { match self { FontStretch::Normal => "normal"@, FontStretch::UltraCondensed => "ultra-condensed"@, FontStretch::ExtraCondensed => "extra-condensed"@, FontStretch::Condensed => "condensed"@, FontStretch::SemiCondensed => "semi-condensed"@, FontStretch::SemiExpanded => "semi-expanded"@, FontStretch::Expanded => "expanded"@, FontStretch::ExtraExpanded => "extra-expanded"@, FontStretch::UltraExpanded => "ultra-expanded"@ } } }
impl FontStretch {
//@fn file=src/style/units.rs path=FontStretch::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=Border
//@end
impl Shown for Border { spec fn shown(&self) -> Seq<char> { match self { Border::None => "none"@, Border::Hidden => "hidden"@, Border::Dotted => "dotted"@, Border::Dashed => "dashed"@, Border::Solid => "solid"@, Border::Double => "double"@, Border::Groove => "groove"@, Border::Ridge => "ridge"@, Border::Inset => "inset"@, Border::Outset => "outset"@ } } }
impl Border {
//@fn file=src/style/units.rs path=Border::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=PageBreak
//@end
impl Shown for PageBreak { spec fn shown(&self) -> Seq<char> { match self { PageBreak::Auto => "auto"@, PageBreak::Column => "column"@, PageBreak::Page => "page"@ } } }
impl PageBreak {
//@fn file=src/style/units.rs path=PageBreak::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=FontSize
//@end
impl Shown for FontSize { spec fn shown(&self) -> Seq<char> { match self { FontSize::Percent(v) => v.shown(), FontSize::Length(v) => v.shown() } } }
impl FontSize {
//@fn file=src/style/units.rs path=FontSize::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=FontStyle
//@end
impl Shown for FontStyle { spec fn shown(&self) -> Seq<char> { match self { FontStyle::Normal => "normal"@, FontStyle::Italic => "italic"@, FontStyle::Oblique => "oblique"@ } } }
impl FontStyle {
//@fn file=src/style/units.rs path=FontStyle::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=FontVariant
//@end
impl Shown for FontVariant { spec fn shown(&self) -> Seq<char> { match self { FontVariant::Normal => "normal"@, FontVariant::SmallCaps => "small-caps"@ } } }
impl FontVariant {
//@fn file=src/style/units.rs path=FontVariant::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=FontWeight
//@end
impl Shown for FontWeight { spec fn shown(&self) -> Seq<char> { match self { FontWeight::Normal => "normal"@, FontWeight::Bold => "bold"@, FontWeight::W100 => "100"@, FontWeight::W200 => "200"@, FontWeight::W300 => "300"@, FontWeight::W400 => "400"@, FontWeight::W500 => "500"@, FontWeight::W600 => "600"@, FontWeight::W700 => "700"@, FontWeight::W800 => "800"@, FontWeight::W900 => "900"@ } } }
impl FontWeight {
//@fn file=src/style/units.rs path=FontWeight::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=Hyphenation
//@end
impl Shown for Hyphenation { spec fn shown(&self) -> Seq<char> { match self { Hyphenation::Auto => "auto"@, Hyphenation::Page => "page"@ } } }
impl Hyphenation {
//@fn file=src/style/units.rs path=Hyphenation::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=HyphenationLadderCount
//@end
impl Shown for HyphenationLadderCount { spec fn shown(&self) -> Seq<char> { match self { HyphenationLadderCount::NoLimit => "no-limit"@, HyphenationLadderCount::Count(c) => c.shown() } } }
impl HyphenationLadderCount {
//@fn file=src/style/units.rs path=HyphenationLadderCount::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=TextKeep
//@end
impl Shown for TextKeep { spec fn shown(&self) -> Seq<char> { match self { TextKeep::Auto => "auto"@, TextKeep::Always => "always"@ } } }
impl TextKeep {
//@fn file=src/style/units.rs path=TextKeep::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=LetterSpacing
//@end
impl Shown for LetterSpacing { spec fn shown(&self) -> Seq<char> { match self { LetterSpacing::Normal => "normal"@, LetterSpacing::Length(v) => v.shown() } } }
impl LetterSpacing {
//@fn file=src/style/units.rs path=LetterSpacing::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=LineHeight
//@end
impl Shown for LineHeight { spec fn shown(&self) -> Seq<char> { match self { LineHeight::Normal => "normal"@, LineHeight::Length(v) => v.shown(), LineHeight::Percent(v) => v.shown() } } }
impl LineHeight {
//@fn file=src/style/units.rs path=LineHeight::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=Margin
//@end
impl Shown for Margin { spec fn shown(&self) -> Seq<char> { match self { Margin::Length(v) => v.shown(), Margin::Percent(v) => v.shown() } } }
impl Margin {
//@fn file=src/style/units.rs path=Margin::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=TextAlign
//@end
impl Shown for TextAlign { spec fn shown(&self) -> Seq<char> { match self { TextAlign::Start => "start"@, TextAlign::Center => "center"@, TextAlign::End => "end"@, TextAlign::Justify => "justify"@, TextAlign::Inside => "inside"@, TextAlign::Outside => "outside"@, TextAlign::Left => "left"@, TextAlign::Right => "right"@ } } }
impl TextAlign {
//@fn file=src/style/units.rs path=TextAlign::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=TextAlignLast
//@end
impl Shown for TextAlignLast { spec fn shown(&self) -> Seq<char> { match self { TextAlignLast::Start => "start"@, TextAlignLast::Center => "center"@, TextAlignLast::Justify => "justify"@ } } }
impl TextAlignLast {
//@fn file=src/style/units.rs path=TextAlignLast::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=Indent
//@end
impl Shown for Indent { spec fn shown(&self) -> Seq<char> { match self { Indent::Length(v) => v.shown(), Indent::Percent(v) => v.shown() } } }
impl Indent {
//@fn file=src/style/units.rs path=Indent::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=TextTransform
//@end
impl Shown for TextTransform { spec fn shown(&self) -> Seq<char> { match self { TextTransform::None => "none"@, TextTransform::Lowercase => "lowercase"@, TextTransform::Uppercase => "uppercase"@, TextTransform::Capitalize => "capitalize"@ } } }
impl TextTransform {
//@fn file=src/style/units.rs path=TextTransform::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=WrapOption
//@end
impl Shown for WrapOption { spec fn shown(&self) -> Seq<char> { match self { WrapOption::NoWrap => "no-wrap"@, WrapOption::Wrap => "wrap"@ } } }
impl WrapOption {
//@fn file=src/style/units.rs path=WrapOption::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=CellProtect
//@end
impl Shown for CellProtect { spec fn shown(&self) -> Seq<char> { match self { CellProtect::FormulaHidden => "formula-hidden"@, CellProtect::HiddenAndProtected => "hidden-and-protected"@, CellProtect::None => "none"@, CellProtect::Protected => "protected"@, CellProtect::ProtectedFormulaHidden => "protected formula-hidden"@ } } }
impl CellProtect {
//@fn file=src/style/units.rs path=CellProtect::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=WritingDirection
//@end
impl Shown for WritingDirection { spec fn shown(&self) -> Seq<char> { match self { WritingDirection::Ltr => "ltr"@, WritingDirection::Ttb => "ttb"@ } } }
impl WritingDirection {
//@fn file=src/style/units.rs path=WritingDirection::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=TextRelief
//@end
impl Shown for TextRelief { spec fn shown(&self) -> Seq<char> { match self { TextRelief::None => "none"@, TextRelief::Embossed => "embossed"@, TextRelief::Engraved => "engraved"@ } } }
impl TextRelief {
//@fn file=src/style/units.rs path=TextRelief::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=GlyphOrientation
//@end
impl Shown for GlyphOrientation { spec fn shown(&self) -> Seq<char> { match self { GlyphOrientation::Auto => "auto"@, GlyphOrientation::Zero => "0"@, GlyphOrientation::Angle(a) => a.shown() } } }
impl GlyphOrientation {
//@fn file=src/style/units.rs path=GlyphOrientation::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=LineBreak
//@end
impl Shown for LineBreak { spec fn shown(&self) -> Seq<char> { match self { LineBreak::Normal => "normal"@, LineBreak::Strict => "strict"@ } } }
impl LineBreak {
//@fn file=src/style/units.rs path=LineBreak::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=StyleNumFormat
//@end
impl Shown for StyleNumFormat { spec fn shown(&self) -> Seq<char> { match self { StyleNumFormat::None => ""@, StyleNumFormat::Number => "1"@, StyleNumFormat::LowerAlpha => "a"@, StyleNumFormat::Alpha => "A"@, StyleNumFormat::LowerRoman => "i"@, StyleNumFormat::Roman => "I"@, StyleNumFormat::Text(v) => v.shown() } } }
impl StyleNumFormat {
//@fn file=src/style/units.rs path=StyleNumFormat::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=PageNumber
//@end
impl Shown for PageNumber { spec fn shown(&self) -> Seq<char> { match self { PageNumber::Auto => "auto"@, PageNumber::Number(v) => v.shown() } } }
impl PageNumber {
//@fn file=src/style/units.rs path=PageNumber::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=PrintContent
//@end
impl Shown for PrintContent { spec fn shown(&self) -> Seq<char> { match self { PrintContent::Headers => "headers"@, PrintContent::Grid => "grid"@, PrintContent::Annotations => "annotations"@, PrintContent::Objects => "objects"@, PrintContent::Charts => "charts"@, PrintContent::Drawings => "drawings"@, PrintContent::Formulas => "formulas"@, PrintContent::ZeroValues => "zero-values"@ } } }
impl PrintContent {
//@fn file=src/style/units.rs path=PrintContent::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=PrintOrder
//@end
impl Shown for PrintOrder { spec fn shown(&self) -> Seq<char> { match self { PrintOrder::Ltr => "ltr"@, PrintOrder::Ttb => "ttb"@ } } }
impl PrintOrder {
//@fn file=src/style/units.rs path=PrintOrder::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=PrintOrientation
//@end
impl Shown for PrintOrientation { spec fn shown(&self) -> Seq<char> { match self { PrintOrientation::Landscape => "landscape"@, PrintOrientation::Portrait => "portrait"@ } } }
impl PrintOrientation {
//@fn file=src/style/units.rs path=PrintOrientation::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=PunctuationWrap
//@end
impl Shown for PunctuationWrap { spec fn shown(&self) -> Seq<char> { match self { PunctuationWrap::Hanging => "hanging"@, PunctuationWrap::Simple => "simple"@ } } }
impl PunctuationWrap {
//@fn file=src/style/units.rs path=PunctuationWrap::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=RelativeScale
//@end
impl Shown for RelativeScale { spec fn shown(&self) -> Seq<char> { match self { RelativeScale::Scale => "scale"@, RelativeScale::ScaleMin => "scale-min"@, RelativeScale::Percent(v) => v.shown() } } }
impl RelativeScale {
//@fn file=src/style/units.rs path=RelativeScale::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=RotationAlign
//@end
impl Shown for RotationAlign { spec fn shown(&self) -> Seq<char> { match self { RotationAlign::None => "none"@, RotationAlign::Bottom => "bottom"@, RotationAlign::Top => "top"@, RotationAlign::Center => "center"@ } } }
impl RotationAlign {
//@fn file=src/style/units.rs path=RotationAlign::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=PrintCentering
//@end
impl Shown for PrintCentering { spec fn shown(&self) -> Seq<char> { match self { PrintCentering::None => "none"@, PrintCentering::Horizontal => "horizontal"@, PrintCentering::Vertical => "vertical"@, PrintCentering::Both => "both"@ } } }
impl PrintCentering {
//@fn file=src/style/units.rs path=PrintCentering::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=TextAlignSource
//@end
impl Shown for TextAlignSource { spec fn shown(&self) -> Seq<char> { match self { TextAlignSource::Fix => "fix"@, TextAlignSource::ValueType => "value-type"@ } } }
impl TextAlignSource {
//@fn file=src/style/units.rs path=TextAlignSource::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=TextAutoSpace
//@end
impl Shown for TextAutoSpace { spec fn shown(&self) -> Seq<char> { match self { TextAutoSpace::IdeographAlpha => "ideograph-alpha"@, TextAutoSpace::None => "none"@ } } }
impl TextAutoSpace {
//@fn file=src/style/units.rs path=TextAutoSpace::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=TextCombine
//@end
impl Shown for TextCombine { spec fn shown(&self) -> Seq<char> { match self { TextCombine::None => "none"@, TextCombine::Letters => "letters"@, TextCombine::Lines => "lines"@ } } }
impl TextCombine {
//@fn file=src/style/units.rs path=TextCombine::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=TextEmphasize
//@end
impl Shown for TextEmphasize { spec fn shown(&self) -> Seq<char> { match self { TextEmphasize::None => "none"@, TextEmphasize::Accent => "accent"@, TextEmphasize::Circle => "circle"@, TextEmphasize::Disc => "disc"@, TextEmphasize::Dot => "dot"@ } } }
impl TextEmphasize {
//@fn file=src/style/units.rs path=TextEmphasize::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=TextEmphasizePosition
//@end
impl Shown for TextEmphasizePosition { spec fn shown(&self) -> Seq<char> { match self { TextEmphasizePosition::Above => "above"@, TextEmphasizePosition::Below => "below"@ } } }
impl TextEmphasizePosition {
//@fn file=src/style/units.rs path=TextEmphasizePosition::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=LineMode
//@end
impl Shown for LineMode { spec fn shown(&self) -> Seq<char> { match self { LineMode::Continuous => "continuous"@, LineMode::SkipWhiteSpace => "skip-white-space"@ } } }
impl LineMode {
//@fn file=src/style/units.rs path=LineMode::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=LineStyle
//@end
impl Shown for LineStyle { spec fn shown(&self) -> Seq<char> { match self { LineStyle::Dash => "dash"@, LineStyle::DotDash => "dot-dash"@, LineStyle::DotDotDash => "dot-dot-dash"@, LineStyle::Dotted => "dotted"@, LineStyle::LongDash => "long-dash"@, LineStyle::None => "none"@, LineStyle::Solid => "solid"@, LineStyle::Wave => "wave"@ } } }
impl LineStyle {
//@fn file=src/style/units.rs path=LineStyle::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=LineType
//@end
impl Shown for LineType { spec fn shown(&self) -> Seq<char> { match self { LineType::None => "none"@, LineType::Single => "single"@, LineType::Double => "double"@ } } }
impl LineType {
//@fn file=src/style/units.rs path=LineType::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=LineWidth
//@end
impl Shown for LineWidth { spec fn shown(&self) -> Seq<char> { match self { LineWidth::Auto => "auto"@, LineWidth::Bold => "bold"@, LineWidth::Percent(v) => v.shown(), LineWidth::Int(v) => v.shown(), LineWidth::Length(v) => v.shown(), LineWidth::Normal => "normal"@, LineWidth::Dash => "dash"@, LineWidth::Thin => "thin"@, LineWidth::Medium => "medium"@, LineWidth::Thick => "thick"@ } } }
impl LineWidth {
//@fn file=src/style/units.rs path=LineWidth::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=TextPosition
//@end
impl Shown for TextPosition { spec fn shown(&self) -> Seq<char> { match self { TextPosition::Sub => "sub"@, TextPosition::Super => "super"@, TextPosition::Percent(v) => v.shown() } } }
impl TextPosition {
//@fn file=src/style/units.rs path=TextPosition::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=RotationScale
//@end
impl Shown for RotationScale { spec fn shown(&self) -> Seq<char> { match self { RotationScale::Fixed => "fixed"@, RotationScale::LineHeight => "line-height"@ } } }
impl RotationScale {
//@fn file=src/style/units.rs path=RotationScale::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=ParaAlignVertical
//@end
impl Shown for ParaAlignVertical { spec fn shown(&self) -> Seq<char> { match self { ParaAlignVertical::Top => "top"@, ParaAlignVertical::Middle => "middle"@, ParaAlignVertical::Bottom => "bottom"@, ParaAlignVertical::Auto => "auto"@, ParaAlignVertical::Baseline => "baseline"@ } } }
impl ParaAlignVertical {
//@fn file=src/style/units.rs path=ParaAlignVertical::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=CellAlignVertical
//@end
impl Shown for CellAlignVertical { spec fn shown(&self) -> Seq<char> { match self { CellAlignVertical::Top => "top"@, CellAlignVertical::Middle => "middle"@, CellAlignVertical::Bottom => "bottom"@, CellAlignVertical::Automatic => "automatic"@ } } }
impl CellAlignVertical {
//@fn file=src/style/units.rs path=CellAlignVertical::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=WritingMode
//@end
impl Shown for WritingMode { spec fn shown(&self) -> Seq<char> { match self { WritingMode::LrTb => "lr-tb"@, WritingMode::RlTb => "rl-tb"@, WritingMode::TbRl => "tb-rl"@, WritingMode::TbLr => "tb-lr"@, WritingMode::Lr => "lr"@, WritingMode::Rl => "rl"@, WritingMode::Tb => "tb"@, WritingMode::Page => "page"@ } } }
impl WritingMode {
//@fn file=src/style/units.rs path=WritingMode::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=TableAlign
//@end
impl Shown for TableAlign { spec fn shown(&self) -> Seq<char> { match self { TableAlign::Center => "center"@, TableAlign::Left => "left"@, TableAlign::Right => "right"@, TableAlign::Margins => "margins"@ } } }
impl TableAlign {
//@fn file=src/style/units.rs path=TableAlign::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=TableBorderModel
//@end
impl Shown for TableBorderModel { spec fn shown(&self) -> Seq<char> { match self { TableBorderModel::Collapsing => "collapsing"@, TableBorderModel::Separating => "separating"@ } } }
impl TableBorderModel {
//@fn file=src/style/units.rs path=TableBorderModel::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=TextCondition
//@end
impl Shown for TextCondition { spec fn shown(&self) -> Seq<char> { match self { TextCondition::None => "none"@ } } }
impl TextCondition {
//@fn file=src/style/units.rs path=TextCondition::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/style/units.rs name=TextDisplay
//@end
impl Shown for TextDisplay { spec fn shown(&self) -> Seq<char> { match self { TextDisplay::None => "none"@, TextDisplay::Condition => "condition"@, TextDisplay::True => "true"@ } } }
impl TextDisplay {
//@fn file=src/style/units.rs path=TextDisplay::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/xlink.rs name=XLinkActuate
//@end
impl Shown for XLinkActuate { spec fn shown(&self) -> Seq<char> { match self { XLinkActuate::OnLoad => "onLoad"@, XLinkActuate::OnRequest => "onRequest"@ } } }
impl XLinkActuate {
//@fn file=src/xlink.rs path=XLinkActuate::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/xlink.rs name=XLinkShow
//@end
impl Shown for XLinkShow { spec fn shown(&self) -> Seq<char> { match self { XLinkShow::New => "new"@, XLinkShow::Replace => "replace"@ } } }
impl XLinkShow {
//@fn file=src/xlink.rs path=XLinkShow::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/xlink.rs name=XLinkType
//@end
impl Shown for XLinkType { spec fn shown(&self) -> Seq<char> { match self { XLinkType::Simple => "simple"@, XLinkType::Extended => "extended"@, XLinkType::Locator => "locator"@, XLinkType::Arc => "arc"@, XLinkType::Resource => "resource"@, XLinkType::Title => "title"@, XLinkType::None => "none"@ } } }
impl XLinkType {
//@fn file=src/xlink.rs path=XLinkType::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/format/mod.rs name=FormatNumberStyle
//@end
impl Shown for FormatNumberStyle { spec fn shown(&self) -> Seq<char> { match self { FormatNumberStyle::Short => "short"@, FormatNumberStyle::Long => "long"@ } } }
impl FormatNumberStyle {
//@fn file=src/format/mod.rs path=FormatNumberStyle::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/format/mod.rs name=FormatCalendarStyle
//@end
impl Shown for FormatCalendarStyle { spec fn shown(&self) -> Seq<char> { match self { FormatCalendarStyle::Gregorian => "gregorian"@, FormatCalendarStyle::Gengou => "gengou"@, FormatCalendarStyle::Roc => "ROC"@, FormatCalendarStyle::Hanja => "hanja"@, FormatCalendarStyle::Hijri => "hijri"@, FormatCalendarStyle::Jewish => "jewish"@, FormatCalendarStyle::Buddhist => "buddhist"@ } } }
impl FormatCalendarStyle {
//@fn file=src/format/mod.rs path=FormatCalendarStyle::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/sheet_.rs name=Visibility
//@end
impl Shown for Visibility { spec fn shown(&self) -> Seq<char> { match self { Visibility::Visible => "visible"@, Visibility::Collapsed => "collapse"@, Visibility::Filtered => "filter"@ } } }
impl Visibility {
//@fn file=src/sheet_.rs path=Visibility::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
//@struct file=src/validation.rs name=MessageType
//@end
impl Shown for MessageType { spec fn shown(&self) -> Seq<char> { match self { MessageType::Error => "stop"@, MessageType::Warning => "warning"@, MessageType::Info => "information"@ } } }
impl MessageType {
//@fn file=src/validation.rs path=MessageType::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r.is_ok(), final(f)@ =~= old(f)@ + self.shown(),
//@at start
    proof { assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); assert(forall|a: Seq<char>| #[trigger] (a + ""@) =~= a) by { reveal_strlit(""); } }
//@end
}
// ------------------------------------------------------------------ composed attribute texts
spec fn sp_color_string(c: Rgb<u8>) -> Seq<char> { "#"@ + hex2(c.r) + hex2(c.g) + hex2(c.b) }
spec fn sp_border_string(w: Length, b: Border, c: Rgb<u8>) -> Seq<char> { w.shown() + " "@ + b.shown() + " "@ + sp_color_string(c) }
spec fn sp_border_line_width_string(a: Length, b: Length, c: Length) -> Seq<char> { a.shown() + " "@ + b.shown() + " "@ + c.shown() }
spec fn sp_shadow_string(x: Length, y: Length, blur: Option<Length>, c: Rgb<u8>) -> Seq<char> {
    sp_color_string(c) + " "@ + x.shown() + " "@ + y.shown() + (match blur { Some(b) => " "@ + b.shown(), None => Seq::<char>::empty() })
}
spec fn sp_rel_width_string(v: f64) -> Seq<char> { f64_text(v) + "*"@ }
spec fn sp_text_position(p: TextPosition, s: Option<Percent>) -> Seq<char> { match s { Some(q) => p.shown() + " "@ + q.shown(), None => p.shown() } }
proof fn assoc() ensures forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c), forall|a: Seq<char>| #[trigger] (Seq::<char>::empty() + a) =~= a, forall|a: Seq<char>| #[trigger] (a + Seq::<char>::empty()) =~= a, "# "@ =~= "#"@ + " "@, " #"@ =~= " "@ + "#"@
{ reveal_strlit(" #"); reveal_strlit("# "); reveal_strlit(" "); reveal_strlit("#"); }
//@fn file=src/style/mod.rs path=color_string
//@params color
//@ret r
//@spec
    ensures r@ == sp_color_string(color),
//@at start
    proof { assoc(); }
//@end
//@fn file=src/style/mod.rs path=shadow_string
//@params x_offset y_offset blur color
//@ret r
//@spec
    ensures r@ == sp_shadow_string(x_offset, y_offset, blur, color),
//@at start
    proof { assoc(); }
//@end
//@fn file=src/style/mod.rs path=rel_width_string
//@params value
//@ret r
//@spec
    ensures r@ == sp_rel_width_string(value),
//@at start
    proof { assoc(); }
//@end
//@fn file=src/style/mod.rs path=border_string
//@params width border color
//@ret r
//@spec
    ensures r@ == sp_border_string(width, border, color),
//@at start
    proof { assoc(); }
//@end
//@fn file=src/style/mod.rs path=border_line_width_string
//@params inner space outer
//@ret r
//@spec
    ensures r@ == sp_border_line_width_string(inner, space, outer),
//@at start
    proof { assoc(); }
//@end
//@fn file=src/style/mod.rs path=text_position
//@params pos scale
//@ret r
//@spec
    ensures r@ == sp_text_position(pos, scale),
//@at start
    proof { assoc(); }
//@end
//@include locale.inc.rs
spec fn sp_font(m: IMap<Seq<char>, Seq<char>>, size: FontSize, bold: bool, italic: bool, ks: Seq<char>, kw: Seq<char>, ki: Seq<char>) -> IMap<Seq<char>, Seq<char>> {
    let m1 = m.insert(ks, size.shown());
    let m2 = if bold { m1.insert(kw, FontWeight::Bold.shown()) } else { m1 };
    if italic { m2.insert(ki, "italic"@) } else { m2 }
}
struct MasterPageRef { id: String }
struct ParagraphStyleRef { id: String }
struct TextStyleRef { id: String }
impl MasterPageRef { spec fn text(&self) -> Seq<char> { self.id@ } fn as_str(&self) -> (r: &str) ensures r@ == self.text() { self.id.as_str() } }
impl ParagraphStyleRef { spec fn text(&self) -> Seq<char> { self.id@ } fn as_str(&self) -> (r: &str) ensures r@ == self.text() { self.id.as_str() } }
impl TextStyleRef { spec fn text(&self) -> Seq<char> { self.id@ } fn as_str(&self) -> (r: &str) ensures r@ == self.text() { self.id.as_str() } }
// whether a value is refused is not part of the claim
impl Length { #[verifier::external_body] fn is_positive(&self) -> bool { unimplemented!() } }
impl Margin { #[verifier::external_body] fn is_positive(&self) -> bool { unimplemented!() } }
impl LineHeight { #[verifier::external_body] fn is_positive(&self) -> bool { unimplemented!() } }
impl FontSize { #[verifier::external_body] fn is_positive(&self) -> bool { unimplemented!() } }
fn vp_is_default(l: &Length) -> (r: bool) ensures r == (*l == Length::Default) { match l { Length::Default => true, _ => false } }

// ------------------------------------------------------------------ the typed setters
//@struct file=src/style/tablestyle.rs name=TableStyle
//@end
impl TableStyle {
//@fn file=src/macro_attr_style.rs path=set_master_page macro=style_master_page(attr) macro_in=src/style/tablestyle.rs
//@params masterpage
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("style:master-page-name"@, masterpage.text()), *final(self) == (TableStyle { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_background_color macro=fo_background_color(tablestyle) macro_in=src/style/tablestyle.rs
//@params color
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("fo:background-color"@, sp_color_string(color)), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_break_before macro=fo_break(tablestyle) macro_in=src/style/tablestyle.rs
//@params pagebreak
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("fo:break-before"@, pagebreak.shown()), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_break_after macro=fo_break(tablestyle) macro_in=src/style/tablestyle.rs
//@params pagebreak
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("fo:break-after"@, pagebreak.shown()), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_keep_with_next macro=fo_keep_with_next(tablestyle) macro_in=src/style/tablestyle.rs
//@params keep_with_next
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("fo:keep-with-next"@, keep_with_next.shown()), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin macro=fo_margin(tablestyle) macro_in=src/style/tablestyle.rs
//@params margin
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("fo:margin"@, margin.shown()), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_bottom macro=fo_margin(tablestyle) macro_in=src/style/tablestyle.rs
//@params margin
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("fo:margin-bottom"@, margin.shown()), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_left macro=fo_margin(tablestyle) macro_in=src/style/tablestyle.rs
//@params margin
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("fo:margin-left"@, margin.shown()), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_right macro=fo_margin(tablestyle) macro_in=src/style/tablestyle.rs
//@params margin
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("fo:margin-right"@, margin.shown()), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_top macro=fo_margin(tablestyle) macro_in=src/style/tablestyle.rs
//@params margin
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("fo:margin-top"@, margin.shown()), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_may_break_between_rows macro=style_may_break_between_rows(tablestyle) macro_in=src/style/tablestyle.rs
//@params br
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("style:may-break-between-rows"@, br.shown()), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_page_number macro=style_page_number(tablestyle) macro_in=src/style/tablestyle.rs
//@params page_number
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("style:page-number"@, page_number.shown()), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_rel_width macro=style_rel_width(tablestyle) macro_in=src/style/tablestyle.rs
//@params rel_width
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("style:rel-width"@, rel_width.shown()), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_width macro=style_width(tablestyle) macro_in=src/style/tablestyle.rs
//@params width
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("style:width"@, width.shown()), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_shadow macro=style_shadow(tablestyle) macro_in=src/style/tablestyle.rs
//@params x_offset y_offset blur color
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("style:shadow"@, sp_shadow_string(x_offset, y_offset, blur, color)), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_writing_mode macro=style_writing_mode(tablestyle) macro_in=src/style/tablestyle.rs
//@params writing_mode
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("style:writing-mode"@, writing_mode.shown()), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_table.rs path=set_align macro=table_align(tablestyle) macro_in=src/style/tablestyle.rs
//@params align
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("table:align"@, align.shown()), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_table.rs path=set_border_model macro=table_border_model(tablestyle) macro_in=src/style/tablestyle.rs
//@params border
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("table:border-model"@, border.shown()), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_table.rs path=set_display macro=table_display(tablestyle) macro_in=src/style/tablestyle.rs
//@params display
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("table:display"@, display.shown()), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
//@fn file=src/macro_attr_table.rs path=set_tab_color macro=table_tab_color(tablestyle) macro_in=src/style/tablestyle.rs
//@params color
//@spec
    requires old(self).tablestyle.wf(),
    ensures final(self).tablestyle@ == old(self).tablestyle@.insert("table:tab-color"@, sp_color_string(color)), *final(self) == (TableStyle { tablestyle: final(self).tablestyle, ..*old(self) }), final(self).tablestyle.wf(),
//@end
}
//@struct file=src/style/rowstyle.rs name=RowStyle
//@end
impl RowStyle {
//@fn file=src/macro_attr_fo.rs path=set_background_color macro=fo_background_color(rowstyle) macro_in=src/style/rowstyle.rs
//@params color
//@spec
    requires old(self).rowstyle.wf(),
    ensures final(self).rowstyle@ == old(self).rowstyle@.insert("fo:background-color"@, sp_color_string(color)), *final(self) == (RowStyle { rowstyle: final(self).rowstyle, ..*old(self) }), final(self).rowstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_break_before macro=fo_break(rowstyle) macro_in=src/style/rowstyle.rs
//@params pagebreak
//@spec
    requires old(self).rowstyle.wf(),
    ensures final(self).rowstyle@ == old(self).rowstyle@.insert("fo:break-before"@, pagebreak.shown()), *final(self) == (RowStyle { rowstyle: final(self).rowstyle, ..*old(self) }), final(self).rowstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_break_after macro=fo_break(rowstyle) macro_in=src/style/rowstyle.rs
//@params pagebreak
//@spec
    requires old(self).rowstyle.wf(),
    ensures final(self).rowstyle@ == old(self).rowstyle@.insert("fo:break-after"@, pagebreak.shown()), *final(self) == (RowStyle { rowstyle: final(self).rowstyle, ..*old(self) }), final(self).rowstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_keep_together macro=fo_keep_together(rowstyle) macro_in=src/style/rowstyle.rs
//@params keep_together
//@spec
    requires old(self).rowstyle.wf(),
    ensures final(self).rowstyle@ == old(self).rowstyle@.insert("fo:keep-together"@, keep_together.shown()), *final(self) == (RowStyle { rowstyle: final(self).rowstyle, ..*old(self) }), final(self).rowstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_min_row_height macro=style_min_row_height(rowstyle) macro_in=src/style/rowstyle.rs
//@params min_height
//@spec
    requires old(self).rowstyle.wf(),
    ensures final(self).rowstyle@ == old(self).rowstyle@.insert("style:min-row-height"@, min_height.shown()), *final(self) == (RowStyle { rowstyle: final(self).rowstyle, ..*old(self) }), final(self).rowstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_row_height macro=style_row_height(rowstyle) macro_in=src/style/rowstyle.rs
//@params height
//@spec
    requires old(self).rowstyle.wf(),
    ensures final(self).rowstyle@ == old(self).rowstyle@.insert("style:row-height"@, height.shown()), *final(self) == (RowStyle { rowstyle: final(self).rowstyle, ..*old(self) }), final(self).rowstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_use_optimal_row_height macro=style_use_optimal_row_height(rowstyle) macro_in=src/style/rowstyle.rs
//@params opt
//@spec
    requires old(self).rowstyle.wf(),
    ensures final(self).rowstyle@ == old(self).rowstyle@.insert("style:use-optimal-row-height"@, opt.shown()), *final(self) == (RowStyle { rowstyle: final(self).rowstyle, ..*old(self) }), final(self).rowstyle.wf(),
//@end
}
//@struct file=src/style/colstyle.rs name=ColStyle
//@end
impl ColStyle {
//@fn file=src/macro_attr_fo.rs path=set_break_before macro=fo_break(colstyle) macro_in=src/style/colstyle.rs
//@params pagebreak
//@spec
    requires old(self).colstyle.wf(),
    ensures final(self).colstyle@ == old(self).colstyle@.insert("fo:break-before"@, pagebreak.shown()), *final(self) == (ColStyle { colstyle: final(self).colstyle, ..*old(self) }), final(self).colstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_break_after macro=fo_break(colstyle) macro_in=src/style/colstyle.rs
//@params pagebreak
//@spec
    requires old(self).colstyle.wf(),
    ensures final(self).colstyle@ == old(self).colstyle@.insert("fo:break-after"@, pagebreak.shown()), *final(self) == (ColStyle { colstyle: final(self).colstyle, ..*old(self) }), final(self).colstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_col_width macro=style_column_width(colstyle) macro_in=src/style/colstyle.rs
//@params width
//@spec
    requires old(self).colstyle.wf(),
    ensures final(self).colstyle@ == (if width == Length::Default { old(self).colstyle@.remove("style:column-width"@) } else { old(self).colstyle@.insert("style:column-width"@, width.shown()) }), *final(self) == (ColStyle { colstyle: final(self).colstyle, ..*old(self) }), final(self).colstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_rel_col_width macro=style_rel_column_width(colstyle) macro_in=src/style/colstyle.rs
//@params rel
//@spec
    requires old(self).colstyle.wf(),
    ensures final(self).colstyle@ == old(self).colstyle@.insert("style:rel-column-width"@, sp_rel_width_string(rel)), *final(self) == (ColStyle { colstyle: final(self).colstyle, ..*old(self) }), final(self).colstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_use_optimal_col_width macro=style_use_optimal_column_width(colstyle) macro_in=src/style/colstyle.rs
//@params opt
//@spec
    requires old(self).colstyle.wf(),
    ensures final(self).colstyle@ == old(self).colstyle@.insert("style:use-optimal-column-width"@, opt.shown()), *final(self) == (ColStyle { colstyle: final(self).colstyle, ..*old(self) }), final(self).colstyle.wf(),
//@end
}
//@struct file=src/style/cellstyle.rs name=CellStyle
//@end
impl CellStyle {
//@fn file=src/macro_attr_fo.rs path=set_background_color macro=fo_background_color(cellstyle) macro_in=src/style/cellstyle.rs
//@params color
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("fo:background-color"@, sp_color_string(color)), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border macro=fo_border(cellstyle) macro_in=src/style/cellstyle.rs
//@params width border color
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("fo:border"@, sp_border_string(width, border, color)), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_bottom macro=fo_border(cellstyle) macro_in=src/style/cellstyle.rs
//@params width border color
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("fo:border-bottom"@, sp_border_string(width, border, color)), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_left macro=fo_border(cellstyle) macro_in=src/style/cellstyle.rs
//@params width border color
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("fo:border-left"@, sp_border_string(width, border, color)), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_right macro=fo_border(cellstyle) macro_in=src/style/cellstyle.rs
//@params width border color
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("fo:border-right"@, sp_border_string(width, border, color)), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_top macro=fo_border(cellstyle) macro_in=src/style/cellstyle.rs
//@params width border color
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("fo:border-top"@, sp_border_string(width, border, color)), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding macro=fo_padding(cellstyle) macro_in=src/style/cellstyle.rs
//@params padding
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("fo:padding"@, padding.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_bottom macro=fo_padding(cellstyle) macro_in=src/style/cellstyle.rs
//@params padding
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("fo:padding-bottom"@, padding.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_left macro=fo_padding(cellstyle) macro_in=src/style/cellstyle.rs
//@params padding
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("fo:padding-left"@, padding.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_right macro=fo_padding(cellstyle) macro_in=src/style/cellstyle.rs
//@params padding
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("fo:padding-right"@, padding.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_top macro=fo_padding(cellstyle) macro_in=src/style/cellstyle.rs
//@params padding
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("fo:padding-top"@, padding.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_wrap_option macro=fo_wrap_option(cellstyle) macro_in=src/style/cellstyle.rs
//@params wrap
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("fo:wrap-option"@, wrap.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width macro=fo_border_line_width(cellstyle) macro_in=src/style/cellstyle.rs
//@params inner spacing outer
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:border-line-width"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_bottom macro=fo_border_line_width(cellstyle) macro_in=src/style/cellstyle.rs
//@params inner spacing outer
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:border-line-width-bottom"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_left macro=fo_border_line_width(cellstyle) macro_in=src/style/cellstyle.rs
//@params inner spacing outer
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:border-line-width-left"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_right macro=fo_border_line_width(cellstyle) macro_in=src/style/cellstyle.rs
//@params inner spacing outer
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:border-line-width-right"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_top macro=fo_border_line_width(cellstyle) macro_in=src/style/cellstyle.rs
//@params inner spacing outer
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:border-line-width-top"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_cell_protect macro=style_cell_protect(cellstyle) macro_in=src/style/cellstyle.rs
//@params protect
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:cell-protect"@, protect.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_decimal_places macro=style_decimal_places(cellstyle) macro_in=src/style/cellstyle.rs
//@params dec
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:decimal-places"@, dec.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_diagonal_bl_tr macro=style_diagonal(cellstyle) macro_in=src/style/cellstyle.rs
//@params width border color
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:diagonal-bl-tr"@, sp_border_string(width, border, color)), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_diagonal_bl_tr_widths macro=style_diagonal(cellstyle) macro_in=src/style/cellstyle.rs
//@params inner spacing outer
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:diagonal-bl-tr-widths"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_diagonal_tl_br macro=style_diagonal(cellstyle) macro_in=src/style/cellstyle.rs
//@params width border color
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:diagonal-tl-br"@, sp_border_string(width, border, color)), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_diagonal_tl_br_widths macro=style_diagonal(cellstyle) macro_in=src/style/cellstyle.rs
//@params inner spacing outer
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:diagonal-tl-br-widths"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_direction macro=style_direction(cellstyle) macro_in=src/style/cellstyle.rs
//@params direction
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:direction"@, direction.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_glyph_orientation_vertical macro=style_glyph_orientation_vertical(cellstyle) macro_in=src/style/cellstyle.rs
//@params glyph_orientation
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:glyph-orientation-vertical"@, glyph_orientation.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_print_content macro=style_print_content(cellstyle) macro_in=src/style/cellstyle.rs
//@params print
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:print-content"@, print.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_repeat_content macro=style_repeat_content(cellstyle) macro_in=src/style/cellstyle.rs
//@params print
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:repeat-content"@, print.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_rotation_align macro=style_rotation_align(cellstyle) macro_in=src/style/cellstyle.rs
//@params align
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:rotation-align"@, align.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_rotation_angle macro=style_rotation_angle(cellstyle) macro_in=src/style/cellstyle.rs
//@params angle
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:rotation-angle"@, angle.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_shadow macro=style_shadow(cellstyle) macro_in=src/style/cellstyle.rs
//@params x_offset y_offset blur color
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:shadow"@, sp_shadow_string(x_offset, y_offset, blur, color)), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_shrink_to_fit macro=style_shrink_to_fit(cellstyle) macro_in=src/style/cellstyle.rs
//@params shrink
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:shrink-to-fit"@, shrink.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_align_source macro=style_text_align_source(cellstyle) macro_in=src/style/cellstyle.rs
//@params align
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:text-align-source"@, align.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_vertical_align macro=style_vertical_align(cellstyle) macro_in=src/style/cellstyle.rs
//@params align
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:vertical-align"@, align.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_writing_mode macro=style_writing_mode(cellstyle) macro_in=src/style/cellstyle.rs
//@params writing_mode
//@spec
    requires old(self).cellstyle.wf(),
    ensures final(self).cellstyle@ == old(self).cellstyle@.insert("style:writing-mode"@, writing_mode.shown()), *final(self) == (CellStyle { cellstyle: final(self).cellstyle, ..*old(self) }), final(self).cellstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_break_before macro=fo_break(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params pagebreak
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:break-before"@, pagebreak.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_break_after macro=fo_break(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params pagebreak
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:break-after"@, pagebreak.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenation_keep macro=fo_hyphenation(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params hyphenation
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:hyphenation-keep"@, hyphenation.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenation_ladder_count macro=fo_hyphenation(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params hyphenation
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:hyphenation-ladder-count"@, hyphenation.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_keep_together macro=fo_keep_together(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params keep_together
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:keep-together"@, keep_together.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_keep_with_next macro=fo_keep_with_next(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params keep_with_next
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:keep-with-next"@, keep_with_next.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_line_height macro=fo_line_height(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params line_height
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:line-height"@, line_height.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin macro=fo_margin(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params margin
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:margin"@, margin.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_bottom macro=fo_margin(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params margin
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:margin-bottom"@, margin.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_left macro=fo_margin(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params margin
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:margin-left"@, margin.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_right macro=fo_margin(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params margin
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:margin-right"@, margin.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_top macro=fo_margin(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params margin
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:margin-top"@, margin.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_orphans macro=fo_orphans(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params orphans
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:orphans"@, orphans.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_align macro=fo_text_align(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params align
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:text-align"@, align.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_align_last macro=fo_text_align_last(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params align
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:text-align-last"@, align.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_indent macro=fo_text_indent(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params indent
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:text-indent"@, indent.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_widows macro=fo_widows(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params num
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:widows"@, num.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_auto_text_indent macro=style_auto_text_indent(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params indent
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:auto-text-indent"@, indent.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_background_transpareny macro=style_background_transparency(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params percent
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:background-transparency"@, percent.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_contextual_spacing macro=style_contextual_spacing(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params spacing
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:contextual-spacing"@, spacing.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_independent_line_spacing macro=style_font_independent_line_spacing(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params spacing
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:font-independent-line-spacing"@, spacing.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_join_border macro=style_join_border(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params join
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:join-border"@, join.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_justify_single_word macro=style_justify_single_word(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params justify
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:justify-single-word"@, justify.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_line_break macro=style_line_break(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params linebreak
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:line-break"@, linebreak.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_line_height_at_least macro=style_line_height_at_least(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params height
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:line-height-at-least"@, height.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_line_spacing macro=style_line_spacing(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params spacing
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:line-spacing"@, spacing.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_page_number macro=style_page_number(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params page_number
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:page-number"@, page_number.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_punctuation_wrap macro=style_punctuation_wrap(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params wrap
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:punctuation-wrap"@, wrap.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_register_true macro=style_register_true(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params register
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:register-true"@, register.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_snap_to_layout_grid macro=style_snap_to_layout_grid(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params snap
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:snap-to-layout-grid"@, snap.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_tab_stop_distance macro=style_tab_stop_distance(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params tab
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:tab-stop-distance"@, tab.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_autospace macro=style_text_autospace(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params space
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:text-autospace"@, space.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_vertical_align_para macro=style_vertical_align_para(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params align
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:vertical-align"@, align.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_writing_mode_automatic macro=style_writing_mode_automatic(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params auto
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:writing-mode-automatic"@, auto.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_line_number macro=style_line_number(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params line
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("text:line-number"@, line.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_number_lines macro=style_number_lines(paragraphstyle) macro_in=src/style/cellstyle.rs
//@params lines
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("text:number-lines"@, lines.shown()), *final(self) == (CellStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_color macro=fo_color(textstyle) macro_in=src/style/cellstyle.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:color"@, sp_color_string(color)), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_locale macro=fo_locale(textstyle) macro_in=src/style/cellstyle.rs
//@params locale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_locale(old(self).textstyle@, locale, "fo:language"@, "fo:country"@, "fo:script"@), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_name macro=style_font_name(textstyle) macro_in=src/style/cellstyle.rs
//@params name
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-name"@, name@), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_size macro=fo_font_size(textstyle) macro_in=src/style/cellstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-size"@, size.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_size_rel macro=fo_font_size_rel(textstyle) macro_in=src/style/cellstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-rel"@, size.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_style macro=fo_font_style(textstyle) macro_in=src/style/cellstyle.rs
//@params style
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-style"@, style.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_italic macro=fo_font_style(textstyle) macro_in=src/style/cellstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-style"@, "italic"@), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_weight macro=fo_font_weight(textstyle) macro_in=src/style/cellstyle.rs
//@params weight
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-weight"@, weight.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_bold macro=fo_font_weight(textstyle) macro_in=src/style/cellstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-weight"@, FontWeight::Bold.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_variant macro=fo_font_variant(textstyle) macro_in=src/style/cellstyle.rs
//@params var
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-variant"@, var.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_attr macro=fo_font_attr(textstyle) macro_in=src/style/cellstyle.rs
//@params size bold italic
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_font(old(self).textstyle@, size, bold, italic, "fo:font-size"@, "fo:font-weight"@, "fo:font-style"@), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_locale_asian macro=style_locale_asian(textstyle) macro_in=src/style/cellstyle.rs
//@params locale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_locale(old(self).textstyle@, locale, "style:language-asian"@, "style:country-asian"@, "style:script-asian"@), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_name_asian macro=style_font_name_asian(textstyle) macro_in=src/style/cellstyle.rs
//@params name
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-name-asian"@, name@), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_asian macro=style_font_size_asian(textstyle) macro_in=src/style/cellstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-asian"@, size.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_rel_asian macro=style_font_size_rel_asian(textstyle) macro_in=src/style/cellstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-rel-asian"@, size.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_style_asian macro=style_font_style_asian(textstyle) macro_in=src/style/cellstyle.rs
//@params style
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-asian"@, style.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_italic_asian macro=style_font_style_asian(textstyle) macro_in=src/style/cellstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-asian"@, "italic"@), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_weight_asian macro=style_font_weight_asian(textstyle) macro_in=src/style/cellstyle.rs
//@params weight
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-asian"@, weight.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_bold_asian macro=style_font_weight_asian(textstyle) macro_in=src/style/cellstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-asian"@, FontWeight::Bold.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_attr_asian macro=style_font_attr_asian(textstyle) macro_in=src/style/cellstyle.rs
//@params size bold italic
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_font(old(self).textstyle@, size, bold, italic, "style:font-size-asian"@, "style:font-weight-asian"@, "style:font-style-asian"@), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_locale_complex macro=style_locale_complex(textstyle) macro_in=src/style/cellstyle.rs
//@params locale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_locale(old(self).textstyle@, locale, "style:language-complex"@, "style:country-complex"@, "style:script-complex"@), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_name_complex macro=style_font_name_complex(textstyle) macro_in=src/style/cellstyle.rs
//@params name
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-name-complex"@, name@), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_complex macro=style_font_size_complex(textstyle) macro_in=src/style/cellstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-complex"@, size.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_rel_complex macro=style_font_size_rel_complex(textstyle) macro_in=src/style/cellstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-rel-complex"@, size.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_style_complex macro=style_font_style_complex(textstyle) macro_in=src/style/cellstyle.rs
//@params style
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-complex"@, style.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_italic_complex macro=style_font_style_complex(textstyle) macro_in=src/style/cellstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-complex"@, "italic"@), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_weight_complex macro=style_font_weight_complex(textstyle) macro_in=src/style/cellstyle.rs
//@params weight
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-complex"@, weight.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_bold_complex macro=style_font_weight_complex(textstyle) macro_in=src/style/cellstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-complex"@, FontWeight::Bold.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_attr_complex macro=style_font_attr_complex(textstyle) macro_in=src/style/cellstyle.rs
//@params size bold italic
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_font(old(self).textstyle@, size, bold, italic, "style:font-size-complex"@, "style:font-weight-complex"@, "style:font-style-complex"@), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenate macro=fo_hyphenate(textstyle) macro_in=src/style/cellstyle.rs
//@params hyphenate
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:hyphenate"@, hyphenate.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenation_push_char_count macro=fo_hyphenation_push_char_count(textstyle) macro_in=src/style/cellstyle.rs
//@params count
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:hyphenation-push-char-count"@, count.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenation_remain_char_count macro=fo_hyphenation_remain_char_count(textstyle) macro_in=src/style/cellstyle.rs
//@params count
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:hyphenation-remain-char-count"@, count.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_letter_spacing macro=fo_letter_spacing(textstyle) macro_in=src/style/cellstyle.rs
//@params spacing
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:letter-spacing"@, spacing.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_shadow macro=fo_text_shadow(textstyle) macro_in=src/style/cellstyle.rs
//@params x_offset y_offset blur color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:text-shadow"@, sp_shadow_string(x_offset, y_offset, blur, color)), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_transform macro=fo_text_transform(textstyle) macro_in=src/style/cellstyle.rs
//@params trans
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:text-transform"@, trans.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_relief macro=style_font_relief(textstyle) macro_in=src/style/cellstyle.rs
//@params relief
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-relief"@, relief.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_position macro=style_text_position(textstyle) macro_in=src/style/cellstyle.rs
//@params pos scale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-position"@, sp_text_position(pos, scale)), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_letter_kerning macro=style_letter_kerning(textstyle) macro_in=src/style/cellstyle.rs
//@params kerning
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:letter-kerning"@, kerning.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_combine macro=style_text_combine(textstyle) macro_in=src/style/cellstyle.rs
//@params pos
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-combine"@, pos.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_combine_start_char macro=style_text_combine_start_char(textstyle) macro_in=src/style/cellstyle.rs
//@params c
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-combine-start-char"@, c.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_combine_end_char macro=style_text_combine_end_char(textstyle) macro_in=src/style/cellstyle.rs
//@params c
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-combine-end-char"@, c.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_emphasize macro=style_text_emphasize(textstyle) macro_in=src/style/cellstyle.rs
//@params emphasize position
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-emphasize"@, emphasize.shown() + " "@ + position.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_color macro=style_text_line_through(textstyle) macro_in=src/style/cellstyle.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-color"@, sp_color_string(color)), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_mode macro=style_text_line_through(textstyle) macro_in=src/style/cellstyle.rs
//@params lmode
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-mode"@, lmode.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_style macro=style_text_line_through(textstyle) macro_in=src/style/cellstyle.rs
//@params lstyle
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-style"@, lstyle.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_text macro=style_text_line_through(textstyle) macro_in=src/style/cellstyle.rs
//@params text
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-text"@, text@), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_text_style macro=style_text_line_through(textstyle) macro_in=src/style/cellstyle.rs
//@params style_ref
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-text-style"@, style_ref.text()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_type macro=style_text_line_through(textstyle) macro_in=src/style/cellstyle.rs
//@params ltype
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-type"@, ltype.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_width macro=style_text_line_through(textstyle) macro_in=src/style/cellstyle.rs
//@params lwidth
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-width"@, lwidth.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_text_outline macro=style_text_outline(textstyle) macro_in=src/style/cellstyle.rs
//@params outline
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-outline"@, outline.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_color macro=style_text_overline(textstyle) macro_in=src/style/cellstyle.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-color"@, sp_color_string(color)), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_mode macro=style_text_overline(textstyle) macro_in=src/style/cellstyle.rs
//@params lmode
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-mode"@, lmode.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_style macro=style_text_overline(textstyle) macro_in=src/style/cellstyle.rs
//@params lstyle
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-style"@, lstyle.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_type macro=style_text_overline(textstyle) macro_in=src/style/cellstyle.rs
//@params ltype
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-type"@, ltype.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_width macro=style_text_overline(textstyle) macro_in=src/style/cellstyle.rs
//@params lwidth
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-width"@, lwidth.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_color macro=style_text_underline(textstyle) macro_in=src/style/cellstyle.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-color"@, sp_color_string(color)), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_mode macro=style_text_underline(textstyle) macro_in=src/style/cellstyle.rs
//@params lmode
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-mode"@, lmode.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_style macro=style_text_underline(textstyle) macro_in=src/style/cellstyle.rs
//@params lstyle
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-style"@, lstyle.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_type macro=style_text_underline(textstyle) macro_in=src/style/cellstyle.rs
//@params ltype
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-type"@, ltype.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_width macro=style_text_underline(textstyle) macro_in=src/style/cellstyle.rs
//@params lwidth
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-width"@, lwidth.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_use_window_font_color macro=style_use_window_font_color(textstyle) macro_in=src/style/cellstyle.rs
//@params window_color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:use-window-font-color"@, window_color.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_text.rs path=set_text_condition macro=text_condition(textstyle) macro_in=src/style/cellstyle.rs
//@params cond
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("text:condition"@, cond.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_text.rs path=set_display macro=text_display(textstyle) macro_in=src/style/cellstyle.rs
//@params cond
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("text:display"@, cond.shown()), *final(self) == (CellStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
}
//@struct file=src/style/paragraphstyle.rs name=ParagraphStyle
//@end
impl ParagraphStyle {
//@fn file=src/macro_attr_style.rs path=set_default_outline_level macro=style_default_outline_level(attr) macro_in=src/style/paragraphstyle.rs
//@params level
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("style:default-outline-level"@, level.shown()), *final(self) == (ParagraphStyle { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_master_page macro=style_master_page(attr) macro_in=src/style/paragraphstyle.rs
//@params masterpage
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("style:master-page-name"@, masterpage.text()), *final(self) == (ParagraphStyle { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_next_style macro=style_next_style(attr) macro_in=src/style/paragraphstyle.rs
//@params name
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("style:next-style-name"@, name.text()), *final(self) == (ParagraphStyle { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_background_color macro=fo_background_color(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params color
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:background-color"@, sp_color_string(color)), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border macro=fo_border(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params width border color
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:border"@, sp_border_string(width, border, color)), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_bottom macro=fo_border(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params width border color
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:border-bottom"@, sp_border_string(width, border, color)), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_left macro=fo_border(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params width border color
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:border-left"@, sp_border_string(width, border, color)), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_right macro=fo_border(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params width border color
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:border-right"@, sp_border_string(width, border, color)), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_top macro=fo_border(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params width border color
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:border-top"@, sp_border_string(width, border, color)), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_break_before macro=fo_break(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params pagebreak
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:break-before"@, pagebreak.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_break_after macro=fo_break(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params pagebreak
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:break-after"@, pagebreak.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenation_keep macro=fo_hyphenation(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params hyphenation
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:hyphenation-keep"@, hyphenation.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenation_ladder_count macro=fo_hyphenation(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params hyphenation
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:hyphenation-ladder-count"@, hyphenation.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_keep_together macro=fo_keep_together(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params keep_together
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:keep-together"@, keep_together.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_keep_with_next macro=fo_keep_with_next(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params keep_with_next
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:keep-with-next"@, keep_with_next.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_line_height macro=fo_line_height(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params line_height
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:line-height"@, line_height.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin macro=fo_margin(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params margin
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:margin"@, margin.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_bottom macro=fo_margin(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params margin
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:margin-bottom"@, margin.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_left macro=fo_margin(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params margin
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:margin-left"@, margin.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_right macro=fo_margin(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params margin
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:margin-right"@, margin.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_top macro=fo_margin(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params margin
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:margin-top"@, margin.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_orphans macro=fo_orphans(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params orphans
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:orphans"@, orphans.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding macro=fo_padding(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params padding
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:padding"@, padding.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_bottom macro=fo_padding(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params padding
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:padding-bottom"@, padding.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_left macro=fo_padding(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params padding
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:padding-left"@, padding.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_right macro=fo_padding(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params padding
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:padding-right"@, padding.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_top macro=fo_padding(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params padding
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:padding-top"@, padding.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_align macro=fo_text_align(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params align
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:text-align"@, align.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_align_last macro=fo_text_align_last(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params align
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:text-align-last"@, align.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_indent macro=fo_text_indent(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params indent
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:text-indent"@, indent.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_widows macro=fo_widows(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params num
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:widows"@, num.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_auto_text_indent macro=style_auto_text_indent(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params indent
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:auto-text-indent"@, indent.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_background_transpareny macro=style_background_transparency(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params percent
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:background-transparency"@, percent.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width macro=fo_border_line_width(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params inner spacing outer
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:border-line-width"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_bottom macro=fo_border_line_width(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params inner spacing outer
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:border-line-width-bottom"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_left macro=fo_border_line_width(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params inner spacing outer
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:border-line-width-left"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_right macro=fo_border_line_width(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params inner spacing outer
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:border-line-width-right"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_top macro=fo_border_line_width(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params inner spacing outer
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:border-line-width-top"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_contextual_spacing macro=style_contextual_spacing(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params spacing
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:contextual-spacing"@, spacing.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_independent_line_spacing macro=style_font_independent_line_spacing(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params spacing
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:font-independent-line-spacing"@, spacing.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_join_border macro=style_join_border(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params join
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:join-border"@, join.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_justify_single_word macro=style_justify_single_word(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params justify
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:justify-single-word"@, justify.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_line_break macro=style_line_break(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params linebreak
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:line-break"@, linebreak.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_line_height_at_least macro=style_line_height_at_least(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params height
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:line-height-at-least"@, height.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_line_spacing macro=style_line_spacing(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params spacing
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:line-spacing"@, spacing.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_page_number macro=style_page_number(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params page_number
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:page-number"@, page_number.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_punctuation_wrap macro=style_punctuation_wrap(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params wrap
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:punctuation-wrap"@, wrap.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_register_true macro=style_register_true(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params register
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:register-true"@, register.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_shadow macro=style_shadow(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params x_offset y_offset blur color
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:shadow"@, sp_shadow_string(x_offset, y_offset, blur, color)), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_snap_to_layout_grid macro=style_snap_to_layout_grid(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params snap
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:snap-to-layout-grid"@, snap.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_tab_stop_distance macro=style_tab_stop_distance(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params tab
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:tab-stop-distance"@, tab.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_autospace macro=style_text_autospace(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params space
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:text-autospace"@, space.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_vertical_align_para macro=style_vertical_align_para(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params align
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:vertical-align"@, align.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_writing_mode macro=style_writing_mode(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params writing_mode
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:writing-mode"@, writing_mode.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_writing_mode_automatic macro=style_writing_mode_automatic(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params auto
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:writing-mode-automatic"@, auto.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_line_number macro=style_line_number(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params line
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("text:line-number"@, line.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_number_lines macro=style_number_lines(paragraphstyle) macro_in=src/style/paragraphstyle.rs
//@params lines
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("text:number-lines"@, lines.shown()), *final(self) == (ParagraphStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_color macro=fo_color(textstyle) macro_in=src/style/paragraphstyle.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:color"@, sp_color_string(color)), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_locale macro=fo_locale(textstyle) macro_in=src/style/paragraphstyle.rs
//@params locale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_locale(old(self).textstyle@, locale, "fo:language"@, "fo:country"@, "fo:script"@), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_name macro=style_font_name(textstyle) macro_in=src/style/paragraphstyle.rs
//@params name
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-name"@, name@), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_size macro=fo_font_size(textstyle) macro_in=src/style/paragraphstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-size"@, size.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_size_rel macro=fo_font_size_rel(textstyle) macro_in=src/style/paragraphstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-rel"@, size.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_style macro=fo_font_style(textstyle) macro_in=src/style/paragraphstyle.rs
//@params style
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-style"@, style.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_italic macro=fo_font_style(textstyle) macro_in=src/style/paragraphstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-style"@, "italic"@), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_weight macro=fo_font_weight(textstyle) macro_in=src/style/paragraphstyle.rs
//@params weight
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-weight"@, weight.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_bold macro=fo_font_weight(textstyle) macro_in=src/style/paragraphstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-weight"@, FontWeight::Bold.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_variant macro=fo_font_variant(textstyle) macro_in=src/style/paragraphstyle.rs
//@params var
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-variant"@, var.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_attr macro=fo_font_attr(textstyle) macro_in=src/style/paragraphstyle.rs
//@params size bold italic
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_font(old(self).textstyle@, size, bold, italic, "fo:font-size"@, "fo:font-weight"@, "fo:font-style"@), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_locale_asian macro=style_locale_asian(textstyle) macro_in=src/style/paragraphstyle.rs
//@params locale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_locale(old(self).textstyle@, locale, "style:language-asian"@, "style:country-asian"@, "style:script-asian"@), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_name_asian macro=style_font_name_asian(textstyle) macro_in=src/style/paragraphstyle.rs
//@params name
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-name-asian"@, name@), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_asian macro=style_font_size_asian(textstyle) macro_in=src/style/paragraphstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-asian"@, size.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_rel_asian macro=style_font_size_rel_asian(textstyle) macro_in=src/style/paragraphstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-rel-asian"@, size.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_style_asian macro=style_font_style_asian(textstyle) macro_in=src/style/paragraphstyle.rs
//@params style
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-asian"@, style.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_italic_asian macro=style_font_style_asian(textstyle) macro_in=src/style/paragraphstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-asian"@, "italic"@), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_weight_asian macro=style_font_weight_asian(textstyle) macro_in=src/style/paragraphstyle.rs
//@params weight
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-asian"@, weight.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_bold_asian macro=style_font_weight_asian(textstyle) macro_in=src/style/paragraphstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-asian"@, FontWeight::Bold.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_attr_asian macro=style_font_attr_asian(textstyle) macro_in=src/style/paragraphstyle.rs
//@params size bold italic
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_font(old(self).textstyle@, size, bold, italic, "style:font-size-asian"@, "style:font-weight-asian"@, "style:font-style-asian"@), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_locale_complex macro=style_locale_complex(textstyle) macro_in=src/style/paragraphstyle.rs
//@params locale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_locale(old(self).textstyle@, locale, "style:language-complex"@, "style:country-complex"@, "style:script-complex"@), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_name_complex macro=style_font_name_complex(textstyle) macro_in=src/style/paragraphstyle.rs
//@params name
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-name-complex"@, name@), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_complex macro=style_font_size_complex(textstyle) macro_in=src/style/paragraphstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-complex"@, size.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_rel_complex macro=style_font_size_rel_complex(textstyle) macro_in=src/style/paragraphstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-rel-complex"@, size.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_style_complex macro=style_font_style_complex(textstyle) macro_in=src/style/paragraphstyle.rs
//@params style
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-complex"@, style.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_italic_complex macro=style_font_style_complex(textstyle) macro_in=src/style/paragraphstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-complex"@, "italic"@), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_weight_complex macro=style_font_weight_complex(textstyle) macro_in=src/style/paragraphstyle.rs
//@params weight
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-complex"@, weight.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_bold_complex macro=style_font_weight_complex(textstyle) macro_in=src/style/paragraphstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-complex"@, FontWeight::Bold.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_attr_complex macro=style_font_attr_complex(textstyle) macro_in=src/style/paragraphstyle.rs
//@params size bold italic
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_font(old(self).textstyle@, size, bold, italic, "style:font-size-complex"@, "style:font-weight-complex"@, "style:font-style-complex"@), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenate macro=fo_hyphenate(textstyle) macro_in=src/style/paragraphstyle.rs
//@params hyphenate
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:hyphenate"@, hyphenate.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenation_push_char_count macro=fo_hyphenation_push_char_count(textstyle) macro_in=src/style/paragraphstyle.rs
//@params count
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:hyphenation-push-char-count"@, count.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenation_remain_char_count macro=fo_hyphenation_remain_char_count(textstyle) macro_in=src/style/paragraphstyle.rs
//@params count
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:hyphenation-remain-char-count"@, count.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_letter_spacing macro=fo_letter_spacing(textstyle) macro_in=src/style/paragraphstyle.rs
//@params spacing
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:letter-spacing"@, spacing.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_shadow macro=fo_text_shadow(textstyle) macro_in=src/style/paragraphstyle.rs
//@params x_offset y_offset blur color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:text-shadow"@, sp_shadow_string(x_offset, y_offset, blur, color)), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_transform macro=fo_text_transform(textstyle) macro_in=src/style/paragraphstyle.rs
//@params trans
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:text-transform"@, trans.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_relief macro=style_font_relief(textstyle) macro_in=src/style/paragraphstyle.rs
//@params relief
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-relief"@, relief.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_position macro=style_text_position(textstyle) macro_in=src/style/paragraphstyle.rs
//@params pos scale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-position"@, sp_text_position(pos, scale)), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_rotation_scale macro=style_rotation_scale(textstyle) macro_in=src/style/paragraphstyle.rs
//@params scale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-rotation-scale"@, scale.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_letter_kerning macro=style_letter_kerning(textstyle) macro_in=src/style/paragraphstyle.rs
//@params kerning
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:letter-kerning"@, kerning.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_combine macro=style_text_combine(textstyle) macro_in=src/style/paragraphstyle.rs
//@params pos
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-combine"@, pos.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_combine_start_char macro=style_text_combine_start_char(textstyle) macro_in=src/style/paragraphstyle.rs
//@params c
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-combine-start-char"@, c.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_combine_end_char macro=style_text_combine_end_char(textstyle) macro_in=src/style/paragraphstyle.rs
//@params c
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-combine-end-char"@, c.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_emphasize macro=style_text_emphasize(textstyle) macro_in=src/style/paragraphstyle.rs
//@params emphasize position
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-emphasize"@, emphasize.shown() + " "@ + position.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_color macro=style_text_line_through(textstyle) macro_in=src/style/paragraphstyle.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-color"@, sp_color_string(color)), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_mode macro=style_text_line_through(textstyle) macro_in=src/style/paragraphstyle.rs
//@params lmode
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-mode"@, lmode.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_style macro=style_text_line_through(textstyle) macro_in=src/style/paragraphstyle.rs
//@params lstyle
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-style"@, lstyle.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_text macro=style_text_line_through(textstyle) macro_in=src/style/paragraphstyle.rs
//@params text
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-text"@, text@), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_text_style macro=style_text_line_through(textstyle) macro_in=src/style/paragraphstyle.rs
//@params style_ref
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-text-style"@, style_ref.text()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_type macro=style_text_line_through(textstyle) macro_in=src/style/paragraphstyle.rs
//@params ltype
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-type"@, ltype.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_width macro=style_text_line_through(textstyle) macro_in=src/style/paragraphstyle.rs
//@params lwidth
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-width"@, lwidth.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_text_outline macro=style_text_outline(textstyle) macro_in=src/style/paragraphstyle.rs
//@params outline
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-outline"@, outline.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_color macro=style_text_overline(textstyle) macro_in=src/style/paragraphstyle.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-color"@, sp_color_string(color)), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_mode macro=style_text_overline(textstyle) macro_in=src/style/paragraphstyle.rs
//@params lmode
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-mode"@, lmode.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_style macro=style_text_overline(textstyle) macro_in=src/style/paragraphstyle.rs
//@params lstyle
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-style"@, lstyle.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_type macro=style_text_overline(textstyle) macro_in=src/style/paragraphstyle.rs
//@params ltype
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-type"@, ltype.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_width macro=style_text_overline(textstyle) macro_in=src/style/paragraphstyle.rs
//@params lwidth
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-width"@, lwidth.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_color macro=style_text_underline(textstyle) macro_in=src/style/paragraphstyle.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-color"@, sp_color_string(color)), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_mode macro=style_text_underline(textstyle) macro_in=src/style/paragraphstyle.rs
//@params lmode
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-mode"@, lmode.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_style macro=style_text_underline(textstyle) macro_in=src/style/paragraphstyle.rs
//@params lstyle
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-style"@, lstyle.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_type macro=style_text_underline(textstyle) macro_in=src/style/paragraphstyle.rs
//@params ltype
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-type"@, ltype.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_width macro=style_text_underline(textstyle) macro_in=src/style/paragraphstyle.rs
//@params lwidth
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-width"@, lwidth.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_use_window_font_color macro=style_use_window_font_color(textstyle) macro_in=src/style/paragraphstyle.rs
//@params window_color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:use-window-font-color"@, window_color.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_text.rs path=set_text_condition macro=text_condition(textstyle) macro_in=src/style/paragraphstyle.rs
//@params cond
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("text:condition"@, cond.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_text.rs path=set_display macro=text_display(textstyle) macro_in=src/style/paragraphstyle.rs
//@params cond
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("text:display"@, cond.shown()), *final(self) == (ParagraphStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
}
//@struct file=src/style/textstyle.rs name=TextStyle
//@end
impl TextStyle {
//@fn file=src/macro_attr_fo.rs path=set_background_color macro=fo_background_color(textstyle) macro_in=src/style/textstyle.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:background-color"@, sp_color_string(color)), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_color macro=fo_color(textstyle) macro_in=src/style/textstyle.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:color"@, sp_color_string(color)), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_locale macro=fo_locale(textstyle) macro_in=src/style/textstyle.rs
//@params locale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_locale(old(self).textstyle@, locale, "fo:language"@, "fo:country"@, "fo:script"@), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_name macro=style_font_name(textstyle) macro_in=src/style/textstyle.rs
//@params name
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-name"@, name@), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_size macro=fo_font_size(textstyle) macro_in=src/style/textstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-size"@, size.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_size_rel macro=fo_font_size_rel(textstyle) macro_in=src/style/textstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-rel"@, size.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_style macro=fo_font_style(textstyle) macro_in=src/style/textstyle.rs
//@params style
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-style"@, style.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_italic macro=fo_font_style(textstyle) macro_in=src/style/textstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-style"@, "italic"@), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_weight macro=fo_font_weight(textstyle) macro_in=src/style/textstyle.rs
//@params weight
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-weight"@, weight.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_bold macro=fo_font_weight(textstyle) macro_in=src/style/textstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-weight"@, FontWeight::Bold.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_variant macro=fo_font_variant(textstyle) macro_in=src/style/textstyle.rs
//@params var
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-variant"@, var.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_attr macro=fo_font_attr(textstyle) macro_in=src/style/textstyle.rs
//@params size bold italic
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_font(old(self).textstyle@, size, bold, italic, "fo:font-size"@, "fo:font-weight"@, "fo:font-style"@), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_locale_asian macro=style_locale_asian(textstyle) macro_in=src/style/textstyle.rs
//@params locale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_locale(old(self).textstyle@, locale, "style:language-asian"@, "style:country-asian"@, "style:script-asian"@), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_name_asian macro=style_font_name_asian(textstyle) macro_in=src/style/textstyle.rs
//@params name
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-name-asian"@, name@), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_asian macro=style_font_size_asian(textstyle) macro_in=src/style/textstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-asian"@, size.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_rel_asian macro=style_font_size_rel_asian(textstyle) macro_in=src/style/textstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-rel-asian"@, size.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_style_asian macro=style_font_style_asian(textstyle) macro_in=src/style/textstyle.rs
//@params style
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-asian"@, style.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_italic_asian macro=style_font_style_asian(textstyle) macro_in=src/style/textstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-asian"@, "italic"@), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_weight_asian macro=style_font_weight_asian(textstyle) macro_in=src/style/textstyle.rs
//@params weight
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-asian"@, weight.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_bold_asian macro=style_font_weight_asian(textstyle) macro_in=src/style/textstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-asian"@, FontWeight::Bold.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_attr_asian macro=style_font_attr_asian(textstyle) macro_in=src/style/textstyle.rs
//@params size bold italic
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_font(old(self).textstyle@, size, bold, italic, "style:font-size-asian"@, "style:font-weight-asian"@, "style:font-style-asian"@), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_locale_complex macro=style_locale_complex(textstyle) macro_in=src/style/textstyle.rs
//@params locale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_locale(old(self).textstyle@, locale, "style:language-complex"@, "style:country-complex"@, "style:script-complex"@), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_name_complex macro=style_font_name_complex(textstyle) macro_in=src/style/textstyle.rs
//@params name
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-name-complex"@, name@), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_complex macro=style_font_size_complex(textstyle) macro_in=src/style/textstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-complex"@, size.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_rel_complex macro=style_font_size_rel_complex(textstyle) macro_in=src/style/textstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-rel-complex"@, size.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_style_complex macro=style_font_style_complex(textstyle) macro_in=src/style/textstyle.rs
//@params style
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-complex"@, style.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_italic_complex macro=style_font_style_complex(textstyle) macro_in=src/style/textstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-complex"@, "italic"@), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_weight_complex macro=style_font_weight_complex(textstyle) macro_in=src/style/textstyle.rs
//@params weight
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-complex"@, weight.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_bold_complex macro=style_font_weight_complex(textstyle) macro_in=src/style/textstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-complex"@, FontWeight::Bold.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_attr_complex macro=style_font_attr_complex(textstyle) macro_in=src/style/textstyle.rs
//@params size bold italic
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_font(old(self).textstyle@, size, bold, italic, "style:font-size-complex"@, "style:font-weight-complex"@, "style:font-style-complex"@), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenate macro=fo_hyphenate(textstyle) macro_in=src/style/textstyle.rs
//@params hyphenate
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:hyphenate"@, hyphenate.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenation_push_char_count macro=fo_hyphenation_push_char_count(textstyle) macro_in=src/style/textstyle.rs
//@params count
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:hyphenation-push-char-count"@, count.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenation_remain_char_count macro=fo_hyphenation_remain_char_count(textstyle) macro_in=src/style/textstyle.rs
//@params count
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:hyphenation-remain-char-count"@, count.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_letter_spacing macro=fo_letter_spacing(textstyle) macro_in=src/style/textstyle.rs
//@params spacing
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:letter-spacing"@, spacing.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_shadow macro=fo_text_shadow(textstyle) macro_in=src/style/textstyle.rs
//@params x_offset y_offset blur color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:text-shadow"@, sp_shadow_string(x_offset, y_offset, blur, color)), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_transform macro=fo_text_transform(textstyle) macro_in=src/style/textstyle.rs
//@params trans
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:text-transform"@, trans.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_relief macro=style_font_relief(textstyle) macro_in=src/style/textstyle.rs
//@params relief
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-relief"@, relief.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_position macro=style_text_position(textstyle) macro_in=src/style/textstyle.rs
//@params pos scale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-position"@, sp_text_position(pos, scale)), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_rotation_angle macro=style_rotation_angle(textstyle) macro_in=src/style/textstyle.rs
//@params angle
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:rotation-angle"@, angle.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_rotation_scale macro=style_rotation_scale(textstyle) macro_in=src/style/textstyle.rs
//@params scale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-rotation-scale"@, scale.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_letter_kerning macro=style_letter_kerning(textstyle) macro_in=src/style/textstyle.rs
//@params kerning
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:letter-kerning"@, kerning.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_combine macro=style_text_combine(textstyle) macro_in=src/style/textstyle.rs
//@params pos
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-combine"@, pos.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_combine_start_char macro=style_text_combine_start_char(textstyle) macro_in=src/style/textstyle.rs
//@params c
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-combine-start-char"@, c.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_combine_end_char macro=style_text_combine_end_char(textstyle) macro_in=src/style/textstyle.rs
//@params c
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-combine-end-char"@, c.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_emphasize macro=style_text_emphasize(textstyle) macro_in=src/style/textstyle.rs
//@params emphasize position
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-emphasize"@, emphasize.shown() + " "@ + position.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_color macro=style_text_line_through(textstyle) macro_in=src/style/textstyle.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-color"@, sp_color_string(color)), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_mode macro=style_text_line_through(textstyle) macro_in=src/style/textstyle.rs
//@params lmode
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-mode"@, lmode.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_style macro=style_text_line_through(textstyle) macro_in=src/style/textstyle.rs
//@params lstyle
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-style"@, lstyle.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_text macro=style_text_line_through(textstyle) macro_in=src/style/textstyle.rs
//@params text
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-text"@, text@), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_text_style macro=style_text_line_through(textstyle) macro_in=src/style/textstyle.rs
//@params style_ref
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-text-style"@, style_ref.text()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_type macro=style_text_line_through(textstyle) macro_in=src/style/textstyle.rs
//@params ltype
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-type"@, ltype.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_width macro=style_text_line_through(textstyle) macro_in=src/style/textstyle.rs
//@params lwidth
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-width"@, lwidth.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_text_outline macro=style_text_outline(textstyle) macro_in=src/style/textstyle.rs
//@params outline
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-outline"@, outline.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_color macro=style_text_overline(textstyle) macro_in=src/style/textstyle.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-color"@, sp_color_string(color)), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_mode macro=style_text_overline(textstyle) macro_in=src/style/textstyle.rs
//@params lmode
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-mode"@, lmode.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_style macro=style_text_overline(textstyle) macro_in=src/style/textstyle.rs
//@params lstyle
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-style"@, lstyle.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_type macro=style_text_overline(textstyle) macro_in=src/style/textstyle.rs
//@params ltype
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-type"@, ltype.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_width macro=style_text_overline(textstyle) macro_in=src/style/textstyle.rs
//@params lwidth
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-width"@, lwidth.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_color macro=style_text_underline(textstyle) macro_in=src/style/textstyle.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-color"@, sp_color_string(color)), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_mode macro=style_text_underline(textstyle) macro_in=src/style/textstyle.rs
//@params lmode
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-mode"@, lmode.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_style macro=style_text_underline(textstyle) macro_in=src/style/textstyle.rs
//@params lstyle
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-style"@, lstyle.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_type macro=style_text_underline(textstyle) macro_in=src/style/textstyle.rs
//@params ltype
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-type"@, ltype.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_width macro=style_text_underline(textstyle) macro_in=src/style/textstyle.rs
//@params lwidth
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-width"@, lwidth.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_use_window_font_color macro=style_use_window_font_color(textstyle) macro_in=src/style/textstyle.rs
//@params window_color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:use-window-font-color"@, window_color.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_text.rs path=set_text_condition macro=text_condition(textstyle) macro_in=src/style/textstyle.rs
//@params cond
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("text:condition"@, cond.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_text.rs path=set_display macro=text_display(textstyle) macro_in=src/style/textstyle.rs
//@params cond
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("text:display"@, cond.shown()), *final(self) == (TextStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
}
//@struct file=src/style/graphicstyle.rs name=GraphicStyle
//@end
impl GraphicStyle {
//@fn file=src/macro_attr_fo.rs path=set_background_color macro=fo_background_color(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params color
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:background-color"@, sp_color_string(color)), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border macro=fo_border(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params width border color
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:border"@, sp_border_string(width, border, color)), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_bottom macro=fo_border(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params width border color
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:border-bottom"@, sp_border_string(width, border, color)), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_left macro=fo_border(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params width border color
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:border-left"@, sp_border_string(width, border, color)), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_right macro=fo_border(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params width border color
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:border-right"@, sp_border_string(width, border, color)), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_top macro=fo_border(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params width border color
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:border-top"@, sp_border_string(width, border, color)), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_break_before macro=fo_break(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params pagebreak
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:break-before"@, pagebreak.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_break_after macro=fo_break(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params pagebreak
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:break-after"@, pagebreak.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenation_keep macro=fo_hyphenation(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params hyphenation
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:hyphenation-keep"@, hyphenation.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenation_ladder_count macro=fo_hyphenation(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params hyphenation
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:hyphenation-ladder-count"@, hyphenation.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_keep_together macro=fo_keep_together(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params keep_together
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:keep-together"@, keep_together.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_keep_with_next macro=fo_keep_with_next(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params keep_with_next
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:keep-with-next"@, keep_with_next.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_line_height macro=fo_line_height(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params line_height
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:line-height"@, line_height.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin macro=fo_margin(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params margin
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:margin"@, margin.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_bottom macro=fo_margin(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params margin
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:margin-bottom"@, margin.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_left macro=fo_margin(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params margin
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:margin-left"@, margin.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_right macro=fo_margin(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params margin
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:margin-right"@, margin.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_top macro=fo_margin(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params margin
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:margin-top"@, margin.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_orphans macro=fo_orphans(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params orphans
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:orphans"@, orphans.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding macro=fo_padding(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params padding
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:padding"@, padding.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_bottom macro=fo_padding(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params padding
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:padding-bottom"@, padding.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_left macro=fo_padding(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params padding
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:padding-left"@, padding.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_right macro=fo_padding(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params padding
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:padding-right"@, padding.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_top macro=fo_padding(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params padding
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:padding-top"@, padding.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_align macro=fo_text_align(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params align
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:text-align"@, align.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_align_last macro=fo_text_align_last(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params align
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:text-align-last"@, align.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_indent macro=fo_text_indent(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params indent
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:text-indent"@, indent.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_widows macro=fo_widows(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params num
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("fo:widows"@, num.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_auto_text_indent macro=style_auto_text_indent(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params indent
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:auto-text-indent"@, indent.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_background_transpareny macro=style_background_transparency(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params percent
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:background-transparency"@, percent.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width macro=fo_border_line_width(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params inner spacing outer
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:border-line-width"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_bottom macro=fo_border_line_width(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params inner spacing outer
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:border-line-width-bottom"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_left macro=fo_border_line_width(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params inner spacing outer
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:border-line-width-left"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_right macro=fo_border_line_width(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params inner spacing outer
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:border-line-width-right"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_top macro=fo_border_line_width(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params inner spacing outer
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:border-line-width-top"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_contextual_spacing macro=style_contextual_spacing(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params spacing
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:contextual-spacing"@, spacing.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_independent_line_spacing macro=style_font_independent_line_spacing(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params spacing
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:font-independent-line-spacing"@, spacing.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_join_border macro=style_join_border(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params join
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:join-border"@, join.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_justify_single_word macro=style_justify_single_word(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params justify
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:justify-single-word"@, justify.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_line_break macro=style_line_break(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params linebreak
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:line-break"@, linebreak.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_line_height_at_least macro=style_line_height_at_least(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params height
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:line-height-at-least"@, height.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_line_spacing macro=style_line_spacing(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params spacing
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:line-spacing"@, spacing.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_page_number macro=style_page_number(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params page_number
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:page-number"@, page_number.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_punctuation_wrap macro=style_punctuation_wrap(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params wrap
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:punctuation-wrap"@, wrap.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_register_true macro=style_register_true(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params register
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:register-true"@, register.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_shadow macro=style_shadow(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params x_offset y_offset blur color
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:shadow"@, sp_shadow_string(x_offset, y_offset, blur, color)), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_snap_to_layout_grid macro=style_snap_to_layout_grid(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params snap
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:snap-to-layout-grid"@, snap.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_tab_stop_distance macro=style_tab_stop_distance(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params tab
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:tab-stop-distance"@, tab.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_autospace macro=style_text_autospace(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params space
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:text-autospace"@, space.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_vertical_align_para macro=style_vertical_align_para(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params align
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:vertical-align"@, align.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_writing_mode macro=style_writing_mode(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params writing_mode
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:writing-mode"@, writing_mode.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_writing_mode_automatic macro=style_writing_mode_automatic(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params auto
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("style:writing-mode-automatic"@, auto.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_line_number macro=style_line_number(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params line
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("text:line-number"@, line.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_number_lines macro=style_number_lines(paragraphstyle) macro_in=src/style/graphicstyle.rs
//@params lines
//@spec
    requires old(self).paragraphstyle.wf(),
    ensures final(self).paragraphstyle@ == old(self).paragraphstyle@.insert("text:number-lines"@, lines.shown()), *final(self) == (GraphicStyle { paragraphstyle: final(self).paragraphstyle, ..*old(self) }), final(self).paragraphstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_color macro=fo_color(textstyle) macro_in=src/style/graphicstyle.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:color"@, sp_color_string(color)), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_locale macro=fo_locale(textstyle) macro_in=src/style/graphicstyle.rs
//@params locale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_locale(old(self).textstyle@, locale, "fo:language"@, "fo:country"@, "fo:script"@), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_name macro=style_font_name(textstyle) macro_in=src/style/graphicstyle.rs
//@params name
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-name"@, name@), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_size macro=fo_font_size(textstyle) macro_in=src/style/graphicstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-size"@, size.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_size_rel macro=fo_font_size_rel(textstyle) macro_in=src/style/graphicstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-rel"@, size.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_style macro=fo_font_style(textstyle) macro_in=src/style/graphicstyle.rs
//@params style
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-style"@, style.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_italic macro=fo_font_style(textstyle) macro_in=src/style/graphicstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-style"@, "italic"@), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_weight macro=fo_font_weight(textstyle) macro_in=src/style/graphicstyle.rs
//@params weight
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-weight"@, weight.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_bold macro=fo_font_weight(textstyle) macro_in=src/style/graphicstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-weight"@, FontWeight::Bold.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_variant macro=fo_font_variant(textstyle) macro_in=src/style/graphicstyle.rs
//@params var
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-variant"@, var.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_attr macro=fo_font_attr(textstyle) macro_in=src/style/graphicstyle.rs
//@params size bold italic
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_font(old(self).textstyle@, size, bold, italic, "fo:font-size"@, "fo:font-weight"@, "fo:font-style"@), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_locale_asian macro=style_locale_asian(textstyle) macro_in=src/style/graphicstyle.rs
//@params locale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_locale(old(self).textstyle@, locale, "style:language-asian"@, "style:country-asian"@, "style:script-asian"@), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_name_asian macro=style_font_name_asian(textstyle) macro_in=src/style/graphicstyle.rs
//@params name
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-name-asian"@, name@), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_asian macro=style_font_size_asian(textstyle) macro_in=src/style/graphicstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-asian"@, size.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_rel_asian macro=style_font_size_rel_asian(textstyle) macro_in=src/style/graphicstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-rel-asian"@, size.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_style_asian macro=style_font_style_asian(textstyle) macro_in=src/style/graphicstyle.rs
//@params style
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-asian"@, style.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_italic_asian macro=style_font_style_asian(textstyle) macro_in=src/style/graphicstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-asian"@, "italic"@), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_weight_asian macro=style_font_weight_asian(textstyle) macro_in=src/style/graphicstyle.rs
//@params weight
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-asian"@, weight.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_bold_asian macro=style_font_weight_asian(textstyle) macro_in=src/style/graphicstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-asian"@, FontWeight::Bold.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_attr_asian macro=style_font_attr_asian(textstyle) macro_in=src/style/graphicstyle.rs
//@params size bold italic
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_font(old(self).textstyle@, size, bold, italic, "style:font-size-asian"@, "style:font-weight-asian"@, "style:font-style-asian"@), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_locale_complex macro=style_locale_complex(textstyle) macro_in=src/style/graphicstyle.rs
//@params locale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_locale(old(self).textstyle@, locale, "style:language-complex"@, "style:country-complex"@, "style:script-complex"@), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_name_complex macro=style_font_name_complex(textstyle) macro_in=src/style/graphicstyle.rs
//@params name
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-name-complex"@, name@), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_complex macro=style_font_size_complex(textstyle) macro_in=src/style/graphicstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-complex"@, size.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_rel_complex macro=style_font_size_rel_complex(textstyle) macro_in=src/style/graphicstyle.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-rel-complex"@, size.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_style_complex macro=style_font_style_complex(textstyle) macro_in=src/style/graphicstyle.rs
//@params style
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-complex"@, style.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_italic_complex macro=style_font_style_complex(textstyle) macro_in=src/style/graphicstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-complex"@, "italic"@), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_weight_complex macro=style_font_weight_complex(textstyle) macro_in=src/style/graphicstyle.rs
//@params weight
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-complex"@, weight.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_bold_complex macro=style_font_weight_complex(textstyle) macro_in=src/style/graphicstyle.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-complex"@, FontWeight::Bold.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_attr_complex macro=style_font_attr_complex(textstyle) macro_in=src/style/graphicstyle.rs
//@params size bold italic
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_font(old(self).textstyle@, size, bold, italic, "style:font-size-complex"@, "style:font-weight-complex"@, "style:font-style-complex"@), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenate macro=fo_hyphenate(textstyle) macro_in=src/style/graphicstyle.rs
//@params hyphenate
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:hyphenate"@, hyphenate.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenation_push_char_count macro=fo_hyphenation_push_char_count(textstyle) macro_in=src/style/graphicstyle.rs
//@params count
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:hyphenation-push-char-count"@, count.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenation_remain_char_count macro=fo_hyphenation_remain_char_count(textstyle) macro_in=src/style/graphicstyle.rs
//@params count
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:hyphenation-remain-char-count"@, count.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_letter_spacing macro=fo_letter_spacing(textstyle) macro_in=src/style/graphicstyle.rs
//@params spacing
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:letter-spacing"@, spacing.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_shadow macro=fo_text_shadow(textstyle) macro_in=src/style/graphicstyle.rs
//@params x_offset y_offset blur color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:text-shadow"@, sp_shadow_string(x_offset, y_offset, blur, color)), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_transform macro=fo_text_transform(textstyle) macro_in=src/style/graphicstyle.rs
//@params trans
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:text-transform"@, trans.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_relief macro=style_font_relief(textstyle) macro_in=src/style/graphicstyle.rs
//@params relief
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-relief"@, relief.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_position macro=style_text_position(textstyle) macro_in=src/style/graphicstyle.rs
//@params pos scale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-position"@, sp_text_position(pos, scale)), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_rotation_scale macro=style_rotation_scale(textstyle) macro_in=src/style/graphicstyle.rs
//@params scale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-rotation-scale"@, scale.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_letter_kerning macro=style_letter_kerning(textstyle) macro_in=src/style/graphicstyle.rs
//@params kerning
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:letter-kerning"@, kerning.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_combine macro=style_text_combine(textstyle) macro_in=src/style/graphicstyle.rs
//@params pos
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-combine"@, pos.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_combine_start_char macro=style_text_combine_start_char(textstyle) macro_in=src/style/graphicstyle.rs
//@params c
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-combine-start-char"@, c.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_combine_end_char macro=style_text_combine_end_char(textstyle) macro_in=src/style/graphicstyle.rs
//@params c
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-combine-end-char"@, c.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_emphasize macro=style_text_emphasize(textstyle) macro_in=src/style/graphicstyle.rs
//@params emphasize position
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-emphasize"@, emphasize.shown() + " "@ + position.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_color macro=style_text_line_through(textstyle) macro_in=src/style/graphicstyle.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-color"@, sp_color_string(color)), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_mode macro=style_text_line_through(textstyle) macro_in=src/style/graphicstyle.rs
//@params lmode
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-mode"@, lmode.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_style macro=style_text_line_through(textstyle) macro_in=src/style/graphicstyle.rs
//@params lstyle
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-style"@, lstyle.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_text macro=style_text_line_through(textstyle) macro_in=src/style/graphicstyle.rs
//@params text
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-text"@, text@), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_text_style macro=style_text_line_through(textstyle) macro_in=src/style/graphicstyle.rs
//@params style_ref
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-text-style"@, style_ref.text()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_type macro=style_text_line_through(textstyle) macro_in=src/style/graphicstyle.rs
//@params ltype
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-type"@, ltype.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_width macro=style_text_line_through(textstyle) macro_in=src/style/graphicstyle.rs
//@params lwidth
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-width"@, lwidth.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_text_outline macro=style_text_outline(textstyle) macro_in=src/style/graphicstyle.rs
//@params outline
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-outline"@, outline.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_color macro=style_text_overline(textstyle) macro_in=src/style/graphicstyle.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-color"@, sp_color_string(color)), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_mode macro=style_text_overline(textstyle) macro_in=src/style/graphicstyle.rs
//@params lmode
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-mode"@, lmode.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_style macro=style_text_overline(textstyle) macro_in=src/style/graphicstyle.rs
//@params lstyle
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-style"@, lstyle.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_type macro=style_text_overline(textstyle) macro_in=src/style/graphicstyle.rs
//@params ltype
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-type"@, ltype.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_width macro=style_text_overline(textstyle) macro_in=src/style/graphicstyle.rs
//@params lwidth
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-width"@, lwidth.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_color macro=style_text_underline(textstyle) macro_in=src/style/graphicstyle.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-color"@, sp_color_string(color)), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_mode macro=style_text_underline(textstyle) macro_in=src/style/graphicstyle.rs
//@params lmode
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-mode"@, lmode.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_style macro=style_text_underline(textstyle) macro_in=src/style/graphicstyle.rs
//@params lstyle
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-style"@, lstyle.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_type macro=style_text_underline(textstyle) macro_in=src/style/graphicstyle.rs
//@params ltype
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-type"@, ltype.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_width macro=style_text_underline(textstyle) macro_in=src/style/graphicstyle.rs
//@params lwidth
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-width"@, lwidth.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_use_window_font_color macro=style_use_window_font_color(textstyle) macro_in=src/style/graphicstyle.rs
//@params window_color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:use-window-font-color"@, window_color.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_text.rs path=set_text_condition macro=text_condition(textstyle) macro_in=src/style/graphicstyle.rs
//@params cond
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("text:condition"@, cond.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_text.rs path=set_display macro=text_display(textstyle) macro_in=src/style/graphicstyle.rs
//@params cond
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("text:display"@, cond.shown()), *final(self) == (GraphicStyle { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
}
//@struct file=src/style/fontface.rs name=FontFaceDecl
//@end
impl FontFaceDecl {
//@fn file=src/macro_attr_style.rs path=set_font_family_generic macro=style_font_family_generic(attr) macro_in=src/style/fontface.rs
//@params font
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("style:font-family-generic"@, font.shown()), *final(self) == (FontFaceDecl { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_pitch macro=style_font_pitch(attr) macro_in=src/style/fontface.rs
//@params pitch
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("style:font-pitch"@, pitch.shown()), *final(self) == (FontFaceDecl { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_svg.rs path=set_font_family macro=svg_font_family(attr) macro_in=src/style/fontface.rs
//@params name
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("svg:font-family"@, name@), *final(self) == (FontFaceDecl { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_svg.rs path=set_font_stretch macro=svg_font_stretch(attr) macro_in=src/style/fontface.rs
//@params stretch
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("svg:font-stretch"@, stretch.shown()), *final(self) == (FontFaceDecl { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_svg.rs path=set_font_style macro=svg_font_style(attr) macro_in=src/style/fontface.rs
//@params style
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("svg:font-style"@, style.shown()), *final(self) == (FontFaceDecl { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_svg.rs path=set_font_variant macro=svg_font_variant(attr) macro_in=src/style/fontface.rs
//@params variant
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("svg:font-variant"@, variant.shown()), *final(self) == (FontFaceDecl { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_svg.rs path=set_font_weight macro=svg_font_weight(attr) macro_in=src/style/fontface.rs
//@params weight
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("svg:font-weight"@, weight.shown()), *final(self) == (FontFaceDecl { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
}
//@struct file=src/style/pagestyle.rs name=PageStyle
//@end
impl PageStyle {
//@fn file=src/macro_attr_fo.rs path=set_page_height macro=fo_page_height(style) macro_in=src/style/pagestyle.rs
//@params height
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:page-height"@, height.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_page_width macro=fo_page_width(style) macro_in=src/style/pagestyle.rs
//@params width
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:page-width"@, width.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_first_page_number macro=style_first_page_number(style) macro_in=src/style/pagestyle.rs
//@params number
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:first-page-number"@, number.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_footnote_max_height macro=style_footnote_max_height(style) macro_in=src/style/pagestyle.rs
//@params height
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:footnote-max-height"@, height.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_num_format macro=style_num_format(style) macro_in=src/style/pagestyle.rs
//@params format
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:num-format"@, format.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_num_letter_sync macro=style_num_letter_sync(style) macro_in=src/style/pagestyle.rs
//@params sync
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:num-letter-sync"@, sync.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_num_prefix macro=style_num_prefix(style) macro_in=src/style/pagestyle.rs
//@params prefix
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:num-prefix"@, prefix@), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_num_suffix macro=style_num_suffix(style) macro_in=src/style/pagestyle.rs
//@params suffix
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:num-suffix"@, suffix@), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_paper_tray_name macro=style_paper_tray_name(style) macro_in=src/style/pagestyle.rs
//@params tray
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:paper-tray-name"@, tray@), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_print_orientation macro=style_print_orientation(style) macro_in=src/style/pagestyle.rs
//@params orientation
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:print-orientation"@, orientation.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_print_page_order macro=style_print_page_order(style) macro_in=src/style/pagestyle.rs
//@params order
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:print-page-order"@, order.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_scale_to macro=style_scale_to(style) macro_in=src/style/pagestyle.rs
//@params percent
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:scale-to"@, percent.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_scale_to_pages macro=style_scale_to_pages(style) macro_in=src/style/pagestyle.rs
//@params pages
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:scale-to-pages"@, pages.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_table_centering macro=style_table_centering(style) macro_in=src/style/pagestyle.rs
//@params center
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:table-centering"@, center.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_writing_mode macro=style_writing_mode(style) macro_in=src/style/pagestyle.rs
//@params writing_mode
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:writing-mode"@, writing_mode.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_background_color macro=fo_background_color(style) macro_in=src/style/pagestyle.rs
//@params color
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:background-color"@, sp_color_string(color)), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border macro=fo_border(style) macro_in=src/style/pagestyle.rs
//@params width border color
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:border"@, sp_border_string(width, border, color)), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_bottom macro=fo_border(style) macro_in=src/style/pagestyle.rs
//@params width border color
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:border-bottom"@, sp_border_string(width, border, color)), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_left macro=fo_border(style) macro_in=src/style/pagestyle.rs
//@params width border color
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:border-left"@, sp_border_string(width, border, color)), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_right macro=fo_border(style) macro_in=src/style/pagestyle.rs
//@params width border color
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:border-right"@, sp_border_string(width, border, color)), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_top macro=fo_border(style) macro_in=src/style/pagestyle.rs
//@params width border color
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:border-top"@, sp_border_string(width, border, color)), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width macro=fo_border_line_width(style) macro_in=src/style/pagestyle.rs
//@params inner spacing outer
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:border-line-width"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_bottom macro=fo_border_line_width(style) macro_in=src/style/pagestyle.rs
//@params inner spacing outer
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:border-line-width-bottom"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_left macro=fo_border_line_width(style) macro_in=src/style/pagestyle.rs
//@params inner spacing outer
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:border-line-width-left"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_right macro=fo_border_line_width(style) macro_in=src/style/pagestyle.rs
//@params inner spacing outer
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:border-line-width-right"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_top macro=fo_border_line_width(style) macro_in=src/style/pagestyle.rs
//@params inner spacing outer
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:border-line-width-top"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin macro=fo_margin(style) macro_in=src/style/pagestyle.rs
//@params margin
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:margin"@, margin.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_bottom macro=fo_margin(style) macro_in=src/style/pagestyle.rs
//@params margin
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:margin-bottom"@, margin.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_left macro=fo_margin(style) macro_in=src/style/pagestyle.rs
//@params margin
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:margin-left"@, margin.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_right macro=fo_margin(style) macro_in=src/style/pagestyle.rs
//@params margin
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:margin-right"@, margin.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_top macro=fo_margin(style) macro_in=src/style/pagestyle.rs
//@params margin
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:margin-top"@, margin.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding macro=fo_padding(style) macro_in=src/style/pagestyle.rs
//@params padding
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:padding"@, padding.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_bottom macro=fo_padding(style) macro_in=src/style/pagestyle.rs
//@params padding
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:padding-bottom"@, padding.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_left macro=fo_padding(style) macro_in=src/style/pagestyle.rs
//@params padding
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:padding-left"@, padding.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_right macro=fo_padding(style) macro_in=src/style/pagestyle.rs
//@params padding
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:padding-right"@, padding.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_top macro=fo_padding(style) macro_in=src/style/pagestyle.rs
//@params padding
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:padding-top"@, padding.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_dynamic_spacing macro=style_dynamic_spacing(style) macro_in=src/style/pagestyle.rs
//@params dynamic
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:dynamic-spacing"@, dynamic.shown()), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_shadow macro=style_shadow(style) macro_in=src/style/pagestyle.rs
//@params x_offset y_offset blur color
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:shadow"@, sp_shadow_string(x_offset, y_offset, blur, color)), *final(self) == (PageStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
}
//@struct file=src/style/tabstop.rs name=TabStop
//@end
impl TabStop {
//@fn file=src/macro_attr_style.rs path=set_char macro=style_char(attr) macro_in=src/style/tabstop.rs
//@params c
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("style:char"@, c.shown()), *final(self) == (TabStop { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_leader_color macro=style_leader_color(attr) macro_in=src/style/tabstop.rs
//@params color
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("style:leader-color"@, sp_color_string(color)), *final(self) == (TabStop { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_leader_style macro=style_leader_style(attr) macro_in=src/style/tabstop.rs
//@params style
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("style:leader-style"@, style.shown()), *final(self) == (TabStop { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_leader_text macro=style_leader_text(attr) macro_in=src/style/tabstop.rs
//@params text
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("style:leader-text"@, text.shown()), *final(self) == (TabStop { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_leader_text_style macro=style_leader_text_style(attr) macro_in=src/style/tabstop.rs
//@params styleref
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("style:leader-text-style"@, styleref.text()), *final(self) == (TabStop { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_leader_type macro=style_leader_type(attr) macro_in=src/style/tabstop.rs
//@params t
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("style:leader-type"@, t.shown()), *final(self) == (TabStop { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_leader_width macro=style_leader_width(attr) macro_in=src/style/tabstop.rs
//@params w
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("style:leader-width"@, w.shown()), *final(self) == (TabStop { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_position macro=style_position(attr) macro_in=src/style/tabstop.rs
//@params pos
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("style:position"@, pos.shown()), *final(self) == (TabStop { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_type macro=style_type(attr) macro_in=src/style/tabstop.rs
//@params t
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("style:type"@, t.shown()), *final(self) == (TabStop { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
}
//@struct file=src/style/pagestyle.rs name=HeaderFooterStyle
//@end
impl HeaderFooterStyle {
//@fn file=src/macro_attr_fo.rs path=set_background_color macro=fo_background_color(style) macro_in=src/style/pagestyle.rs
//@params color
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:background-color"@, sp_color_string(color)), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border macro=fo_border(style) macro_in=src/style/pagestyle.rs
//@params width border color
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:border"@, sp_border_string(width, border, color)), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_bottom macro=fo_border(style) macro_in=src/style/pagestyle.rs
//@params width border color
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:border-bottom"@, sp_border_string(width, border, color)), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_left macro=fo_border(style) macro_in=src/style/pagestyle.rs
//@params width border color
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:border-left"@, sp_border_string(width, border, color)), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_right macro=fo_border(style) macro_in=src/style/pagestyle.rs
//@params width border color
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:border-right"@, sp_border_string(width, border, color)), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_top macro=fo_border(style) macro_in=src/style/pagestyle.rs
//@params width border color
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:border-top"@, sp_border_string(width, border, color)), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin macro=fo_margin(style) macro_in=src/style/pagestyle.rs
//@params margin
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:margin"@, margin.shown()), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_bottom macro=fo_margin(style) macro_in=src/style/pagestyle.rs
//@params margin
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:margin-bottom"@, margin.shown()), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_left macro=fo_margin(style) macro_in=src/style/pagestyle.rs
//@params margin
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:margin-left"@, margin.shown()), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_right macro=fo_margin(style) macro_in=src/style/pagestyle.rs
//@params margin
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:margin-right"@, margin.shown()), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_margin_top macro=fo_margin(style) macro_in=src/style/pagestyle.rs
//@params margin
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:margin-top"@, margin.shown()), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_min_height macro=fo_min_height(style) macro_in=src/style/pagestyle.rs
//@params height
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:min-height"@, height.shown()), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding macro=fo_padding(style) macro_in=src/style/pagestyle.rs
//@params padding
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:padding"@, padding.shown()), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_bottom macro=fo_padding(style) macro_in=src/style/pagestyle.rs
//@params padding
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:padding-bottom"@, padding.shown()), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_left macro=fo_padding(style) macro_in=src/style/pagestyle.rs
//@params padding
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:padding-left"@, padding.shown()), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_right macro=fo_padding(style) macro_in=src/style/pagestyle.rs
//@params padding
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:padding-right"@, padding.shown()), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_padding_top macro=fo_padding(style) macro_in=src/style/pagestyle.rs
//@params padding
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("fo:padding-top"@, padding.shown()), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width macro=fo_border_line_width(style) macro_in=src/style/pagestyle.rs
//@params inner spacing outer
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:border-line-width"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_bottom macro=fo_border_line_width(style) macro_in=src/style/pagestyle.rs
//@params inner spacing outer
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:border-line-width-bottom"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_left macro=fo_border_line_width(style) macro_in=src/style/pagestyle.rs
//@params inner spacing outer
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:border-line-width-left"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_right macro=fo_border_line_width(style) macro_in=src/style/pagestyle.rs
//@params inner spacing outer
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:border-line-width-right"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_border_line_width_top macro=fo_border_line_width(style) macro_in=src/style/pagestyle.rs
//@params inner spacing outer
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:border-line-width-top"@, sp_border_line_width_string(inner, spacing, outer)), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_dynamic_spacing macro=style_dynamic_spacing(style) macro_in=src/style/pagestyle.rs
//@params dynamic
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:dynamic-spacing"@, dynamic.shown()), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_shadow macro=style_shadow(style) macro_in=src/style/pagestyle.rs
//@params x_offset y_offset blur color
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("style:shadow"@, sp_shadow_string(x_offset, y_offset, blur, color)), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
//@fn file=src/macro_attr_svg.rs path=set_height macro=svg_height(style) macro_in=src/style/pagestyle.rs
//@params height
//@spec
    requires old(self).style.wf(),
    ensures final(self).style@ == old(self).style@.insert("svg:height"@, height.shown()), *final(self) == (HeaderFooterStyle { style: final(self).style, ..*old(self) }), final(self).style.wf(),
//@end
}
// ------------------------------------------------------------------ the typed setters of value formats
#[verifier::external_body] struct ValueStyleMap {}
#[verifier::external_body] struct FormatPart {}
//@struct file=src/macro_format.rs name=ValueFormatNumber macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@end
impl ValueFormatNumber {
//@fn file=src/macro_attr_number.rs path=set_locale macro=valueformat(ValueFormatNumber,ValueType::Number)>number_locale(attr) macro_in=src/format/mod.rs
//@params locale
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == sp_locale(old(self).attr@, locale, "number:language"@, "number:country"@, "number:script"@), *final(self) == (ValueFormatNumber { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_number.rs path=set_title macro=valueformat(ValueFormatNumber,ValueType::Number)>number_title(attr) macro_in=src/format/mod.rs
//@params title
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("number:title"@, title@), *final(self) == (ValueFormatNumber { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_number.rs path=set_transliteration_locale macro=valueformat(ValueFormatNumber,ValueType::Number)>number_transliteration_locale(attr) macro_in=src/format/mod.rs
//@params locale
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == sp_locale2(old(self).attr@, locale, "number:transliteration-language"@, "number:transliteration-country"@), *final(self) == (ValueFormatNumber { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_number.rs path=set_transliteration_format macro=valueformat(ValueFormatNumber,ValueType::Number)>number_transliteration_format(attr) macro_in=src/format/mod.rs
//@params format
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("number:transliteration-format"@, format.shown()), *final(self) == (ValueFormatNumber { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_number.rs path=set_transliteration_style macro=valueformat(ValueFormatNumber,ValueType::Number)>number_transliteration_style(attr) macro_in=src/format/mod.rs
//@params style
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("number:transliteration-style"@, style.shown()), *final(self) == (ValueFormatNumber { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_display_name macro=valueformat(ValueFormatNumber,ValueType::Number)>style_display_name(attr) macro_in=src/format/mod.rs
//@params name
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("style:display-name"@, name@), *final(self) == (ValueFormatNumber { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_volatile macro=valueformat(ValueFormatNumber,ValueType::Number)>style_volatile(attr) macro_in=src/format/mod.rs
//@params volatile
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("style:volatile"@, volatile.shown()), *final(self) == (ValueFormatNumber { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_background_color macro=valueformat(ValueFormatNumber,ValueType::Number)>fo_background_color(textstyle) macro_in=src/format/mod.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:background-color"@, sp_color_string(color)), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_color macro=valueformat(ValueFormatNumber,ValueType::Number)>fo_color(textstyle) macro_in=src/format/mod.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:color"@, sp_color_string(color)), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_name macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_name(textstyle) macro_in=src/format/mod.rs
//@params name
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-name"@, name@), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_size macro=valueformat(ValueFormatNumber,ValueType::Number)>fo_font_size(textstyle) macro_in=src/format/mod.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-size"@, size.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_size_rel macro=valueformat(ValueFormatNumber,ValueType::Number)>fo_font_size_rel(textstyle) macro_in=src/format/mod.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-rel"@, size.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_style macro=valueformat(ValueFormatNumber,ValueType::Number)>fo_font_style(textstyle) macro_in=src/format/mod.rs
//@params style
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-style"@, style.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_italic macro=valueformat(ValueFormatNumber,ValueType::Number)>fo_font_style(textstyle) macro_in=src/format/mod.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-style"@, "italic"@), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_weight macro=valueformat(ValueFormatNumber,ValueType::Number)>fo_font_weight(textstyle) macro_in=src/format/mod.rs
//@params weight
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-weight"@, weight.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_bold macro=valueformat(ValueFormatNumber,ValueType::Number)>fo_font_weight(textstyle) macro_in=src/format/mod.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-weight"@, FontWeight::Bold.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_variant macro=valueformat(ValueFormatNumber,ValueType::Number)>fo_font_variant(textstyle) macro_in=src/format/mod.rs
//@params var
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:font-variant"@, var.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_font_attr macro=valueformat(ValueFormatNumber,ValueType::Number)>fo_font_attr(textstyle) macro_in=src/format/mod.rs
//@params size bold italic
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_font(old(self).textstyle@, size, bold, italic, "fo:font-size"@, "fo:font-weight"@, "fo:font-style"@), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_locale_asian macro=valueformat(ValueFormatNumber,ValueType::Number)>style_locale_asian(textstyle) macro_in=src/format/mod.rs
//@params locale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_locale(old(self).textstyle@, locale, "style:language-asian"@, "style:country-asian"@, "style:script-asian"@), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_name_asian macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_name_asian(textstyle) macro_in=src/format/mod.rs
//@params name
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-name-asian"@, name@), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_asian macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_size_asian(textstyle) macro_in=src/format/mod.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-asian"@, size.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_rel_asian macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_size_rel_asian(textstyle) macro_in=src/format/mod.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-rel-asian"@, size.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_style_asian macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_style_asian(textstyle) macro_in=src/format/mod.rs
//@params style
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-asian"@, style.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_italic_asian macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_style_asian(textstyle) macro_in=src/format/mod.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-asian"@, "italic"@), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_weight_asian macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_weight_asian(textstyle) macro_in=src/format/mod.rs
//@params weight
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-asian"@, weight.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_bold_asian macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_weight_asian(textstyle) macro_in=src/format/mod.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-asian"@, FontWeight::Bold.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_attr_asian macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_attr_asian(textstyle) macro_in=src/format/mod.rs
//@params size bold italic
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_font(old(self).textstyle@, size, bold, italic, "style:font-size-asian"@, "style:font-weight-asian"@, "style:font-style-asian"@), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_locale_complex macro=valueformat(ValueFormatNumber,ValueType::Number)>style_locale_complex(textstyle) macro_in=src/format/mod.rs
//@params locale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_locale(old(self).textstyle@, locale, "style:language-complex"@, "style:country-complex"@, "style:script-complex"@), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_name_complex macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_name_complex(textstyle) macro_in=src/format/mod.rs
//@params name
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-name-complex"@, name@), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_complex macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_size_complex(textstyle) macro_in=src/format/mod.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-complex"@, size.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_size_rel_complex macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_size_rel_complex(textstyle) macro_in=src/format/mod.rs
//@params size
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-size-rel-complex"@, size.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_style_complex macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_style_complex(textstyle) macro_in=src/format/mod.rs
//@params style
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-complex"@, style.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_italic_complex macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_style_complex(textstyle) macro_in=src/format/mod.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-style-complex"@, "italic"@), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_weight_complex macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_weight_complex(textstyle) macro_in=src/format/mod.rs
//@params weight
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-complex"@, weight.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_bold_complex macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_weight_complex(textstyle) macro_in=src/format/mod.rs
//@params 
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-weight-complex"@, FontWeight::Bold.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_attr_complex macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_attr_complex(textstyle) macro_in=src/format/mod.rs
//@params size bold italic
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == sp_font(old(self).textstyle@, size, bold, italic, "style:font-size-complex"@, "style:font-weight-complex"@, "style:font-style-complex"@), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenate macro=valueformat(ValueFormatNumber,ValueType::Number)>fo_hyphenate(textstyle) macro_in=src/format/mod.rs
//@params hyphenate
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:hyphenate"@, hyphenate.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenation_push_char_count macro=valueformat(ValueFormatNumber,ValueType::Number)>fo_hyphenation_push_char_count(textstyle) macro_in=src/format/mod.rs
//@params count
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:hyphenation-push-char-count"@, count.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_hyphenation_remain_char_count macro=valueformat(ValueFormatNumber,ValueType::Number)>fo_hyphenation_remain_char_count(textstyle) macro_in=src/format/mod.rs
//@params count
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:hyphenation-remain-char-count"@, count.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_letter_spacing macro=valueformat(ValueFormatNumber,ValueType::Number)>fo_letter_spacing(textstyle) macro_in=src/format/mod.rs
//@params spacing
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:letter-spacing"@, spacing.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_shadow macro=valueformat(ValueFormatNumber,ValueType::Number)>fo_text_shadow(textstyle) macro_in=src/format/mod.rs
//@params x_offset y_offset blur color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:text-shadow"@, sp_shadow_string(x_offset, y_offset, blur, color)), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_fo.rs path=set_text_transform macro=valueformat(ValueFormatNumber,ValueType::Number)>fo_text_transform(textstyle) macro_in=src/format/mod.rs
//@params trans
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("fo:text-transform"@, trans.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_relief macro=valueformat(ValueFormatNumber,ValueType::Number)>style_font_relief(textstyle) macro_in=src/format/mod.rs
//@params relief
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:font-relief"@, relief.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_position macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_position(textstyle) macro_in=src/format/mod.rs
//@params pos scale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-position"@, sp_text_position(pos, scale)), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_rotation_angle macro=valueformat(ValueFormatNumber,ValueType::Number)>style_rotation_angle(textstyle) macro_in=src/format/mod.rs
//@params angle
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:rotation-angle"@, angle.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_rotation_scale macro=valueformat(ValueFormatNumber,ValueType::Number)>style_rotation_scale(textstyle) macro_in=src/format/mod.rs
//@params scale
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-rotation-scale"@, scale.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_letter_kerning macro=valueformat(ValueFormatNumber,ValueType::Number)>style_letter_kerning(textstyle) macro_in=src/format/mod.rs
//@params kerning
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:letter-kerning"@, kerning.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_combine macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_combine(textstyle) macro_in=src/format/mod.rs
//@params pos
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-combine"@, pos.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_combine_start_char macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_combine_start_char(textstyle) macro_in=src/format/mod.rs
//@params c
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-combine-start-char"@, c.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_combine_end_char macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_combine_end_char(textstyle) macro_in=src/format/mod.rs
//@params c
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-combine-end-char"@, c.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_emphasize macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_emphasize(textstyle) macro_in=src/format/mod.rs
//@params emphasize position
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-emphasize"@, emphasize.shown() + " "@ + position.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_color macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_line_through(textstyle) macro_in=src/format/mod.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-color"@, sp_color_string(color)), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_mode macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_line_through(textstyle) macro_in=src/format/mod.rs
//@params lmode
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-mode"@, lmode.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_style macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_line_through(textstyle) macro_in=src/format/mod.rs
//@params lstyle
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-style"@, lstyle.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_text macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_line_through(textstyle) macro_in=src/format/mod.rs
//@params text
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-text"@, text@), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_text_style macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_line_through(textstyle) macro_in=src/format/mod.rs
//@params style_ref
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-text-style"@, style_ref.text()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_type macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_line_through(textstyle) macro_in=src/format/mod.rs
//@params ltype
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-type"@, ltype.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_line_through_width macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_line_through(textstyle) macro_in=src/format/mod.rs
//@params lwidth
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-line-through-width"@, lwidth.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_font_text_outline macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_outline(textstyle) macro_in=src/format/mod.rs
//@params outline
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-outline"@, outline.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_color macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_overline(textstyle) macro_in=src/format/mod.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-color"@, sp_color_string(color)), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_mode macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_overline(textstyle) macro_in=src/format/mod.rs
//@params lmode
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-mode"@, lmode.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_style macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_overline(textstyle) macro_in=src/format/mod.rs
//@params lstyle
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-style"@, lstyle.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_type macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_overline(textstyle) macro_in=src/format/mod.rs
//@params ltype
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-type"@, ltype.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_overline_width macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_overline(textstyle) macro_in=src/format/mod.rs
//@params lwidth
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-overline-width"@, lwidth.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_color macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_underline(textstyle) macro_in=src/format/mod.rs
//@params color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-color"@, sp_color_string(color)), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_mode macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_underline(textstyle) macro_in=src/format/mod.rs
//@params lmode
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-mode"@, lmode.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_style macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_underline(textstyle) macro_in=src/format/mod.rs
//@params lstyle
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-style"@, lstyle.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_type macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_underline(textstyle) macro_in=src/format/mod.rs
//@params ltype
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-type"@, ltype.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_text_underline_width macro=valueformat(ValueFormatNumber,ValueType::Number)>style_text_underline(textstyle) macro_in=src/format/mod.rs
//@params lwidth
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:text-underline-width"@, lwidth.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_style.rs path=set_use_window_font_color macro=valueformat(ValueFormatNumber,ValueType::Number)>style_use_window_font_color(textstyle) macro_in=src/format/mod.rs
//@params window_color
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("style:use-window-font-color"@, window_color.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_text.rs path=set_text_condition macro=valueformat(ValueFormatNumber,ValueType::Number)>text_condition(textstyle) macro_in=src/format/mod.rs
//@params cond
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("text:condition"@, cond.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
//@fn file=src/macro_attr_text.rs path=set_display macro=valueformat(ValueFormatNumber,ValueType::Number)>text_display(textstyle) macro_in=src/format/mod.rs
//@params cond
//@spec
    requires old(self).textstyle.wf(),
    ensures final(self).textstyle@ == old(self).textstyle@.insert("text:display"@, cond.shown()), *final(self) == (ValueFormatNumber { textstyle: final(self).textstyle, ..*old(self) }), final(self).textstyle.wf(),
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatCurrency macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@end
impl ValueFormatCurrency {
//@fn file=src/macro_attr_number.rs path=set_automatic_order macro=number_automatic_order(attr) macro_in=src/format/mod.rs
//@params volatile
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("number:automatic-order"@, volatile.shown()), *final(self) == (ValueFormatCurrency { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatDateTime macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@end
impl ValueFormatDateTime {
//@fn file=src/macro_attr_number.rs path=set_automatic_order macro=number_automatic_order(attr) macro_in=src/format/mod.rs
//@params volatile
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("number:automatic-order"@, volatile.shown()), *final(self) == (ValueFormatDateTime { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_number.rs path=set_format_source macro=number_format_source(attr) macro_in=src/format/mod.rs
//@params source
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("number:format-source"@, source.shown()), *final(self) == (ValueFormatDateTime { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatTimeDuration macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@end
impl ValueFormatTimeDuration {
//@fn file=src/macro_attr_number.rs path=set_format_source macro=number_format_source(attr) macro_in=src/format/mod.rs
//@params source
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("number:format-source"@, source.shown()), *final(self) == (ValueFormatTimeDuration { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
//@fn file=src/macro_attr_number.rs path=set_truncate_on_overflow macro=number_truncate_on_overflow(attr) macro_in=src/format/mod.rs
//@params truncate
//@spec
    requires old(self).attr.wf(),
    ensures final(self).attr@ == old(self).attr@.insert("number:truncate-on-overflow"@, truncate.shown()), *final(self) == (ValueFormatTimeDuration { attr: final(self).attr, ..*old(self) }), final(self).attr.wf(),
//@end
}
} // verus!
fn main() {}
