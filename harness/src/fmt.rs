//! C19: value formats are built as asked, the ready-made formats are what they are called.
use crate::attrs::chk;
use crate::core::Ctx;
use crate::gen::*;
use crate::{ck, ckeq};
use icu_locale_core::{locale, Locale};
use spreadsheet_ods::color::Rgb;
use spreadsheet_ods::defaultstyles::{DefaultFormat, DefaultStyle};
use spreadsheet_ods::format::*;
use spreadsheet_ods::style::units::*;
use spreadsheet_ods::style::*;
use spreadsheet_ods::*;
use std::collections::BTreeMap;

macro_rules! text_setters { ($ctx:expr, $t:ident) => {
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_background_color, "fo:background-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_color, "fo:color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_name, "style:font-name", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_size, "fo:font-size", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_size_rel, "style:font-size-rel", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_style, "fo:font-style", (FontStyle::Normal => "normal"), (FontStyle::Italic => "italic"), (FontStyle::Oblique => "oblique"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_italic, "fo:font-style", ( => "italic"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_weight, "fo:font-weight", (FontWeight::Normal => "normal"), (FontWeight::Bold => "bold"), (FontWeight::W100 => "100"), (FontWeight::W200 => "200"), (FontWeight::W300 => "300"), (FontWeight::W400 => "400"), (FontWeight::W500 => "500"), (FontWeight::W600 => "600"), (FontWeight::W700 => "700"), (FontWeight::W800 => "800"), (FontWeight::W900 => "900"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_bold, "fo:font-weight", ( => "bold"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_variant, "fo:font-variant", (FontVariant::Normal => "normal"), (FontVariant::SmallCaps => "small-caps"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_name_asian, "style:font-name-asian", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_size_asian, "style:font-size-asian", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_size_rel_asian, "style:font-size-rel-asian", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_style_asian, "style:font-style-asian", (FontStyle::Normal => "normal"), (FontStyle::Italic => "italic"), (FontStyle::Oblique => "oblique"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_italic_asian, "style:font-style-asian", ( => "italic"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_weight_asian, "style:font-weight-asian", (FontWeight::Normal => "normal"), (FontWeight::Bold => "bold"), (FontWeight::W100 => "100"), (FontWeight::W200 => "200"), (FontWeight::W300 => "300"), (FontWeight::W400 => "400"), (FontWeight::W500 => "500"), (FontWeight::W600 => "600"), (FontWeight::W700 => "700"), (FontWeight::W800 => "800"), (FontWeight::W900 => "900"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_bold_asian, "style:font-weight-asian", ( => "bold"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_name_complex, "style:font-name-complex", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_size_complex, "style:font-size-complex", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_size_rel_complex, "style:font-size-rel-complex", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_style_complex, "style:font-style-complex", (FontStyle::Normal => "normal"), (FontStyle::Italic => "italic"), (FontStyle::Oblique => "oblique"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_italic_complex, "style:font-style-complex", ( => "italic"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_weight_complex, "style:font-weight-complex", (FontWeight::Normal => "normal"), (FontWeight::Bold => "bold"), (FontWeight::W100 => "100"), (FontWeight::W200 => "200"), (FontWeight::W300 => "300"), (FontWeight::W400 => "400"), (FontWeight::W500 => "500"), (FontWeight::W600 => "600"), (FontWeight::W700 => "700"), (FontWeight::W800 => "800"), (FontWeight::W900 => "900"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_bold_complex, "style:font-weight-complex", ( => "bold"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_hyphenate, "fo:hyphenate", (true => "true"), (false => "false"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_hyphenation_push_char_count, "fo:hyphenation-push-char-count", (7 => "7"), (0 => "0"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_hyphenation_remain_char_count, "fo:hyphenation-remain-char-count", (7 => "7"), (0 => "0"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_letter_spacing, "fo:letter-spacing", (LetterSpacing::Length(mm!(3)) => "3mm"), (LetterSpacing::Normal => "normal"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_shadow, "fo:text-shadow", (mm!(1), mm!(2), None, Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm"), (mm!(1), mm!(2), Some(mm!(4)), Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm 4mm"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_transform, "fo:text-transform", (TextTransform::None => "none"), (TextTransform::Lowercase => "lowercase"), (TextTransform::Uppercase => "uppercase"), (TextTransform::Capitalize => "capitalize"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_relief, "style:font-relief", (TextRelief::None => "none"), (TextRelief::Embossed => "embossed"), (TextRelief::Engraved => "engraved"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_position, "style:text-position", (TextPosition::Sub, None => "sub"), (TextPosition::Super, Some(Percent::Percent(50.0)) => "super 50%"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_rotation_angle, "style:rotation-angle", (Angle::Deg(90.0) => "90deg"), (Angle::Rad(1.5) => "1.5rad"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_rotation_scale, "style:text-rotation-scale", (RotationScale::Fixed => "fixed"), (RotationScale::LineHeight => "line-height"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_letter_kerning, "style:letter-kerning", (true => "true"), (false => "false"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_combine, "style:text-combine", (TextCombine::None => "none"), (TextCombine::Letters => "letters"), (TextCombine::Lines => "lines"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_combine_start_char, "style:text-combine-start-char", ('x' => "x"), ('<' => "<"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_combine_end_char, "style:text-combine-end-char", ('x' => "x"), ('<' => "<"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_emphasize, "style:text-emphasize", (TextEmphasize::Dot, TextEmphasizePosition::Above => "dot above"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_line_through_color, "style:text-line-through-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_line_through_mode, "style:text-line-through-mode", (LineMode::Continuous => "continuous"), (LineMode::SkipWhiteSpace => "skip-white-space"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_line_through_style, "style:text-line-through-style", (LineStyle::Dash => "dash"), (LineStyle::DotDash => "dot-dash"), (LineStyle::DotDotDash => "dot-dot-dash"), (LineStyle::Dotted => "dotted"), (LineStyle::LongDash => "long-dash"), (LineStyle::None => "none"), (LineStyle::Solid => "solid"), (LineStyle::Wave => "wave"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_line_through_text, "style:text-line-through-text", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_line_through_text_style, "style:text-line-through-text-style", (TextStyleRef::from("t1") => "t1"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_line_through_type, "style:text-line-through-type", (LineType::None => "none"), (LineType::Single => "single"), (LineType::Double => "double"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_line_through_width, "style:text-line-through-width", (LineWidth::Bold => "bold"), (LineWidth::Length(mm!(3)) => "3mm"), (LineWidth::Percent(Percent::Percent(5.0)) => "5%"), (LineWidth::Int(3) => "3"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_font_text_outline, "style:text-outline", (true => "true"), (false => "false"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_overline_color, "style:text-overline-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_overline_mode, "style:text-overline-mode", (LineMode::Continuous => "continuous"), (LineMode::SkipWhiteSpace => "skip-white-space"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_overline_style, "style:text-overline-style", (LineStyle::Dash => "dash"), (LineStyle::DotDash => "dot-dash"), (LineStyle::DotDotDash => "dot-dot-dash"), (LineStyle::Dotted => "dotted"), (LineStyle::LongDash => "long-dash"), (LineStyle::None => "none"), (LineStyle::Solid => "solid"), (LineStyle::Wave => "wave"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_overline_type, "style:text-overline-type", (LineType::None => "none"), (LineType::Single => "single"), (LineType::Double => "double"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_overline_width, "style:text-overline-width", (LineWidth::Bold => "bold"), (LineWidth::Length(mm!(3)) => "3mm"), (LineWidth::Percent(Percent::Percent(5.0)) => "5%"), (LineWidth::Int(3) => "3"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_underline_color, "style:text-underline-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_underline_mode, "style:text-underline-mode", (LineMode::Continuous => "continuous"), (LineMode::SkipWhiteSpace => "skip-white-space"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_underline_style, "style:text-underline-style", (LineStyle::Dash => "dash"), (LineStyle::DotDash => "dot-dash"), (LineStyle::DotDotDash => "dot-dot-dash"), (LineStyle::Dotted => "dotted"), (LineStyle::LongDash => "long-dash"), (LineStyle::None => "none"), (LineStyle::Solid => "solid"), (LineStyle::Wave => "wave"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_underline_type, "style:text-underline-type", (LineType::None => "none"), (LineType::Single => "single"), (LineType::Double => "double"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_underline_width, "style:text-underline-width", (LineWidth::Bold => "bold"), (LineWidth::Length(mm!(3)) => "3mm"), (LineWidth::Percent(Percent::Percent(5.0)) => "5%"), (LineWidth::Int(3) => "3"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_use_window_font_color, "style:use-window-font-color", (true => "true"), (false => "false"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_text_condition, "text:condition", (TextCondition::None => "none"));
    chk!($ctx, $t::new_empty(), textstyle, textstyle_mut, set_display, "text:display", (TextDisplay::None => "none"), (TextDisplay::Condition => "condition"), (TextDisplay::True => "true"));
} }
const KEYS: [&str; 20] = [
    "number:decimal-places", "number:min-decimal-places", "number:grouping", "number:min-integer-digits", "number:display-factor", "number:decimal-replacement", "number:exponent-interval",
    "number:forced-exponent-sign", "number:min-exponent-digits", "number:denominator-value", "number:max-denominator-value", "number:min-denominator-digits", "number:min-numerator-digits",
    "number:language", "number:country", "number:script", "number:style", "number:calendar", "number:textual", "number:possessive-form",
];
/// kind, attributes, content, position
type P = (FormatPartType, Vec<(&'static str, String)>, Option<String>, Option<i32>);
fn see(p: &FormatPart) -> P {
    let a = KEYS.iter().filter_map(|k| { let v = p.attr_def(k, "\u{1}none"); (v != "\u{1}none").then(|| (*k, v.to_string())) }).collect();
    (p.part_type(), a, p.content().cloned(), p.position())
}
fn want(t: FormatPartType, a: &[(&'static str, &str)], c: Option<&str>) -> P {
    // in the order of KEYS.
    (t, KEYS.iter().filter_map(|k| a.iter().rev().find(|v| v.0 == *k).map(|v| (*k, v.1.to_string()))).collect(), c.map(|v| v.to_string()), None)
}
fn text(s: &str) -> P { want(FormatPartType::Text, &[], Some(s)) }
fn long(t: FormatPartType) -> P { want(t, &[("number:style", "long")], None) }
fn all<T: ValueFormatTrait>(v: &T) -> Vec<P> { v.parts().iter().map(see).collect() }
fn attrs<T: ValueFormatTrait>(v: &T) -> BTreeMap<String, String> { v.attrmap().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect() }
fn loc_attrs(l: Option<&Locale>) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Some(l) = l {
        m.insert("number:language".to_string(), l.id.language.to_string());
        if let Some(r) = l.id.region { m.insert("number:country".to_string(), r.to_string()); }
        if let Some(s) = l.id.script { m.insert("number:script".to_string(), s.to_string()); }
    }
    m
}
use FormatPartType as F;

/// one method of one builder: the part so far is kept, exactly the attributes named change.
macro_rules! one {
    ($ctx:expr, $vf:ident, $part:ident ( $($pa:expr),* ), $t:ident, $f:ident ( $($a:expr),* ), [ $( $k:literal => $v:expr ),* ], $content:expr, $pos:expr) => {
        $ctx.case(stringify!($f), format!("{}.{}().{}({})", stringify!($vf), stringify!($part), stringify!($f), stringify!($($a),*)), || {
            let mut v = $vf::new_empty();
            // something before stays.
            v.push_part(FormatPart::new(F::Era));
            let _ = v.$part($($pa),*).$f($($a),*).build();
            let mut w = want(F::$t, &[ $( ($k, $v) ),* ], $content);
            w.3 = $pos;
            ckeq!(all(&v), vec![want(F::Era, &[], None), w], "parts");
            ckeq!(attrs(&v).len(), 0, "attributes of the format");
            Ok(())
        });
    };
}
macro_rules! plain {
    ($ctx:expr, $vf:ident, $part:ident ( $($pa:expr),* ), $t:ident, $content:expr) => {
        $ctx.case(stringify!($part), format!("{}.{}()", stringify!($vf), stringify!($part)), || {
            let mut v = $vf::new_empty();
            v.push_part(FormatPart::new(F::Era));
            v.$part($($pa),*).build();
            ckeq!(all(&v), vec![want(F::Era, &[], None), want(F::$t, &[], $content)], "parts");
            Ok(())
        });
    };
}
macro_rules! push {
    ($ctx:expr, $vf:ident, $f:ident ( $($a:expr),* ), $w:expr) => {
        $ctx.case(stringify!($f), format!("{}.{}({})", stringify!($vf), stringify!($f), stringify!($($a),*)), || {
            let mut v = $vf::new_empty();
            v.push_part(FormatPart::new(F::Era));
            v.$f($($a),*);
            ckeq!(all(&v), vec![want(F::Era, &[], None), $w], "parts");
            Ok(())
        });
    };
}
macro_rules! styled {
    ($ctx:expr, $vf:ident, $part:ident, $t:ident) => {
        plain!($ctx, $vf, $part(), $t, None);
        one!($ctx, $vf, $part(), $t, long_style(), ["number:style" => "long"], None, None);
        one!($ctx, $vf, $part(), $t, short_style(), ["number:style" => "short"], None, None);
        one!($ctx, $vf, $part(), $t, style(FormatNumberStyle::Long), ["number:style" => "long"], None, None);
        one!($ctx, $vf, $part(), $t, style(FormatNumberStyle::Short), ["number:style" => "short"], None, None);
        one!($ctx, $vf, $part(), $t, if_then(true, |p| p.long_style()), ["number:style" => "long"], None, None);
        one!($ctx, $vf, $part(), $t, if_then(false, |p| p.long_style()), [], None, None);
    };
}
const CAL: [(FormatCalendarStyle, &str); 7] = [
    (FormatCalendarStyle::Gregorian, "gregorian"), (FormatCalendarStyle::Gengou, "gengou"), (FormatCalendarStyle::Roc, "ROC"), (FormatCalendarStyle::Hanja, "hanja"),
    (FormatCalendarStyle::Hijri, "hijri"), (FormatCalendarStyle::Jewish, "jewish"), (FormatCalendarStyle::Buddhist, "buddhist"),
];
macro_rules! calendar {
    ($ctx:expr, $vf:ident, $part:ident, $t:ident) => { for (c, n) in CAL { one!($ctx, $vf, $part(), $t, calendar(c), ["number:calendar" => n], None, None); } };
}
#[allow(deprecated)]
fn builders(ctx: &mut Ctx) {
    ctx.section("builders of format parts");
    macro_rules! number { ($vf:ident) => {
        plain!(ctx, $vf, part_number(), Number, None);
        for n in [0u8, 1, 2, 9, 10, 99, 255] {
            let t = n.to_string();
            one!(ctx, $vf, part_number(), Number, decimal_places(n), ["number:decimal-places" => &t], None, None);
            one!(ctx, $vf, part_number(), Number, fixed_decimal_places(n), ["number:decimal-places" => &t, "number:min-decimal-places" => &t], None, None);
            one!(ctx, $vf, part_number(), Number, min_decimal_places(n), ["number:min-decimal-places" => &t], None, None);
            one!(ctx, $vf, part_number(), Number, min_integer_digits(n), ["number:min-integer-digits" => &t], None, None);
            for g in [false, true] {
                let ga: &[(&'static str, &str)] = if g { &[("number:grouping", "true")] } else { &[] };
                push!(ctx, $vf, push_number(n, g), want(F::Number, &[&[("number:decimal-places", t.as_str()), ("number:min-decimal-places", "0"), ("number:min-integer-digits", "1")], ga].concat(), None));
                push!(ctx, $vf, push_number_fix(n, g), want(F::Number, &[&[("number:decimal-places", t.as_str()), ("number:min-decimal-places", t.as_str()), ("number:min-integer-digits", "1")], ga].concat(), None));
            }
        }
        one!(ctx, $vf, part_number(), Number, grouping(), ["number:grouping" => "true"], None, None);
        one!(ctx, $vf, part_number(), Number, if_then(true, |p| p.grouping()), ["number:grouping" => "true"], None, None);
        one!(ctx, $vf, part_number(), Number, if_then(false, |p| p.grouping()), [], None, None);
        one!(ctx, $vf, part_number(), Number, display_factor(1000.0), ["number:display-factor" => "1000"], None, None);
        one!(ctx, $vf, part_number(), Number, display_factor(0.5), ["number:display-factor" => "0.5"], None, None);
        one!(ctx, $vf, part_number(), Number, decimal_replacement('-'), ["number:decimal-replacement" => "-"], None, None);
        one!(ctx, $vf, part_number(), Number, embedded_text("a<b", 3), [], Some("a<b"), Some(3));
        one!(ctx, $vf, part_number(), Number, embedded_text("", -1), [], Some(""), Some(-1));
    } }
    number!(ValueFormatNumber);
    number!(ValueFormatPercentage);
    number!(ValueFormatCurrency);
    macro_rules! fill { ($($vf:ident)*) => { $(
        plain!(ctx, $vf, part_fill_character(), FillCharacter, None);
        one!(ctx, $vf, part_fill_character(), FillCharacter, fill_char('*'), [], Some("*"), None);
        plain!(ctx, $vf, part_text("x & y"), Text, Some("x & y"));
        one!(ctx, $vf, part_text("x"), Text, text("y z"), [], Some("y z"), None);
        push!(ctx, $vf, push_text(" < "), want(F::Text, &[], Some(" < ")));
    )* } }
    fill!(ValueFormatNumber ValueFormatPercentage ValueFormatCurrency ValueFormatText ValueFormatDateTime ValueFormatTimeDuration);
    plain!(ctx, ValueFormatNumber, part_scientific(), ScientificNumber, None);
    plain!(ctx, ValueFormatNumber, part_fraction(), Fraction, None);
    for n in [0u8, 1, 3, 200] {
        let t = n.to_string();
        one!(ctx, ValueFormatNumber, part_scientific(), ScientificNumber, decimal_places(n), ["number:decimal-places" => &t], None, None);
        one!(ctx, ValueFormatNumber, part_scientific(), ScientificNumber, expontent_interval(n), ["number:exponent-interval" => &t], None, None);
        one!(ctx, ValueFormatNumber, part_scientific(), ScientificNumber, min_decimal_places(n), ["number:min-decimal-places" => &t], None, None);
        one!(ctx, ValueFormatNumber, part_scientific(), ScientificNumber, min_exponent_digits(n), ["number:min-exponent-digits" => &t], None, None);
        one!(ctx, ValueFormatNumber, part_scientific(), ScientificNumber, min_integer_digits(n), ["number:min-integer-digits" => &t], None, None);
        push!(ctx, ValueFormatNumber, push_scientific(n), want(F::ScientificNumber, &[("number:decimal-places", &t)], None));
        one!(ctx, ValueFormatNumber, part_fraction(), Fraction, min_denominator_digits(n), ["number:min-denominator-digits" => &t], None, None);
        one!(ctx, ValueFormatNumber, part_fraction(), Fraction, min_integer_digits(n), ["number:min-integer-digits" => &t], None, None);
        one!(ctx, ValueFormatNumber, part_fraction(), Fraction, min_numerator_digits(n), ["number:min-numerator-digits" => &t], None, None);
        one!(ctx, ValueFormatDateTime, part_seconds(), Seconds, decimal_places(n), ["number:decimal-places" => &t], None, None);
        push!(ctx, ValueFormatDateTime, push_seconds(FormatNumberStyle::Long, n), want(F::Seconds, &[("number:style", "long"), ("number:decimal-places", &t)], None));
        push!(ctx, ValueFormatTimeDuration, push_seconds(FormatNumberStyle::Short, n), want(F::Seconds, &[("number:style", "short"), ("number:decimal-places", &t)], None));
    }
    one!(ctx, ValueFormatNumber, part_scientific(), ScientificNumber, grouping(), ["number:grouping" => "true"], None, None);
    one!(ctx, ValueFormatNumber, part_scientific(), ScientificNumber, forced_exponent_sign(true), ["number:forced-exponent-sign" => "true"], None, None);
    one!(ctx, ValueFormatNumber, part_scientific(), ScientificNumber, forced_exponent_sign(false), ["number:forced-exponent-sign" => "false"], None, None);
    one!(ctx, ValueFormatNumber, part_fraction(), Fraction, grouping(), ["number:grouping" => "true"], None, None);
    for n in [1i64, 2, 16, -5, i64::MAX] {
        let t = n.to_string();
        one!(ctx, ValueFormatNumber, part_fraction(), Fraction, denominator(n), ["number:denominator-value" => &t], None, None);
        one!(ctx, ValueFormatNumber, part_fraction(), Fraction, max_denominator(n), ["number:max-denominator-value" => &t], None, None);
        push!(ctx, ValueFormatNumber, push_fraction(n, 2, 3, 4, false), want(F::Fraction, &[("number:denominator-value", &t), ("number:min-denominator-digits", "2"), ("number:min-integer-digits", "3"), ("number:min-numerator-digits", "4")], None));
        push!(ctx, ValueFormatNumber, push_fraction(n, 2, 3, 4, true), want(F::Fraction, &[("number:denominator-value", &t), ("number:min-denominator-digits", "2"), ("number:min-integer-digits", "3"), ("number:min-numerator-digits", "4"), ("number:grouping", "true")], None));
    }
    plain!(ctx, ValueFormatCurrency, part_currency(), CurrencySymbol, None);
    one!(ctx, ValueFormatCurrency, part_currency(), CurrencySymbol, symbol("€&"), [], Some("€&"), None);
    one!(ctx, ValueFormatCurrency, part_currency(), CurrencySymbol, locale(locale!("en")), ["number:language" => "en"], None, None);
    one!(ctx, ValueFormatCurrency, part_currency(), CurrencySymbol, locale(locale!("de-AT")), ["number:language" => "de", "number:country" => "AT"], None, None);
    one!(ctx, ValueFormatCurrency, part_currency(), CurrencySymbol, locale(locale!("sr-Cyrl-RS")), ["number:language" => "sr", "number:country" => "RS", "number:script" => "Cyrl"], None, None);
    push!(ctx, ValueFormatCurrency, push_currency_symbol(locale!("de-AT"), "€"), want(F::CurrencySymbol, &[("number:language", "de"), ("number:country", "AT")], Some("€")));
    styled!(ctx, ValueFormatDateTime, part_day, Day);
    styled!(ctx, ValueFormatDateTime, part_month, Month);
    styled!(ctx, ValueFormatDateTime, part_year, Year);
    styled!(ctx, ValueFormatDateTime, part_era, Era);
    styled!(ctx, ValueFormatDateTime, part_day_of_week, DayOfWeek);
    styled!(ctx, ValueFormatDateTime, part_quarter, Quarter);
    styled!(ctx, ValueFormatDateTime, part_hours, Hours);
    styled!(ctx, ValueFormatDateTime, part_minutes, Minutes);
    styled!(ctx, ValueFormatDateTime, part_seconds, Seconds);
    styled!(ctx, ValueFormatTimeDuration, part_hours, Hours);
    styled!(ctx, ValueFormatTimeDuration, part_minutes, Minutes);
    styled!(ctx, ValueFormatTimeDuration, part_seconds, Seconds);
    calendar!(ctx, ValueFormatDateTime, part_day, Day);
    calendar!(ctx, ValueFormatDateTime, part_month, Month);
    calendar!(ctx, ValueFormatDateTime, part_year, Year);
    calendar!(ctx, ValueFormatDateTime, part_era, Era);
    calendar!(ctx, ValueFormatDateTime, part_day_of_week, DayOfWeek);
    calendar!(ctx, ValueFormatDateTime, part_week_of_year, WeekOfYear);
    calendar!(ctx, ValueFormatDateTime, part_quarter, Quarter);
    plain!(ctx, ValueFormatDateTime, part_week_of_year(), WeekOfYear, None);
    one!(ctx, ValueFormatDateTime, part_month(), Month, textual(), ["number:textual" => "true"], None, None);
    one!(ctx, ValueFormatDateTime, part_month(), Month, possessive_form(), ["number:possessive-form" => "true"], None, None);
    plain!(ctx, ValueFormatDateTime, part_am_pm(), AmPm, None);
    plain!(ctx, ValueFormatTimeDuration, part_am_pm(), AmPm, None);
    plain!(ctx, ValueFormatBoolean, part_boolean(), Boolean, None);
    plain!(ctx, ValueFormatText, part_text_content(), TextContent, None);
    push!(ctx, ValueFormatBoolean, push_boolean(), want(F::Boolean, &[], None));
    push!(ctx, ValueFormatText, push_text_content(), want(F::TextContent, &[], None));
    push!(ctx, ValueFormatDateTime, push_am_pm(), want(F::AmPm, &[], None));
    push!(ctx, ValueFormatTimeDuration, push_am_pm(), want(F::AmPm, &[], None));
    for (s, n) in [(FormatNumberStyle::Long, "long"), (FormatNumberStyle::Short, "short")] {
        push!(ctx, ValueFormatDateTime, push_day(s), want(F::Day, &[("number:style", n)], None));
        push!(ctx, ValueFormatDateTime, push_year(s), want(F::Year, &[("number:style", n)], None));
        push!(ctx, ValueFormatDateTime, push_hours(s), want(F::Hours, &[("number:style", n)], None));
        push!(ctx, ValueFormatDateTime, push_minutes(s), want(F::Minutes, &[("number:style", n)], None));
        push!(ctx, ValueFormatTimeDuration, push_hours(s), want(F::Hours, &[("number:style", n)], None));
        push!(ctx, ValueFormatTimeDuration, push_minutes(s), want(F::Minutes, &[("number:style", n)], None));
        push!(ctx, ValueFormatDateTime, push_month(s, true), want(F::Month, &[("number:style", n), ("number:textual", "true")], None));
        push!(ctx, ValueFormatDateTime, push_month(s, false), want(F::Month, &[("number:style", n)], None));
        for (c, m) in CAL {
            push!(ctx, ValueFormatDateTime, push_era(s, c), want(F::Era, &[("number:style", n), ("number:calendar", m)], None));
            push!(ctx, ValueFormatDateTime, push_day_of_week(s, c), want(F::DayOfWeek, &[("number:style", n), ("number:calendar", m)], None));
            push!(ctx, ValueFormatDateTime, push_quarter(s, c), want(F::Quarter, &[("number:style", n), ("number:calendar", m)], None));
            push!(ctx, ValueFormatDateTime, push_week_of_year(c), want(F::WeekOfYear, &[("number:calendar", m)], None));
        }
    }
    // several calls: the last one for an attribute counts, the others stay.
    let mut r = ctx.rng("c19");
    for _ in 0..ctx.n(300, 3000) {
        let ops: Vec<(u8, u8)> = (0..r.below(7)).map(|_| (r.below(6) as u8, r.below(12) as u8)).collect();
        ctx.case("chain", format!("{:?}", ops), || {
            let mut v = ValueFormatNumber::new_named("n");
            let mut p = v.part_number();
            let mut m: Vec<(&'static str, String)> = vec![];
            let (mut c, mut pos) = (None, None);
            for (o, n) in &ops {
                let t = n.to_string();
                p = match o {
                    0 => { m.push(("number:decimal-places", t)); p.decimal_places(*n) }
                    1 => { m.push(("number:decimal-places", t.clone())); m.push(("number:min-decimal-places", t)); p.fixed_decimal_places(*n) }
                    2 => { m.push(("number:min-decimal-places", t)); p.min_decimal_places(*n) }
                    3 => { m.push(("number:min-integer-digits", t)); p.min_integer_digits(*n) }
                    4 => { m.push(("number:grouping", "true".to_string())); p.grouping() }
                    _ => { c = Some(t.clone()); pos = Some(*n as i32); p.embedded_text(t, *n as i32) }
                };
            }
            p.build();
            let mr: Vec<(&'static str, &str)> = m.iter().map(|v| (v.0, v.1.as_str())).collect();
            let mut w = want(F::Number, &mr, c.as_deref());
            w.3 = pos;
            ckeq!(all(&v), vec![w], "parts");
            Ok(())
        });
    }
}
macro_rules! made {
    ($ctx:expr, $e:expr, $ty:expr, $name:expr, $loc:expr, $extra:expr, $parts:expr) => {
        $ctx.case("create", stringify!($e).to_string(), || {
            let v = $e;
            ckeq!(v.name(), $name, "name");
            ckeq!(v.value_type(), $ty, "value type");
            let mut a = loc_attrs($loc);
            for (k, t) in $extra { let (k, t): (&str, &str) = (k, t); a.insert(k.to_string(), t.to_string()); }
            ckeq!(attrs(&v), a, "attributes");
            ckeq!(all(&v), $parts, "parts");
            ck!(v.textstyle().is_empty() && v.stylemaps().is_none(), "something else is set");
            Ok(())
        });
    };
}
fn num(a: &[(&'static str, &str)]) -> P { want(F::Number, a, None) }
fn cur(l: &Locale, s: &str) -> P {
    let (lang, reg, scr) = (l.id.language.to_string(), l.id.region.map(|v| v.to_string()), l.id.script.map(|v| v.to_string()));
    let mut a: Vec<(&'static str, &str)> = vec![("number:language", &lang)];
    if let Some(v) = &reg { a.push(("number:country", v)); }
    if let Some(v) = &scr { a.push(("number:script", v)); }
    want(F::CurrencySymbol, &a, Some(s))
}
fn dmy(sep: &str) -> Vec<P> { vec![long(F::Day), text(sep), long(F::Month), text(sep), long(F::Year)] }
fn mdy(sep: &str) -> Vec<P> { vec![long(F::Month), text(sep), long(F::Day), text(sep), long(F::Year)] }
fn ymd(sep: &str) -> Vec<P> { vec![long(F::Year), text(sep), long(F::Month), text(sep), long(F::Day)] }
fn hms() -> Vec<P> { vec![long(F::Hours), text(":"), long(F::Minutes), text(":"), long(F::Seconds)] }
fn both(mut d: Vec<P>) -> Vec<P> { d.push(text(" ")); d.extend(hms()); d }
fn ready_made(ctx: &mut Ctx) {
    ctx.section("ready-made formats");
    let no: [(&str, &str); 0] = [];
    const OVER: [(&str, &str); 1] = [("number:truncate-on-overflow", "false")];
    for l in [locale!("en"), locale!("de-AT"), locale!("sr-Cyrl-RS")] {
        let lo = Some(&l);
        let sl = locale!("fr-CA");
        made!(ctx, create_loc_boolean_format("f1", l.clone()), ValueType::Boolean, "f1", lo, no, vec![want(F::Boolean, &[], None)]);
        made!(ctx, create_loc_currency_prefix("f1", l.clone(), sl.clone(), "€"), ValueType::Currency, "f1", lo, no, vec![cur(&sl, "€"), text(" "), num(&[("number:decimal-places", "2"), ("number:min-decimal-places", "2"), ("number:grouping", "true")])]);
        made!(ctx, create_loc_currency_suffix("f1", l.clone(), sl.clone(), "€"), ValueType::Currency, "f1", lo, no, vec![num(&[("number:decimal-places", "2"), ("number:min-decimal-places", "2"), ("number:grouping", "true")]), text(" "), cur(&sl, "€")]);
        made!(ctx, create_loc_date_dmy_format("f1", l.clone()), ValueType::DateTime, "f1", lo, no, dmy("."));
        made!(ctx, create_loc_date_mdy_format("f1", l.clone()), ValueType::DateTime, "f1", lo, no, mdy("/"));
        made!(ctx, create_loc_datetime_format("f1", l.clone()), ValueType::DateTime, "f1", lo, no, both(dmy(".")));
        made!(ctx, create_loc_time_format("f1", l.clone()), ValueType::TimeDuration, "f1", lo, no, hms());
        made!(ctx, create_loc_time_interval_format("f1", l.clone()), ValueType::TimeDuration, "f1", lo, OVER, hms());
        for n in [0u8, 1, 2, 7, 255] {
            let t = n.to_string();
            let d = ("number:decimal-places", t.as_str());
            let m = ("number:min-decimal-places", t.as_str());
            made!(ctx, create_loc_percentage_format("f1", l.clone(), n), ValueType::Percentage, "f1", lo, no, vec![num(&[d]), text("%")]);
            made!(ctx, create_percentage_format("f1", n), ValueType::Percentage, "f1", None, no, vec![num(&[d, m]), text("%")]);
            for g in [false, true] {
                let ga: &[(&'static str, &str)] = if g { &[("number:grouping", "true")] } else { &[] };
                let i = ("number:min-integer-digits", "1");
                made!(ctx, create_loc_number_format("f1", l.clone(), n, g), ValueType::Number, "f1", lo, no, vec![num(&[&[d, i], ga].concat())]);
                made!(ctx, create_loc_number_format_fixed("f1", l.clone(), n, g), ValueType::Number, "f1", lo, no, vec![num(&[&[d, m, i], ga].concat())]);
                made!(ctx, create_number_format("f1", n, g), ValueType::Number, "f1", None, no, vec![num(&[&[d], ga].concat())]);
                made!(ctx, create_number_format_fixed("f1", n, g), ValueType::Number, "f1", None, no, vec![num(&[&[d, m, i], ga].concat())]);
            }
        }
        made!(ctx, create_boolean_format("f1"), ValueType::Boolean, "f1", None, no, vec![want(F::Boolean, &[], None)]);
        made!(ctx, create_currency_prefix("f1", l.clone(), "$"), ValueType::Currency, "f1", None, no, vec![cur(&l, "$"), text(" "), num(&[("number:decimal-places", "2"), ("number:min-decimal-places", "2"), ("number:grouping", "true")])]);
        made!(ctx, create_currency_suffix("f1", l.clone(), "$"), ValueType::Currency, "f1", None, no, vec![num(&[("number:decimal-places", "2"), ("number:min-decimal-places", "2"), ("number:grouping", "true")]), text(" "), cur(&l, "$")]);
    }
    made!(ctx, create_date_iso_format("f1"), ValueType::DateTime, "f1", None, no, ymd("-"));
    made!(ctx, create_date_dmy_format("f1"), ValueType::DateTime, "f1", None, no, dmy("."));
    made!(ctx, create_date_mdy_format("f1"), ValueType::DateTime, "f1", None, no, mdy("/"));
    made!(ctx, create_datetime_format("f1"), ValueType::DateTime, "f1", None, no, both(ymd("-")));
    made!(ctx, create_time_of_day_format("f1"), ValueType::TimeDuration, "f1", None, no, hms());
    made!(ctx, create_time_interval_format("f1"), ValueType::TimeDuration, "f1", None, OVER, hms());
}
fn format_of(b: &WorkBook, s: &CellStyleRef) -> Option<String> { b.cellstyle(s.as_str()).and_then(|s| s.value_format().map(|f| f.to_string())) }
fn workbooks(ctx: &mut Ctx) {
    ctx.section("formats of a new workbook");
    for (l, symbol) in [(locale!("en"), "$"), (locale!("en-US"), "$"), (locale!("de-AT"), "€"), (locale!("cs-CZ"), "Kč")] {
        ctx.case("new", format!("WorkBook::new({})", l), || {
            let b = WorkBook::new(l.clone());
            let la = loc_attrs(Some(&l));
            macro_rules! f { ($style:ident, $fm:ident, $get:ident, $over:expr, $parts:expr) => {
                let n = match format_of(&b, &DefaultStyle::$style()) { Some(n) => n, None => return Err(format!("style for {} has no format", stringify!($style))) };
                ckeq!(n, DefaultFormat::$fm().as_str().to_string(), "format of the style {}", stringify!($style));
                match b.$get(&n) {
                    None => return Err(format!("format {:?} of the default style for {} is missing", n, stringify!($style))),
                    Some(v) => {
                        ckeq!(v.name(), n.as_str(), "name");
                        let mut a = la.clone();
                        if $over { a.insert("number:truncate-on-overflow".to_string(), "false".to_string()); }
                        ckeq!(attrs(v), a, "{}: attributes", n);
                        ckeq!(all(v), $parts, "{}: parts", n);
                    }
                }
            } }
            f!(bool, bool, boolean_format, false, vec![want(F::Boolean, &[], None)]);
            f!(number, number, number_format, false, vec![num(&[("number:min-integer-digits", "1"), ("number:decimal-places", "2")])]);
            f!(percent, percent, percentage_format, false, vec![num(&[("number:min-integer-digits", "1"), ("number:decimal-places", "2")]), text("%")]);
            f!(currency, currency, currency_format, false, vec![cur(&l, symbol), text("\u{a0}"), num(&[("number:min-integer-digits", "1"), ("number:decimal-places", "2"), ("number:min-decimal-places", "2"), ("number:grouping", "true")])]);
            let us = l == locale!("en-US");
            let en = l == locale!("en");
            f!(date, date, datetime_format, false, if en { ymd("-") } else if us { mdy("/") } else { dmy(".") });
            f!(datetime, datetime, datetime_format, false, both(if en { ymd("-") } else { dmy(".") }));
            let mut t = hms();
            if us { t.push(text(" ")); t.push(want(F::AmPm, &[], None)); }
            f!(time_of_day, time_of_day, datetime_format, false, t);
            f!(time_interval, time_interval, timeduration_format, true, hms());
            for (t, s) in [(ValueType::Boolean, DefaultStyle::bool()), (ValueType::Number, DefaultStyle::number()), (ValueType::Percentage, DefaultStyle::percent()), (ValueType::Currency, DefaultStyle::currency()), (ValueType::DateTime, DefaultStyle::date()), (ValueType::TimeDuration, DefaultStyle::time_interval())] {
                ckeq!(b.def_style(t).map(|v| v.as_str().to_string()), Some(s.as_str().to_string()), "default style for {:?}", t);
            }
            Ok(())
        });
    }
    #[allow(deprecated)]
    ctx.case("new", "create_default_styles(new_empty)".to_string(), || {
        let mut b = WorkBook::new_empty();
        spreadsheet_ods::defaultstyles::create_default_styles(&mut b);
        macro_rules! f { ($style:ident, $get:ident, $over:expr, $parts:expr) => {
            ckeq!(format_of(&b, &DefaultStyle::$style()), Some(DefaultFormat::$style().as_str().to_string()), "format of the style {}", stringify!($style));
            match b.$get(DefaultFormat::$style().as_str()) {
                None => return Err(format!("no format for {}", stringify!($style))),
                Some(v) => {
                    let mut a = BTreeMap::new();
                    if $over { a.insert("number:truncate-on-overflow".to_string(), "false".to_string()); }
                    ckeq!(attrs(v), a, "{}: attributes", stringify!($style));
                    ckeq!(all(v), $parts, "{}: parts", stringify!($style));
                }
            }
        } }
        f!(bool, boolean_format, false, vec![want(F::Boolean, &[], None)]);
        f!(number, number_format, false, vec![num(&[("number:decimal-places", "2")])]);
        f!(percent, percentage_format, false, vec![num(&[("number:decimal-places", "2"), ("number:min-decimal-places", "2")]), text("%")]);
        f!(currency, currency_format, false, vec![cur(&locale!("de-AT"), "€"), text(" "), num(&[("number:decimal-places", "2"), ("number:min-decimal-places", "2"), ("number:grouping", "true")])]);
        f!(date, datetime_format, false, dmy("."));
        f!(datetime, datetime_format, false, both(ymd("-")));
        f!(time_of_day, timeduration_format, false, hms());
        f!(time_interval, timeduration_format, true, hms());
        for (t, s) in [(ValueType::Boolean, DefaultStyle::bool()), (ValueType::Number, DefaultStyle::number()), (ValueType::Percentage, DefaultStyle::percent()), (ValueType::Currency, DefaultStyle::currency()), (ValueType::DateTime, DefaultStyle::date()), (ValueType::TimeDuration, DefaultStyle::time_interval())] {
            ckeq!(b.def_style(t).map(|v| v.as_str().to_string()), Some(s.as_str().to_string()), "default style for {:?}", t);
        }
        Ok(())
    });
    ctx.case("new", "WorkBook::new(fr-FR)".to_string(), || {
        let b = WorkBook::new(locale!("fr-FR"));
        ckeq!(b.iter_number_formats().count() + b.iter_datetime_formats().count(), 0, "formats of an unknown locale");
        Ok(())
    });
}
pub fn setters(ctx: &mut Ctx) {
    ctx.section("typed setters of value formats");
    text_setters!(ctx, ValueFormatNumber);
    text_setters!(ctx, ValueFormatTimeDuration);
    macro_rules! of { ($t:ident) => {
        chk!(ctx, $t::new_empty(), attrmap, attrmap_mut, set_title, "number:title", ("a<b" => "a<b"));
        chk!(ctx, $t::new_empty(), attrmap, attrmap_mut, set_display_name, "style:display-name", ("a<b" => "a<b"));
        chk!(ctx, $t::new_empty(), attrmap, attrmap_mut, set_volatile, "style:volatile", (true => "true"), (false => "false"));
        chk!(ctx, $t::new_empty(), attrmap, attrmap_mut, set_transliteration_format, "number:transliteration-format", ('x' => "x"), ('é' => "é"));
        chk!(ctx, $t::new_empty(), attrmap, attrmap_mut, set_transliteration_style, "number:transliteration-style", (TransliterationStyle::Short => "short"), (TransliterationStyle::Medium => "medium"), (TransliterationStyle::Long => "long"));
        ctx.case("getters", stringify!($t).to_string(), || {
            let mut v = $t::new_empty();
            ck!(v.title().is_none() && v.locale().is_none() && v.volatile().is_none() && v.transliteration_locale().is_none() && v.transliteration_format().is_none() && v.transliteration_style().map_err(|e| e.to_string())?.is_none(), "not set");
            for l in [locale!("sr-Cyrl-RS"), locale!("de-AT"), locale!("en"), locale!("zh-Hant")] {
                v.set_locale(l.clone());
                ckeq!(v.locale(), Some(l.clone()), "locale");
                ckeq!(attrs(&v), loc_attrs(Some(&l)), "attributes of the locale");
            }
            v.set_locale(Locale::UNKNOWN);
            ckeq!(attrs(&v).len(), 0, "locale cleared");
            for l in [locale!("de-AT"), locale!("en")] {
                v.set_transliteration_locale(l.clone());
                ckeq!(v.transliteration_locale(), Some(l.clone()), "transliteration locale");
                let mut w = BTreeMap::new();
                w.insert("number:transliteration-language".to_string(), l.id.language.to_string());
                if let Some(r) = l.id.region { w.insert("number:transliteration-country".to_string(), r.to_string()); }
                ckeq!(attrs(&v), w, "attributes of the locale");
            }
            v.set_transliteration_locale(Locale::UNKNOWN);
            ckeq!(attrs(&v).len(), 0, "locale cleared");
            v.set_title("t");
            v.set_volatile(true);
            v.set_transliteration_format('y');
            v.set_transliteration_style(TransliterationStyle::Medium);
            ckeq!(v.title(), Some("t"), "title");
            ckeq!(v.volatile(), Some(true), "volatile");
            ckeq!(v.transliteration_format(), Some('y'), "format");
            ckeq!(v.transliteration_style().map_err(|e| e.to_string())?, Some(TransliterationStyle::Medium), "style");
            ck!(v.textstyle().is_empty() && v.parts().is_empty(), "something else is set");
            let w = $t::new_localized("nm", locale!("de-AT"));
            ckeq!((w.name().as_str(), w.locale()), ("nm", Some(locale!("de-AT"))), "new_localized");
            ckeq!(w.format_ref().as_str().to_string(), "nm".to_string(), "reference");
            Ok(())
        });
    } }
    of!(ValueFormatBoolean); of!(ValueFormatNumber); of!(ValueFormatPercentage); of!(ValueFormatCurrency); of!(ValueFormatText); of!(ValueFormatDateTime); of!(ValueFormatTimeDuration);
    chk!(ctx, ValueFormatCurrency::new_empty(), attrmap, attrmap_mut, set_automatic_order, "number:automatic-order", (true => "true"), (false => "false"));
    chk!(ctx, ValueFormatDateTime::new_empty(), attrmap, attrmap_mut, set_automatic_order, "number:automatic-order", (true => "true"), (false => "false"));
    chk!(ctx, ValueFormatDateTime::new_empty(), attrmap, attrmap_mut, set_format_source, "number:format-source", (FormatSource::Fixed => "fixed"), (FormatSource::Language => "language"));
    chk!(ctx, ValueFormatTimeDuration::new_empty(), attrmap, attrmap_mut, set_format_source, "number:format-source", (FormatSource::Fixed => "fixed"), (FormatSource::Language => "language"));
    chk!(ctx, ValueFormatTimeDuration::new_empty(), attrmap, attrmap_mut, set_truncate_on_overflow, "number:truncate-on-overflow", (true => "true"), (false => "false"));
    ctx.case("getters", "order, source, overflow".to_string(), || {
        let mut v = ValueFormatTimeDuration::new_empty();
        ckeq!(v.truncate_on_overflow(), None, "not set");
        v.set_truncate_on_overflow(true);
        ckeq!(v.truncate_on_overflow(), Some(true), "overflow");
        v.set_format_source(FormatSource::Language);
        ckeq!(v.format_source().map_err(|e| e.to_string())?, Some(FormatSource::Language), "source");
        let mut v = ValueFormatCurrency::new_empty();
        ckeq!(v.automatic_order(), None, "not set");
        v.set_automatic_order(true);
        ckeq!(v.automatic_order(), Some(true), "order");
        Ok(())
    });
    let mut r = ctx.rng("c19p");
    for _ in 0..ctx.n(200, 2000) {
        let ops: Vec<(u8, String)> = (0..r.below(6)).map(|_| (r.below(5) as u8, text_any(&mut r))).collect();
        ctx.case("part", format!("{:?}", ops), || {
            let mut p = FormatPart::new(F::Text);
            let mut w: (FormatPartType, Option<String>, Option<i32>) = (F::Text, None, None);
            for (o, t) in &ops {
                match o {
                    0 => { p.set_content(t.as_str()); w.1 = Some(t.clone()); }
                    1 => { p.append_content(t.as_str()); w.1 = Some(w.1.unwrap_or_default() + t); }
                    2 => { p.clear_content(); w.1 = None; }
                    3 => { p.set_position(t.len() as i32); w.2 = Some(t.len() as i32); }
                    _ => { p.clear_position(); p.set_part_type(F::Day); w.2 = None; w.0 = F::Day; }
                }
            }
            ckeq!((p.part_type(), p.content().cloned(), p.position()), w, "part");
            Ok(())
        });
    }
}
pub fn c19(ctx: &mut Ctx) {
    builders(ctx);
    ready_made(ctx);
    workbooks(ctx);
    setters(ctx);
}
