//! Generated once from the ODF attribute table; not regenerated by the checks.
//! C11: every typed setter changes exactly its ODF attribute, to the ODF text of its argument.
use crate::core::Ctx;
use crate::ckeq;
use spreadsheet_ods::color::Rgb;
use spreadsheet_ods::style::tabstop::TabStop;
use spreadsheet_ods::style::units::*;
use spreadsheet_ods::style::*;
use spreadsheet_ods::*;
use std::collections::BTreeMap;

macro_rules! chk {
    ($ctx:expr, $new:expr, $acc:ident, $accm:ident, $set:ident, $key:literal, $( ($($a:expr),* => $txt:literal) ),*) => {
        $ctx.case(concat!(stringify!($set)), format!("{}.{}({})", stringify!($new), stringify!($set), $key), || {
            $(
            for pre in [false, true] {
                let mut s = $new;
                s.$accm().set_attr("x:before", "1");
                if pre { s.$accm().set_attr($key, "old"); }
                s.$accm().set_attr("x:after", "2");
                s.$set($($a),*);
                let mut want: BTreeMap<String, String> = $new.$acc().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                want.insert("x:before".to_string(), "1".to_string());
                want.insert("x:after".to_string(), "2".to_string());
                want.insert($key.to_string(), $txt.to_string());
                let got: BTreeMap<String, String> = s.$acc().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                ckeq!(got, want, "attributes after {}", stringify!($set));
                ckeq!(s.$acc().attr($key), Some($txt), "{} of the attribute map", $key);
                ckeq!(s.$acc().len(), want.len(), "number of attributes");
            }
            )*
            Ok(())
        });
    };
}
pub(crate) use chk;

fn tablestyle(ctx: &mut Ctx) {
    chk!(ctx, TableStyle::new_empty(), attrmap, attrmap_mut, set_master_page, "style:master-page-name", (&MasterPageRef::from("m1") => "m1"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_background_color, "fo:background-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_break_before, "fo:break-before", (PageBreak::Auto => "auto"), (PageBreak::Column => "column"), (PageBreak::Page => "page"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_break_after, "fo:break-after", (PageBreak::Auto => "auto"), (PageBreak::Column => "column"), (PageBreak::Page => "page"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_keep_with_next, "fo:keep-with-next", (TextKeep::Auto => "auto"), (TextKeep::Always => "always"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_margin, "fo:margin", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_margin_bottom, "fo:margin-bottom", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_margin_left, "fo:margin-left", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_margin_right, "fo:margin-right", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_margin_top, "fo:margin-top", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_may_break_between_rows, "style:may-break-between-rows", (true => "true"), (false => "false"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_page_number, "style:page-number", (PageNumber::Auto => "auto"), (PageNumber::Number(3) => "3"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_rel_width, "style:rel-width", (RelativeScale::Scale => "scale"), (RelativeScale::ScaleMin => "scale-min"), (RelativeScale::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_width, "style:width", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_shadow, "style:shadow", (mm!(1), mm!(2), None, Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm"), (mm!(1), mm!(2), Some(mm!(4)), Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm 4mm"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_writing_mode, "style:writing-mode", (WritingMode::LrTb => "lr-tb"), (WritingMode::RlTb => "rl-tb"), (WritingMode::TbRl => "tb-rl"), (WritingMode::TbLr => "tb-lr"), (WritingMode::Lr => "lr"), (WritingMode::Rl => "rl"), (WritingMode::Tb => "tb"), (WritingMode::Page => "page"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_align, "table:align", (TableAlign::Center => "center"), (TableAlign::Left => "left"), (TableAlign::Right => "right"), (TableAlign::Margins => "margins"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_border_model, "table:border-model", (TableBorderModel::Collapsing => "collapsing"), (TableBorderModel::Separating => "separating"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_display, "table:display", (true => "true"), (false => "false"));
    chk!(ctx, TableStyle::new_empty(), tablestyle, tablestyle_mut, set_tab_color, "table:tab-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
}
fn rowstyle(ctx: &mut Ctx) {
    chk!(ctx, RowStyle::new_empty(), rowstyle, rowstyle_mut, set_background_color, "fo:background-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, RowStyle::new_empty(), rowstyle, rowstyle_mut, set_break_before, "fo:break-before", (PageBreak::Auto => "auto"), (PageBreak::Column => "column"), (PageBreak::Page => "page"));
    chk!(ctx, RowStyle::new_empty(), rowstyle, rowstyle_mut, set_break_after, "fo:break-after", (PageBreak::Auto => "auto"), (PageBreak::Column => "column"), (PageBreak::Page => "page"));
    chk!(ctx, RowStyle::new_empty(), rowstyle, rowstyle_mut, set_keep_together, "fo:keep-together", (TextKeep::Auto => "auto"), (TextKeep::Always => "always"));
    chk!(ctx, RowStyle::new_empty(), rowstyle, rowstyle_mut, set_min_row_height, "style:min-row-height", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, RowStyle::new_empty(), rowstyle, rowstyle_mut, set_row_height, "style:row-height", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, RowStyle::new_empty(), rowstyle, rowstyle_mut, set_use_optimal_row_height, "style:use-optimal-row-height", (true => "true"), (false => "false"));
}
fn colstyle(ctx: &mut Ctx) {
    chk!(ctx, ColStyle::new_empty(), colstyle, colstyle_mut, set_break_before, "fo:break-before", (PageBreak::Auto => "auto"), (PageBreak::Column => "column"), (PageBreak::Page => "page"));
    chk!(ctx, ColStyle::new_empty(), colstyle, colstyle_mut, set_break_after, "fo:break-after", (PageBreak::Auto => "auto"), (PageBreak::Column => "column"), (PageBreak::Page => "page"));
    chk!(ctx, ColStyle::new_empty(), colstyle, colstyle_mut, set_col_width, "style:column-width", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, ColStyle::new_empty(), colstyle, colstyle_mut, set_rel_col_width, "style:rel-column-width", (2.5 => "2.5*"), (1.0 => "1*"));
    chk!(ctx, ColStyle::new_empty(), colstyle, colstyle_mut, set_use_optimal_col_width, "style:use-optimal-column-width", (true => "true"), (false => "false"));
}
fn cellstyle(ctx: &mut Ctx) {
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_background_color, "fo:background-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_border, "fo:border", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_border_bottom, "fo:border-bottom", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_border_left, "fo:border-left", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_border_right, "fo:border-right", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_border_top, "fo:border-top", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_padding, "fo:padding", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_padding_bottom, "fo:padding-bottom", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_padding_left, "fo:padding-left", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_padding_right, "fo:padding-right", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_padding_top, "fo:padding-top", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_wrap_option, "fo:wrap-option", (WrapOption::NoWrap => "no-wrap"), (WrapOption::Wrap => "wrap"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_border_line_width, "style:border-line-width", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_border_line_width_bottom, "style:border-line-width-bottom", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_border_line_width_left, "style:border-line-width-left", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_border_line_width_right, "style:border-line-width-right", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_border_line_width_top, "style:border-line-width-top", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_cell_protect, "style:cell-protect", (CellProtect::FormulaHidden => "formula-hidden"), (CellProtect::HiddenAndProtected => "hidden-and-protected"), (CellProtect::None => "none"), (CellProtect::Protected => "protected"), (CellProtect::ProtectedFormulaHidden => "protected formula-hidden"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_decimal_places, "style:decimal-places", (7 => "7"), (255 => "255"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_diagonal_bl_tr, "style:diagonal-bl-tr", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_diagonal_bl_tr_widths, "style:diagonal-bl-tr-widths", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_diagonal_tl_br, "style:diagonal-tl-br", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_diagonal_tl_br_widths, "style:diagonal-tl-br-widths", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_direction, "style:direction", (WritingDirection::Ltr => "ltr"), (WritingDirection::Ttb => "ttb"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_glyph_orientation_vertical, "style:glyph-orientation-vertical", (GlyphOrientation::Auto => "auto"), (GlyphOrientation::Zero => "0"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_print_content, "style:print-content", (true => "true"), (false => "false"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_repeat_content, "style:repeat-content", (true => "true"), (false => "false"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_rotation_align, "style:rotation-align", (RotationAlign::None => "none"), (RotationAlign::Bottom => "bottom"), (RotationAlign::Top => "top"), (RotationAlign::Center => "center"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_rotation_angle, "style:rotation-angle", (Angle::Deg(90.0) => "90deg"), (Angle::Rad(1.5) => "1.5rad"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_shadow, "style:shadow", (mm!(1), mm!(2), None, Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm"), (mm!(1), mm!(2), Some(mm!(4)), Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm 4mm"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_shrink_to_fit, "style:shrink-to-fit", (true => "true"), (false => "false"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_text_align_source, "style:text-align-source", (TextAlignSource::Fix => "fix"), (TextAlignSource::ValueType => "value-type"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_vertical_align, "style:vertical-align", (CellAlignVertical::Top => "top"), (CellAlignVertical::Middle => "middle"), (CellAlignVertical::Bottom => "bottom"), (CellAlignVertical::Automatic => "automatic"));
    chk!(ctx, CellStyle::new_empty(), cellstyle, cellstyle_mut, set_writing_mode, "style:writing-mode", (WritingMode::LrTb => "lr-tb"), (WritingMode::RlTb => "rl-tb"), (WritingMode::TbRl => "tb-rl"), (WritingMode::TbLr => "tb-lr"), (WritingMode::Lr => "lr"), (WritingMode::Rl => "rl"), (WritingMode::Tb => "tb"), (WritingMode::Page => "page"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_break_before, "fo:break-before", (PageBreak::Auto => "auto"), (PageBreak::Column => "column"), (PageBreak::Page => "page"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_break_after, "fo:break-after", (PageBreak::Auto => "auto"), (PageBreak::Column => "column"), (PageBreak::Page => "page"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_hyphenation_keep, "fo:hyphenation-keep", (Hyphenation::Auto => "auto"), (Hyphenation::Page => "page"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_hyphenation_ladder_count, "fo:hyphenation-ladder-count", (HyphenationLadderCount::NoLimit => "no-limit"), (HyphenationLadderCount::Count(3) => "3"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_keep_together, "fo:keep-together", (TextKeep::Auto => "auto"), (TextKeep::Always => "always"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_keep_with_next, "fo:keep-with-next", (TextKeep::Auto => "auto"), (TextKeep::Always => "always"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_line_height, "fo:line-height", (LineHeight::Normal => "normal"), (LineHeight::Length(mm!(3)) => "3mm"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_margin, "fo:margin", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_margin_bottom, "fo:margin-bottom", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_margin_left, "fo:margin-left", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_margin_right, "fo:margin-right", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_margin_top, "fo:margin-top", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_orphans, "fo:orphans", (7 => "7"), (0 => "0"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_text_align, "fo:text-align", (TextAlign::Start => "start"), (TextAlign::Center => "center"), (TextAlign::End => "end"), (TextAlign::Justify => "justify"), (TextAlign::Inside => "inside"), (TextAlign::Outside => "outside"), (TextAlign::Left => "left"), (TextAlign::Right => "right"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_text_align_last, "fo:text-align-last", (TextAlignLast::Start => "start"), (TextAlignLast::Center => "center"), (TextAlignLast::Justify => "justify"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_text_indent, "fo:text-indent", (Indent::Length(mm!(3)) => "3mm"), (Indent::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_widows, "fo:widows", (7 => "7"), (0 => "0"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_auto_text_indent, "style:auto-text-indent", (true => "true"), (false => "false"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_background_transpareny, "style:background-transparency", (Percent::Percent(12.5) => "12.5%"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_contextual_spacing, "style:contextual-spacing", (true => "true"), (false => "false"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_font_independent_line_spacing, "style:font-independent-line-spacing", (true => "true"), (false => "false"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_join_border, "style:join-border", (true => "true"), (false => "false"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_justify_single_word, "style:justify-single-word", (true => "true"), (false => "false"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_line_break, "style:line-break", (LineBreak::Normal => "normal"), (LineBreak::Strict => "strict"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_line_height_at_least, "style:line-height-at-least", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_line_spacing, "style:line-spacing", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_page_number, "style:page-number", (PageNumber::Auto => "auto"), (PageNumber::Number(3) => "3"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_punctuation_wrap, "style:punctuation-wrap", (PunctuationWrap::Hanging => "hanging"), (PunctuationWrap::Simple => "simple"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_register_true, "style:register-true", (true => "true"), (false => "false"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_snap_to_layout_grid, "style:snap-to-layout-grid", (true => "true"), (false => "false"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_tab_stop_distance, "style:tab-stop-distance", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_text_autospace, "style:text-autospace", (TextAutoSpace::IdeographAlpha => "ideograph-alpha"), (TextAutoSpace::None => "none"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_vertical_align_para, "style:vertical-align", (ParaAlignVertical::Top => "top"), (ParaAlignVertical::Middle => "middle"), (ParaAlignVertical::Bottom => "bottom"), (ParaAlignVertical::Auto => "auto"), (ParaAlignVertical::Baseline => "baseline"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_writing_mode_automatic, "style:writing-mode-automatic", (true => "true"), (false => "false"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_line_number, "text:line-number", (7 => "7"), (0 => "0"));
    chk!(ctx, CellStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_number_lines, "text:number-lines", (true => "true"), (false => "false"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_color, "fo:color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_name, "style:font-name", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_size, "fo:font-size", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_size_rel, "style:font-size-rel", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_style, "fo:font-style", (FontStyle::Normal => "normal"), (FontStyle::Italic => "italic"), (FontStyle::Oblique => "oblique"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_italic, "fo:font-style", ( => "italic"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_weight, "fo:font-weight", (FontWeight::Normal => "normal"), (FontWeight::Bold => "bold"), (FontWeight::W100 => "100"), (FontWeight::W200 => "200"), (FontWeight::W300 => "300"), (FontWeight::W400 => "400"), (FontWeight::W500 => "500"), (FontWeight::W600 => "600"), (FontWeight::W700 => "700"), (FontWeight::W800 => "800"), (FontWeight::W900 => "900"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_bold, "fo:font-weight", ( => "bold"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_variant, "fo:font-variant", (FontVariant::Normal => "normal"), (FontVariant::SmallCaps => "small-caps"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_name_asian, "style:font-name-asian", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_size_asian, "style:font-size-asian", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_size_rel_asian, "style:font-size-rel-asian", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_style_asian, "style:font-style-asian", (FontStyle::Normal => "normal"), (FontStyle::Italic => "italic"), (FontStyle::Oblique => "oblique"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_italic_asian, "style:font-style-asian", ( => "italic"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_weight_asian, "style:font-weight-asian", (FontWeight::Normal => "normal"), (FontWeight::Bold => "bold"), (FontWeight::W100 => "100"), (FontWeight::W200 => "200"), (FontWeight::W300 => "300"), (FontWeight::W400 => "400"), (FontWeight::W500 => "500"), (FontWeight::W600 => "600"), (FontWeight::W700 => "700"), (FontWeight::W800 => "800"), (FontWeight::W900 => "900"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_bold_asian, "style:font-weight-asian", ( => "bold"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_name_complex, "style:font-name-complex", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_size_complex, "style:font-size-complex", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_size_rel_complex, "style:font-size-rel-complex", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_style_complex, "style:font-style-complex", (FontStyle::Normal => "normal"), (FontStyle::Italic => "italic"), (FontStyle::Oblique => "oblique"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_italic_complex, "style:font-style-complex", ( => "italic"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_weight_complex, "style:font-weight-complex", (FontWeight::Normal => "normal"), (FontWeight::Bold => "bold"), (FontWeight::W100 => "100"), (FontWeight::W200 => "200"), (FontWeight::W300 => "300"), (FontWeight::W400 => "400"), (FontWeight::W500 => "500"), (FontWeight::W600 => "600"), (FontWeight::W700 => "700"), (FontWeight::W800 => "800"), (FontWeight::W900 => "900"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_bold_complex, "style:font-weight-complex", ( => "bold"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_hyphenate, "fo:hyphenate", (true => "true"), (false => "false"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_hyphenation_push_char_count, "fo:hyphenation-push-char-count", (7 => "7"), (0 => "0"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_hyphenation_remain_char_count, "fo:hyphenation-remain-char-count", (7 => "7"), (0 => "0"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_letter_spacing, "fo:letter-spacing", (LetterSpacing::Length(mm!(3)) => "3mm"), (LetterSpacing::Normal => "normal"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_shadow, "fo:text-shadow", (mm!(1), mm!(2), None, Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm"), (mm!(1), mm!(2), Some(mm!(4)), Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm 4mm"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_transform, "fo:text-transform", (TextTransform::None => "none"), (TextTransform::Lowercase => "lowercase"), (TextTransform::Uppercase => "uppercase"), (TextTransform::Capitalize => "capitalize"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_relief, "style:font-relief", (TextRelief::None => "none"), (TextRelief::Embossed => "embossed"), (TextRelief::Engraved => "engraved"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_position, "style:text-position", (TextPosition::Sub, None => "sub"), (TextPosition::Super, Some(Percent::Percent(50.0)) => "super 50%"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_letter_kerning, "style:letter-kerning", (true => "true"), (false => "false"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_combine, "style:text-combine", (TextCombine::None => "none"), (TextCombine::Letters => "letters"), (TextCombine::Lines => "lines"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_combine_start_char, "style:text-combine-start-char", ('x' => "x"), ('<' => "<"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_combine_end_char, "style:text-combine-end-char", ('x' => "x"), ('<' => "<"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_emphasize, "style:text-emphasize", (TextEmphasize::Dot, TextEmphasizePosition::Above => "dot above"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_color, "style:text-line-through-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_mode, "style:text-line-through-mode", (LineMode::Continuous => "continuous"), (LineMode::SkipWhiteSpace => "skip-white-space"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_style, "style:text-line-through-style", (LineStyle::Dash => "dash"), (LineStyle::DotDash => "dot-dash"), (LineStyle::DotDotDash => "dot-dot-dash"), (LineStyle::Dotted => "dotted"), (LineStyle::LongDash => "long-dash"), (LineStyle::None => "none"), (LineStyle::Solid => "solid"), (LineStyle::Wave => "wave"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_text, "style:text-line-through-text", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_text_style, "style:text-line-through-text-style", (TextStyleRef::from("t1") => "t1"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_type, "style:text-line-through-type", (LineType::None => "none"), (LineType::Single => "single"), (LineType::Double => "double"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_width, "style:text-line-through-width", (LineWidth::Bold => "bold"), (LineWidth::Length(mm!(3)) => "3mm"), (LineWidth::Percent(Percent::Percent(5.0)) => "5%"), (LineWidth::Int(3) => "3"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_font_text_outline, "style:text-outline", (true => "true"), (false => "false"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_color, "style:text-overline-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_mode, "style:text-overline-mode", (LineMode::Continuous => "continuous"), (LineMode::SkipWhiteSpace => "skip-white-space"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_style, "style:text-overline-style", (LineStyle::Dash => "dash"), (LineStyle::DotDash => "dot-dash"), (LineStyle::DotDotDash => "dot-dot-dash"), (LineStyle::Dotted => "dotted"), (LineStyle::LongDash => "long-dash"), (LineStyle::None => "none"), (LineStyle::Solid => "solid"), (LineStyle::Wave => "wave"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_type, "style:text-overline-type", (LineType::None => "none"), (LineType::Single => "single"), (LineType::Double => "double"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_width, "style:text-overline-width", (LineWidth::Bold => "bold"), (LineWidth::Length(mm!(3)) => "3mm"), (LineWidth::Percent(Percent::Percent(5.0)) => "5%"), (LineWidth::Int(3) => "3"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_color, "style:text-underline-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_mode, "style:text-underline-mode", (LineMode::Continuous => "continuous"), (LineMode::SkipWhiteSpace => "skip-white-space"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_style, "style:text-underline-style", (LineStyle::Dash => "dash"), (LineStyle::DotDash => "dot-dash"), (LineStyle::DotDotDash => "dot-dot-dash"), (LineStyle::Dotted => "dotted"), (LineStyle::LongDash => "long-dash"), (LineStyle::None => "none"), (LineStyle::Solid => "solid"), (LineStyle::Wave => "wave"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_type, "style:text-underline-type", (LineType::None => "none"), (LineType::Single => "single"), (LineType::Double => "double"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_width, "style:text-underline-width", (LineWidth::Bold => "bold"), (LineWidth::Length(mm!(3)) => "3mm"), (LineWidth::Percent(Percent::Percent(5.0)) => "5%"), (LineWidth::Int(3) => "3"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_use_window_font_color, "style:use-window-font-color", (true => "true"), (false => "false"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_text_condition, "text:condition", (TextCondition::None => "none"));
    chk!(ctx, CellStyle::new_empty(), textstyle, textstyle_mut, set_display, "text:display", (TextDisplay::None => "none"), (TextDisplay::Condition => "condition"), (TextDisplay::True => "true"));
}
fn paragraphstyle(ctx: &mut Ctx) {
    chk!(ctx, ParagraphStyle::new_empty(), attrmap, attrmap_mut, set_default_outline_level, "style:default-outline-level", (7 => "7"), (0 => "0"));
    chk!(ctx, ParagraphStyle::new_empty(), attrmap, attrmap_mut, set_master_page, "style:master-page-name", (&MasterPageRef::from("m1") => "m1"));
    chk!(ctx, ParagraphStyle::new_empty(), attrmap, attrmap_mut, set_next_style, "style:next-style-name", (&ParagraphStyleRef::from("p1") => "p1"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_background_color, "fo:background-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border, "fo:border", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_bottom, "fo:border-bottom", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_left, "fo:border-left", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_right, "fo:border-right", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_top, "fo:border-top", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_break_before, "fo:break-before", (PageBreak::Auto => "auto"), (PageBreak::Column => "column"), (PageBreak::Page => "page"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_break_after, "fo:break-after", (PageBreak::Auto => "auto"), (PageBreak::Column => "column"), (PageBreak::Page => "page"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_hyphenation_keep, "fo:hyphenation-keep", (Hyphenation::Auto => "auto"), (Hyphenation::Page => "page"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_hyphenation_ladder_count, "fo:hyphenation-ladder-count", (HyphenationLadderCount::NoLimit => "no-limit"), (HyphenationLadderCount::Count(3) => "3"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_keep_together, "fo:keep-together", (TextKeep::Auto => "auto"), (TextKeep::Always => "always"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_keep_with_next, "fo:keep-with-next", (TextKeep::Auto => "auto"), (TextKeep::Always => "always"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_line_height, "fo:line-height", (LineHeight::Normal => "normal"), (LineHeight::Length(mm!(3)) => "3mm"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_margin, "fo:margin", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_margin_bottom, "fo:margin-bottom", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_margin_left, "fo:margin-left", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_margin_right, "fo:margin-right", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_margin_top, "fo:margin-top", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_orphans, "fo:orphans", (7 => "7"), (0 => "0"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_padding, "fo:padding", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_padding_bottom, "fo:padding-bottom", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_padding_left, "fo:padding-left", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_padding_right, "fo:padding-right", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_padding_top, "fo:padding-top", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_text_align, "fo:text-align", (TextAlign::Start => "start"), (TextAlign::Center => "center"), (TextAlign::End => "end"), (TextAlign::Justify => "justify"), (TextAlign::Inside => "inside"), (TextAlign::Outside => "outside"), (TextAlign::Left => "left"), (TextAlign::Right => "right"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_text_align_last, "fo:text-align-last", (TextAlignLast::Start => "start"), (TextAlignLast::Center => "center"), (TextAlignLast::Justify => "justify"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_text_indent, "fo:text-indent", (Indent::Length(mm!(3)) => "3mm"), (Indent::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_widows, "fo:widows", (7 => "7"), (0 => "0"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_auto_text_indent, "style:auto-text-indent", (true => "true"), (false => "false"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_background_transpareny, "style:background-transparency", (Percent::Percent(12.5) => "12.5%"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_line_width, "style:border-line-width", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_line_width_bottom, "style:border-line-width-bottom", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_line_width_left, "style:border-line-width-left", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_line_width_right, "style:border-line-width-right", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_line_width_top, "style:border-line-width-top", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_contextual_spacing, "style:contextual-spacing", (true => "true"), (false => "false"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_font_independent_line_spacing, "style:font-independent-line-spacing", (true => "true"), (false => "false"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_join_border, "style:join-border", (true => "true"), (false => "false"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_justify_single_word, "style:justify-single-word", (true => "true"), (false => "false"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_line_break, "style:line-break", (LineBreak::Normal => "normal"), (LineBreak::Strict => "strict"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_line_height_at_least, "style:line-height-at-least", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_line_spacing, "style:line-spacing", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_page_number, "style:page-number", (PageNumber::Auto => "auto"), (PageNumber::Number(3) => "3"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_punctuation_wrap, "style:punctuation-wrap", (PunctuationWrap::Hanging => "hanging"), (PunctuationWrap::Simple => "simple"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_register_true, "style:register-true", (true => "true"), (false => "false"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_shadow, "style:shadow", (mm!(1), mm!(2), None, Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm"), (mm!(1), mm!(2), Some(mm!(4)), Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm 4mm"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_snap_to_layout_grid, "style:snap-to-layout-grid", (true => "true"), (false => "false"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_tab_stop_distance, "style:tab-stop-distance", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_text_autospace, "style:text-autospace", (TextAutoSpace::IdeographAlpha => "ideograph-alpha"), (TextAutoSpace::None => "none"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_vertical_align_para, "style:vertical-align", (ParaAlignVertical::Top => "top"), (ParaAlignVertical::Middle => "middle"), (ParaAlignVertical::Bottom => "bottom"), (ParaAlignVertical::Auto => "auto"), (ParaAlignVertical::Baseline => "baseline"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_writing_mode, "style:writing-mode", (WritingMode::LrTb => "lr-tb"), (WritingMode::RlTb => "rl-tb"), (WritingMode::TbRl => "tb-rl"), (WritingMode::TbLr => "tb-lr"), (WritingMode::Lr => "lr"), (WritingMode::Rl => "rl"), (WritingMode::Tb => "tb"), (WritingMode::Page => "page"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_writing_mode_automatic, "style:writing-mode-automatic", (true => "true"), (false => "false"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_line_number, "text:line-number", (7 => "7"), (0 => "0"));
    chk!(ctx, ParagraphStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_number_lines, "text:number-lines", (true => "true"), (false => "false"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_color, "fo:color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_name, "style:font-name", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_size, "fo:font-size", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_size_rel, "style:font-size-rel", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_style, "fo:font-style", (FontStyle::Normal => "normal"), (FontStyle::Italic => "italic"), (FontStyle::Oblique => "oblique"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_italic, "fo:font-style", ( => "italic"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_weight, "fo:font-weight", (FontWeight::Normal => "normal"), (FontWeight::Bold => "bold"), (FontWeight::W100 => "100"), (FontWeight::W200 => "200"), (FontWeight::W300 => "300"), (FontWeight::W400 => "400"), (FontWeight::W500 => "500"), (FontWeight::W600 => "600"), (FontWeight::W700 => "700"), (FontWeight::W800 => "800"), (FontWeight::W900 => "900"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_bold, "fo:font-weight", ( => "bold"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_variant, "fo:font-variant", (FontVariant::Normal => "normal"), (FontVariant::SmallCaps => "small-caps"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_name_asian, "style:font-name-asian", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_size_asian, "style:font-size-asian", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_size_rel_asian, "style:font-size-rel-asian", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_style_asian, "style:font-style-asian", (FontStyle::Normal => "normal"), (FontStyle::Italic => "italic"), (FontStyle::Oblique => "oblique"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_italic_asian, "style:font-style-asian", ( => "italic"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_weight_asian, "style:font-weight-asian", (FontWeight::Normal => "normal"), (FontWeight::Bold => "bold"), (FontWeight::W100 => "100"), (FontWeight::W200 => "200"), (FontWeight::W300 => "300"), (FontWeight::W400 => "400"), (FontWeight::W500 => "500"), (FontWeight::W600 => "600"), (FontWeight::W700 => "700"), (FontWeight::W800 => "800"), (FontWeight::W900 => "900"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_bold_asian, "style:font-weight-asian", ( => "bold"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_name_complex, "style:font-name-complex", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_size_complex, "style:font-size-complex", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_size_rel_complex, "style:font-size-rel-complex", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_style_complex, "style:font-style-complex", (FontStyle::Normal => "normal"), (FontStyle::Italic => "italic"), (FontStyle::Oblique => "oblique"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_italic_complex, "style:font-style-complex", ( => "italic"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_weight_complex, "style:font-weight-complex", (FontWeight::Normal => "normal"), (FontWeight::Bold => "bold"), (FontWeight::W100 => "100"), (FontWeight::W200 => "200"), (FontWeight::W300 => "300"), (FontWeight::W400 => "400"), (FontWeight::W500 => "500"), (FontWeight::W600 => "600"), (FontWeight::W700 => "700"), (FontWeight::W800 => "800"), (FontWeight::W900 => "900"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_bold_complex, "style:font-weight-complex", ( => "bold"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_hyphenate, "fo:hyphenate", (true => "true"), (false => "false"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_hyphenation_push_char_count, "fo:hyphenation-push-char-count", (7 => "7"), (0 => "0"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_hyphenation_remain_char_count, "fo:hyphenation-remain-char-count", (7 => "7"), (0 => "0"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_letter_spacing, "fo:letter-spacing", (LetterSpacing::Length(mm!(3)) => "3mm"), (LetterSpacing::Normal => "normal"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_shadow, "fo:text-shadow", (mm!(1), mm!(2), None, Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm"), (mm!(1), mm!(2), Some(mm!(4)), Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm 4mm"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_transform, "fo:text-transform", (TextTransform::None => "none"), (TextTransform::Lowercase => "lowercase"), (TextTransform::Uppercase => "uppercase"), (TextTransform::Capitalize => "capitalize"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_relief, "style:font-relief", (TextRelief::None => "none"), (TextRelief::Embossed => "embossed"), (TextRelief::Engraved => "engraved"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_position, "style:text-position", (TextPosition::Sub, None => "sub"), (TextPosition::Super, Some(Percent::Percent(50.0)) => "super 50%"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_rotation_scale, "style:text-rotation-scale", (RotationScale::Fixed => "fixed"), (RotationScale::LineHeight => "line-height"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_letter_kerning, "style:letter-kerning", (true => "true"), (false => "false"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_combine, "style:text-combine", (TextCombine::None => "none"), (TextCombine::Letters => "letters"), (TextCombine::Lines => "lines"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_combine_start_char, "style:text-combine-start-char", ('x' => "x"), ('<' => "<"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_combine_end_char, "style:text-combine-end-char", ('x' => "x"), ('<' => "<"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_emphasize, "style:text-emphasize", (TextEmphasize::Dot, TextEmphasizePosition::Above => "dot above"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_color, "style:text-line-through-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_mode, "style:text-line-through-mode", (LineMode::Continuous => "continuous"), (LineMode::SkipWhiteSpace => "skip-white-space"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_style, "style:text-line-through-style", (LineStyle::Dash => "dash"), (LineStyle::DotDash => "dot-dash"), (LineStyle::DotDotDash => "dot-dot-dash"), (LineStyle::Dotted => "dotted"), (LineStyle::LongDash => "long-dash"), (LineStyle::None => "none"), (LineStyle::Solid => "solid"), (LineStyle::Wave => "wave"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_text, "style:text-line-through-text", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_text_style, "style:text-line-through-text-style", (TextStyleRef::from("t1") => "t1"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_type, "style:text-line-through-type", (LineType::None => "none"), (LineType::Single => "single"), (LineType::Double => "double"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_width, "style:text-line-through-width", (LineWidth::Bold => "bold"), (LineWidth::Length(mm!(3)) => "3mm"), (LineWidth::Percent(Percent::Percent(5.0)) => "5%"), (LineWidth::Int(3) => "3"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_font_text_outline, "style:text-outline", (true => "true"), (false => "false"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_color, "style:text-overline-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_mode, "style:text-overline-mode", (LineMode::Continuous => "continuous"), (LineMode::SkipWhiteSpace => "skip-white-space"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_style, "style:text-overline-style", (LineStyle::Dash => "dash"), (LineStyle::DotDash => "dot-dash"), (LineStyle::DotDotDash => "dot-dot-dash"), (LineStyle::Dotted => "dotted"), (LineStyle::LongDash => "long-dash"), (LineStyle::None => "none"), (LineStyle::Solid => "solid"), (LineStyle::Wave => "wave"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_type, "style:text-overline-type", (LineType::None => "none"), (LineType::Single => "single"), (LineType::Double => "double"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_width, "style:text-overline-width", (LineWidth::Bold => "bold"), (LineWidth::Length(mm!(3)) => "3mm"), (LineWidth::Percent(Percent::Percent(5.0)) => "5%"), (LineWidth::Int(3) => "3"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_color, "style:text-underline-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_mode, "style:text-underline-mode", (LineMode::Continuous => "continuous"), (LineMode::SkipWhiteSpace => "skip-white-space"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_style, "style:text-underline-style", (LineStyle::Dash => "dash"), (LineStyle::DotDash => "dot-dash"), (LineStyle::DotDotDash => "dot-dot-dash"), (LineStyle::Dotted => "dotted"), (LineStyle::LongDash => "long-dash"), (LineStyle::None => "none"), (LineStyle::Solid => "solid"), (LineStyle::Wave => "wave"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_type, "style:text-underline-type", (LineType::None => "none"), (LineType::Single => "single"), (LineType::Double => "double"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_width, "style:text-underline-width", (LineWidth::Bold => "bold"), (LineWidth::Length(mm!(3)) => "3mm"), (LineWidth::Percent(Percent::Percent(5.0)) => "5%"), (LineWidth::Int(3) => "3"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_use_window_font_color, "style:use-window-font-color", (true => "true"), (false => "false"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_text_condition, "text:condition", (TextCondition::None => "none"));
    chk!(ctx, ParagraphStyle::new_empty(), textstyle, textstyle_mut, set_display, "text:display", (TextDisplay::None => "none"), (TextDisplay::Condition => "condition"), (TextDisplay::True => "true"));
}
fn textstyle(ctx: &mut Ctx) {
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_background_color, "fo:background-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_color, "fo:color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_name, "style:font-name", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_size, "fo:font-size", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_size_rel, "style:font-size-rel", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_style, "fo:font-style", (FontStyle::Normal => "normal"), (FontStyle::Italic => "italic"), (FontStyle::Oblique => "oblique"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_italic, "fo:font-style", ( => "italic"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_weight, "fo:font-weight", (FontWeight::Normal => "normal"), (FontWeight::Bold => "bold"), (FontWeight::W100 => "100"), (FontWeight::W200 => "200"), (FontWeight::W300 => "300"), (FontWeight::W400 => "400"), (FontWeight::W500 => "500"), (FontWeight::W600 => "600"), (FontWeight::W700 => "700"), (FontWeight::W800 => "800"), (FontWeight::W900 => "900"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_bold, "fo:font-weight", ( => "bold"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_variant, "fo:font-variant", (FontVariant::Normal => "normal"), (FontVariant::SmallCaps => "small-caps"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_name_asian, "style:font-name-asian", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_size_asian, "style:font-size-asian", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_size_rel_asian, "style:font-size-rel-asian", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_style_asian, "style:font-style-asian", (FontStyle::Normal => "normal"), (FontStyle::Italic => "italic"), (FontStyle::Oblique => "oblique"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_italic_asian, "style:font-style-asian", ( => "italic"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_weight_asian, "style:font-weight-asian", (FontWeight::Normal => "normal"), (FontWeight::Bold => "bold"), (FontWeight::W100 => "100"), (FontWeight::W200 => "200"), (FontWeight::W300 => "300"), (FontWeight::W400 => "400"), (FontWeight::W500 => "500"), (FontWeight::W600 => "600"), (FontWeight::W700 => "700"), (FontWeight::W800 => "800"), (FontWeight::W900 => "900"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_bold_asian, "style:font-weight-asian", ( => "bold"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_name_complex, "style:font-name-complex", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_size_complex, "style:font-size-complex", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_size_rel_complex, "style:font-size-rel-complex", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_style_complex, "style:font-style-complex", (FontStyle::Normal => "normal"), (FontStyle::Italic => "italic"), (FontStyle::Oblique => "oblique"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_italic_complex, "style:font-style-complex", ( => "italic"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_weight_complex, "style:font-weight-complex", (FontWeight::Normal => "normal"), (FontWeight::Bold => "bold"), (FontWeight::W100 => "100"), (FontWeight::W200 => "200"), (FontWeight::W300 => "300"), (FontWeight::W400 => "400"), (FontWeight::W500 => "500"), (FontWeight::W600 => "600"), (FontWeight::W700 => "700"), (FontWeight::W800 => "800"), (FontWeight::W900 => "900"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_bold_complex, "style:font-weight-complex", ( => "bold"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_hyphenate, "fo:hyphenate", (true => "true"), (false => "false"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_hyphenation_push_char_count, "fo:hyphenation-push-char-count", (7 => "7"), (0 => "0"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_hyphenation_remain_char_count, "fo:hyphenation-remain-char-count", (7 => "7"), (0 => "0"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_letter_spacing, "fo:letter-spacing", (LetterSpacing::Length(mm!(3)) => "3mm"), (LetterSpacing::Normal => "normal"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_shadow, "fo:text-shadow", (mm!(1), mm!(2), None, Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm"), (mm!(1), mm!(2), Some(mm!(4)), Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm 4mm"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_transform, "fo:text-transform", (TextTransform::None => "none"), (TextTransform::Lowercase => "lowercase"), (TextTransform::Uppercase => "uppercase"), (TextTransform::Capitalize => "capitalize"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_relief, "style:font-relief", (TextRelief::None => "none"), (TextRelief::Embossed => "embossed"), (TextRelief::Engraved => "engraved"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_position, "style:text-position", (TextPosition::Sub, None => "sub"), (TextPosition::Super, Some(Percent::Percent(50.0)) => "super 50%"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_rotation_angle, "style:rotation-angle", (Angle::Deg(90.0) => "90deg"), (Angle::Rad(1.5) => "1.5rad"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_rotation_scale, "style:text-rotation-scale", (RotationScale::Fixed => "fixed"), (RotationScale::LineHeight => "line-height"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_letter_kerning, "style:letter-kerning", (true => "true"), (false => "false"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_combine, "style:text-combine", (TextCombine::None => "none"), (TextCombine::Letters => "letters"), (TextCombine::Lines => "lines"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_combine_start_char, "style:text-combine-start-char", ('x' => "x"), ('<' => "<"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_combine_end_char, "style:text-combine-end-char", ('x' => "x"), ('<' => "<"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_emphasize, "style:text-emphasize", (TextEmphasize::Dot, TextEmphasizePosition::Above => "dot above"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_color, "style:text-line-through-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_mode, "style:text-line-through-mode", (LineMode::Continuous => "continuous"), (LineMode::SkipWhiteSpace => "skip-white-space"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_style, "style:text-line-through-style", (LineStyle::Dash => "dash"), (LineStyle::DotDash => "dot-dash"), (LineStyle::DotDotDash => "dot-dot-dash"), (LineStyle::Dotted => "dotted"), (LineStyle::LongDash => "long-dash"), (LineStyle::None => "none"), (LineStyle::Solid => "solid"), (LineStyle::Wave => "wave"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_text, "style:text-line-through-text", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_text_style, "style:text-line-through-text-style", (TextStyleRef::from("t1") => "t1"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_type, "style:text-line-through-type", (LineType::None => "none"), (LineType::Single => "single"), (LineType::Double => "double"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_width, "style:text-line-through-width", (LineWidth::Bold => "bold"), (LineWidth::Length(mm!(3)) => "3mm"), (LineWidth::Percent(Percent::Percent(5.0)) => "5%"), (LineWidth::Int(3) => "3"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_font_text_outline, "style:text-outline", (true => "true"), (false => "false"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_color, "style:text-overline-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_mode, "style:text-overline-mode", (LineMode::Continuous => "continuous"), (LineMode::SkipWhiteSpace => "skip-white-space"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_style, "style:text-overline-style", (LineStyle::Dash => "dash"), (LineStyle::DotDash => "dot-dash"), (LineStyle::DotDotDash => "dot-dot-dash"), (LineStyle::Dotted => "dotted"), (LineStyle::LongDash => "long-dash"), (LineStyle::None => "none"), (LineStyle::Solid => "solid"), (LineStyle::Wave => "wave"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_type, "style:text-overline-type", (LineType::None => "none"), (LineType::Single => "single"), (LineType::Double => "double"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_width, "style:text-overline-width", (LineWidth::Bold => "bold"), (LineWidth::Length(mm!(3)) => "3mm"), (LineWidth::Percent(Percent::Percent(5.0)) => "5%"), (LineWidth::Int(3) => "3"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_color, "style:text-underline-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_mode, "style:text-underline-mode", (LineMode::Continuous => "continuous"), (LineMode::SkipWhiteSpace => "skip-white-space"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_style, "style:text-underline-style", (LineStyle::Dash => "dash"), (LineStyle::DotDash => "dot-dash"), (LineStyle::DotDotDash => "dot-dot-dash"), (LineStyle::Dotted => "dotted"), (LineStyle::LongDash => "long-dash"), (LineStyle::None => "none"), (LineStyle::Solid => "solid"), (LineStyle::Wave => "wave"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_type, "style:text-underline-type", (LineType::None => "none"), (LineType::Single => "single"), (LineType::Double => "double"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_width, "style:text-underline-width", (LineWidth::Bold => "bold"), (LineWidth::Length(mm!(3)) => "3mm"), (LineWidth::Percent(Percent::Percent(5.0)) => "5%"), (LineWidth::Int(3) => "3"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_use_window_font_color, "style:use-window-font-color", (true => "true"), (false => "false"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_text_condition, "text:condition", (TextCondition::None => "none"));
    chk!(ctx, TextStyle::new_empty(), textstyle, textstyle_mut, set_display, "text:display", (TextDisplay::None => "none"), (TextDisplay::Condition => "condition"), (TextDisplay::True => "true"));
}
fn graphicstyle(ctx: &mut Ctx) {
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_background_color, "fo:background-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border, "fo:border", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_bottom, "fo:border-bottom", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_left, "fo:border-left", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_right, "fo:border-right", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_top, "fo:border-top", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_break_before, "fo:break-before", (PageBreak::Auto => "auto"), (PageBreak::Column => "column"), (PageBreak::Page => "page"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_break_after, "fo:break-after", (PageBreak::Auto => "auto"), (PageBreak::Column => "column"), (PageBreak::Page => "page"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_hyphenation_keep, "fo:hyphenation-keep", (Hyphenation::Auto => "auto"), (Hyphenation::Page => "page"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_hyphenation_ladder_count, "fo:hyphenation-ladder-count", (HyphenationLadderCount::NoLimit => "no-limit"), (HyphenationLadderCount::Count(3) => "3"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_keep_together, "fo:keep-together", (TextKeep::Auto => "auto"), (TextKeep::Always => "always"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_keep_with_next, "fo:keep-with-next", (TextKeep::Auto => "auto"), (TextKeep::Always => "always"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_line_height, "fo:line-height", (LineHeight::Normal => "normal"), (LineHeight::Length(mm!(3)) => "3mm"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_margin, "fo:margin", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_margin_bottom, "fo:margin-bottom", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_margin_left, "fo:margin-left", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_margin_right, "fo:margin-right", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_margin_top, "fo:margin-top", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_orphans, "fo:orphans", (7 => "7"), (0 => "0"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_padding, "fo:padding", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_padding_bottom, "fo:padding-bottom", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_padding_left, "fo:padding-left", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_padding_right, "fo:padding-right", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_padding_top, "fo:padding-top", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_text_align, "fo:text-align", (TextAlign::Start => "start"), (TextAlign::Center => "center"), (TextAlign::End => "end"), (TextAlign::Justify => "justify"), (TextAlign::Inside => "inside"), (TextAlign::Outside => "outside"), (TextAlign::Left => "left"), (TextAlign::Right => "right"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_text_align_last, "fo:text-align-last", (TextAlignLast::Start => "start"), (TextAlignLast::Center => "center"), (TextAlignLast::Justify => "justify"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_text_indent, "fo:text-indent", (Indent::Length(mm!(3)) => "3mm"), (Indent::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_widows, "fo:widows", (7 => "7"), (0 => "0"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_auto_text_indent, "style:auto-text-indent", (true => "true"), (false => "false"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_background_transpareny, "style:background-transparency", (Percent::Percent(12.5) => "12.5%"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_line_width, "style:border-line-width", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_line_width_bottom, "style:border-line-width-bottom", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_line_width_left, "style:border-line-width-left", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_line_width_right, "style:border-line-width-right", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_border_line_width_top, "style:border-line-width-top", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_contextual_spacing, "style:contextual-spacing", (true => "true"), (false => "false"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_font_independent_line_spacing, "style:font-independent-line-spacing", (true => "true"), (false => "false"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_join_border, "style:join-border", (true => "true"), (false => "false"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_justify_single_word, "style:justify-single-word", (true => "true"), (false => "false"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_line_break, "style:line-break", (LineBreak::Normal => "normal"), (LineBreak::Strict => "strict"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_line_height_at_least, "style:line-height-at-least", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_line_spacing, "style:line-spacing", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_page_number, "style:page-number", (PageNumber::Auto => "auto"), (PageNumber::Number(3) => "3"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_punctuation_wrap, "style:punctuation-wrap", (PunctuationWrap::Hanging => "hanging"), (PunctuationWrap::Simple => "simple"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_register_true, "style:register-true", (true => "true"), (false => "false"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_shadow, "style:shadow", (mm!(1), mm!(2), None, Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm"), (mm!(1), mm!(2), Some(mm!(4)), Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm 4mm"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_snap_to_layout_grid, "style:snap-to-layout-grid", (true => "true"), (false => "false"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_tab_stop_distance, "style:tab-stop-distance", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_text_autospace, "style:text-autospace", (TextAutoSpace::IdeographAlpha => "ideograph-alpha"), (TextAutoSpace::None => "none"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_vertical_align_para, "style:vertical-align", (ParaAlignVertical::Top => "top"), (ParaAlignVertical::Middle => "middle"), (ParaAlignVertical::Bottom => "bottom"), (ParaAlignVertical::Auto => "auto"), (ParaAlignVertical::Baseline => "baseline"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_writing_mode, "style:writing-mode", (WritingMode::LrTb => "lr-tb"), (WritingMode::RlTb => "rl-tb"), (WritingMode::TbRl => "tb-rl"), (WritingMode::TbLr => "tb-lr"), (WritingMode::Lr => "lr"), (WritingMode::Rl => "rl"), (WritingMode::Tb => "tb"), (WritingMode::Page => "page"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_writing_mode_automatic, "style:writing-mode-automatic", (true => "true"), (false => "false"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_line_number, "text:line-number", (7 => "7"), (0 => "0"));
    chk!(ctx, GraphicStyle::new_empty(), paragraphstyle, paragraphstyle_mut, set_number_lines, "text:number-lines", (true => "true"), (false => "false"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_color, "fo:color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_name, "style:font-name", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_size, "fo:font-size", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_size_rel, "style:font-size-rel", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_style, "fo:font-style", (FontStyle::Normal => "normal"), (FontStyle::Italic => "italic"), (FontStyle::Oblique => "oblique"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_italic, "fo:font-style", ( => "italic"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_weight, "fo:font-weight", (FontWeight::Normal => "normal"), (FontWeight::Bold => "bold"), (FontWeight::W100 => "100"), (FontWeight::W200 => "200"), (FontWeight::W300 => "300"), (FontWeight::W400 => "400"), (FontWeight::W500 => "500"), (FontWeight::W600 => "600"), (FontWeight::W700 => "700"), (FontWeight::W800 => "800"), (FontWeight::W900 => "900"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_bold, "fo:font-weight", ( => "bold"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_variant, "fo:font-variant", (FontVariant::Normal => "normal"), (FontVariant::SmallCaps => "small-caps"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_name_asian, "style:font-name-asian", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_size_asian, "style:font-size-asian", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_size_rel_asian, "style:font-size-rel-asian", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_style_asian, "style:font-style-asian", (FontStyle::Normal => "normal"), (FontStyle::Italic => "italic"), (FontStyle::Oblique => "oblique"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_italic_asian, "style:font-style-asian", ( => "italic"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_weight_asian, "style:font-weight-asian", (FontWeight::Normal => "normal"), (FontWeight::Bold => "bold"), (FontWeight::W100 => "100"), (FontWeight::W200 => "200"), (FontWeight::W300 => "300"), (FontWeight::W400 => "400"), (FontWeight::W500 => "500"), (FontWeight::W600 => "600"), (FontWeight::W700 => "700"), (FontWeight::W800 => "800"), (FontWeight::W900 => "900"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_bold_asian, "style:font-weight-asian", ( => "bold"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_name_complex, "style:font-name-complex", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_size_complex, "style:font-size-complex", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_size_rel_complex, "style:font-size-rel-complex", (FontSize::Length(pt!(11)) => "11pt"), (FontSize::Percent(Percent::Percent(80.0)) => "80%"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_style_complex, "style:font-style-complex", (FontStyle::Normal => "normal"), (FontStyle::Italic => "italic"), (FontStyle::Oblique => "oblique"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_italic_complex, "style:font-style-complex", ( => "italic"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_weight_complex, "style:font-weight-complex", (FontWeight::Normal => "normal"), (FontWeight::Bold => "bold"), (FontWeight::W100 => "100"), (FontWeight::W200 => "200"), (FontWeight::W300 => "300"), (FontWeight::W400 => "400"), (FontWeight::W500 => "500"), (FontWeight::W600 => "600"), (FontWeight::W700 => "700"), (FontWeight::W800 => "800"), (FontWeight::W900 => "900"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_bold_complex, "style:font-weight-complex", ( => "bold"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_hyphenate, "fo:hyphenate", (true => "true"), (false => "false"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_hyphenation_push_char_count, "fo:hyphenation-push-char-count", (7 => "7"), (0 => "0"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_hyphenation_remain_char_count, "fo:hyphenation-remain-char-count", (7 => "7"), (0 => "0"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_letter_spacing, "fo:letter-spacing", (LetterSpacing::Length(mm!(3)) => "3mm"), (LetterSpacing::Normal => "normal"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_shadow, "fo:text-shadow", (mm!(1), mm!(2), None, Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm"), (mm!(1), mm!(2), Some(mm!(4)), Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm 4mm"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_transform, "fo:text-transform", (TextTransform::None => "none"), (TextTransform::Lowercase => "lowercase"), (TextTransform::Uppercase => "uppercase"), (TextTransform::Capitalize => "capitalize"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_relief, "style:font-relief", (TextRelief::None => "none"), (TextRelief::Embossed => "embossed"), (TextRelief::Engraved => "engraved"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_position, "style:text-position", (TextPosition::Sub, None => "sub"), (TextPosition::Super, Some(Percent::Percent(50.0)) => "super 50%"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_rotation_scale, "style:text-rotation-scale", (RotationScale::Fixed => "fixed"), (RotationScale::LineHeight => "line-height"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_letter_kerning, "style:letter-kerning", (true => "true"), (false => "false"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_combine, "style:text-combine", (TextCombine::None => "none"), (TextCombine::Letters => "letters"), (TextCombine::Lines => "lines"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_combine_start_char, "style:text-combine-start-char", ('x' => "x"), ('<' => "<"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_combine_end_char, "style:text-combine-end-char", ('x' => "x"), ('<' => "<"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_emphasize, "style:text-emphasize", (TextEmphasize::Dot, TextEmphasizePosition::Above => "dot above"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_color, "style:text-line-through-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_mode, "style:text-line-through-mode", (LineMode::Continuous => "continuous"), (LineMode::SkipWhiteSpace => "skip-white-space"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_style, "style:text-line-through-style", (LineStyle::Dash => "dash"), (LineStyle::DotDash => "dot-dash"), (LineStyle::DotDotDash => "dot-dot-dash"), (LineStyle::Dotted => "dotted"), (LineStyle::LongDash => "long-dash"), (LineStyle::None => "none"), (LineStyle::Solid => "solid"), (LineStyle::Wave => "wave"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_text, "style:text-line-through-text", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_text_style, "style:text-line-through-text-style", (TextStyleRef::from("t1") => "t1"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_type, "style:text-line-through-type", (LineType::None => "none"), (LineType::Single => "single"), (LineType::Double => "double"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_line_through_width, "style:text-line-through-width", (LineWidth::Bold => "bold"), (LineWidth::Length(mm!(3)) => "3mm"), (LineWidth::Percent(Percent::Percent(5.0)) => "5%"), (LineWidth::Int(3) => "3"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_font_text_outline, "style:text-outline", (true => "true"), (false => "false"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_color, "style:text-overline-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_mode, "style:text-overline-mode", (LineMode::Continuous => "continuous"), (LineMode::SkipWhiteSpace => "skip-white-space"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_style, "style:text-overline-style", (LineStyle::Dash => "dash"), (LineStyle::DotDash => "dot-dash"), (LineStyle::DotDotDash => "dot-dot-dash"), (LineStyle::Dotted => "dotted"), (LineStyle::LongDash => "long-dash"), (LineStyle::None => "none"), (LineStyle::Solid => "solid"), (LineStyle::Wave => "wave"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_type, "style:text-overline-type", (LineType::None => "none"), (LineType::Single => "single"), (LineType::Double => "double"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_overline_width, "style:text-overline-width", (LineWidth::Bold => "bold"), (LineWidth::Length(mm!(3)) => "3mm"), (LineWidth::Percent(Percent::Percent(5.0)) => "5%"), (LineWidth::Int(3) => "3"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_color, "style:text-underline-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_mode, "style:text-underline-mode", (LineMode::Continuous => "continuous"), (LineMode::SkipWhiteSpace => "skip-white-space"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_style, "style:text-underline-style", (LineStyle::Dash => "dash"), (LineStyle::DotDash => "dot-dash"), (LineStyle::DotDotDash => "dot-dot-dash"), (LineStyle::Dotted => "dotted"), (LineStyle::LongDash => "long-dash"), (LineStyle::None => "none"), (LineStyle::Solid => "solid"), (LineStyle::Wave => "wave"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_type, "style:text-underline-type", (LineType::None => "none"), (LineType::Single => "single"), (LineType::Double => "double"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_underline_width, "style:text-underline-width", (LineWidth::Bold => "bold"), (LineWidth::Length(mm!(3)) => "3mm"), (LineWidth::Percent(Percent::Percent(5.0)) => "5%"), (LineWidth::Int(3) => "3"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_use_window_font_color, "style:use-window-font-color", (true => "true"), (false => "false"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_text_condition, "text:condition", (TextCondition::None => "none"));
    chk!(ctx, GraphicStyle::new_empty(), textstyle, textstyle_mut, set_display, "text:display", (TextDisplay::None => "none"), (TextDisplay::Condition => "condition"), (TextDisplay::True => "true"));
}
fn fontfacedecl(ctx: &mut Ctx) {
    chk!(ctx, FontFaceDecl::new_empty(), attrmap, attrmap_mut, set_font_family_generic, "style:font-family-generic", (FontFamilyGeneric::Decorative => "decorative"), (FontFamilyGeneric::Modern => "modern"), (FontFamilyGeneric::Roman => "roman"), (FontFamilyGeneric::Script => "script"), (FontFamilyGeneric::Swiss => "swiss"), (FontFamilyGeneric::System => "system"));
    chk!(ctx, FontFaceDecl::new_empty(), attrmap, attrmap_mut, set_font_pitch, "style:font-pitch", (FontPitch::Variable => "variable"), (FontPitch::Fixed => "fixed"));
    chk!(ctx, FontFaceDecl::new_empty(), attrmap, attrmap_mut, set_font_family, "svg:font-family", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, FontFaceDecl::new_empty(), attrmap, attrmap_mut, set_font_stretch, "svg:font-stretch", (FontStretch::Normal => "normal"), (FontStretch::UltraCondensed => "ultra-condensed"), (FontStretch::ExtraCondensed => "extra-condensed"), (FontStretch::Condensed => "condensed"), (FontStretch::SemiCondensed => "semi-condensed"), (FontStretch::SemiExpanded => "semi-expanded"), (FontStretch::Expanded => "expanded"), (FontStretch::ExtraExpanded => "extra-expanded"), (FontStretch::UltraExpanded => "ultra-expanded"));
    chk!(ctx, FontFaceDecl::new_empty(), attrmap, attrmap_mut, set_font_style, "svg:font-style", (FontStyle::Normal => "normal"), (FontStyle::Italic => "italic"), (FontStyle::Oblique => "oblique"));
    chk!(ctx, FontFaceDecl::new_empty(), attrmap, attrmap_mut, set_font_variant, "svg:font-variant", (FontVariant::Normal => "normal"), (FontVariant::SmallCaps => "small-caps"));
    chk!(ctx, FontFaceDecl::new_empty(), attrmap, attrmap_mut, set_font_weight, "svg:font-weight", (FontWeight::Normal => "normal"), (FontWeight::Bold => "bold"), (FontWeight::W100 => "100"), (FontWeight::W200 => "200"), (FontWeight::W300 => "300"), (FontWeight::W400 => "400"), (FontWeight::W500 => "500"), (FontWeight::W600 => "600"), (FontWeight::W700 => "700"), (FontWeight::W800 => "800"), (FontWeight::W900 => "900"));
}
fn pagestyle(ctx: &mut Ctx) {
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_page_height, "fo:page-height", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_page_width, "fo:page-width", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_first_page_number, "style:first-page-number", (7 => "7"), (0 => "0"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_footnote_max_height, "style:footnote-max-height", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_num_format, "style:num-format", (StyleNumFormat::Number => "1"), (StyleNumFormat::LowerRoman => "i"), (StyleNumFormat::Text("x".to_string()) => "x"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_num_letter_sync, "style:num-letter-sync", (true => "true"), (false => "false"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_num_prefix, "style:num-prefix", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_num_suffix, "style:num-suffix", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_paper_tray_name, "style:paper-tray-name", ("a<b>" => "a<b>"), ("x & y" => "x & y"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_print, "style:print", (&[PrintContent::Grid, PrintContent::Charts] => "grid charts "));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_print_orientation, "style:print-orientation", (PrintOrientation::Landscape => "landscape"), (PrintOrientation::Portrait => "portrait"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_print_page_order, "style:print-page-order", (PrintOrder::Ltr => "ltr"), (PrintOrder::Ttb => "ttb"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_scale_to, "style:scale-to", (Percent::Percent(12.5) => "12.5%"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_scale_to_pages, "style:scale-to-pages", (7 => "7"), (0 => "0"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_table_centering, "style:table-centering", (PrintCentering::None => "none"), (PrintCentering::Horizontal => "horizontal"), (PrintCentering::Vertical => "vertical"), (PrintCentering::Both => "both"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_writing_mode, "style:writing-mode", (WritingMode::LrTb => "lr-tb"), (WritingMode::RlTb => "rl-tb"), (WritingMode::TbRl => "tb-rl"), (WritingMode::TbLr => "tb-lr"), (WritingMode::Lr => "lr"), (WritingMode::Rl => "rl"), (WritingMode::Tb => "tb"), (WritingMode::Page => "page"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_background_color, "fo:background-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_border, "fo:border", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_border_bottom, "fo:border-bottom", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_border_left, "fo:border-left", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_border_right, "fo:border-right", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_border_top, "fo:border-top", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_border_line_width, "style:border-line-width", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_border_line_width_bottom, "style:border-line-width-bottom", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_border_line_width_left, "style:border-line-width-left", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_border_line_width_right, "style:border-line-width-right", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_border_line_width_top, "style:border-line-width-top", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_margin, "fo:margin", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_margin_bottom, "fo:margin-bottom", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_margin_left, "fo:margin-left", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_margin_right, "fo:margin-right", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_margin_top, "fo:margin-top", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_padding, "fo:padding", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_padding_bottom, "fo:padding-bottom", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_padding_left, "fo:padding-left", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_padding_right, "fo:padding-right", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_padding_top, "fo:padding-top", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_dynamic_spacing, "style:dynamic-spacing", (true => "true"), (false => "false"));
    chk!(ctx, PageStyle::new_empty(), style, style_mut, set_shadow, "style:shadow", (mm!(1), mm!(2), None, Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm"), (mm!(1), mm!(2), Some(mm!(4)), Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm 4mm"));
}
fn tabstop(ctx: &mut Ctx) {
    chk!(ctx, TabStop::new(), attrmap, attrmap_mut, set_char, "style:char", ('x' => "x"), ('<' => "<"));
    chk!(ctx, TabStop::new(), attrmap, attrmap_mut, set_leader_color, "style:leader-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, TabStop::new(), attrmap, attrmap_mut, set_leader_style, "style:leader-style", (LineStyle::Dash => "dash"), (LineStyle::DotDash => "dot-dash"), (LineStyle::DotDotDash => "dot-dot-dash"), (LineStyle::Dotted => "dotted"), (LineStyle::LongDash => "long-dash"), (LineStyle::None => "none"), (LineStyle::Solid => "solid"), (LineStyle::Wave => "wave"));
    chk!(ctx, TabStop::new(), attrmap, attrmap_mut, set_leader_text, "style:leader-text", ('x' => "x"), ('<' => "<"));
    chk!(ctx, TabStop::new(), attrmap, attrmap_mut, set_leader_text_style, "style:leader-text-style", (&TextStyleRef::from("t1") => "t1"));
    chk!(ctx, TabStop::new(), attrmap, attrmap_mut, set_leader_type, "style:leader-type", (LineType::None => "none"), (LineType::Single => "single"), (LineType::Double => "double"));
    chk!(ctx, TabStop::new(), attrmap, attrmap_mut, set_leader_width, "style:leader-width", (LineWidth::Bold => "bold"), (LineWidth::Length(mm!(3)) => "3mm"), (LineWidth::Percent(Percent::Percent(5.0)) => "5%"), (LineWidth::Int(3) => "3"));
    chk!(ctx, TabStop::new(), attrmap, attrmap_mut, set_position, "style:position", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, TabStop::new(), attrmap, attrmap_mut, set_type, "style:type", (TabStopType::Center => "center"), (TabStopType::Left => "left"), (TabStopType::Right => "right"), (TabStopType::Char => "char"));
}
fn headerfooterstyle(ctx: &mut Ctx) {
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_background_color, "fo:background-color", (Rgb::new(255u8, 0, 16) => "#ff0010"), (Rgb::new(1u8, 2, 3) => "#010203"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_border, "fo:border", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_border_bottom, "fo:border-bottom", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_border_left, "fo:border-left", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_border_right, "fo:border-right", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_border_top, "fo:border-top", (mm!(1), Border::Solid, Rgb::new(255u8, 0, 16) => "1mm solid #ff0010"), (pt!(0.5), Border::Groove, Rgb::new(0u8, 1, 2) => "0.5pt groove #000102"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_margin, "fo:margin", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_margin_bottom, "fo:margin-bottom", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_margin_left, "fo:margin-left", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_margin_right, "fo:margin-right", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_margin_top, "fo:margin-top", (Margin::Length(mm!(3)) => "3mm"), (Margin::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_min_height, "fo:min-height", (LengthPercent::Length(mm!(3)) => "3mm"), (LengthPercent::Percent(Percent::Percent(5.0)) => "5%"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_padding, "fo:padding", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_padding_bottom, "fo:padding-bottom", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_padding_left, "fo:padding-left", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_padding_right, "fo:padding-right", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_padding_top, "fo:padding-top", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_border_line_width, "style:border-line-width", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_border_line_width_bottom, "style:border-line-width-bottom", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_border_line_width_left, "style:border-line-width-left", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_border_line_width_right, "style:border-line-width-right", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_border_line_width_top, "style:border-line-width-top", (mm!(1), mm!(2), mm!(3) => "1mm 2mm 3mm"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_dynamic_spacing, "style:dynamic-spacing", (true => "true"), (false => "false"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_shadow, "style:shadow", (mm!(1), mm!(2), None, Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm"), (mm!(1), mm!(2), Some(mm!(4)), Rgb::new(255u8, 0, 16) => "#ff0010 1mm 2mm 4mm"));
    chk!(ctx, HeaderFooterStyle::default(), style, style_mut, set_height, "svg:height", (cm!(1.5) => "1.5cm"), (mm!(2) => "2mm"), (pt!(12.25) => "12.25pt"), (inch!(0.5) => "0.5in"));
}
pub fn c11_setters(ctx: &mut Ctx) {
    ctx.section("typed attribute setters");
    tablestyle(ctx);
    rowstyle(ctx);
    colstyle(ctx);
    cellstyle(ctx);
    paragraphstyle(ctx);
    textstyle(ctx);
    graphicstyle(ctx);
    fontfacedecl(ctx);
    pagestyle(ctx);
    tabstop(ctx);
    headerfooterstyle(ctx);
}
