//! C16: conditions
use crate::core::{Ctx, Rng};
use crate::gen::*;
use crate::io::*;
use crate::ckeq;
use spreadsheet_ods::condition::{Condition, ValueCondition};
use spreadsheet_ods::style::stylemap::StyleMap;
use spreadsheet_ods::format::*;
use spreadsheet_ods::style::{AnyStyleRef, CellStyle};
use spreadsheet_ods::validation::Validation;
use spreadsheet_ods::{CellRange, CellRef, Sheet, WorkBook};

#[derive(Clone, Debug)]
enum V { T(String), I(i64), U(u64), S(i32), W(u16), B(bool), F(f64), G(f32) }
fn val(r: &mut Rng) -> V {
    match r.below(9) {
        0 | 1 => V::T(text_any(r)),
        2 => V::T(r.pick(&["", "\"", "\"\"", "a\"b", "\"a", "a\"", "a;b", "a)b", "1", "TRUE", "a\" and \"b"]).to_string()),
        3 => V::I(*r.pick(&[0, 1, -1, i64::MIN, i64::MAX, 12345678901])),
        4 => V::U(*r.pick(&[0, 7, u64::MAX])),
        5 => V::S(r.range(-100000, 100000) as i32),
        6 => V::W(r.u32(65536) as u16),
        7 => V::B(r.bool()),
        _ => if r.bool() { V::F(number(r)) } else { V::G(r.range(-1000, 1000) as f32 / 8.0) },
    }
}
/// oracle: a text is put in quotes, its quotes are doubled
fn q(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { o.push(c); if c == '"' { o.push('"'); } } o + "\"" }
fn txt(v: &V) -> String {
    match v { V::T(s) => q(s), V::I(n) => format!("{}", n), V::U(n) => format!("{}", n), V::S(n) => format!("{}", n), V::W(n) => format!("{}", n), V::B(n) => format!("{}", n), V::F(n) => format!("{}", n), V::G(n) => format!("{}", n) }
}
macro_rules! with { ($v:expr, $r:expr, $f:path) => { match ($v.clone(), $r) {
    (V::T(s), 0) => $f(s), (V::T(s), 1) => $f(s.as_str()), (V::T(s), 2) => $f(&s), (V::T(s), _) => $f(&s.as_str()),
    (V::I(n), 0 | 1) => $f(n), (V::I(n), _) => $f(&n), (V::U(n), 0 | 1) => $f(n), (V::U(n), _) => $f(&n), (V::S(n), 0 | 1) => $f(n), (V::S(n), _) => $f(&n),
    (V::W(n), 0 | 1) => $f(n), (V::W(n), _) => $f(&n), (V::B(n), 0 | 1) => $f(n), (V::B(n), _) => $f(&n), (V::F(n), 0 | 1) => $f(n), (V::F(n), _) => $f(&n), (V::G(n), 0 | 1) => $f(n), (V::G(n), _) => $f(&n),
} } }
fn content(r: &mut Rng, depth: u32) -> (Condition, String, String) {
    let k = r.below(if depth == 0 { 16 } else { 21 });
    let v = val(r); let how = r.below(4);
    let n = *r.pick(&[0u32, 1, 9, 10, 255, 65536, u32::MAX, 77]); let m = *r.pick(&[0u32, 3, 12, 4000000000]);
    let d = format!("{} {:?} {} {} ", k, v, n, m);
    let (c, t) = match k {
        0 => (with!(v, how, Condition::content_eq), format!("cell-content()={}", txt(&v))),
        1 => (with!(v, how, Condition::content_ne), format!("cell-content()!={}", txt(&v))),
        2 => (with!(v, how, Condition::content_lt), format!("cell-content()<{}", txt(&v))),
        3 => (with!(v, how, Condition::content_gt), format!("cell-content()>{}", txt(&v))),
        4 => (with!(v, how, Condition::content_le), format!("cell-content()<={}", txt(&v))),
        5 => (with!(v, how, Condition::content_ge), format!("cell-content()>={}", txt(&v))),
        6 => (Condition::content_text_length_eq(n), format!("cell-content-text-length()={}", n)),
        7 => (Condition::content_text_length_ne(n), format!("cell-content-text-length()!={}", n)),
        8 => (Condition::content_text_length_lt(n), format!("cell-content-text-length()<{}", n)),
        9 => (Condition::content_text_length_gt(n), format!("cell-content-text-length()>{}", n)),
        10 => (Condition::content_text_length_le(n), format!("cell-content-text-length()<={}", n)),
        11 => (Condition::content_text_length_ge(n), format!("cell-content-text-length()>={}", n)),
        12 => (Condition::content_text_length_is_between(n, m), format!("cell-content-text-length-is-between({}, {})", n, m)),
        13 => (Condition::content_text_length_is_not_between(n, m), format!("cell-content-text-length-is-not-between({}, {})", n, m)),
        14 => {
            let len = r.below(5);
            match r.below(5) {
                0 => { let l: Vec<i32> = (0..len).map(|_| r.range(-50, 50) as i32).collect(); let t = l.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(";"); (Condition::content_is_in_list(&l), format!("cell-content-is-in-list({})", t)) }
                1 => { let l: Vec<f64> = (0..len).map(|_| number(r)).collect(); let t = l.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(";"); (Condition::content_is_in_list(&l), format!("cell-content-is-in-list({})", t)) }
                _ => { let l: Vec<String> = (0..len).map(|_| match val(r) { V::T(s) => s, x => txt(&x) }).collect(); let t = l.iter().map(|x| q(x)).collect::<Vec<_>>().join(";"); (Condition::content_is_in_list(&l), format!("cell-content-is-in-list({})", t)) }
            }
        }
        15 => { let s = text_line(r); (Condition::is_true_formula(&s), format!("is-true-formula({})", s)) }
        16 => { let c = CellRange::remote("other", n.min(9999), m.min(99), n.min(9999) + 3, m.min(99) + 2); let t = c.to_formula(); (Condition::content_is_in_cellrange(c), format!("cell-content-is-in-list({})", t)) }
        17 => { let (c, t, _) = content(r, 0); (Condition::content_is_date_and(c), format!("cell-content-is-date() and {}", t)) }
        18 => { let (c, t, _) = content(r, 0); (Condition::content_is_time_and(c), format!("cell-content-is-time() and {}", t)) }
        19 => { let (c, t, _) = content(r, 0); (Condition::content_is_decimal_number_and(c), format!("cell-content-is-decimal-number() and {}", t)) }
        _ => { let (c, t, _) = content(r, 0); (Condition::content_is_whole_number_and(c), format!("cell-content-is-whole-number() and {}", t)) }
    };
    (c, t, d)
}
fn value_cond(r: &mut Rng) -> (ValueCondition, String, String) {
    let v = val(r); let how = r.below(4); let k = r.below(6);
    let d = format!("v{} {:?}", k, v);
    let (c, o) = match k {
        0 => (with!(v, how, ValueCondition::value_eq), "="),
        1 => (with!(v, how, ValueCondition::value_ne), "!="),
        2 => (with!(v, how, ValueCondition::value_lt), "<"),
        3 => (with!(v, how, ValueCondition::value_gt), ">"),
        4 => (with!(v, how, ValueCondition::value_le), "<="),
        _ => (with!(v, how, ValueCondition::value_ge), ">="),
    };
    (c, format!("value(){}{}", o, txt(&v)), d)
}
pub fn c16(ctx: &mut Ctx) {
    ctx.section("text of conditions");
    let mut r = ctx.rng("c16");
    for _ in 0..ctx.n(20_000, 400_000) {
        if !ctx.time_left() { break; }
        if r.chance(1, 3) {
            let (c, t, d) = value_cond(&mut r);
            ctx.case("value condition", d, || { ckeq!(c.to_string(), t, "text"); Ok(()) });
        } else {
            let (c, t, d) = content(&mut r, 1);
            ctx.case("condition", d + &t, || { ckeq!(c.to_string(), t, "text"); ckeq!(c.clone().to_string(), t, "text of the copy"); Ok(()) });
        }
    }
    ctx.section("conditions through the file");
    for _ in 0..ctx.n(600, 20_000) {
        if !ctx.time_left() { break; }
        let cs: Vec<_> = (0..1 + r.below(3)).map(|_| content(&mut r, 1)).collect();
        let vs: Vec<_> = (0..1 + r.below(3)).map(|_| value_cond(&mut r)).collect();
        let f = fmt(&mut r);
        ctx.case("file", format!("{:?} {:?} {:?}", f, cs, vs), || {
            let mut b = WorkBook::new_empty();
            let mut s = Sheet::new("T"); s.set_value(0, 0, 1); b.push_sheet(s);
            for (i, (c, _, _)) in cs.iter().enumerate() { let mut v = Validation::new(); v.set_name(format!("v{}", i)); v.set_condition(c.clone()); b.add_validation(v); }
            let mut st = CellStyle::new_empty(); st.set_name("st");
            for (c, _, _) in &cs { st.push_stylemap(StyleMap::new(c.clone(), AnyStyleRef::from("other"), Some(CellRef::remote("T", 0, 0)))); }
            let mut nf = ValueFormatNumber::new_named("nf");
            for (c, _, _) in &vs { nf.push_stylemap(ValueStyleMap::new(c.clone(), "other")); }
            b.add_number_format(nf);
            b.add_cellstyle(st);
            let buf = write(&mut b, f)?;
            all_well_formed(&buf, f)?;
            let b2 = read(&buf, f)?;
            for (i, (_, t, _)) in cs.iter().enumerate() {
                let v = b2.validation(&format!("v{}", i)).ok_or("validation is lost")?;
                ckeq!(v.condition().to_string(), *t, "condition of validation {}", i);
            }
            let st = b2.cellstyle("st").ok_or("style is lost")?;
            let got: Vec<String> = st.stylemaps().map(|v| v.iter().map(|m| m.condition().to_string()).collect()).unwrap_or_default();
            ckeq!(got, cs.iter().map(|v| v.1.clone()).collect::<Vec<_>>(), "conditions of the style maps");
            let nf = b2.number_format("nf").ok_or("format is lost")?;
            let got: Vec<String> = nf.stylemaps().map(|v| v.iter().map(|m| m.condition().to_string()).collect()).unwrap_or_default();
            ckeq!(got, vs.iter().map(|v| v.1.clone()).collect::<Vec<_>>(), "conditions of the value style maps");
            Ok(())
        });
    }
}
