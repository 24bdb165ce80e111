//@include pre.rs
use vstd::float::float_cast_spec;
// C13: typed access to a value and conversion into a value.
verus! {
//@struct file=src/value_.rs name=ValueType
//@end
//@struct file=src/value_.rs name=Value
//@subst Box<str> ==> String
//@end
// trusted: the types of chrono, as opaque values.
#[verifier::external_body] #[derive(Clone, Copy)] struct NaiveDate {}
#[verifier::external_body] #[derive(Clone, Copy)] struct NaiveTime {}
#[verifier::external_body] #[derive(Clone, Copy)] struct NaiveDateTime {}
#[verifier::external_body] #[derive(Clone, Copy)] struct Duration {}
#[verifier::external_body] struct TextTag {}
uninterp spec fn date_of(d: NaiveDateTime) -> NaiveDate;
uninterp spec fn time_of(d: NaiveDateTime) -> NaiveTime;
uninterp spec fn hms(h: int, m: int, s: int) -> NaiveTime;
uninterp spec fn ymd(y: int, m: int, d: int) -> NaiveDate;
uninterp spec fn dt_of(d: NaiveDate, t: NaiveTime) -> NaiveDateTime;
uninterp spec fn default_date() -> NaiveDate;
uninterp spec fn default_datetime() -> NaiveDateTime;
uninterp spec fn default_duration() -> Duration;
/// the plain text of one xml fragment, as far as this file is concerned.
uninterp spec fn plain(t: TextTag) -> Seq<char>;
impl NaiveDateTime {
    #[verifier::external_body]
    fn date(&self) -> (r: NaiveDate) ensures r == date_of(*self) { unimplemented!() }
    // trusted: a date and time consists of exactly its date and its time.
    #[verifier::external_body]
    fn new(d: NaiveDate, t: NaiveTime) -> (r: NaiveDateTime) ensures r == dt_of(d, t), date_of(r) == d, time_of(r) == t { unimplemented!() }
    #[verifier::external_body]
    fn default() -> (r: NaiveDateTime) ensures r == default_datetime() { unimplemented!() }
}
impl NaiveDate {
    #[verifier::external_body]
    fn and_hms_opt(&self, h: u32, m: u32, s: u32) -> (r: Option<NaiveDateTime>)
        ensures h < 24 && m < 60 && s < 60 ==> r == Some(dt_of(*self, hms(h as int, m as int, s as int))) && date_of(r->0) == *self && time_of(r->0) == hms(h as int, m as int, s as int)
    { unimplemented!() }
    #[verifier::external_body]
    fn from_ymd_opt(y: i32, m: u32, d: u32) -> (r: Option<NaiveDate>)
        ensures -9999 <= y <= 9999 && 1 <= m <= 12 && 1 <= d <= 28 || (y, m, d) == (1899i32, 12u32, 30u32) ==> r == Some(ymd(y as int, m as int, d as int))
    { unimplemented!() }
    #[verifier::external_body]
    fn default() -> (r: NaiveDate) ensures r == default_date() { unimplemented!() }
}
impl Duration {
    #[verifier::external_body]
    fn default() -> (r: Duration) ensures r == default_duration() { unimplemented!() }
}
impl TextTag {
    #[verifier::external_body]
    fn extract_text(&self, buf: &mut String) ensures final(buf)@ == old(buf)@ + plain(*self) { unimplemented!() }
}
#[verifier::external_body]
fn vp_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vp_clone<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
// trusted: the default of the primitive types.
#[verifier::external_body]
fn vp_f64_zero() -> (r: f64) ensures r == 0.0f64 { unimplemented!() }

/// the number a value carries.
spec fn num(v: Value) -> Option<f64> {
    match v { Value::Number(n) => Some(n), Value::Percentage(n) => Some(n), Value::Currency(n, _) => Some(n), _ => None }
}
spec fn lines(v: Seq<TextTag>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { plain(v[0]) } else { lines(v.drop_last()) + seq!['\n'] + plain(v.last()) }
}

impl Value {
//@fn file=src/value_.rs path=Value::value_type
//@ret r
//@spec
    ensures r == (match *self { Value::Empty => ValueType::Empty, Value::Boolean(_) => ValueType::Boolean, Value::Number(_) => ValueType::Number, Value::Percentage(_) => ValueType::Percentage, Value::Currency(_, _) => ValueType::Currency, Value::Text(_) => ValueType::Text, Value::TextXml(_) => ValueType::TextXml, Value::DateTime(_) => ValueType::DateTime, Value::TimeDuration(_) => ValueType::TimeDuration }),
//@end
//@fn file=src/value_.rs path=Value::as_bool_or
//@params d
//@ret r
//@spec
    ensures r == (match *self { Value::Boolean(b) => b, _ => d }),
//@end
//@fn file=src/value_.rs path=Value::as_i64_opt
//@ret r
//@spec
    ensures match num(*self) { Some(x) => r.is_some() && float_cast_spec::<f64, i64>(x, r->0), None => r.is_none() },
//@end
//@fn file=src/value_.rs path=Value::as_i64_or
//@params d
//@ret r
//@spec
    ensures match num(*self) { Some(x) => float_cast_spec::<f64, i64>(x, r), None => r == d },
//@end
//@fn file=src/value_.rs path=Value::as_i64_or_default
//@ret r
//@spec
    ensures match num(*self) { Some(x) => float_cast_spec::<f64, i64>(x, r), None => r == 0 },
//@end
//@fn file=src/value_.rs path=Value::as_u64_opt
//@ret r
//@spec
    ensures match num(*self) { Some(x) => r.is_some() && float_cast_spec::<f64, u64>(x, r->0), None => r.is_none() },
//@end
//@fn file=src/value_.rs path=Value::as_u64_or
//@params d
//@ret r
//@spec
    ensures match num(*self) { Some(x) => float_cast_spec::<f64, u64>(x, r), None => r == d },
//@end
//@fn file=src/value_.rs path=Value::as_u64_or_default
//@ret r
//@spec
    ensures match num(*self) { Some(x) => float_cast_spec::<f64, u64>(x, r), None => r == 0 },
//@end
//@fn file=src/value_.rs path=Value::as_i32_opt
//@ret r
//@spec
    ensures match num(*self) { Some(x) => r.is_some() && float_cast_spec::<f64, i32>(x, r->0), None => r.is_none() },
//@end
//@fn file=src/value_.rs path=Value::as_i32_or
//@params d
//@ret r
//@spec
    ensures match num(*self) { Some(x) => float_cast_spec::<f64, i32>(x, r), None => r == d },
//@end
//@fn file=src/value_.rs path=Value::as_i32_or_default
//@ret r
//@spec
    ensures match num(*self) { Some(x) => float_cast_spec::<f64, i32>(x, r), None => r == 0 },
//@end
//@fn file=src/value_.rs path=Value::as_u32_opt
//@ret r
//@spec
    ensures match num(*self) { Some(x) => r.is_some() && float_cast_spec::<f64, u32>(x, r->0), None => r.is_none() },
//@end
//@fn file=src/value_.rs path=Value::as_u32_or
//@params d
//@ret r
//@spec
    ensures match num(*self) { Some(x) => float_cast_spec::<f64, u32>(x, r), None => r == d },
//@end
//@fn file=src/value_.rs path=Value::as_u32_or_default
//@ret r
//@spec
    ensures match num(*self) { Some(x) => float_cast_spec::<f64, u32>(x, r), None => r == 0 },
//@end
//@fn file=src/value_.rs path=Value::as_i16_opt
//@ret r
//@spec
    ensures match num(*self) { Some(x) => r.is_some() && float_cast_spec::<f64, i16>(x, r->0), None => r.is_none() },
//@end
//@fn file=src/value_.rs path=Value::as_i16_or
//@params d
//@ret r
//@spec
    ensures match num(*self) { Some(x) => float_cast_spec::<f64, i16>(x, r), None => r == d },
//@end
//@fn file=src/value_.rs path=Value::as_i16_or_default
//@ret r
//@spec
    ensures match num(*self) { Some(x) => float_cast_spec::<f64, i16>(x, r), None => r == 0 },
//@end
//@fn file=src/value_.rs path=Value::as_u16_opt
//@ret r
//@spec
    ensures match num(*self) { Some(x) => r.is_some() && float_cast_spec::<f64, u16>(x, r->0), None => r.is_none() },
//@end
//@fn file=src/value_.rs path=Value::as_u16_or
//@params d
//@ret r
//@spec
    ensures match num(*self) { Some(x) => float_cast_spec::<f64, u16>(x, r), None => r == d },
//@end
//@fn file=src/value_.rs path=Value::as_u16_or_default
//@ret r
//@spec
    ensures match num(*self) { Some(x) => float_cast_spec::<f64, u16>(x, r), None => r == 0 },
//@end
//@fn file=src/value_.rs path=Value::as_i8_opt
//@ret r
//@spec
    ensures match num(*self) { Some(x) => r.is_some() && float_cast_spec::<f64, i8>(x, r->0), None => r.is_none() },
//@end
//@fn file=src/value_.rs path=Value::as_i8_or
//@params d
//@ret r
//@spec
    ensures match num(*self) { Some(x) => float_cast_spec::<f64, i8>(x, r), None => r == d },
//@end
//@fn file=src/value_.rs path=Value::as_i8_or_default
//@ret r
//@spec
    ensures match num(*self) { Some(x) => float_cast_spec::<f64, i8>(x, r), None => r == 0 },
//@end
//@fn file=src/value_.rs path=Value::as_u8_opt
//@ret r
//@spec
    ensures match num(*self) { Some(x) => r.is_some() && float_cast_spec::<f64, u8>(x, r->0), None => r.is_none() },
//@end
//@fn file=src/value_.rs path=Value::as_u8_or
//@params d
//@ret r
//@spec
    ensures match num(*self) { Some(x) => float_cast_spec::<f64, u8>(x, r), None => r == d },
//@end
//@fn file=src/value_.rs path=Value::as_u8_or_default
//@ret r
//@spec
    ensures match num(*self) { Some(x) => float_cast_spec::<f64, u8>(x, r), None => r == 0 },
//@end
//@fn file=src/value_.rs path=Value::as_f64_opt
//@ret r
//@spec
    ensures r == num(*self),
//@end
//@fn file=src/value_.rs path=Value::as_f64_or
//@params d
//@ret r
//@spec
    ensures r == (match num(*self) { Some(x) => x, None => d }),
//@end
//@fn file=src/value_.rs path=Value::as_f64_or_default
//@ret r
//@subst .unwrap_or_default() ==> .unwrap_or(vp_f64_zero())
//@spec
    ensures r == (match num(*self) { Some(x) => x, None => 0.0f64 }),
//@end
//@fn file=src/value_.rs path=Value::as_str_opt
//@ret r
//@subst s.as_ref() ==> s.as_str()
//@spec
    ensures match *self { Value::Text(s) => r.is_some() && r->0@ == s@, _ => r.is_none() },
//@end
//@fn file=src/value_.rs path=Value::as_str_or
//@params d
//@ret r
//@spec
    ensures r@ == (match *self { Value::Text(s) => s@, _ => d@ }),
//@end
//@fn file=src/value_.rs path=Value::as_str_or_default
//@ret r
//@subst .unwrap_or_default() ==> .unwrap_or("")
//@spec
    ensures r@ == (match *self { Value::Text(s) => s@, _ => Seq::empty() }),
//@at start
proof { reveal_strlit(""); }
//@end
//@fn file=src/value_.rs path=Value::as_string_opt
//@ret r
//@subst s.clone() ==> vp_clone(s)
//@spec
    ensures match *self { Value::Text(s) => r == Some(s), _ => r.is_none() },
//@end
//@fn file=src/value_.rs path=Value::as_string_or_default
//@ret r
//@subst .unwrap_or_default() ==> .unwrap_or(String::new())
//@spec
    ensures r@ == (match *self { Value::Text(s) => s@, _ => Seq::empty() }),
//@end
//@fn file=src/value_.rs path=Value::as_cow_str_or
//@params d
//@ret r
//@subst Cow<'a, str> ==> String
//@subst Cow::from(s) ==> vp_string(s.as_str())
//@subst Cow::from(buf) ==> buf
//@subst Cow::from(d) ==> vp_string(d)
//@spec
    ensures r@ == (match *self { Value::Text(s) => s@, Value::TextXml(v) => lines(v@), _ => d@ }),
//@loop 0 it=it
    invariant buf@ == lines(v@.take(it.index@ as int)), it.seq().len() == v@.len(), forall|k: int| 0 <= k < v@.len() ==> *it.seq()[k] == v@[k], add_newline == (it.index@ > 0),
//@at loopend 0
proof { assert(v@.take(it.index@ + 1).drop_last() =~= v@.take(it.index@ as int)); }
//@at afterloop 0
proof { assert(v@.take(v@.len() as int) =~= v@); }
//@end
//@fn file=src/value_.rs path=Value::as_timeduration_opt
//@ret r
//@spec
    ensures r == (match *self { Value::TimeDuration(x) => Some(x), _ => None }),
//@end
//@fn file=src/value_.rs path=Value::as_timeduration_or
//@params d
//@ret r
//@spec
    ensures r == (match *self { Value::TimeDuration(x) => x, _ => d }),
//@end
//@fn file=src/value_.rs path=Value::as_timeduration_or_default
//@ret r
//@subst .unwrap_or_default() ==> .unwrap_or(Duration::default())
//@spec
    ensures r == (match *self { Value::TimeDuration(x) => x, _ => default_duration() }),
//@end
//@fn file=src/value_.rs path=Value::as_datetime_opt
//@ret r
//@spec
    ensures r == (match *self { Value::DateTime(x) => Some(x), _ => None }),
//@end
//@fn file=src/value_.rs path=Value::as_datetime_or
//@params d
//@ret r
//@spec
    ensures r == (match *self { Value::DateTime(x) => x, _ => d }),
//@end
//@fn file=src/value_.rs path=Value::as_datetime_or_default
//@ret r
//@subst .unwrap_or_default() ==> .unwrap_or(NaiveDateTime::default())
//@spec
    ensures r == (match *self { Value::DateTime(x) => x, _ => default_datetime() }),
//@end
//@fn file=src/value_.rs path=Value::as_date_opt
//@ret r
//@spec
    ensures r == (match *self { Value::DateTime(x) => Some(date_of(x)), _ => None }),
//@end
//@fn file=src/value_.rs path=Value::as_date_or
//@params d
//@ret r
//@spec
    ensures r == (match *self { Value::DateTime(x) => date_of(x), _ => d }),
//@end
//@fn file=src/value_.rs path=Value::as_date_or_default
//@ret r
//@subst .unwrap_or_default() ==> .unwrap_or(NaiveDate::default())
//@spec
    ensures r == (match *self { Value::DateTime(x) => date_of(x), _ => default_date() }),
//@end
//@fn file=src/value_.rs path=Value::currency
//@ret r
//@subst c) => c ==> c) => c.as_str()
//@spec
    ensures r@ == (match *self { Value::Currency(_, c) => c@, _ => Seq::empty() }),
//@at start
proof { reveal_strlit(""); }
//@end
//@fn file=src/value_.rs path=Value::new_currency
//@params cur value
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst cur: S ==> cur: &str
//@subst cur.as_ref().into() ==> vp_string(cur)
//@spec
    ensures r matches Value::Currency(x, c) && x == value && c@ == cur@,
//@end
//@fn file=src/value_.rs path=Value::new_percentage
//@params value
//@ret r
//@spec
    ensures r == Value::Percentage(value),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<()> as=from_unit
//@params u
//@ret r
//@subst _: () ==> u: ()
//@spec
    ensures r == Value::Empty,
//@end
//@fn file=src/value_.rs path=Value::from trait=From<&str> as=from_str
//@params s
//@ret r
//@subst s.to_string() ==> vp_string(s)
//@spec
    ensures r matches Value::Text(x) && x@ == s@,
//@end
//@fn file=src/value_.rs path=Value::from trait=From<String> as=from_string
//@params s
//@ret r
//@spec
    ensures r == Value::Text(s),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<&String> as=from_rstring
//@params s
//@ret r
//@subst s.to_string() ==> vp_clone(s)
//@spec
    ensures r matches Value::Text(x) && x@ == s@,
//@end
//@fn file=src/value_.rs path=Value::from trait=From<TextTag> as=from_tag
//@params t
//@ret r
//@spec
    ensures r matches Value::TextXml(x) && x@ == seq![t],
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Vec<TextTag>> as=from_tags
//@params t
//@ret r
//@spec
    ensures r == Value::TextXml(t),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<&str>> as=from_opt_str
//@params s
//@ret r
//@subst s.to_string() ==> vp_string(s)
//@spec
    ensures match s { Some(s) => r matches Value::Text(x) && x@ == s@, None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<&String>> as=from_opt_rstring
//@params s
//@ret r
//@subst s.to_string() ==> vp_clone(s)
//@spec
    ensures match s { Some(s) => r matches Value::Text(x) && x@ == s@, None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<String>> as=from_opt_string
//@params s
//@ret r
//@spec
    ensures r == (match s { Some(s) => Value::Text(s), None => Value::Empty }),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<f64> macro=from_number(f64) as=from_f64
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && x == f,
//@end
//@fn file=src/value_.rs path=Value::from trait=From<&f64> macro=from_number(f64) as=from_rf64
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && x == *f,
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<f64>> macro=from_number(f64) as=from_opt_f64
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && x == f, None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<&f64>> macro=from_number(f64) as=from_opt_rf64
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && x == *f, None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<f32> macro=from_number(f32) as=from_f32
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<f32, f64>(f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<&f32> macro=from_number(f32) as=from_rf32
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<f32, f64>(*f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<f32>> macro=from_number(f32) as=from_opt_f32
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<f32, f64>(f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<&f32>> macro=from_number(f32) as=from_opt_rf32
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<f32, f64>(*f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<i64> macro=from_number(i64) as=from_i64
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<i64, f64>(f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<&i64> macro=from_number(i64) as=from_ri64
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<i64, f64>(*f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<i64>> macro=from_number(i64) as=from_opt_i64
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<i64, f64>(f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<&i64>> macro=from_number(i64) as=from_opt_ri64
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<i64, f64>(*f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<i32> macro=from_number(i32) as=from_i32
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<i32, f64>(f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<&i32> macro=from_number(i32) as=from_ri32
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<i32, f64>(*f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<i32>> macro=from_number(i32) as=from_opt_i32
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<i32, f64>(f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<&i32>> macro=from_number(i32) as=from_opt_ri32
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<i32, f64>(*f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<i16> macro=from_number(i16) as=from_i16
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<i16, f64>(f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<&i16> macro=from_number(i16) as=from_ri16
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<i16, f64>(*f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<i16>> macro=from_number(i16) as=from_opt_i16
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<i16, f64>(f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<&i16>> macro=from_number(i16) as=from_opt_ri16
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<i16, f64>(*f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<i8> macro=from_number(i8) as=from_i8
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<i8, f64>(f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<&i8> macro=from_number(i8) as=from_ri8
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<i8, f64>(*f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<i8>> macro=from_number(i8) as=from_opt_i8
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<i8, f64>(f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<&i8>> macro=from_number(i8) as=from_opt_ri8
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<i8, f64>(*f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<u64> macro=from_number(u64) as=from_u64
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<u64, f64>(f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<&u64> macro=from_number(u64) as=from_ru64
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<u64, f64>(*f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<u64>> macro=from_number(u64) as=from_opt_u64
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<u64, f64>(f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<&u64>> macro=from_number(u64) as=from_opt_ru64
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<u64, f64>(*f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<u32> macro=from_number(u32) as=from_u32
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<u32, f64>(f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<&u32> macro=from_number(u32) as=from_ru32
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<u32, f64>(*f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<u32>> macro=from_number(u32) as=from_opt_u32
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<u32, f64>(f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<&u32>> macro=from_number(u32) as=from_opt_ru32
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<u32, f64>(*f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<u16> macro=from_number(u16) as=from_u16
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<u16, f64>(f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<&u16> macro=from_number(u16) as=from_ru16
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<u16, f64>(*f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<u16>> macro=from_number(u16) as=from_opt_u16
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<u16, f64>(f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<&u16>> macro=from_number(u16) as=from_opt_ru16
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<u16, f64>(*f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<u8> macro=from_number(u8) as=from_u8
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<u8, f64>(f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<&u8> macro=from_number(u8) as=from_ru8
//@params f
//@ret r
//@spec
    ensures r matches Value::Number(x) && float_cast_spec::<u8, f64>(*f, x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<u8>> macro=from_number(u8) as=from_opt_u8
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<u8, f64>(f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<&u8>> macro=from_number(u8) as=from_opt_ru8
//@params f
//@ret r
//@spec
    ensures match f { Some(f) => r matches Value::Number(x) && float_cast_spec::<u8, f64>(*f, x), None => r == Value::Empty },
//@end
//@fn file=src/value_.rs path=Value::from trait=From<bool> as=from_bool
//@params x
//@ret r
//@spec
    ensures r == Value::Boolean(x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<bool>> as=from_opt_bool
//@params x
//@ret r
//@spec
    ensures r == (match x { Some(x) => Value::Boolean(x), None => Value::Empty }),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<NaiveDateTime> as=from_datetime
//@params x
//@ret r
//@spec
    ensures r == Value::DateTime(x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<NaiveDateTime>> as=from_opt_datetime
//@params x
//@ret r
//@spec
    ensures r == (match x { Some(x) => Value::DateTime(x), None => Value::Empty }),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Duration> as=from_duration
//@params x
//@ret r
//@spec
    ensures r == Value::TimeDuration(x),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<Duration>> as=from_opt_duration
//@params x
//@ret r
//@spec
    ensures r == (match x { Some(x) => Value::TimeDuration(x), None => Value::Empty }),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<NaiveDate> as=from_date
//@params x
//@ret r
//@spec
    ensures r == Value::DateTime(dt_of(x, hms(0, 0, 0))),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<NaiveDate>> as=from_opt_date
//@params x
//@ret r
//@spec
    ensures r == (match x { Some(x) => Value::DateTime(dt_of(x, hms(0, 0, 0))), None => Value::Empty }),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<NaiveTime> as=from_time
//@params x
//@ret r
//@spec
    ensures r == Value::DateTime(dt_of(ymd(1899, 12, 30), x)),
//@end
//@fn file=src/value_.rs path=Value::from trait=From<Option<NaiveTime>> as=from_opt_time
//@params x
//@ret r
//@spec
    ensures r == (match x { Some(x) => Value::DateTime(dt_of(ymd(1899, 12, 30), x)), None => Value::Empty }),
//@end
}

// ------------------------------------------------------------------ theorems
// a value carries exactly one kind of content: what goes in comes out through the accessor of its own kind only.
fn thm_text(s: String, d: &str) -> (r: bool) ensures r {
    let ghost g = s;
    let v = Value::from_string(s);
    let a = v.as_str_opt();
    let n = v.as_f64_opt();
    let b = v.as_datetime_opt();
    let c = v.as_timeduration_opt();
    let z = v.as_bool_or(true);
    let y = v.as_bool_or(false);
    proof { assert(a.is_some() && a->0@ == g@); }
    n.is_none() && b.is_none() && c.is_none() && z && !y
}
fn thm_f64(x: f64) {
    let v = Value::from_f64(x);
    let a = v.as_f64_opt();
    assert(a == Some(x));
    let s = v.as_str_opt();
    assert(s.is_none());
}
fn thm_date(x: NaiveDate) {
    let v = Value::from_date(x);
    let a = v.as_date_opt();
    let n = v.as_f64_opt();
    assert(n.is_none());
}
fn thm_currency(c: &str, x: f64) {
    let v = Value::new_currency(c, x);
    let n = v.as_f64_opt();
    let k = v.currency();
    assert(n == Some(x) && k@ == c@);
}
fn main() {}
}
