//@include pre.rs
// C16: conditions of validations and style maps state exactly what their constructors name.
verus! {
//@gfmt
//@gsubst &mut Formatter<'_> ==> &mut String
//@gsubst std::fmt::Result ==> Result<(), FmtErr>
//@gsubst <V: Into<Value>>(value: V) ==> (value: Value)
//@gsubst value.into() ==> value
//@gsubst <S: Into<String>>(str: S) ==> (str: String)
//@gsubst str.into() ==> str
struct FmtErr {}
trait Shown { spec fn shown(&self) -> Seq<char>; }
impl Shown for String { spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: Shown + ?Sized> Shown for &T { spec fn shown(&self) -> Seq<char> { (**self).shown() } }
// trusted: core::fmt appends the text of the value
#[verifier::external_body] fn vp_shown<T: Shown + ?Sized>(f: &mut String, t: &T) ensures final(f)@ == old(f)@ + t.shown() { unimplemented!() }
fn vp_lit(f: &mut String, s: &str) ensures final(f)@ == old(f)@ + s@ { f.push_str(s); }
fn vp_ok() -> (r: Result<(), FmtErr>) ensures r.is_ok() { Ok(()) }
// trusted: ToString of a number or bool is its text
trait Num { spec fn text(&self) -> Seq<char>; }
uninterp spec fn text_i8(v: i8) -> Seq<char>; impl Num for i8 { spec fn text(&self) -> Seq<char> { text_i8(*self) } }
uninterp spec fn text_i16(v: i16) -> Seq<char>; impl Num for i16 { spec fn text(&self) -> Seq<char> { text_i16(*self) } }
uninterp spec fn text_i32(v: i32) -> Seq<char>; impl Num for i32 { spec fn text(&self) -> Seq<char> { text_i32(*self) } }
uninterp spec fn text_i64(v: i64) -> Seq<char>; impl Num for i64 { spec fn text(&self) -> Seq<char> { text_i64(*self) } }
uninterp spec fn text_u8(v: u8) -> Seq<char>; impl Num for u8 { spec fn text(&self) -> Seq<char> { text_u8(*self) } }
uninterp spec fn text_u16(v: u16) -> Seq<char>; impl Num for u16 { spec fn text(&self) -> Seq<char> { text_u16(*self) } }
uninterp spec fn text_u32(v: u32) -> Seq<char>; impl Num for u32 { spec fn text(&self) -> Seq<char> { text_u32(*self) } }
uninterp spec fn text_u64(v: u64) -> Seq<char>; impl Num for u64 { spec fn text(&self) -> Seq<char> { text_u64(*self) } }
uninterp spec fn text_f32(v: f32) -> Seq<char>; impl Num for f32 { spec fn text(&self) -> Seq<char> { text_f32(*self) } }
uninterp spec fn text_f64(v: f64) -> Seq<char>; impl Num for f64 { spec fn text(&self) -> Seq<char> { text_f64(*self) } }
uninterp spec fn text_bool(v: bool) -> Seq<char>; impl Num for bool { spec fn text(&self) -> Seq<char> { text_bool(*self) } }
impl<T: Num> Num for &T { spec fn text(&self) -> Seq<char> { (**self).text() } }
#[verifier::external_body] fn vp_num<T: Num>(v: T) -> (r: String) ensures r@ == v.text() { unimplemented!() }
//@gsubst v.to_string() ==> vp_num(v)
//@gsubst len.to_string() ==> vp_num(len)
//@gsubst from.to_string() ==> vp_num(from)
//@gsubst to.to_string() ==> vp_num(to)
#[verifier::external_body] fn vp_starts(s: &String, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
// ------------------------------------------------------------------ quoted text
spec fn doubled(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else { doubled(s.drop_last()) + (if s.last() == '"' { seq!['"', '"'] } else { seq![s.last()] }) } }
spec fn quoted(s: Seq<char>) -> Seq<char> { seq!['"'] + doubled(s) + seq!['"'] }
/// how a reader takes a quoted text apart: from behind the opening quote, two quotes stand for one, a single one ends it
spec fn scan(t: Seq<char>, out: Seq<char>) -> Option<(Seq<char>, Seq<char>)> decreases t.len() {
    if t.len() == 0 { None }
    else if t[0] != '"' { scan(t.skip(1), out.push(t[0])) }
    else if t.len() > 1 && t[1] == '"' { scan(t.skip(2), out.push('"')) }
    else { Some((out, t.skip(1))) }
}
proof fn lemma_scan(s: Seq<char>, rest: Seq<char>, out: Seq<char>)
    requires rest.len() > 0 ==> rest[0] != '"',
    ensures scan(fdoubled(s) + seq!['"'] + rest, out) == Some((out + s, rest)),
    decreases s.len(),
{
    let q = seq!['"'];
    if s.len() == 0 {
        let t = fdoubled(s) + q + rest;
        assert(t =~= q + rest); assert(t[0] == '"'); assert(t.skip(1) =~= rest); assert(out + s =~= out);
        assert(t.len() > 1 ==> t[1] == rest[0]);
    } else {
        let r = s.skip(1); let t = fdoubled(s) + q + rest; let u = fdoubled(r) + q + rest;
        lemma_scan(r, rest, out.push(s[0]));
        assert(out.push(s[0]) + r =~= out + s);
        if s[0] == '"' { assert(t =~= seq!['"', '"'] + u); assert(t[0] == '"' && t[1] == '"'); assert(t.skip(2) =~= u); }
        else { assert(t =~= seq![s[0]] + u); assert(t[0] == s[0]); assert(t.skip(1) =~= u); }
    }
}
/// doubled, taken from the front
spec fn fdoubled(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else { (if s[0] == '"' { seq!['"', '"'] } else { seq![s[0]] }) + fdoubled(s.skip(1)) } }
proof fn lemma_front(s: Seq<char>, c: char) ensures fdoubled(s.push(c)) == fdoubled(s) + (if c == '"' { seq!['"', '"'] } else { seq![c] }) decreases s.len() {
    let d = if c == '"' { seq!['"', '"'] } else { seq![c] };
    if s.len() == 0 { assert(s.push(c).skip(1) =~= s); assert(fdoubled(s.push(c)) =~= d + fdoubled(s)); assert(d + fdoubled(s) =~= fdoubled(s) + d); }
    else { assert(s.push(c).skip(1) =~= s.skip(1).push(c)); lemma_front(s.skip(1), c); assert(fdoubled(s.push(c)) =~= fdoubled(s) + d); }
}
proof fn lemma_same(s: Seq<char>) ensures doubled(s) == fdoubled(s) decreases s.len() { if s.len() > 0 { lemma_same(s.drop_last()); lemma_front(s.drop_last(), s.last()); assert(s.drop_last().push(s.last()) =~= s); } }
/// whatever the text holds, its quoted form is read back as that text and ends where it ends
proof fn thm_quoted(s: Seq<char>, rest: Seq<char>)
    requires rest.len() > 0 ==> rest[0] != '"',
    ensures quoted(s)[0] == '"', scan((quoted(s) + rest).skip(1), Seq::empty()) == Some((s, rest)),
{
    lemma_same(s); lemma_scan(s, rest, Seq::empty()); assert((quoted(s) + rest).skip(1) =~= fdoubled(s) + seq!['"'] + rest); assert(Seq::<char>::empty() + s =~= s);
}
//@fn file=src/condition.rs path=quote
//@params val
//@ret r
//@subst for c in val.chars() { $body } ==> let vp_cs = val.chars(); for c in vp_cs { $body }
//@spec
    ensures r@ == quoted(val@),
//@loop 0 it=it
    invariant it.seq() == val@, buf@ == seq!['"'] + doubled(val@.take(it.index@)),
//@at loopstart 0
    let ghost i0 = it.index@;
    proof { assert(val@.take(i0 + 1).drop_last() =~= val@.take(i0)); assert(val@.take(i0 + 1).last() == val@[i0]); assert(c == val@[i0]); }
//@at loopend 0
    proof { assert(buf@ =~= seq!['"'] + doubled(val@.take(i0 + 1))); }
//@at beforeloop 0
    proof { assert(val@.take(0) =~= Seq::<char>::empty()); assert(buf@ =~= seq!['"'] + doubled(val@.take(0))); }
//@at afterloop 0
    proof { assert(val@.take(val@.len() as int) =~= val@); }
//@end
//@struct file=src/condition.rs name=Value
//@end
//@struct file=src/condition.rs name=ValueCondition
//@end
//@struct file=src/condition.rs name=Condition
//@end

impl Value {
//@fn file=src/condition.rs path=Value::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r is Ok, final(f)@ == old(f)@ + self.val@,
//@end
    // std: ToString collects what Display puts out
    fn to_string(&self) -> (r: String) ensures r@ == self.val@ { let mut s = String::new(); let _x = self.fmt(&mut s); proof { assert(Seq::<char>::empty() + self.val@ =~= self.val@); } s }
}
impl Shown for Value { spec fn shown(&self) -> Seq<char> { self.val@ } }
impl ValueCondition {
//@fn file=src/condition.rs path=ValueCondition::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r is Ok, final(f)@ == old(f)@ + self.cond@,
//@end
    // std: ToString collects what Display puts out
    fn to_string(&self) -> (r: String) ensures r@ == self.cond@ { let mut s = String::new(); let _x = self.fmt(&mut s); proof { assert(Seq::<char>::empty() + self.cond@ =~= self.cond@); } s }
}
impl Shown for ValueCondition { spec fn shown(&self) -> Seq<char> { self.cond@ } }
impl Condition {
//@fn file=src/condition.rs path=Condition::fmt trait=Display
//@params f
//@ret r
//@spec
    ensures r is Ok, final(f)@ == old(f)@ + self.cond@,
//@end
    // std: ToString collects what Display puts out
    fn to_string(&self) -> (r: String) ensures r@ == self.cond@ { let mut s = String::new(); let _x = self.fmt(&mut s); proof { assert(Seq::<char>::empty() + self.cond@ =~= self.cond@); } s }
}
impl Shown for Condition { spec fn shown(&self) -> Seq<char> { self.cond@ } }
impl Value {
//@fn file=src/condition.rs path=Value::from trait=From<&str> as=from_str
//@params s
//@ret r
//@spec
    ensures r.val@ == quoted(s@),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<&&str> as=from_rstr
//@params s
//@ret r
//@spec
    ensures r.val@ == quoted(s@),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<String> as=from_string
//@params s
//@ret r
//@spec
    ensures r.val@ == quoted(s@),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<&String> as=from_rstring
//@params s
//@ret r
//@spec
    ensures r.val@ == quoted(s@),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<i8> macro=from_x_conditionvalue(i8) as=from_i8
//@params v
//@ret r
//@spec
    ensures r.val@ == text_i8(v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<&i8> macro=from_x_conditionvalue(i8) as=from_ri8
//@params v
//@ret r
//@spec
    ensures r.val@ == text_i8(*v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<i16> macro=from_x_conditionvalue(i16) as=from_i16
//@params v
//@ret r
//@spec
    ensures r.val@ == text_i16(v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<&i16> macro=from_x_conditionvalue(i16) as=from_ri16
//@params v
//@ret r
//@spec
    ensures r.val@ == text_i16(*v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<i32> macro=from_x_conditionvalue(i32) as=from_i32
//@params v
//@ret r
//@spec
    ensures r.val@ == text_i32(v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<&i32> macro=from_x_conditionvalue(i32) as=from_ri32
//@params v
//@ret r
//@spec
    ensures r.val@ == text_i32(*v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<i64> macro=from_x_conditionvalue(i64) as=from_i64
//@params v
//@ret r
//@spec
    ensures r.val@ == text_i64(v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<&i64> macro=from_x_conditionvalue(i64) as=from_ri64
//@params v
//@ret r
//@spec
    ensures r.val@ == text_i64(*v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<u8> macro=from_x_conditionvalue(u8) as=from_u8
//@params v
//@ret r
//@spec
    ensures r.val@ == text_u8(v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<&u8> macro=from_x_conditionvalue(u8) as=from_ru8
//@params v
//@ret r
//@spec
    ensures r.val@ == text_u8(*v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<u16> macro=from_x_conditionvalue(u16) as=from_u16
//@params v
//@ret r
//@spec
    ensures r.val@ == text_u16(v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<&u16> macro=from_x_conditionvalue(u16) as=from_ru16
//@params v
//@ret r
//@spec
    ensures r.val@ == text_u16(*v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<u32> macro=from_x_conditionvalue(u32) as=from_u32
//@params v
//@ret r
//@spec
    ensures r.val@ == text_u32(v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<&u32> macro=from_x_conditionvalue(u32) as=from_ru32
//@params v
//@ret r
//@spec
    ensures r.val@ == text_u32(*v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<u64> macro=from_x_conditionvalue(u64) as=from_u64
//@params v
//@ret r
//@spec
    ensures r.val@ == text_u64(v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<&u64> macro=from_x_conditionvalue(u64) as=from_ru64
//@params v
//@ret r
//@spec
    ensures r.val@ == text_u64(*v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<f32> macro=from_x_conditionvalue(f32) as=from_f32
//@params v
//@ret r
//@spec
    ensures r.val@ == text_f32(v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<&f32> macro=from_x_conditionvalue(f32) as=from_rf32
//@params v
//@ret r
//@spec
    ensures r.val@ == text_f32(*v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<f64> macro=from_x_conditionvalue(f64) as=from_f64
//@params v
//@ret r
//@spec
    ensures r.val@ == text_f64(v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<&f64> macro=from_x_conditionvalue(f64) as=from_rf64
//@params v
//@ret r
//@spec
    ensures r.val@ == text_f64(*v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<bool> macro=from_x_conditionvalue(bool) as=from_bool
//@params v
//@ret r
//@spec
    ensures r.val@ == text_bool(v),
//@end
//@fn file=src/condition.rs path=Value::from trait=From<&bool> macro=from_x_conditionvalue(bool) as=from_rbool
//@params v
//@ret r
//@spec
    ensures r.val@ == text_bool(*v),
//@end
}
impl ValueCondition {
//@fn file=src/condition.rs path=ValueCondition::new
//@params s
//@ret r
//@spec
    ensures r.cond@ == s@,
//@end
//@fn file=src/condition.rs path=ValueCondition::value_eq
//@params value
//@ret r
//@spec
    ensures r.cond@ == "value()="@ + value.val@,
//@at before 0 ValueCondition { cond: buf }
    proof { assert(buf@ =~= "value()="@ + value.val@); }
//@end
//@fn file=src/condition.rs path=ValueCondition::value_ne
//@params value
//@ret r
//@spec
    ensures r.cond@ == "value()!="@ + value.val@,
//@at before 0 ValueCondition { cond: buf }
    proof { assert(buf@ =~= "value()!="@ + value.val@); }
//@end
//@fn file=src/condition.rs path=ValueCondition::value_lt
//@params value
//@ret r
//@spec
    ensures r.cond@ == "value()<"@ + value.val@,
//@at before 0 ValueCondition { cond: buf }
    proof { assert(buf@ =~= "value()<"@ + value.val@); }
//@end
//@fn file=src/condition.rs path=ValueCondition::value_gt
//@params value
//@ret r
//@spec
    ensures r.cond@ == "value()>"@ + value.val@,
//@at before 0 ValueCondition { cond: buf }
    proof { assert(buf@ =~= "value()>"@ + value.val@); }
//@end
//@fn file=src/condition.rs path=ValueCondition::value_le
//@params value
//@ret r
//@spec
    ensures r.cond@ == "value()<="@ + value.val@,
//@at before 0 ValueCondition { cond: buf }
    proof { assert(buf@ =~= "value()<="@ + value.val@); }
//@end
//@fn file=src/condition.rs path=ValueCondition::value_ge
//@params value
//@ret r
//@spec
    ensures r.cond@ == "value()>="@ + value.val@,
//@at before 0 ValueCondition { cond: buf }
    proof { assert(buf@ =~= "value()>="@ + value.val@); }
//@end
}
impl Condition {
//@fn file=src/condition.rs path=Condition::new
//@params s
//@ret r
//@spec
    ensures r.cond@ == s@,
//@end
//@fn file=src/condition.rs path=Condition::content_eq
//@params value
//@ret r
//@spec
    ensures r.cond@ == "cell-content()="@ + value.val@,
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content()="@ + value.val@); }
//@end
//@fn file=src/condition.rs path=Condition::content_ne
//@params value
//@ret r
//@spec
    ensures r.cond@ == "cell-content()!="@ + value.val@,
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content()!="@ + value.val@); }
//@end
//@fn file=src/condition.rs path=Condition::content_lt
//@params value
//@ret r
//@spec
    ensures r.cond@ == "cell-content()<"@ + value.val@,
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content()<"@ + value.val@); }
//@end
//@fn file=src/condition.rs path=Condition::content_gt
//@params value
//@ret r
//@spec
    ensures r.cond@ == "cell-content()>"@ + value.val@,
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content()>"@ + value.val@); }
//@end
//@fn file=src/condition.rs path=Condition::content_le
//@params value
//@ret r
//@spec
    ensures r.cond@ == "cell-content()<="@ + value.val@,
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content()<="@ + value.val@); }
//@end
//@fn file=src/condition.rs path=Condition::content_ge
//@params value
//@ret r
//@spec
    ensures r.cond@ == "cell-content()>="@ + value.val@,
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content()>="@ + value.val@); }
//@end
//@fn file=src/condition.rs path=Condition::content_text_length_eq
//@params len
//@ret r
//@spec
    ensures r.cond@ == "cell-content-text-length()="@ + text_u32(len),
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content-text-length()="@ + text_u32(len)); }
//@end
//@fn file=src/condition.rs path=Condition::content_text_length_ne
//@params len
//@ret r
//@spec
    ensures r.cond@ == "cell-content-text-length()!="@ + text_u32(len),
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content-text-length()!="@ + text_u32(len)); }
//@end
//@fn file=src/condition.rs path=Condition::content_text_length_lt
//@params len
//@ret r
//@spec
    ensures r.cond@ == "cell-content-text-length()<"@ + text_u32(len),
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content-text-length()<"@ + text_u32(len)); }
//@end
//@fn file=src/condition.rs path=Condition::content_text_length_gt
//@params len
//@ret r
//@spec
    ensures r.cond@ == "cell-content-text-length()>"@ + text_u32(len),
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content-text-length()>"@ + text_u32(len)); }
//@end
//@fn file=src/condition.rs path=Condition::content_text_length_le
//@params len
//@ret r
//@spec
    ensures r.cond@ == "cell-content-text-length()<="@ + text_u32(len),
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content-text-length()<="@ + text_u32(len)); }
//@end
//@fn file=src/condition.rs path=Condition::content_text_length_ge
//@params len
//@ret r
//@spec
    ensures r.cond@ == "cell-content-text-length()>="@ + text_u32(len),
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content-text-length()>="@ + text_u32(len)); }
//@end
//@fn file=src/condition.rs path=Condition::content_text_length_is_between
//@params from, to
//@ret r
//@spec
    ensures r.cond@ == "cell-content-text-length-is-between("@ + text_u32(from) + ", "@ + text_u32(to) + seq![')'],
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content-text-length-is-between("@ + text_u32(from) + ", "@ + text_u32(to) + seq![')']); }
//@end
//@fn file=src/condition.rs path=Condition::content_text_length_is_not_between
//@params from, to
//@ret r
//@spec
    ensures r.cond@ == "cell-content-text-length-is-not-between("@ + text_u32(from) + ", "@ + text_u32(to) + seq![')'],
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content-text-length-is-not-between("@ + text_u32(from) + ", "@ + text_u32(to) + seq![')']); }
//@end
//@fn file=src/condition.rs path=Condition::content_is_date_and
//@params vcond
//@ret r
//@spec
    ensures r.cond@ == "cell-content-is-date()"@ + " and "@ + vcond.cond@,
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content-is-date()"@ + " and "@ + vcond.cond@); }
//@end
//@fn file=src/condition.rs path=Condition::content_is_time_and
//@params vcond
//@ret r
//@spec
    ensures r.cond@ == "cell-content-is-time()"@ + " and "@ + vcond.cond@,
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content-is-time()"@ + " and "@ + vcond.cond@); }
//@end
//@fn file=src/condition.rs path=Condition::content_is_decimal_number_and
//@params vcond
//@ret r
//@spec
    ensures r.cond@ == "cell-content-is-decimal-number()"@ + " and "@ + vcond.cond@,
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content-is-decimal-number()"@ + " and "@ + vcond.cond@); }
//@end
//@fn file=src/condition.rs path=Condition::content_is_whole_number_and
//@params vcond
//@ret r
//@spec
    ensures r.cond@ == "cell-content-is-whole-number()"@ + " and "@ + vcond.cond@,
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content-is-whole-number()"@ + " and "@ + vcond.cond@); }
//@end
//@fn file=src/condition.rs path=Condition::is_true_formula
//@params formula
//@ret r
//@subst <S: AsRef<str>>(formula: S) ==> (formula: &str)
//@subst formula.as_ref() ==> formula
//@spec
    ensures r.cond@ == "is-true-formula("@ + formula@ + seq![')'],
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "is-true-formula("@ + formula@ + seq![')']); }
//@end
//@fn file=src/condition.rs path=Condition::content_is_in_cellrange
//@params range
//@ret r
//@spec
    ensures r.cond@ == "cell-content-is-in-list("@ + range_formula(range) + seq![')'],
//@at before 0 Condition { cond: buf }
    proof { assert(buf@ =~= "cell-content-is-in-list("@ + range_formula(range) + seq![')']); }
//@end
//@fn file=src/condition.rs path=Condition::content_is_in_list
//@params list
//@ret r
//@subst <'a, V>(list: &'a [V]) -> Condition where Value: From<&'a V>, ==> (list: &[Value]) -> Condition
//@subst for v in list { $body } ==> for v in list.iter() { $body }
//@subst let vv: Value = v.into(); ==> let vv: &Value = v;
//@subst vstr.starts_with('"') ==> vp_starts(&vstr, '"')
//@spec
    ensures r.cond@ == "cell-content-is-in-list("@ + joined(list@, list@.len()) + seq![')'],
//@loop 0 it=it
    invariant it.seq().len() == list@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == list@[i],
        buf@ == "cell-content-is-in-list("@ + joined(list@, it.index@ as nat), sep == (it.index@ > 0),
//@at beforeloop 0
    proof { assert(buf@ =~= "cell-content-is-in-list("@ + joined(list@, 0)); }
//@at loopstart 0
    let ghost i0 = it.index@;
//@at loopend 0
    proof { assert(buf@ =~= "cell-content-is-in-list("@ + joined(list@, (i0 + 1) as nat)); }
//@end
}
#[verifier::external_body] struct CellRange {}
uninterp spec fn range_formula(r: CellRange) -> Seq<char>;
impl CellRange { // contract of unit C01_text
    #[verifier::external_body] fn to_formula(&self) -> (r: String) ensures r@ == range_formula(*self) { unimplemented!() } }
/// an element of a list: always a quoted text
spec fn element(v: Seq<char>) -> Seq<char> { if v.len() > 0 && v[0] == '"' { v } else { seq!['"'] + v + seq!['"'] } }
spec fn joined(l: Seq<Value>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else if n == 1 { element(l[0].val@) } else { joined(l, (n - 1) as nat) + seq![';'] + element(l[n - 1].val@) } }
/// a list element that was made from text is read back as that text, whatever follows in the list
proof fn thm_list_element(s: Seq<char>, rest: Seq<char>)
    requires rest.len() > 0, rest[0] == ';' || rest[0] == ')',
    ensures scan((element(quoted(s)) + rest).skip(1), Seq::empty()) == Some((s, rest)),
{ thm_quoted(s, rest); }
} // verus!
fn main() {}
