// ------------------------------------------------------------------ trusted
/// an interned text: equal iff the texts are
#[verifier::external_body] struct DefaultAtom {}
impl DefaultAtom {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] fn from(s: &str) -> (r: DefaultAtom) ensures r@ == s@ { unimplemented!() }
}
#[verifier::external_body] fn vp_atom_eq(a: &DefaultAtom, b: &DefaultAtom) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] fn vp_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] fn vp_holds(b: bool) ensures b { if !b { panic!() } }
/// iter().enumerate().find(f).map(g)
#[verifier::external_body]
fn vp_enum_find<T, F: Fn(&(usize, &T)) -> bool, G: Fn((usize, &T)) -> usize>(v: &Vec<T>, f: F, g: G) -> (r: Option<usize>)
    requires forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> call_requires(f, (&(i as usize, &v@[i]),)), forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> call_requires(g, ((i as usize, &v@[i]),)),
    ensures match r {
        Some(x) => exists|i: int| #![trigger v@[i]] 0 <= i < v@.len() && i <= usize::MAX && call_ensures(f, (&(i as usize, &v@[i]),), true) && call_ensures(g, ((i as usize, &v@[i]),), x)
            && forall|j: int| #![trigger v@[j]] 0 <= j < i ==> call_ensures(f, (&(j as usize, &v@[j]),), false),
        None => forall|j: int| #![trigger v@[j]] 0 <= j < v@.len() ==> call_ensures(f, (&(j as usize, &v@[j]),), false),
    }
{ unimplemented!() }

// text of a value: what its Display implementation writes
trait Shown { spec fn shown(&self) -> Seq<char>; }
uninterp spec fn f64_text(v: f64) -> Seq<char>;
uninterp spec fn int_text(v: int) -> Seq<char>;
uninterp spec fn hex2(v: u8) -> Seq<char>;
impl Shown for f64 { spec fn shown(&self) -> Seq<char> { f64_text(*self) } }
impl Shown for u8 { spec fn shown(&self) -> Seq<char> { int_text(*self as int) } }
impl Shown for u32 { spec fn shown(&self) -> Seq<char> { int_text(*self as int) } }
impl Shown for i64 { spec fn shown(&self) -> Seq<char> { int_text(*self as int) } }
impl Shown for bool { spec fn shown(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } }
impl Shown for char { spec fn shown(&self) -> Seq<char> { seq![*self] } }
impl Shown for String { spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for str { spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: Shown + ?Sized> Shown for &T { spec fn shown(&self) -> Seq<char> { (**self).shown() } }
/// formatting machinery: Display::fmt of the argument appends its text (proved below for every type of this crate)
#[verifier::external_body] fn vp_shown<T: Shown + ?Sized>(f: &mut String, t: &T) ensures final(f)@ == old(f)@ + t.shown() { unimplemented!() }
#[verifier::external_body] fn vp_show<T: Shown + ?Sized>(t: &T) -> (r: String) ensures r@ == t.shown() { unimplemented!() }
#[verifier::external_body] fn vp_hex2(f: &mut String, t: &u8) ensures final(f)@ == old(f)@ + hex2(*t) { unimplemented!() }
fn vp_lit(f: &mut String, s: &str) ensures final(f)@ == old(f)@ + s@ { f.push_str(s); }
fn vp_lit_ok(f: &mut String, s: &str) -> (r: Result<(), FmtErr>) ensures r.is_ok(), final(f)@ == old(f)@ + s@ { f.push_str(s); Ok(()) }
#[verifier::external_body] struct FmtErr {}
fn vp_fmt<T: Shown + ?Sized>(t: &T, f: &mut String) -> (r: Result<(), FmtErr>) ensures r.is_ok(), final(f)@ == old(f)@ + t.shown() { vp_shown(f, t); Ok(()) }
struct Rgb<T> { r: T, g: T, b: T }

// ------------------------------------------------------------------ AttrMap2
//@struct file=src/attrmap2.rs name=AttrMap2
//@subst Box<str> ==> String
//@end
spec fn ahas(keys: Seq<DefaultAtom>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < keys.len() && (#[trigger] keys[i])@ == k }
spec fn aidx(keys: Seq<DefaultAtom>, k: Seq<char>) -> int { choose|i: int| 0 <= i < keys.len() && (#[trigger] keys[i])@ == k }
spec fn amap(keys: Seq<DefaultAtom>, values: Seq<String>) -> IMap<Seq<char>, Seq<char>> { IMap::new(|k: Seq<char>| ahas(keys, k), |k: Seq<char>| values[aidx(keys, k)]@) }
spec fn awf(keys: Seq<DefaultAtom>, values: Seq<String>) -> bool {
    keys.len() == values.len() && forall|i: int, j: int| 0 <= i < keys.len() && 0 <= j < keys.len() && (#[trigger] keys[i])@ == (#[trigger] keys[j])@ ==> i == j
}
impl AttrMap2 {
    /// every name occurs once
    #[verifier::opaque]
    spec fn wf(&self) -> bool { awf(self.keys@, self.values@) }
    #[verifier::opaque]
    spec fn view(&self) -> IMap<Seq<char>, Seq<char>> { amap(self.keys@, self.values@) }
//@fn file=src/attrmap2.rs path=AttrMap2::new
//@ret r
//@subst keys: Default::default() ==> keys: Vec::new()
//@subst values: Default::default() ==> values: Vec::new()
//@spec
    ensures r.wf(), r@ =~= IMap::<Seq<char>, Seq<char>>::empty(),
//@at start
    reveal(AttrMap2::wf); reveal(AttrMap2::view);
//@end
//@fn file=src/attrmap2.rs path=AttrMap2::is_empty
//@ret r
//@spec
    requires self.wf(),
    ensures r == (forall|k: Seq<char>| !#[trigger] self@.contains_key(k)),
//@at start
    proof { reveal(AttrMap2::wf); reveal(AttrMap2::view); if self.keys@.len() > 0 { assert(ahas(self.keys@, self.keys@[0]@)); assert(self@.contains_key(self.keys@[0]@)); } }
//@end
//@fn file=src/attrmap2.rs path=AttrMap2::len
//@ret r
//@spec
    ensures r == self.keys@.len(),
//@end
//@fn file=src/attrmap2.rs path=AttrMap2::find_idx
//@params test
//@ret r
//@subst self.keys.iter().enumerate().find(|$idv| $e).map(|$idw| $g) ==> vp_enum_find(&self.keys, |$idv: &(usize, &DefaultAtom)| -> (b: bool) ensures b == ($idv.1@ == test@) { $e }, |$idw: (usize, &DefaultAtom)| -> (x: usize) ensures x == $idw.0 { $g })
//@subst v.1 == test ==> vp_atom_eq(v.1, test)
//@spec
    ensures match r { Some(x) => x < self.keys@.len() && self.keys@[x as int]@ == test@, None => !ahas(self.keys@, test@) },
//@end
//@fn file=src/attrmap2.rs path=AttrMap2::set_attr
//@params name value
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@subst value.into().into_boxed_str() ==> value
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ =~= old(self)@.insert(name@, value@),
//@at start
    let ghost k0 = self.keys@; let ghost v0 = self.values@; let ghost n = name@; let ghost w = value@;
    proof { reveal(AttrMap2::wf); reveal(AttrMap2::view); }
//@at after 0 self.values[idx] = v;
    proof { lemma_set(k0, v0, self.keys@, self.values@, idx as int, n, w); }
//@at after 0 self.values.push(v);
    proof { lemma_add(k0, v0, self.keys@, self.values@, n, w); }
//@end
//@fn file=src/attrmap2.rs path=AttrMap2::push_attr
//@params name value
//@subst <S: Into<String>> ==>
//@subst : S ==> : String
//@subst value.into().into_boxed_str() ==> value
//@spec
    ensures old(self).wf() && !old(self)@.contains_key(name@) ==> final(self).wf() && final(self)@ =~= old(self)@.insert(name@, value@),
//@at start
    let ghost k0 = self.keys@; let ghost v0 = self.values@; let ghost n = name@; let ghost w = value@;
    proof { reveal(AttrMap2::wf); reveal(AttrMap2::view); }
//@at after 0 self.values.push($x);
    proof { lemma_add(k0, v0, self.keys@, self.values@, n, w); }
//@end
//@fn file=src/attrmap2.rs path=AttrMap2::clear_attr
//@params name
//@ret r
//@subst .into_string() ==>
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ =~= old(self)@.remove(name@), match r { Some(s) => old(self)@.contains_key(name@) && s@ == old(self)@[name@], None => !old(self)@.contains_key(name@) },
//@at start
    let ghost k0 = self.keys@; let ghost v0 = self.values@;
    proof { reveal(AttrMap2::wf); reveal(AttrMap2::view); }
//@at after 0 self.keys.remove(idx);
    proof { lemma_del(k0, v0, idx as int, name@); }
//@end
//@fn file=src/attrmap2.rs path=AttrMap2::attr
//@params name
//@ret r
//@spec
    requires self.wf(),
    ensures match r { Some(s) => self@.contains_key(name@) && s@ == self@[name@], None => !self@.contains_key(name@) },
//@at start
    proof { reveal(AttrMap2::wf); reveal(AttrMap2::view); }
//@end
//@fn file=src/attrmap2.rs path=AttrMap2::attr_def
//@params name default
//@ret r
//@subst <'a, 'b, S> ==> <'a, 'b>
//@subst where S: Into<&'a str>, ==>
//@subst default: S ==> default: &'a str
//@subst default.into() ==> default
//@spec
    requires self.wf(),
    ensures r@ == (if self@.contains_key(name@) { self@[name@] } else { default@ }),
//@at start
    proof { reveal(AttrMap2::wf); reveal(AttrMap2::view); }
//@end
}
proof fn lemma_set(k0: Seq<DefaultAtom>, v0: Seq<String>, k1: Seq<DefaultAtom>, v1: Seq<String>, i: int, n: Seq<char>, w: Seq<char>)
    requires k0.len() == k1.len(), v0.len() == v1.len(), 0 <= i < k0.len(), i < v0.len(), k0[i]@ == n, k1[i]@ == n, v1[i]@ == w,
        forall|j: int| 0 <= j < k0.len() && j != i ==> #[trigger] k1[j] == k0[j], forall|j: int| 0 <= j < v0.len() && j != i ==> #[trigger] v1[j] == v0[j],
    ensures awf(k0, v0) ==> awf(k1, v1), awf(k0, v0) ==> amap(k1, v1) =~= amap(k0, v0).insert(n, w)
{
    assert(forall|j: int| 0 <= j < k0.len() ==> (#[trigger] k1[j])@ == k0[j]@);
    assert(forall|k: Seq<char>| ahas(k0, k) ==> #[trigger] ahas(k1, k)) by { assert forall|k: Seq<char>| ahas(k0, k) implies #[trigger] ahas(k1, k) by { let j = aidx(k0, k); assert(k1[j]@ == k); } }
    assert(forall|k: Seq<char>| #[trigger] ahas(k1, k) ==> ahas(k0, k)) by { assert forall|k: Seq<char>| #[trigger] ahas(k1, k) implies ahas(k0, k) by { let j = aidx(k1, k); assert(k0[j]@ == k); } }
}
proof fn lemma_add(k0: Seq<DefaultAtom>, v0: Seq<String>, k1: Seq<DefaultAtom>, v1: Seq<String>, n: Seq<char>, w: Seq<char>)
    requires k1.len() == k0.len() + 1, v1.len() == v0.len() + 1, k1.drop_last() =~= k0, v1.drop_last() =~= v0, k1.last()@ == n, v1.last()@ == w,
    ensures awf(k0, v0) && !ahas(k0, n) ==> awf(k1, v1) && amap(k1, v1) =~= amap(k0, v0).insert(n, w)
{
    assert(forall|j: int| 0 <= j < k0.len() ==> #[trigger] k1[j] == k0[j]) by { assert(forall|j: int| 0 <= j < k0.len() ==> #[trigger] k1[j] == k1.drop_last()[j]); }
    assert(forall|j: int| 0 <= j < v0.len() ==> #[trigger] v1[j] == v0[j]) by { assert(forall|j: int| 0 <= j < v0.len() ==> #[trigger] v1[j] == v1.drop_last()[j]); }
    assert forall|k: Seq<char>| ahas(k0, k) implies #[trigger] ahas(k1, k) by { let j = aidx(k0, k); assert(k1[j]@ == k); }
    assert(k1[k0.len() as int]@ == n); assert(ahas(k1, n));
    assert forall|k: Seq<char>| #[trigger] ahas(k1, k) && k != n implies ahas(k0, k) by { let j = aidx(k1, k); assert(k0[j]@ == k); }
    if awf(k0, v0) && !ahas(k0, n) {
        assert forall|i: int, j: int| 0 <= i < k1.len() && 0 <= j < k1.len() && (#[trigger] k1[i])@ == (#[trigger] k1[j])@ implies i == j by {
            if i < k0.len() && j == k0.len() { assert(k0[i]@ == n); assert(ahas(k0, n)); }
            if j < k0.len() && i == k0.len() { assert(k0[j]@ == n); assert(ahas(k0, n)); }
        }
        assert forall|k: Seq<char>| ahas(k0, k) implies amap(k1, v1)[k] == amap(k0, v0)[k] by { let j = aidx(k0, k); assert(ahas(k1, k)); let i = aidx(k1, k); assert(k1[i]@ == k1[j]@); }
    }
}
proof fn lemma_del(k0: Seq<DefaultAtom>, v0: Seq<String>, i: int, n: Seq<char>)
    requires awf(k0, v0), 0 <= i < k0.len(), k0[i]@ == n
    ensures awf(k0.remove(i), v0.remove(i)), amap(k0.remove(i), v0.remove(i)) =~= amap(k0, v0).remove(n), ahas(k0, n), aidx(k0, n) == i
{
    let k1 = k0.remove(i); let v1 = v0.remove(i);
    assert(ahas(k0, n));
    assert(forall|j: int| 0 <= j < i ==> #[trigger] k1[j] == k0[j] && v1[j] == v0[j]);
    assert(forall|j: int| i <= j < k1.len() ==> #[trigger] k1[j] == k0[j + 1] && v1[j] == v0[j + 1]);
    assert forall|k: Seq<char>| ahas(k0, k) && k != n implies #[trigger] ahas(k1, k) by { let j = aidx(k0, k); if j < i { assert(k1[j]@ == k); } else { assert(k1[j - 1]@ == k); } }
    assert forall|k: Seq<char>| #[trigger] ahas(k1, k) implies ahas(k0, k) && k != n by { let j = aidx(k1, k); if j < i { assert(k0[j]@ == k); } else { assert(k0[j + 1]@ == k); } }
    assert forall|a: int, b: int| 0 <= a < k1.len() && 0 <= b < k1.len() && (#[trigger] k1[a])@ == (#[trigger] k1[b])@ implies a == b by {
        let x = if a < i { a } else { a + 1 }; let y = if b < i { b } else { b + 1 };
        assert(k0[x]@ == k0[y]@);
    }
    assert forall|k: Seq<char>| ahas(k1, k) implies amap(k1, v1)[k] == amap(k0, v0)[k] by { let j = aidx(k1, k); let x = if j < i { j } else { j + 1 }; assert(k0[x]@ == k); assert(ahas(k0, k)); assert(k0[aidx(k0, k)]@ == k); assert(aidx(k0, k) == x); }
}
