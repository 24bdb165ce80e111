//@include pre.rs
// C12: the collections of the workbook.
verus! {
global size_of usize == 8;
//@struct file=src/ds/detach.rs name=Detach
//@end
//@struct file=src/ds/detach.rs name=Detached
//@end
// opaque parts of the styles and sheets, only moved here.
#[verifier::external_body] struct AttrMap2 {}
#[verifier::external_body] struct StyleMap {}
#[verifier::external_body] struct ValueStyleMap {}
#[verifier::external_body] struct TabStop {}
#[verifier::external_body] struct FormatPart {}
#[verifier::external_body] struct StyleOrigin {}
#[verifier::external_body] struct StyleUse {}
#[verifier::external_body] struct HeaderFooter {}
#[verifier::external_body] struct HeaderFooterStyle {}
#[verifier::external_body] struct Condition {}
#[verifier::external_body] struct CellRef {}
#[verifier::external_body] struct ValidationDisplay {}
#[verifier::external_body] struct ValidationError {}
#[verifier::external_body] struct ValidationHelp {}
#[verifier::external_body] struct SheetRest {}
#[verifier::external_body] struct Manifest0 {}
struct Sheet { name: String, rest: SheetRest }
impl Sheet {
//@fn file=src/sheet_.rs path=Sheet::name
//@ret r
//@spec
    ensures r == self.name,
//@end
}
#[verifier::external_body]
fn vp_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vp_clone<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
#[verifier::external_body]
fn vp_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
fn vp_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
// trusted: core::fmt writes the decimal digits of a number, different numbers have different digits.
uninterp spec fn dec(n: int) -> Seq<char>;
#[verifier::external_body]
proof fn axiom_dec(a: int, b: int) ensures dec(a) == dec(b) ==> a == b, dec(a).len() > 0 {}
#[verifier::external_body]
fn vp_numbered(p: &str, n: u32) -> (r: String) ensures r@ == p@ + dec(n as int) { unimplemented!() }

// trusted: a hash map keyed by something that borrows as text is a map from that text.
trait VpText { spec fn text(&self) -> Seq<char>; }
impl VpText for String { spec fn text(&self) -> Seq<char> { self@ } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
struct HashMap<K, V> { k: std::marker::PhantomData<K>, v: std::marker::PhantomData<V> }
impl<K: VpText, V> HashMap<K, V> {
    uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&mut self, k: &str) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self)@.contains_key(k@) && *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)), None => !old(self)@.contains_key(k@) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.text(), v) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &str) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k@), match r { Some(v) => old(self)@.contains_key(k@) && v == old(self)@[k@], None => !old(self)@.contains_key(k@) } { unimplemented!() }
}

// ------------------------------------------------------------------ detach
spec fn dval<T>(d: Detach<T>) -> Option<T> { match d.val { Some(b) => Some(*b), None => None } }

impl<T> Detach<T> {
//@fn file=src/ds/detach.rs path=Detach::new
//@params val
//@ret r
//@spec
    ensures dval(r) == Some(val),
//@end
//@fn file=src/ds/detach.rs path=Detach::from trait=From<T>
//@params val
//@ret r
//@spec
    ensures dval(r) == Some(val),
//@end
//@fn file=src/ds/detach.rs path=Detach::default trait=Default
//@ret r
//@spec
    ensures dval(r) == None::<T>,
//@end
//@fn file=src/ds/detach.rs path=Detach::is_detached
//@ret r
//@spec
    ensures r == dval(*self).is_none(),
//@end
//@fn file=src/ds/detach.rs path=Detach::detach
//@params key
//@ret r
//@subst Detached::new($k, $v) ==> Detached::<K, T>::new($k, $v)
//@spec
    requires dval(*old(self)).is_some(),
    ensures *r.val == dval(*old(self))->0, r.key == key, dval(*final(self)) == None::<T>,
//@end
//@fn file=src/ds/detach.rs path=Detach::attach
//@params detached
//@subst self.val.replace($v) ==> self.val = Some($v)
//@subst self.val.insert($v) ==> self.val = Some($v)
//@spec
    ensures dval(*final(self)) == Some(*detached.val),
//@end
//@fn file=src/ds/detach.rs path=Detach::as_ref
//@ret r
//@subst self.val.as_ref().expect($m) ==> vp_unbox(&self.val)
//@spec
    requires dval(*self).is_some(),
    ensures *r == dval(*self)->0,
//@end
//@fn file=src/ds/detach.rs path=Detach::as_mut
//@ret r
//@subst self.val.as_mut().expect($m) ==> vp_unbox_mut(&mut self.val)
//@spec
    requires dval(*old(self)).is_some(),
    ensures *r == dval(*old(self))->0, dval(*final(self)) == Some(*final(r)),
//@end
//@fn file=src/ds/detach.rs path=Detach::take
//@ret r
//@spec
    requires dval(self).is_some(),
    ensures r == dval(self)->0,
//@end
}
// `as_ref().expect()` and the automatic dereference of the box, in verified steps.
fn vp_unbox<T>(o: &Option<Box<T>>) -> (r: &T) requires o.is_some() ensures *r == *(o->0) { match o { Some(b) => &**b, None => { vp_no(); unreached() } } }
fn vp_unbox_mut<T>(o: &mut Option<Box<T>>) -> (r: &mut T) requires old(o).is_some() ensures *r == *(old(o)->0), final(o).is_some(), *(final(o)->0) == *final(r) { match o { Some(b) => &mut **b, None => { vp_no(); unreached() } } }
fn vp_no() requires false {}
#[verifier::external_body] fn unreached<A>() -> A requires false { unimplemented!() }
impl<K: Copy, T> Detached<K, T> {
//@fn file=src/ds/detach.rs path=Detached::new
//@params key val
//@ret r
//@spec
    ensures r.key == key, r.val == val,
//@end
//@fn file=src/ds/detach.rs path=Detached::key
//@params det
//@ret r
//@spec
    ensures r == det.key,
//@end
}
// ------------------------------------------------------------------ generated names
/// names start..start+k with that prefix are all taken: there are at least k entries.
proof fn lemma_taken<V>(m: Map<Seq<char>, V>, p: Seq<char>, start: int, k: nat)
    requires forall|i: int| start <= i < start + k ==> m.contains_key(p + #[trigger] dec(i)),
    ensures m.dom().len() >= k,
    decreases k,
{
    if k > 0 {
        let last = p + dec(start + k - 1);
        let m2 = m.remove(last);
        assert forall|i: int| start <= i < start + (k - 1) implies m2.contains_key(p + #[trigger] dec(i)) by {
            axiom_dec(i, start + k - 1);
            assert(m.contains_key(p + dec(i)));
            if p + dec(i) == last {
                assert(dec(i) =~= last.subrange(p.len() as int, last.len() as int)) by { assert((p + dec(i)).subrange(p.len() as int, (p + dec(i)).len() as int) =~= dec(i)); }
                assert(dec(start + k - 1) =~= last.subrange(p.len() as int, last.len() as int));
            }
        }
        lemma_taken(m2, p, start, (k - 1) as nat);
        assert(m.contains_key(p + dec(start + k - 1)));
        assert(m2.dom() =~= m.dom().remove(last));
    }
}
spec fn start_num(m: Map<Seq<char>, u32>, p: Seq<char>) -> int { if m.contains_key(p) { m[p] + 1 } else { 0 } }

//@fn file=src/workbook_.rs path=auto_style_name2
//@params autonum prefix styles
//@ret r
//@subst where K: Borrow<str> + Hash + Eq, ==> where K: VpText,
//@subst format!("{}{}", prefix, cnt) ==> vp_numbered(prefix, cnt)
//@subst contains_key(&style_name) ==> contains_key(style_name.as_str())
//@subst prefix.to_string() ==> vp_string(prefix)
//@subst let style_name = loop ==> let mut vp_r = String::new(); loop
//@subst ; autonum.insert ==> ; let style_name = vp_r; autonum.insert
//@subst break $v; ==> { vp_r = $v; break; }
//@spec
    requires start_num(old(autonum)@, prefix@) + styles@.dom().len() < u32::MAX,
    ensures r@.len() > 0, !styles@.contains_key(r@),
//@at start
let ghost s0 = start_num(autonum@, prefix@);
//@loop 0
    invariant_except_break
        s0 + styles@.dom().len() < u32::MAX, s0 <= cnt,
        forall|i: int| s0 <= i < cnt ==> styles@.contains_key(prefix@ + #[trigger] dec(i)),
        cnt - s0 <= styles@.dom().len(),
    ensures vp_r@.len() > 0, !styles@.contains_key(vp_r@),
    decreases styles@.dom().len() + s0 + 1 - cnt,
//@at loopend 0
proof { lemma_taken(styles@, prefix@, s0, (cnt - s0) as nat); }
//@at loopstart 0
proof { axiom_dec(cnt as int, cnt as int); }
//@end
//@fn file=src/workbook_.rs path=auto_style_name
//@params autonum prefix styles
//@ret r
//@subst where K: Borrow<str> + Hash + Eq, ==> where K: VpText,
//@subst format!("{}{}", prefix, cnt) ==> vp_numbered(prefix, cnt)
//@subst contains_key(&style_name) ==> contains_key(style_name.as_str())
//@subst prefix.to_string() ==> vp_string(prefix)
//@subst let style_name = loop ==> let mut vp_r = String::new(); loop
//@subst ; autonum.insert ==> ; let style_name = vp_r; autonum.insert
//@subst break $v; ==> { vp_r = $v; break; }
//@spec
    requires start_num(old(autonum)@, prefix@) + styles@.dom().len() < u32::MAX,
    ensures r@.len() > 0, !styles@.contains_key(r@),
//@at start
let ghost s0 = start_num(autonum@, prefix@);
//@loop 0
    invariant_except_break
        s0 + styles@.dom().len() < u32::MAX, s0 <= cnt,
        forall|i: int| s0 <= i < cnt ==> styles@.contains_key(prefix@ + #[trigger] dec(i)),
        cnt - s0 <= styles@.dom().len(),
    ensures vp_r@.len() > 0, !styles@.contains_key(vp_r@),
    decreases styles@.dom().len() + s0 + 1 - cnt,
//@at loopend 0
proof { lemma_taken(styles@, prefix@, s0, (cnt - s0) as nat); }
//@at loopstart 0
proof { axiom_dec(cnt as int, cnt as int); }
//@end
//@struct file=src/macro_style.rs name=TableStyleRef macro=style_ref2(TableStyleRef)>style_ref2_base(TableStyleRef) macro_in=src/style/tablestyle.rs
//@end
impl VpText for TableStyleRef { spec fn text(&self) -> Seq<char> { self.id@ } }
impl TableStyleRef {
//@fn file=src/macro_style.rs path=TableStyleRef::from trait=From<&str> as=from_str macro=style_ref2(TableStyleRef)>style_ref2_base(TableStyleRef) macro_in=src/style/tablestyle.rs
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=TableStyleRef::from trait=From<String> as=from_string macro=style_ref2(TableStyleRef)>style_ref2_base(TableStyleRef) macro_in=src/style/tablestyle.rs
//@params id
//@ret r
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=TableStyleRef::from trait=From<&String> as=from_rstring macro=style_ref2(TableStyleRef)>style_ref2_base(TableStyleRef) macro_in=src/style/tablestyle.rs
//@params id
//@ret r
//@subst id.clone() ==> vp_clone(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=TableStyleRef::as_str macro=style_ref2(TableStyleRef)>style_ref2_base(TableStyleRef) macro_in=src/style/tablestyle.rs
//@ret r
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=TableStyleRef::borrow trait=Borrow<str> macro=style_ref2(TableStyleRef)>style_ref2_base(TableStyleRef) macro_in=src/style/tablestyle.rs
//@ret r
//@subst self.id.borrow() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=TableStyleRef::as_ref trait=AsRef<str> macro=style_ref2(TableStyleRef)>style_ref2_base(TableStyleRef) macro_in=src/style/tablestyle.rs
//@ret r
//@subst self.id.as_ref() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
}
//@struct file=src/style/tablestyle.rs name=TableStyle
//@end
/// the same in everything but the name
spec fn same_TableStyle(x: TableStyle, y: TableStyle) -> bool { x.origin == y.origin && x.styleuse == y.styleuse && x.attr == y.attr && x.tablestyle == y.tablestyle }
impl TableStyle {
//@fn file=src/macro_style.rs path=TableStyle::name macro=styles_styles2(TableStyle,TableStyleRef) macro_in=src/style/tablestyle.rs
//@ret r
//@subst &self.name ==> self.name.as_str()
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_style.rs path=TableStyle::set_name macro=styles_styles2(TableStyle,TableStyleRef) macro_in=src/style/tablestyle.rs
//@params name
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: String
//@subst String::from(name.as_ref()) ==> name
//@spec
    ensures final(self).name@ == name@, same_TableStyle(*old(self), *final(self)),
//@end
//@fn file=src/macro_style.rs path=TableStyle::style_ref macro=styles_styles2(TableStyle,TableStyleRef) macro_in=src/style/tablestyle.rs
//@ret r
//@subst TableStyleRef::from ==> TableStyleRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/macro_style.rs name=RowStyleRef macro=style_ref2(RowStyleRef)>style_ref2_base(RowStyleRef) macro_in=src/style/rowstyle.rs
//@end
impl VpText for RowStyleRef { spec fn text(&self) -> Seq<char> { self.id@ } }
impl RowStyleRef {
//@fn file=src/macro_style.rs path=RowStyleRef::from trait=From<&str> as=from_str macro=style_ref2(RowStyleRef)>style_ref2_base(RowStyleRef) macro_in=src/style/rowstyle.rs
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=RowStyleRef::from trait=From<String> as=from_string macro=style_ref2(RowStyleRef)>style_ref2_base(RowStyleRef) macro_in=src/style/rowstyle.rs
//@params id
//@ret r
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=RowStyleRef::from trait=From<&String> as=from_rstring macro=style_ref2(RowStyleRef)>style_ref2_base(RowStyleRef) macro_in=src/style/rowstyle.rs
//@params id
//@ret r
//@subst id.clone() ==> vp_clone(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=RowStyleRef::as_str macro=style_ref2(RowStyleRef)>style_ref2_base(RowStyleRef) macro_in=src/style/rowstyle.rs
//@ret r
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=RowStyleRef::borrow trait=Borrow<str> macro=style_ref2(RowStyleRef)>style_ref2_base(RowStyleRef) macro_in=src/style/rowstyle.rs
//@ret r
//@subst self.id.borrow() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=RowStyleRef::as_ref trait=AsRef<str> macro=style_ref2(RowStyleRef)>style_ref2_base(RowStyleRef) macro_in=src/style/rowstyle.rs
//@ret r
//@subst self.id.as_ref() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
}
//@struct file=src/style/rowstyle.rs name=RowStyle
//@end
/// the same in everything but the name
spec fn same_RowStyle(x: RowStyle, y: RowStyle) -> bool { x.origin == y.origin && x.styleuse == y.styleuse && x.attr == y.attr && x.rowstyle == y.rowstyle }
impl RowStyle {
//@fn file=src/macro_style.rs path=RowStyle::name macro=styles_styles2(RowStyle,RowStyleRef) macro_in=src/style/rowstyle.rs
//@ret r
//@subst &self.name ==> self.name.as_str()
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_style.rs path=RowStyle::set_name macro=styles_styles2(RowStyle,RowStyleRef) macro_in=src/style/rowstyle.rs
//@params name
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: String
//@subst String::from(name.as_ref()) ==> name
//@spec
    ensures final(self).name@ == name@, same_RowStyle(*old(self), *final(self)),
//@end
//@fn file=src/macro_style.rs path=RowStyle::style_ref macro=styles_styles2(RowStyle,RowStyleRef) macro_in=src/style/rowstyle.rs
//@ret r
//@subst RowStyleRef::from ==> RowStyleRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/macro_style.rs name=ColStyleRef macro=style_ref2(ColStyleRef)>style_ref2_base(ColStyleRef) macro_in=src/style/colstyle.rs
//@end
impl VpText for ColStyleRef { spec fn text(&self) -> Seq<char> { self.id@ } }
impl ColStyleRef {
//@fn file=src/macro_style.rs path=ColStyleRef::from trait=From<&str> as=from_str macro=style_ref2(ColStyleRef)>style_ref2_base(ColStyleRef) macro_in=src/style/colstyle.rs
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=ColStyleRef::from trait=From<String> as=from_string macro=style_ref2(ColStyleRef)>style_ref2_base(ColStyleRef) macro_in=src/style/colstyle.rs
//@params id
//@ret r
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=ColStyleRef::from trait=From<&String> as=from_rstring macro=style_ref2(ColStyleRef)>style_ref2_base(ColStyleRef) macro_in=src/style/colstyle.rs
//@params id
//@ret r
//@subst id.clone() ==> vp_clone(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=ColStyleRef::as_str macro=style_ref2(ColStyleRef)>style_ref2_base(ColStyleRef) macro_in=src/style/colstyle.rs
//@ret r
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=ColStyleRef::borrow trait=Borrow<str> macro=style_ref2(ColStyleRef)>style_ref2_base(ColStyleRef) macro_in=src/style/colstyle.rs
//@ret r
//@subst self.id.borrow() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=ColStyleRef::as_ref trait=AsRef<str> macro=style_ref2(ColStyleRef)>style_ref2_base(ColStyleRef) macro_in=src/style/colstyle.rs
//@ret r
//@subst self.id.as_ref() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
}
//@struct file=src/style/colstyle.rs name=ColStyle
//@end
/// the same in everything but the name
spec fn same_ColStyle(x: ColStyle, y: ColStyle) -> bool { x.origin == y.origin && x.styleuse == y.styleuse && x.attr == y.attr && x.colstyle == y.colstyle }
impl ColStyle {
//@fn file=src/macro_style.rs path=ColStyle::name macro=styles_styles2(ColStyle,ColStyleRef) macro_in=src/style/colstyle.rs
//@ret r
//@subst &self.name ==> self.name.as_str()
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_style.rs path=ColStyle::set_name macro=styles_styles2(ColStyle,ColStyleRef) macro_in=src/style/colstyle.rs
//@params name
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: String
//@subst String::from(name.as_ref()) ==> name
//@spec
    ensures final(self).name@ == name@, same_ColStyle(*old(self), *final(self)),
//@end
//@fn file=src/macro_style.rs path=ColStyle::style_ref macro=styles_styles2(ColStyle,ColStyleRef) macro_in=src/style/colstyle.rs
//@ret r
//@subst ColStyleRef::from ==> ColStyleRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/macro_style.rs name=CellStyleRef macro=style_ref2(CellStyleRef)>style_ref2_base(CellStyleRef) macro_in=src/style/cellstyle.rs
//@end
impl VpText for CellStyleRef { spec fn text(&self) -> Seq<char> { self.id@ } }
impl CellStyleRef {
//@fn file=src/macro_style.rs path=CellStyleRef::from trait=From<&str> as=from_str macro=style_ref2(CellStyleRef)>style_ref2_base(CellStyleRef) macro_in=src/style/cellstyle.rs
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=CellStyleRef::from trait=From<String> as=from_string macro=style_ref2(CellStyleRef)>style_ref2_base(CellStyleRef) macro_in=src/style/cellstyle.rs
//@params id
//@ret r
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=CellStyleRef::from trait=From<&String> as=from_rstring macro=style_ref2(CellStyleRef)>style_ref2_base(CellStyleRef) macro_in=src/style/cellstyle.rs
//@params id
//@ret r
//@subst id.clone() ==> vp_clone(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=CellStyleRef::as_str macro=style_ref2(CellStyleRef)>style_ref2_base(CellStyleRef) macro_in=src/style/cellstyle.rs
//@ret r
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=CellStyleRef::borrow trait=Borrow<str> macro=style_ref2(CellStyleRef)>style_ref2_base(CellStyleRef) macro_in=src/style/cellstyle.rs
//@ret r
//@subst self.id.borrow() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=CellStyleRef::as_ref trait=AsRef<str> macro=style_ref2(CellStyleRef)>style_ref2_base(CellStyleRef) macro_in=src/style/cellstyle.rs
//@ret r
//@subst self.id.as_ref() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
}
//@struct file=src/style/cellstyle.rs name=CellStyle
//@end
/// the same in everything but the name
spec fn same_CellStyle(x: CellStyle, y: CellStyle) -> bool { x.origin == y.origin && x.styleuse == y.styleuse && x.attr == y.attr && x.cellstyle == y.cellstyle && x.paragraphstyle == y.paragraphstyle && x.textstyle == y.textstyle && x.stylemaps == y.stylemaps }
impl CellStyle {
//@fn file=src/macro_style.rs path=CellStyle::name macro=styles_styles2(CellStyle,CellStyleRef) macro_in=src/style/cellstyle.rs
//@ret r
//@subst &self.name ==> self.name.as_str()
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_style.rs path=CellStyle::set_name macro=styles_styles2(CellStyle,CellStyleRef) macro_in=src/style/cellstyle.rs
//@params name
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: String
//@subst String::from(name.as_ref()) ==> name
//@spec
    ensures final(self).name@ == name@, same_CellStyle(*old(self), *final(self)),
//@end
//@fn file=src/macro_style.rs path=CellStyle::style_ref macro=styles_styles2(CellStyle,CellStyleRef) macro_in=src/style/cellstyle.rs
//@ret r
//@subst CellStyleRef::from ==> CellStyleRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/macro_style.rs name=ParagraphStyleRef macro=style_ref2(ParagraphStyleRef)>style_ref2_base(ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@end
impl VpText for ParagraphStyleRef { spec fn text(&self) -> Seq<char> { self.id@ } }
impl ParagraphStyleRef {
//@fn file=src/macro_style.rs path=ParagraphStyleRef::from trait=From<&str> as=from_str macro=style_ref2(ParagraphStyleRef)>style_ref2_base(ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=ParagraphStyleRef::from trait=From<String> as=from_string macro=style_ref2(ParagraphStyleRef)>style_ref2_base(ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@params id
//@ret r
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=ParagraphStyleRef::from trait=From<&String> as=from_rstring macro=style_ref2(ParagraphStyleRef)>style_ref2_base(ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@params id
//@ret r
//@subst id.clone() ==> vp_clone(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=ParagraphStyleRef::as_str macro=style_ref2(ParagraphStyleRef)>style_ref2_base(ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@ret r
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=ParagraphStyleRef::borrow trait=Borrow<str> macro=style_ref2(ParagraphStyleRef)>style_ref2_base(ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@ret r
//@subst self.id.borrow() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=ParagraphStyleRef::as_ref trait=AsRef<str> macro=style_ref2(ParagraphStyleRef)>style_ref2_base(ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@ret r
//@subst self.id.as_ref() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
}
//@struct file=src/style/paragraphstyle.rs name=ParagraphStyle
//@end
/// the same in everything but the name
spec fn same_ParagraphStyle(x: ParagraphStyle, y: ParagraphStyle) -> bool { x.origin == y.origin && x.styleuse == y.styleuse && x.attr == y.attr && x.paragraphstyle == y.paragraphstyle && x.textstyle == y.textstyle && x.tabstops == y.tabstops }
impl ParagraphStyle {
//@fn file=src/macro_style.rs path=ParagraphStyle::name macro=styles_styles2(ParagraphStyle,ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@ret r
//@subst &self.name ==> self.name.as_str()
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_style.rs path=ParagraphStyle::set_name macro=styles_styles2(ParagraphStyle,ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@params name
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: String
//@subst String::from(name.as_ref()) ==> name
//@spec
    ensures final(self).name@ == name@, same_ParagraphStyle(*old(self), *final(self)),
//@end
//@fn file=src/macro_style.rs path=ParagraphStyle::style_ref macro=styles_styles2(ParagraphStyle,ParagraphStyleRef) macro_in=src/style/paragraphstyle.rs
//@ret r
//@subst ParagraphStyleRef::from ==> ParagraphStyleRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/macro_style.rs name=TextStyleRef macro=style_ref2(TextStyleRef)>style_ref2_base(TextStyleRef) macro_in=src/style/textstyle.rs
//@end
impl VpText for TextStyleRef { spec fn text(&self) -> Seq<char> { self.id@ } }
impl TextStyleRef {
//@fn file=src/macro_style.rs path=TextStyleRef::from trait=From<&str> as=from_str macro=style_ref2(TextStyleRef)>style_ref2_base(TextStyleRef) macro_in=src/style/textstyle.rs
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=TextStyleRef::from trait=From<String> as=from_string macro=style_ref2(TextStyleRef)>style_ref2_base(TextStyleRef) macro_in=src/style/textstyle.rs
//@params id
//@ret r
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=TextStyleRef::from trait=From<&String> as=from_rstring macro=style_ref2(TextStyleRef)>style_ref2_base(TextStyleRef) macro_in=src/style/textstyle.rs
//@params id
//@ret r
//@subst id.clone() ==> vp_clone(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=TextStyleRef::as_str macro=style_ref2(TextStyleRef)>style_ref2_base(TextStyleRef) macro_in=src/style/textstyle.rs
//@ret r
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=TextStyleRef::borrow trait=Borrow<str> macro=style_ref2(TextStyleRef)>style_ref2_base(TextStyleRef) macro_in=src/style/textstyle.rs
//@ret r
//@subst self.id.borrow() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=TextStyleRef::as_ref trait=AsRef<str> macro=style_ref2(TextStyleRef)>style_ref2_base(TextStyleRef) macro_in=src/style/textstyle.rs
//@ret r
//@subst self.id.as_ref() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
}
//@struct file=src/style/textstyle.rs name=TextStyle
//@end
/// the same in everything but the name
spec fn same_TextStyle(x: TextStyle, y: TextStyle) -> bool { x.origin == y.origin && x.styleuse == y.styleuse && x.attr == y.attr && x.textstyle == y.textstyle }
impl TextStyle {
//@fn file=src/macro_style.rs path=TextStyle::name macro=styles_styles2(TextStyle,TextStyleRef) macro_in=src/style/textstyle.rs
//@ret r
//@subst &self.name ==> self.name.as_str()
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_style.rs path=TextStyle::set_name macro=styles_styles2(TextStyle,TextStyleRef) macro_in=src/style/textstyle.rs
//@params name
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: String
//@subst String::from(name.as_ref()) ==> name
//@spec
    ensures final(self).name@ == name@, same_TextStyle(*old(self), *final(self)),
//@end
//@fn file=src/macro_style.rs path=TextStyle::style_ref macro=styles_styles2(TextStyle,TextStyleRef) macro_in=src/style/textstyle.rs
//@ret r
//@subst TextStyleRef::from ==> TextStyleRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/macro_style.rs name=RubyStyleRef macro=style_ref2(RubyStyleRef)>style_ref2_base(RubyStyleRef) macro_in=src/style/ruby.rs
//@end
impl VpText for RubyStyleRef { spec fn text(&self) -> Seq<char> { self.id@ } }
impl RubyStyleRef {
//@fn file=src/macro_style.rs path=RubyStyleRef::from trait=From<&str> as=from_str macro=style_ref2(RubyStyleRef)>style_ref2_base(RubyStyleRef) macro_in=src/style/ruby.rs
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=RubyStyleRef::from trait=From<String> as=from_string macro=style_ref2(RubyStyleRef)>style_ref2_base(RubyStyleRef) macro_in=src/style/ruby.rs
//@params id
//@ret r
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=RubyStyleRef::from trait=From<&String> as=from_rstring macro=style_ref2(RubyStyleRef)>style_ref2_base(RubyStyleRef) macro_in=src/style/ruby.rs
//@params id
//@ret r
//@subst id.clone() ==> vp_clone(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=RubyStyleRef::as_str macro=style_ref2(RubyStyleRef)>style_ref2_base(RubyStyleRef) macro_in=src/style/ruby.rs
//@ret r
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=RubyStyleRef::borrow trait=Borrow<str> macro=style_ref2(RubyStyleRef)>style_ref2_base(RubyStyleRef) macro_in=src/style/ruby.rs
//@ret r
//@subst self.id.borrow() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=RubyStyleRef::as_ref trait=AsRef<str> macro=style_ref2(RubyStyleRef)>style_ref2_base(RubyStyleRef) macro_in=src/style/ruby.rs
//@ret r
//@subst self.id.as_ref() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
}
//@struct file=src/style/ruby.rs name=RubyStyle
//@end
/// the same in everything but the name
spec fn same_RubyStyle(x: RubyStyle, y: RubyStyle) -> bool { x.origin == y.origin && x.styleuse == y.styleuse && x.attr == y.attr && x.rubystyle == y.rubystyle }
impl RubyStyle {
//@fn file=src/macro_style.rs path=RubyStyle::name macro=styles_styles2(RubyStyle,RubyStyleRef) macro_in=src/style/ruby.rs
//@ret r
//@subst &self.name ==> self.name.as_str()
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_style.rs path=RubyStyle::set_name macro=styles_styles2(RubyStyle,RubyStyleRef) macro_in=src/style/ruby.rs
//@params name
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: String
//@subst String::from(name.as_ref()) ==> name
//@spec
    ensures final(self).name@ == name@, same_RubyStyle(*old(self), *final(self)),
//@end
//@fn file=src/macro_style.rs path=RubyStyle::style_ref macro=styles_styles2(RubyStyle,RubyStyleRef) macro_in=src/style/ruby.rs
//@ret r
//@subst RubyStyleRef::from ==> RubyStyleRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/macro_style.rs name=GraphicStyleRef macro=style_ref2(GraphicStyleRef)>style_ref2_base(GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@end
impl VpText for GraphicStyleRef { spec fn text(&self) -> Seq<char> { self.id@ } }
impl GraphicStyleRef {
//@fn file=src/macro_style.rs path=GraphicStyleRef::from trait=From<&str> as=from_str macro=style_ref2(GraphicStyleRef)>style_ref2_base(GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=GraphicStyleRef::from trait=From<String> as=from_string macro=style_ref2(GraphicStyleRef)>style_ref2_base(GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@params id
//@ret r
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=GraphicStyleRef::from trait=From<&String> as=from_rstring macro=style_ref2(GraphicStyleRef)>style_ref2_base(GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@params id
//@ret r
//@subst id.clone() ==> vp_clone(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=GraphicStyleRef::as_str macro=style_ref2(GraphicStyleRef)>style_ref2_base(GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@ret r
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=GraphicStyleRef::borrow trait=Borrow<str> macro=style_ref2(GraphicStyleRef)>style_ref2_base(GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@ret r
//@subst self.id.borrow() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=GraphicStyleRef::as_ref trait=AsRef<str> macro=style_ref2(GraphicStyleRef)>style_ref2_base(GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@ret r
//@subst self.id.as_ref() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
}
//@struct file=src/style/graphicstyle.rs name=GraphicStyle
//@end
/// the same in everything but the name
spec fn same_GraphicStyle(x: GraphicStyle, y: GraphicStyle) -> bool { x.origin == y.origin && x.styleuse == y.styleuse && x.attr == y.attr && x.graphicstyle == y.graphicstyle && x.paragraphstyle == y.paragraphstyle && x.textstyle == y.textstyle }
impl GraphicStyle {
//@fn file=src/macro_style.rs path=GraphicStyle::name macro=styles_styles2(GraphicStyle,GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@ret r
//@subst &self.name ==> self.name.as_str()
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/macro_style.rs path=GraphicStyle::set_name macro=styles_styles2(GraphicStyle,GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@params name
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: String
//@subst String::from(name.as_ref()) ==> name
//@spec
    ensures final(self).name@ == name@, same_GraphicStyle(*old(self), *final(self)),
//@end
//@fn file=src/macro_style.rs path=GraphicStyle::style_ref macro=styles_styles2(GraphicStyle,GraphicStyleRef) macro_in=src/style/graphicstyle.rs
//@ret r
//@subst GraphicStyleRef::from ==> GraphicStyleRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/macro_style.rs name=ValueFormatRef macro=style_ref2(ValueFormatRef)>style_ref2_base(ValueFormatRef) macro_in=src/format/mod.rs
//@end
impl VpText for ValueFormatRef { spec fn text(&self) -> Seq<char> { self.id@ } }
impl ValueFormatRef {
//@fn file=src/macro_style.rs path=ValueFormatRef::from trait=From<&str> as=from_str macro=style_ref2(ValueFormatRef)>style_ref2_base(ValueFormatRef) macro_in=src/format/mod.rs
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=ValueFormatRef::from trait=From<String> as=from_string macro=style_ref2(ValueFormatRef)>style_ref2_base(ValueFormatRef) macro_in=src/format/mod.rs
//@params id
//@ret r
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=ValueFormatRef::from trait=From<&String> as=from_rstring macro=style_ref2(ValueFormatRef)>style_ref2_base(ValueFormatRef) macro_in=src/format/mod.rs
//@params id
//@ret r
//@subst id.clone() ==> vp_clone(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=ValueFormatRef::as_str macro=style_ref2(ValueFormatRef)>style_ref2_base(ValueFormatRef) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=ValueFormatRef::borrow trait=Borrow<str> macro=style_ref2(ValueFormatRef)>style_ref2_base(ValueFormatRef) macro_in=src/format/mod.rs
//@ret r
//@subst self.id.borrow() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=ValueFormatRef::as_ref trait=AsRef<str> macro=style_ref2(ValueFormatRef)>style_ref2_base(ValueFormatRef) macro_in=src/format/mod.rs
//@ret r
//@subst self.id.as_ref() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatBoolean macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@end
/// the same in everything but the name
spec fn same_ValueFormatBoolean(x: ValueFormatBoolean, y: ValueFormatBoolean) -> bool { x.origin == y.origin && x.styleuse == y.styleuse && x.attr == y.attr && x.textstyle == y.textstyle && x.parts == y.parts && x.stylemaps == y.stylemaps }
impl ValueFormatBoolean {
//@fn file=src/macro_format.rs path=ValueFormatBoolean::name trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.name,
//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@params name
//@subst <S: Into<String>> ==>
//@subst name: S ==> name: &str
//@subst name.into() ==> vp_string(name)
//@spec
    ensures final(self).name@ == name@, same_ValueFormatBoolean(*old(self), *final(self)),
//@end
//@fn file=src/macro_format.rs path=ValueFormatBoolean::format_ref trait=ValueFormatTrait macro=valueformat(ValueFormatBoolean,ValueType::Boolean) macro_in=src/format/mod.rs
//@ret r
//@subst ValueFormatRef::from ==> ValueFormatRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatNumber macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@end
/// the same in everything but the name
spec fn same_ValueFormatNumber(x: ValueFormatNumber, y: ValueFormatNumber) -> bool { x.origin == y.origin && x.styleuse == y.styleuse && x.attr == y.attr && x.textstyle == y.textstyle && x.parts == y.parts && x.stylemaps == y.stylemaps }
impl ValueFormatNumber {
//@fn file=src/macro_format.rs path=ValueFormatNumber::name trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.name,
//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@params name
//@subst <S: Into<String>> ==>
//@subst name: S ==> name: &str
//@subst name.into() ==> vp_string(name)
//@spec
    ensures final(self).name@ == name@, same_ValueFormatNumber(*old(self), *final(self)),
//@end
//@fn file=src/macro_format.rs path=ValueFormatNumber::format_ref trait=ValueFormatTrait macro=valueformat(ValueFormatNumber,ValueType::Number) macro_in=src/format/mod.rs
//@ret r
//@subst ValueFormatRef::from ==> ValueFormatRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatPercentage macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@end
/// the same in everything but the name
spec fn same_ValueFormatPercentage(x: ValueFormatPercentage, y: ValueFormatPercentage) -> bool { x.origin == y.origin && x.styleuse == y.styleuse && x.attr == y.attr && x.textstyle == y.textstyle && x.parts == y.parts && x.stylemaps == y.stylemaps }
impl ValueFormatPercentage {
//@fn file=src/macro_format.rs path=ValueFormatPercentage::name trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.name,
//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@params name
//@subst <S: Into<String>> ==>
//@subst name: S ==> name: &str
//@subst name.into() ==> vp_string(name)
//@spec
    ensures final(self).name@ == name@, same_ValueFormatPercentage(*old(self), *final(self)),
//@end
//@fn file=src/macro_format.rs path=ValueFormatPercentage::format_ref trait=ValueFormatTrait macro=valueformat(ValueFormatPercentage,ValueType::Percentage) macro_in=src/format/mod.rs
//@ret r
//@subst ValueFormatRef::from ==> ValueFormatRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatCurrency macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@end
/// the same in everything but the name
spec fn same_ValueFormatCurrency(x: ValueFormatCurrency, y: ValueFormatCurrency) -> bool { x.origin == y.origin && x.styleuse == y.styleuse && x.attr == y.attr && x.textstyle == y.textstyle && x.parts == y.parts && x.stylemaps == y.stylemaps }
impl ValueFormatCurrency {
//@fn file=src/macro_format.rs path=ValueFormatCurrency::name trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.name,
//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@params name
//@subst <S: Into<String>> ==>
//@subst name: S ==> name: &str
//@subst name.into() ==> vp_string(name)
//@spec
    ensures final(self).name@ == name@, same_ValueFormatCurrency(*old(self), *final(self)),
//@end
//@fn file=src/macro_format.rs path=ValueFormatCurrency::format_ref trait=ValueFormatTrait macro=valueformat(ValueFormatCurrency,ValueType::Currency) macro_in=src/format/mod.rs
//@ret r
//@subst ValueFormatRef::from ==> ValueFormatRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatText macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@end
/// the same in everything but the name
spec fn same_ValueFormatText(x: ValueFormatText, y: ValueFormatText) -> bool { x.origin == y.origin && x.styleuse == y.styleuse && x.attr == y.attr && x.textstyle == y.textstyle && x.parts == y.parts && x.stylemaps == y.stylemaps }
impl ValueFormatText {
//@fn file=src/macro_format.rs path=ValueFormatText::name trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.name,
//@end
//@fn file=src/macro_format.rs path=ValueFormatText::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@params name
//@subst <S: Into<String>> ==>
//@subst name: S ==> name: &str
//@subst name.into() ==> vp_string(name)
//@spec
    ensures final(self).name@ == name@, same_ValueFormatText(*old(self), *final(self)),
//@end
//@fn file=src/macro_format.rs path=ValueFormatText::format_ref trait=ValueFormatTrait macro=valueformat(ValueFormatText,ValueType::Text) macro_in=src/format/mod.rs
//@ret r
//@subst ValueFormatRef::from ==> ValueFormatRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatDateTime macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@end
/// the same in everything but the name
spec fn same_ValueFormatDateTime(x: ValueFormatDateTime, y: ValueFormatDateTime) -> bool { x.origin == y.origin && x.styleuse == y.styleuse && x.attr == y.attr && x.textstyle == y.textstyle && x.parts == y.parts && x.stylemaps == y.stylemaps }
impl ValueFormatDateTime {
//@fn file=src/macro_format.rs path=ValueFormatDateTime::name trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.name,
//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@params name
//@subst <S: Into<String>> ==>
//@subst name: S ==> name: &str
//@subst name.into() ==> vp_string(name)
//@spec
    ensures final(self).name@ == name@, same_ValueFormatDateTime(*old(self), *final(self)),
//@end
//@fn file=src/macro_format.rs path=ValueFormatDateTime::format_ref trait=ValueFormatTrait macro=valueformat(ValueFormatDateTime,ValueType::DateTime) macro_in=src/format/mod.rs
//@ret r
//@subst ValueFormatRef::from ==> ValueFormatRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/macro_format.rs name=ValueFormatTimeDuration macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@end
/// the same in everything but the name
spec fn same_ValueFormatTimeDuration(x: ValueFormatTimeDuration, y: ValueFormatTimeDuration) -> bool { x.origin == y.origin && x.styleuse == y.styleuse && x.attr == y.attr && x.textstyle == y.textstyle && x.parts == y.parts && x.stylemaps == y.stylemaps }
impl ValueFormatTimeDuration {
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::name trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@ret r
//@spec
    ensures *r == self.name,
//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::set_name trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@params name
//@subst <S: Into<String>> ==>
//@subst name: S ==> name: &str
//@subst name.into() ==> vp_string(name)
//@spec
    ensures final(self).name@ == name@, same_ValueFormatTimeDuration(*old(self), *final(self)),
//@end
//@fn file=src/macro_format.rs path=ValueFormatTimeDuration::format_ref trait=ValueFormatTrait macro=valueformat(ValueFormatTimeDuration,ValueType::TimeDuration) macro_in=src/format/mod.rs
//@ret r
//@subst ValueFormatRef::from ==> ValueFormatRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/macro_style.rs name=PageStyleRef macro=style_ref2(PageStyleRef)>style_ref2_base(PageStyleRef) macro_in=src/style/pagestyle.rs
//@end
impl VpText for PageStyleRef { spec fn text(&self) -> Seq<char> { self.id@ } }
impl PageStyleRef {
//@fn file=src/macro_style.rs path=PageStyleRef::from trait=From<&str> as=from_str macro=style_ref2(PageStyleRef)>style_ref2_base(PageStyleRef) macro_in=src/style/pagestyle.rs
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=PageStyleRef::from trait=From<String> as=from_string macro=style_ref2(PageStyleRef)>style_ref2_base(PageStyleRef) macro_in=src/style/pagestyle.rs
//@params id
//@ret r
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=PageStyleRef::from trait=From<&String> as=from_rstring macro=style_ref2(PageStyleRef)>style_ref2_base(PageStyleRef) macro_in=src/style/pagestyle.rs
//@params id
//@ret r
//@subst id.clone() ==> vp_clone(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=PageStyleRef::as_str macro=style_ref2(PageStyleRef)>style_ref2_base(PageStyleRef) macro_in=src/style/pagestyle.rs
//@ret r
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=PageStyleRef::borrow trait=Borrow<str> macro=style_ref2(PageStyleRef)>style_ref2_base(PageStyleRef) macro_in=src/style/pagestyle.rs
//@ret r
//@subst self.id.borrow() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=PageStyleRef::as_ref trait=AsRef<str> macro=style_ref2(PageStyleRef)>style_ref2_base(PageStyleRef) macro_in=src/style/pagestyle.rs
//@ret r
//@subst self.id.as_ref() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
}
//@struct file=src/style/pagestyle.rs name=PageStyle
//@end
/// the same in everything but the name
spec fn same_PageStyle(x: PageStyle, y: PageStyle) -> bool { x.master_page_usage == y.master_page_usage && x.style == y.style && x.header == y.header && x.footer == y.footer }
impl PageStyle {
//@fn file=src/style/pagestyle.rs path=PageStyle::name
//@ret r
//@subst &self.name ==> self.name.as_str()
//@subst &String ==> &str
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/style/pagestyle.rs path=PageStyle::set_name
//@params name
//@subst <S: Into<String>> ==>
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: String
//@subst name.into() ==> name
//@subst name.as_ref().to_string() ==> name
//@spec
    ensures final(self).name@ == name@, same_PageStyle(*old(self), *final(self)),
//@end
//@fn file=src/style/pagestyle.rs path=PageStyle::style_ref
//@ret r
//@subst PageStyleRef::from(self.name.clone()) ==> PageStyleRef::from_string(vp_clone(&self.name))
//@subst PageStyleRef::from ==> PageStyleRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/macro_style.rs name=MasterPageRef macro=style_ref2(MasterPageRef)>style_ref2_base(MasterPageRef) macro_in=src/style/masterpage.rs
//@end
impl VpText for MasterPageRef { spec fn text(&self) -> Seq<char> { self.id@ } }
impl MasterPageRef {
//@fn file=src/macro_style.rs path=MasterPageRef::from trait=From<&str> as=from_str macro=style_ref2(MasterPageRef)>style_ref2_base(MasterPageRef) macro_in=src/style/masterpage.rs
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=MasterPageRef::from trait=From<String> as=from_string macro=style_ref2(MasterPageRef)>style_ref2_base(MasterPageRef) macro_in=src/style/masterpage.rs
//@params id
//@ret r
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=MasterPageRef::from trait=From<&String> as=from_rstring macro=style_ref2(MasterPageRef)>style_ref2_base(MasterPageRef) macro_in=src/style/masterpage.rs
//@params id
//@ret r
//@subst id.clone() ==> vp_clone(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=MasterPageRef::as_str macro=style_ref2(MasterPageRef)>style_ref2_base(MasterPageRef) macro_in=src/style/masterpage.rs
//@ret r
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=MasterPageRef::borrow trait=Borrow<str> macro=style_ref2(MasterPageRef)>style_ref2_base(MasterPageRef) macro_in=src/style/masterpage.rs
//@ret r
//@subst self.id.borrow() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=MasterPageRef::as_ref trait=AsRef<str> macro=style_ref2(MasterPageRef)>style_ref2_base(MasterPageRef) macro_in=src/style/masterpage.rs
//@ret r
//@subst self.id.as_ref() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
}
//@struct file=src/style/masterpage.rs name=MasterPage
//@end
/// the same in everything but the name
spec fn same_MasterPage(x: MasterPage, y: MasterPage) -> bool { x.display_name == y.display_name && x.pagestyle == y.pagestyle && x.next_style_name == y.next_style_name && x.header == y.header && x.header_first == y.header_first && x.header_left == y.header_left && x.footer == y.footer && x.footer_first == y.footer_first && x.footer_left == y.footer_left }
impl MasterPage {
//@fn file=src/style/masterpage.rs path=MasterPage::name
//@ret r
//@subst &self.name ==> self.name.as_str()
//@subst &String ==> &str
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::set_name
//@params name
//@subst <S: Into<String>> ==>
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: String
//@subst name.into() ==> name
//@subst name.as_ref().to_string() ==> name
//@spec
    ensures final(self).name@ == name@, same_MasterPage(*old(self), *final(self)),
//@end
//@fn file=src/style/masterpage.rs path=MasterPage::masterpage_ref
//@ret r
//@subst MasterPageRef::from(self.name.clone()) ==> MasterPageRef::from_string(vp_clone(&self.name))
//@subst MasterPageRef::from ==> MasterPageRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/macro_style.rs name=ValidationRef macro=style_ref2(ValidationRef)>style_ref2_base(ValidationRef) macro_in=src/validation.rs
//@end
impl VpText for ValidationRef { spec fn text(&self) -> Seq<char> { self.id@ } }
impl ValidationRef {
//@fn file=src/macro_style.rs path=ValidationRef::from trait=From<&str> as=from_str macro=style_ref2(ValidationRef)>style_ref2_base(ValidationRef) macro_in=src/validation.rs
//@params id
//@ret r
//@subst id.to_string() ==> vp_string(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=ValidationRef::from trait=From<String> as=from_string macro=style_ref2(ValidationRef)>style_ref2_base(ValidationRef) macro_in=src/validation.rs
//@params id
//@ret r
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=ValidationRef::from trait=From<&String> as=from_rstring macro=style_ref2(ValidationRef)>style_ref2_base(ValidationRef) macro_in=src/validation.rs
//@params id
//@ret r
//@subst id.clone() ==> vp_clone(id)
//@spec
    ensures r.id@ == id@,
//@end
//@fn file=src/macro_style.rs path=ValidationRef::as_str macro=style_ref2(ValidationRef)>style_ref2_base(ValidationRef) macro_in=src/validation.rs
//@ret r
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=ValidationRef::borrow trait=Borrow<str> macro=style_ref2(ValidationRef)>style_ref2_base(ValidationRef) macro_in=src/validation.rs
//@ret r
//@subst self.id.borrow() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
//@fn file=src/macro_style.rs path=ValidationRef::as_ref trait=AsRef<str> macro=style_ref2(ValidationRef)>style_ref2_base(ValidationRef) macro_in=src/validation.rs
//@ret r
//@subst self.id.as_ref() ==> self.id.as_str()
//@spec
    ensures r@ == self.id@,
//@end
}
//@struct file=src/validation.rs name=Validation
//@end
/// the same in everything but the name
spec fn same_Validation(x: Validation, y: Validation) -> bool { x.condition == y.condition && x.base_cell == y.base_cell && x.allow_empty == y.allow_empty && x.display_list == y.display_list && x.err == y.err && x.help == y.help }
impl Validation {
//@fn file=src/validation.rs path=Validation::name
//@ret r
//@subst &self.name ==> self.name.as_str()
//@subst &String ==> &str
//@spec
    ensures r@ == self.name@,
//@end
//@fn file=src/validation.rs path=Validation::set_name
//@params name
//@subst <S: Into<String>> ==>
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: String
//@subst name.into() ==> name
//@subst name.as_ref().to_string() ==> name
//@spec
    ensures final(self).name@ == name@, same_Validation(*old(self), *final(self)),
//@end
//@fn file=src/validation.rs path=Validation::validation_ref
//@ret r
//@subst ValidationRef::from(self.name.clone()) ==> ValidationRef::from_string(vp_clone(&self.name))
//@subst ValidationRef::from ==> ValidationRef::from_str
//@spec
    ensures r.id@ == self.name@,
//@end
}
//@struct file=src/style/fontface.rs name=FontFaceDecl
//@end
impl FontFaceDecl {
//@fn file=src/style/fontface.rs path=FontFaceDecl::name
//@ret r
//@spec
    ensures *r == self.name,
//@end
}
//@struct file=src/workbook_.rs name=WorkBook
//@keep sheets,autonum,fonts,tablestyles,rowstyles,colstyles,cellstyles,paragraphstyles,textstyles,rubystyles,graphicstyles,formats_boolean,formats_number,formats_percentage,formats_currency,formats_text,formats_datetime,formats_timeduration,pagestyles,masterpages,validations
//@end
spec fn only_sheets(x: WorkBook, y: WorkBook) -> bool { x.autonum == y.autonum && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_fonts(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.autonum == y.autonum && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_tablestyles(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_rowstyles(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_colstyles(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_cellstyles(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_paragraphstyles(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_textstyles(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_rubystyles(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_graphicstyles(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_formats_boolean(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_formats_number(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_formats_percentage(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_formats_currency(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_formats_text(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_formats_datetime(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_formats_timeduration(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_pagestyles(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.masterpages == y.masterpages && x.validations == y.validations }
spec fn only_masterpages(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.validations == y.validations }
spec fn only_validations(x: WorkBook, y: WorkBook) -> bool { x.sheets == y.sheets && x.fonts == y.fonts && x.tablestyles == y.tablestyles && x.rowstyles == y.rowstyles && x.colstyles == y.colstyles && x.cellstyles == y.cellstyles && x.paragraphstyles == y.paragraphstyles && x.textstyles == y.textstyles && x.rubystyles == y.rubystyles && x.graphicstyles == y.graphicstyles && x.formats_boolean == y.formats_boolean && x.formats_number == y.formats_number && x.formats_percentage == y.formats_percentage && x.formats_currency == y.formats_currency && x.formats_text == y.formats_text && x.formats_datetime == y.formats_datetime && x.formats_timeduration == y.formats_timeduration && x.pagestyles == y.pagestyles && x.masterpages == y.masterpages }
spec fn here(b: WorkBook, n: int) -> bool { 0 <= n < b.sheets@.len() && dval(b.sheets@[n]).is_some() }
impl WorkBook {
//@fn file=src/workbook_.rs path=WorkBook::num_sheets
//@ret r
//@spec
    ensures r == self.sheets@.len(),
//@end
//@fn file=src/workbook_.rs path=WorkBook::sheet_idx
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst for (idx, sheet) in self.sheets.iter().enumerate() ==> for idx in 0..self.sheets.len()
//@subst sheet.name() == name.as_ref() ==> vp_eq(self.sheets[idx].as_ref().name().as_str(), name)
//@spec
    requires forall|j: int| 0 <= j < self.sheets@.len() ==> dval(#[trigger] self.sheets@[j]).is_some(),
    ensures match r { Some(k) => k < self.sheets@.len() && (dval(self.sheets@[k as int])->0).name@ == name@ && forall|j: int| 0 <= j < k ==> (dval(#[trigger] self.sheets@[j])->0).name@ != name@, None => forall|j: int| 0 <= j < self.sheets@.len() ==> (dval(#[trigger] self.sheets@[j])->0).name@ != name@ },
//@loop 0 it=it
    invariant forall|j: int| 0 <= j < self.sheets@.len() ==> dval(#[trigger] self.sheets@[j]).is_some(), it.index@ <= self.sheets@.len(), it.seq().len() == self.sheets@.len(), forall|k: int| 0 <= k < it.seq().len() ==> it.seq()[k] == k,
        forall|j: int| 0 <= j < it.index@ ==> (dval(#[trigger] self.sheets@[j])->0).name@ != name@,
//@end
//@fn file=src/workbook_.rs path=WorkBook::detach_sheet
//@params n
//@ret r
//@spec
    requires here(*old(self), n as int),
    ensures r.key == n, *r.val == dval(old(self).sheets@[n as int])->0, final(self).sheets@ == old(self).sheets@.update(n as int, final(self).sheets@[n as int]), dval(final(self).sheets@[n as int]).is_none(), only_sheets(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::attach_sheet
//@params sheet
//@subst self.sheets[Detached::key(&sheet)].attach(sheet) ==> { let vp_k = Detached::key(&sheet); self.sheets[vp_k].attach(sheet) }
//@spec
    requires sheet.key < old(self).sheets@.len(),
    ensures dval(final(self).sheets@[sheet.key as int]) == Some(*sheet.val), final(self).sheets@ == old(self).sheets@.update(sheet.key as int, final(self).sheets@[sheet.key as int]), only_sheets(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::sheet
//@params n
//@ret r
//@spec
    requires here(*self, n as int),
    ensures *r == dval(self.sheets@[n as int])->0,
//@end
//@fn file=src/workbook_.rs path=WorkBook::sheet_mut
//@params n
//@ret r
//@spec
    requires here(*old(self), n as int),
    ensures *r == dval(old(self).sheets@[n as int])->0, dval(final(self).sheets@[n as int]) == Some(*final(r)), final(self).sheets@ == old(self).sheets@.update(n as int, final(self).sheets@[n as int]), only_sheets(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::insert_sheet
//@params i sheet
//@subst sheet.into() ==> Detach::from(sheet)
//@spec
    requires i <= old(self).sheets@.len(),
    ensures dval(final(self).sheets@[i as int]) == Some(sheet), final(self).sheets@ == old(self).sheets@.insert(i as int, final(self).sheets@[i as int]), only_sheets(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::push_sheet
//@params sheet
//@subst sheet.into() ==> Detach::from(sheet)
//@spec
    ensures dval(final(self).sheets@.last()) == Some(sheet), final(self).sheets@.len() == old(self).sheets@.len() + 1, final(self).sheets@ == old(self).sheets@.push(final(self).sheets@.last()), only_sheets(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_sheet
//@params n
//@ret r
//@spec
    requires here(*old(self), n as int),
    ensures r == dval(old(self).sheets@[n as int])->0, final(self).sheets@ == old(self).sheets@.remove(n as int), only_sheets(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_font
//@params font
//@subst font.name().to_string() ==> vp_clone(font.name())
//@spec
    ensures final(self).fonts@ == old(self).fonts@.insert(font.name@, font), only_fonts(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::font
//@params name
//@ret r
//@spec
    ensures match r { Some(v) => self.fonts@.contains_key(name@) && *v == self.fonts@[name@], None => !self.fonts@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_font
//@params name
//@ret r
//@spec
    ensures final(self).fonts@ == old(self).fonts@.remove(name@), only_fonts(*old(self), *final(self)), match r { Some(v) => old(self).fonts@.contains_key(name@) && v == old(self).fonts@[name@], None => !old(self).fonts@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::font_mut
//@params name
//@ret r
//@spec
    ensures only_fonts(*old(self), *final(self)), match r { Some(v) => old(self).fonts@.contains_key(name@) && *v == old(self).fonts@[name@] && final(self).fonts@ == old(self).fonts@.insert(name@, *final(v)), None => !old(self).fonts@.contains_key(name@) && final(self).fonts@ == old(self).fonts@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_tablestyle
//@params style
//@ret r
//@subst mut style: TableStyle ==> style: TableStyle
//@subst mut vstyle: TableStyle ==> vstyle: TableStyle
//@subst mut pstyle: TableStyle ==> pstyle: TableStyle
//@subst mut mpage: TableStyle ==> mpage: TableStyle
//@subst mut valid: TableStyle ==> valid: TableStyle
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "ta"@) + old(self).tablestyles@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).tablestyles@.contains_key(r.id@),
        final(self).tablestyles@.contains_key(r.id@), final(self).tablestyles@ == old(self).tablestyles@.insert(r.id@, final(self).tablestyles@[r.id@]),
        final(self).tablestyles@[r.id@].name@ == r.id@, same_TableStyle(style, final(self).tablestyles@[r.id@]), only_tablestyles(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_tablestyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).tablestyles@ == old(self).tablestyles@.remove(name@), only_tablestyles(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).tablestyles@.contains_key(name@) && v == old(self).tablestyles@[name@], None => !old(self).tablestyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::tablestyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.tablestyles@.contains_key(name@) && *v == self.tablestyles@[name@], None => !self.tablestyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::tablestyle_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_tablestyles(*old(self), *final(self)), match r { Some(v) => old(self).tablestyles@.contains_key(name@) && *v == old(self).tablestyles@[name@] && final(self).tablestyles@ == old(self).tablestyles@.insert(name@, *final(v)), None => !old(self).tablestyles@.contains_key(name@) && final(self).tablestyles@ == old(self).tablestyles@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_rowstyle
//@params style
//@ret r
//@subst mut style: RowStyle ==> style: RowStyle
//@subst mut vstyle: RowStyle ==> vstyle: RowStyle
//@subst mut pstyle: RowStyle ==> pstyle: RowStyle
//@subst mut mpage: RowStyle ==> mpage: RowStyle
//@subst mut valid: RowStyle ==> valid: RowStyle
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "ro"@) + old(self).rowstyles@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).rowstyles@.contains_key(r.id@),
        final(self).rowstyles@.contains_key(r.id@), final(self).rowstyles@ == old(self).rowstyles@.insert(r.id@, final(self).rowstyles@[r.id@]),
        final(self).rowstyles@[r.id@].name@ == r.id@, same_RowStyle(style, final(self).rowstyles@[r.id@]), only_rowstyles(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_rowstyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).rowstyles@ == old(self).rowstyles@.remove(name@), only_rowstyles(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).rowstyles@.contains_key(name@) && v == old(self).rowstyles@[name@], None => !old(self).rowstyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::rowstyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.rowstyles@.contains_key(name@) && *v == self.rowstyles@[name@], None => !self.rowstyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::rowstyle_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_rowstyles(*old(self), *final(self)), match r { Some(v) => old(self).rowstyles@.contains_key(name@) && *v == old(self).rowstyles@[name@] && final(self).rowstyles@ == old(self).rowstyles@.insert(name@, *final(v)), None => !old(self).rowstyles@.contains_key(name@) && final(self).rowstyles@ == old(self).rowstyles@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_colstyle
//@params style
//@ret r
//@subst mut style: ColStyle ==> style: ColStyle
//@subst mut vstyle: ColStyle ==> vstyle: ColStyle
//@subst mut pstyle: ColStyle ==> pstyle: ColStyle
//@subst mut mpage: ColStyle ==> mpage: ColStyle
//@subst mut valid: ColStyle ==> valid: ColStyle
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "co"@) + old(self).colstyles@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).colstyles@.contains_key(r.id@),
        final(self).colstyles@.contains_key(r.id@), final(self).colstyles@ == old(self).colstyles@.insert(r.id@, final(self).colstyles@[r.id@]),
        final(self).colstyles@[r.id@].name@ == r.id@, same_ColStyle(style, final(self).colstyles@[r.id@]), only_colstyles(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_colstyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).colstyles@ == old(self).colstyles@.remove(name@), only_colstyles(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).colstyles@.contains_key(name@) && v == old(self).colstyles@[name@], None => !old(self).colstyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::colstyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.colstyles@.contains_key(name@) && *v == self.colstyles@[name@], None => !self.colstyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::colstyle_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_colstyles(*old(self), *final(self)), match r { Some(v) => old(self).colstyles@.contains_key(name@) && *v == old(self).colstyles@[name@] && final(self).colstyles@ == old(self).colstyles@.insert(name@, *final(v)), None => !old(self).colstyles@.contains_key(name@) && final(self).colstyles@ == old(self).colstyles@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_cellstyle
//@params style
//@ret r
//@subst mut style: CellStyle ==> style: CellStyle
//@subst mut vstyle: CellStyle ==> vstyle: CellStyle
//@subst mut pstyle: CellStyle ==> pstyle: CellStyle
//@subst mut mpage: CellStyle ==> mpage: CellStyle
//@subst mut valid: CellStyle ==> valid: CellStyle
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "ce"@) + old(self).cellstyles@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).cellstyles@.contains_key(r.id@),
        final(self).cellstyles@.contains_key(r.id@), final(self).cellstyles@ == old(self).cellstyles@.insert(r.id@, final(self).cellstyles@[r.id@]),
        final(self).cellstyles@[r.id@].name@ == r.id@, same_CellStyle(style, final(self).cellstyles@[r.id@]), only_cellstyles(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_cellstyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).cellstyles@ == old(self).cellstyles@.remove(name@), only_cellstyles(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).cellstyles@.contains_key(name@) && v == old(self).cellstyles@[name@], None => !old(self).cellstyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::cellstyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.cellstyles@.contains_key(name@) && *v == self.cellstyles@[name@], None => !self.cellstyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::cellstyle_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_cellstyles(*old(self), *final(self)), match r { Some(v) => old(self).cellstyles@.contains_key(name@) && *v == old(self).cellstyles@[name@] && final(self).cellstyles@ == old(self).cellstyles@.insert(name@, *final(v)), None => !old(self).cellstyles@.contains_key(name@) && final(self).cellstyles@ == old(self).cellstyles@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_paragraphstyle
//@params style
//@ret r
//@subst mut style: ParagraphStyle ==> style: ParagraphStyle
//@subst mut vstyle: ParagraphStyle ==> vstyle: ParagraphStyle
//@subst mut pstyle: ParagraphStyle ==> pstyle: ParagraphStyle
//@subst mut mpage: ParagraphStyle ==> mpage: ParagraphStyle
//@subst mut valid: ParagraphStyle ==> valid: ParagraphStyle
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "para"@) + old(self).paragraphstyles@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).paragraphstyles@.contains_key(r.id@),
        final(self).paragraphstyles@.contains_key(r.id@), final(self).paragraphstyles@ == old(self).paragraphstyles@.insert(r.id@, final(self).paragraphstyles@[r.id@]),
        final(self).paragraphstyles@[r.id@].name@ == r.id@, same_ParagraphStyle(style, final(self).paragraphstyles@[r.id@]), only_paragraphstyles(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_paragraphstyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).paragraphstyles@ == old(self).paragraphstyles@.remove(name@), only_paragraphstyles(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).paragraphstyles@.contains_key(name@) && v == old(self).paragraphstyles@[name@], None => !old(self).paragraphstyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::paragraphstyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.paragraphstyles@.contains_key(name@) && *v == self.paragraphstyles@[name@], None => !self.paragraphstyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::paragraphstyle_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_paragraphstyles(*old(self), *final(self)), match r { Some(v) => old(self).paragraphstyles@.contains_key(name@) && *v == old(self).paragraphstyles@[name@] && final(self).paragraphstyles@ == old(self).paragraphstyles@.insert(name@, *final(v)), None => !old(self).paragraphstyles@.contains_key(name@) && final(self).paragraphstyles@ == old(self).paragraphstyles@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_textstyle
//@params style
//@ret r
//@subst mut style: TextStyle ==> style: TextStyle
//@subst mut vstyle: TextStyle ==> vstyle: TextStyle
//@subst mut pstyle: TextStyle ==> pstyle: TextStyle
//@subst mut mpage: TextStyle ==> mpage: TextStyle
//@subst mut valid: TextStyle ==> valid: TextStyle
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "txt"@) + old(self).textstyles@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).textstyles@.contains_key(r.id@),
        final(self).textstyles@.contains_key(r.id@), final(self).textstyles@ == old(self).textstyles@.insert(r.id@, final(self).textstyles@[r.id@]),
        final(self).textstyles@[r.id@].name@ == r.id@, same_TextStyle(style, final(self).textstyles@[r.id@]), only_textstyles(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_textstyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).textstyles@ == old(self).textstyles@.remove(name@), only_textstyles(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).textstyles@.contains_key(name@) && v == old(self).textstyles@[name@], None => !old(self).textstyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::textstyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.textstyles@.contains_key(name@) && *v == self.textstyles@[name@], None => !self.textstyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::textstyle_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_textstyles(*old(self), *final(self)), match r { Some(v) => old(self).textstyles@.contains_key(name@) && *v == old(self).textstyles@[name@] && final(self).textstyles@ == old(self).textstyles@.insert(name@, *final(v)), None => !old(self).textstyles@.contains_key(name@) && final(self).textstyles@ == old(self).textstyles@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_rubystyle
//@params style
//@ret r
//@subst mut style: RubyStyle ==> style: RubyStyle
//@subst mut vstyle: RubyStyle ==> vstyle: RubyStyle
//@subst mut pstyle: RubyStyle ==> pstyle: RubyStyle
//@subst mut mpage: RubyStyle ==> mpage: RubyStyle
//@subst mut valid: RubyStyle ==> valid: RubyStyle
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "ruby"@) + old(self).rubystyles@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).rubystyles@.contains_key(r.id@),
        final(self).rubystyles@.contains_key(r.id@), final(self).rubystyles@ == old(self).rubystyles@.insert(r.id@, final(self).rubystyles@[r.id@]),
        final(self).rubystyles@[r.id@].name@ == r.id@, same_RubyStyle(style, final(self).rubystyles@[r.id@]), only_rubystyles(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_rubystyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).rubystyles@ == old(self).rubystyles@.remove(name@), only_rubystyles(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).rubystyles@.contains_key(name@) && v == old(self).rubystyles@[name@], None => !old(self).rubystyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::rubystyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.rubystyles@.contains_key(name@) && *v == self.rubystyles@[name@], None => !self.rubystyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::rubystyle_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_rubystyles(*old(self), *final(self)), match r { Some(v) => old(self).rubystyles@.contains_key(name@) && *v == old(self).rubystyles@[name@] && final(self).rubystyles@ == old(self).rubystyles@.insert(name@, *final(v)), None => !old(self).rubystyles@.contains_key(name@) && final(self).rubystyles@ == old(self).rubystyles@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_graphicstyle
//@params style
//@ret r
//@subst mut style: GraphicStyle ==> style: GraphicStyle
//@subst mut vstyle: GraphicStyle ==> vstyle: GraphicStyle
//@subst mut pstyle: GraphicStyle ==> pstyle: GraphicStyle
//@subst mut mpage: GraphicStyle ==> mpage: GraphicStyle
//@subst mut valid: GraphicStyle ==> valid: GraphicStyle
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "gr"@) + old(self).graphicstyles@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).graphicstyles@.contains_key(r.id@),
        final(self).graphicstyles@.contains_key(r.id@), final(self).graphicstyles@ == old(self).graphicstyles@.insert(r.id@, final(self).graphicstyles@[r.id@]),
        final(self).graphicstyles@[r.id@].name@ == r.id@, same_GraphicStyle(style, final(self).graphicstyles@[r.id@]), only_graphicstyles(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_graphicstyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).graphicstyles@ == old(self).graphicstyles@.remove(name@), only_graphicstyles(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).graphicstyles@.contains_key(name@) && v == old(self).graphicstyles@[name@], None => !old(self).graphicstyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::graphicstyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.graphicstyles@.contains_key(name@) && *v == self.graphicstyles@[name@], None => !self.graphicstyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::graphicstyle_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_graphicstyles(*old(self), *final(self)), match r { Some(v) => old(self).graphicstyles@.contains_key(name@) && *v == old(self).graphicstyles@[name@] && final(self).graphicstyles@ == old(self).graphicstyles@.insert(name@, *final(v)), None => !old(self).graphicstyles@.contains_key(name@) && final(self).graphicstyles@ == old(self).graphicstyles@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_boolean_format
//@params style
//@ret r
//@subst mut style: ValueFormatBoolean ==> style: ValueFormatBoolean
//@subst mut vstyle: ValueFormatBoolean ==> vstyle: ValueFormatBoolean
//@subst mut pstyle: ValueFormatBoolean ==> pstyle: ValueFormatBoolean
//@subst mut mpage: ValueFormatBoolean ==> mpage: ValueFormatBoolean
//@subst mut valid: ValueFormatBoolean ==> valid: ValueFormatBoolean
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "val_boolean"@) + old(self).formats_boolean@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).formats_boolean@.contains_key(r.id@),
        final(self).formats_boolean@.contains_key(r.id@), final(self).formats_boolean@ == old(self).formats_boolean@.insert(r.id@, final(self).formats_boolean@[r.id@]),
        final(self).formats_boolean@[r.id@].name@ == r.id@, same_ValueFormatBoolean(style, final(self).formats_boolean@[r.id@]), only_formats_boolean(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_boolean_format
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).formats_boolean@ == old(self).formats_boolean@.remove(name@), only_formats_boolean(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).formats_boolean@.contains_key(name@) && v == old(self).formats_boolean@[name@], None => !old(self).formats_boolean@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::boolean_format
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.formats_boolean@.contains_key(name@) && *v == self.formats_boolean@[name@], None => !self.formats_boolean@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::boolean_format_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_formats_boolean(*old(self), *final(self)), match r { Some(v) => old(self).formats_boolean@.contains_key(name@) && *v == old(self).formats_boolean@[name@] && final(self).formats_boolean@ == old(self).formats_boolean@.insert(name@, *final(v)), None => !old(self).formats_boolean@.contains_key(name@) && final(self).formats_boolean@ == old(self).formats_boolean@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_number_format
//@params style
//@ret r
//@subst mut style: ValueFormatNumber ==> style: ValueFormatNumber
//@subst mut vstyle: ValueFormatNumber ==> vstyle: ValueFormatNumber
//@subst mut pstyle: ValueFormatNumber ==> pstyle: ValueFormatNumber
//@subst mut mpage: ValueFormatNumber ==> mpage: ValueFormatNumber
//@subst mut valid: ValueFormatNumber ==> valid: ValueFormatNumber
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "val_number"@) + old(self).formats_number@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).formats_number@.contains_key(r.id@),
        final(self).formats_number@.contains_key(r.id@), final(self).formats_number@ == old(self).formats_number@.insert(r.id@, final(self).formats_number@[r.id@]),
        final(self).formats_number@[r.id@].name@ == r.id@, same_ValueFormatNumber(style, final(self).formats_number@[r.id@]), only_formats_number(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_number_format
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).formats_number@ == old(self).formats_number@.remove(name@), only_formats_number(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).formats_number@.contains_key(name@) && v == old(self).formats_number@[name@], None => !old(self).formats_number@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::number_format
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.formats_number@.contains_key(name@) && *v == self.formats_number@[name@], None => !self.formats_number@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::number_format_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_formats_number(*old(self), *final(self)), match r { Some(v) => old(self).formats_number@.contains_key(name@) && *v == old(self).formats_number@[name@] && final(self).formats_number@ == old(self).formats_number@.insert(name@, *final(v)), None => !old(self).formats_number@.contains_key(name@) && final(self).formats_number@ == old(self).formats_number@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_percentage_format
//@params style
//@ret r
//@subst mut style: ValueFormatPercentage ==> style: ValueFormatPercentage
//@subst mut vstyle: ValueFormatPercentage ==> vstyle: ValueFormatPercentage
//@subst mut pstyle: ValueFormatPercentage ==> pstyle: ValueFormatPercentage
//@subst mut mpage: ValueFormatPercentage ==> mpage: ValueFormatPercentage
//@subst mut valid: ValueFormatPercentage ==> valid: ValueFormatPercentage
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "val_percentage"@) + old(self).formats_percentage@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).formats_percentage@.contains_key(r.id@),
        final(self).formats_percentage@.contains_key(r.id@), final(self).formats_percentage@ == old(self).formats_percentage@.insert(r.id@, final(self).formats_percentage@[r.id@]),
        final(self).formats_percentage@[r.id@].name@ == r.id@, same_ValueFormatPercentage(style, final(self).formats_percentage@[r.id@]), only_formats_percentage(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_percentage_format
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).formats_percentage@ == old(self).formats_percentage@.remove(name@), only_formats_percentage(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).formats_percentage@.contains_key(name@) && v == old(self).formats_percentage@[name@], None => !old(self).formats_percentage@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::percentage_format
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.formats_percentage@.contains_key(name@) && *v == self.formats_percentage@[name@], None => !self.formats_percentage@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::percentage_format_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_formats_percentage(*old(self), *final(self)), match r { Some(v) => old(self).formats_percentage@.contains_key(name@) && *v == old(self).formats_percentage@[name@] && final(self).formats_percentage@ == old(self).formats_percentage@.insert(name@, *final(v)), None => !old(self).formats_percentage@.contains_key(name@) && final(self).formats_percentage@ == old(self).formats_percentage@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_currency_format
//@params style
//@ret r
//@subst mut style: ValueFormatCurrency ==> style: ValueFormatCurrency
//@subst mut vstyle: ValueFormatCurrency ==> vstyle: ValueFormatCurrency
//@subst mut pstyle: ValueFormatCurrency ==> pstyle: ValueFormatCurrency
//@subst mut mpage: ValueFormatCurrency ==> mpage: ValueFormatCurrency
//@subst mut valid: ValueFormatCurrency ==> valid: ValueFormatCurrency
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "val_currency"@) + old(self).formats_currency@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).formats_currency@.contains_key(r.id@),
        final(self).formats_currency@.contains_key(r.id@), final(self).formats_currency@ == old(self).formats_currency@.insert(r.id@, final(self).formats_currency@[r.id@]),
        final(self).formats_currency@[r.id@].name@ == r.id@, same_ValueFormatCurrency(style, final(self).formats_currency@[r.id@]), only_formats_currency(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_currency_format
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).formats_currency@ == old(self).formats_currency@.remove(name@), only_formats_currency(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).formats_currency@.contains_key(name@) && v == old(self).formats_currency@[name@], None => !old(self).formats_currency@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::currency_format
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.formats_currency@.contains_key(name@) && *v == self.formats_currency@[name@], None => !self.formats_currency@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::currency_format_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_formats_currency(*old(self), *final(self)), match r { Some(v) => old(self).formats_currency@.contains_key(name@) && *v == old(self).formats_currency@[name@] && final(self).formats_currency@ == old(self).formats_currency@.insert(name@, *final(v)), None => !old(self).formats_currency@.contains_key(name@) && final(self).formats_currency@ == old(self).formats_currency@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_text_format
//@params style
//@ret r
//@subst mut style: ValueFormatText ==> style: ValueFormatText
//@subst mut vstyle: ValueFormatText ==> vstyle: ValueFormatText
//@subst mut pstyle: ValueFormatText ==> pstyle: ValueFormatText
//@subst mut mpage: ValueFormatText ==> mpage: ValueFormatText
//@subst mut valid: ValueFormatText ==> valid: ValueFormatText
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "val_text"@) + old(self).formats_text@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).formats_text@.contains_key(r.id@),
        final(self).formats_text@.contains_key(r.id@), final(self).formats_text@ == old(self).formats_text@.insert(r.id@, final(self).formats_text@[r.id@]),
        final(self).formats_text@[r.id@].name@ == r.id@, same_ValueFormatText(style, final(self).formats_text@[r.id@]), only_formats_text(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_text_format
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).formats_text@ == old(self).formats_text@.remove(name@), only_formats_text(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).formats_text@.contains_key(name@) && v == old(self).formats_text@[name@], None => !old(self).formats_text@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::text_format
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.formats_text@.contains_key(name@) && *v == self.formats_text@[name@], None => !self.formats_text@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::text_format_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_formats_text(*old(self), *final(self)), match r { Some(v) => old(self).formats_text@.contains_key(name@) && *v == old(self).formats_text@[name@] && final(self).formats_text@ == old(self).formats_text@.insert(name@, *final(v)), None => !old(self).formats_text@.contains_key(name@) && final(self).formats_text@ == old(self).formats_text@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_datetime_format
//@params style
//@ret r
//@subst mut style: ValueFormatDateTime ==> style: ValueFormatDateTime
//@subst mut vstyle: ValueFormatDateTime ==> vstyle: ValueFormatDateTime
//@subst mut pstyle: ValueFormatDateTime ==> pstyle: ValueFormatDateTime
//@subst mut mpage: ValueFormatDateTime ==> mpage: ValueFormatDateTime
//@subst mut valid: ValueFormatDateTime ==> valid: ValueFormatDateTime
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "val_datetime"@) + old(self).formats_datetime@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).formats_datetime@.contains_key(r.id@),
        final(self).formats_datetime@.contains_key(r.id@), final(self).formats_datetime@ == old(self).formats_datetime@.insert(r.id@, final(self).formats_datetime@[r.id@]),
        final(self).formats_datetime@[r.id@].name@ == r.id@, same_ValueFormatDateTime(style, final(self).formats_datetime@[r.id@]), only_formats_datetime(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_datetime_format
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).formats_datetime@ == old(self).formats_datetime@.remove(name@), only_formats_datetime(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).formats_datetime@.contains_key(name@) && v == old(self).formats_datetime@[name@], None => !old(self).formats_datetime@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::datetime_format
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.formats_datetime@.contains_key(name@) && *v == self.formats_datetime@[name@], None => !self.formats_datetime@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::datetime_format_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_formats_datetime(*old(self), *final(self)), match r { Some(v) => old(self).formats_datetime@.contains_key(name@) && *v == old(self).formats_datetime@[name@] && final(self).formats_datetime@ == old(self).formats_datetime@.insert(name@, *final(v)), None => !old(self).formats_datetime@.contains_key(name@) && final(self).formats_datetime@ == old(self).formats_datetime@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_timeduration_format
//@params style
//@ret r
//@subst mut style: ValueFormatTimeDuration ==> style: ValueFormatTimeDuration
//@subst mut vstyle: ValueFormatTimeDuration ==> vstyle: ValueFormatTimeDuration
//@subst mut pstyle: ValueFormatTimeDuration ==> pstyle: ValueFormatTimeDuration
//@subst mut mpage: ValueFormatTimeDuration ==> mpage: ValueFormatTimeDuration
//@subst mut valid: ValueFormatTimeDuration ==> valid: ValueFormatTimeDuration
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "val_timeduration"@) + old(self).formats_timeduration@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).formats_timeduration@.contains_key(r.id@),
        final(self).formats_timeduration@.contains_key(r.id@), final(self).formats_timeduration@ == old(self).formats_timeduration@.insert(r.id@, final(self).formats_timeduration@[r.id@]),
        final(self).formats_timeduration@[r.id@].name@ == r.id@, same_ValueFormatTimeDuration(style, final(self).formats_timeduration@[r.id@]), only_formats_timeduration(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_timeduration_format
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).formats_timeduration@ == old(self).formats_timeduration@.remove(name@), only_formats_timeduration(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).formats_timeduration@.contains_key(name@) && v == old(self).formats_timeduration@[name@], None => !old(self).formats_timeduration@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::timeduration_format
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.formats_timeduration@.contains_key(name@) && *v == self.formats_timeduration@[name@], None => !self.formats_timeduration@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::timeduration_format_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_formats_timeduration(*old(self), *final(self)), match r { Some(v) => old(self).formats_timeduration@.contains_key(name@) && *v == old(self).formats_timeduration@[name@] && final(self).formats_timeduration@ == old(self).formats_timeduration@.insert(name@, *final(v)), None => !old(self).formats_timeduration@.contains_key(name@) && final(self).formats_timeduration@ == old(self).formats_timeduration@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_pagestyle
//@params style
//@ret r
//@subst mut style: PageStyle ==> style: PageStyle
//@subst mut vstyle: PageStyle ==> vstyle: PageStyle
//@subst mut pstyle: PageStyle ==> pstyle: PageStyle
//@subst mut mpage: PageStyle ==> mpage: PageStyle
//@subst mut valid: PageStyle ==> valid: PageStyle
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "page"@) + old(self).pagestyles@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).pagestyles@.contains_key(r.id@),
        final(self).pagestyles@.contains_key(r.id@), final(self).pagestyles@ == old(self).pagestyles@.insert(r.id@, final(self).pagestyles@[r.id@]),
        final(self).pagestyles@[r.id@].name@ == r.id@, same_PageStyle(style, final(self).pagestyles@[r.id@]), only_pagestyles(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_pagestyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).pagestyles@ == old(self).pagestyles@.remove(name@), only_pagestyles(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).pagestyles@.contains_key(name@) && v == old(self).pagestyles@[name@], None => !old(self).pagestyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::pagestyle
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.pagestyles@.contains_key(name@) && *v == self.pagestyles@[name@], None => !self.pagestyles@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::pagestyle_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_pagestyles(*old(self), *final(self)), match r { Some(v) => old(self).pagestyles@.contains_key(name@) && *v == old(self).pagestyles@[name@] && final(self).pagestyles@ == old(self).pagestyles@.insert(name@, *final(v)), None => !old(self).pagestyles@.contains_key(name@) && final(self).pagestyles@ == old(self).pagestyles@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_masterpage
//@params style
//@ret r
//@subst mut style: MasterPage ==> style: MasterPage
//@subst mut vstyle: MasterPage ==> vstyle: MasterPage
//@subst mut pstyle: MasterPage ==> pstyle: MasterPage
//@subst mut mpage: MasterPage ==> mpage: MasterPage
//@subst mut valid: MasterPage ==> valid: MasterPage
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "mp"@) + old(self).masterpages@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).masterpages@.contains_key(r.id@),
        final(self).masterpages@.contains_key(r.id@), final(self).masterpages@ == old(self).masterpages@.insert(r.id@, final(self).masterpages@[r.id@]),
        final(self).masterpages@[r.id@].name@ == r.id@, same_MasterPage(style, final(self).masterpages@[r.id@]), only_masterpages(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_masterpage
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).masterpages@ == old(self).masterpages@.remove(name@), only_masterpages(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).masterpages@.contains_key(name@) && v == old(self).masterpages@[name@], None => !old(self).masterpages@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::masterpage
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.masterpages@.contains_key(name@) && *v == self.masterpages@[name@], None => !self.masterpages@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::masterpage_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_masterpages(*old(self), *final(self)), match r { Some(v) => old(self).masterpages@.contains_key(name@) && *v == old(self).masterpages@[name@] && final(self).masterpages@ == old(self).masterpages@.insert(name@, *final(v)), None => !old(self).masterpages@.contains_key(name@) && final(self).masterpages@ == old(self).masterpages@ },
//@end
//@fn file=src/workbook_.rs path=WorkBook::add_validation
//@params style
//@ret r
//@subst mut style: Validation ==> style: Validation
//@subst mut vstyle: Validation ==> vstyle: Validation
//@subst mut pstyle: Validation ==> pstyle: Validation
//@subst mut mpage: Validation ==> mpage: Validation
//@subst mut valid: Validation ==> valid: Validation
//@subst if style.name().is_empty() ==> let mut style = style; if vp_is_empty(style.name())
//@subst if vstyle.name().is_empty() ==> let mut vstyle = vstyle; if vp_is_empty(vstyle.name())
//@subst if pstyle.name().is_empty() ==> let mut pstyle = pstyle; if vp_is_empty(pstyle.name())
//@subst if mpage.name().is_empty() ==> let mut mpage = mpage; if vp_is_empty(mpage.name())
//@subst if valid.name().is_empty() ==> let mut valid = valid; if vp_is_empty(valid.name())
//@subst vstyle.name().to_string() ==> vp_clone(vstyle.name())
//@spec
    requires start_num(old(self).autonum@, "val"@) + old(self).validations@.dom().len() < u32::MAX,
    ensures r.id@.len() > 0, style.name@.len() > 0 ==> r.id@ == style.name@, style.name@.len() == 0 ==> !old(self).validations@.contains_key(r.id@),
        final(self).validations@.contains_key(r.id@), final(self).validations@ == old(self).validations@.insert(r.id@, final(self).validations@[r.id@]),
        final(self).validations@[r.id@].name@ == r.id@, same_Validation(style, final(self).validations@[r.id@]), only_validations(*old(self), *final(self)),
//@end
//@fn file=src/workbook_.rs path=WorkBook::remove_validation
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures final(self).validations@ == old(self).validations@.remove(name@), only_validations(*old(self), *final(self)), final(self).autonum == old(self).autonum, match r { Some(v) => old(self).validations@.contains_key(name@) && v == old(self).validations@[name@], None => !old(self).validations@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::validation
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures match r { Some(v) => self.validations@.contains_key(name@) && *v == self.validations@[name@], None => !self.validations@.contains_key(name@) },
//@end
//@fn file=src/workbook_.rs path=WorkBook::validation_mut
//@params name
//@ret r
//@subst <S: AsRef<str>> ==>
//@subst name: S ==> name: &str
//@subst name.as_ref() ==> name
//@spec
    ensures only_validations(*old(self), *final(self)), match r { Some(v) => old(self).validations@.contains_key(name@) && *v == old(self).validations@[name@] && final(self).validations@ == old(self).validations@.insert(name@, *final(v)), None => !old(self).validations@.contains_key(name@) && final(self).validations@ == old(self).validations@ },
//@end
}

// ------------------------------------------------------------------ theorems
/// detaching a sheet, changing it and attaching it again changes exactly this sheet.
fn thm_detach_attach(b: &mut WorkBook, n: usize) requires here(*old(b), n as int) ensures final(b).sheets@.len() == old(b).sheets@.len(), forall|k: int| 0 <= k < old(b).sheets@.len() ==> dval(#[trigger] final(b).sheets@[k]) == dval(old(b).sheets@[k]), only_sheets(*old(b), *final(b)) {
    let d = b.detach_sheet(n);
    b.attach_sheet(d);
}
/// an unnamed style never replaces another one, and is found under the returned reference.
fn thm_fresh(b: &mut WorkBook, s: CellStyle, other: &str)
    requires s.name@.len() == 0, start_num(old(b).autonum@, "ce"@) + old(b).cellstyles@.dom().len() < u32::MAX,
    ensures forall|k: Seq<char>| old(b).cellstyles@.contains_key(k) ==> final(b).cellstyles@.contains_key(k) && #[trigger] final(b).cellstyles@[k] == old(b).cellstyles@[k],
{
    let r = b.add_cellstyle(s);
    let g = b.cellstyle(r.as_str());
    assert(g.is_some());
}
fn main() {}
}
