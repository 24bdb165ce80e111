// trusted: a hash map keyed by text is a map from that text; it walks its values in an order of its own, each once.
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
struct HashMap<K, V> { k: std::marker::PhantomData<K>, v: std::marker::PhantomData<V> }
uninterp spec fn order<K, V>(m: HashMap<K, V>) -> Seq<Seq<char>>;
spec fn vals<K, V>(m: HashMap<K, V>) -> Seq<V> { Seq::new(order(m).len(), |i: int| m@[order(m)[i]]) }
impl<K, V> HashMap<K, V> {
    uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r == (vals(*self).len() == 0) { unimplemented!() }
    #[verifier::external_body] fn get(&self, k: &str) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
    #[verifier::external_body] fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: String, v: V) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body] fn vp_vals(&self) -> (r: Vec<&V>) ensures r@.len() == vals(*self).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == vals(*self)[i], order(*self).no_duplicates(), order(*self).to_set() == self@.dom() { unimplemented!() }
}
//@gsubst for $idx in $m.values() { $body } ==> let vp_vs = $m.vp_vals(); for vp_x in vp_vs.iter() { let $idx = *vp_x; $body }
//@gsubst for $idx in $m.values().filter(|$idp| $cond) { $body } ==> let vp_vs = $m.vp_vals(); for vp_x in vp_vs.iter() { let $idx = *vp_x; let $idp = &$idx; if $cond { $body } }
