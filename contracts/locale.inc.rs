// locales: opaque language, region and script tags
#[verifier::external_body] struct Language {}
#[verifier::external_body] struct Region {}
#[verifier::external_body] struct Script {}
impl Shown for Language { uninterp spec fn shown(&self) -> Seq<char>; }
impl Shown for Region { uninterp spec fn shown(&self) -> Seq<char>; }
impl Shown for Script { uninterp spec fn shown(&self) -> Seq<char>; }
struct LangId { language: Language, region: Option<Region>, script: Option<Script> }
struct Locale { id: LangId }
impl Locale {
    uninterp spec fn sknown(&self) -> bool;
    #[verifier::external_body] fn known(&self) -> (r: bool) ensures r == self.sknown() { unimplemented!() }
}
spec fn set_opt<T: Shown>(m: IMap<Seq<char>, Seq<char>>, k: Seq<char>, v: Option<T>) -> IMap<Seq<char>, Seq<char>> { match v { Some(x) => m.insert(k, x.shown()), None => m.remove(k) } }
spec fn sp_locale(m: IMap<Seq<char>, Seq<char>>, l: Locale, kl: Seq<char>, kr: Seq<char>, ks: Seq<char>) -> IMap<Seq<char>, Seq<char>> {
    if l.sknown() { set_opt(set_opt(m.insert(kl, l.id.language.shown()), kr, l.id.region), ks, l.id.script) } else { m.remove(kl).remove(kr).remove(ks) }
}
spec fn sp_locale2(m: IMap<Seq<char>, Seq<char>>, l: Locale, kl: Seq<char>, kr: Seq<char>) -> IMap<Seq<char>, Seq<char>> {
    if l.sknown() { set_opt(m.insert(kl, l.id.language.shown()), kr, l.id.region) } else { m.remove(kl).remove(kr) }
}
