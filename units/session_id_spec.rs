#[derive(Debug)]
pub struct SessionIdBuilderError;
// BEGIN:SENDER[/SUB][/LOCATION]->TARGET[/SUB][/LOCATION]
pub open spec fn part(o: Option<String>) -> Seq<char> {
    match o { Some(s) => seq!['/'] + s@, None => seq![] }
}
pub open spec fn id_text(s: SessionId) -> Seq<char> {
    s.begin_string@ + seq![':'] + s.sender_compid@ + part(s.sender_subid) + part(s.sender_locationid) + seq!['-', '>']
        + s.target_compid@ + part(s.target_subid) + part(s.target_locationid)
}
// every identity that exists satisfies this: its text is the one of its parts (SessionIdBuilder::build is the only
// constructor, all fields are private)
pub open spec fn sid_wf(s: SessionId) -> bool { s.id@ == id_text(s) }
pub open spec fn otxt(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn sid_is(s: SessionId, begin: Seq<char>, sender: Seq<char>, ssub: Option<Seq<char>>, sloc: Option<Seq<char>>,
    target: Seq<char>, tsub: Option<Seq<char>>, tloc: Option<Seq<char>>) -> bool {
    s.begin_string@ == begin && s.sender_compid@ == sender && otxt(s.sender_subid) == ssub && otxt(s.sender_locationid) == sloc
    && s.target_compid@ == target && otxt(s.target_subid) == tsub && otxt(s.target_locationid) == tloc
}
// an empty optional id counts as absent
pub open spec fn topt(t: Seq<char>) -> Option<Seq<char>> { if t.len() == 0 { None } else { Some(t) } }
pub open spec fn flat(o: Option<Option<String>>) -> Option<String> { match o { Some(x) => x, None => None } }
pub open spec fn bopt(o: Option<Option<String>>) -> Option<Seq<char>> {
    match flat(o) { Some(s) => topt(s@), None => None }
}
// value of a setting: the section's own, else the default
pub open spec fn own(m: Map<String, String>, k: Seq<char>) -> Option<Seq<char>> { if m.contains_key(mk(k)) { Some(m[mk(k)]@) } else { None } }
pub open spec fn either(m: Map<String, String>, d: Map<String, String>, k: Seq<char>) -> Option<Seq<char>> {
    if own(m, k) is Some { own(m, k) } else { own(d, k) }
}
pub open spec fn eopt(m: Map<String, String>, d: Map<String, String>, k: Seq<char>) -> Option<Seq<char>> {
    match either(m, d, k) { Some(t) => topt(t), None => None }
}
// a section has the three parts an identity needs
pub open spec fn ids_given(m: Map<String, String>, d: Map<String, String>) -> bool {
    either(m, d, "begin_string"@) is Some && either(m, d, "sender_comp_id"@) is Some && either(m, d, "target_comp_id"@) is Some
}
pub open spec fn from_map_spec(r: SessionId, m: Map<String, String>, d: Map<String, String>) -> bool {
    sid_wf(r) && r.session_qualifier is None
    && sid_is(r, either(m, d, "begin_string"@)->0, either(m, d, "sender_comp_id"@)->0, eopt(m, d, "sender_sub_id"@), eopt(m, d, "sender_location_id"@),
        either(m, d, "target_comp_id"@)->0, eopt(m, d, "target_sub_id"@), eopt(m, d, "target_location_id"@))
}
// derive(PartialEq, Eq) compares every field, so that equal identities are the same value; the text and the hash are
// functions of the parts: equal identities hash alike, and an identity is determined by its parts
pub proof fn equal_parts_equal_identity(a: SessionId, b: SessionId)
    requires sid_wf(a), sid_wf(b), a.begin_string == b.begin_string, a.sender_compid == b.sender_compid, a.sender_subid == b.sender_subid,
        a.sender_locationid == b.sender_locationid, a.target_compid == b.target_compid, a.target_subid == b.target_subid,
        a.target_locationid == b.target_locationid, a.session_qualifier == b.session_qualifier,
    ensures a == b
{ assert(a.id@ == b.id@); assert(mk(a.id@) == mk(b.id@)); }
// hashing
pub uninterp spec fn hash_str<H>(st: H, s: Seq<char>) -> H;
pub mod hash { pub use std::hash::Hasher; }
#[verifier::external_trait_specification]
pub trait ExHasher { type ExternalTraitSpecificationFor: std::hash::Hasher; }
pub trait VHash {
    spec fn hashed(&self) -> Seq<char>;
    fn v_hash<H: hash::Hasher>(&self, state: &mut H) ensures *final(state) == hash_str::<H>(*old(state), self.hashed());
}
impl VHash for String {
    open spec fn hashed(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_hash<H: hash::Hasher>(&self, state: &mut H) { unimplemented!() }
}
// reading one field of a raw text
pub open spec fn piece_tag(p: Seq<char>) -> Seq<char> { p.subrange(0, find(p, '=') as int) }
pub open spec fn piece_value(p: Seq<char>) -> Seq<char> { p.subrange(find(p, '=') as int + 1, p.len() as int) }
pub open spec fn value_from(ps: Seq<Seq<char>>, i: int, tag: Seq<char>) -> Seq<char> decreases ps.len() - i {
    if i < 0 || i >= ps.len() { seq![] }
    else if find(ps[i], '=') < ps[i].len() && piece_tag(ps[i]) == tag { piece_value(ps[i]) }
    else { value_from(ps, i + 1, tag) }
}
// the value of the first whole field with that tag, empty if there is none
pub open spec fn raw_value(s: Seq<char>, tag: Seq<char>) -> Seq<char> { value_from(pieces(s, '\u{1}'), 0, tag) }
