// an identity as a key: derive(PartialEq, Eq) compares all parts, Hash feeds the text (unit session_id)
pub broadcast axiom fn ax_sid_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<SessionId>();
#[verifier::external]
impl PartialEq for SessionId { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external]
impl Eq for SessionId {}
#[verifier::external]
impl std::hash::Hash for SessionId { fn hash<H: std::hash::Hasher>(&self, s: &mut H) { unimplemented!() } }
impl SessionId {
    #[verifier::external_body]
    pub fn v_eq(&self, o: &SessionId) -> (r: bool) ensures r == (*self == *o) { unimplemented!() }
}
pub type SMap = Map<String, String>;
// the identity with these parts
pub open spec fn omk(o: Option<Seq<char>>) -> Option<String> { match o { Some(s) => Some(mk(s)), None => None } }
pub open spec fn sid_mk(begin: Seq<char>, sender: Seq<char>, ssub: Option<Seq<char>>, sloc: Option<Seq<char>>, target: Seq<char>, tsub: Option<Seq<char>>, tloc: Option<Seq<char>>) -> SessionId {
    let s = SessionId { begin_string: mk(begin), sender_compid: mk(sender), sender_subid: omk(ssub), sender_locationid: omk(sloc),
        target_compid: mk(target), target_subid: omk(tsub), target_locationid: omk(tloc), session_qualifier: None, id: mk(seq![]) };
    SessionId { id: mk(id_text(s)), ..s }
}
pub open spec fn sid_default() -> SessionId { sid_mk("DEFAULT"@, ""@, None, None, ""@, None, None) }
// the identity of a section with settings m under the defaults d
pub open spec fn sid_of(m: SMap, d: SMap) -> SessionId {
    sid_mk(either(m, d, "begin_string"@)->0, either(m, d, "sender_comp_id"@)->0, eopt(m, d, "sender_sub_id"@), eopt(m, d, "sender_location_id"@),
        either(m, d, "target_comp_id"@)->0, eopt(m, d, "target_sub_id"@), eopt(m, d, "target_location_id"@))
}
// ---------------------------------------------------------------- reading a configuration text
pub open spec fn opens(l: Seq<char>) -> bool { trim(l).len() > 0 && trim(l)[0] == '[' }
pub open spec fn is_head(l: Seq<char>) -> bool { opens(l) && trim(l).last() == ']' }
// without blanks and surrounding quotes
pub open spec fn bare(s: Seq<char>) -> Seq<char> { rtrim(ltrim(trim(s), p_is('"')), p_is('"')) }
// how many lines a section has: up to the next line that opens with [
pub open spec fn tlen(ls: Seq<Seq<char>>) -> int decreases ls.len() { if ls.len() == 0 || opens(ls[0]) { 0 } else { 1 + tlen(ls.drop_first()) } }
// the settings the lines of a section give: blank lines count for nothing, a later key replaces an earlier one; None: a line without =
pub open spec fn table(ls: Seq<Seq<char>>) -> Option<SMap> decreases ls.len() {
    if ls.len() == 0 { Some(Map::empty()) } else {
        match table(ls.drop_last()) {
            None => None,
            Some(m) => {
                let l = trim(ls.last());
                if l.len() == 0 { Some(m) } else if find(l, '=') >= l.len() { None }
                else { Some(m.insert(mk(bare(l.subrange(0, find(l, '=') as int))), mk(bare(l.subrange(find(l, '=') as int + 1, l.len() as int))))) }
            },
        }
    }
}
pub struct Cfg { pub def: Option<SMap>, pub all: Map<SessionId, SMap> }
pub open spec fn cfg0() -> Cfg { Cfg { def: None, all: Map::empty() } }
// one section with head line h and settings t is added to c; None: it may not be there
pub open spec fn section(c: Cfg, h: Seq<char>, t: SMap) -> Option<Cfg> {
    if has_text(trim(h), "Default"@) {
        if c.def is Some { None } else { Some(Cfg { def: Some(t), all: c.all.insert(sid_default(), t) }) }
    } else {
        match c.def {
            None => None,
            Some(d) => if !ids_given(t, d) || c.all.contains_key(sid_of(t, d)) { None } else { Some(Cfg { def: c.def, all: c.all.insert(sid_of(t, d), t) }) },
        }
    }
}
pub open spec fn run(ls: Seq<Seq<char>>, c: Cfg) -> Option<Cfg> decreases ls.len() via run_dec {
    if ls.len() == 0 { Some(c) } else if !is_head(ls[0]) { run(ls.drop_first(), c) } else {
        let rest = ls.drop_first();
        match table(rest.take(tlen(rest))) {
            None => None,
            Some(t) => match section(c, ls[0], t) { None => None, Some(c2) => run(rest.skip(tlen(rest)), c2) },
        }
    }
}
#[via_fn]
proof fn run_dec(ls: Seq<Seq<char>>, c: Cfg) { if ls.len() > 0 { lem_tlen(ls.drop_first()); } }
pub proof fn lem_tlen(ls: Seq<Seq<char>>) ensures 0 <= tlen(ls) <= ls.len() decreases ls.len() { if ls.len() > 0 && !opens(ls[0]) { lem_tlen(ls.drop_first()); } }
// what a session needs, after defaults
pub open spec fn port_ok(o: Option<Seq<char>>) -> bool { o is Some && parse_ok::<u16>(o->0) }
pub open spec fn session_ok(t: SMap, d: SMap, acceptor: bool) -> bool {
    &&& acceptor ==> port_ok(either(t, d, "socket_accept_port"@))
    &&& !acceptor ==> either(t, d, "socket_connect_host"@) is Some && port_ok(either(t, d, "socket_connect_port"@))
    &&& ({ let b = either(t, d, "begin_string"@); b is Some && (b->0 == "FIX.4.2"@ || b->0 == "FIX.4.3"@ || b->0 == "FIX.4.4"@) })
    &&& either(t, d, "sender_comp_id"@) is Some && either(t, d, "target_comp_id"@) is Some
}
pub open spec fn cfg_ok(c: Cfg) -> bool {
    &&& c.def is Some
    &&& ({ let k = own(c.def->0, "connection_type"@); k is Some && (k->0 == "acceptor"@ || k->0 == "initiator"@) })
    &&& forall|i: SessionId| #[trigger] c.all.contains_key(i) && i != sid_default() ==> session_ok(c.all[i], c.def->0, own(c.def->0, "connection_type"@) == Some("acceptor"@))
}
// a text that is a configuration
pub open spec fn cfg_text(s: Seq<char>) -> bool { match run(xlines(s), cfg0()) { Some(c) => cfg_ok(c), None => false } }
// ---------------------------------------------------------------- the loaded settings
pub open spec fn sect(p: Properties, i: SessionId) -> SMap { if p.session_settings@.contains_key(i) { p.session_settings@[i]@ } else { Map::empty() } }
pub open spec fn dflt(p: Properties) -> SMap { sect(p, p.default_session_id) }
pub open spec fn maps(m: Map<SessionId, HashMap<String, String>>) -> Map<SessionId, SMap> { m.map_values(|h: HashMap<String, String>| h@) }
// a setting read as F: the standard parse of exactly that text, or the report that it does not parse or is not there
pub open spec fn reads<F>(r: Result<F, ConfigErr>, o: Option<Seq<char>>, name: Seq<char>) -> bool {
    match o {
        Some(t) => if parse_ok::<F>(t) { r == Ok::<F, ConfigErr>(parse_val::<F>(t)) } else { r is Err && r->Err_0 is ParseError },
        None => r is Err && r->Err_0 is NotFound && r->Err_0->NotFound_0@ == name,
    }
}
pub trait VKeys<K> {
    spec fn kset(&self) -> Set<K>;
    // the keys, in some order
    fn v_keys<'a>(&'a self) -> (r: Vec<&'a K>) ensures lists(r@, self.kset());
}
impl<K, V> VKeys<K> for HashMap<K, V> {
    open spec fn kset(&self) -> Set<K> { self@.dom() }
    #[verifier::external_body]
    fn v_keys<'a>(&'a self) -> (r: Vec<&'a K>) { unimplemented!() }
}
// r lists exactly the elements of s, each once
pub open spec fn lists<K>(r: Seq<&K>, s: Set<K>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> s.contains(*#[trigger] r[i])
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> *#[trigger] r[i] != *#[trigger] r[j]
    &&& forall|k: K| #[trigger] s.contains(k) ==> exists|i: int| 0 <= i < r.len() && *#[trigger] r[i] == k
}
pub open spec fn pcfg(p: Properties) -> Cfg {
    Cfg { def: if p.session_settings@.contains_key(p.default_session_id) { Some(dflt(p)) } else { None }, all: maps(p.session_settings@) }
}
pub open spec fn gcfg(found: bool, m: Map<SessionId, HashMap<String, String>>) -> Cfg {
    Cfg { def: if found { Some(m[sid_default()]@) } else { None }, all: maps(m) }
}
// the number of sections of a text
pub open spec fn nsec(ls: Seq<Seq<char>>) -> nat decreases ls.len() via nsec_dec {
    if ls.len() == 0 { 0 } else if !is_head(ls[0]) { nsec(ls.drop_first()) } else { 1 + nsec(ls.drop_first().skip(tlen(ls.drop_first()))) }
}
#[via_fn]
proof fn nsec_dec(ls: Seq<Seq<char>>) { if ls.len() > 0 { lem_tlen(ls.drop_first()); } }
