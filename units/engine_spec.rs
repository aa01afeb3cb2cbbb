// ---------------------------------------------------------------- loading a dictionary file (unit dictload)
// the text of a file gives this dictionary
pub uninterp spec fn dict_loads(path: Seq<char>) -> bool;
pub uninterp spec fn dict_from(path: Seq<char>, d: DataDictionary) -> bool;
impl DataDictionary {
    #[verifier::external_body]
    pub fn from_xml<P: VInto>(p: P, Ghost(v_may): Ghost<bool>) -> (r: DataDictionary)
        requires !dict_loads(p.txt()) ==> v_may
        ensures dict_loads(p.txt()), dict_from(p.txt(), r), dwf(r)
    { unimplemented!() }
}
// ---------------------------------------------------------------- reading a connection type (verified in unit types)
#[verifier::external]
impl FromStr for ConnectionType { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { unimplemented!() } }
pub axiom fn ax_conn()
    ensures parse_ok::<ConnectionType>("acceptor"@), parse_ok::<ConnectionType>("initiator"@);
// ---------------------------------------------------------------- the settings a session runs with: t are the section's, d the defaults
pub open spec fn parses<F>(o: Option<Seq<char>>) -> bool { o is Some ==> parse_ok::<F>(o->0) }
pub open spec fn given<F>(o: Option<Seq<char>>, x: F) -> F { match o { Some(t) => parse_val::<F>(t), None => x } }
pub open spec fn dict_path(t: SMap, d: SMap) -> Seq<char> { match either(t, d, "data_dictionary"@) { Some(p) => p, None => "resources/FIX43.xml"@ } }
pub open spec fn settings_ok(t: SMap, d: SMap) -> bool {
    &&& parses::<u32>(either(t, d, "heartbeat_interval"@)) && parses::<bool>(either(t, d, "reset_on_logon"@))
    &&& parses::<bool>(either(t, d, "reset_on_logout"@)) && parses::<bool>(either(t, d, "reset_on_disconnect"@))
    &&& dict_loads(dict_path(t, d))
}
pub open spec fn session_is(s: Session, i: SessionId, t: SMap, d: SMap) -> bool {
    &&& s.session_id == i
    &&& s.heartbeat_intrvl == given::<u32>(either(t, d, "heartbeat_interval"@), 30)
    &&& s.reset_on_logon == given::<bool>(either(t, d, "reset_on_logon"@), true)
    &&& s.reset_on_logout == given::<bool>(either(t, d, "reset_on_logout"@), true)
    &&& s.reset_on_disconnect == given::<bool>(either(t, d, "reset_on_disconnect"@), true)
    &&& dict_from(dict_path(t, d), *s.data_dictionary) && dwf(*s.data_dictionary)
    &&& !s.is_active && s.msg_q@ == Seq::<Message>::empty() && s.responder is None
}
pub open spec fn is_session(p: Properties, i: SessionId) -> bool { p.session_settings@.contains_key(i) && i != p.default_session_id }
pub open spec fn all_settings_ok(p: Properties) -> bool { forall|i: SessionId| #[trigger] is_session(p, i) ==> settings_ok(sect(p, i), dflt(p)) }
// one session per configured section, under its identity
pub open spec fn sessions_are(m: Map<SessionId, Session>, p: Properties) -> bool {
    forall|i: SessionId| #![trigger m.contains_key(i)] m.contains_key(i) == is_session(p, i) && (m.contains_key(i) ==> session_is(m[i], i, sect(p, i), dflt(p)))
}
// ---------------------------------------------------------------- dashmap, Arc: a shared map of sessions
#[verifier::external_body]
pub struct VDash { p: u64 }
impl View for VDash { type V = Map<SessionId, Session>; uninterp spec fn view(&self) -> Map<SessionId, Session>; }
pub trait VEntries: Sized { spec fn ents(&self) -> Map<SessionId, Session>; }
impl VEntries for HashMap<SessionId, Session> { open spec fn ents(&self) -> Map<SessionId, Session> { self@ } }
impl VDash {
    #[verifier::external_body]
    pub fn from_iter<I: VEntries>(it: I) -> (r: VDash) ensures r@ == it.ents() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &SessionId) -> (r: Option<&'a Session>) ensures match r { Some(s) => self@.contains_key(*k) && *s == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
}
impl View for SessionMap { type V = Map<SessionId, Session>; open spec fn view(&self) -> Map<SessionId, Session> { self.id_to_session@ } }
// the dictionaries of all sessions were loaded
pub open spec fn engine_wf(m: SessionMap) -> bool { forall|i: SessionId| #[trigger] m@.contains_key(i) ==> dwf(*m@[i].data_dictionary) }
// ---------------------------------------------------------------- what the engine does: the calls the application gets
pub ghost struct VCall { pub sid: SessionId, pub msg: Message }
pub tracked struct VTrace { pub ghost calls: Seq<VCall>, pub ghost sent: Seq<VSent> }
// a text put on the queue of a connection
pub ghost struct VSent { pub to: VBcast, pub text: Seq<char> }
pub trait Application: Sized {
    // it returns
    fn from_app(&self, session_id: &SessionId, sessions: &SessionMap, msg: Message, Tracked(v_tr): Tracked<&mut VTrace>)
        ensures final(v_tr).calls == old(v_tr).calls.push(VCall { sid: *session_id, msg });
}
#[derive(Debug)]
pub struct VSendErr;
// the sending end of a connection; sending fails when no connection listens
#[verifier::external_body]
pub struct VBcast { p: u64 }
impl Clone for VBcast {
    #[verifier::external_body]
    fn clone(&self) -> (r: VBcast) ensures r == *self { unimplemented!() }
}
impl VBcast {
    #[verifier::external_body]
    pub fn send(&self, t: String, Tracked(v_tr): Tracked<&mut VTrace>) -> (r: Result<usize, VSendErr>)
        ensures final(v_tr).calls == old(v_tr).calls, final(v_tr).sent == old(v_tr).sent.push(VSent { to: *self, text: t@ })
    { unimplemented!() }
}
// the queue of inbound texts; rest: those still to come until it is closed
#[verifier::external_body]
pub struct VReceiver { p: u64 }
impl VReceiver {
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn blocking_recv(&mut self) -> (r: Option<String>)
        ensures match r {
            Some(t) => old(self).rest().len() > 0 && t@ == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        }
    { unimplemented!() }
}
// the reversed identity of a text
pub open spec fn rid(t: Seq<char>) -> SessionId {
    sid_mk(raw_value(t, "8"@), raw_value(t, "56"@), topt(raw_value(t, "57"@)), topt(raw_value(t, "143"@)), raw_value(t, "49"@), topt(raw_value(t, "50"@)), topt(raw_value(t, "142"@)))
}
pub ghost struct Due { pub sid: SessionId, pub tree: Tree, pub dd: DataDictionary }
// what the application has to get for a text: nothing, unless its reversed identity is configured and that session's dictionary accepts it
pub open spec fn due_one(t: Seq<char>, m: Map<SessionId, Session>) -> Option<Due> {
    if m.contains_key(rid(t)) {
        let dd = *m[rid(t)].data_dictionary;
        match p_text(dd, t) { Ok(tree) => Some(Due { sid: rid(t), tree, dd }), Err(_) => None }
    } else { None }
}
pub open spec fn due(v: Seq<Seq<char>>, m: Map<SessionId, Session>) -> Seq<Due> decreases v.len() {
    if v.len() == 0 { seq![] } else {
        match due_one(v.last(), m) { Some(d) => due(v.drop_last(), m).push(d), None => due(v.drop_last(), m) }
    }
}
pub open spec fn call_is(c: VCall, d: Due) -> bool { c.sid == d.sid && mholds(c.msg, d.tree, d.dd) }
// exactly these calls, once each, in this order
pub open spec fn delivered(calls: Seq<VCall>, v: Seq<Seq<char>>, m: Map<SessionId, Session>) -> bool {
    &&& calls.len() == due(v, m).len()
    &&& forall|i: int| 0 <= i < calls.len() ==> call_is(#[trigger] calls[i], due(v, m)[i])
}
// one more text: the same calls, or one more
pub proof fn lem_due_step(calls: Seq<VCall>, n: int, all: Seq<Seq<char>>, i: int, m: Map<SessionId, Session>)
    requires 0 <= i < all.len(), 0 <= n <= calls.len(), delivered(calls.skip(n), all.take(i), m)
    ensures due_one(all[i], m) is None ==> delivered(calls.skip(n), all.take(i + 1), m),
        due_one(all[i], m) is Some ==> (forall|c: VCall| call_is(c, due_one(all[i], m)->0) ==> #[trigger] delivered(calls.push(c).skip(n), all.take(i + 1), m) && calls.push(c).take(n) == calls.take(n)),
{
    assert(all.take(i + 1).drop_last() =~= all.take(i));
    assert(all.take(i + 1).last() == all[i]);
    if due_one(all[i], m) is Some {
        let d = due_one(all[i], m)->0;
        assert forall|c: VCall| call_is(c, d) implies #[trigger] delivered(calls.push(c).skip(n), all.take(i + 1), m) && calls.push(c).take(n) == calls.take(n) by {
            assert(calls.push(c).skip(n) =~= calls.skip(n).push(c));
            assert(calls.push(c).take(n) =~= calls.take(n));
        }
    }
}

// the serialised message goes to the session's connection, once; nothing without one
pub open spec fn sent_once(a: Seq<VSent>, b: Seq<VSent>, i: SessionId, m: Map<SessionId, Session>, msg: Message) -> bool {
    if m.contains_key(i) && m[i].responder is Some {
        b.len() == a.len() + 1 && b.take(a.len() as int) == a && b.last().to == m[i].responder->0 && msg.shows(b.last().text)
    } else { b == a }
}
