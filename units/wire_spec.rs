// ---------------------------------------------------------------- what is only passed on here
#[verifier::external_body]
pub struct Message { p: u64 }
#[verifier::external_body]
pub struct DataDictionary { p: u64 }
#[verifier::external_body]
pub struct SessionState { p: u64 }
pub trait Application: Sized {}
// ---------------------------------------------------------------- socket addresses
#[verifier::external_body]
pub struct SocketAddr { p: u64 }
impl Clone for SocketAddr {
    #[verifier::external_body]
    fn clone(&self) -> (r: SocketAddr) ensures r == *self { unimplemented!() }
}
impl Copy for SocketAddr {}
#[verifier::external]
impl PartialEq for SocketAddr { fn eq(&self, o: &SocketAddr) -> bool { unimplemented!() } }
#[verifier::external]
impl Eq for SocketAddr {}
#[verifier::external]
impl std::hash::Hash for SocketAddr { fn hash<H: std::hash::Hasher>(&self, s: &mut H) { unimplemented!() } }
#[verifier::external]
impl FromStr for SocketAddr { type Err = VAddrErr; fn from_str(s: &str) -> Result<Self, VAddrErr> { unimplemented!() } }
#[derive(Debug)]
pub struct VAddrErr;
// std reads 127.0.0.1:<port>
pub open spec fn addr_text(p: u16) -> Seq<char> { "127.0.0.1"@ + seq![':'] + dec(p as nat) }
pub open spec fn addr_of(p: u16) -> SocketAddr { parse_val::<SocketAddr>(addr_text(p)) }
pub axiom fn ax_addr(p: u16)
    ensures parse_ok::<SocketAddr>(addr_text(p));
pub broadcast axiom fn ax_addr_key()
    ensures #[trigger] obeys_key_model::<SocketAddr>();
// SocketDescriptor as a key: only insertions, nothing is said about them
#[verifier::external]
impl PartialEq for SocketDescriptor { fn eq(&self, o: &SocketDescriptor) -> bool { unimplemented!() } }
#[verifier::external]
impl Eq for SocketDescriptor {}
#[verifier::external]
impl std::hash::Hash for SocketDescriptor { fn hash<H: std::hash::Hasher>(&self, s: &mut H) { unimplemented!() } }
// ---------------------------------------------------------------- queues
#[verifier::external_body]
pub struct VSender { p: u64 }
impl VSender { pub uninterp spec fn chan(&self) -> int; }
impl Clone for VSender {
    #[verifier::external_body]
    fn clone(&self) -> (r: VSender) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct VReceiver { p: u64 }
impl VReceiver { pub uninterp spec fn chan(&self) -> int; }
// a queue without room panics
#[verifier::external_body]
pub fn v_channel(n: usize) -> (r: (VSender, VReceiver)) requires n > 0 ensures r.0.chan() == r.1.chan() { unimplemented!() }
#[verifier::external_body]
pub struct VBcast { p: u64 }
impl VBcast { pub uninterp spec fn chan(&self) -> int; }
impl Clone for VBcast {
    #[verifier::external_body]
    fn clone(&self) -> (r: VBcast) ensures r.chan() == self.chan() { unimplemented!() }
}
// ---------------------------------------------------------------- what is started, and the contents of shared maps
pub ghost struct VAcc { pub addr: SocketAddr, pub to: int, pub chan: int }
pub ghost struct VRecv { pub from: int, pub sessions: int }
pub tracked struct VTrace { pub ghost m: Map<int, Map<SessionId, Session>>, pub ghost accs: Seq<VAcc>, pub ghost recvs: Seq<VRecv> }
// dashmap: a map shared by the handles with the same id; its contents are in the trace
#[verifier::external_body]
pub struct VDash { p: u64 }
pub struct VRef { pub k: SessionId, pub v: Session }
impl VRef {
    pub fn key(&self) -> (r: &SessionId) ensures *r == self.k { &self.k }
    pub fn value(&self) -> (r: &Session) ensures *r == self.v { &self.v }
}
pub open spec fn is_map(s: Seq<VRef>, m: Map<SessionId, Session>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] m.contains_key(s[i].k) && s[i].v == m[s[i].k]
    &&& forall|k: SessionId| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].k == k
}
impl VDash {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn v_iter(&self, Tracked(v_tr): Tracked<&mut VTrace>) -> (r: Vec<VRef>)
        ensures *final(v_tr) == *old(v_tr), is_map(r@, old(v_tr).m[self.id()])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a self, k: SessionId) -> (r: VDEntry<'a>) ensures r.id() == self.id(), r.k() == k { unimplemented!() }
}
#[verifier::external_body]
pub struct VDEntry<'a> { p: &'a u64 }
impl<'a> VDEntry<'a> {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn k(&self) -> SessionId;
    #[verifier::external_body]
    pub fn and_modify<F: FnOnce(&mut Session)>(self, f: F, Tracked(v_tr): Tracked<&mut VTrace>) -> (r: VDEntry<'a>)
        requires forall|s: &mut Session| #[trigger] call_requires(f, (s,))
        ensures r.id() == self.id(), r.k() == self.k(), final(v_tr).accs == old(v_tr).accs, final(v_tr).recvs == old(v_tr).recvs,
            old(v_tr).m[self.id()].contains_key(self.k()) ==> exists|s: &mut Session| *s == old(v_tr).m[self.id()][self.k()] && #[trigger] call_ensures(f, (s,), ())
                && final(v_tr).m == old(v_tr).m.insert(self.id(), old(v_tr).m[self.id()].insert(self.k(), *final(s))),
            !old(v_tr).m[self.id()].contains_key(self.k()) ==> final(v_tr).m == old(v_tr).m,
    { unimplemented!() }
}
// collecting pairs into a map
pub trait VCollect: Sized {
    spec fn ps(&self) -> Seq<(SessionId, Session)>;
    fn v_collect_map<M>(self) -> (r: HashMap<SessionId, Session>)
        ensures forall|m: Map<SessionId, Session>| #[trigger] pairs_are(self.ps(), m) ==> r@ == m;
}
pub open spec fn pairs_are(s: Seq<(SessionId, Session)>, m: Map<SessionId, Session>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] m.contains_key(s[i].0) && s[i].1 == m[s[i].0]
    &&& forall|k: SessionId| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == k
}
impl VCollect for Vec<(SessionId, Session)> {
    open spec fn ps(&self) -> Seq<(SessionId, Session)> { self@ }
    #[verifier::external_body]
    fn v_collect_map<M>(self) -> (r: HashMap<SessionId, Session>) { unimplemented!() }
}
// the pairs of a map, in some order
pub open spec fn pairs_of<K, V>(r: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key(*(#[trigger] r[i]).0) && *r[i].1 == m[*r[i].0]
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> *(#[trigger] r[i]).0 != *(#[trigger] r[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < r.len() && *(#[trigger] r[i]).0 == k
}
pub trait VPairs<K, V> {
    spec fn pm(&self) -> Map<K, V>;
    fn v_iter<'a>(&'a self) -> (r: Vec<(&'a K, &'a V)>) ensures pairs_of(r@, self.pm());
}
impl<K, V> VPairs<K, V> for HashMap<K, V> {
    open spec fn pm(&self) -> Map<K, V> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: Vec<(&'a K, &'a V)>) { unimplemented!() }
}
// ---------------------------------------------------------------- the wiring
pub open spec fn has_port(p: Properties, i: SessionId) -> bool {
    let o = either(sect(p, i), dflt(p), "socket_accept_port"@);
    port_ok(o)
}
pub open spec fn addr(p: Properties, i: SessionId) -> SocketAddr { addr_of(parse_val::<u16>(either(sect(p, i), dflt(p), "socket_accept_port"@)->0)) }
pub open spec fn ports_ok(p: Properties, m: Map<SessionId, Session>) -> bool { forall|i: SessionId| #[trigger] m.contains_key(i) ==> has_port(p, i) }
// same session, its connection apart
pub open spec fn same_but(s: Session, o: Session) -> bool { s == (Session { responder: s.responder, ..o }) }
// connected to one of the acceptors started (from the n-th on), the one of address a
pub open spec fn wired(s: Session, accs: Seq<VAcc>, n: int, a: SocketAddr) -> bool {
    s.responder is Some && exists|j: int| n <= j < accs.len() && #[trigger] accs[j].addr == a && accs[j].chan == s.responder->0.chan()
}
// every acceptor started since the n-th has its own address, which is that of some session, and hands on to the queue
pub open spec fn accs_ok(accs: Seq<VAcc>, n: int, p: Properties, m: Map<SessionId, Session>, to: int) -> bool {
    &&& forall|j: int| n <= j < accs.len() ==> (#[trigger] accs[j]).to == to && exists|i: SessionId| #[trigger] m.contains_key(i) && addr(p, i) == accs[j].addr
    &&& forall|j: int, k: int| n <= j < k < accs.len() ==> (#[trigger] accs[j]).addr != (#[trigger] accs[k]).addr
}
// i is among the first n of s
pub open spec fn listed<K, V>(s: Seq<(&K, &V)>, n: int, i: K) -> bool { exists|k: int| 0 <= k < n && *(#[trigger] s[k]).0 == i }
// the sessions grouped by address: exactly those listed so far, each under its address, no address without a session
pub open spec fn grouped(d: Map<SocketAddr, SocketDescriptor>, p: Properties, s: Seq<(&SessionId, &Session)>, n: int) -> bool {
    &&& forall|i: SessionId| #[trigger] listed(s, n, i) ==> d.contains_key(addr(p, i)) && d[addr(p, i)].accepted_connections@.contains_key(i)
    &&& forall|a: SocketAddr, i: SessionId| d.contains_key(a) && #[trigger] d[a].accepted_connections@.contains_key(i) ==> listed(s, n, i) && addr(p, i) == a
    &&& forall|a: SocketAddr| #[trigger] d.contains_key(a) ==> exists|i: SessionId| #[trigger] d[a].accepted_connections@.contains_key(i)
}
// a loaded acceptor configuration has a port for each of its sessions
pub proof fn lem_loaded_ports(p: Properties, m: Map<SessionId, Session>)
    requires cfg_ok(pcfg(p)), p.default_session_id == sid_default(), own(dflt(p), "connection_type"@) == Some("acceptor"@),
        forall|i: SessionId| #[trigger] m.contains_key(i) ==> p.session_settings@.contains_key(i) && i != p.default_session_id,
    ensures ports_ok(p, m)
{
    assert forall|i: SessionId| #[trigger] m.contains_key(i) implies has_port(p, i) by {
        assert(pcfg(p).all.contains_key(i)); assert(pcfg(p).all[i] == sect(p, i)); assert(pcfg(p).def->0 == dflt(p));
    }
}
// one more session put under its address
pub proof fn lem_grouped(d: Map<SocketAddr, SocketDescriptor>, e: Map<SocketAddr, SocketDescriptor>, p: Properties, s: Seq<(&SessionId, &Session)>, n: int, i: SessionId, a: SocketAddr)
    requires grouped(d, p, s, n), 0 <= n < s.len(), *s[n].0 == i, addr(p, i) == a,
        e == d.insert(a, e[a]),
        forall|j: SessionId| #[trigger] e[a].accepted_connections@.contains_key(j) == (j == i || d.contains_key(a) && d[a].accepted_connections@.contains_key(j)),
    ensures grouped(e, p, s, n + 1)
{
    assert forall|j: SessionId| #[trigger] listed(s, n + 1, j) == (listed(s, n, j) || j == i) by {
        if listed(s, n, j) { let k = choose|k: int| 0 <= k < n && *(#[trigger] s[k]).0 == j; assert(*s[k].0 == j); }
        if j == i { assert(*s[n].0 == j); }
    }
    assert forall|b: SocketAddr| #[trigger] e.contains_key(b) implies exists|j: SessionId| #[trigger] e[b].accepted_connections@.contains_key(j) by {
        if b == a { assert(e[a].accepted_connections@.contains_key(i)); } else { assert(d.contains_key(b)); let j = choose|j: SessionId| #[trigger] d[b].accepted_connections@.contains_key(j); assert(e[b].accepted_connections@.contains_key(j)); }
    }
    assert forall|b: SocketAddr, j: SessionId| e.contains_key(b) && #[trigger] e[b].accepted_connections@.contains_key(j) implies listed(s, n + 1, j) && addr(p, j) == b by {
        if b == a && j == i {} else { assert(d.contains_key(b) && d[b].accepted_connections@.contains_key(j)); }
    }
}
// the sessions of the first n addresses are connected
pub open spec fn partly(m: Map<SessionId, Session>, m0: Map<SessionId, Session>, p: Properties, s: Seq<(&SocketAddr, &SocketDescriptor)>, n: int, accs: Seq<VAcc>, k: int) -> bool {
    &&& m.dom() == m0.dom()
    &&& forall|i: SessionId| #[trigger] m0.contains_key(i) ==> same_but(m[i], m0[i])
    &&& forall|i: SessionId| #[trigger] m0.contains_key(i) && listed(s, n, addr(p, i)) ==> wired(m[i], accs, k, addr(p, i))
}
pub open spec fn linked(s: Session, chan: int) -> bool { s.responder is Some && s.responder->0.chan() == chan }
// one more address
pub proof fn lem_partly(m1: Map<SessionId, Session>, m: Map<SessionId, Session>, m0: Map<SessionId, Session>, p: Properties, s: Seq<(&SocketAddr, &SocketDescriptor)>, n: int, ac: Seq<VAcc>, accs: Seq<VAcc>, k: int)
    requires partly(m1, m0, p, s, n, ac, k), 0 <= n < s.len(), 0 <= k, ac.len() == k + n, accs.len() == ac.len() + 1, accs.take(ac.len() as int) == ac, accs.last().addr == *s[n].0,
        forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0,
        m.dom() == m0.dom(), forall|i: SessionId| #[trigger] m0.contains_key(i) ==> same_but(m[i], m0[i]),
        forall|i: SessionId| #[trigger] m0.contains_key(i) && addr(p, i) != *s[n].0 ==> m[i] == m1[i],
        forall|i: SessionId| #[trigger] m0.contains_key(i) && addr(p, i) == *s[n].0 ==> linked(m[i], accs.last().chan),
    ensures partly(m, m0, p, s, n + 1, accs, k)
{
    assert forall|i: SessionId| #[trigger] m0.contains_key(i) && listed(s, n + 1, addr(p, i)) implies wired(m[i], accs, k, addr(p, i)) by {
        let a = addr(p, i);
        if a == *s[n].0 { assert(accs[ac.len() as int].addr == a); }
        else {
            let x = choose|x: int| 0 <= x < n + 1 && *(#[trigger] s[x]).0 == a;
            assert(x < n); assert(listed(s, n, a)); assert(wired(m1[i], ac, k, a));
            let j = choose|j: int| k <= j < ac.len() && #[trigger] ac[j].addr == a && ac[j].chan == m1[i].responder->0.chan();
            assert(accs.take(ac.len() as int)[j] == accs[j]); assert(accs[j].addr == a);
        }
    }
}
// the sessions of m grouped by address
#[verifier::opaque]
pub open spec fn desc_ok(d: Map<SocketAddr, SocketDescriptor>, p: Properties, m: Map<SessionId, Session>) -> bool {
    &&& forall|i: SessionId| #[trigger] m.contains_key(i) ==> d.contains_key(addr(p, i)) && d[addr(p, i)].accepted_connections@.contains_key(i)
    &&& forall|a: SocketAddr, i: SessionId| d.contains_key(a) && #[trigger] d[a].accepted_connections@.contains_key(i) ==> m.contains_key(i) && addr(p, i) == a
    &&& forall|a: SocketAddr| #[trigger] d.contains_key(a) ==> exists|i: SessionId| #[trigger] d[a].accepted_connections@.contains_key(i)
}
pub proof fn lem_desc_ok(d: Map<SocketAddr, SocketDescriptor>, p: Properties, m: Map<SessionId, Session>, s: Seq<(&SessionId, &Session)>)
    requires grouped(d, p, s, s.len() as int), pairs_of(s, m)
    ensures desc_ok(d, p, m)
{
    reveal(desc_ok);
    assert forall|i: SessionId| #[trigger] m.contains_key(i) implies listed(s, s.len() as int, i) by {}
    assert forall|a: SocketAddr, i: SessionId| d.contains_key(a) && #[trigger] d[a].accepted_connections@.contains_key(i) implies m.contains_key(i) && addr(p, i) == a by { assert(listed(s, s.len() as int, i)); }
}
pub proof fn lem_desc(d: Map<SocketAddr, SocketDescriptor>, p: Properties, m: Map<SessionId, Session>, a: SocketAddr)
    requires desc_ok(d, p, m), d.contains_key(a)
    ensures forall|i: SessionId| #[trigger] d[a].accepted_connections@.contains_key(i) ==> m.contains_key(i) && addr(p, i) == a,
        forall|i: SessionId| #[trigger] m.contains_key(i) && addr(p, i) == a ==> d[a].accepted_connections@.contains_key(i),
{ reveal(desc_ok); }
// the acceptors started so far are those of the first n addresses
#[verifier::opaque]
pub open spec fn started(accs: Seq<VAcc>, k: int, s: Seq<(&SocketAddr, &SocketDescriptor)>, n: int, to: int) -> bool {
    forall|j: int| k <= j < k + n ==> (#[trigger] accs[j]).addr == *s[j - k].0 && accs[j].to == to
}
pub proof fn lem_started0(accs: Seq<VAcc>, k: int, to: int)
    ensures forall|s: Seq<(&SocketAddr, &SocketDescriptor)>| #[trigger] started(accs, k, s, 0, to)
{ reveal(started); }
pub proof fn lem_started(a: Seq<VAcc>, b: Seq<VAcc>, k: int, s: Seq<(&SocketAddr, &SocketDescriptor)>, n: int, to: int)
    requires started(a, k, s, n, to), 0 <= k, 0 <= n < s.len(), a.len() == k + n, b == a.push(b.last()), b.last().addr == *s[n].0, b.last().to == to
    ensures started(b, k, s, n + 1, to)
{ reveal(started); }
pub proof fn lem_all_wired(m: Map<SessionId, Session>, m0: Map<SessionId, Session>, p: Properties, d: Map<SocketAddr, SocketDescriptor>, s: Seq<(&SocketAddr, &SocketDescriptor)>, accs: Seq<VAcc>, k: int, to: int)
    requires desc_ok(d, p, m0), pairs_of(s, d), started(accs, k, s, s.len() as int, to), 0 <= k, accs.len() == k + s.len(), partly(m, m0, p, s, s.len() as int, accs, k)
    ensures accs_ok(accs, k, p, m0, to), m.dom() == m0.dom(),
        forall|i: SessionId| #[trigger] m.contains_key(i) ==> same_but(m[i], m0[i]) && wired(m[i], accs, k, addr(p, i)),
{
    reveal(desc_ok); reveal(started);
    assert forall|i: SessionId| #[trigger] m.contains_key(i) implies same_but(m[i], m0[i]) && wired(m[i], accs, k, addr(p, i)) by {
        assert(m0.contains_key(i));
        assert(d.contains_key(addr(p, i)));
        assert(listed(s, s.len() as int, addr(p, i)));
    }
    assert forall|j: int| k <= j < accs.len() implies (#[trigger] accs[j]).to == to && exists|i: SessionId| #[trigger] m0.contains_key(i) && addr(p, i) == accs[j].addr by {
        let a = *s[j - k].0;
        assert(d.contains_key(a));
        let i = choose|i: SessionId| #[trigger] d[a].accepted_connections@.contains_key(i);
        assert(m0.contains_key(i) && addr(p, i) == a);
    }
    assert forall|j: int, l: int| k <= j < l < accs.len() implies (#[trigger] accs[j]).addr != (#[trigger] accs[l]).addr by {
        assert(accs[j].addr == *s[j - k].0); assert(accs[l].addr == *s[l - k].0);
    }
}
