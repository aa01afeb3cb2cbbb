// ---------------------------------------------------------------- tokio: connections, queues, tasks
#[derive(Debug)]
pub struct VIoErr;
#[verifier::external_body]
pub struct SocketAddr { p: u64 }
impl Clone for SocketAddr {
    #[verifier::external_body]
    fn clone(&self) -> (r: SocketAddr) ensures r == *self { unimplemented!() }
}
impl Copy for SocketAddr {}
// a connection a peer made to an address
pub ghost struct VConn { pub addr: SocketAddr, pub id: int }
pub ghost struct VReader { pub conn: VConn, pub to: VSender }
pub ghost struct VWriter { pub conn: VConn, pub chan: int }
// the connections accepted and the tasks started
pub tracked struct VTrace { pub ghost conns: Seq<VConn>, pub ghost readers: Seq<VReader>, pub ghost writers: Seq<VWriter> }
#[verifier::external_body]
pub struct VSender { p: u64 }
impl Clone for VSender {
    #[verifier::external_body]
    fn clone(&self) -> (r: VSender) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct VBcast { p: u64 }
impl VBcast { pub uninterp spec fn chan(&self) -> int; }
impl Clone for VBcast {
    #[verifier::external_body]
    fn clone(&self) -> (r: VBcast) ensures r.chan() == self.chan() { unimplemented!() }
}
#[verifier::external_body]
pub struct VQueue { p: u64 }
impl VQueue { pub uninterp spec fn chan(&self) -> int; }
impl VBcast {
    #[verifier::external_body]
    pub fn subscribe(&self) -> (r: VQueue) ensures r.chan() == self.chan() { unimplemented!() }
}
#[verifier::external_body]
// room for the 32 texts of the known finding
pub fn v_broadcast(n: usize) -> (r: (VBcast, VQueue)) requires n >= 32 ensures r.0.chan() == r.1.chan() { unimplemented!() }
#[verifier::external_body]
pub struct TcpListener { p: u64 }
impl TcpListener {
    pub uninterp spec fn addr(&self) -> SocketAddr;
    #[verifier::external_body]
    pub fn bind(a: SocketAddr) -> (r: Result<TcpListener, VIoErr>) ensures r is Ok ==> r->Ok_0.addr() == a { unimplemented!() }
    #[verifier::external_body]
    pub fn accept(&self, Tracked(v_tr): Tracked<&mut VTrace>) -> (r: Result<(TcpStream, SocketAddr), VIoErr>)
        ensures final(v_tr).readers == old(v_tr).readers, final(v_tr).writers == old(v_tr).writers,
            match r { Ok(s) => s.0.conn().addr == self.addr() && final(v_tr).conns == old(v_tr).conns.push(s.0.conn()), Err(_) => final(v_tr).conns == old(v_tr).conns }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct TcpStream { p: u64 }
#[verifier::external_body]
pub struct OwnedReadHalf { p: u64 }
#[verifier::external_body]
pub struct OwnedWriteHalf { p: u64 }
impl OwnedReadHalf { pub uninterp spec fn conn(&self) -> VConn; }
impl OwnedWriteHalf { pub uninterp spec fn conn(&self) -> VConn; }
impl TcpStream {
    pub uninterp spec fn conn(&self) -> VConn;
    #[verifier::external_body]
    pub fn into_split(self) -> (r: (OwnedReadHalf, OwnedWriteHalf)) ensures r.0.conn() == self.conn(), r.1.conn() == self.conn() { unimplemented!() }
}
// every connection accepted since a has exactly one reader, which hands on to `to`, and one writer, which takes from `chan`
pub open spec fn all_served(a: VTrace, b: VTrace, addr: SocketAddr, to: VSender, chan: int) -> bool {
    let n = b.conns.len() - a.conns.len();
    &&& n >= 0 && b.readers.len() == a.readers.len() + n && b.writers.len() == a.writers.len() + n
    &&& forall|i: int| 0 <= i < a.conns.len() ==> #[trigger] b.conns[i] == a.conns[i]
    &&& forall|i: int| 0 <= i < a.readers.len() ==> #[trigger] b.readers[i] == a.readers[i]
    &&& forall|i: int| 0 <= i < a.writers.len() ==> #[trigger] b.writers[i] == a.writers[i]
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] b.conns[a.conns.len() + i]).addr == addr
    &&& forall|i: int| 0 <= i < n ==> #[trigger] b.readers[a.readers.len() + i] == (VReader { conn: b.conns[a.conns.len() + i], to })
    &&& forall|i: int| 0 <= i < n ==> #[trigger] b.writers[a.writers.len() + i] == (VWriter { conn: b.conns[a.conns.len() + i], chan })
}
