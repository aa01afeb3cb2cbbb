// ---------------------------------------------------------------- the byte stream
// position of the first d in s, s.len() if there is none
pub open spec fn bfind(s: Seq<u8>, d: u8) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] == d { 0 } else { 1 + bfind(s.skip(1), d) }
}
// a field (with its SOH) beginning with 10=
pub open spec fn is_cks(f: Seq<u8>) -> bool { f.len() >= 3 && f[0] == 49 && f[1] == 48 && f[2] == 61 }
// length of the piece at the start of s: up to the SOH that closes the first field beginning with 10=
pub open spec fn cut(s: Seq<u8>) -> Option<int> decreases s.len() via cut_dec {
    let p = bfind(s, 1);
    if p >= s.len() { None } else if is_cks(s.take(p + 1)) { Some(p + 1) } else { shift(cut(s.skip(p + 1)), p + 1) }
}
#[via_fn]
proof fn cut_dec(s: Seq<u8>) { lem_bfind0(s, 1); }
pub proof fn lem_bfind0(s: Seq<u8>, d: u8) ensures 0 <= bfind(s, d) <= s.len() decreases s.len() { if s.len() > 0 && s[0] != d { lem_bfind0(s.skip(1), d); } }
pub open spec fn shift(o: Option<int>, k: int) -> Option<int> { match o { Some(n) => Some(n + k), None => None } }
pub open spec fn cuts(s: Seq<u8>) -> Seq<Seq<u8>> decreases s.len() {
    match cut(s) { Some(n) => if 0 < n <= s.len() { seq![s.take(n)] + cuts(s.skip(n)) } else { seq![] }, None => seq![] }
}
// ---------------------------------------------------------------- String::from_utf8_lossy
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
pub open spec fn texts(v: Seq<Seq<u8>>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| lossy(v[i])) }
#[verifier::external_body]
pub struct VCow { p: u64 }
impl View for VCow { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn v_from_utf8_lossy(b: &[u8]) -> (r: VCow) ensures r@ == lossy(b@), valid_utf8(b@) ==> r@ == decode_utf8(b@) { unimplemented!() }
impl VCow {
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
impl VDisplay for VCow {
    open spec fn shows(&self, x: Seq<char>) -> bool { x == self@ }
    open spec fn show_req(&self) -> bool { true }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VFmt) -> (r: Result<(), VErr>) { unimplemented!() }
}
pub trait VBytes {
    spec fn bs(&self) -> Seq<u8>;
    fn v_starts_with(&self, x: &[u8]) -> (r: bool) ensures r == (x@.len() <= self.bs().len() && forall|i: int| 0 <= i < x@.len() ==> #[trigger] x@[i] == self.bs()[i]);
    fn v_ends_with(&self, x: &[u8]) -> (r: bool) ensures r == (x@.len() <= self.bs().len() && forall|i: int| 0 <= i < x@.len() ==> #[trigger] x@[i] == self.bs()[self.bs().len() - x@.len() + i]);
    fn v_is_empty(&self) -> (r: bool) ensures r == (self.bs().len() == 0);
}
macro_rules! bytes { ($t:ty) => { verus! {
impl VBytes for $t {
    open spec fn bs(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_starts_with(&self, x: &[u8]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_ends_with(&self, x: &[u8]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_empty(&self) -> (r: bool) { unimplemented!() }
}
} } }
bytes!([u8]);
bytes!(Vec<u8>);
// ---------------------------------------------------------------- tokio
#[derive(Debug)]
pub struct VIoErr;
#[derive(Debug)]
pub struct VSendErr;
// rest: the bytes still to come until the stream ends or fails, however they are split into reads; over: its end or failure has been seen
pub trait AsyncBufReadExt: Sized {
    spec fn rest(&self) -> Seq<u8>;
    spec fn over(&self) -> bool;
    fn read_until(&mut self, d: u8, buf: &mut Vec<u8>) -> (r: Result<usize, VIoErr>)
        requires !old(self).over()
        ensures match r {
            Ok(n) => {
                let s = old(self).rest();
                &&& n == (if bfind(s, d) < s.len() { bfind(s, d) + 1 } else { s.len() as int })
                &&& final(buf)@ == old(buf)@ + s.take(n as int) && final(self).rest() == s.skip(n as int)
                &&& final(self).over() == (bfind(s, d) >= s.len())
            },
            Err(_) => final(self).over() && bfind(old(self).rest(), d) >= old(self).rest().len(),
        };
}
#[verifier::external_body]
pub struct OwnedReadHalf { p: u64 }
impl OwnedReadHalf {
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    pub uninterp spec fn over(&self) -> bool;
}
#[verifier::external_body]
pub struct BufReader { p: u64 }
impl BufReader {
    #[verifier::external_body]
    pub fn new(h: OwnedReadHalf) -> (r: BufReader) ensures r.rest() == h.rest(), r.over() == h.over() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize, h: OwnedReadHalf) -> (r: BufReader) ensures r.rest() == h.rest(), r.over() == h.over() { unimplemented!() }
}
impl AsyncBufReadExt for BufReader {
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn over(&self) -> bool;
    #[verifier::external_body]
    fn read_until(&mut self, d: u8, buf: &mut Vec<u8>) -> (r: Result<usize, VIoErr>) { unimplemented!() }
}
// what the tasks did: the texts handed on to the application side
pub tracked struct VTrace { pub ghost sent: Seq<Seq<char>>, pub ghost wrote: Seq<u8> }
#[verifier::external_body]
pub struct VSender { p: u64 }
impl VSender {
    // the receiving end lives as long as the engine
    #[verifier::external_body]
    pub fn send(&self, t: String, Tracked(v_tr): Tracked<&mut VTrace>) -> (r: Result<(), VSendErr>)
        ensures r is Ok, final(v_tr).sent == old(v_tr).sent.push(t@), final(v_tr).wrote == old(v_tr).wrote
    { unimplemented!() }
}

// ---------------------------------------------------------------- the writing side of a connection
#[derive(Debug)]
pub struct VRecvErr;
#[verifier::external_body]
pub struct VQueue { p: u64 }
impl VQueue {
    // the texts it still delivers until it is closed (or has dropped some because too many were waiting)
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn recv(&mut self) -> (r: Result<String, VRecvErr>)
        ensures match r {
            Ok(t) => old(self).rest().len() > 0 && t@ == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            Err(_) => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        }
    { unimplemented!() }
}
pub trait AsyncWriteExt {}
#[verifier::external_body]
pub struct OwnedWriteHalf { p: u64 }
impl OwnedWriteHalf {
    // the connection breaks at some point
    pub uninterp spec fn breaks(&self) -> bool;
    // a write has failed
    pub uninterp spec fn failed(&self) -> bool;
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8], Tracked(v_tr): Tracked<&mut VTrace>) -> (r: Result<(), VIoErr>)
        requires !old(self).failed()
        ensures final(self).breaks() == old(self).breaks(), final(self).failed() == (r is Err), !old(self).breaks() ==> r is Ok,
            final(v_tr).sent == old(v_tr).sent,
            match r {
                Ok(_) => final(v_tr).wrote == old(v_tr).wrote + b@,
                Err(_) => exists|n: int| 0 <= n <= b@.len() && final(v_tr).wrote == old(v_tr).wrote + #[trigger] b@.take(n),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, b: &[u8], Tracked(v_tr): Tracked<&mut VTrace>) -> (r: Result<usize, VIoErr>)
        requires !old(self).failed()
        ensures final(self).breaks() == old(self).breaks(), final(self).failed() == (r is Err), !old(self).breaks() ==> r is Ok,
            final(v_tr).sent == old(v_tr).sent,
            match r {
                Ok(n) => 0 <= n <= b@.len() && final(v_tr).wrote == old(v_tr).wrote + b@.take(n as int),
                Err(_) => final(v_tr).wrote == old(v_tr).wrote,
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), VIoErr>)
        requires !old(self).failed()
        ensures final(self).breaks() == old(self).breaks(), final(self).failed() == (r is Err), !old(self).breaks() ==> r is Ok
    { unimplemented!() }
}
// the bytes of the texts, one behind the other
pub open spec fn wire(v: Seq<Seq<char>>) -> Seq<u8> decreases v.len() { if v.len() == 0 { seq![] } else { wire(v.drop_last()) + encode_utf8(v.last()) } }
pub trait VAsBytes { spec fn bts(&self) -> Seq<u8>; fn v_as_bytes<'b>(&self) -> (r: &'b [u8]) ensures r@ == self.bts(); }
impl VAsBytes for String {
    open spec fn bts(&self) -> Seq<u8> { encode_utf8(self@) }
    #[verifier::external_body]
    fn v_as_bytes<'b>(&self) -> (r: &'b [u8]) { unimplemented!() }
}
