// reading a file: its text, if it can be read as UTF-8
pub uninterp spec fn file_text(path: Seq<char>) -> Option<Seq<char>>;
#[derive(Debug)]
pub struct VIoErr;
#[verifier::external_body]
pub fn v_read_to_string<P: VInto>(p: P) -> (r: Result<String, VIoErr>)
    ensures match file_text(p.txt()) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err }
{ unimplemented!() }
