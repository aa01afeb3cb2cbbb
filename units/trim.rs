// ---------------------------------------------------------------- blanks, quotes, lines
// Unicode White_Space (char::is_whitespace)
pub open spec fn ws(c: char) -> bool {
    '\u{9}' <= c <= '\u{d}' || c == ' ' || c == '\u{85}' || c == '\u{a0}' || c == '\u{1680}' || '\u{2000}' <= c <= '\u{200a}' || c == '\u{2028}'
        || c == '\u{2029}' || c == '\u{202f}' || c == '\u{205f}' || c == '\u{3000}'
}
pub open spec fn p_ws() -> spec_fn(char) -> bool { |c: char| ws(c) }
pub open spec fn p_is(x: char) -> spec_fn(char) -> bool { |c: char| c == x }
// without leading, trailing characters that satisfy p
pub open spec fn ltrim(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char> decreases s.len() { if s.len() > 0 && p(s[0]) { ltrim(s.drop_first(), p) } else { s } }
pub open spec fn rtrim(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char> decreases s.len() { if s.len() > 0 && p(s.last()) { rtrim(s.drop_last(), p) } else { s } }
pub open spec fn trim(s: Seq<char>) -> Seq<char> { rtrim(ltrim(s, p_ws()), p_ws()) }
pub open spec fn has_text(s: Seq<char>, t: Seq<char>) -> bool { exists|i: int| 0 <= i && i + t.len() <= s.len() && #[trigger] s.subrange(i, i + t.len()) == t }
// the lines of a text: ended by \n or \r\n, which they do not contain
pub open spec fn no_cr(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
pub open spec fn xlines(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![] } else if find(s, '\n') >= s.len() { seq![s] }
    else { seq![no_cr(s.subrange(0, find(s, '\n') as int))] + xlines(s.subrange(find(s, '\n') as int + 1, s.len() as int)) }
}
pub trait VTrim {
    spec fn tx(&self) -> Seq<char>;
    fn v_trim<'a>(&'a self) -> (r: &'a str) ensures r@ == trim(self.tx());
    fn v_trim_start_matches<'a>(&'a self, c: char) -> (r: &'a str) ensures r@ == ltrim(self.tx(), p_is(c));
    fn v_trim_end_matches<'a>(&'a self, c: char) -> (r: &'a str) ensures r@ == rtrim(self.tx(), p_is(c));
    fn v_starts_with(&self, c: char) -> (r: bool) ensures r == (self.tx().len() > 0 && self.tx()[0] == c);
    fn v_ends_with(&self, c: char) -> (r: bool) ensures r == (self.tx().len() > 0 && self.tx().last() == c);
    fn v_contains(&self, t: &str) -> (r: bool) ensures r == has_text(self.tx(), t@);
    fn v_lines<'a>(&'a self) -> (r: VLines<'a>) ensures r@ == xlines(self.tx());
}
impl VTrim for str {
    open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_trim<'a>(&'a self) -> (r: &'a str) { self.trim() }
    #[verifier::external_body]
    fn v_trim_start_matches<'a>(&'a self, c: char) -> (r: &'a str) { self.trim_start_matches(c) }
    #[verifier::external_body]
    fn v_trim_end_matches<'a>(&'a self, c: char) -> (r: &'a str) { self.trim_end_matches(c) }
    #[verifier::external_body]
    fn v_starts_with(&self, c: char) -> (r: bool) { self.starts_with(c) }
    #[verifier::external_body]
    fn v_ends_with(&self, c: char) -> (r: bool) { self.ends_with(c) }
    #[verifier::external_body]
    fn v_contains(&self, t: &str) -> (r: bool) { self.contains(t) }
    #[verifier::external_body]
    fn v_lines<'a>(&'a self) -> (r: VLines<'a>) { unimplemented!() }
}
// Peekable<Lines>: the lines still to come
#[verifier::external_body]
pub struct VLines<'a> { p: std::marker::PhantomData<&'a u8> }
impl<'a> VLines<'a> {
    pub uninterp spec fn ls(&self) -> Seq<Seq<char>>;
    pub open spec fn view(&self) -> Seq<Seq<char>> { self.ls() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r {
            Some(x) => old(self).ls().len() > 0 && x@ == old(self).ls()[0] && final(self).ls() == old(self).ls().drop_first(),
            None => old(self).ls().len() == 0 && final(self).ls() == old(self).ls(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_if<F: Fn(&&'a str) -> bool>(&mut self, f: F) -> (r: Option<&'a str>)
        requires forall|x: &'a str| old(self).ls().len() > 0 && #[trigger] x@ == old(self).ls()[0] ==> call_requires(f, (&x,))
        ensures match r {
            Some(x) => old(self).ls().len() > 0 && x@ == old(self).ls()[0] && call_ensures(f, (&x,), true) && final(self).ls() == old(self).ls().drop_first(),
            None => final(self).ls() == old(self).ls()
                && (old(self).ls().len() == 0 || exists|x: &'a str| #[trigger] x@ == old(self).ls()[0] && call_ensures(f, (&x,), false)),
        }
    { unimplemented!() }
}
