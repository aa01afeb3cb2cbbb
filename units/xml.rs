// ---------------------------------------------------------------- roxmltree: a parsed document is a tree of nodes
// elem: an element; name: its local name ("" for other nodes); attrs: its attributes without namespace; kids: its child nodes
pub struct X { pub elem: bool, pub name: Seq<char>, pub attrs: Map<Seq<char>, Seq<char>>, pub kids: Seq<X> }
pub struct RoxError;
#[verifier::external_body]
pub struct ExpandedName<'a, 'i> { p: std::marker::PhantomData<(&'a u8, &'i u8)> }
impl<'a, 'i> ExpandedName<'a, 'i> {
    pub uninterp spec fn local(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &'a str) ensures r@ == self.local() { unimplemented!() }
}
#[verifier::external_body]
pub struct Node<'a, 'i> { p: std::marker::PhantomData<(&'a u8, &'i u8)> }
impl<'a, 'i> Clone for Node<'a, 'i> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<'a, 'i> Copy for Node<'a, 'i> {}
impl<'a, 'i> Node<'a, 'i> {
    pub uninterp spec fn x(&self) -> X;
    #[verifier::external_body]
    pub fn attribute(&self, a: &str) -> (r: Option<&'a str>)
        ensures match r { Some(s) => self.x().attrs.contains_key(a@) && s@ == self.x().attrs[a@], None => !self.x().attrs.contains_key(a@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn has_attribute(&self, a: &str) -> (r: bool) ensures r == self.x().attrs.contains_key(a@) { unimplemented!() }
    #[verifier::external_body]
    pub fn tag_name(&self) -> (r: ExpandedName<'a, 'i>) ensures r.local() == self.x().name { unimplemented!() }
    #[verifier::external_body]
    pub fn has_tag_name(&self, n: &str) -> (r: bool) ensures r == (self.x().elem && self.x().name == n@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_element(&self) -> (r: bool) ensures r == self.x().elem { unimplemented!() }
    #[verifier::external_body]
    pub fn children(&self) -> (r: Vec<Node<'a, 'i>>) ensures xs(r@) == self.x().kids { unimplemented!() }
}
#[verifier::external_body]
pub struct Document<'i> { p: std::marker::PhantomData<&'i u8> }
// what the XML reader makes of a text: the root element, or nothing for a text that is not well-formed XML
pub uninterp spec fn xml_root(s: Seq<char>) -> Option<X>;
impl<'i> Document<'i> {
    pub uninterp spec fn root(&self) -> X;
    #[verifier::external_body]
    pub fn parse(s: &'i str) -> (r: Result<Document<'i>, RoxError>)
        ensures match r { Ok(d) => xml_root(s@) == Some(d.root()), Err(_) => xml_root(s@) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn root_element<'a>(&'a self) -> (r: Node<'a, 'i>) ensures r.x() == self.root() { unimplemented!() }
}
pub open spec fn xs(s: Seq<Node>) -> Seq<X> { Seq::new(s.len(), |i: int| s[i].x()) }
// HashMap: clone, remove by text
pub broadcast axiom fn ax_removed<V>(a: Map<String, V>, b: Map<String, V>, k: &str)
    ensures #[trigger] borrowed_key_removed::<String, V, str>(a, b, k) <==> b == a.remove(mk(k@));
#[verifier::external_body]
pub fn v_map_clone<V: Copy>(m: &HashMap<String, V>) -> (r: HashMap<String, V>) ensures r@ == m@ { unimplemented!() }
