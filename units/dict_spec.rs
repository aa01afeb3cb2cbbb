// indexmap::IndexSet<u32>: a sequence without repetitions, in insertion order
pub struct VIndexSet { pub v: Vec<u32> }
impl View for VIndexSet { type V = Seq<u32>; open spec fn view(&self) -> Seq<u32> { self.v@ } }
impl VIndexSet {
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: Vec<u32>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: u32) -> (r: bool)
        ensures r == !old(self)@.contains(t), final(self)@ == (if old(self)@.contains(t) { old(self)@ } else { old(self)@.push(t) })
    { unimplemented!() }
}
impl VDefault for VIndexSet {
    open spec fn is_def(&self) -> bool { self@ == Seq::<u32>::empty() }
    fn v_default() -> (r: Self) { VIndexSet { v: Vec::new() } }
}
// what a dictionary says
pub open spec fn d_grp(dd: DataDictionary, mt: Seq<char>, t: u32) -> Option<GroupInfo> {
    if dd.groups@.contains_key(mk(mt)) && dd.groups@[mk(mt)]@.contains_key(t) { Some(dd.groups@[mk(mt)]@[t]) } else { None }
}
pub open spec fn d_field(dd: DataDictionary, mt: Seq<char>, t: u32) -> bool {
    dd.msg_fields@.contains_key(mk(mt)) && dd.msg_fields@[mk(mt)]@.contains(t)
}
pub open spec fn d_req(dd: DataDictionary, mt: Seq<char>, t: u32) -> bool {
    dd.msg_required_fields@.contains_key(mk(mt)) && dd.msg_required_fields@[mk(mt)]@.contains(t)
}
// a loaded dictionary: every group lists its members in an order that starts with its delimiter
pub open spec fn dwf(dd: DataDictionary) -> bool decreases dd {
    forall|m: String, t: u32| dd.groups@.contains_key(m) && #[trigger] dd.groups@[m]@.contains_key(t) ==> giwf(dd.groups@[m]@[t])
}
pub open spec fn giwf(g: GroupInfo) -> bool decreases g {
    let rd = g.data_dictionary;
    &&& dwf(rd)
    &&& 0 < rd.fields_order@.len() < 0x8000_0000 && rd.fields_order@[0] == g.delimiter
    &&& forall|mt: Seq<char>, t: u32| #[trigger] d_field(rd, mt, t) ==> rd.fields_order@.contains(t)
    &&& forall|mt: Seq<char>, t: u32| #[trigger] d_grp(rd, mt, t) is Some ==> rd.fields_order@.contains(t)
}
