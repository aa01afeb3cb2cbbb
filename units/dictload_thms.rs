// ---------------------------------------------------------------- what a loaded dictionary guarantees to parsing
// no group lists 2^31 members or more
pub open spec fn gs_small(g: GS) -> bool decreases g {
    g.mems.len() < 0x8000_0000 && forall|i: int| 0 <= i < g.mems.len() && (#[trigger] g.mems[i]).grp is Some ==> gs_small(g.mems[i].grp->0)
}
pub open spec fn ms_small(ms: Seq<Mem>) -> bool { forall|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]).grp is Some ==> gs_small(ms[i].grp->0) }
pub open spec fn spec_small(s: Spec) -> bool {
    ms_small(s.header) && ms_small(s.trailer) && forall|i: int| 0 <= i < s.msgs.len() ==> ms_small((#[trigger] s.msgs[i]).mems)
}
pub proof fn lem_giwf(g: GroupInfo, gs: GS, mt: Seq<char>)
    requires gi_is(g, gs, mt), gs_small(gs)
    ensures giwf(g)
    decreases gs
{
    let rd = g.data_dictionary;
    assert(nums(gs.mems)[0] == gs.mems[0].num);
    assert forall|m: Seq<char>, t: u32| #[trigger] d_grp(rd, m, t) is Some implies rd.fields_order@.contains(t) by {
        let i = choose|i: int| 0 <= i < gs.mems.len() && #[trigger] gs.mems[i].num == t && gs.mems[i].grp is Some;
        assert(nums(gs.mems)[i] == t);
    }
    assert forall|m: String, t: u32| rd.groups@.contains_key(m) && #[trigger] rd.groups@[m]@.contains_key(t) implies giwf(rd.groups@[m]@[t]) by {
        assert(mk(m@) == m);
        assert(d_grp(rd, m@, t) is Some);
        assert(m@ == mt && cnts(gs.mems, t));
        let i = choose|i: int| 0 <= i < gs.mems.len() && #[trigger] gs.mems[i].num == t && gs.mems[i].grp is Some;
        lem_giwf(d_grp(rd, mt, gs.mems[i].num)->0, gs.mems[i].grp->0, mt);
    }
}
pub proof fn lem_sect_wf(d: DataDictionary, mt: Seq<char>, ms: Seq<Mem>, t: u32)
    requires sect_is(d, mt, ms), ms_small(ms), d_grp(d, mt, t) is Some
    ensures giwf(d_grp(d, mt, t)->0)
{
    let i = choose|i: int| 0 <= i < ms.len() && #[trigger] ms[i].num == t && ms[i].grp is Some;
    lem_giwf(d_grp(d, mt, ms[i].num)->0, ms[i].grp->0, mt);
}
// the precondition of parsing holds for every dictionary that loads
pub proof fn c14_loaded_is_well_formed(d: DataDictionary, s: Spec)
    requires loaded(d, s), spec_small(s)
    ensures dwf(d)
{
    assert forall|m: String, t: u32| d.groups@.contains_key(m) && #[trigger] d.groups@[m]@.contains_key(t) implies giwf(d.groups@[m]@[t]) by {
        assert(mk(m@) == m);
        assert(d_grp(d, m@, t) is Some);
        if m@ == S_HEADER_ID() { lem_sect_wf(d, m@, s.header, t); }
        else if m@ == S_TRAILER_ID() { lem_sect_wf(d, m@, s.trailer, t); }
        else {
            if !mtypes(s.msgs).contains(m@) { assert(no_sect(d, m@)); }
            let i = choose|i: int| 0 <= i < mtypes(s.msgs).len() && #[trigger] mtypes(s.msgs)[i] == m@;
            assert(msg_is(d, s.msgs[i]));
            lem_sect_wf(d, m@, s.msgs[i].mems, t);
        }
    }
}
// a required member is a member; the count field of a group is a member
pub proof fn c14_required_and_counts_are_members(d: DataDictionary, mt: Seq<char>, ms: Seq<Mem>, t: u32)
    requires sect_is(d, mt, ms)
    ensures d_req(d, mt, t) ==> d_field(d, mt, t), d_grp(d, mt, t) is Some ==> d_field(d, mt, t)
{
    if d_req(d, mt, t) { let i = choose|i: int| 0 <= i < ms.len() && #[trigger] ms[i].num == t && ms[i].req; assert(nums(ms)[i] == t); }
    if d_grp(d, mt, t) is Some { let i = choose|i: int| 0 <= i < ms.len() && #[trigger] ms[i].num == t && ms[i].grp is Some; assert(nums(ms)[i] == t); }
}
// a field number, a field name, a message name or a message type that is declared twice is refused
pub proof fn c15_repeated_field_refused(es: Seq<X>, i: int, j: int)
    requires 0 <= i < j < es.len(), xdef(es[i]) is Some, xdef(es[j]) is Some, xdef(es[i])->0.num == xdef(es[j])->0.num || xdef(es[i])->0.name == xdef(es[j])->0.name
    ensures xdefs(es) is None
    decreases es.len()
{
    if j < es.len() - 1 { assert(es.drop_last()[i] == es[i] && es.drop_last()[j] == es[j]); c15_repeated_field_refused(es.drop_last(), i, j); }
    else if xdefs(es.drop_last()) is Some {
        let a = xdefs(es.drop_last())->0; let d = xdef(es[i])->0;
        assert(es.drop_last()[i] == es[i]);
        lem_def_at(es.drop_last(), i);
        assert(xnames(a)[i] == d.name && numbers(a)[i] == d.num);
        assert(xdef(es.last()) == xdef(es[j]));
    }
}
pub proof fn lem_def_at(es: Seq<X>, i: int)
    requires 0 <= i < es.len(), xdefs(es) is Some
    ensures xdefs(es)->0.len() == es.len(), xdef(es[i]) == Some(xdefs(es)->0[i])
    decreases es.len()
{
    if es.len() > 1 { lem_def_at(es.drop_last(), if i < es.len() - 1 { i } else { 0 }); }
    else { assert(es.drop_last() =~= Seq::<X>::empty()); reveal_with_fuel(xdefs, 3); reveal_with_fuel(xmsgs, 3); }
    if i < es.len() - 1 { assert(es.drop_last()[i] == es[i]); }
}
pub proof fn lem_msg_at(es: Seq<X>, cs: Map<String, X>, root: X, i: int)
    requires 0 <= i < es.len(), xmsgs(es, cs, root) is Some
    ensures xmsgs(es, cs, root)->0.len() == es.len(), xmsg(es[i], cs, root) == Some(xmsgs(es, cs, root)->0[i])
    decreases es.len()
{
    if es.len() > 1 { lem_msg_at(es.drop_last(), cs, root, if i < es.len() - 1 { i } else { 0 }); }
    else { assert(es.drop_last() =~= Seq::<X>::empty()); reveal_with_fuel(xdefs, 3); reveal_with_fuel(xmsgs, 3); }
    if i < es.len() - 1 { assert(es.drop_last()[i] == es[i]); }
}
pub proof fn c15_repeated_message_refused(es: Seq<X>, cs: Map<String, X>, root: X, i: int, j: int)
    requires 0 <= i < j < es.len(), ({
        let (a, b) = (xmsg(es[i], cs, root), xmsg(es[j], cs, root));
        a is Some && b is Some && (a->0.name == b->0.name || a->0.ty == b->0.ty)
    })
    ensures xmsgs(es, cs, root) is None
    decreases es.len()
{
    if j < es.len() - 1 { assert(es.drop_last()[i] == es[i] && es.drop_last()[j] == es[j]); c15_repeated_message_refused(es.drop_last(), cs, root, i, j); }
    else if xmsgs(es.drop_last(), cs, root) is Some {
        let a = xmsgs(es.drop_last(), cs, root)->0; let d = xmsg(es[i], cs, root)->0;
        assert(es.drop_last()[i] == es[i]);
        lem_msg_at(es.drop_last(), cs, root, i);
        assert(mnames(a)[i] == d.name && mtypes(a)[i] == d.ty);
        assert(xmsg(es.last(), cs, root) == xmsg(es[j], cs, root));
    }
}
// a member declared twice in one message, header or trailer (also through components) is refused, and a fault of one child
// is a fault of the whole declaration
pub proof fn c15_faulty_member_refused(kids: Seq<X>, req: bool, cs: Map<String, X>, root: X, i: int)
    requires 0 <= i < kids.len(), kids[i].elem, m_kid(kids[i], req, cs, root) is None
    ensures m_kids(kids, req, cs, root) is None
    decreases kids.len()
{
    un_kids(kids, req, cs, root);
    if i < kids.len() - 1 { assert(kids.drop_last()[i] == kids[i]); c15_faulty_member_refused(kids.drop_last(), req, cs, root, i); }
}
pub proof fn c15_undefined_reference_refused(x: X, req: bool, cs: Map<String, X>, root: X)
    requires ({
        let n = xattr(x, "name"@);
        ||| n is None
        ||| marked(x) is None
        ||| (x.name == "field"@ || x.name == "group"@) && field_num(root, n->0) is None
        ||| x.name == "component"@ && !cs.contains_key(mk(n->0))
        ||| x.name != "field"@ && x.name != "group"@ && x.name != "component"@
        ||| x.name == "group"@ && m_kids(x.kids, marked(x)->0, cs, root) == Some(Seq::<Mem>::empty())
    })
    ensures m_kid(x, req, cs, root) is None
{
    reveal_strlit("field"); reveal_strlit("component"); reveal_strlit("group");
    assert("field"@.len() != "component"@.len() && "group"@[0] != "field"@[0] && "group"@.len() != "component"@.len());
}
pub proof fn c15_missing_section_refused(root: X)
    requires xbegin(root) is None || sec(root.kids, "fields"@) is None || sec(root.kids, "components"@) is None || sec(root.kids, S_HEADER_ID()) is None || sec(root.kids, S_TRAILER_ID()) is None || sec(root.kids, "messages"@) is None
    ensures spec_of(root) is None
{}
