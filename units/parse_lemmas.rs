pub proof fn lem_pos_inj(o: Seq<u32>, a: u32, b: u32)
    requires o.contains(a) || o.contains(b), first_at(o, a) == first_at(o, b)
    ensures a == b
{ lem_first_at(o, a); lem_first_at(o, b); }
// adding a block for a new tag
pub proof fn lem_holds_push(fields: Map<u32, StringField>, group: Map<u32, Group>, g2: Map<u32, Group>, bs: Seq<Blk>, b: Blk, dd: DataDictionary, mt: Seq<char>)
    requires holds(fields, group, bs, dd, mt), !listed(bs, b.f.tag),
        match b.grp {
            None => g2 == group,
            Some(t) => g2.contains_key(b.f.tag) && g2 == group.insert(b.f.tag, g2[b.f.tag]) && d_grp(dd, mt, b.f.tag) is Some && gholds(g2[b.f.tag], t, d_grp(dd, mt, b.f.tag)->0, mt),
        }
    ensures holds(fields.insert(b.f.tag, b.f), g2, bs.push(b), dd, mt)
{
    let f2 = fields.insert(b.f.tag, b.f); let b2 = bs.push(b);
    assert forall|i: int, j: int| 0 <= i < j < b2.len() implies #[trigger] b2[i].f.tag != #[trigger] b2[j].f.tag by {
        if j == bs.len() { assert(b2[i] == bs[i]); }
    }
    assert forall|k: u32| #[trigger] f2.contains_key(k) implies listed(b2, k) by {
        if k == b.f.tag { assert(b2[bs.len() as int].f.tag == k); }
        else { assert(fields.contains_key(k)); let i = choose|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).f.tag == k; assert(b2[i].f.tag == k); }
    }
    assert forall|k: u32| #[trigger] g2.contains_key(k) implies f2.contains_key(k) by {
        if k != b.f.tag { assert(group.contains_key(k)); }
    }
    assert(!group.contains_key(b.f.tag)) by { if group.contains_key(b.f.tag) { assert(fields.contains_key(b.f.tag)); } }
    assert forall|i: int| 0 <= i < b2.len() implies match (#[trigger] b2[i]).grp {
            None => !g2.contains_key(b2[i].f.tag),
            Some(t) => g2.contains_key(b2[i].f.tag) && d_grp(dd, mt, b2[i].f.tag) is Some && gholds(g2[b2[i].f.tag], t, d_grp(dd, mt, b2[i].f.tag)->0, mt),
        } by {
        if i < bs.len() { assert(b2[i] == bs[i]); assert(bs[i].f.tag != b.f.tag); }
    }
    assert forall|i: int| 0 <= i < b2.len() implies f2.contains_key(#[trigger] b2[i].f.tag) && f2[b2[i].f.tag] == b2[i].f by {
        if i < bs.len() { assert(b2[i] == bs[i]); assert(bs[i].f.tag != b.f.tag); }
    }
}
pub proof fn lem_holds_empty(dd: DataDictionary, mt: Seq<char>)
    ensures holds(Map::<u32, StringField>::empty(), Map::<u32, Group>::empty(), seq![], dd, mt)
{}
// a member in order is a new tag of the instance
pub proof fn lem_new_tag(o: Seq<u32>, delim: u32, bs: Seq<Blk>, prev: int, b: Blk)
    requires inst_ok(o, delim, bs, prev), b.f.tag != delim, o.contains(b.f.tag), first_at(o, b.f.tag) > prev
    ensures !listed(bs, b.f.tag), inst_ok(o, delim, bs.push(b), first_at(o, b.f.tag))
{
    let b2 = bs.push(b);
    assert forall|i: int, j: int| 0 < i < j < b2.len() implies first_at(o, #[trigger] b2[i].f.tag) < first_at(o, #[trigger] b2[j].f.tag) by {
        if j == bs.len() { assert(b2[i] == bs[i]); if i < bs.len() - 1 { assert(first_at(o, bs[i].f.tag) < first_at(o, bs[bs.len() - 1].f.tag)); } }
        else { assert(b2[i] == bs[i] && b2[j] == bs[j]); }
    }
    if listed(bs, b.f.tag) {
        let i = choose|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).f.tag == b.f.tag;
        assert(i > 0);
        assert(b2[i] == bs[i]); assert(b2[bs.len() as int] == b);
        assert(first_at(o, b2[i].f.tag) < first_at(o, b2[bs.len() as int].f.tag));
    }
}
// one unfolding of each rule
pub open spec fn i_next(rd: DataDictionary, mt: Seq<char>, delim: u32, n: nat, v: Seq<StringField>, insts: Seq<Seq<Blk>>, st: PStep) -> Result<(Seq<Seq<Blk>>, Seq<StringField>), SessionRejectReason> {
    match st {
        PStep::Done => Ok((insts, v)),
        PStep::Fail(e) => Err(e),
        PStep::Next(i2, rest, p2) => if rest.len() < v.len() { p_insts(rd, mt, delim, n, rest, i2, p2) } else { Err(SessionRejectReason::InvalidTag) },
    }
}
pub proof fn un_insts(rd: DataDictionary, mt: Seq<char>, delim: u32, n: nat, v: Seq<StringField>, insts: Seq<Seq<Blk>>, prev: int)
    ensures p_insts(rd, mt, delim, n, v, insts, prev) == i_next(rd, mt, delim, n, v, insts, p_step(rd, mt, delim, n, v, insts, prev))
{ match p_step(rd, mt, delim, n, v, insts, prev) { PStep::Next(i2, rest, p2) => { assert(p_insts(rd, mt, delim, n, rest, i2, p2) == p_insts(rd, mt, delim, n, rest, i2, p2)); } _ => {} } }
pub proof fn lem_insts_end(rd: DataDictionary, mt: Seq<char>, delim: u32, n: nat, v: Seq<StringField>, insts: Seq<Seq<Blk>>, prev: int)
    ensures v.len() == 0 ==> p_insts(rd, mt, delim, n, v, insts, prev) == Ok::<(Seq<Seq<Blk>>, Seq<StringField>), SessionRejectReason>((insts, v))
{ un_insts(rd, mt, delim, n, v, insts, prev); }
pub open spec fn s_next(rd: DataDictionary, mt: Seq<char>, delim: u32, n: nat, v: Seq<StringField>, insts: Seq<Seq<Blk>>, prev: int, g: Result<(GT, Seq<StringField>), SessionRejectReason>) -> PStep {
    if v.len() == 0 { PStep::Done } else {
        let f = v[0];
        let r = v.drop_first();
        let o = first_at(rd.fields_order@, f.tag);
        if f.tag == delim {
            if insts.len() >= n { PStep::Fail(SessionRejectReason::IncorrectNumInGroupCountForRepeatingGroup) }
            else if d_grp(rd, mt, f.tag) is Some {
                match g {
                    Err(e) => PStep::Fail(e),
                    Ok((gt, rest)) => PStep::Next(insts.push(seq![Blk { f, grp: Some(gt) }]), rest, -1),
                }
            } else { PStep::Next(insts.push(seq![Blk { f, grp: None }]), r, -1) }
        } else if d_grp(rd, mt, f.tag) is Some || d_field(rd, mt, f.tag) {
            if insts.len() == 0 { PStep::Fail(SessionRejectReason::RequiredTagMissing) }
            else if o == prev { PStep::Fail(SessionRejectReason::TagAppearsMoreThanOnce) }
            else if o < prev { PStep::Fail(SessionRejectReason::RepeatingGroupsOutOfOrder) }
            else if d_grp(rd, mt, f.tag) is Some {
                match g {
                    Err(e) => PStep::Fail(e),
                    Ok((gt, rest)) => PStep::Next(add_last(insts, Blk { f, grp: Some(gt) }), rest, o),
                }
            } else { PStep::Next(add_last(insts, Blk { f, grp: None }), r, o) }
        } else { PStep::Done }
    }
}
pub proof fn un_step(rd: DataDictionary, mt: Seq<char>, delim: u32, n: nat, v: Seq<StringField>, insts: Seq<Seq<Blk>>, prev: int)
    ensures p_step(rd, mt, delim, n, v, insts, prev) == s_next(rd, mt, delim, n, v, insts, prev, p_group(rd, mt, v[0], v.drop_first()))
{}
pub open spec fn g_next(dd: DataDictionary, mt: Seq<char>, fld: StringField, v: Seq<StringField>, i: spec_fn(GroupInfo) -> Result<(Seq<Seq<Blk>>, Seq<StringField>), SessionRejectReason>) -> Result<(GT, Seq<StringField>), SessionRejectReason> {
    match d_grp(dd, mt, fld.tag) {
        None => Err(SessionRejectReason::TagNotDefinedForMsgType),
        Some(rg) =>
            if !parse_ok::<u32>(fld.value@) { Err(SessionRejectReason::IncorrectDataFormatForValue) }
            else if parse_val::<u32>(fld.value@) > v.len() { Err(SessionRejectReason::IncorrectNumInGroupCountForRepeatingGroup) }
            else { g_done(fld, rg.delimiter, parse_val::<u32>(fld.value@), i(rg)) },
    }
}
pub proof fn un_group(dd: DataDictionary, mt: Seq<char>, fld: StringField, v: Seq<StringField>)
    ensures p_group(dd, mt, fld, v) == g_next(dd, mt, fld, v, |rg: GroupInfo| p_insts(rg.data_dictionary, mt, rg.delimiter, parse_val::<u32>(fld.value@) as nat, v, seq![], -1))
{ match d_grp(dd, mt, fld.tag) { Some(rg) => { assert(p_insts(rg.data_dictionary, mt, rg.delimiter, parse_val::<u32>(fld.value@) as nat, v, seq![], -1) == p_insts(rg.data_dictionary, mt, rg.delimiter, parse_val::<u32>(fld.value@) as nat, v, seq![], -1)); } None => {} } }
pub proof fn lem_member(rg: GroupInfo, mt: Seq<char>, t: u32)
    requires giwf(rg)
    ensures (d_grp(rg.data_dictionary, mt, t) is Some || d_field(rg.data_dictionary, mt, t)) ==> rg.data_dictionary.fields_order@.contains(t), dwf(rg.data_dictionary),
        rg.data_dictionary.fields_order@.len() < 0x8000_0000,
{}
pub proof fn lem_giwf(rg: GroupInfo)
    requires giwf(rg)
    ensures dwf(rg.data_dictionary), 0 < rg.data_dictionary.fields_order@.len() < 0x8000_0000, rg.data_dictionary.fields_order@[0] == rg.delimiter
{}
pub proof fn lem_grp_wf(dd: DataDictionary, mt: Seq<char>, t: u32)
    requires dwf(dd)
    ensures d_grp(dd, mt, t) matches Some(rg) ==> giwf(rg)
{}
pub proof fn lem_ginv_start(g: Seq<FieldMap>, n: nat, rd: DataDictionary, mt: Seq<char>, delim: u32)
    requires g.len() == n, forall|i: int| 0 <= i < n ==> empty_fm(#[trigger] g[i], seq![delim]) && wf(g[i])
    ensures ginv(g, seq![], n, rd, mt, delim, -1)
{}
pub proof fn lem_ginv_at(g: Seq<FieldMap>, insts: Seq<Seq<Blk>>, n: nat, rd: DataDictionary, mt: Seq<char>, delim: u32, prev: int)
    requires ginv(g, insts, n, rd, mt, delim, prev)
    ensures g.len() == n, insts.len() <= n, forall|i: int| 0 <= i < n ==> wf(#[trigger] g[i]),
        insts.len() > 0 ==> g[insts.len() - 1].field_order@ == rd.fields_order@
{
    assert forall|i: int| 0 <= i < n implies wf(#[trigger] g[i]) by { if i < insts.len() { assert(insts[i] == insts[i]); } }
    if insts.len() > 0 { assert(insts[insts.len() - 1] == insts.last()); }
}
pub proof fn lem_ginv_done(g: Group, gt: GT, rg: GroupInfo, insts: Seq<Seq<Blk>>, n: nat, mt: Seq<char>, prev: int)
    requires ginv(g.fields@, insts, n, rg.data_dictionary, mt, rg.delimiter, prev), insts.len() == n, g.delim == gt.delim, g.tag == gt.tag, g.value == gt.value, gt.insts == insts,
    ensures gholds(g, gt, rg, mt), gwf(g)
{
    assert forall|i: int| 0 <= i < g.fields@.len() implies wf(#[trigger] g.fields@[i]) by { assert(insts[i] == insts[i]); }
    assert(gwf(g));
    assert forall|j: int| 0 <= j < gt.insts.len() implies { let x = #[trigger] gt.insts[j]; holds(g.fields@[j].fields@, g.fields@[j].group@, x, rg.data_dictionary, mt) } by { assert(insts[j] == gt.insts[j]); }
    assert forall|j: int| 0 <= j < g.fields@.len() implies #[trigger] g.fields@[j].field_order@ == rg.data_dictionary.fields_order@ by { assert(insts[j] == gt.insts[j]); }
    assert(gholds(g, gt, rg, mt));
}
// the position found in a vector of references is the first position
pub proof fn lem_posn(o: Seq<u32>, v: Seq<&u32>, t: u32)
    requires derefs(v) == o
    ensures v.len() == o.len(), o.contains(t) ==> 0 <= first_at(o, t) < o.len() && *v[first_at(o, t)] == t,
        forall|i: int| 0 <= i < first_at(o, t) && i < v.len() ==> *(#[trigger] v[i]) != t
{
    lem_first_at(o, t);
    if o.contains(t) { assert(o[first_at(o, t)] == derefs(v)[first_at(o, t)]); }
    assert forall|i: int| 0 <= i < first_at(o, t) && i < v.len() implies *(#[trigger] v[i]) != t by { assert(derefs(v)[i] == *v[i]); }
}
pub proof fn lem_ginv_mk(g0: Seq<FieldMap>, g1: Seq<FieldMap>, insts: Seq<Seq<Blk>>, n: nat, rd: DataDictionary, mt: Seq<char>, delim: u32, prev: int, i2: Seq<Seq<Blk>>, p2: int, k: int, x: Seq<Blk>)
    requires ginv(g0, insts, n, rd, mt, delim, prev), 0 <= k < n, (k == insts.len() && i2 == insts.push(x)) || (k == insts.len() - 1 && i2 == insts.update(k, x)),
        holds(g1[k].fields@, g1[k].group@, x, rd, mt), inst_ok(rd.fields_order@, delim, x, p2), g1[k].field_order@ == rd.fields_order@, wf(g1[k]),
        g1.len() == n, forall|j: int| 0 <= j < n && j != k ==> g1[j] == g0[j],
    ensures ginv(g1, i2, n, rd, mt, delim, p2)
{
    assert(i2[k] == x); assert(i2.last() == x);
    assert forall|j: int| 0 <= j < i2.len() implies #[trigger] g1[j].field_order@ == rd.fields_order@ by { if j < k { assert(g1[j] == g0[j]); } }
    assert forall|j: int| 0 <= j < n implies wf(#[trigger] g1[j]) by { if j != k { assert(g1[j] == g0[j]); } }
    assert forall|j: int| 0 <= j < i2.len() implies { let x = #[trigger] i2[j]; holds(g1[j].fields@, g1[j].group@, x, rd, mt) } by {
        if j < k { assert(i2[j] == insts[j]); assert(g1[j] == g0[j]); }
    }
    assert forall|j: int| i2.len() <= j < n implies empty_fm(#[trigger] g1[j], seq![delim]) by { assert(g1[j] == g0[j]); }
    assert forall|j: int| 0 <= j < i2.len() implies inst_any(rd.fields_order@, delim, #[trigger] i2[j]) by {
        if j < k { assert(i2[j] == insts[j]); } else { assert(inst_ok(rd.fields_order@, delim, i2[j], p2)); }
    }
}
// the loop of parse_group keeps its invariant
pub proof fn lem_ginv_step(g0: Seq<FieldMap>, g1: Seq<FieldMap>, insts: Seq<Seq<Blk>>, n: nat, rd: DataDictionary, mt: Seq<char>, delim: u32, prev: int,
        v: Seq<StringField>, i2: Seq<Seq<Blk>>, rest: Seq<StringField>, p2: int, k: int, b: Blk)
    requires ginv(g0, insts, n, rd, mt, delim, prev), p_step(rd, mt, delim, n, v, insts, prev) == PStep::Next(i2, rest, p2),
        v.len() > 0, b.f == v[0], b == i2.last().last(), i2.last().len() > 0, k == i2.len() - 1, 0 <= k < n, g1 == g0.update(k, g1[k]), g1.len() == n,
        g1[k].fields@ == g0[k].fields@.insert(b.f.tag, b.f), g1[k].field_order@ == rd.fields_order@, wf(g1[k]),
        match b.grp {
            None => g1[k].group@ == g0[k].group@,
            Some(t) => g1[k].group@.contains_key(b.f.tag) && g1[k].group@ == g0[k].group@.insert(b.f.tag, g1[k].group@[b.f.tag])
                && d_grp(rd, mt, b.f.tag) is Some && gholds(g1[k].group@[b.f.tag], t, d_grp(rd, mt, b.f.tag)->0, mt),
        },
        (d_grp(rd, mt, b.f.tag) is Some || d_field(rd, mt, b.f.tag)) ==> rd.fields_order@.contains(b.f.tag),
    ensures ginv(g1, i2, n, rd, mt, delim, p2)
{
    let o = rd.fields_order@;
    if v[0].tag == delim {
        assert(i2.len() == insts.len() + 1);
        assert(empty_fm(g0[k], seq![delim]));
        lem_holds_empty(rd, mt);
        lem_holds_push(g0[k].fields@, g0[k].group@, g1[k].group@, seq![], b, rd, mt);
        assert(i2.last() =~= Seq::<Blk>::empty().push(b));
        assert(inst_ok(o, delim, i2.last(), -1));
    } else {
        assert(i2.len() == insts.len());
        assert(i2.last() =~= insts.last().push(b));
        assert(o.contains(b.f.tag));
        lem_new_tag(o, delim, insts.last(), prev, b);
        assert(insts[k] == insts.last());
        lem_holds_push(g0[k].fields@, g0[k].group@, g1[k].group@, insts.last(), b, rd, mt);
    }
    lem_ginv_mk(g0, g1, insts, n, rd, mt, delim, prev, i2, p2, k, i2.last());
}
pub proof fn p_shrinks(rd: DataDictionary, mt: Seq<char>, delim: u32, n: nat, v: Seq<StringField>, insts: Seq<Seq<Blk>>, prev: int)
    ensures p_insts(rd, mt, delim, n, v, insts, prev) matches Ok((i, rest)) ==> rest.len() <= v.len()
    decreases v.len()
{
    match p_step(rd, mt, delim, n, v, insts, prev) {
        PStep::Next(i2, rest, p2) => { if rest.len() < v.len() { p_shrinks(rd, mt, delim, n, rest, i2, p2); } }
        _ => {}
    }
}
pub proof fn p_group_shrinks(dd: DataDictionary, mt: Seq<char>, fld: StringField, v: Seq<StringField>)
    ensures p_group(dd, mt, fld, v) matches Ok((g, rest)) ==> rest.len() <= v.len()
{
    match d_grp(dd, mt, fld.tag) {
        Some(rg) => { p_shrinks(rg.data_dictionary, mt, rg.delimiter, parse_val::<u32>(fld.value@) as nat, v, seq![], -1); }
        None => {}
    }
}
pub proof fn p_step_shrinks(rd: DataDictionary, mt: Seq<char>, delim: u32, n: nat, v: Seq<StringField>, insts: Seq<Seq<Blk>>, prev: int)
    ensures p_step(rd, mt, delim, n, v, insts, prev) matches PStep::Next(i2, rest, p2) ==> rest.len() < v.len()
{
    if v.len() > 0 { p_group_shrinks(rd, mt, v[0], v.drop_first()); }
}
// ---------------------------------------------------------------- the sections
pub proof fn lem_holds_listed(fields: Map<u32, StringField>, group: Map<u32, Group>, bs: Seq<Blk>, dd: DataDictionary, mt: Seq<char>, t: u32)
    requires holds(fields, group, bs, dd, mt)
    ensures fields.contains_key(t) == listed(bs, t)
{
    if listed(bs, t) { let i = choose|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).f.tag == t; assert(fields.contains_key(bs[i].f.tag)); }
}
pub proof fn lem_msg_type(fm: FieldMap, h: Seq<Blk>, dd: DataDictionary)
    requires fholds(fm, h, dd, S_HEADER_ID())
    ensures fm.fields@.contains_key(35) == listed(h, 35), listed(h, 35) ==> fm.fields@[35].value@ == msg_type(h)
{
    lem_holds_listed(fm.fields@, fm.group@, h, dd, S_HEADER_ID(), 35);
    if listed(h, 35) {
        let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).f.tag == 35;
        assert(fm.fields@[h[i].f.tag] == h[i].f);
    }
}
// a block is added to a section
pub proof fn lem_section(f0: FieldMap, f1: FieldMap, bs: Seq<Blk>, dd: DataDictionary, mt: Seq<char>, f: StringField, r: Seq<StringField>)
    requires fholds(f0, bs, dd, mt), !listed(bs, f.tag), p_field(dd, mt, f, r) is Ok,
        f1.fields@ == f0.fields@.insert(f.tag, f),
        d_grp(dd, mt, f.tag) is None ==> f1.group@ == f0.group@,
        d_grp(dd, mt, f.tag) is Some ==> f1.group@.contains_key(f.tag) && f1.group@ == f0.group@.insert(f.tag, f1.group@[f.tag])
            && p_group(dd, mt, f, r) is Ok && gholds(f1.group@[f.tag], p_group(dd, mt, f, r)->Ok_0.0, d_grp(dd, mt, f.tag)->0, mt),
    ensures fholds(f1, bs.push(p_field(dd, mt, f, r)->Ok_0.0), dd, mt), p_field(dd, mt, f, r)->Ok_0.1.len() <= r.len()
{
    let b = p_field(dd, mt, f, r)->Ok_0.0;
    p_group_shrinks(dd, mt, f, r);
    lem_holds_push(f0.fields@, f0.group@, f1.group@, bs, b, dd, mt);
}
pub proof fn lem_section_end(dd: DataDictionary, mt: Seq<char>, v: Seq<StringField>, bs: Seq<Blk>)
    requires v.len() == 0
    ensures p_header(dd, v, bs) == Ok::<(Seq<Blk>, Seq<StringField>), SessionRejectReason>((bs, v)), p_body(dd, mt, v, bs) == Ok::<(Seq<Blk>, Seq<StringField>), SessionRejectReason>((bs, v)),
        p_trailer(dd, v, bs) == Ok::<Seq<Blk>, SessionRejectReason>(bs)
{}
pub proof fn lem_t_err(ps: Seq<Seq<char>>, k: int, e: SessionRejectReason)
    requires 0 <= k < ps.len(), t_fields(ps.take(k)) is Ok, t_field(ps[k]) == Err::<StringField, SessionRejectReason>(e)
    ensures t_fields(ps) == Err::<Seq<StringField>, SessionRejectReason>(e)
    decreases ps.len()
{
    if k == ps.len() - 1 { assert(ps.drop_last() =~= ps.take(k)); }
    else { let d = ps.drop_last(); assert(d.take(k) =~= ps.take(k)); lem_t_err(d, k, e); }
}
pub proof fn lem_t_ok(ps: Seq<Seq<char>>, k: int)
    requires 0 <= k < ps.len(), t_fields(ps.take(k)) is Ok, t_field(ps[k]) is Ok
    ensures t_fields(ps.take(k + 1)) == Ok::<Seq<StringField>, SessionRejectReason>(t_fields(ps.take(k))->Ok_0.push(t_field(ps[k])->Ok_0))
{
    assert(ps.take(k + 1).drop_last() =~= ps.take(k));
}
pub proof fn lem_h_len(dd: DataDictionary, v: Seq<StringField>, bs: Seq<Blk>)
    ensures p_header(dd, v, bs) matches Ok((h, rest)) ==> rest.len() <= v.len()
    decreases v.len()
{
    if v.len() > 0 {
        match p_field(dd, S_HEADER_ID(), v[0], v.drop_first()) { Ok((b, rest)) => { if rest.len() < v.len() { lem_h_len(dd, rest, bs.push(b)); } } _ => {} }
    }
}
pub proof fn lem_b_len(dd: DataDictionary, mt: Seq<char>, v: Seq<StringField>, bs: Seq<Blk>)
    ensures p_body(dd, mt, v, bs) matches Ok((h, rest)) ==> rest.len() <= v.len()
    decreases v.len()
{
    if v.len() > 0 {
        match p_field(dd, mt, v[0], v.drop_first()) { Ok((b, rest)) => { if rest.len() < v.len() { lem_b_len(dd, mt, rest, bs.push(b)); } } _ => {} }
    }
}
pub proof fn lem_pieces_len(s: Seq<char>, c: char)
    ensures pieces(s, c).len() <= s.len()
    decreases s.len()
{
    if s.len() > 0 && find(s, c) < s.len() { lem_pieces_len(s.subrange(find(s, c) as int + 1, s.len() as int), c); }
}
pub proof fn lem_t_len(ps: Seq<Seq<char>>)
    ensures t_fields(ps) matches Ok(fs) ==> fs.len() == ps.len()
    decreases ps.len()
{ if ps.len() > 0 { lem_t_len(ps.drop_last()); } }
