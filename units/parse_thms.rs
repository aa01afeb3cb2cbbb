// ---------------------------------------------------------------- what the rules accept: trees that follow the dictionary, holding exactly the tokens
pub open spec fn valid_bs(dd: DataDictionary, mt: Seq<char>, bs: Seq<Blk>) -> bool decreases bs {
    forall|i: int| 0 <= i < bs.len() ==> match (#[trigger] bs[i]).grp {
        None => d_grp(dd, mt, bs[i].f.tag) is None,
        Some(g) => d_grp(dd, mt, bs[i].f.tag) is Some && valid_gt(d_grp(dd, mt, bs[i].f.tag)->0, mt, bs[i].f, g),
    }
}
// a group as the dictionary wants it: the count is the number of instances, every instance starts with the delimiter,
// its members are the dictionary's, in the dictionary's order without repetition, and so are nested groups
pub open spec fn valid_gt(rg: GroupInfo, mt: Seq<char>, f: StringField, g: GT) -> bool decreases g {
    &&& g.delim == rg.delimiter && g.tag == f.tag && parse_ok::<u32>(f.value@) && g.value == parse_val::<u32>(f.value@) && g.insts.len() == g.value
    &&& forall|j: int| 0 <= j < g.insts.len() ==> { let x = #[trigger] g.insts[j]; valid_bs(rg.data_dictionary, mt, x) }
    &&& forall|j: int| 0 <= j < g.insts.len() ==> inst_shape(rg, mt, #[trigger] g.insts[j])
}
pub open spec fn inst_shape(rg: GroupInfo, mt: Seq<char>, bs: Seq<Blk>) -> bool {
    &&& inst_any(rg.data_dictionary.fields_order@, rg.delimiter, bs)
    &&& forall|i: int| 0 < i < bs.len() ==> member(rg.data_dictionary, mt, (#[trigger] bs[i]).f.tag)
}
pub open spec fn member(rd: DataDictionary, mt: Seq<char>, t: u32) -> bool { d_field(rd, mt, t) || d_grp(rd, mt, t) is Some }
// the instances read so far
pub open spec fn insts_ok(rg: GroupInfo, mt: Seq<char>, insts: Seq<Seq<Blk>>, prev: int) -> bool {
    &&& forall|j: int| 0 <= j < insts.len() ==> { let x = #[trigger] insts[j]; valid_bs(rg.data_dictionary, mt, x) }
    &&& forall|j: int| 0 <= j < insts.len() ==> inst_shape(rg, mt, #[trigger] insts[j])
    &&& insts.len() > 0 ==> inst_ok(rg.data_dictionary.fields_order@, rg.delimiter, insts.last(), prev)
}
pub proof fn lem_valid_push(dd: DataDictionary, mt: Seq<char>, bs: Seq<Blk>, b: Blk)
    requires valid_bs(dd, mt, bs), match b.grp {
        None => d_grp(dd, mt, b.f.tag) is None,
        Some(g) => d_grp(dd, mt, b.f.tag) is Some && valid_gt(d_grp(dd, mt, b.f.tag)->0, mt, b.f, g),
    }
    ensures valid_bs(dd, mt, bs.push(b))
{
    let b2 = bs.push(b);
    assert forall|i: int| 0 <= i < b2.len() implies match (#[trigger] b2[i]).grp {
        None => d_grp(dd, mt, b2[i].f.tag) is None,
        Some(g) => d_grp(dd, mt, b2[i].f.tag) is Some && valid_gt(d_grp(dd, mt, b2[i].f.tag)->0, mt, b2[i].f, g),
    } by { if i < bs.len() { assert(b2[i] == bs[i]); } }
}
pub proof fn lem_valid_nil(dd: DataDictionary, mt: Seq<char>) ensures valid_bs(dd, mt, seq![]) {}
// the tokens of one more block
pub proof fn lem_fi_new(insts: Seq<Seq<Blk>>, b: Blk)
    ensures fi(insts.push(seq![b])) == fi(insts) + fb(b)
{ lem_fl_one(b); assert(insts.push(seq![b]).drop_last() =~= insts); assert(insts.push(seq![b]).last() == seq![b]); }
pub proof fn lem_fi_add(insts: Seq<Seq<Blk>>, b: Blk)
    requires insts.len() > 0
    ensures fi(add_last(insts, b)) == fi(insts) + fb(b)
{
    let x = add_last(insts, b);
    assert(x.drop_last() =~= insts.drop_last());
    assert(x.last() == insts.last().push(b));
    assert(insts.last().push(b).drop_last() =~= insts.last());
    assert(fl(x.last()) == fl(insts.last()) + fb(b));
    assert(fi(x) =~= fi(insts) + fb(b));
}
pub proof fn lem_step_sound(rg: GroupInfo, mt: Seq<char>, n: nat, v: Seq<StringField>, insts: Seq<Seq<Blk>>, prev: int)
    requires giwf(rg), insts_ok(rg, mt, insts, prev)
    ensures p_step(rg.data_dictionary, mt, rg.delimiter, n, v, insts, prev) matches PStep::Next(i2, rest, p2) ==> insts_ok(rg, mt, i2, p2) && fi(i2) + rest == fi(insts) + v && rest.len() < v.len()
        && (insts.len() <= n ==> i2.len() <= n) && (insts.len() > 0 ==> i2.len() > 0)
    decreases v.len(), 1nat
{
    let rd = rg.data_dictionary;
    if v.len() > 0 {
        let f = v[0]; let r = v.drop_first();
        un_step(rd, mt, rg.delimiter, n, v, insts, prev);
        p_step_shrinks(rd, mt, rg.delimiter, n, v, insts, prev);
        lem_member(rg, mt, f.tag);
        lem_first_at(rd.fields_order@, f.tag);
        lem_group_sound(rd, mt, f, r);
        match p_step(rd, mt, rg.delimiter, n, v, insts, prev) {
            PStep::Next(i2, rest, p2) => {
                let b = i2.last().last();
                assert(v =~= seq![f] + r);
                assert(b.f == f);
                assert(fb(b) + rest =~= v) by {
                    match b.grp { Some(g) => { assert(fb(b) =~= seq![f] + fi(g.insts)); assert(seq![f] + (fi(g.insts) + rest) =~= fb(b) + rest); } None => { assert(fb(b) =~= seq![f]); } }
                }
                let x = if f.tag == rg.delimiter { seq![b] } else { insts.last().push(b) };
                if f.tag == rg.delimiter {
                    assert(i2 =~= insts.push(seq![b]));
                    lem_fi_new(insts, b);
                    lem_valid_nil(rd, mt);
                    lem_valid_push(rd, mt, seq![], b);
                    assert(x =~= Seq::<Blk>::empty().push(b));
                    assert(inst_ok(rd.fields_order@, rg.delimiter, x, -1));
                } else {
                    assert(i2 =~= add_last(insts, b));
                    lem_fi_add(insts, b);
                    assert(insts[insts.len() - 1] == insts.last());
                    lem_valid_push(rd, mt, insts.last(), b);
                    lem_new_tag(rd.fields_order@, rg.delimiter, insts.last(), prev, b);
                    assert forall|i: int| 0 < i < x.len() implies member(rd, mt, (#[trigger] x[i]).f.tag) by { if i < insts.last().len() { assert(x[i] == insts.last()[i]); } }
                }
                assert(fi(i2) + rest =~= fi(insts) + v) by { assert((fi(insts) + fb(b)) + rest =~= fi(insts) + (fb(b) + rest)); }
                assert(inst_ok(rd.fields_order@, rg.delimiter, x, p2));
                assert(inst_shape(rg, mt, x));
                let k = i2.len() - 1;
                assert(i2[k] == x);
                assert forall|j: int| 0 <= j < i2.len() implies { let y = #[trigger] i2[j]; valid_bs(rd, mt, y) } by { if j < k { assert(i2[j] == insts[j]); } }
                assert forall|j: int| 0 <= j < i2.len() implies inst_shape(rg, mt, #[trigger] i2[j]) by { if j < k { assert(i2[j] == insts[j]); } }
            }
            _ => {}
        }
    }
}
pub proof fn lem_insts_sound(rg: GroupInfo, mt: Seq<char>, n: nat, v: Seq<StringField>, insts: Seq<Seq<Blk>>, prev: int)
    requires giwf(rg), insts_ok(rg, mt, insts, prev)
    ensures p_insts(rg.data_dictionary, mt, rg.delimiter, n, v, insts, prev) matches Ok((i2, rest)) ==> fi(i2) + rest == fi(insts) + v && exists|p2: int| insts_ok(rg, mt, i2, p2)
    decreases v.len(), 2nat
{
    let rd = rg.data_dictionary;
    un_insts(rd, mt, rg.delimiter, n, v, insts, prev);
    lem_step_sound(rg, mt, n, v, insts, prev);
    match p_step(rd, mt, rg.delimiter, n, v, insts, prev) {
        PStep::Next(i2, rest, p2) => { lem_insts_sound(rg, mt, n, rest, i2, p2); }
        _ => {}
    }
}
pub proof fn lem_group_sound(dd: DataDictionary, mt: Seq<char>, fld: StringField, v: Seq<StringField>)
    requires dwf(dd)
    ensures p_group(dd, mt, fld, v) matches Ok((gt, rest)) ==> d_grp(dd, mt, fld.tag) is Some && valid_gt(d_grp(dd, mt, fld.tag)->0, mt, fld, gt) && fi(gt.insts) + rest == v
    decreases v.len(), 3nat
{
    lem_grp_wf(dd, mt, fld.tag);
    un_group(dd, mt, fld, v);
    match d_grp(dd, mt, fld.tag) {
        Some(rg) => {
            let n = parse_val::<u32>(fld.value@) as nat;
            lem_insts_sound(rg, mt, n, v, seq![], -1);
            assert(fi(seq![]) + v =~= v);
            match p_group(dd, mt, fld, v) {
                Ok((gt, rest)) => {
                    let p2 = choose|p2: int| insts_ok(rg, mt, gt.insts, p2);
                    assert(valid_gt(rg, mt, fld, gt));
                }
                _ => {}
            }
        }
        None => {}
    }
}
// ---------------------------------------------------------------- the sections
pub open spec fn distinct(bs: Seq<Blk>) -> bool { forall|i: int, j: int| 0 <= i < j < bs.len() ==> #[trigger] bs[i].f.tag != #[trigger] bs[j].f.tag }
pub open spec fn all_header(dd: DataDictionary, bs: Seq<Blk>) -> bool { forall|i: int| 0 <= i < bs.len() ==> d_field(dd, S_HEADER_ID(), (#[trigger] bs[i]).f.tag) }
pub open spec fn all_trailer(dd: DataDictionary, bs: Seq<Blk>) -> bool { forall|i: int| 0 <= i < bs.len() ==> d_field(dd, S_TRAILER_ID(), (#[trigger] bs[i]).f.tag) && bs[i].grp is None }
pub open spec fn all_body(dd: DataDictionary, bs: Seq<Blk>) -> bool {
    forall|i: int| 0 <= i < bs.len() ==> !d_field(dd, S_HEADER_ID(), (#[trigger] bs[i]).f.tag) && !d_field(dd, S_TRAILER_ID(), bs[i].f.tag)
}
pub proof fn lem_distinct_push(bs: Seq<Blk>, b: Blk)
    requires distinct(bs), !listed(bs, b.f.tag)
    ensures distinct(bs.push(b))
{
    let b2 = bs.push(b);
    assert forall|i: int, j: int| 0 <= i < j < b2.len() implies #[trigger] b2[i].f.tag != #[trigger] b2[j].f.tag by { assert(b2[i] == bs[i]); if j < bs.len() { assert(b2[j] == bs[j]); } }
}
pub proof fn lem_field_sound(dd: DataDictionary, mt: Seq<char>, f: StringField, r: Seq<StringField>, bs: Seq<Blk>)
    requires dwf(dd), valid_bs(dd, mt, bs), p_field(dd, mt, f, r) is Ok
    ensures ({ let (b, rest) = p_field(dd, mt, f, r)->Ok_0; b.f == f && valid_bs(dd, mt, bs.push(b)) && fl(bs.push(b)) + rest == fl(bs) + (seq![f] + r) && rest.len() <= r.len() })
{
    let (b, rest) = p_field(dd, mt, f, r)->Ok_0;
    lem_group_sound(dd, mt, f, r);
    p_group_shrinks(dd, mt, f, r);
    lem_valid_push(dd, mt, bs, b);
    assert(bs.push(b).drop_last() =~= bs);
    match b.grp { Some(g) => { assert(fb(b) =~= seq![f] + fi(g.insts)); } None => { assert(fb(b) =~= seq![f]); } }
    assert(fl(bs.push(b)) + rest =~= fl(bs) + (seq![f] + r));
}
pub proof fn lem_h_sound(dd: DataDictionary, v: Seq<StringField>, bs: Seq<Blk>)
    requires dwf(dd), valid_bs(dd, S_HEADER_ID(), bs), distinct(bs), all_header(dd, bs)
    ensures p_header(dd, v, bs) matches Ok((h, rest)) ==> valid_bs(dd, S_HEADER_ID(), h) && distinct(h) && all_header(dd, h) && fl(h) + rest == fl(bs) + v
        && (rest.len() > 0 ==> !d_field(dd, S_HEADER_ID(), rest[0].tag))
    decreases v.len()
{
    if v.len() > 0 && d_field(dd, S_HEADER_ID(), v[0].tag) && !listed(bs, v[0].tag) {
        match p_field(dd, S_HEADER_ID(), v[0], v.drop_first()) {
            Ok((b, rest)) => {
                lem_field_sound(dd, S_HEADER_ID(), v[0], v.drop_first(), bs);
                assert(seq![v[0]] + v.drop_first() =~= v);
                lem_distinct_push(bs, b);
                assert forall|i: int| 0 <= i < bs.push(b).len() implies d_field(dd, S_HEADER_ID(), (#[trigger] bs.push(b)[i]).f.tag) by { if i < bs.len() { assert(bs.push(b)[i] == bs[i]); } }
                lem_h_sound(dd, rest, bs.push(b));
            }
            _ => {}
        }
    }
}
pub proof fn lem_b_sound(dd: DataDictionary, mt: Seq<char>, v: Seq<StringField>, bs: Seq<Blk>)
    requires dwf(dd), valid_bs(dd, mt, bs), distinct(bs), all_body(dd, bs)
    ensures p_body(dd, mt, v, bs) matches Ok((h, rest)) ==> valid_bs(dd, mt, h) && distinct(h) && all_body(dd, h) && fl(h) + rest == fl(bs) + v
        && (rest.len() > 0 ==> d_field(dd, S_TRAILER_ID(), rest[0].tag))
    decreases v.len()
{
    if v.len() > 0 && !d_field(dd, S_HEADER_ID(), v[0].tag) && !d_field(dd, S_TRAILER_ID(), v[0].tag) && !listed(bs, v[0].tag) {
        match p_field(dd, mt, v[0], v.drop_first()) {
            Ok((b, rest)) => {
                lem_field_sound(dd, mt, v[0], v.drop_first(), bs);
                assert(seq![v[0]] + v.drop_first() =~= v);
                lem_distinct_push(bs, b);
                let b2 = bs.push(b);
                assert forall|i: int| 0 <= i < b2.len() implies !d_field(dd, S_HEADER_ID(), (#[trigger] b2[i]).f.tag) && !d_field(dd, S_TRAILER_ID(), b2[i].f.tag) by { if i < bs.len() { assert(b2[i] == bs[i]); } }
                lem_b_sound(dd, mt, rest, b2);
            }
            _ => {}
        }
    }
}
pub proof fn lem_tr_sound(dd: DataDictionary, v: Seq<StringField>, bs: Seq<Blk>)
    requires distinct(bs), all_trailer(dd, bs)
    ensures p_trailer(dd, v, bs) matches Ok(t) ==> distinct(t) && all_trailer(dd, t) && fl(t) == fl(bs) + v
    decreases v.len()
{
    if v.len() == 0 { assert(fl(bs) + v =~= fl(bs)); }
    else if d_field(dd, S_TRAILER_ID(), v[0].tag) && !listed(bs, v[0].tag) {
        let b = Blk { f: v[0], grp: None };
        let b2 = bs.push(b);
        assert(b2.drop_last() =~= bs);
        assert(fb(b) =~= seq![v[0]]);
        assert(fl(b2) + v.drop_first() =~= fl(bs) + v);
        lem_distinct_push(bs, b);
        assert forall|i: int| 0 <= i < b2.len() implies d_field(dd, S_TRAILER_ID(), (#[trigger] b2[i]).f.tag) && b2[i].grp is None by { if i < bs.len() { assert(b2[i] == bs[i]); } }
        lem_tr_sound(dd, v.drop_first(), b2);
    }
}
// what is accepted
pub open spec fn accepted(dd: DataDictionary, v: Seq<StringField>, t: Tree) -> bool {
    &&& valid_bs(dd, S_HEADER_ID(), t.h) && distinct(t.h) && all_header(dd, t.h) && listed(t.h, 35)
    &&& valid_bs(dd, msg_type(t.h), t.b) && distinct(t.b) && all_body(dd, t.b)
    &&& distinct(t.t) && all_trailer(dd, t.t)
    &&& fl(t.h) + fl(t.b) + fl(t.t) == v
    &&& starts_well(v)
}
pub proof fn lem_message_sound(dd: DataDictionary, v: Seq<StringField>)
    requires dwf(dd)
    ensures p_message(dd, v) matches Ok(t) ==> accepted(dd, v, t)
{
    let e = Seq::<Blk>::empty();
    lem_valid_nil(dd, S_HEADER_ID());
    lem_h_sound(dd, v, e);
    assert(fl(e) + v =~= v);
    match p_header(dd, v, e) {
        Ok((h, v1)) => {
            lem_valid_nil(dd, msg_type(h));
            lem_b_sound(dd, msg_type(h), v1, e);
            assert(fl(e) + v1 =~= v1);
            match p_body(dd, msg_type(h), v1, e) {
                Ok((b, v2)) => {
                    lem_tr_sound(dd, v2, e);
                    assert(fl(e) + v2 =~= v2);
                    match p_trailer(dd, v2, e) { Ok(t) => { assert(fl(h) + fl(b) + fl(t) =~= v); } _ => {} }
                }
                _ => {}
            }
        }
        _ => {}
    }
}
