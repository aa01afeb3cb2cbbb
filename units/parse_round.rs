// ---------------------------------------------------------------- C08: a parsed message, written and parsed again
// t is in no dictionary of the group, at any depth
pub open spec fn foreign(rg: GroupInfo, mt: Seq<char>, t: u32) -> bool decreases rg {
    let rd = rg.data_dictionary;
    &&& t != rg.delimiter && !member(rd, mt, t)
    &&& forall|g: u32| rd.groups@.contains_key(mk(mt)) && #[trigger] rd.groups@[mk(mt)]@.contains_key(g) ==> foreign(rd.groups@[mk(mt)]@[g], mt, t)
}
// t is in no group of the message type
pub open spec fn outside(dd: DataDictionary, mt: Seq<char>, t: u32) -> bool {
    forall|g: u32| dd.groups@.contains_key(mk(mt)) && #[trigger] dd.groups@[mk(mt)]@.contains_key(g) ==> foreign(dd.groups@[mk(mt)]@[g], mt, t)
}
pub proof fn lem_foreign_in(rg: GroupInfo, mt: Seq<char>, g: u32, t: u32)
    requires foreign(rg, mt, t), d_grp(rg.data_dictionary, mt, g) is Some
    ensures foreign(d_grp(rg.data_dictionary, mt, g)->0, mt, t)
{ assert(rg.data_dictionary.groups@[mk(mt)]@.contains_key(g)); }
pub proof fn lem_outside_in(dd: DataDictionary, mt: Seq<char>, g: u32, t: u32)
    requires outside(dd, mt, t), d_grp(dd, mt, g) is Some
    ensures foreign(d_grp(dd, mt, g)->0, mt, t)
{ assert(dd.groups@[mk(mt)]@.contains_key(g)); }
pub open spec fn stops(rg: GroupInfo, mt: Seq<char>, rest: Seq<StringField>, rest2: Seq<StringField>) -> bool {
    rest2.len() == 0 || (rest.len() > 0 && rest2[0] == rest[0]) || foreign(rg, mt, rest2[0].tag)
}
pub open spec fn eaten(v: Seq<StringField>, rest: Seq<StringField>) -> Seq<StringField> { v.take(v.len() - rest.len()) }
pub proof fn lem_suffix(a: Seq<StringField>, b: Seq<StringField>, v: Seq<StringField>, rest: Seq<StringField>)
    requires a + rest == b + v, rest.len() <= v.len()
    ensures v == eaten(v, rest) + rest
{
    let x = a + rest; let y = b + v;
    assert(x.len() == a.len() + rest.len());
    assert(y.len() == b.len() + v.len());
    assert(a.len() + rest.len() == b.len() + v.len());
    assert(v =~= eaten(v, rest) + rest) by {
        assert forall|i: int| v.len() - rest.len() <= i < v.len() implies v[i] == rest[i - (v.len() - rest.len())] by {
            assert((b + v)[b.len() + i] == v[i]);
            assert(a.len() <= b.len() + i < a.len() + rest.len());
            let q = b.len() + i;
            assert(0 <= q < (a + rest).len());
            assert((a + rest)[q] == (b + v)[q]);
            assert((a + rest)[q] == rest[q - a.len()]);
        }
    }
}
pub proof fn lem_fi_len(rg: GroupInfo, mt: Seq<char>, ii: Seq<Seq<Blk>>)
    requires forall|j: int| 0 <= j < ii.len() ==> inst_shape(rg, mt, #[trigger] ii[j])
    ensures fi(ii).len() >= ii.len()
    decreases ii.len()
{
    if ii.len() > 0 {
        let l = ii.last();
        assert(inst_shape(rg, mt, ii[ii.len() - 1]));
        let d = ii.drop_last();
        assert forall|j: int| 0 <= j < d.len() implies inst_shape(rg, mt, #[trigger] d[j]) by { assert(d[j] == ii[j]); }
        lem_fi_len(rg, mt, d);
        assert(fl(l).len() >= fb(l.last()).len());
        assert(fb(l.last()).len() >= 1);
    }
}
pub proof fn lem_group_ext(dd: DataDictionary, mt: Seq<char>, fld: StringField, v: Seq<StringField>, rest2: Seq<StringField>)
    requires dwf(dd), p_group(dd, mt, fld, v) is Ok, stops(d_grp(dd, mt, fld.tag)->0, mt, p_group(dd, mt, fld, v)->Ok_0.1, rest2)
    ensures ({
        let (gt, rest) = p_group(dd, mt, fld, v)->Ok_0;
        p_group(dd, mt, fld, eaten(v, rest) + rest2) == Ok::<(GT, Seq<StringField>), SessionRejectReason>((gt, rest2)) && v == eaten(v, rest) + rest
    })
    decreases v.len(), 3nat
{
    let (gt, rest) = p_group(dd, mt, fld, v)->Ok_0;
    lem_grp_wf(dd, mt, fld.tag);
    let rg = d_grp(dd, mt, fld.tag)->0;
    let n = parse_val::<u32>(fld.value@) as nat;
    let v2 = eaten(v, rest) + rest2;
    un_group(dd, mt, fld, v);
    un_group(dd, mt, fld, v2);
    lem_group_sound(dd, mt, fld, v);
    p_group_shrinks(dd, mt, fld, v);
    assert(seq![] + v =~= v);
    lem_suffix(fi(gt.insts), seq![], v, rest);
    lem_insts_ext(rg, mt, n, v, seq![], -1, rest2);
    lem_fi_len(rg, mt, gt.insts);
    assert(fi(gt.insts).len() == eaten(v, rest).len());
}
pub proof fn lem_insts_ext(rg: GroupInfo, mt: Seq<char>, n: nat, v: Seq<StringField>, insts: Seq<Seq<Blk>>, prev: int, rest2: Seq<StringField>)
    requires giwf(rg), insts_ok(rg, mt, insts, prev), p_insts(rg.data_dictionary, mt, rg.delimiter, n, v, insts, prev) is Ok,
        stops(rg, mt, p_insts(rg.data_dictionary, mt, rg.delimiter, n, v, insts, prev)->Ok_0.1, rest2)
    ensures ({
        let (i2, rest) = p_insts(rg.data_dictionary, mt, rg.delimiter, n, v, insts, prev)->Ok_0;
        p_insts(rg.data_dictionary, mt, rg.delimiter, n, eaten(v, rest) + rest2, insts, prev) == Ok::<(Seq<Seq<Blk>>, Seq<StringField>), SessionRejectReason>((i2, rest2))
            && v == eaten(v, rest) + rest
    })
    decreases v.len(), 2nat
{
    let rd = rg.data_dictionary;
    let (i2, rest) = p_insts(rd, mt, rg.delimiter, n, v, insts, prev)->Ok_0;
    let v2 = eaten(v, rest) + rest2;
    un_insts(rd, mt, rg.delimiter, n, v, insts, prev);
    un_insts(rd, mt, rg.delimiter, n, v2, insts, prev);
    un_step(rd, mt, rg.delimiter, n, v, insts, prev);
    un_step(rd, mt, rg.delimiter, n, v2, insts, prev);
    lem_step_sound(rg, mt, n, v, insts, prev);
    lem_insts_sound(rg, mt, n, v, insts, prev);
    p_shrinks(rd, mt, rg.delimiter, n, v, insts, prev);
    lem_suffix(fi(i2), fi(insts), v, rest);
    match p_step(rd, mt, rg.delimiter, n, v, insts, prev) {
        PStep::Done => {
            assert(rest == v);
            assert(v2 =~= rest2);
            assert(p_step(rd, mt, rg.delimiter, n, v2, insts, prev) == PStep::Done);
        }
        PStep::Next(ii, r1, p2) => {
            let f = v[0]; let w = v.drop_first();
            p_shrinks(rd, mt, rg.delimiter, n, r1, ii, p2);
            lem_insts_ext(rg, mt, n, r1, ii, p2, rest2);
            let r2 = eaten(r1, rest) + rest2;
            assert(v2[0] == f);
            assert(r1 == eaten(r1, rest) + rest);
            if d_grp(rd, mt, f.tag) is Some {
                lem_giwf(rg);
                let rg2 = d_grp(rd, mt, f.tag)->0;
                let w2 = eaten(w, r1) + r2;
                if eaten(r1, rest).len() == 0 { assert(r2 =~= rest2); assert(r1 =~= rest); if rest2.len() > 0 && foreign(rg, mt, rest2[0].tag) { lem_foreign_in(rg, mt, f.tag, rest2[0].tag); } }
                else { assert(r2[0] == eaten(r1, rest)[0]); assert(r1[0] == eaten(r1, rest)[0]); }
                assert(p_group(rd, mt, f, w) is Ok);
                assert(stops(rg2, mt, r1, r2));
                lem_group_ext(rd, mt, f, w, r2);
                assert(w == eaten(w, r1) + r1);
                assert(v2.drop_first() =~= w2) by { lem_split3(v, w, r1, rest, rest2); }
                assert(p_step(rd, mt, rg.delimiter, n, v2, insts, prev) == PStep::Next(ii, r2, p2));
            } else {
                assert(r1 == w);
                assert(v2.drop_first() =~= r2);
                assert(p_step(rd, mt, rg.delimiter, n, v2, insts, prev) == PStep::Next(ii, r2, p2));
            }
            assert(r2.len() < v2.len());
        }
        _ => {}
    }
}
pub proof fn lem_split3(v: Seq<StringField>, w: Seq<StringField>, r1: Seq<StringField>, rest: Seq<StringField>, rest2: Seq<StringField>)
    requires v.len() > 0, w == v.drop_first(), w == eaten(w, r1) + r1, r1 == eaten(r1, rest) + rest, v == eaten(v, rest) + rest, r1.len() <= w.len(), rest.len() <= r1.len()
    ensures (eaten(v, rest) + rest2).drop_first() == eaten(w, r1) + (eaten(r1, rest) + rest2)
{
    let a = (eaten(v, rest) + rest2).drop_first(); let b = eaten(w, r1) + (eaten(r1, rest) + rest2);
    let k = eaten(w, r1).len() as int; let l = eaten(r1, rest).len() as int;
    assert(a.len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        if i < k { assert(a[i] == v[i + 1]); assert(w[i] == v[i + 1]); assert(b[i] == w[i]); }
        else if i < k + l { assert(a[i] == v[i + 1]); assert(w[i] == v[i + 1]); assert(w[i] == r1[i - k]); assert(b[i] == r1[i - k]); }
        else { }
    }
    assert(a =~= b);
}
// a block that came from parsing
pub open spec fn parsed(dd: DataDictionary, mt: Seq<char>, b: Blk) -> bool {
    exists|r: Seq<StringField>| (#[trigger] p_field(dd, mt, b.f, r)) is Ok && p_field(dd, mt, b.f, r)->Ok_0.0 == b
}
pub open spec fn all_parsed(dd: DataDictionary, mt: Seq<char>, bs: Seq<Blk>) -> bool { forall|i: int| 0 <= i < bs.len() ==> parsed(dd, mt, #[trigger] bs[i]) }
pub open spec fn all_outside(dd: DataDictionary, mt: Seq<char>, bs: Seq<Blk>) -> bool { forall|i: int| 0 <= i < bs.len() ==> outside(dd, mt, (#[trigger] bs[i]).f.tag) }
pub proof fn lem_field_ext(dd: DataDictionary, mt: Seq<char>, b: Blk, rest2: Seq<StringField>)
    requires dwf(dd), parsed(dd, mt, b), rest2.len() == 0 || outside(dd, mt, rest2[0].tag)
    ensures p_field(dd, mt, b.f, fg(b.grp) + rest2) == Ok::<(Blk, Seq<StringField>), SessionRejectReason>((b, rest2))
{
    let r = choose|r: Seq<StringField>| (#[trigger] p_field(dd, mt, b.f, r)) is Ok && p_field(dd, mt, b.f, r)->Ok_0.0 == b;
    if d_grp(dd, mt, b.f.tag) is Some {
        let (gt, rest) = p_group(dd, mt, b.f, r)->Ok_0;
        if rest2.len() > 0 { lem_outside_in(dd, mt, b.f.tag, rest2[0].tag); }
        lem_group_ext(dd, mt, b.f, r, rest2);
        lem_group_sound(dd, mt, b.f, r);
        assert(fi(gt.insts) =~= eaten(r, rest)) by {
            assert((fi(gt.insts) + rest).len() == (eaten(r, rest) + rest).len());
            assert forall|i: int| 0 <= i < fi(gt.insts).len() implies fi(gt.insts)[i] == eaten(r, rest)[i] by { assert((fi(gt.insts) + rest)[i] == r[i]); }
        }
        assert(fg(b.grp) == fi(gt.insts));
    } else { assert(fg(b.grp) + rest2 =~= rest2); }
}
pub proof fn lem_h_parsed(dd: DataDictionary, v: Seq<StringField>, bs: Seq<Blk>)
    requires all_parsed(dd, S_HEADER_ID(), bs)
    ensures p_header(dd, v, bs) matches Ok((h, rest)) ==> all_parsed(dd, S_HEADER_ID(), h)
    decreases v.len()
{
    if v.len() > 0 {
        match p_field(dd, S_HEADER_ID(), v[0], v.drop_first()) {
            Ok((b, rest)) => {
                assert(b.f == v[0]);
                assert(parsed(dd, S_HEADER_ID(), b));
                let b2 = bs.push(b);
                assert forall|i: int| 0 <= i < b2.len() implies parsed(dd, S_HEADER_ID(), #[trigger] b2[i]) by { if i < bs.len() { assert(b2[i] == bs[i]); } }
                if rest.len() < v.len() { lem_h_parsed(dd, rest, b2); }
            }
            _ => {}
        }
    }
}
pub proof fn lem_b_parsed(dd: DataDictionary, mt: Seq<char>, v: Seq<StringField>, bs: Seq<Blk>)
    requires all_parsed(dd, mt, bs)
    ensures p_body(dd, mt, v, bs) matches Ok((h, rest)) ==> all_parsed(dd, mt, h)
    decreases v.len()
{
    if v.len() > 0 {
        match p_field(dd, mt, v[0], v.drop_first()) {
            Ok((b, rest)) => {
                assert(b.f == v[0]);
                assert(parsed(dd, mt, b));
                let b2 = bs.push(b);
                assert forall|i: int| 0 <= i < b2.len() implies parsed(dd, mt, #[trigger] b2[i]) by { if i < bs.len() { assert(b2[i] == bs[i]); } }
                if rest.len() < v.len() { lem_b_parsed(dd, mt, rest, b2); }
            }
            _ => {}
        }
    }
}
// one block at the front
pub proof fn lem_front(todo: Seq<Blk>, rest2: Seq<StringField>)
    requires todo.len() > 0
    ensures ({
        let v = fl(todo) + rest2; let r = fl(todo.drop_first()) + rest2;
        v.len() > 0 && v[0] == todo[0].f && v.drop_first() == fg(todo[0].grp) + r && r.len() < v.len() && (r.len() > 0 ==> r[0] == (if todo.len() > 1 { todo[1].f } else { rest2[0] }))
    })
{
    let b = todo[0]; let tail = todo.drop_first();
    assert(todo =~= seq![b] + tail);
    lem_fl_cat(seq![b], tail); lem_fl_one(b);
    let v = fl(todo) + rest2; let r = fl(tail) + rest2;
    assert(fl(todo) == fb(b) + fl(tail));
    assert(v =~= seq![b.f] + (fg(b.grp) + r));
    assert(v.drop_first() =~= fg(b.grp) + r);
    if tail.len() > 0 {
        let b1 = tail[0]; let t1 = tail.drop_first();
        assert(tail =~= seq![b1] + t1);
        lem_fl_cat(seq![b1], t1); lem_fl_one(b1);
        assert(fl(tail)[0] == b1.f);
    } else { assert(fl(tail) =~= seq![]); assert(r =~= rest2); }
}
pub proof fn lem_tail_facts(dd: DataDictionary, mt: Seq<char>, acc: Seq<Blk>, todo: Seq<Blk>)
    requires todo.len() > 0, distinct(acc + todo), all_parsed(dd, mt, todo), all_outside(dd, mt, todo)
    ensures !listed(acc, todo[0].f.tag), acc.push(todo[0]) + todo.drop_first() == acc + todo, all_parsed(dd, mt, todo.drop_first()), all_outside(dd, mt, todo.drop_first())
{
    let tail = todo.drop_first();
    assert(acc.push(todo[0]) + tail =~= acc + todo);
    if listed(acc, todo[0].f.tag) {
        let i = choose|i: int| 0 <= i < acc.len() && (#[trigger] acc[i]).f.tag == todo[0].f.tag;
        assert((acc + todo)[i] == acc[i]); assert((acc + todo)[acc.len() as int] == todo[0]);
    }
    assert forall|i: int| 0 <= i < tail.len() implies parsed(dd, mt, #[trigger] tail[i]) by { assert(tail[i] == todo[i + 1]); }
    assert forall|i: int| 0 <= i < tail.len() implies outside(dd, mt, (#[trigger] tail[i]).f.tag) by { assert(tail[i] == todo[i + 1]); }
}
pub proof fn lem_h_again(dd: DataDictionary, acc: Seq<Blk>, todo: Seq<Blk>, rest2: Seq<StringField>)
    requires dwf(dd), distinct(acc + todo), all_parsed(dd, S_HEADER_ID(), todo), all_outside(dd, S_HEADER_ID(), todo), all_header(dd, todo),
        rest2.len() > 0 ==> outside(dd, S_HEADER_ID(), rest2[0].tag) && !d_field(dd, S_HEADER_ID(), rest2[0].tag),
    ensures p_header(dd, fl(todo) + rest2, acc) == Ok::<(Seq<Blk>, Seq<StringField>), SessionRejectReason>((acc + todo, rest2))
    decreases todo.len()
{
    if todo.len() == 0 { assert(fl(todo) + rest2 =~= rest2); assert(acc + todo =~= acc); }
    else {
        let b = todo[0]; let tail = todo.drop_first();
        lem_front(todo, rest2);
        lem_tail_facts(dd, S_HEADER_ID(), acc, todo);
        assert(todo.len() > 1 ==> outside(dd, S_HEADER_ID(), todo[1].f.tag));
        lem_field_ext(dd, S_HEADER_ID(), b, fl(tail) + rest2);
        assert forall|i: int| 0 <= i < tail.len() implies d_field(dd, S_HEADER_ID(), (#[trigger] tail[i]).f.tag) by { assert(tail[i] == todo[i + 1]); }
        lem_h_again(dd, acc.push(b), tail, rest2);
    }
}
pub proof fn lem_b_again(dd: DataDictionary, mt: Seq<char>, acc: Seq<Blk>, todo: Seq<Blk>, rest2: Seq<StringField>)
    requires dwf(dd), distinct(acc + todo), all_parsed(dd, mt, todo), all_outside(dd, mt, todo), all_body(dd, todo),
        rest2.len() > 0 ==> outside(dd, mt, rest2[0].tag) && d_field(dd, S_TRAILER_ID(), rest2[0].tag) && !d_field(dd, S_HEADER_ID(), rest2[0].tag),
    ensures p_body(dd, mt, fl(todo) + rest2, acc) == Ok::<(Seq<Blk>, Seq<StringField>), SessionRejectReason>((acc + todo, rest2))
    decreases todo.len()
{
    if todo.len() == 0 { assert(fl(todo) + rest2 =~= rest2); assert(acc + todo =~= acc); }
    else {
        let b = todo[0]; let tail = todo.drop_first();
        lem_front(todo, rest2);
        lem_tail_facts(dd, mt, acc, todo);
        assert(todo.len() > 1 ==> outside(dd, mt, todo[1].f.tag));
        lem_field_ext(dd, mt, b, fl(tail) + rest2);
        assert forall|i: int| 0 <= i < tail.len() implies !d_field(dd, S_HEADER_ID(), (#[trigger] tail[i]).f.tag) && !d_field(dd, S_TRAILER_ID(), tail[i].f.tag) by { assert(tail[i] == todo[i + 1]); }
        lem_b_again(dd, mt, acc.push(b), tail, rest2);
    }
}
pub proof fn lem_t_again(dd: DataDictionary, acc: Seq<Blk>, todo: Seq<Blk>)
    requires distinct(acc + todo), all_trailer(dd, todo)
    ensures p_trailer(dd, fl(todo), acc) == Ok::<Seq<Blk>, SessionRejectReason>(acc + todo)
    decreases todo.len()
{
    if todo.len() == 0 { assert(acc + todo =~= acc); }
    else {
        let b = todo[0]; let tail = todo.drop_first();
        lem_front(todo, seq![]);
        assert(fl(todo) + seq![] =~= fl(todo)); assert(fl(tail) + seq![] =~= fl(tail)); assert(fg(b.grp) + fl(tail) =~= fl(tail));
        assert(acc.push(b) + tail =~= acc + todo);
        if listed(acc, b.f.tag) {
            let i = choose|i: int| 0 <= i < acc.len() && (#[trigger] acc[i]).f.tag == b.f.tag;
            assert((acc + todo)[i] == acc[i]); assert((acc + todo)[acc.len() as int] == b);
        }
        assert forall|i: int| 0 <= i < tail.len() implies d_field(dd, S_TRAILER_ID(), (#[trigger] tail[i]).f.tag) && tail[i].grp is None by { assert(tail[i] == todo[i + 1]); }
        assert(Blk { f: b.f, grp: None } == b);
        lem_t_again(dd, acc.push(b), tail);
    }
}
