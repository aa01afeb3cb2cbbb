// ---------------------------------------------------------------- the layout written is the one read
pub open spec fn same(a: Seq<Blk>, b: Seq<Blk>) -> bool {
    &&& distinct(a) && distinct(b)
    &&& forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i])
    &&& forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i])
}
pub open spec fn gvalid(dd: DataDictionary, mt: Seq<char>, b: Blk) -> bool {
    b.grp matches Some(g) ==> d_grp(dd, mt, b.f.tag) is Some && valid_gt(d_grp(dd, mt, b.f.tag)->0, mt, b.f, g)
}
pub open spec fn all_gvalid(dd: DataDictionary, mt: Seq<char>, bs: Seq<Blk>) -> bool { forall|i: int| 0 <= i < bs.len() ==> gvalid(dd, mt, #[trigger] bs[i]) }
pub proof fn lem_gvalid(dd: DataDictionary, mt: Seq<char>, bs: Seq<Blk>)
    requires valid_bs(dd, mt, bs)
    ensures all_gvalid(dd, mt, bs)
{}
pub proof fn lem_sorted_unique(o: Seq<u32>, delim: u32, a: Seq<Blk>, b: Seq<Blk>, p: int, i: int)
    requires same(a, b), forall|i: int, j: int| 0 <= i < j < a.len() ==> pos(o, #[trigger] a[i].f.tag) <= pos(o, #[trigger] a[j].f.tag),
        inst_ok(o, delim, b, p), 0 < o.len() < 0x8000_0000, o[0] == delim, 0 <= i
    ensures i < a.len() <==> i < b.len(), i < a.len() ==> a[i] == b[i]
    decreases i
{
    if i > 0 { assert forall|q: int| 0 <= q < i implies (q < a.len() <==> q < b.len()) && (q < a.len() ==> #[trigger] a[q] == b[q]) by { lem_sorted_unique(o, delim, a, b, p, q); } }
    if i < a.len() {
        assert(b.contains(a[i]));
        let k = choose|k: int| 0 <= k < b.len() && b[k] == a[i];
        if k < i { assert(a[k] == b[k]); assert(a[k].f.tag != a[i].f.tag); }
        assert(a.contains(b[i]));
        let l = choose|l: int| 0 <= l < a.len() && a[l] == b[i];
        if l < i { assert(a[l] == b[l]); assert(b[l].f.tag != b[i].f.tag); }
        if k > i {
            lem_first_at(o, b[i].f.tag); lem_first_at(o, b[k].f.tag);
            assert(b[k].f.tag != delim && o.contains(b[k].f.tag));
            if i == 0 { assert(o[0] == b[0].f.tag); assert(o.contains(b[0].f.tag)); assert(first_at(o, b[k].f.tag) > 0); assert(first_at(o, b[0].f.tag) == 0); }
            else { assert(o.contains(b[i].f.tag)); assert(first_at(o, b[i].f.tag) < first_at(o, b[k].f.tag)); }
            assert(pos(o, a[i].f.tag) <= pos(o, a[l].f.tag));
        }
    } else if i < b.len() {
        assert(a.contains(b[i]));
        let l = choose|l: int| 0 <= l < a.len() && a[l] == b[i];
        assert(a[l] == b[l]); assert(b[l].f.tag != b[i].f.tag);
    }
}
pub proof fn lem_same_bs(fields: Map<u32, StringField>, group: Map<u32, Group>, o: Seq<u32>, dd: DataDictionary, mt: Seq<char>, a: Seq<Blk>, b: Seq<Blk>)
    requires dwf(dd), lays(fields, group, o, a, true), holds(fields, group, b, dd, mt), all_gvalid(dd, mt, b)
    ensures same(a, b)
    decreases b, 1nat
{
    assert forall|i: int, k: int| 0 <= i < a.len() && 0 <= k < b.len() && #[trigger] a[i].f.tag == #[trigger] b[k].f.tag implies a[i] == b[k] by {
        assert(fields[a[i].f.tag] == a[i].f); assert(fields[b[k].f.tag] == b[k].f);
        match b[k].grp {
            Some(t) => {
                let u = a[i].grp->0;
                assert(a[i].grp is Some);
                let rg = d_grp(dd, mt, b[k].f.tag)->0;
                lem_grp_wf(dd, mt, b[k].f.tag);
                assert(gvalid(dd, mt, b[k]));
                lem_same_gt(group[b[k].f.tag], u, t, rg, mt, b[k].f);
            }
            None => { assert(a[i].grp is None); }
        }
    }
    assert forall|i: int| 0 <= i < a.len() implies b.contains(#[trigger] a[i]) by {
        assert(listed(b, a[i].f.tag));
        let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).f.tag == a[i].f.tag;
        assert(a[i] == b[k]);
    }
    assert forall|k: int| 0 <= k < b.len() implies a.contains(#[trigger] b[k]) by {
        assert(fields.contains_key(b[k].f.tag));
        let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i].f.tag == b[k].f.tag;
        assert(a[i] == b[k]);
    }
}
pub proof fn lem_same_gt(g: Group, u: GT, t: GT, rg: GroupInfo, mt: Seq<char>, f: StringField)
    requires giwf(rg), glays(g, u, true), gholds(g, t, rg, mt), valid_gt(rg, mt, f, t)
    ensures u == t
    decreases t, 2nat
{
    let rd = rg.data_dictionary;
    assert forall|j: int| 0 <= j < t.insts.len() implies u.insts[j] == t.insts[j] by {
        let x = t.insts[j]; let y = u.insts[j]; let fm = g.fields@[j];
        assert(holds(fm.fields@, fm.group@, x, rd, mt));
        assert(lays(fm.fields@, fm.group@, fm.field_order@, y, true));
        assert(valid_bs(rd, mt, x)); assert(inst_shape(rg, mt, x));
        lem_giwf(rg);
        lem_gvalid(rd, mt, x);
        lem_same_bs(fm.fields@, fm.group@, fm.field_order@, rd, mt, y, x);
        let p = choose|p: int| inst_ok(rd.fields_order@, rg.delimiter, x, p);
        assert(fm.field_order@ == rd.fields_order@);
        lem_sorted_unique(rd.fields_order@, rg.delimiter, y, x, p, x.len() as int);
        lem_sorted_unique(rd.fields_order@, rg.delimiter, y, x, p, y.len() as int);
        assert forall|i: int| 0 <= i < y.len() implies #[trigger] y[i] == x[i] by { lem_sorted_unique(rd.fields_order@, rg.delimiter, y, x, p, i); }
        assert(y =~= x);
    }
    assert(u.insts =~= t.insts);
}
pub proof fn lem_holds_same(fields: Map<u32, StringField>, group: Map<u32, Group>, a: Seq<Blk>, b: Seq<Blk>, dd: DataDictionary, mt: Seq<char>)
    requires holds(fields, group, a, dd, mt), same(a, b)
    ensures holds(fields, group, b, dd, mt)
{
    assert forall|i: int| 0 <= i < b.len() implies fields.contains_key(#[trigger] b[i].f.tag) && fields[b[i].f.tag] == b[i].f by {
        assert(a.contains(b[i])); let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i]; assert(fields.contains_key(a[k].f.tag));
    }
    assert forall|k: u32| #[trigger] fields.contains_key(k) implies listed(b, k) by {
        assert(listed(a, k)); let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).f.tag == k;
        assert(b.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(b[j].f.tag == k);
    }
    assert forall|i: int| 0 <= i < b.len() implies match (#[trigger] b[i]).grp {
            None => !group.contains_key(b[i].f.tag),
            Some(t) => group.contains_key(b[i].f.tag) && d_grp(dd, mt, b[i].f.tag) is Some && gholds(group[b[i].f.tag], t, d_grp(dd, mt, b[i].f.tag)->0, mt),
        } by {
        assert(a.contains(b[i])); let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i]; assert(a[k].f == b[i].f);
    }
}
pub proof fn lem_same_all(a: Seq<Blk>, b: Seq<Blk>, p: spec_fn(Blk) -> bool)
    requires same(a, b), forall|i: int| 0 <= i < b.len() ==> p(#[trigger] b[i])
    ensures forall|i: int| 0 <= i < a.len() ==> p(#[trigger] a[i])
{
    assert forall|i: int| 0 <= i < a.len() implies p(#[trigger] a[i]) by { assert(b.contains(a[i])); let k = choose|k: int| 0 <= k < b.len() && b[k] == a[i]; assert(p(b[k])); }
}
pub proof fn lem_same_listed(a: Seq<Blk>, b: Seq<Blk>, t: u32)
    requires same(a, b), listed(b, t)
    ensures listed(a, t), exists|i: int, k: int| 0 <= i < a.len() && 0 <= k < b.len() && #[trigger] a[i] == #[trigger] b[k] && b[k].f.tag == t
{
    let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).f.tag == t;
    assert(a.contains(b[k])); let i = choose|i: int| 0 <= i < a.len() && a[i] == b[k];
    assert(a[i].f.tag == t);
    assert(a[i] == b[k]);
}
pub proof fn lem_same_msg_type(a: Seq<Blk>, b: Seq<Blk>)
    requires same(a, b), listed(b, 35)
    ensures msg_type(a) == msg_type(b), listed(a, 35)
{
    lem_same_listed(a, b, 35);
    let (i, k) = choose|i: int, k: int| 0 <= i < a.len() && 0 <= k < b.len() && #[trigger] a[i] == #[trigger] b[k] && b[k].f.tag == 35;
    let i2 = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).f.tag == 35;
    let k2 = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).f.tag == 35;
    assert(i2 == i) by { if i2 < i { assert(a[i2].f.tag != a[i].f.tag); } else if i < i2 { assert(a[i].f.tag != a[i2].f.tag); } }
    assert(k2 == k) by { if k2 < k { assert(b[k2].f.tag != b[k].f.tag); } else if k < k2 { assert(b[k].f.tag != b[k2].f.tag); } }
}
// ---------------------------------------------------------------- no token inside a group has a foreign tag
pub open spec fn no_tag(fs: Seq<StringField>, t: u32) -> bool { forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).tag != t }
pub proof fn lem_no_tag_cat(a: Seq<StringField>, b: Seq<StringField>, t: u32)
    requires no_tag(a, t), no_tag(b, t)
    ensures no_tag(a + b, t)
{ assert forall|i: int| 0 <= i < (a + b).len() implies (#[trigger] (a + b)[i]).tag != t by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
pub proof fn lem_nt_bs(rg: GroupInfo, mt: Seq<char>, bs: Seq<Blk>, t: u32)
    requires foreign(rg, mt, t), all_gvalid(rg.data_dictionary, mt, bs), forall|i: int| 0 <= i < bs.len() ==> (#[trigger] bs[i]).f.tag != t
    ensures no_tag(fl(bs), t)
    decreases bs
{
    if bs.len() > 0 {
        let d = bs.drop_last(); let b = bs.last();
        assert(b == bs[bs.len() - 1]);
        assert forall|i: int| 0 <= i < d.len() implies gvalid(rg.data_dictionary, mt, #[trigger] d[i]) && d[i].f.tag != t by { assert(d[i] == bs[i]); }
        lem_nt_bs(rg, mt, d, t);
        assert(gvalid(rg.data_dictionary, mt, b));
        match b.grp {
            Some(g) => { lem_foreign_in(rg, mt, b.f.tag, t); lem_nt_gt(d_grp(rg.data_dictionary, mt, b.f.tag)->0, mt, b.f, g, t); lem_no_tag_cat(seq![b.f], fi(g.insts), t); }
            None => { assert(fb(b) =~= seq![b.f]); }
        }
        lem_no_tag_cat(fl(d), fb(b), t);
    }
}
pub proof fn lem_nt_gt(rg: GroupInfo, mt: Seq<char>, f: StringField, g: GT, t: u32)
    requires foreign(rg, mt, t), valid_gt(rg, mt, f, g)
    ensures no_tag(fi(g.insts), t)
    decreases g
{
    assert forall|j: int| 0 <= j < g.insts.len() implies no_tag(fl(#[trigger] g.insts[j]), t) by {
        let x = g.insts[j];
        assert(valid_bs(rg.data_dictionary, mt, x)); assert(inst_shape(rg, mt, x));
        lem_gvalid(rg.data_dictionary, mt, x);
        assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).f.tag != t by { if i > 0 { assert(member(rg.data_dictionary, mt, x[i].f.tag)); } }
        lem_nt_bs(rg, mt, x, t);
    }
    lem_nt_fi(g.insts, t);
}
pub proof fn lem_nt_fi(ii: Seq<Seq<Blk>>, t: u32)
    requires forall|j: int| 0 <= j < ii.len() ==> no_tag(fl(#[trigger] ii[j]), t)
    ensures no_tag(fi(ii), t)
    decreases ii.len()
{
    if ii.len() > 0 {
        let d = ii.drop_last();
        assert forall|j: int| 0 <= j < d.len() implies no_tag(fl(#[trigger] d[j]), t) by { assert(d[j] == ii[j]); }
        lem_nt_fi(d, t);
        assert(no_tag(fl(ii[ii.len() - 1]), t));
        lem_no_tag_cat(fi(d), fl(ii.last()), t);
    }
}
// the first three tokens are 8, 9 and 35 again
pub open spec fn front(h: Seq<Blk>, nine: bool) -> bool {
    if nine { h.len() >= 3 && h[0].f.tag == 8 && h[1].f.tag == 9 && h[2].f.tag == 35 } else { h.len() >= 2 && h[0].f.tag == 8 && h[1].f.tag == 35 }
}
proof fn lem_front_tags(h: Seq<Blk>, fm: FieldMap, h2: Seq<Blk>)
    requires same(h2, h), listed(h, 8), listed(h, 35), repr(fm, h2, true), fm.field_order@ == seq![8u32, 9, 35]
    ensures front(h2, listed(h, 9))
{
    lem_same_listed(h2, h, 8); lem_same_listed(h2, h, 35);
    if listed(h, 9) { lem_same_listed(h2, h, 9); }
    if listed(h2, 9) { lem_same_sym(h2, h); lem_same_listed(h, h2, 9); }
    lem_repr_has(fm, h2, 8); lem_repr_has(fm, h2, 9); lem_repr_has(fm, h2, 35);
    c07_header_starts_with_8_9_35(fm, h2);
}
proof fn lem_second(b: StringField, x: Seq<StringField>, r: Seq<StringField>, v: Seq<StringField>)
    requires v.len() > 0, v[0] == b, v.drop_first() == x + r
    ensures v.len() == 1 + x.len() + r.len(), x.len() >= 2 ==> v[1] == x[0] && v[2] == x[1], x.len() == 1 ==> v[1] == x[0] && (r.len() > 0 ==> v[2] == r[0]),
        x.len() == 0 ==> (r.len() > 0 ==> v[1] == r[0]) && (r.len() > 1 ==> v[2] == r[1])
{ let d = v.drop_first(); assert(v.len() == 1 + d.len()); if d.len() > 0 { assert(v[1] == d[0]); } if d.len() > 1 { assert(v[2] == d[1]); } }
pub proof fn lem_starts(dd: DataDictionary, h: Seq<Blk>, more: Seq<StringField>, fm: FieldMap, h2: Seq<Blk>, more2: Seq<StringField>)
    requires dwf(dd), same(h2, h), starts_well(fl(h) + more), listed(h, 35), all_gvalid(dd, S_HEADER_ID(), h), all_outside(dd, S_HEADER_ID(), h),
        repr(fm, h2, true), fm.field_order@ == seq![8u32, 9, 35], h.len() > 0,
    ensures starts_well(fl(h2) + more2)
{
    lem_front(h, more);
    assert(h[0].f.tag == 8);
    assert(listed(h, 8));
    lem_front_tags(h, fm, h2);
    lem_starts2(dd, h, more, h2, more2);
}
proof fn lem_starts2(dd: DataDictionary, h: Seq<Blk>, more: Seq<StringField>, h2: Seq<Blk>, more2: Seq<StringField>)
    requires dwf(dd), same(h2, h), starts_well(fl(h) + more), listed(h, 35), all_gvalid(dd, S_HEADER_ID(), h), all_outside(dd, S_HEADER_ID(), h),
        front(h2, listed(h, 9)), h.len() > 0,
    ensures starts_well(fl(h2) + more2)
{
    hide(fl); hide(fg); hide(all_gvalid); hide(all_outside); hide(same); hide(dwf);
    let v = fl(h) + more; let v2 = fl(h2) + more2;
    lem_front(h, more);
    let b = h[0]; let x = fg(b.grp); let t = h.drop_first(); let r = fl(t) + more;
    lem_second(b.f, x, r, v);
    lem_clean(dd, h, 0, 35);
    let k35 = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).f.tag == 35;
    assert(t.len() > 0) by { if h.len() == 1 { assert(h[0].f.tag == 35); } }
    lem_front(t, more);
    assert(t[0] == h[1]);
    assert(r[0] == h[1].f);
    lem_same_tag(h2, h, 0, 0);
    lem_front(h2, more2);
    let t2 = h2.drop_first(); let r2 = fl(t2) + more2;
    assert(t2[0] == h2[1]);
    lem_front(t2, more2);
    assert(r2[0] == h2[1].f);
    lem_second(b.f, x, r2, v2);
    if x.len() >= 2 { assert(x[1].tag == 35); }
    else if x.len() == 1 {
        // the 9 is inside the group of tag 8
        assert(x[0].tag == 9);
        if listed(h, 9) { lem_clean(dd, h, 0, 9); }
    } else {
        assert(h[1].f.tag == 9);
        assert(listed(h, 9));
        lem_clean(dd, h, 1, 35);
        let c = h[1]; let y = fg(c.grp); let q = fl(t.drop_first()) + more;
        lem_second(c.f, y, q, r);
        lem_same_tag(h2, h, 1, 1);
        let t3 = t2.drop_first(); let q2 = fl(t3) + more2;
        assert(t3[0] == h2[2]);
        lem_front(t3, more2);
        assert(q2[0] == h2[2].f);
        lem_second(c.f, y, q2, r2);
    }
}
// the tokens of a header block's group have no tag that is a field of the header itself
pub proof fn lem_clean(dd: DataDictionary, h: Seq<Blk>, i: int, t: u32)
    requires all_gvalid(dd, S_HEADER_ID(), h), all_outside(dd, S_HEADER_ID(), h), 0 <= i < h.len(), listed(h, t)
    ensures no_tag(fg(h[i].grp), t)
{
    let b = h[i];
    let k = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).f.tag == t;
    assert(outside(dd, S_HEADER_ID(), h[k].f.tag));
    assert(gvalid(dd, S_HEADER_ID(), h[i]));
    match b.grp { Some(g) => { lem_outside_in(dd, S_HEADER_ID(), b.f.tag, t); lem_nt_gt(d_grp(dd, S_HEADER_ID(), b.f.tag)->0, S_HEADER_ID(), b.f, g, t); } None => {} }
}
pub proof fn lem_same_sym(a: Seq<Blk>, b: Seq<Blk>) requires same(a, b) ensures same(b, a) {}
pub proof fn lem_same_tag(a: Seq<Blk>, b: Seq<Blk>, i: int, k: int)
    requires same(a, b), 0 <= i < a.len(), 0 <= k < b.len(), a[i].f.tag == b[k].f.tag
    ensures a[i] == b[k]
{
    assert(b.contains(a[i])); let l = choose|l: int| 0 <= l < b.len() && b[l] == a[i];
    if l < k { assert(b[l].f.tag != b[k].f.tag); } else if k < l { assert(b[k].f.tag != b[l].f.tag); }
}
pub proof fn lem_repr_has(fm: FieldMap, bs: Seq<Blk>, t: u32)
    requires repr(fm, bs, true)
    ensures has(fm, t) == listed(bs, t)
{
    if has(fm, t) { let i = choose|i: int| 0 <= i < bs.len() && #[trigger] bs[i].f.tag == t; assert(bs[i].f.tag == t); }
    if listed(bs, t) { let i = choose|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).f.tag == t; assert(fm.fields@.contains_key(bs[i].f.tag)); }
}
// ---------------------------------------------------------------- the text of a layout is cut into its fields again
pub open spec fn lacks(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
pub proof fn lem_find_lacks(a: Seq<char>, b: Seq<char>, c: char)
    requires lacks(a, c)
    ensures find(a + seq![c] + b, c) == a.len(), find(a, c) == a.len()
    decreases a.len()
{
    let x = a + seq![c] + b;
    if a.len() > 0 {
        assert(a[0] != c); assert(x[0] == a[0]);
        assert forall|i: int| 0 <= i < a.drop_first().len() implies #[trigger] a.drop_first()[i] != c by { assert(a[i + 1] != c); }
        lem_find_lacks(a.drop_first(), b, c);
        assert(x.drop_first() =~= a.drop_first() + seq![c] + b);
    } else { assert(x[0] == c); }
}
pub proof fn lem_find_at(s: Seq<char>, c: char)
    ensures find(s, c) <= s.len(), find(s, c) < s.len() ==> s[find(s, c) as int] == c, lacks(s.subrange(0, find(s, c) as int), c)
    decreases s.len()
{
    find_bound(s, c);
    if s.len() > 0 && s[0] != c {
        let d = s.drop_first();
        lem_find_at(d, c);
        assert forall|i: int| 0 <= i < find(s, c) implies #[trigger] s.subrange(0, find(s, c) as int)[i] != c by { if i > 0 { assert(d.subrange(0, find(d, c) as int)[i - 1] == d[i - 1]); } }
    }
}
pub proof fn lem_pieces_app(a: Seq<char>, x: Seq<char>, c: char)
    requires a.len() == 0 || a.last() == c, lacks(x, c)
    ensures pieces(a + x + seq![c], c) == pieces(a, c).push(x)
    decreases a.len()
{
    let s = a + x + seq![c];
    if a.len() == 0 {
        assert(s =~= x + seq![c] + Seq::<char>::empty());
        lem_find_lacks(x, seq![], c);
        assert(s.subrange(0, x.len() as int) =~= x);
        assert(s.subrange(x.len() as int + 1, s.len() as int) =~= seq![]);
        assert(pieces(Seq::<char>::empty(), c) =~= seq![]);
        assert(pieces(s, c) =~= seq![x]);
        assert(pieces(a, c).push(x) =~= seq![x]);
    } else {
        lem_find_at(a, c);
        let k = find(a, c) as int;
        if k == a.len() { assert(a.subrange(0, k)[a.len() - 1] == c); }
        let p = a.subrange(0, k); let a2 = a.subrange(k + 1, a.len() as int);
        assert(s =~= p + seq![c] + (a2 + x + seq![c]));
        lem_find_lacks(p, a2 + x + seq![c], c);
        assert(s.subrange(0, k) =~= p);
        assert(s.subrange(k + 1, s.len() as int) =~= a2 + x + seq![c]);
        if a2.len() > 0 { assert(a2.last() == a.last()); }
        lem_pieces_app(a2, x, c);
        assert(pieces(s, c) == seq![p] + pieces(a2, c).push(x));
        assert(seq![p] + pieces(a2, c).push(x) =~= (seq![p] + pieces(a2, c)).push(x));
    }
}
// a number in decimal has digits only, and is read back
pub proof fn lem_dec_digits(n: nat)
    ensures lacks(dec(n), '='), lacks(dec(n), '\u{1}'), dec(n).len() > 0
    decreases n
{ if n >= 10 { lem_dec_digits(n / 10); } }
pub open spec fn good_field(f: StringField) -> bool { f.value@.len() > 0 && lacks(f.value@, '\u{1}') }
pub proof fn lem_field_again(f: StringField)
    requires good_field(f)
    ensures ({ let p = dec(f.tag as nat) + seq!['='] + f.value@; t_field(p) == Ok::<StringField, SessionRejectReason>(f) && lacks(p, '\u{1}') && ftext(f) == p + seq!['\u{1}'] })
{
    let d = dec(f.tag as nat); let p = d + seq!['='] + f.value@;
    lem_dec_digits(f.tag as nat);
    lem_find_lacks(d, f.value@, '=');
    assert(p.subrange(0, d.len() as int) =~= d);
    assert(p.subrange(d.len() as int + 1, p.len() as int) =~= f.value@);
    ax_parse_dec(f.tag);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] != '\u{1}' by { if i < d.len() { assert(p[i] == d[i]); } else if i > d.len() { assert(p[i] == f.value@[i - d.len() - 1]); } }
}
pub proof fn lem_text_again(fs: Seq<StringField>)
    requires forall|i: int| 0 <= i < fs.len() ==> good_field(#[trigger] fs[i])
    ensures t_fields(pieces(text(fs), '\u{1}')) == Ok::<Seq<StringField>, SessionRejectReason>(fs), text(fs).len() == 0 || text(fs).last() == '\u{1}'
    decreases fs.len()
{
    if fs.len() == 0 { assert(fs =~= seq![]); }
    else {
        let d = fs.drop_last(); let f = fs.last();
        assert(f == fs[fs.len() - 1]);
        assert forall|i: int| 0 <= i < d.len() implies good_field(#[trigger] d[i]) by { assert(d[i] == fs[i]); }
        lem_text_again(d);
        lem_field_again(f);
        let p = dec(f.tag as nat) + seq!['='] + f.value@;
        lem_pieces_app(text(d), p, '\u{1}');
        assert(text(fs) =~= text(d) + p + seq!['\u{1}']);
        let ps = pieces(text(d), '\u{1}');
        assert(ps.push(p).drop_last() =~= ps);
        assert(d.push(f) =~= fs);
    }
}
// the fields of a text are good
pub proof fn lem_pieces_lack(s: Seq<char>, c: char)
    ensures forall|i: int| 0 <= i < pieces(s, c).len() ==> lacks(#[trigger] pieces(s, c)[i], c)
    decreases s.len()
{
    if s.len() > 0 {
        lem_find_at(s, c);
        let k = find(s, c) as int;
        if k >= s.len() { assert(s.subrange(0, k) =~= s); }
        else {
            let r = s.subrange(k + 1, s.len() as int);
            lem_pieces_lack(r, c);
            assert forall|i: int| 0 <= i < pieces(s, c).len() implies lacks(#[trigger] pieces(s, c)[i], c) by { if i > 0 { assert(pieces(s, c)[i] == pieces(r, c)[i - 1]); } }
        }
    }
}
pub proof fn lem_fields_good(ps: Seq<Seq<char>>)
    requires t_fields(ps) is Ok, forall|i: int| 0 <= i < ps.len() ==> lacks(#[trigger] ps[i], '\u{1}')
    ensures forall|i: int| 0 <= i < t_fields(ps)->Ok_0.len() ==> good_field(#[trigger] t_fields(ps)->Ok_0[i])
    decreases ps.len()
{
    if ps.len() > 0 {
        let d = ps.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies lacks(#[trigger] d[i], '\u{1}') by { assert(d[i] == ps[i]); }
        lem_fields_good(d);
        let p = ps.last(); let f = t_field(p)->Ok_0;
        assert(lacks(ps[ps.len() - 1], '\u{1}'));
        let k = find(p, '=') as int;
        assert(good_field(f)) by { assert forall|i: int| 0 <= i < f.value@.len() implies #[trigger] f.value@[i] != '\u{1}' by { assert(f.value@[i] == p[k + 1 + i]); } }
        let fs = t_fields(ps)->Ok_0;
        assert forall|i: int| 0 <= i < fs.len() implies good_field(#[trigger] fs[i]) by { if i < fs.len() - 1 { assert(fs[i] == t_fields(d)->Ok_0[i]); } }
    }
}
// all tokens of a layout satisfy what all tokens of another layout with the same blocks do
pub proof fn lem_same_tokens(a: Seq<Blk>, b: Seq<Blk>, p: spec_fn(StringField) -> bool)
    requires same(a, b), forall|i: int| 0 <= i < fl(b).len() ==> p(#[trigger] fl(b)[i])
    ensures forall|i: int| 0 <= i < fl(a).len() ==> p(#[trigger] fl(a)[i])
{
    assert forall|k: int| 0 <= k < a.len() implies all_tok(fb(#[trigger] a[k]), p) by {
        assert(b.contains(a[k])); let q = choose|q: int| 0 <= q < b.len() && b[q] == a[k];
        let l = b.take(q); let r = b.skip(q + 1);
        assert(b =~= l + (seq![b[q]] + r));
        lem_fl_cat(l, seq![b[q]] + r); lem_fl_cat(seq![b[q]], r); lem_fl_one(b[q]);
        assert forall|i: int| 0 <= i < fb(a[k]).len() implies p(#[trigger] fb(a[k])[i]) by { assert(fl(b)[fl(l).len() + i] == fb(a[k])[i]); }
    }
    lem_all_tok(a, p);
}
pub open spec fn all_tok(fs: Seq<StringField>, p: spec_fn(StringField) -> bool) -> bool { forall|i: int| 0 <= i < fs.len() ==> p(#[trigger] fs[i]) }
pub proof fn lem_all_tok(a: Seq<Blk>, p: spec_fn(StringField) -> bool)
    requires forall|k: int| 0 <= k < a.len() ==> all_tok(fb(#[trigger] a[k]), p)
    ensures all_tok(fl(a), p)
    decreases a.len()
{
    if a.len() > 0 {
        let d = a.drop_last();
        assert forall|k: int| 0 <= k < d.len() implies all_tok(fb(#[trigger] d[k]), p) by { assert(d[k] == a[k]); }
        lem_all_tok(d, p);
        assert(all_tok(fb(a[a.len() - 1]), p));
        assert forall|i: int| 0 <= i < fl(a).len() implies p(#[trigger] fl(a)[i]) by { if i < fl(d).len() { assert(fl(a)[i] == fl(d)[i]); } else { assert(fl(a)[i] == fb(a.last())[i - fl(d).len()]); } }
    }
}
// the top-level fields of the message are in no group of its type, nor of the header, and no trailer field is also a header field
pub open spec fn no_header(dd: DataDictionary, bs: Seq<Blk>) -> bool { forall|i: int| 0 <= i < bs.len() ==> !d_field(dd, S_HEADER_ID(), (#[trigger] bs[i]).f.tag) }
pub open spec fn apart(dd: DataDictionary, t: Tree) -> bool {
    &&& all_outside(dd, S_HEADER_ID(), t.h) && all_outside(dd, S_HEADER_ID(), t.b) && all_outside(dd, S_HEADER_ID(), t.t)
    &&& no_header(dd, t.t)
    &&& all_outside(dd, msg_type(t.h), t.h) && all_outside(dd, msg_type(t.h), t.b) && all_outside(dd, msg_type(t.h), t.t)
}
