pub proof fn lem_total_cat(a: Seq<StringField>, b: Seq<StringField>, w: spec_fn(StringField) -> int)
    ensures total(a + b, w) == total(a, w) + total(b, w)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { lem_total_cat(a, b.drop_last(), w); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn lem_text_cat(a: Seq<StringField>, b: Seq<StringField>)
    ensures text(a + b) == text(a) + text(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(text(a) + text(b) =~= text(a)); }
    else { lem_text_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(text(a + b) =~= text(a) + text(b)); }
}
pub proof fn lem_bsum_cat(a: Seq<u8>, b: Seq<u8>)
    ensures bsum(a + b) == bsum(a) + bsum(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { lem_bsum_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn lem_fl_cat(a: Seq<Blk>, b: Seq<Blk>)
    ensures fl(a + b) == fl(a) + fl(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(fl(a) + fl(b) =~= fl(a)); }
    else { lem_fl_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(fl(a + b) =~= fl(a) + fl(b)); }
}
pub proof fn lem_fl_one(x: Blk) ensures fl(seq![x]) == fb(x)
{ let s = seq![x]; assert(s.drop_last() =~= seq![]); assert(fl(s.drop_last()) =~= seq![]); assert(s.last() == x); assert(fl(s) =~= fb(x)); }
pub proof fn lem_fi_cat(a: Seq<Seq<Blk>>, b: Seq<Seq<Blk>>)
    ensures fi(a + b) == fi(a) + fi(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(fi(a) + fi(b) =~= fi(a)); }
    else { lem_fi_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(fi(a + b) =~= fi(a) + fi(b)); }
}
pub proof fn lem_fl_remove(b: Seq<Blk>, q: int, w: spec_fn(StringField) -> int)
    requires 0 <= q < b.len()
    ensures total(fl(b), w) == total(fl(b.remove(q)), w) + total(fb(b[q]), w)
{
    let l = b.subrange(0, q); let r = b.subrange(q + 1, b.len() as int);
    assert(b =~= l + seq![b[q]] + r);
    assert(b.remove(q) =~= l + r);
    lem_fl_cat(l + seq![b[q]], r); lem_fl_cat(l, seq![b[q]]); lem_fl_cat(l, r); lem_fl_one(b[q]);
    lem_total_cat(fl(l) + fb(b[q]), fl(r), w); lem_total_cat(fl(l), fb(b[q]), w); lem_total_cat(fl(l), fl(r), w);
}
pub proof fn lem_lays_remove(fields: Map<u32, StringField>, group: Map<u32, Group>, o: Seq<u32>, b: Seq<Blk>, q: int, s: bool)
    requires lays(fields, group, o, b, s), 0 <= q < b.len()
    ensures lays(fields.remove(b[q].f.tag), group, o, b.remove(q), s)
{
    let k = b[q].f.tag;
    let f2 = fields.remove(k); let b2 = b.remove(q);
    assert forall|i: int| 0 <= i < b2.len() implies #[trigger] b2[i] == (if i < q { b[i] } else { b[i + 1] }) by {}
    assert forall|m: u32| #[trigger] f2.contains_key(m) implies exists|i: int| 0 <= i < b2.len() && #[trigger] b2[i].f.tag == m by {
        assert(fields.contains_key(m));
        let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i].f.tag == m;
        if i < q { assert(b2[i].f.tag == m); } else { assert(b2[i - 1].f.tag == m); }
    }
    assert forall|i: int| 0 <= i < b2.len() implies f2.contains_key(#[trigger] b2[i].f.tag) && f2[b2[i].f.tag] == b2[i].f by {
        if i < q { assert(b[i].f.tag != b[q].f.tag); } else { assert(b[q].f.tag != b[i + 1].f.tag); }
    }
}
// any two layouts of the same container have the same total
pub proof fn lem_perm(fields: Map<u32, StringField>, group: Map<u32, Group>, o1: Seq<u32>, o2: Seq<u32>, a: Seq<Blk>, b: Seq<Blk>, s1: bool, s2: bool, w: spec_fn(StringField) -> int)
    requires lays(fields, group, o1, a, s1), lays(fields, group, o2, b, s2)
    ensures total(fl(a), w) == total(fl(b), w)
    decreases a
{
    if a.len() == 0 {
        if b.len() > 0 { assert(fields.contains_key(b[0].f.tag)); }
    } else {
        let x = a.last();
        let k = x.f.tag;
        assert(a[a.len() - 1] == x);
        assert(fields.contains_key(k));
        let q = choose|q: int| 0 <= q < b.len() && #[trigger] b[q].f.tag == k;
        assert(b[q].f == x.f);
        // the block itself
        match x.grp {
            Some(t) => {
                match b[q].grp { Some(u) => { lem_gperm(group[k], t, u, s1, s2, w); }, None => {} }
            }
            None => {}
        }
        lem_total_cat(seq![x.f], fg(x.grp), w); lem_total_cat(seq![b[q].f], fg(b[q].grp), w);
        // the others
        let f2 = fields.remove(k); let a2 = a.drop_last(); let b2 = b.remove(q);
        lem_lays_remove(fields, group, o1, a, a.len() - 1, s1);
        lem_lays_remove(fields, group, o2, b, q, s2);
        assert(a.remove(a.len() - 1) =~= a2);
        lem_perm(f2, group, o1, o2, a2, b2, s1, s2, w);
        lem_fl_remove(b, q, w);
        lem_total_cat(fl(a2), fb(x), w);
    }
}
pub proof fn lem_gperm(g: Group, t: GT, u: GT, s1: bool, s2: bool, w: spec_fn(StringField) -> int)
    requires glays(g, t, s1), glays(g, u, s2)
    ensures total(fi(t.insts), w) == total(fi(u.insts), w)
    decreases t
{
    lem_iperm(g.fields@, t.insts, u.insts, s1, s2, w);
}
pub proof fn lem_iperm(g: Seq<FieldMap>, t: Seq<Seq<Blk>>, u: Seq<Seq<Blk>>, s1: bool, s2: bool, w: spec_fn(StringField) -> int)
    requires g.len() == t.len(), g.len() == u.len(),
        forall|j: int| 0 <= j < t.len() ==> lays(g[j].fields@, g[j].group@, g[j].field_order@, #[trigger] t[j], s1),
        forall|j: int| 0 <= j < u.len() ==> lays(g[j].fields@, g[j].group@, g[j].field_order@, #[trigger] u[j], s2),
    ensures total(fi(t), w) == total(fi(u), w)
    decreases t
{
    if t.len() > 0 {
        let n = t.len() - 1;
        assert(t[n] == t.last() && u[n] == u.last());
        lem_perm(g[n].fields@, g[n].group@, g[n].field_order@, g[n].field_order@, t.last(), u.last(), s1, s2, w);
        lem_iperm(g.drop_last(), t.drop_last(), u.drop_last(), s1, s2, w);
        lem_total_cat(fi(t.drop_last()), fl(t.last()), w);
        lem_total_cat(fi(u.drop_last()), fl(u.last()), w);
    }
}
pub proof fn lem_unsorted(fields: Map<u32, StringField>, group: Map<u32, Group>, o: Seq<u32>, bs: Seq<Blk>, s: bool)
    requires lays(fields, group, o, bs, s)
    ensures lays(fields, group, o, bs, false)
    decreases bs
{
    assert forall|i: int| 0 <= i < bs.len() implies match (#[trigger] bs[i]).grp {
            None => !group.contains_key(bs[i].f.tag),
            Some(t) => group.contains_key(bs[i].f.tag) && glays(group[bs[i].f.tag], t, false),
        } by {
        match bs[i].grp { Some(t) => { lem_gunsorted(group[bs[i].f.tag], t, s); } None => {} }
    }
}
pub proof fn lem_gunsorted(g: Group, t: GT, s: bool)
    requires glays(g, t, s)
    ensures glays(g, t, false)
    decreases t
{
    assert forall|j: int| 0 <= j < t.insts.len() implies lays(g.fields@[j].fields@, g.fields@[j].group@, g.fields@[j].field_order@, #[trigger] t.insts[j], false) by {
        lem_unsorted(g.fields@[j].fields@, g.fields@[j].group@, g.fields@[j].field_order@, t.insts[j], s);
    }
}
pub proof fn total_is(fm: FieldMap, bs: Seq<Blk>, s: bool, w: spec_fn(StringField) -> int)
    requires repr(fm, bs, s)
    ensures fm_total(fm, w) == total(fl(bs), w)
{
    lem_unsorted(fm.fields@, fm.group@, fm.field_order@, bs, s);
    assert(repr(fm, bs, false));
    let c = choose|bs: Seq<Blk>| repr(fm, bs, false);
    lem_perm(fm.fields@, fm.group@, fm.field_order@, fm.field_order@, c, bs, false, s, w);
}
// writing a field of weight zero over one of weight zero (or none) leaves the total
pub proof fn lem_set_weightless(old_fm: FieldMap, new_fm: FieldMap, f: StringField, bs: Seq<Blk>, w: spec_fn(StringField) -> int)
    requires repr(old_fm, bs, false), wf(old_fm), new_fm.fields@ == old_fm.fields@.insert(f.tag, f), new_fm.group@ == old_fm.group@,
        w(f) == 0, old_fm.fields@.contains_key(f.tag) ==> w(old_fm.fields@[f.tag]) == 0,
    ensures fm_total(new_fm, w) == fm_total(old_fm, w), exists|b2: Seq<Blk>| repr(new_fm, b2, false)
{
    total_is(old_fm, bs, false, w);
    if old_fm.fields@.contains_key(f.tag) {
        let q = choose|q: int| 0 <= q < bs.len() && #[trigger] bs[q].f.tag == f.tag;
        let x = Blk { f, grp: bs[q].grp };
        let b2 = bs.update(q, x);
        assert forall|k: u32| #[trigger] new_fm.fields@.contains_key(k) implies exists|i: int| 0 <= i < b2.len() && #[trigger] b2[i].f.tag == k by {
            let i = choose|i: int| 0 <= i < bs.len() && #[trigger] bs[i].f.tag == k;
            assert(b2[i].f.tag == k);
        }
        assert(repr(new_fm, b2, false));
        total_is(new_fm, b2, false, w);
        lem_fl_remove(bs, q, w); lem_fl_remove(b2, q, w);
        assert(bs.remove(q) =~= b2.remove(q));
        lem_total_cat(seq![bs[q].f], fg(bs[q].grp), w); lem_total_cat(seq![f], fg(x.grp), w);
        assert(total(seq![f], w) == total(seq![f].drop_last(), w) + w(f));
        assert(total(seq![bs[q].f], w) == total(seq![bs[q].f].drop_last(), w) + w(bs[q].f));
        assert(seq![f].drop_last() =~= seq![] && seq![bs[q].f].drop_last() =~= seq![]);
    } else {
        let x = Blk { f, grp: None };
        let b2 = bs.push(x);
        assert(!old_fm.group@.contains_key(f.tag));
        assert forall|k: u32| #[trigger] new_fm.fields@.contains_key(k) implies exists|i: int| 0 <= i < b2.len() && #[trigger] b2[i].f.tag == k by {
            if k == f.tag { assert(b2[b2.len() - 1].f.tag == k); } else {
                let i = choose|i: int| 0 <= i < bs.len() && #[trigger] bs[i].f.tag == k;
                assert(b2[i].f.tag == k);
            }
        }
        assert(repr(new_fm, b2, false));
        total_is(new_fm, b2, false, w);
        assert(b2.drop_last() =~= bs);
        lem_total_cat(fl(bs), fb(x), w);
        assert(fb(x) =~= seq![f]);
        assert(seq![f].drop_last() =~= seq![]);
        assert(total(seq![f], w) == total(seq![f].drop_last(), w) + w(f));
    }
}
// the bytes of a text are the bytes of its fields
pub proof fn lem_text_bytes(fs: Seq<StringField>)
    ensures bsum(vstd::utf8::encode_utf8(text(fs))) == total(fs, |f: StringField| bsum(fbytes(f))),
        vstd::utf8::encode_utf8(text(fs)).len() == total(fs, |f: StringField| fbytes(f).len() as int)
    decreases fs.len()
{
    if fs.len() == 0 { assert(vstd::utf8::encode_utf8(seq![]) =~= seq![]) by { reveal_with_fuel(vstd::utf8::encode_utf8, 2); } }
    else {
        lem_text_bytes(fs.drop_last());
        vstd::utf8::encode_utf8_concat(text(fs.drop_last()), ftext(fs.last()));
        lem_bsum_cat(vstd::utf8::encode_utf8(text(fs.drop_last())), fbytes(fs.last()));
    }
}
pub proof fn lem_first_at(o: Seq<u32>, t: u32)
    ensures 0 <= first_at(o, t) <= o.len(), o.contains(t) <==> first_at(o, t) < o.len(), first_at(o, t) < o.len() ==> o[first_at(o, t)] == t,
        forall|i: int| 0 <= i < first_at(o, t) ==> o[i] != t
    decreases o.len()
{
    if o.len() > 0 && o[0] != t {
        let d = o.drop_first();
        lem_first_at(d, t);
        assert forall|i: int| 0 <= i < first_at(o, t) implies o[i] != t by { if i > 0 { assert(d[i - 1] == o[i]); } }
        if first_at(d, t) < d.len() { assert(o[first_at(d, t) + 1] == d[first_at(d, t)]); }
        if o.contains(t) { let i = choose|i: int| 0 <= i < o.len() && o[i] == t; assert(d[i - 1] == t); assert(d.contains(t)); }
    }
}
pub proof fn arranged_by(fields: Map<u32, StringField>, order: Seq<u32>, u: Seq<&StringField>, t: Seq<&StringField>)
    requires forall|k: u32| #[trigger] fields.contains_key(k) ==> fields[k].tag == k,
        exists|ks: Seq<u32>| #[trigger] enumerates(ks, fields.dom()) && ks.len() == u.len() && forall|i: int| 0 <= i < ks.len() ==> *#[trigger] u[i] == fields[ks[i]],
        order.len() == 0 && t == u || t.len() == u.len()
            && (exists|p: Seq<int>| #[trigger] is_perm(p, u.len()) && forall|i: int| 0 <= i < p.len() ==> #[trigger] t[i] == u[p[i]])
            && (exists|ks: Seq<usize>| #[trigger] rising(ks) && ks.len() == t.len() && forall|i: int| 0 <= i < ks.len() ==> #[trigger] ks[i] == pos(order, t[i].tag)),
    ensures arranged(fields, order, t)
{
    let ks = choose|ks: Seq<u32>| #[trigger] enumerates(ks, fields.dom()) && ks.len() == u.len() && forall|i: int| 0 <= i < ks.len() ==> *#[trigger] u[i] == fields[ks[i]];
    assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).tag == ks[i] && fields.contains_key(ks[i]) by { assert(fields.dom().contains(ks[i])); }
    assert forall|k: u32| #[trigger] fields.contains_key(k) implies exists|i: int| 0 <= i < u.len() && (#[trigger] u[i]).tag == k by {
        assert(fields.dom().contains(k));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
        assert(u[i].tag == k);
    }
    if !(order.len() == 0 && t == u) {
        let p = choose|p: Seq<int>| #[trigger] is_perm(p, u.len()) && forall|i: int| 0 <= i < p.len() ==> #[trigger] t[i] == u[p[i]];
        assert forall|k: u32| #[trigger] fields.contains_key(k) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).tag == k by {
            let q = choose|q: int| 0 <= q < u.len() && (#[trigger] u[q]).tag == k;
            assert(p.contains(q)); let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == q;
            assert(t[i].tag == k);
        }
        let ks2 = choose|ks: Seq<usize>| #[trigger] rising(ks) && ks.len() == t.len() && forall|i: int| 0 <= i < ks.len() ==> #[trigger] ks[i] == pos(order, t[i].tag);
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies pos(order, (#[trigger] t[i]).tag) <= pos(order, (#[trigger] t[j]).tag) by { assert(ks2[i] <= ks2[j]); }
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).tag != (#[trigger] t[j]).tag by {
            assert(p[i] != p[j]); 
            assert(u[p[i]].tag == ks[p[i]] && u[p[j]].tag == ks[p[j]]);
            if p[i] < p[j] { assert(ks[p[i]] != ks[p[j]]); } else { assert(ks[p[j]] != ks[p[i]]); }
        }
        assert forall|i: int| 0 <= i < t.len() implies fields.contains_key((#[trigger] t[i]).tag) && fields[t[i].tag] == *t[i] by {
            assert(u[p[i]].tag == ks[p[i]]);
        }
    }
}
pub proof fn arranged_lays(fm: FieldMap, t: Seq<&StringField>, bs: Seq<Blk>)
    requires arranged(fm.fields@, fm.field_order@, t), bs.len() == t.len(),
        forall|i: int| 0 <= i < bs.len() ==> (#[trigger] bs[i]).f == *t[i],
        forall|i: int| 0 <= i < bs.len() ==> match (#[trigger] bs[i]).grp {
            None => !fm.group@.contains_key(bs[i].f.tag),
            Some(t) => fm.group@.contains_key(bs[i].f.tag) && glays(fm.group@[bs[i].f.tag], t, true),
        },
    ensures repr(fm, bs, true)
{
    assert forall|k: u32| #[trigger] fm.fields@.contains_key(k) implies exists|i: int| 0 <= i < bs.len() && #[trigger] bs[i].f.tag == k by {
        let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).tag == k;
        assert(bs[i].f.tag == k);
    }
}
pub proof fn lem_derefs_cat_all<T>()
    ensures forall|a: Seq<&T>, b: Seq<&T>| #[trigger] derefs(a + b) == derefs(a) + derefs(b)
{ assert forall|a: Seq<&T>, b: Seq<&T>| #[trigger] derefs(a + b) == derefs(a) + derefs(b) by { assert(derefs(a + b) =~= derefs(a) + derefs(b)); } }
pub proof fn lem_all(m: Message, fs: Seq<StringField>, w: spec_fn(StringField) -> int)
    requires is_all(m, fs)
    ensures total(fs, w) == msg_total(m, w), exists|bs: Seq<Blk>| repr(m.trailer, bs, false), exists|bs: Seq<Blk>| repr(m.header, bs, false), exists|bs: Seq<Blk>| repr(m.body, bs, false)
{
    let (h, b, t) = choose|h: Seq<Blk>, b: Seq<Blk>, t: Seq<Blk>| #[trigger] repr(m.header, h, true) && #[trigger] repr(m.body, b, true) && #[trigger] repr(m.trailer, t, true)
        && fs == fl(h) + fl(b) + fl(t);
    total_is(m.header, h, true, w); total_is(m.body, b, true, w); total_is(m.trailer, t, true, w);
    lem_total_cat(fl(h) + fl(b), fl(t), w); lem_total_cat(fl(h), fl(b), w);
    lem_unsorted(m.header.fields@, m.header.group@, m.header.field_order@, h, true);
    lem_unsorted(m.body.fields@, m.body.group@, m.body.field_order@, b, true);
    lem_unsorted(m.trailer.fields@, m.trailer.group@, m.trailer.field_order@, t, true);
    assert(repr(m.header, h, false) && repr(m.body, b, false) && repr(m.trailer, t, false));
}
pub proof fn lem_mod_add(a: int, b: int) ensures (a % 0x1_0000_0000 + b) % 0x1_0000_0000 == (a + b) % 0x1_0000_0000 {}
pub proof fn lem_mod256(a: int) ensures (a % 0x1_0000_0000) % 256 == a % 256 {}
pub proof fn lem_somes_sum(fs: Seq<StringField>, rs: Seq<Option<usize>>)
    requires rs.len() == fs.len(), forall|i: int| 0 <= i < rs.len() ==> match #[trigger] rs[i] { Some(n) => n == wlen()(fs[i]), None => wlen()(fs[i]) == 0 }
    ensures usum(somes(rs)) == total(fs, wlen())
    decreases rs.len()
{
    if rs.len() > 0 {
        lem_somes_sum(fs.drop_last(), rs.drop_last());
        match rs.last() { Some(x) => { assert(somes(rs.drop_last()).push(x).drop_last() =~= somes(rs.drop_last())); } None => {} }
    }
}
pub proof fn lem_cat_text(v: Seq<String>, fs: Seq<StringField>)
    requires v.len() == fs.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == ftext(fs[i])
    ensures cat(v) == text(fs)
    decreases v.len()
{ if v.len() > 0 { lem_cat_text(v.drop_last(), fs.drop_last()); assert(v[v.len() - 1] == v.last()); } }
