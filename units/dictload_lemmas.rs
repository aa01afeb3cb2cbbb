// ---------------------------------------------------------------- lemmas
pub proof fn lem_drop_take<T>(s: Seq<T>, i: int) requires 0 < i <= s.len() ensures s.take(i).drop_last() =~= s.take(i - 1), s.take(i).last() == s[i - 1] {}
pub proof fn lem_filt(s: Seq<Node>, bs: Seq<bool>, p: spec_fn(X) -> bool)
    requires bs.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] bs[i] == p(s[i].x())
    ensures xs(filt(s, bs)) == xs(s).filter(p), forall|i: int| 0 <= i < filt(s, bs).len() ==> exists|j: int| 0 <= j < s.len() && s[j] == #[trigger] filt(s, bs)[i]
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() == 0 { assert(xs(filt(s, bs)) =~= xs(s).filter(p)); } else {
        assert(xs(s).drop_last() =~= xs(s.drop_last()));
        assert(forall|i: int| 0 <= i < s.drop_last().len() ==> #[trigger] bs.drop_last()[i] == bs[i] && s.drop_last()[i] == s[i]);
        lem_filt(s.drop_last(), bs.drop_last(), p);
        assert(bs.last() == bs[s.len() - 1]);
        assert(xs(s).last() == s.last().x());
        let a = filt(s.drop_last(), bs.drop_last());
        if bs.last() { assert(xs(a.push(s.last())) =~= xs(a).push(s.last().x())); }
        assert forall|i: int| 0 <= i < filt(s, bs).len() implies exists|j: int| 0 <= j < s.len() && s[j] == #[trigger] filt(s, bs)[i] by {
            if i < a.len() { let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == #[trigger] a[i]; assert(s[j] == a[i]); }
            else { assert(s[s.len() - 1] == filt(s, bs)[i]); }
        }
    }
}
// the members of a list of children depend on its elements only
pub proof fn lem_elems(kids: Seq<X>, req: bool, cs: Map<String, X>, root: X)
    ensures m_kids(kids, req, cs, root) == m_kids(kids.filter(p_elem()), req, cs, root)
    decreases kids.len()
{
    reveal(Seq::filter);
    un_kids(kids, req, cs, root);
    if kids.len() > 0 {
        lem_elems(kids.drop_last(), req, cs, root);
        let f = kids.filter(p_elem());
        if kids.last().elem {
            assert(f.drop_last() =~= kids.drop_last().filter(p_elem()));
            assert(f.last() == kids.last());
            un_kids(f, req, cs, root);
        }
    }
}
pub proof fn un_kids(kids: Seq<X>, req: bool, cs: Map<String, X>, root: X)
    ensures m_kids(kids, req, cs, root) == (if kids.len() == 0 { Some(seq![]) } else {
        match m_kids(kids.drop_last(), req, cs, root) {
            None => None,
            Some(a) => if !kids.last().elem { Some(a) } else { match m_kid(kids.last(), req, cs, root) { None => None, Some(b) => Some(a + b) } },
        }
    })
{}
// a longer list of children declares more members, or is as faulty
pub proof fn lem_prefix(kids: Seq<X>, i: int, req: bool, cs: Map<String, X>, root: X)
    requires 0 <= i <= kids.len()
    ensures m_kids(kids.take(i), req, cs, root) is None ==> m_kids(kids, req, cs, root) is None,
        m_kids(kids, req, cs, root) is Some ==> m_kids(kids.take(i), req, cs, root) is Some
            && m_kids(kids.take(i), req, cs, root)->0.len() <= m_kids(kids, req, cs, root)->0.len()
            && m_kids(kids, req, cs, root)->0.take(m_kids(kids.take(i), req, cs, root)->0.len() as int) == m_kids(kids.take(i), req, cs, root)->0,
    decreases kids.len() - i
{
    if i == kids.len() { assert(kids.take(i) =~= kids); match m_kids(kids, req, cs, root) { Some(ms) => { assert(ms.take(ms.len() as int) =~= ms); } None => {} } } else {
        lem_prefix(kids, i + 1, req, cs, root);
        un_kids(kids.take(i + 1), req, cs, root);
        lem_drop_take(kids, i + 1);
        match m_kids(kids, req, cs, root) { Some(ms) => {
            let a = m_kids(kids.take(i), req, cs, root)->0; let b = m_kids(kids.take(i + 1), req, cs, root)->0;
            assert(ms.take(b.len() as int).take(a.len() as int) =~= ms.take(a.len() as int));
            assert(b.take(a.len() as int) =~= a);
        } None => {} }
    }
}
pub proof fn lem_nums(a: Seq<Mem>, b: Seq<Mem>)
    ensures nums(a + b) == nums(a) + nums(b), forall|t: u32| #[trigger] nums(a + b).contains(t) == (nums(a).contains(t) || nums(b).contains(t)),
        forall|t: u32| #[trigger] reqs(a + b, t) == (reqs(a, t) || reqs(b, t)), forall|t: u32| #[trigger] cnts(a + b, t) == (cnts(a, t) || cnts(b, t)),
{
    let c = a + b;
    assert(nums(c) =~= nums(a) + nums(b));
    assert forall|t: u32| #[trigger] nums(c).contains(t) == (nums(a).contains(t) || nums(b).contains(t)) by {
        if nums(a).contains(t) { let i = choose|i: int| 0 <= i < nums(a).len() && nums(a)[i] == t; assert(nums(c)[i] == t); }
        if nums(b).contains(t) { let i = choose|i: int| 0 <= i < nums(b).len() && nums(b)[i] == t; assert(nums(c)[a.len() + i] == t); }
        if nums(c).contains(t) { let i = choose|i: int| 0 <= i < nums(c).len() && nums(c)[i] == t; if i < a.len() { assert(nums(a)[i] == t); } else { assert(nums(b)[i - a.len()] == t); } }
    }
    assert forall|t: u32| #[trigger] reqs(c, t) == (reqs(a, t) || reqs(b, t)) by {
        if reqs(a, t) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i].num == t && a[i].req; assert(c[i] == a[i]); }
        if reqs(b, t) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i].num == t && b[i].req; assert(c[a.len() + i] == b[i]); }
        if reqs(c, t) { let i = choose|i: int| 0 <= i < c.len() && #[trigger] c[i].num == t && c[i].req; if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } }
    }
    assert forall|t: u32| #[trigger] cnts(c, t) == (cnts(a, t) || cnts(b, t)) by {
        if cnts(a, t) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i].num == t && a[i].grp is Some; assert(c[i] == a[i]); }
        if cnts(b, t) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i].num == t && b[i].grp is Some; assert(c[a.len() + i] == b[i]); }
        if cnts(c, t) { let i = choose|i: int| 0 <= i < c.len() && #[trigger] c[i].num == t && c[i].grp is Some; if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } }
    }
}
pub proof fn lem_counted(a: Seq<Mem>) ensures forall|t: u32| #[trigger] cnts(a, t) ==> nums(a).contains(t), forall|t: u32| #[trigger] reqs(a, t) ==> nums(a).contains(t),
    forall|i: int| 0 <= i < a.len() ==> nums(a).contains(#[trigger] a[i].num)
{
    assert forall|t: u32| #[trigger] cnts(a, t) implies nums(a).contains(t) by { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i].num == t && a[i].grp is Some; assert(nums(a)[i] == t); }
    assert forall|t: u32| #[trigger] reqs(a, t) implies nums(a).contains(t) by { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i].num == t && a[i].req; assert(nums(a)[i] == t); }
    assert forall|i: int| 0 <= i < a.len() implies nums(a).contains(#[trigger] a[i].num) by { assert(nums(a)[i] == a[i].num); }
}
pub proof fn lem_nodup(a: Seq<u32>, b: Seq<u32>) ensures (a + b).no_duplicates() == (a.no_duplicates() && b.no_duplicates() && disj(a, b))
{
    let c = a + b;
    if c.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { assert(c[i] == a[i] && c[j] == a[j]); }
        assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by { assert(c[a.len() + i] == b[i] && c[a.len() + j] == b[j]); }
        assert forall|t: u32| #[trigger] a.contains(t) implies !b.contains(t) by {
            if b.contains(t) { let i = choose|i: int| 0 <= i < a.len() && a[i] == t; let j = choose|j: int| 0 <= j < b.len() && b[j] == t; assert(c[i] == c[a.len() + j]); }
        }
    }
    if a.no_duplicates() && b.no_duplicates() && disj(a, b) {
        assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by {
            if i < a.len() && j >= a.len() { assert(a.contains(a[i])); assert(b.contains(b[j - a.len()])); }
            if j < a.len() && i >= a.len() { assert(a.contains(a[j])); assert(b.contains(b[i - a.len()])); }
        }
    }
}
// adding is composable
pub proof fn lem_added(a: DataDictionary, b: DataDictionary, c: DataDictionary, mt: Seq<char>, m1: Seq<Mem>, m2: Seq<Mem>)
    requires added(a, b, mt, m1), added(b, c, mt, m2), nums(m1 + m2).no_duplicates()
    ensures added(a, c, mt, m1 + m2)
{
    hide(gi_is);
    let m = m1 + m2;
    lem_nums(m1, m2); lem_nodup(nums(m1), nums(m2)); lem_counted(m1); lem_counted(m2);
    assert forall|i: int| 0 <= i < m.len() && (#[trigger] m[i]).grp is Some implies d_grp(c, mt, m[i].num) is Some && gi_is(d_grp(c, mt, m[i].num)->0, m[i].grp->0, mt) by {
        if i < m1.len() { assert(m[i] == m1[i]); assert(nums(m1).contains(m1[i].num)); assert(!nums(m2).contains(m1[i].num)); assert(!cnts(m2, m1[i].num)); assert(d_grp(c, mt, m[i].num) == d_grp(b, mt, m[i].num)); }
        else { assert(m[i] == m2[i - m1.len()]); }
    }
    if disj(a.fields_order@, nums(m)) && nums(m).no_duplicates() {
        assert forall|t: u32| #[trigger] a.fields_order@.contains(t) implies !nums(m1).contains(t) by { assert(!nums(m).contains(t)); }
        assert(disj(a.fields_order@, nums(m1)));
        assert forall|t: u32| #[trigger] b.fields_order@.contains(t) implies !nums(m2).contains(t) by {
            let i = choose|i: int| 0 <= i < b.fields_order@.len() && b.fields_order@[i] == t;
            if i < a.fields_order@.len() { assert(a.fields_order@.contains(t)); assert(!nums(m).contains(t)); } else { assert(nums(m1)[i - a.fields_order@.len()] == t); assert(nums(m1).contains(t)); }
        }
        assert(c.fields_order@ =~= a.fields_order@ + nums(m));
    }
}
pub proof fn lem_added_none(a: DataDictionary, mt: Seq<char>) ensures added(a, a, mt, seq![]), fresh(a, mt, seq![])
{
    let e = Seq::<Mem>::empty();
    assert(nums(e) =~= Seq::<u32>::empty());
    lem_counted(e);
    assert(a.fields_order@ =~= a.fields_order@ + nums(e));
}
// what is new to b, after m1 was added, is new to a
pub proof fn lem_fresh(a: DataDictionary, b: DataDictionary, mt: Seq<char>, m1: Seq<Mem>, m2: Seq<Mem>)
    requires added(a, b, mt, m1), fresh(a, mt, m1)
    ensures fresh(b, mt, m2) == fresh(a, mt, m1 + m2)
{
    hide(gi_is);
    lem_nums(m1, m2); lem_nodup(nums(m1), nums(m2));
    if fresh(b, mt, m2) {
        assert(disj(nums(m1), nums(m2))) by { assert forall|t: u32| #[trigger] nums(m1).contains(t) implies !nums(m2).contains(t) by { assert(d_field(b, mt, t)); } }
        assert forall|t: u32| #[trigger] nums(m1 + m2).contains(t) implies !d_field(a, mt, t) by { if nums(m2).contains(t) { assert(!d_field(b, mt, t)); } }
    }
    if fresh(a, mt, m1 + m2) {
        assert forall|t: u32| #[trigger] nums(m2).contains(t) implies !d_field(b, mt, t) by { assert(nums(m1 + m2).contains(t)); assert(!d_field(a, mt, t)); if nums(m1).contains(t) {} }
    }
}
// a list that begins with something that is not new is not new
pub proof fn lem_fresh_prefix(a: DataDictionary, mt: Seq<char>, ms: Seq<Mem>, n: int)
    requires 0 <= n <= ms.len(), !fresh(a, mt, ms.take(n))
    ensures !fresh(a, mt, ms)
{
    assert(ms =~= ms.take(n) + ms.skip(n));
    lem_nums(ms.take(n), ms.skip(n)); lem_nodup(nums(ms.take(n)), nums(ms.skip(n)));
    if fresh(a, mt, ms) { assert forall|t: u32| #[trigger] nums(ms.take(n)).contains(t) implies !d_field(a, mt, t) by { assert(nums(ms).contains(t)); } }
}
pub proof fn lem_filts(s: Seq<Node>, p: spec_fn(X) -> bool)
    ensures forall|bs: Seq<bool>| bs.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] bs[i] == p(s[i].x())) ==> xs(#[trigger] filt(s, bs)) == xs(s).filter(p)
{
    assert forall|bs: Seq<bool>| bs.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] bs[i] == p(s[i].x())) implies xs(#[trigger] filt(s, bs)) == xs(s).filter(p) by { lem_filt(s, bs, p); }
}
pub proof fn lem_in(s: Seq<X>, p: spec_fn(X) -> bool)
    ensures forall|i: int| 0 <= i < s.filter(p).len() ==> p(#[trigger] s.filter(p)[i]) && s.contains(s.filter(p)[i])
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        lem_in(s.drop_last(), p);
        let a = s.drop_last().filter(p);
        assert forall|i: int| 0 <= i < s.filter(p).len() implies p(#[trigger] s.filter(p)[i]) && s.contains(s.filter(p)[i]) by {
            if i < a.len() { assert(s.filter(p)[i] == a[i]); let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == a[i]; assert(s[j] == a[i]); } else { assert(s[s.len() - 1] == s.filter(p)[i]); }
        }
    }
}
pub proof fn lem_sec(kids: Seq<X>, k: int, name: Seq<char>)
    requires 0 <= k <= kids.len(), forall|i: int| 0 <= i < k ==> lower(#[trigger] kids[i].name) != lower(name)
    ensures k < kids.len() && lower(kids[k].name) == lower(name) ==> sec(kids, name) == Some(kids[k]), k == kids.len() ==> sec(kids, name) is None
    decreases kids.len()
{
    if kids.len() > 0 && k > 0 {
        let d = kids.drop_first();
        assert(forall|i: int| 0 <= i < k - 1 ==> #[trigger] d[i] == kids[i + 1]);
        lem_sec(d, k - 1, name);
    }
}
pub proof fn lem_secs(s: Seq<Node>, name: Seq<char>)
    ensures forall|k: int| 0 <= k < s.len() && lower((#[trigger] s[k]).x().name) == lower(name) && (forall|i: int| 0 <= i < k ==> lower((#[trigger] s[i]).x().name) != lower(name)) ==> sec(xs(s), name) == Some(s[k].x()),
        (forall|i: int| 0 <= i < s.len() ==> lower((#[trigger] s[i]).x().name) != lower(name)) ==> sec(xs(s), name) is None
{
    assert forall|k: int| 0 <= k < s.len() && lower((#[trigger] s[k]).x().name) == lower(name) && (forall|i: int| 0 <= i < k ==> lower((#[trigger] s[i]).x().name) != lower(name)) implies sec(xs(s), name) == Some(s[k].x()) by {
        assert forall|i: int| 0 <= i < k implies lower(#[trigger] xs(s)[i].name) != lower(name) by { assert(xs(s)[i] == s[i].x()); }
        lem_sec(xs(s), k, name);
    }
    if forall|i: int| 0 <= i < s.len() ==> lower((#[trigger] s[i]).x().name) != lower(name) {
        assert forall|i: int| 0 <= i < s.len() implies lower(#[trigger] xs(s)[i].name) != lower(name) by { assert(xs(s)[i] == s[i].x()); }
        lem_sec(xs(s), s.len() as int, name);
    }
}
pub proof fn lem_values_prefix(es: Seq<X>, i: int) requires 0 <= i <= es.len() ensures xvalues(es.take(i)) is None ==> xvalues(es) is None decreases es.len() - i
{ if i == es.len() { assert(es.take(i) =~= es); } else { lem_values_prefix(es, i + 1); lem_drop_take(es, i + 1); } }
pub proof fn lem_comps_prefix(es: Seq<X>, i: int) requires 0 <= i <= es.len() ensures xcomps(es.take(i)) is None ==> xcomps(es) is None decreases es.len() - i
{ if i == es.len() { assert(es.take(i) =~= es); } else { lem_comps_prefix(es, i + 1); lem_drop_take(es, i + 1); } }
pub proof fn lem_vals_push(m: Set<String>, vs: Seq<Seq<char>>, v: Seq<char>)
    requires vals_are(m, vs), !vs.contains(v)
    ensures vals_are(m.insert(mk(v)), vs.push(v))
{
    let n = m.insert(mk(v)); let ws = vs.push(v);
    assert forall|w: Seq<char>| #[trigger] n.contains(mk(w)) == ws.contains(w) by {
        assert(mk(w) == mk(v) ==> w == v) by { assert(mk(w)@ == w); assert(mk(v)@ == v); }
        if ws.contains(w) { let i = choose|i: int| 0 <= i < ws.len() && ws[i] == w; if i < vs.len() { assert(vs[i] == w); assert(vs.contains(w)); } }
        if vs.contains(w) { let i = choose|i: int| 0 <= i < vs.len() && vs[i] == w; assert(ws[i] == w); }
        assert(ws[vs.len() as int] == v);
    }
    assert(n.contains(mk(v)));
}
pub proof fn lem_one(n: u32, req: bool)
    ensures forall|t: u32| #[trigger] nums(one(n, req)).contains(t) == (t == n), forall|t: u32| #[trigger] reqs(one(n, req), t) == (t == n && req),
        forall|t: u32| !#[trigger] cnts(one(n, req), t), nums(one(n, req)).no_duplicates(), nums(one(n, req)) == seq![n],
{
    let o = one(n, req);
    assert(nums(o) =~= seq![n]);
    assert forall|t: u32| #[trigger] nums(o).contains(t) == (t == n) by { assert(nums(o)[0] == n); }
    assert forall|t: u32| #[trigger] reqs(o, t) == (t == n && req) by { assert(o[0].num == n); }
}
pub proof fn lem_add_one(a: DataDictionary, m: DataDictionary, b: DataDictionary, mt: Seq<char>, n: u32, req: bool)
    requires set_one(a, m, mt, n, req), a.fields_order == m.fields_order, !d_field(a, mt, n),
        b.fields_order@ == (if m.fields_order@.contains(n) { m.fields_order@ } else { m.fields_order@.push(n) }),
        same_names(m, b), b.groups == m.groups, b.msg_fields == m.msg_fields, b.msg_required_fields == m.msg_required_fields,
    ensures fresh(a, mt, one(n, req)), added(a, b, mt, one(n, req)),
{
    hide(gi_is);
    lem_one(n, req);
    assert(forall|m2: Seq<char>, t: u32| #[trigger] d_field(b, m2, t) == d_field(m, m2, t));
    assert(forall|m2: Seq<char>, t: u32| #[trigger] d_req(b, m2, t) == d_req(m, m2, t));
    assert(forall|m2: Seq<char>, t: u32| #[trigger] d_grp(b, m2, t) == d_grp(a, m2, t));
    if disj(a.fields_order@, nums(one(n, req))) { assert(!a.fields_order@.contains(n)) by { assert(nums(one(n, req)).contains(n)); } assert(b.fields_order@ =~= a.fields_order@ + nums(one(n, req))); }
}
// the first i elements of a list of children have been added to d0, giving d; ms: their members
pub open spec fn prog(d0: DataDictionary, d: DataDictionary, mt: Seq<char>, es: Seq<X>, i: int, req: bool, cs: Map<String, X>, root: X, ms: Seq<Mem>) -> bool {
    0 <= i <= es.len() && m_kids(es.take(i), req, cs, root) == Some(ms) && fresh(d0, mt, ms) && added(d0, d, mt, ms)
}
pub proof fn lem_prog_start(d0: DataDictionary, mt: Seq<char>, es: Seq<X>, req: bool, cs: Map<String, X>, root: X)
    ensures prog(d0, d0, mt, es, 0, req, cs, root, seq![])
{ lem_added_none(d0, mt); assert(es.take(0).len() == 0); }
pub proof fn lem_kid(d0: DataDictionary, d: DataDictionary, mt: Seq<char>, es: Seq<X>, i: int, req: bool, cs: Map<String, X>, root: X, ms: Seq<Mem>)
    requires prog(d0, d, mt, es, i, req, cs, root, ms), i < es.len(), es[i].elem
    ensures ({
        let k = m_kid(es[i], req, cs, root);
        &&& k is None ==> m_kids(es, req, cs, root) is None
        &&& k is Some && !fresh(d, mt, k->0) ==> m_kids(es, req, cs, root) is None || !fresh(d0, mt, m_kids(es, req, cs, root)->0)
        &&& k is Some && fresh(d, mt, k->0) ==> forall|d2: DataDictionary| #[trigger] added(d, d2, mt, k->0) ==> prog(d0, d2, mt, es, i + 1, req, cs, root, ms + k->0)
    })
{
    hide(added); hide(m_kid);
    let k = m_kid(es[i], req, cs, root);
    lem_drop_take(es, i + 1);
    un_kids(es.take(i + 1), req, cs, root);
    lem_prefix(es, i + 1, req, cs, root);
    if k is Some {
        lem_fresh(d0, d, mt, ms, k->0);
        if !fresh(d, mt, k->0) {
            match m_kids(es, req, cs, root) { Some(t) => { lem_fresh_prefix(d0, mt, t, (ms + k->0).len() as int); } None => {} }
        } else {
            assert forall|d2: DataDictionary| #[trigger] added(d, d2, mt, k->0) implies prog(d0, d2, mt, es, i + 1, req, cs, root, ms + k->0) by { lem_added(d0, d, d2, mt, ms, k->0); }
        }
    }
}
pub open spec fn grp1(n: u32, req: bool, ms: Seq<Mem>) -> Seq<Mem> { seq![Mem { num: n, req: req, grp: Some(GS { mems: ms }) }] }
pub proof fn lem_grp1(n: u32, req: bool, ms: Seq<Mem>)
    ensures nums(grp1(n, req, ms)) == nums(one(n, req)), forall|t: u32| #[trigger] reqs(grp1(n, req, ms), t) == (t == n && req), forall|t: u32| #[trigger] cnts(grp1(n, req, ms), t) == (t == n),
        forall|d: DataDictionary, mt: Seq<char>| fresh(d, mt, one(n, req)) == #[trigger] fresh(d, mt, grp1(n, req, ms)),
{
    let o = grp1(n, req, ms);
    assert(nums(o) =~= nums(one(n, req)));
    assert forall|t: u32| #[trigger] reqs(o, t) == (t == n && req) by { assert(o[0].num == n); }
    assert forall|t: u32| #[trigger] cnts(o, t) == (t == n) by { assert(o[0].num == n); }
}
pub proof fn lem_add_group(a: DataDictionary, b: DataDictionary, c: DataDictionary, mt: Seq<char>, n: u32, req: bool, g: GroupInfo, ms: Seq<Mem>)
    requires added(a, b, mt, one(n, req)), group_set(b, c, mt, n, g), gi_is(g, GS { mems: ms }, mt)
    ensures added(a, c, mt, grp1(n, req, ms))
{
    hide(gi_is);
    lem_one(n, req); lem_grp1(n, req, ms);
    assert(forall|m2: Seq<char>, t: u32| #[trigger] d_field(c, m2, t) == d_field(b, m2, t));
    assert(forall|m2: Seq<char>, t: u32| #[trigger] d_req(c, m2, t) == d_req(b, m2, t));
}
pub proof fn lem_gi(d0: DataDictionary, d: DataDictionary, mt: Seq<char>, ms: Seq<Mem>, g: GroupInfo)
    requires empty_dd(d0), added(d0, d, mt, ms), nums(ms).no_duplicates(), ms.len() > 0, g.delimiter == ms[0].num, g.data_dictionary == d
    ensures gi_is(g, GS { mems: ms }, mt)
{
    lem_counted(ms);
    assert(disj(d0.fields_order@, nums(ms)));
    assert(d.fields_order@ =~= nums(ms));
    assert forall|m: Seq<char>, t: u32| (#[trigger] d_grp(d, m, t) is Some) == (m == mt && cnts(ms, t)) by {
        if m == mt && cnts(ms, t) { let i = choose|i: int| 0 <= i < ms.len() && #[trigger] ms[i].num == t && ms[i].grp is Some; assert(ms[i].grp is Some); }
        else { assert(d_grp(d, m, t) == d_grp(d0, m, t)); }
    }
}
pub proof fn lem_def_empty(d: DataDictionary) requires d.is_def() ensures empty_dd(d) {}
pub proof fn lem_fresh_empty(d: DataDictionary, mt: Seq<char>, ms: Seq<Mem>) requires no_sect(d, mt) ensures fresh(d, mt, ms) == nums(ms).no_duplicates() {}
pub proof fn lem_fresh_start(d: DataDictionary, mt: Seq<char>) requires empty_dd(d) ensures forall|ms: Seq<Mem>| #[trigger] fresh(d, mt, ms) == nums(ms).no_duplicates() {}
pub proof fn un_kid(x: X, req: bool, cs: Map<String, X>, root: X)
    requires cmap_ok(cs)
    ensures
        xattr(x, "name"@) is None || marked(x) is None ==> m_kid(x, req, cs, root) is None,
        xattr(x, "name"@) is Some && marked(x) is Some ==> m_kid(x, req, cs, root) == kid_of(x, xattr(x, "name"@)->0, marked(x)->0, req, cs, root),
{
    if xattr(x, "name"@) is Some && marked(x) is Some {
        let n = xattr(x, "name"@)->0; let own = marked(x)->0;
        reveal_strlit("field"); reveal_strlit("component"); reveal_strlit("group");
        if x.name == "component"@ && cs.contains_key(mk(n)) { assert(xattr(cs[mk(n)], "name"@) == Some(n)); }
    }
}
pub open spec fn kid_of(x: X, n: Seq<char>, own: bool, req: bool, cs: Map<String, X>, root: X) -> Option<Seq<Mem>> {
    if x.name == "field"@ { match field_num(root, n) { Some(k) => Some(one(k, own && req)), None => None } }
    else if x.name == "component"@ { if cs.contains_key(mk(n)) { c_mems(cs[mk(n)], own, cs, root) } else { None } }
    else if x.name == "group"@ { match (field_num(root, n), g_mems(x, own, cs, root)) { (Some(k), Some(ms)) => Some(grp1(k, own && req, ms)), _ => None } }
    else { None }
}
pub proof fn un_cm(x: X, req: bool, cs: Map<String, X>, root: X) ensures c_mems(x, req, cs, root) == m_kids(x.kids, req, cs.remove(mk(xattr(x, "name"@)->0)), root) {}
pub proof fn lem_xfirst(a: Seq<Mem>, b: Seq<Mem>) ensures xfirst(a + b) == (if xfirst(a) is Some { xfirst(a) } else { xfirst(b) }) { if a.len() > 0 { assert((a + b)[0] == a[0]); } else { assert(a + b =~= b); } }
pub proof fn lem_firsts() ensures forall|n: u32, q: bool| #[trigger] xfirst(one(n, q)) == Some(n), forall|n: u32, q: bool, ms: Seq<Mem>| #[trigger] xfirst(grp1(n, q, ms)) == Some(n), xfirst(seq![]) is None {}
pub proof fn lem_prog_done(d0: DataDictionary, d: DataDictionary, mt: Seq<char>, es: Seq<X>, i: int, req: bool, cs: Map<String, X>, root: X, ms: Seq<Mem>)
    requires prog(d0, d, mt, es, i, req, cs, root, ms), i == es.len()
    ensures m_kids(es, req, cs, root) == Some(ms), fresh(d0, mt, ms), added(d0, d, mt, ms)
{ assert(es.take(i) =~= es); }
pub proof fn lem_xf(ms: Seq<Mem>) ensures (xfirst(ms) is None) == (ms.len() == 0), ms.len() > 0 ==> xfirst(ms) == Some(ms[0].num) {}
pub proof fn lem_gset(a: DataDictionary, b: DataDictionary, mt: Seq<char>, n: u32, g: GroupInfo) requires group_set(a, b, mt, n, g) ensures d_grp(b, mt, n) == Some(g) {}
pub proof fn lem_comps_ok(es: Seq<X>) ensures xcomps(es) is Some ==> cmap_ok(xcomps(es)->0) decreases es.len()
{
    if es.len() > 0 { lem_comps_ok(es.drop_last());
        match (xcomps(es.drop_last()), xattr(es.last(), "name"@)) { (Some(m), Some(n)) => { assert(mk(n)@ == n); } _ => {} }
    }
}
pub proof fn lem_msg_start(a: DataDictionary, b: DataDictionary, mt: Seq<char>, e1: HashSet<u32>, e2: HashSet<u32>, es: Seq<X>, cs: Map<String, X>, root: X)
    requires no_sect(a, mt), e1@ == Set::<u32>::empty(), e2@ == Set::<u32>::empty(), b.msg_fields@ == a.msg_fields@.insert(mk(mt), e1), b.msg_required_fields@ == a.msg_required_fields@.insert(mk(mt), e2),
        b.groups == a.groups, b.fields_order == a.fields_order, same_names(a, b),
    ensures prog(a, b, mt, es, 0, true, cs, root, seq![]), forall|ms: Seq<Mem>| #[trigger] fresh(a, mt, ms) == nums(ms).no_duplicates(),
{
    hide(gi_is);
    let e = Seq::<Mem>::empty();
    lem_added_none(a, mt); lem_counted(e);
    assert(nums(e) =~= Seq::<u32>::empty());
    assert forall|m: Seq<char>, t: u32| #[trigger] d_field(b, m, t) == d_field(a, m, t) by { if mk(m) == mk(mt) { assert(mk(m)@ == mk(mt)@); } }
    assert forall|m: Seq<char>, t: u32| #[trigger] d_req(b, m, t) == d_req(a, m, t) by { if mk(m) == mk(mt) { assert(mk(m)@ == mk(mt)@); } }
    assert(forall|m: Seq<char>, t: u32| #[trigger] d_grp(b, m, t) == d_grp(a, m, t));
    assert(es.take(0).len() == 0);
}
// a message type that was empty has exactly the members added to it
pub proof fn lem_sect(a: DataDictionary, b: DataDictionary, mt: Seq<char>, ms: Seq<Mem>)
    requires no_sect(a, mt), added(a, b, mt, ms), b.msg_fields@.contains_key(mk(mt)), b.msg_required_fields@.contains_key(mk(mt))
    ensures sect_is(b, mt, ms), forall|m: Seq<char>| m != mt ==> #[trigger] sect_eq(a, b, m)
{
    hide(gi_is);
    lem_counted(ms);
    assert forall|t: u32| (#[trigger] d_grp(b, mt, t) is Some) == cnts(ms, t) by {
        if cnts(ms, t) { let i = choose|i: int| 0 <= i < ms.len() && #[trigger] ms[i].num == t && ms[i].grp is Some; assert(ms[i].grp is Some); }
        else { assert(d_grp(b, mt, t) == d_grp(a, mt, t)); }
    }
}
pub proof fn lem_sect_eq(a: DataDictionary, b: DataDictionary, mt: Seq<char>, ms: Seq<Mem>)
    requires sect_is(a, mt, ms), sect_eq(a, b, mt) ensures sect_is(b, mt, ms)
{ hide(gi_is);
    assert forall|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]).grp is Some implies d_grp(b, mt, ms[i].num) is Some && gi_is(d_grp(b, mt, ms[i].num)->0, ms[i].grp->0, mt) by { assert(d_grp(b, mt, ms[i].num) == d_grp(a, mt, ms[i].num)); }
}
pub proof fn lem_msgs_prefix(es: Seq<X>, i: int, cs: Map<String, X>, root: X) requires 0 <= i <= es.len() ensures xmsgs(es.take(i), cs, root) is None ==> xmsgs(es, cs, root) is None decreases es.len() - i
{ hide(xmsg); if i == es.len() { assert(es.take(i) =~= es); } else { lem_msgs_prefix(es, i + 1, cs, root); lem_drop_take(es, i + 1); } }
pub proof fn lem_push_in<T>(s: Seq<T>, x: T) ensures forall|y: T| #[trigger] s.push(x).contains(y) == (s.contains(y) || y == x)
{
    let p = s.push(x);
    assert forall|y: T| #[trigger] p.contains(y) == (s.contains(y) || y == x) by {
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(p[i] == y); }
        if y == x { assert(p[s.len() as int] == y); }
        if p.contains(y) { let i = choose|i: int| 0 <= i < p.len() && p[i] == y; if i < s.len() { assert(s[i] == y); } }
    }
}
// one more message
pub proof fn lem_msg_step(a: DataDictionary, d: DataDictionary, d1: DataDictionary, d2: DataDictionary, ms: Seq<Msg>, m: Msg)
    requires msgs_from(a, d, ms), !mnames(ms).contains(m.name), !mtypes(ms).contains(m.ty), m.ty != S_HEADER_ID(), m.ty != S_TRAILER_ID(),
        d1.types@ == d.types@.insert(mk(m.name), mk(m.ty)), d1.category@ == d.category@.insert(mk(m.ty), mk(m.cat)), same_fields(d, d1), same_members(d, d1),
        no_sect(a, m.ty), added(d1, d2, m.ty, m.mems), d2.msg_fields@.contains_key(mk(m.ty)), d2.msg_required_fields@.contains_key(mk(m.ty)),
    ensures msgs_from(a, d2, ms.push(m))
{
    hide(gi_is); hide(sect_is); hide(added);
    let w = ms.push(m);
    assert(mnames(w) =~= mnames(ms).push(m.name)); assert(mtypes(w) =~= mtypes(ms).push(m.ty));
    lem_push_in(mnames(ms), m.name); lem_push_in(mtypes(ms), m.ty);
    assert(forall|x: Seq<char>, y: Seq<char>| #[trigger] mk(x) == #[trigger] mk(y) ==> x == y) by { assert forall|x: Seq<char>, y: Seq<char>| #[trigger] mk(x) == #[trigger] mk(y) implies x == y by { assert(mk(x)@ == x); assert(mk(y)@ == y); } }
    lem_same_sects(d, d1);
    assert(sect_eq(a, d, m.ty));
    assert(sect_eq(d, d1, m.ty));
    assert(no_sect(d1, m.ty));
    lem_sect(d1, d2, m.ty, m.mems);
    lem_added_names(d1, d2, m.ty, m.mems);
    assert forall|i: int| 0 <= i < w.len() implies msg_is(d2, #[trigger] w[i]) by {
        if i < ms.len() {
            assert(w[i] == ms[i]); assert(msg_is(d, ms[i]));
            assert(mtypes(ms)[i] == ms[i].ty); assert(mnames(ms)[i] == ms[i].name);
            assert(mtypes(ms).contains(ms[i].ty)); assert(mnames(ms).contains(ms[i].name));
            assert(sect_eq(d, d1, ms[i].ty)); assert(sect_eq(d1, d2, ms[i].ty));
            lem_sect_eq(d, d1, ms[i].ty, ms[i].mems); lem_sect_eq(d1, d2, ms[i].ty, ms[i].mems);
        } else { assert(w[i] == m); }
    }
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).ty != S_HEADER_ID() && w[i].ty != S_TRAILER_ID() by { if i < ms.len() { assert(w[i] == ms[i]); } }
    assert forall|mt: Seq<char>| !mtypes(w).contains(mt) implies #[trigger] sect_eq(a, d2, mt) by { assert(sect_eq(a, d, mt)); assert(sect_eq(d, d1, mt)); assert(sect_eq(d1, d2, mt)); }
}
pub proof fn lem_added_names(a: DataDictionary, b: DataDictionary, mt: Seq<char>, ms: Seq<Mem>) requires added(a, b, mt, ms) ensures same_names(a, b) { hide(gi_is); }
pub proof fn lem_same_sects(a: DataDictionary, b: DataDictionary) requires same_members(a, b) ensures forall|mt: Seq<char>| #[trigger] sect_eq(a, b, mt) { }
pub proof fn lem_defs_prefix(es: Seq<X>, i: int) requires 0 <= i <= es.len() ensures xdefs(es.take(i)) is None ==> xdefs(es) is None decreases es.len() - i
{ hide(xdef); if i == es.len() { assert(es.take(i) =~= es); } else { lem_defs_prefix(es, i + 1); lem_drop_take(es, i + 1); } }
// one more field
pub proof fn lem_def_step(d: DataDictionary, d1: DataDictionary, d2: DataDictionary, ds: Seq<Def>, f: Def, vals: HashSet<String>)
    requires fields_are(d, ds), !xnames(ds).contains(f.name), !numbers(ds).contains(f.num), vals_are(vals@, f.vals),
        d1.fields_by_name@ == d.fields_by_name@.insert(mk(f.name), f.num), d1.fields_by_tag@ == d.fields_by_tag@.insert(f.num, mk(f.name)),
        d1.field_type@ == d.field_type@.insert(f.num, d1.field_type@[f.num]), reads_as(f.ty, d1.field_type@[f.num]), d1.field_values == d.field_values,
        d2.fields_by_name == d1.fields_by_name, d2.fields_by_tag == d1.fields_by_tag, d2.field_type == d1.field_type,
        d2.field_values@ == (if f.vals.len() == 0 { d1.field_values@ } else { d1.field_values@.insert(f.num, vals) }),
    ensures fields_are(d2, ds.push(f))
{
    let w = ds.push(f);
    assert(xnames(w) =~= xnames(ds).push(f.name)); assert(numbers(w) =~= numbers(ds).push(f.num));
    lem_push_in(xnames(ds), f.name); lem_push_in(numbers(ds), f.num);
    assert(forall|x: Seq<char>, y: Seq<char>| #[trigger] mk(x) == #[trigger] mk(y) ==> x == y) by { assert forall|x: Seq<char>, y: Seq<char>| #[trigger] mk(x) == #[trigger] mk(y) implies x == y by { assert(mk(x)@ == x); assert(mk(y)@ == y); } }
    assert forall|i: int| 0 <= i < w.len() implies def_is(d2, #[trigger] w[i]) by {
        if i < ds.len() {
            assert(w[i] == ds[i]); assert(def_is(d, ds[i]));
            assert(xnames(ds)[i] == ds[i].name); assert(numbers(ds)[i] == ds[i].num);
            assert(xnames(ds).contains(ds[i].name)); assert(numbers(ds).contains(ds[i].num));
        } else { assert(w[i] == f); assert(!d.field_values@.contains_key(f.num)); }
    }
}
pub proof fn lem_def_start(d: DataDictionary)
    requires d.fields_by_name@ == Map::<String, u32>::empty(), d.fields_by_tag@ == Map::<u32, String>::empty(), d.field_type@ == Map::<u32, FixType>::empty(), d.field_values@ == Map::<u32, HashSet<String>>::empty()
    ensures fields_are(d, seq![])
{ assert(xnames(seq![]) =~= seq![]); assert(numbers(seq![]) =~= seq![]); }
pub proof fn lem_fields_same(a: DataDictionary, b: DataDictionary, ds: Seq<Def>) requires fields_are(a, ds), same_fields(a, b) ensures fields_are(b, ds)
{ assert forall|i: int| 0 <= i < ds.len() implies def_is(b, #[trigger] ds[i]) by { assert(def_is(a, ds[i])); } }
pub proof fn lem_added_keys(a: DataDictionary, b: DataDictionary, mt: Seq<char>, ms: Seq<Mem>) requires added(a, b, mt, ms)
    ensures a.msg_fields@.contains_key(mk(mt)) ==> b.msg_fields@.contains_key(mk(mt)), a.msg_required_fields@.contains_key(mk(mt)) ==> b.msg_required_fields@.contains_key(mk(mt)) { hide(gi_is); }
pub proof fn lem_msgs_start(d: DataDictionary)
    requires d.types@ == Map::<String, String>::empty(), d.category@ == Map::<String, String>::empty()
    ensures msgs_from(d, d, seq![])
{ assert(mnames(seq![]) =~= seq![]); assert(mtypes(seq![]) =~= seq![]); }
pub proof fn lem_msg_ready(a: DataDictionary, d: DataDictionary, d1: DataDictionary, ms: Seq<Msg>, ty: Seq<char>)
    requires msgs_from(a, d, ms), no_sect(a, ty), same_members(d, d1), !mtypes(ms).contains(ty)
    ensures no_sect(d1, ty)
{ hide(msg_is); lem_same_sects(d, d1); assert(sect_eq(a, d, ty)); assert(sect_eq(d, d1, ty)); }
pub open spec fn nothing_but(d: DataDictionary, h: bool, t: bool) -> bool {
    forall|mt: Seq<char>| !(h && mt == S_HEADER_ID()) && !(t && mt == S_TRAILER_ID()) ==> #[trigger] no_sect(d, mt)
}
pub proof fn lem_empty_start(d: DataDictionary)
    requires d.groups@ == Map::<String, HashMap<u32, GroupInfo>>::empty(), d.msg_fields@ == Map::<String, HashSet<u32>>::empty(), d.msg_required_fields@ == Map::<String, HashSet<u32>>::empty()
    ensures nothing_but(d, false, false) {}
pub proof fn lem_empty_kept(a: DataDictionary, b: DataDictionary) requires same_members(a, b), nothing_but(a, false, false) ensures nothing_but(b, false, false)
{ lem_same_sects(a, b); assert forall|mt: Seq<char>| #[trigger] no_sect(b, mt) by { assert(no_sect(a, mt)); assert(sect_eq(a, b, mt)); } }
pub proof fn lem_names() ensures S_HEADER_ID() != S_TRAILER_ID() { reveal_strlit("header"); reveal_strlit("trailer"); assert("header"@.len() != "trailer"@.len()); }
pub proof fn lem_header(a: DataDictionary, b: DataDictionary, ms: Seq<Mem>)
    requires nothing_but(a, false, false), added(a, b, S_HEADER_ID(), ms), b.msg_fields@.contains_key(mk(S_HEADER_ID())), b.msg_required_fields@.contains_key(mk(S_HEADER_ID()))
    ensures sect_is(b, S_HEADER_ID(), ms), nothing_but(b, true, false), no_sect(b, S_TRAILER_ID()), same_names(a, b)
{
    hide(added); lem_names(); lem_added_names(a, b, S_HEADER_ID(), ms);
    assert(no_sect(a, S_HEADER_ID()));
    lem_sect(a, b, S_HEADER_ID(), ms);
    assert forall|mt: Seq<char>| mt != S_HEADER_ID() implies #[trigger] no_sect(b, mt) by { assert(no_sect(a, mt)); assert(sect_eq(a, b, mt)); }
}
pub proof fn lem_trailer(a: DataDictionary, b: DataDictionary, hs: Seq<Mem>, ms: Seq<Mem>)
    requires nothing_but(a, true, false), sect_is(a, S_HEADER_ID(), hs), added(a, b, S_TRAILER_ID(), ms), b.msg_fields@.contains_key(mk(S_TRAILER_ID())), b.msg_required_fields@.contains_key(mk(S_TRAILER_ID()))
    ensures sect_is(b, S_HEADER_ID(), hs), sect_is(b, S_TRAILER_ID(), ms), nothing_but(b, true, true), same_names(a, b)
{
    hide(added); hide(sect_is); lem_names(); lem_added_names(a, b, S_TRAILER_ID(), ms);
    assert(no_sect(a, S_TRAILER_ID()));
    lem_sect(a, b, S_TRAILER_ID(), ms);
    assert(sect_eq(a, b, S_HEADER_ID()));
    lem_sect_eq(a, b, S_HEADER_ID(), hs);
    assert forall|mt: Seq<char>| mt != S_HEADER_ID() && mt != S_TRAILER_ID() implies #[trigger] no_sect(b, mt) by { assert(no_sect(a, mt)); assert(sect_eq(a, b, mt)); }
}
pub proof fn lem_loaded(a: DataDictionary, b: DataDictionary, sp: Spec)
    requires nothing_but(a, true, true), sect_is(a, S_HEADER_ID(), sp.header), sect_is(a, S_TRAILER_ID(), sp.trailer), fields_are(a, sp.defs), a.begin_string@ == sp.begin, msgs_from(a, b, sp.msgs)
    ensures loaded(b, sp)
{
    hide(sect_is); hide(msg_is);
    lem_fields_same(a, b, sp.defs);
    assert forall|mt: Seq<char>| mt == S_HEADER_ID() || mt == S_TRAILER_ID() implies !mtypes(sp.msgs).contains(mt) by {
        if mtypes(sp.msgs).contains(mt) { let i = choose|i: int| 0 <= i < mtypes(sp.msgs).len() && mtypes(sp.msgs)[i] == mt; assert(sp.msgs[i].ty == mt); }
    }
    assert(sect_eq(a, b, S_HEADER_ID())); assert(sect_eq(a, b, S_TRAILER_ID()));
    lem_sect_eq(a, b, S_HEADER_ID(), sp.header); lem_sect_eq(a, b, S_TRAILER_ID(), sp.trailer);
    assert forall|mt: Seq<char>| mt != S_HEADER_ID() && mt != S_TRAILER_ID() && !mtypes(sp.msgs).contains(mt) implies #[trigger] no_sect(b, mt) by { assert(no_sect(a, mt)); assert(sect_eq(a, b, mt)); }
}
