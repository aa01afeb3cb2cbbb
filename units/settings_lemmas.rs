pub open spec fn picks(r: Seq<&SessionId>, s: Seq<&SessionId>, d: SessionId) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> *#[trigger] r[i] != d && s.contains(r[i])
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> *#[trigger] r[i] != *#[trigger] r[j]
    &&& forall|j: int| 0 <= j < s.len() && *#[trigger] s[j] != d ==> r.contains(s[j])
}
pub proof fn lem_filt_id(s: Seq<&SessionId>, bs: Seq<bool>, d: SessionId)
    requires bs.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] bs[i] == (*s[i] != d), forall|i: int, j: int| 0 <= i < j < s.len() ==> *#[trigger] s[i] != *#[trigger] s[j],
    ensures picks(filt(s, bs), s, d)
    decreases s.len()
{
    if s.len() > 0 {
        let s2 = s.drop_last(); let b2 = bs.drop_last();
        lem_filt_id(s2, b2, d);
        let a = filt(s2, b2); let r = filt(s, bs);
        assert(bs.last() == bs[s.len() - 1]);
        assert forall|i: int| 0 <= i < r.len() implies *#[trigger] r[i] != d && s.contains(r[i]) by {
            if i < a.len() { assert(a[i] == r[i]); let j = choose|j: int| 0 <= j < s2.len() && s2[j] == a[i]; assert(s[j] == r[i]); } else { assert(s[s.len() - 1] == r[i]); }
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies *#[trigger] r[i] != *#[trigger] r[j] by {
            assert(a[i] == r[i]);
            if j < a.len() { assert(a[j] == r[j]); } else { assert(s2.contains(a[i])); let k = choose|k: int| 0 <= k < s2.len() && s2[k] == a[i]; assert(s[k] == r[i] && s[s.len() - 1] == r[j]); }
        }
        assert forall|j: int| 0 <= j < s.len() && *#[trigger] s[j] != d implies r.contains(s[j]) by {
            if j < s2.len() { assert(s2[j] == s[j]); assert(a.contains(s2[j])); let k = choose|k: int| 0 <= k < a.len() && a[k] == s2[j]; assert(r[k] == s[j]); }
            else { assert(r[r.len() - 1] == s[j]); }
        }
    }
}
pub proof fn lem_filt_ids(s: Seq<&SessionId>, d: SessionId)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> *#[trigger] s[i] != *#[trigger] s[j]
    ensures forall|bs: Seq<bool>| bs.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] bs[i] == (*s[i] != d)) ==> picks(#[trigger] filt(s, bs), s, d)
{
    assert forall|bs: Seq<bool>| bs.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] bs[i] == (*s[i] != d)) implies picks(#[trigger] filt(s, bs), s, d) by { lem_filt_id(s, bs, d); }
}
pub open spec fn ids_of(r: Seq<&SessionId>, p: Properties) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> p.session_settings@.contains_key(*#[trigger] r[i]) && *r[i] != p.default_session_id
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> *#[trigger] r[i] != *#[trigger] r[j]
    &&& forall|i: SessionId| #[trigger] p.session_settings@.contains_key(i) && i != p.default_session_id ==> exists|k: int| 0 <= k < r.len() && *#[trigger] r[k] == i
}
// the identity from_map builds is the one of the section
pub proof fn lem_sid(s: SessionId, begin: Seq<char>, sender: Seq<char>, ssub: Option<Seq<char>>, sloc: Option<Seq<char>>, target: Seq<char>, tsub: Option<Seq<char>>, tloc: Option<Seq<char>>)
    requires sid_wf(s), sid_is(s, begin, sender, ssub, sloc, target, tsub, tloc), s.session_qualifier is None
    ensures s == sid_mk(begin, sender, ssub, sloc, target, tsub, tloc)
{
    let t = sid_mk(begin, sender, ssub, sloc, target, tsub, tloc);
    lem_om(s.sender_subid); lem_om(s.sender_locationid); lem_om(s.target_subid); lem_om(s.target_locationid);
    assert(s.begin_string == mk(s.begin_string@) && s.sender_compid == mk(s.sender_compid@) && s.target_compid == mk(s.target_compid@));
    assert(id_text(t) == id_text(s));
    equal_parts_equal_identity(s, t);
}
pub proof fn lem_om(o: Option<String>) ensures omk(otxt(o)) == o { match o { Some(s) => { assert(mk(s@) == s); } None => {} } }
pub proof fn lem_check(p: Properties, i: SessionId)
    requires p.session_settings@.contains_key(i)
    ensures pcfg(p).all.contains_key(i), pcfg(p).all[i] == sect(p, i)
{}
pub proof fn lem_none(ls: Seq<Seq<char>>, i: int, n: int)
    requires 0 <= i <= n <= ls.len(), table(ls.take(i)) is None
    ensures table(ls.take(n)) is None
    decreases n - i
{
    if i < n { lem_none(ls, i, n - 1); assert(ls.take(n).drop_last() =~= ls.take(n - 1)); }
}
pub proof fn lem_table_step(ls: Seq<Seq<char>>, i: int, n: int)
    requires 0 <= i < ls.len(), !opens(ls[i]), n == tlen(ls), tlen(ls) == i + tlen(ls.skip(i)), n <= ls.len()
    ensures ls.skip(i).drop_first() == ls.skip(i + 1), tlen(ls) == i + 1 + tlen(ls.skip(i + 1)), i + 1 <= n,
        ls.take(i + 1).drop_last() == ls.take(i), ls.take(i + 1).last() == ls[i], table(ls.take(i + 1)) is None ==> table(ls.take(n)) is None,
{
    assert(ls.skip(i).drop_first() =~= ls.skip(i + 1));
    assert(ls.skip(i)[0] == ls[i]);
    lem_tlen(ls.skip(i + 1));
    assert(ls.take(i + 1).drop_last() =~= ls.take(i));
    if table(ls.take(i + 1)) is None { lem_none(ls, i + 1, n); }
}
