// what the fields of a container without groups serialise to: there is a layout, and it is at most n bytes
pub open spec fn flat(fields: Map<u32, StringField>, bs: Seq<Blk>) -> bool { lays(fields, Map::<u32, Group>::empty(), seq![], bs, false) }
pub open spec fn small(fields: Map<u32, StringField>, n: int) -> bool { exists|bs: Seq<Blk>| #[trigger] flat(fields, bs) && total(fl(bs), wlen()) <= 420 * n }
pub broadcast proof fn lem_small_empty()
    ensures #[trigger] small(Map::<u32, StringField>::empty(), 0)
{
    let bs = Seq::<Blk>::empty();
    assert(flat(Map::<u32, StringField>::empty(), bs)); assert(fl(bs) =~= seq![]); assert(total(fl(bs), wlen()) == 0);
}
pub proof fn lem_enc_len(s: Seq<char>)
    ensures vstd::utf8::encode_utf8(s).len() <= 4 * s.len()
    decreases s.len()
{
    reveal_with_fuel(vstd::utf8::encode_utf8, 1);
    if s.len() > 0 { lem_enc_len(s.drop_first()); }
}
pub proof fn lem_dec_len(n: nat)
    requires n < 1000
    ensures dec(n).len() <= 3
{ reveal_with_fuel(dec, 4); }
pub proof fn lem_wlen(f: StringField)
    requires f.tag < 1000, f.value@.len() <= 100
    ensures 0 <= wlen()(f) <= 420
{ lem_dec_len(f.tag as nat); lem_enc_len(ftext(f)); }
pub broadcast proof fn lem_small_set(a: Map<u32, StringField>, f: StringField, n: int)
    requires small(a, n - 1), f.tag < 1000, f.value@.len() <= 100
    ensures #[trigger] small(a.insert(f.tag, f), n)
{
    let b = a.insert(f.tag, f);
    let w = wlen();
    let bs = choose|bs: Seq<Blk>| #[trigger] flat(a, bs) && total(fl(bs), wlen()) <= 420 * (n - 1);
    let x = Blk { f, grp: None };
    lem_wlen(f);
    if exists|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).f.tag == f.tag {
        let i = choose|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).f.tag == f.tag;
        let cs = bs.remove(i).push(x);
        lem_fl_remove(bs, i, w);
        assert(cs.drop_last() =~= bs.remove(i));
        lem_total_cat(fl(bs.remove(i)), fb(x), w);
        lem_one(f, w); lem_nonneg(fb(bs[i]));
        assert forall|k: int| 0 <= k < cs.len() - 1 implies #[trigger] cs[k] == (if k < i { bs[k] } else { bs[k + 1] }) by {}
        assert forall|k: u32| #[trigger] b.contains_key(k) implies exists|j: int| 0 <= j < cs.len() && #[trigger] cs[j].f.tag == k by {
            if k == f.tag { assert(cs[cs.len() - 1].f.tag == k); }
            else { let j = choose|j: int| 0 <= j < bs.len() && #[trigger] bs[j].f.tag == k; assert(cs[if j < i { j } else { j - 1 }].f.tag == k); }
        }
        assert(flat(b, cs));
    } else {
        let cs = bs.push(x);
        assert(cs.drop_last() =~= bs);
        lem_total_cat(fl(bs), fb(x), w);
        lem_one(f, w);
        assert forall|k: u32| #[trigger] b.contains_key(k) implies exists|j: int| 0 <= j < cs.len() && #[trigger] cs[j].f.tag == k by {
            if k == f.tag { assert(cs[cs.len() - 1].f.tag == k); }
            else { let j = choose|j: int| 0 <= j < bs.len() && #[trigger] bs[j].f.tag == k; assert(cs[j].f.tag == k); }
        }
        assert(flat(b, cs));
    }
}
pub proof fn lem_one(f: StringField, w: spec_fn(StringField) -> int)
    ensures total(fb(Blk { f, grp: None }), w) == w(f)
{ let s = fb(Blk { f, grp: None }); assert(s =~= seq![f]); assert(s.drop_last() =~= seq![]); assert(total(seq![], w) == 0); }
pub proof fn lem_nonneg(s: Seq<StringField>)
    ensures total(s, wlen()) >= 0
    decreases s.len()
{ if s.len() > 0 { lem_nonneg(s.drop_last()); } }
pub proof fn lem_small_total(m: Message, n: int)
    requires small(m.header.fields@, n), small(m.body.fields@, n), small(m.trailer.fields@, n),
        m.header.group@ == Map::<u32, Group>::empty(), m.body.group@ == Map::<u32, Group>::empty(), m.trailer.group@ == Map::<u32, Group>::empty(),
    ensures msg_total(m, wlen()) <= 1260 * n
{
    lem_small_fm(m.header, n); lem_small_fm(m.body, n); lem_small_fm(m.trailer, n);
}
pub proof fn lem_small_fm(fm: FieldMap, n: int)
    requires small(fm.fields@, n), fm.group@ == Map::<u32, Group>::empty()
    ensures fm_total(fm, wlen()) <= 420 * n
{
    let bs = choose|bs: Seq<Blk>| #[trigger] flat(fm.fields@, bs) && total(fl(bs), wlen()) <= 420 * n;
    assert(repr(fm, bs, false));
    total_is(fm, bs, false, wlen());
}
pub broadcast proof fn lem_small_more(a: Map<u32, StringField>, n: int)
    requires small(a, 0), n >= 0
    ensures #[trigger] small(a, n)
{
    let bs = choose|bs: Seq<Blk>| #[trigger] flat(a, bs) && total(fl(bs), wlen()) <= 0;
    assert(flat(a, bs) && total(fl(bs), wlen()) <= 420 * n);
}
