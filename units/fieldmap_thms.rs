// ---------------------------------------------------------------- C05, C06: the sums are those of the serialised text
// m serialises to x: the checksum total and the body length are sums over the fields of x, and the bytes of x are the bytes of these fields
pub proof fn c05_c06_totals_of_the_text(m: Message, h: Seq<Blk>, b: Seq<Blk>, t: Seq<Blk>, x: Seq<char>)
    requires msg_shows(m, h, b, t, x)
    ensures ({
        let fs = fl(h) + fl(b) + fl(t);
        &&& x == text(fs)
        &&& msg_total(m, wck()) == total(fs, wck())
        &&& msg_total(m, wlen()) == total(fs, wlen())
        &&& bsum(vstd::utf8::encode_utf8(x)) == total(fs, |f: StringField| bsum(fbytes(f)))
        &&& vstd::utf8::encode_utf8(x).len() == total(fs, |f: StringField| fbytes(f).len() as int)
    })
{
    let fs = fl(h) + fl(b) + fl(t);
    assert(is_all(m, fs));
    lem_all(m, fs, wck()); lem_all(m, fs, wlen());
    lem_text_bytes(fs);
}
// the three digits: the text stored in tag 10 has three characters when the value is below 256
pub proof fn c05_three_digits(n: int)
    requires 0 <= n < 256
    ensures pad0(dec(n as nat), 3).len() == 3
{ reveal_with_fuel(dec, 4); }
// ---------------------------------------------------------------- C07
pub open spec fn has(fm: FieldMap, t: u32) -> bool { fm.fields@.contains_key(t) }
proof fn pos3(o: Seq<u32>, a: u32, b: u32, c: u32)
    requires o =~= seq![a, b, c], a != b, b != c, a != c
    ensures pos(o, a) == 0, pos(o, b) == 1, pos(o, c) == 2, forall|k: u32| k != a && k != b && k != c ==> #[trigger] pos(o, k) == usize::MAX
{
    reveal_with_fuel(first_at, 4);
    assert(o[0] == a && o[1] == b && o[2] == c);
    assert(o.contains(a) && o.contains(b) && o.contains(c));
    assert(o.drop_first() =~= seq![b, c]); assert(o.drop_first().drop_first() =~= seq![c]);
}
pub proof fn c07_header_starts_with_8_9_35(fm: FieldMap, bs: Seq<Blk>)
    requires repr(fm, bs, true), fm.field_order@ =~= seq![8u32, 9, 35]
    ensures
        has(fm, 8) ==> bs.len() > 0 && bs[0].f.tag == 8,
        has(fm, 9) ==> bs.len() > (if has(fm, 8) { 1int } else { 0 }) && bs[if has(fm, 8) { 1int } else { 0 }].f.tag == 9,
        has(fm, 35) ==> bs.len() > (if has(fm, 8) { 1int } else { 0 }) + (if has(fm, 9) { 1int } else { 0 })
            && bs[(if has(fm, 8) { 1int } else { 0 }) + (if has(fm, 9) { 1int } else { 0 })].f.tag == 35,
{
    pos3(fm.field_order@, 8, 9, 35);
    c07_nth(fm, bs, 8, 9, 35);
}
// three listed tags take the first places, in the order of the list
proof fn c07_nth(fm: FieldMap, bs: Seq<Blk>, a: u32, b: u32, c: u32)
    requires repr(fm, bs, true), a != b, b != c, a != c, ({ let o = fm.field_order@; pos(o, a) == 0 && pos(o, b) == 1 && pos(o, c) == 2 && forall|k: u32| k != a && k != b && k != c ==> #[trigger] pos(o, k) == usize::MAX })
    ensures
        has(fm, a) ==> bs.len() > 0 && bs[0].f.tag == a,
        has(fm, b) ==> bs.len() > (if has(fm, a) { 1int } else { 0 }) && bs[if has(fm, a) { 1int } else { 0 }].f.tag == b,
        has(fm, c) ==> bs.len() > (if has(fm, a) { 1int } else { 0 }) + (if has(fm, b) { 1int } else { 0 })
            && bs[(if has(fm, a) { 1int } else { 0 }) + (if has(fm, b) { 1int } else { 0 })].f.tag == c,
{
    let o = fm.field_order@;
    let i = choose|i: int| 0 <= i < bs.len() && #[trigger] bs[i].f.tag == a;
    let j = choose|j: int| 0 <= j < bs.len() && #[trigger] bs[j].f.tag == b;
    let k = choose|k: int| 0 <= k < bs.len() && #[trigger] bs[k].f.tag == c;
    if has(fm, a) {
        assert(bs[i].f.tag == a);
        if i > 0 { assert(pos(o, bs[0].f.tag) <= pos(o, bs[i].f.tag)); assert(bs[0].f.tag != bs[i].f.tag); }
        assert(i == 0);
    }
    if has(fm, b) {
        assert(bs[j].f.tag == b);
        let n: int = if has(fm, a) { 1 } else { 0 };
        if j < n { assert(bs[i].f.tag == a); }
        if j > n { assert(pos(o, bs[n].f.tag) <= pos(o, bs[j].f.tag)); assert(bs[n].f.tag != bs[j].f.tag); assert(bs[n].f.tag == a); assert(has(fm, a)); assert(bs[0].f.tag != bs[n].f.tag); }
    }
    if has(fm, c) {
        assert(bs[k].f.tag == c);
        let n: int = (if has(fm, a) { 1int } else { 0 }) + (if has(fm, b) { 1int } else { 0 });
        if k > n {
            assert(pos(o, bs[n].f.tag) <= pos(o, bs[k].f.tag)); assert(bs[n].f.tag != bs[k].f.tag);
            assert(bs[n].f.tag == a || bs[n].f.tag == b);
            assert(has(fm, bs[n].f.tag));
            if bs[n].f.tag == a { assert(bs[0].f.tag != bs[n].f.tag || n == 0); } 
        }
        if k < n { assert(bs[k].f.tag == c); }
    }
}
pub proof fn c07_trailer_ends_with_10(fm: FieldMap, bs: Seq<Blk>)
    requires repr(fm, bs, true), fm.field_order@ =~= seq![93u32, 89, 10], has(fm, 10), forall|k: u32| #[trigger] has(fm, k) ==> k == 93 || k == 89 || k == 10
    ensures bs.len() > 0, bs.last().f.tag == 10
{
    pos3(fm.field_order@, 93, 89, 10);
    let k = choose|k: int| 0 <= k < bs.len() && #[trigger] bs[k].f.tag == 10;
    let n = bs.len() - 1;
    assert(has(fm, bs[n].f.tag));
    if k < n { assert(pos(fm.field_order@, bs[k].f.tag) <= pos(fm.field_order@, bs[n].f.tag)); assert(bs[k].f.tag != bs[n].f.tag); }
}
// each group's instances directly follow its count field, in order
pub proof fn c07_group_behind_its_count(bs: Seq<Blk>, i: int, g: GT)
    requires 0 <= i < bs.len(), bs[i].grp == Some(g)
    ensures fl(bs) == fl(bs.take(i)) + seq![bs[i].f] + fi(g.insts) + fl(bs.skip(i + 1))
{
    assert(bs =~= bs.take(i) + (seq![bs[i]] + bs.skip(i + 1)));
    lem_fl_cat(bs.take(i), seq![bs[i]] + bs.skip(i + 1)); lem_fl_cat(seq![bs[i]], bs.skip(i + 1)); lem_fl_one(bs[i]);
    assert(fl(bs) =~= fl(bs.take(i)) + seq![bs[i].f] + fi(g.insts) + fl(bs.skip(i + 1)));
}
// a tag listed first is written first; two listed tags are written in the order of the list
pub proof fn c07_order_inside_a_container(fm: FieldMap, bs: Seq<Blk>)
    requires repr(fm, bs, true)
    ensures
        fm.field_order@.len() > 0 && has(fm, fm.field_order@[0]) ==> bs.len() > 0 && bs[0].f.tag == fm.field_order@[0],
        forall|i: int, j: int| 0 <= i < bs.len() && 0 <= j < bs.len() && first_at(fm.field_order@, #[trigger] bs[i].f.tag) < first_at(fm.field_order@, #[trigger] bs[j].f.tag) && fm.field_order@.contains(bs[j].f.tag) && fm.field_order@.len() < usize::MAX ==> i < j,
{
    let o = fm.field_order@;
    if o.len() > 0 && has(fm, o[0]) {
        let t = o[0];
        let i = choose|i: int| 0 <= i < bs.len() && #[trigger] bs[i].f.tag == t;
        lem_first_at(o, t);
        if i > 0 {
            lem_first_at(o, bs[0].f.tag);
            assert(pos(o, bs[0].f.tag) <= pos(o, bs[i].f.tag)); assert(bs[0].f.tag != bs[i].f.tag);
        }
    }
    assert forall|i: int, j: int| 0 <= i < bs.len() && 0 <= j < bs.len() && first_at(o, #[trigger] bs[i].f.tag) < first_at(o, #[trigger] bs[j].f.tag) && o.contains(bs[j].f.tag) && o.len() < usize::MAX implies i < j by {
        lem_first_at(o, bs[i].f.tag); lem_first_at(o, bs[j].f.tag);
        if j < i { assert(pos(o, bs[j].f.tag) <= pos(o, bs[i].f.tag)); }
    }
}
// every stored field is written exactly once, outside of groups at the position of its block
pub proof fn c07_every_field_once(fm: FieldMap, bs: Seq<Blk>, t: u32)
    requires repr(fm, bs, true)
    ensures has(fm, t) <==> exists|i: int| 0 <= i < bs.len() && #[trigger] bs[i].f.tag == t,
        forall|i: int, j: int| 0 <= i < bs.len() && 0 <= j < bs.len() && #[trigger] bs[i].f.tag == t && #[trigger] bs[j].f.tag == t ==> i == j,
        forall|i: int| 0 <= i < bs.len() && #[trigger] bs[i].f.tag == t ==> bs[i].f == fm.fields@[t],
{
    assert forall|i: int, j: int| 0 <= i < bs.len() && 0 <= j < bs.len() && #[trigger] bs[i].f.tag == t && #[trigger] bs[j].f.tag == t implies i == j by {
        if i < j { assert(bs[i].f.tag != bs[j].f.tag); } else if j < i { assert(bs[j].f.tag != bs[i].f.tag); }
    }
}
