// ================================================================ the properties
// C02: the tree of an accepted text holds exactly the fields of the text, in the text's order, and each section's own fields have
// different tags; the message holds that tree and nothing else (mholds, the postcondition of Message::from_str)
pub proof fn c02_accepted_holds_the_fields(dd: DataDictionary, s: Seq<char>, t: Tree, m: Message)
    requires dwf(dd), p_text(dd, s) == Ok::<Tree, SessionRejectReason>(t), mholds(m, t, dd)
    ensures
        t_fields(pieces(s, '\u{1}')) == Ok::<Seq<StringField>, SessionRejectReason>(fl(t.h) + fl(t.b) + fl(t.t)),
        distinct(t.h) && distinct(t.b) && distinct(t.t),
        forall|i: int| 0 <= i < t.h.len() ==> has(m.header, #[trigger] t.h[i].f.tag) && m.header.fields@[t.h[i].f.tag] == t.h[i].f,
        forall|i: int| 0 <= i < t.b.len() ==> has(m.body, #[trigger] t.b[i].f.tag) && m.body.fields@[t.b[i].f.tag] == t.b[i].f,
        forall|i: int| 0 <= i < t.t.len() ==> has(m.trailer, #[trigger] t.t[i].f.tag) && m.trailer.fields@[t.t[i].f.tag] == t.t[i].f,
        forall|k: u32| #[trigger] has(m.header, k) ==> listed(t.h, k),
        forall|k: u32| #[trigger] has(m.body, k) ==> listed(t.b, k),
        forall|k: u32| #[trigger] has(m.trailer, k) ==> listed(t.t, k),
{ lem_message_sound(dd, t_fields(pieces(s, '\u{1}'))->Ok_0); }
// a text with a field that lacks '=', has no numeric tag or has no value is rejected
pub proof fn c02_bad_field_rejected(dd: DataDictionary, s: Seq<char>, k: int)
    requires 0 <= k < pieces(s, '\u{1}').len(), t_field(pieces(s, '\u{1}')[k]) is Err
    ensures p_text(dd, s) is Err
    decreases k
{
    let ps = pieces(s, '\u{1}');
    lem_some_err(ps, k);
}
pub proof fn lem_some_err(ps: Seq<Seq<char>>, k: int)
    requires 0 <= k < ps.len(), t_field(ps[k]) is Err
    ensures t_fields(ps) is Err
    decreases ps.len()
{ if k < ps.len() - 1 { assert(ps.drop_last()[k] == ps[k]); lem_some_err(ps.drop_last(), k); } }
// the value is everything behind the first '='
pub proof fn c02_value_is_the_rest(p: Seq<char>)
    requires t_field(p) is Ok
    ensures p.subrange(0, find(p, '=') as int) + seq!['='] + t_field(p)->Ok_0.value@ == p, lacks(p.subrange(0, find(p, '=') as int), '='), t_field(p)->Ok_0.value@.len() > 0
{ lem_find_at(p, '='); assert(p.subrange(0, find(p, '=') as int) + seq!['='] + p.subrange(find(p, '=') as int + 1, p.len() as int) =~= p); }
// C03
pub proof fn c03_sections_in_order(dd: DataDictionary, s: Seq<char>, t: Tree)
    requires dwf(dd), p_text(dd, s) == Ok::<Tree, SessionRejectReason>(t)
    ensures ({
        let v = t_fields(pieces(s, '\u{1}'))->Ok_0;
        &&& v == fl(t.h) + fl(t.b) + fl(t.t)
        &&& v.len() >= 3 && v[0].tag == 8 && v[1].tag == 9 && v[2].tag == 35
        &&& all_header(dd, t.h) && all_body(dd, t.b) && all_trailer(dd, t.t)
    })
{ lem_message_sound(dd, t_fields(pieces(s, '\u{1}'))->Ok_0); }
// C04: every group of an accepted message is as the dictionary declares it, at every depth (valid_bs, valid_gt)
pub proof fn c04_groups_as_declared(dd: DataDictionary, s: Seq<char>, t: Tree)
    requires dwf(dd), p_text(dd, s) == Ok::<Tree, SessionRejectReason>(t)
    ensures valid_bs(dd, S_HEADER_ID(), t.h), valid_bs(dd, msg_type(t.h), t.b)
{ lem_message_sound(dd, t_fields(pieces(s, '\u{1}'))->Ok_0); }
// C08
pub open spec fn same_tree(u: Tree, t: Tree) -> bool { same(u.h, t.h) && same(u.b, t.b) && same(u.t, t.t) }
pub proof fn c08_round_trip(dd: DataDictionary, s: Seq<char>, t: Tree, m: Message, u: Tree, x: Seq<char>)
    requires dwf(dd), p_text(dd, s) == Ok::<Tree, SessionRejectReason>(t), mholds(m, t, dd), apart(dd, t), msg_shows(m, u.h, u.b, u.t, x)
    ensures p_text(dd, x) == Ok::<Tree, SessionRejectReason>(u), forall|m2: Message| mholds(m2, u, dd) ==> mholds(m2, t, dd)
{
    lem_c08_same(dd, s, t, m, u);
    lem_c08_text(dd, s, t, u);
    lem_c08_message(dd, t_fields(pieces(s, '\u{1}'))->Ok_0, t, m, u);
    assert(x == text(fl(u.h) + fl(u.b) + fl(u.t)));
    assert forall|m2: Message| mholds(m2, u, dd) implies mholds(m2, t, dd) by { lem_mholds_same(dd, m2, u, t); }
}
proof fn lem_mholds_same(dd: DataDictionary, m2: Message, u: Tree, t: Tree)
    requires mholds(m2, u, dd), same_tree(u, t), listed(t.h, 35)
    ensures mholds(m2, t, dd)
{
    lem_same_msg_type(u.h, t.h);
    lem_holds_same(m2.header.fields@, m2.header.group@, u.h, t.h, dd, S_HEADER_ID());
    lem_holds_same(m2.body.fields@, m2.body.group@, u.b, t.b, dd, msg_type(t.h));
    lem_holds_same(m2.trailer.fields@, m2.trailer.group@, u.t, t.t, dd, S_TRAILER_ID());
}
// the blocks written are those of the tree
proof fn lem_c08_same(dd: DataDictionary, s: Seq<char>, t: Tree, m: Message, u: Tree)
    requires dwf(dd), p_text(dd, s) == Ok::<Tree, SessionRejectReason>(t), mholds(m, t, dd), repr(m.header, u.h, true), repr(m.body, u.b, true), repr(m.trailer, u.t, true)
    ensures same_tree(u, t), listed(t.h, 35)
{
    lem_message_sound(dd, t_fields(pieces(s, '\u{1}'))->Ok_0);
    lem_gvalid(dd, S_HEADER_ID(), t.h); lem_gvalid(dd, msg_type(t.h), t.b);
    assert(all_gvalid(dd, S_TRAILER_ID(), t.t));
    lem_same_bs(m.header.fields@, m.header.group@, m.header.field_order@, dd, S_HEADER_ID(), u.h, t.h);
    lem_same_bs(m.body.fields@, m.body.group@, m.body.field_order@, dd, msg_type(t.h), u.b, t.b);
    lem_same_bs(m.trailer.fields@, m.trailer.group@, m.trailer.field_order@, dd, S_TRAILER_ID(), u.t, t.t);
}
// the text written is cut into the same fields
proof fn lem_c08_text(dd: DataDictionary, s: Seq<char>, t: Tree, u: Tree)
    requires dwf(dd), p_text(dd, s) == Ok::<Tree, SessionRejectReason>(t), same_tree(u, t)
    ensures t_fields(pieces(text(fl(u.h) + fl(u.b) + fl(u.t)), '\u{1}')) == Ok::<Seq<StringField>, SessionRejectReason>(fl(u.h) + fl(u.b) + fl(u.t))
{
    let ps = pieces(s, '\u{1}'); let v = t_fields(ps)->Ok_0;
    lem_message_sound(dd, v);
    let fs = fl(u.h) + fl(u.b) + fl(u.t);
    let good = |f: StringField| good_field(f);
    lem_pieces_lack(s, '\u{1}');
    lem_fields_good(ps);
    assert forall|i: int| 0 <= i < fl(t.h).len() implies good(#[trigger] fl(t.h)[i]) by { assert(v[i] == fl(t.h)[i]); }
    assert forall|i: int| 0 <= i < fl(t.b).len() implies good(#[trigger] fl(t.b)[i]) by { assert(v[fl(t.h).len() + i] == fl(t.b)[i]); }
    assert forall|i: int| 0 <= i < fl(t.t).len() implies good(#[trigger] fl(t.t)[i]) by { assert(v[fl(t.h).len() + fl(t.b).len() + i] == fl(t.t)[i]); }
    lem_same_tokens(u.h, t.h, good); lem_same_tokens(u.b, t.b, good); lem_same_tokens(u.t, t.t, good);
    assert forall|i: int| 0 <= i < fs.len() implies good_field(#[trigger] fs[i]) by {
        let a = fl(u.h).len() as int; let b = fl(u.b).len() as int;
        if i < a { assert(good(fl(u.h)[i])); } else if i < a + b { assert(good(fl(u.b)[i - a])); } else { assert(good(fl(u.t)[i - a - b])); }
    }
    lem_text_again(fs);
}
// which make the same message
proof fn lem_c08_message(dd: DataDictionary, v: Seq<StringField>, t: Tree, m: Message, u: Tree)
    requires dwf(dd), p_message(dd, v) == Ok::<Tree, SessionRejectReason>(t), apart(dd, t), same_tree(u, t), repr(m.header, u.h, true), m.header.field_order@ == seq![8u32, 9, 35]
    ensures p_message(dd, fl(u.h) + fl(u.b) + fl(u.t)) == Ok::<Tree, SessionRejectReason>(u)
{
    hide(fl); hide(fg); hide(dwf); hide(valid_bs);
    let mt = msg_type(t.h); let hd = S_HEADER_ID(); let h2 = u.h; let b2 = u.b; let t2 = u.t;
    lem_message_sound(dd, v);
    lem_gvalid(dd, hd, t.h);
    lem_c08_parsed(dd, v, t, u);
    lem_out_same(dd, hd, h2, t.h); lem_out_same(dd, hd, b2, t.b); lem_out_same(dd, hd, t2, t.t); lem_out_same(dd, mt, b2, t.b); lem_out_same(dd, mt, t2, t.t);
    lem_sect_same(dd, h2, t.h, b2, t.b, t2, t.t);
    let fs = fl(h2) + fl(b2) + fl(t2);
    let r1 = fl(b2) + fl(t2);
    assert(fs =~= fl(h2) + r1);
    assert(v =~= fl(t.h) + (fl(t.b) + fl(t.t)));
    if t.h.len() == 0 { assert(false); }
    lem_starts(dd, t.h, fl(t.b) + fl(t.t), m.header, h2, r1);
    let e = Seq::<Blk>::empty();
    assert(e + h2 =~= h2); assert(e + b2 =~= b2); assert(e + t2 =~= t2);
    if t2.len() > 0 {
        lem_no_header(dd, t2, t.t);
        lem_front(t2, seq![]); assert(fl(t2) + seq![] =~= fl(t2)); assert(fl(t2)[0] == t2[0].f); assert(outside(dd, hd, t2[0].f.tag)); assert(outside(dd, mt, t2[0].f.tag)); assert(d_field(dd, S_TRAILER_ID(), t2[0].f.tag));
    } else { lem_fl_nil(); assert(t2 =~= seq![]); }
    if b2.len() > 0 { lem_front(b2, fl(t2)); assert(r1[0] == b2[0].f); assert(outside(dd, hd, b2[0].f.tag)); assert(!d_field(dd, hd, b2[0].f.tag)); }
    else { lem_fl_nil(); assert(b2 =~= seq![]); assert(r1 =~= fl(t2)); }
    lem_h_again(dd, e, h2, r1);
    lem_same_msg_type(h2, t.h);
    lem_b_again(dd, mt, e, b2, fl(t2));
    lem_t_again(dd, e, t2);
}
proof fn lem_fl_nil() ensures fl(seq![]) == Seq::<StringField>::empty() {}
proof fn lem_no_header(dd: DataDictionary, a: Seq<Blk>, b: Seq<Blk>)
    requires same(a, b), no_header(dd, b)
    ensures no_header(dd, a)
{ assert forall|i: int| 0 <= i < a.len() implies !d_field(dd, S_HEADER_ID(), (#[trigger] a[i]).f.tag) by { assert(b.contains(a[i])); let k = choose|k: int| 0 <= k < b.len() && b[k] == a[i]; assert(!d_field(dd, S_HEADER_ID(), b[k].f.tag)); } }
proof fn lem_c08_parsed(dd: DataDictionary, v: Seq<StringField>, t: Tree, u: Tree)
    requires p_message(dd, v) == Ok::<Tree, SessionRejectReason>(t), same_tree(u, t)
    ensures all_parsed(dd, S_HEADER_ID(), u.h), all_parsed(dd, msg_type(t.h), u.b)
{
    let hd = S_HEADER_ID(); let mt = msg_type(t.h);
    let (hh, v1) = p_header(dd, v, seq![])->Ok_0;
    lem_h_parsed(dd, v, seq![]);
    lem_b_parsed(dd, mt, v1, seq![]);
    lem_par_same(dd, hd, u.h, t.h); lem_par_same(dd, mt, u.b, t.b);
}
proof fn lem_par_same(dd: DataDictionary, mt: Seq<char>, a: Seq<Blk>, b: Seq<Blk>)
    requires same(a, b), all_parsed(dd, mt, b)
    ensures all_parsed(dd, mt, a)
{ assert forall|i: int| 0 <= i < a.len() implies parsed(dd, mt, #[trigger] a[i]) by { assert(b.contains(a[i])); let k = choose|k: int| 0 <= k < b.len() && b[k] == a[i]; assert(parsed(dd, mt, b[k])); } }
pub proof fn lem_out_same(dd: DataDictionary, mt: Seq<char>, a: Seq<Blk>, b: Seq<Blk>)
    requires same(a, b), all_outside(dd, mt, b)
    ensures all_outside(dd, mt, a)
{ assert forall|i: int| 0 <= i < a.len() implies outside(dd, mt, (#[trigger] a[i]).f.tag) by { assert(b.contains(a[i])); let k = choose|k: int| 0 <= k < b.len() && b[k] == a[i]; assert(outside(dd, mt, b[k].f.tag)); } }
pub proof fn lem_sect_same(dd: DataDictionary, h2: Seq<Blk>, h: Seq<Blk>, b2: Seq<Blk>, b: Seq<Blk>, t2: Seq<Blk>, t: Seq<Blk>)
    requires same(h2, h), same(b2, b), same(t2, t), all_header(dd, h), all_body(dd, b), all_trailer(dd, t)
    ensures all_header(dd, h2), all_body(dd, b2), all_trailer(dd, t2)
{
    assert forall|i: int| 0 <= i < h2.len() implies d_field(dd, S_HEADER_ID(), (#[trigger] h2[i]).f.tag) by { assert(h.contains(h2[i])); let k = choose|k: int| 0 <= k < h.len() && h[k] == h2[i]; assert(d_field(dd, S_HEADER_ID(), h[k].f.tag)); }
    assert forall|i: int| 0 <= i < b2.len() implies !d_field(dd, S_HEADER_ID(), (#[trigger] b2[i]).f.tag) && !d_field(dd, S_TRAILER_ID(), b2[i].f.tag) by {
        assert(b.contains(b2[i])); let k = choose|k: int| 0 <= k < b.len() && b[k] == b2[i]; assert(!d_field(dd, S_HEADER_ID(), b[k].f.tag)); }
    assert forall|i: int| 0 <= i < t2.len() implies d_field(dd, S_TRAILER_ID(), (#[trigger] t2[i]).f.tag) && t2[i].grp is None by { assert(t.contains(t2[i])); let k = choose|k: int| 0 <= k < t.len() && t[k] == t2[i]; assert(d_field(dd, S_TRAILER_ID(), t[k].f.tag)); }
}
