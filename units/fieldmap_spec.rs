use vecs::*;
// ---------------------------------------------------------------- the content of a field container, laid out
pub ghost struct Blk { pub f: StringField, pub grp: Option<GT> }
pub ghost struct GT { pub delim: u32, pub tag: u32, pub value: u32, pub insts: Seq<Seq<Blk>> }
// flattened: a field, then the instances of its group
pub open spec fn fl(bs: Seq<Blk>) -> Seq<StringField> decreases bs { if bs.len() == 0 { seq![] } else { fl(bs.drop_last()) + fb(bs.last()) } }
pub open spec fn fb(b: Blk) -> Seq<StringField> decreases b { seq![b.f] + fg(b.grp) }
pub open spec fn fg(g: Option<GT>) -> Seq<StringField> decreases g { match g { None => seq![], Some(g) => fi(g.insts) } }
pub open spec fn fi(ii: Seq<Seq<Blk>>) -> Seq<StringField> decreases ii { if ii.len() == 0 { seq![] } else { fi(ii.drop_last()) + fl(ii.last()) } }

// position of a tag in an order, usize::MAX when it is not listed
pub open spec fn pos(order: Seq<u32>, t: u32) -> int { if order.contains(t) { first_at(order, t) } else { usize::MAX as int } }
pub open spec fn first_at(order: Seq<u32>, t: u32) -> int decreases order.len() {
    if order.len() == 0 { 0 } else if order[0] == t { 0 } else { 1 + first_at(order.drop_first(), t) }
}
// bs lays out exactly the fields and groups of a container; srt: in the container's field order, at every depth
pub open spec fn lays(fields: Map<u32, StringField>, group: Map<u32, Group>, order: Seq<u32>, bs: Seq<Blk>, srt: bool) -> bool decreases bs {
    &&& forall|i: int, j: int| 0 <= i < j < bs.len() ==> #[trigger] bs[i].f.tag != #[trigger] bs[j].f.tag
    &&& forall|i: int| 0 <= i < bs.len() ==> fields.contains_key(#[trigger] bs[i].f.tag) && fields[bs[i].f.tag] == bs[i].f
    &&& forall|k: u32| #[trigger] fields.contains_key(k) ==> exists|i: int| 0 <= i < bs.len() && #[trigger] bs[i].f.tag == k
    &&& srt ==> forall|i: int, j: int| 0 <= i < j < bs.len() ==> pos(order, #[trigger] bs[i].f.tag) <= pos(order, #[trigger] bs[j].f.tag)
    &&& forall|i: int| 0 <= i < bs.len() ==> match (#[trigger] bs[i]).grp {
            None => !group.contains_key(bs[i].f.tag),
            Some(t) => group.contains_key(bs[i].f.tag) && glays(group[bs[i].f.tag], t, srt),
        }
}
pub open spec fn glays(g: Group, t: GT, srt: bool) -> bool decreases t {
    &&& g.delim == t.delim && g.tag == t.tag && g.value == t.value && g.fields@.len() == t.insts.len()
    &&& forall|j: int| 0 <= j < t.insts.len() ==> lays(g.fields@[j].fields@, g.fields@[j].group@, g.fields@[j].field_order@, #[trigger] t.insts[j], srt)
}
pub open spec fn repr(fm: FieldMap, bs: Seq<Blk>, srt: bool) -> bool { lays(fm.fields@, fm.group@, fm.field_order@, bs, srt) }

// containers are keyed by the tags of their fields, and a group has its count field
pub open spec fn wf(fm: FieldMap) -> bool decreases fm {
    &&& forall|k: u32| #[trigger] fm.fields@.contains_key(k) ==> fm.fields@[k].tag == k
    &&& forall|k: u32| #[trigger] fm.group@.contains_key(k) ==> fm.fields@.contains_key(k) && gwf(fm.group@[k])
}
pub open spec fn gwf(g: Group) -> bool decreases g {
    forall|l: int| 0 <= l < g.fields@.len() ==> wf(#[trigger] g.fields@[l])
}
pub open spec fn mwf(m: Message) -> bool { wf(m.header) && wf(m.body) && wf(m.trailer) }

// an empty container with an order
pub open spec fn empty_fm(fm: FieldMap, order: Seq<u32>) -> bool {
    fm.fields@ == Map::<u32, StringField>::empty() && fm.group@ == Map::<u32, Group>::empty() && fm.field_order@ == order
}

// ---------------------------------------------------------------- texts, bytes, sums
pub open spec fn ftext(f: StringField) -> Seq<char> { dec(f.tag as nat) + seq!['='] + f.value@ + seq!['\u{1}'] }
pub open spec fn text(fs: Seq<StringField>) -> Seq<char> decreases fs.len() { if fs.len() == 0 { seq![] } else { text(fs.drop_last()) + ftext(fs.last()) } }
pub open spec fn fbytes(f: StringField) -> Seq<u8> { vstd::utf8::encode_utf8(ftext(f)) }
pub open spec fn bsum(b: Seq<u8>) -> int decreases b.len() { if b.len() == 0 { 0 } else { bsum(b.drop_last()) + b.last() as int } }
pub open spec fn total(fs: Seq<StringField>, w: spec_fn(StringField) -> int) -> int decreases fs.len() {
    if fs.len() == 0 { 0 } else { total(fs.drop_last(), w) + w(fs.last()) }
}
// checksum: bytes of all fields but tag 10; body length: number of bytes of all fields but tags 8, 9, 10
pub open spec fn wck() -> spec_fn(StringField) -> int { |f: StringField| if f.tag == 10 { 0int } else { bsum(fbytes(f)) } }
pub open spec fn wlen() -> spec_fn(StringField) -> int { |f: StringField| if f.tag == 8 || f.tag == 9 || f.tag == 10 { 0int } else { fbytes(f).len() as int } }
// total of a container: any layout gives it (lemma total_is)
pub open spec fn fm_total(fm: FieldMap, w: spec_fn(StringField) -> int) -> int {
    total(fl(choose|bs: Seq<Blk>| repr(fm, bs, false)), w)
}
pub open spec fn msg_total(m: Message, w: spec_fn(StringField) -> int) -> int {
    fm_total(m.header, w) + fm_total(m.body, w) + fm_total(m.trailer, w)
}
// x is the text of the container
pub open spec fn fm_shows(fm: FieldMap, bs: Seq<Blk>, x: Seq<char>) -> bool { repr(fm, bs, true) && x == text(fl(bs)) }
pub open spec fn msg_shows(m: Message, h: Seq<Blk>, b: Seq<Blk>, t: Seq<Blk>, x: Seq<char>) -> bool {
    repr(m.header, h, true) && repr(m.body, b, true) && repr(m.trailer, t, true) && x == text(fl(h) + fl(b) + fl(t))
}
// t is the list of the values of a container's fields, in field order
pub open spec fn arranged(fields: Map<u32, StringField>, order: Seq<u32>, t: Seq<&StringField>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).tag != (#[trigger] t[j]).tag
    &&& forall|i: int| 0 <= i < t.len() ==> fields.contains_key((#[trigger] t[i]).tag) && fields[t[i].tag] == *t[i]
    &&& forall|k: u32| #[trigger] fields.contains_key(k) ==> exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).tag == k
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> pos(order, (#[trigger] t[i]).tag) <= pos(order, (#[trigger] t[j]).tag)
}
pub open spec fn is_all(m: Message, fs: Seq<StringField>) -> bool {
    exists|h: Seq<Blk>, b: Seq<Blk>, t: Seq<Blk>| #[trigger] repr(m.header, h, true) && #[trigger] repr(m.body, b, true) && #[trigger] repr(m.trailer, t, true)
        && fs == fl(h) + fl(b) + fl(t)
}
