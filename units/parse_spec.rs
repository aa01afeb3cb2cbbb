// ---------------------------------------------------------------- the rules of parsing, as a function of the tokens
pub ghost enum PStep { Done, Fail(SessionRejectReason), Next(Seq<Seq<Blk>>, Seq<StringField>, int) }
// one step inside a repeating group: rd the group's dictionary, n the declared count, insts the instances read so far,
// prev the position of the last member read in the current instance (-1 after the delimiter)
pub open spec fn p_step(rd: DataDictionary, mt: Seq<char>, delim: u32, n: nat, v: Seq<StringField>, insts: Seq<Seq<Blk>>, prev: int) -> PStep
    decreases v.len(), 1nat
{
    if v.len() == 0 { PStep::Done } else {
        let f = v[0];
        let r = v.drop_first();
        let o = first_at(rd.fields_order@, f.tag);
        if f.tag == delim {
            if insts.len() >= n { PStep::Fail(SessionRejectReason::IncorrectNumInGroupCountForRepeatingGroup) }
            else if d_grp(rd, mt, f.tag) is Some {
                match p_group(rd, mt, f, r) {
                    Err(e) => PStep::Fail(e),
                    Ok((gt, rest)) => PStep::Next(insts.push(seq![Blk { f, grp: Some(gt) }]), rest, -1),
                }
            } else { PStep::Next(insts.push(seq![Blk { f, grp: None }]), r, -1) }
        } else if d_grp(rd, mt, f.tag) is Some || d_field(rd, mt, f.tag) {
            if insts.len() == 0 { PStep::Fail(SessionRejectReason::RequiredTagMissing) }
            else if o == prev { PStep::Fail(SessionRejectReason::TagAppearsMoreThanOnce) }
            else if o < prev { PStep::Fail(SessionRejectReason::RepeatingGroupsOutOfOrder) }
            else if d_grp(rd, mt, f.tag) is Some {
                match p_group(rd, mt, f, r) {
                    Err(e) => PStep::Fail(e),
                    Ok((gt, rest)) => PStep::Next(add_last(insts, Blk { f, grp: Some(gt) }), rest, o),
                }
            } else { PStep::Next(add_last(insts, Blk { f, grp: None }), r, o) }
        } else { PStep::Done }
    }
}
pub open spec fn add_last(insts: Seq<Seq<Blk>>, b: Blk) -> Seq<Seq<Blk>> { insts.update(insts.len() - 1, insts.last().push(b)) }
pub open spec fn p_insts(rd: DataDictionary, mt: Seq<char>, delim: u32, n: nat, v: Seq<StringField>, insts: Seq<Seq<Blk>>, prev: int) -> Result<(Seq<Seq<Blk>>, Seq<StringField>), SessionRejectReason>
    decreases v.len(), 2nat
{
    match p_step(rd, mt, delim, n, v, insts, prev) {
        PStep::Done => Ok((insts, v)),
        PStep::Fail(e) => Err(e),
        // the guard always holds (lemma p_shrinks)
        PStep::Next(i2, rest, p2) => if rest.len() < v.len() { p_insts(rd, mt, delim, n, rest, i2, p2) } else { Err(SessionRejectReason::InvalidTag) },
    }
}
pub open spec fn g_done(fld: StringField, delim: u32, n: u32, r: Result<(Seq<Seq<Blk>>, Seq<StringField>), SessionRejectReason>) -> Result<(GT, Seq<StringField>), SessionRejectReason> {
    match r {
        Err(e) => Err(e),
        Ok((insts, rest)) =>
            if insts.len() != n { Err(SessionRejectReason::IncorrectNumInGroupCountForRepeatingGroup) }
            else { Ok((GT { delim, tag: fld.tag, value: n, insts }, rest)) },
    }
}
// a repeating group: fld is its count field, v what follows it
pub open spec fn p_group(dd: DataDictionary, mt: Seq<char>, fld: StringField, v: Seq<StringField>) -> Result<(GT, Seq<StringField>), SessionRejectReason>
    decreases v.len(), 3nat
{
    match d_grp(dd, mt, fld.tag) {
        None => Err(SessionRejectReason::TagNotDefinedForMsgType),
        Some(rg) =>
            if !parse_ok::<u32>(fld.value@) { Err(SessionRejectReason::IncorrectDataFormatForValue) }
            else if parse_val::<u32>(fld.value@) > v.len() { Err(SessionRejectReason::IncorrectNumInGroupCountForRepeatingGroup) }
            else {
                g_done(fld, rg.delimiter, parse_val::<u32>(fld.value@), p_insts(rg.data_dictionary, mt, rg.delimiter, parse_val::<u32>(fld.value@) as nat, v, seq![], -1))
            },
    }
}
pub open spec fn listed(bs: Seq<Blk>, t: u32) -> bool { exists|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).f.tag == t }
pub open spec fn p_field(dd: DataDictionary, mt: Seq<char>, f: StringField, r: Seq<StringField>) -> Result<(Blk, Seq<StringField>), SessionRejectReason> {
    if d_grp(dd, mt, f.tag) is Some {
        match p_group(dd, mt, f, r) { Err(e) => Err(e), Ok((gt, rest)) => Ok((Blk { f, grp: Some(gt) }, rest)) }
    } else { Ok((Blk { f, grp: None }, r)) }
}
pub open spec fn p_header(dd: DataDictionary, v: Seq<StringField>, bs: Seq<Blk>) -> Result<(Seq<Blk>, Seq<StringField>), SessionRejectReason>
    decreases v.len()
{
    if v.len() == 0 || !d_field(dd, S_HEADER_ID(), v[0].tag) { Ok((bs, v)) }
    else if listed(bs, v[0].tag) { Err(SessionRejectReason::TagAppearsMoreThanOnce) }
    else {
        match p_field(dd, S_HEADER_ID(), v[0], v.drop_first()) {
            Err(e) => Err(e),
            Ok((b, rest)) => if rest.len() < v.len() { p_header(dd, rest, bs.push(b)) } else { Err(SessionRejectReason::InvalidTag) },
        }
    }
}
pub open spec fn p_body(dd: DataDictionary, mt: Seq<char>, v: Seq<StringField>, bs: Seq<Blk>) -> Result<(Seq<Blk>, Seq<StringField>), SessionRejectReason>
    decreases v.len()
{
    if v.len() == 0 { Ok((bs, v)) }
    else if d_field(dd, S_HEADER_ID(), v[0].tag) { Err(SessionRejectReason::TagSpecifiedOutOfOrder) }
    else if d_field(dd, S_TRAILER_ID(), v[0].tag) { Ok((bs, v)) }
    else if listed(bs, v[0].tag) { Err(SessionRejectReason::TagAppearsMoreThanOnce) }
    else {
        match p_field(dd, mt, v[0], v.drop_first()) {
            Err(e) => Err(e),
            Ok((b, rest)) => if rest.len() < v.len() { p_body(dd, mt, rest, bs.push(b)) } else { Err(SessionRejectReason::InvalidTag) },
        }
    }
}
pub open spec fn p_trailer(dd: DataDictionary, v: Seq<StringField>, bs: Seq<Blk>) -> Result<Seq<Blk>, SessionRejectReason>
    decreases v.len()
{
    if v.len() == 0 { Ok(bs) }
    else if !d_field(dd, S_TRAILER_ID(), v[0].tag) { Err(SessionRejectReason::TagSpecifiedOutOfOrder) }
    else if listed(bs, v[0].tag) { Err(SessionRejectReason::TagAppearsMoreThanOnce) }
    else { p_trailer(dd, v.drop_first(), bs.push(Blk { f: v[0], grp: None })) }
}
pub ghost struct Tree { pub h: Seq<Blk>, pub b: Seq<Blk>, pub t: Seq<Blk> }
pub open spec fn starts_well(v: Seq<StringField>) -> bool { v.len() >= 3 && v[0].tag == 8 && v[1].tag == 9 && v[2].tag == 35 }
pub open spec fn msg_type(h: Seq<Blk>) -> Seq<char> { h[choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).f.tag == 35].f.value@ }
pub open spec fn p_message(dd: DataDictionary, v: Seq<StringField>) -> Result<Tree, SessionRejectReason> {
    if !starts_well(v) { Err(SessionRejectReason::TagSpecifiedOutOfOrder) }
    else {
        match p_header(dd, v, seq![]) {
            Err(e) => Err(e),
            Ok((h, v1)) =>
                if !listed(h, 35) { Err(SessionRejectReason::RequiredTagMissing) }
                else {
                    match p_body(dd, msg_type(h), v1, seq![]) {
                        Err(e) => Err(e),
                        Ok((b, v2)) => match p_trailer(dd, v2, seq![]) { Err(e) => Err(e), Ok(t) => Ok(Tree { h, b, t }) },
                    }
                },
        }
    }
}
// the fields of a text
pub open spec fn t_field(p: Seq<char>) -> Result<StringField, SessionRejectReason> {
    let k = find(p, '=') as int;
    if k >= p.len() || !parse_ok::<u32>(p.subrange(0, k)) { Err(SessionRejectReason::InvalidTag) }
    else if k + 1 == p.len() { Err(SessionRejectReason::TagSpecifiedWithoutValue) }
    else { Ok(StringField { tag: parse_val::<u32>(p.subrange(0, k)), value: mk(p.subrange(k + 1, p.len() as int)) }) }
}
pub open spec fn t_fields(ps: Seq<Seq<char>>) -> Result<Seq<StringField>, SessionRejectReason>
    decreases ps.len()
{
    if ps.len() == 0 { Ok(seq![]) } else {
        match t_fields(ps.drop_last()) {
            Err(e) => Err(e),
            Ok(fs) => match t_field(ps.last()) { Err(e) => Err(e), Ok(f) => Ok(fs.push(f)) },
        }
    }
}
pub open spec fn p_text(dd: DataDictionary, s: Seq<char>) -> Result<Tree, SessionRejectReason> {
    match t_fields(pieces(s, '\u{1}')) { Err(e) => Err(e), Ok(v) => p_message(dd, v) }
}
// ---------------------------------------------------------------- a container holds exactly what a tree says
pub open spec fn holds(fields: Map<u32, StringField>, group: Map<u32, Group>, bs: Seq<Blk>, dd: DataDictionary, mt: Seq<char>) -> bool decreases bs {
    &&& forall|i: int, j: int| 0 <= i < j < bs.len() ==> #[trigger] bs[i].f.tag != #[trigger] bs[j].f.tag
    &&& forall|i: int| 0 <= i < bs.len() ==> fields.contains_key(#[trigger] bs[i].f.tag) && fields[bs[i].f.tag] == bs[i].f
    &&& forall|k: u32| #[trigger] fields.contains_key(k) ==> listed(bs, k)
    &&& forall|k: u32| #[trigger] group.contains_key(k) ==> fields.contains_key(k)
    &&& forall|i: int| 0 <= i < bs.len() ==> match (#[trigger] bs[i]).grp {
            None => !group.contains_key(bs[i].f.tag),
            Some(t) => group.contains_key(bs[i].f.tag) && d_grp(dd, mt, bs[i].f.tag) is Some && gholds(group[bs[i].f.tag], t, d_grp(dd, mt, bs[i].f.tag)->0, mt),
        }
}
pub open spec fn gholds(g: Group, t: GT, rg: GroupInfo, mt: Seq<char>) -> bool decreases t {
    &&& g.delim == t.delim && g.tag == t.tag && g.value == t.value && g.fields@.len() == t.insts.len()
    &&& forall|j: int| 0 <= j < t.insts.len() ==> g.fields@[j].field_order@ == rg.data_dictionary.fields_order@
            && holds(g.fields@[j].fields@, g.fields@[j].group@, #[trigger] t.insts[j], rg.data_dictionary, mt)
}
pub open spec fn fholds(fm: FieldMap, bs: Seq<Blk>, dd: DataDictionary, mt: Seq<char>) -> bool { holds(fm.fields@, fm.group@, bs, dd, mt) }
pub open spec fn mholds(m: Message, t: Tree, dd: DataDictionary) -> bool {
    &&& fholds(m.header, t.h, dd, S_HEADER_ID()) && m.header.field_order@ == seq![8u32, 9, 35]
    &&& fholds(m.body, t.b, dd, msg_type(t.h)) && m.body.field_order@ == Seq::<u32>::empty()
    &&& fholds(m.trailer, t.t, dd, S_TRAILER_ID()) && m.trailer.field_order@ == seq![93u32, 89, 10]
}
// one instance of a group while it is read: the delimiter, then members at rising positions, the last at prev
pub open spec fn inst_ok(order: Seq<u32>, delim: u32, bs: Seq<Blk>, prev: int) -> bool {
    &&& bs.len() > 0 && bs[0].f.tag == delim
    &&& forall|i: int| 0 < i < bs.len() ==> (#[trigger] bs[i]).f.tag != delim && order.contains(bs[i].f.tag)
    &&& forall|i: int, j: int| 0 < i < j < bs.len() ==> first_at(order, #[trigger] bs[i].f.tag) < first_at(order, #[trigger] bs[j].f.tag)
    &&& bs.len() == 1 ==> prev == -1
    &&& bs.len() > 1 ==> prev == first_at(order, bs.last().f.tag)
}
pub open spec fn inst_any(order: Seq<u32>, delim: u32, bs: Seq<Blk>) -> bool { exists|p: int| inst_ok(order, delim, bs, p) }
// the instances read so far are in the group's containers, the others are empty
pub open spec fn ginv(g: Seq<FieldMap>, insts: Seq<Seq<Blk>>, n: nat, rd: DataDictionary, mt: Seq<char>, delim: u32, prev: int) -> bool {
    &&& g.len() == n && insts.len() <= n
    &&& forall|j: int| 0 <= j < insts.len() ==> #[trigger] g[j].field_order@ == rd.fields_order@
    &&& forall|j: int| 0 <= j < n ==> wf(#[trigger] g[j])
    &&& forall|j: int| 0 <= j < insts.len() ==> { let x = #[trigger] insts[j]; holds(g[j].fields@, g[j].group@, x, rd, mt) }
    &&& forall|j: int| insts.len() <= j < n ==> empty_fm(#[trigger] g[j], seq![delim])
    &&& insts.len() > 0 ==> inst_ok(rd.fields_order@, delim, insts.last(), prev)
    &&& insts.len() == 0 ==> prev == -1
    &&& forall|j: int| 0 <= j < insts.len() ==> inst_any(rd.fields_order@, delim, #[trigger] insts[j])
}
