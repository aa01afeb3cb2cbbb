// ---------------------------------------------------------------- what a specification declares
// a member of a message, group or component: a field, or the count field of a group with its members
pub struct GS { pub mems: Seq<Mem> }
pub struct Mem { pub num: u32, pub req: bool, pub grp: Option<GS> }
pub open spec fn p_elem() -> spec_fn(X) -> bool { |x: X| x.elem }
pub open spec fn p_field() -> spec_fn(X) -> bool { |x: X| x.elem && x.name == "field"@ }
pub open spec fn p_value() -> spec_fn(X) -> bool { |x: X| x.elem && x.name == "value"@ }
pub open spec fn p_message() -> spec_fn(X) -> bool { |x: X| x.elem && lower(x.name) == lower("message"@) }
// an attribute that is present and not empty
pub open spec fn xattr(x: X, a: Seq<char>) -> Option<Seq<char>> {
    if x.attrs.contains_key(a) && x.attrs[a].len() > 0 { Some(x.attrs[a]) } else { None }
}
pub open spec fn marked(x: X) -> Option<bool> {
    match xattr(x, "required"@) { Some(s) => Some(lower(s) == lower("Y"@)), None => None }
}
pub open spec fn xnumber(x: X) -> Option<u32> {
    match xattr(x, "number"@) { Some(s) => if parse_ok::<u32>(s) { Some(parse_val::<u32>(s)) } else { None }, None => None }
}
// the first child with that name, in any letter case
pub open spec fn sec(kids: Seq<X>, name: Seq<char>) -> Option<X> decreases kids.len() {
    if kids.len() == 0 { None } else if lower(kids[0].name) == lower(name) { Some(kids[0]) } else { sec(kids.drop_first(), name) }
}
// the number of the first field element with that name
pub open spec fn fnum(fs: Seq<X>, name: Seq<char>) -> Option<u32> decreases fs.len() {
    if fs.len() == 0 { None } else {
        match xattr(fs[0], "name"@) { None => None, Some(n) => if n == name { xnumber(fs[0]) } else { fnum(fs.drop_first(), name) } }
    }
}
pub open spec fn field_num(root: X, name: Seq<char>) -> Option<u32> {
    match sec(root.kids, "fields"@) { Some(f) => fnum(f.kids.filter(p_field()), name), None => None }
}
pub open spec fn nums(ms: Seq<Mem>) -> Seq<u32> { ms.map_values(|m: Mem| m.num) }
// t is listed as required
pub open spec fn reqs(ms: Seq<Mem>, t: u32) -> bool { exists|i: int| 0 <= i < ms.len() && #[trigger] ms[i].num == t && ms[i].req }
// t counts a group
pub open spec fn cnts(ms: Seq<Mem>, t: u32) -> bool { exists|i: int| 0 <= i < ms.len() && #[trigger] ms[i].num == t && ms[i].grp is Some }
// the members the children `kids` of a message, group or component declare; `req`: the message is meant, or the
// component reference or group is required; cs: the components that may be used; None: the declaration is faulty
pub open spec fn m_kids(kids: Seq<X>, req: bool, cs: Map<String, X>, root: X) -> Option<Seq<Mem>> decreases cs.dom().len(), kids {
    if kids.len() == 0 { Some(seq![]) } else {
        match m_kids(kids.drop_last(), req, cs, root) {
            None => None,
            Some(a) => if !kids.last().elem { Some(a) } else { match m_kid(kids.last(), req, cs, root) { None => None, Some(b) => Some(a + b) } },
        }
    }
}
pub open spec fn m_kid(x: X, req: bool, cs: Map<String, X>, root: X) -> Option<Seq<Mem>> decreases cs.dom().len(), x {
    match (xattr(x, "name"@), marked(x)) {
        (Some(n), Some(own)) =>
            if x.name == "field"@ {
                match field_num(root, n) { Some(k) => Some(seq![Mem { num: k, req: own && req, grp: None }]), None => None }
            } else if x.name == "component"@ {
                if cs.contains_key(mk(n)) { m_kids(cs[mk(n)].kids, own, cs.remove(mk(n)), root) } else { None }
            } else if x.name == "group"@ {
                match (field_num(root, n), m_kids(x.kids, own, cs, root)) {
                    (Some(k), Some(ms)) => if ms.len() > 0 && nums(ms).no_duplicates() { Some(seq![Mem { num: k, req: own && req, grp: Some(GS { mems: ms }) }]) } else { None },
                    _ => None,
                }
            } else { None },
        _ => None,
    }
}
// the members of a group
pub open spec fn g_mems(x: X, req: bool, cs: Map<String, X>, root: X) -> Option<Seq<Mem>> {
    match m_kids(x.kids, req, cs, root) { Some(ms) => if ms.len() > 0 && nums(ms).no_duplicates() { Some(ms) } else { None }, None => None }
}
// a group as the dictionary stores it says what was declared: its delimiter is its first member, its members are listed in
// declaration order, required ones as such, and its groups likewise
pub open spec fn gi_is(g: GroupInfo, gs: GS, mt: Seq<char>) -> bool decreases gs {
    let d = g.data_dictionary;
    &&& gs.mems.len() > 0 && g.delimiter == gs.mems[0].num && d.fields_order@ == nums(gs.mems)
    &&& forall|m: Seq<char>, t: u32| #[trigger] d_field(d, m, t) == (m == mt && nums(gs.mems).contains(t))
    &&& forall|m: Seq<char>, t: u32| #[trigger] d_req(d, m, t) == (m == mt && reqs(gs.mems, t))
    &&& forall|m: Seq<char>, t: u32| (#[trigger] d_grp(d, m, t) is Some) == (m == mt && cnts(gs.mems, t))
    &&& forall|i: int| 0 <= i < gs.mems.len() && (#[trigger] gs.mems[i]).grp is Some ==> gi_is(d_grp(d, mt, gs.mems[i].num)->0, gs.mems[i].grp->0, mt)
}
// the new dictionary is the old one with the members ms added to message type mt
pub open spec fn added(a: DataDictionary, b: DataDictionary, mt: Seq<char>, ms: Seq<Mem>) -> bool {
    &&& forall|m: Seq<char>, t: u32| #[trigger] d_field(b, m, t) == (d_field(a, m, t) || m == mt && nums(ms).contains(t))
    &&& forall|m: Seq<char>, t: u32| #[trigger] d_req(b, m, t) == (d_req(a, m, t) || m == mt && reqs(ms, t))
    &&& forall|m: Seq<char>, t: u32| !(m == mt && cnts(ms, t)) ==> #[trigger] d_grp(b, m, t) == d_grp(a, m, t)
    &&& grps_are(b, mt, ms)
    &&& a.fields_order@.no_duplicates() ==> b.fields_order@.no_duplicates()
    &&& disj(a.fields_order@, nums(ms)) && nums(ms).no_duplicates() ==> b.fields_order@ == a.fields_order@ + nums(ms)
    &&& forall|m: String| a.msg_fields@.contains_key(m) ==> #[trigger] b.msg_fields@.contains_key(m)
    &&& forall|m: String| a.msg_required_fields@.contains_key(m) ==> #[trigger] b.msg_required_fields@.contains_key(m)
    &&& same_names(a, b)
}
pub open spec fn grps_are(b: DataDictionary, mt: Seq<char>, ms: Seq<Mem>) -> bool {
    forall|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]).grp is Some ==> d_grp(b, mt, ms[i].num) is Some && gi_is(d_grp(b, mt, ms[i].num)->0, ms[i].grp->0, mt)
}
pub open spec fn disj(a: Seq<u32>, b: Seq<u32>) -> bool { forall|t: u32| #[trigger] a.contains(t) ==> !b.contains(t) }
pub open spec fn same_fields(a: DataDictionary, b: DataDictionary) -> bool {
    a.begin_string == b.begin_string && a.fields_by_tag == b.fields_by_tag && a.fields_by_name == b.fields_by_name && a.field_values == b.field_values && a.field_type == b.field_type
}
pub open spec fn same_names(a: DataDictionary, b: DataDictionary) -> bool { same_fields(a, b) && a.types == b.types && a.category == b.category }
// no member is declared twice, or before
pub open spec fn fresh(a: DataDictionary, mt: Seq<char>, ms: Seq<Mem>) -> bool {
    nums(ms).no_duplicates() && forall|t: u32| #[trigger] nums(ms).contains(t) ==> !d_field(a, mt, t)
}
pub open spec fn xfirst(ms: Seq<Mem>) -> Option<u32> { if ms.len() > 0 { Some(ms[0].num) } else { None } }
pub open spec fn empty_dd(d: DataDictionary) -> bool {
    &&& d.fields_order@ == Seq::<u32>::empty()
    &&& forall|m: Seq<char>, t: u32| !#[trigger] d_field(d, m, t)
    &&& forall|m: Seq<char>, t: u32| !#[trigger] d_req(d, m, t)
    &&& forall|m: Seq<char>, t: u32| #[trigger] d_grp(d, m, t) is None
}
// the components section
pub open spec fn xcomps(es: Seq<X>) -> Option<Map<String, X>> decreases es.len() {
    if es.len() == 0 { Some(Map::empty()) } else {
        match (xcomps(es.drop_last()), xattr(es.last(), "name"@)) { (Some(m), Some(n)) => Some(m.insert(mk(n), es.last())), _ => None }
    }
}
pub open spec fn cmap_ok(cs: Map<String, X>) -> bool {
    forall|k: String| #[trigger] cs.contains_key(k) ==> xattr(cs[k], "name"@) == Some(k@)
}
pub open spec fn xmap(m: Map<String, Node>) -> Map<String, X> { m.map_values(|n: Node| n.x()) }
// the fields section
pub struct Def { pub num: u32, pub name: Seq<char>, pub ty: Seq<char>, pub vals: Seq<Seq<char>> }
pub open spec fn xvalues(es: Seq<X>) -> Option<Seq<Seq<char>>> decreases es.len() {
    if es.len() == 0 { Some(seq![]) } else {
        match (xvalues(es.drop_last()), xattr(es.last(), "enum"@)) { (Some(a), Some(v)) => if a.contains(v) { None } else { Some(a.push(v)) }, _ => None }
    }
}
pub open spec fn xdef(x: X) -> Option<Def> {
    match (xattr(x, "name"@), xnumber(x), xattr(x, "type"@), xvalues(x.kids.filter(p_value()))) {
        (Some(name), Some(num), Some(ty), Some(vals)) => Some(Def { num, name, ty, vals }),
        _ => None,
    }
}
pub open spec fn xdefs(es: Seq<X>) -> Option<Seq<Def>> decreases es.len() {
    if es.len() == 0 { Some(seq![]) } else {
        match (xdefs(es.drop_last()), xdef(es.last())) {
            (Some(a), Some(d)) => if xnames(a).contains(d.name) || numbers(a).contains(d.num) { None } else { Some(a.push(d)) },
            _ => None,
        }
    }
}
pub open spec fn xnames(a: Seq<Def>) -> Seq<Seq<char>> { a.map_values(|d: Def| d.name) }
pub open spec fn numbers(a: Seq<Def>) -> Seq<u32> { a.map_values(|d: Def| d.num) }
// the messages section
pub struct Msg { pub name: Seq<char>, pub ty: Seq<char>, pub cat: Seq<char>, pub mems: Seq<Mem> }
pub open spec fn s_mems(x: X, cs: Map<String, X>, root: X) -> Option<Seq<Mem>> {
    match m_kids(x.kids, true, cs, root) { Some(ms) => if nums(ms).no_duplicates() { Some(ms) } else { None }, None => None }
}
pub open spec fn xmsg(x: X, cs: Map<String, X>, root: X) -> Option<Msg> {
    match (xattr(x, "name"@), xattr(x, "msgtype"@), xattr(x, "msgcat"@), s_mems(x, cs, root)) {
        (Some(name), Some(ty), Some(cat), Some(mems)) => Some(Msg { name, ty, cat, mems }),
        _ => None,
    }
}
pub open spec fn mnames(a: Seq<Msg>) -> Seq<Seq<char>> { a.map_values(|m: Msg| m.name) }
pub open spec fn mtypes(a: Seq<Msg>) -> Seq<Seq<char>> { a.map_values(|m: Msg| m.ty) }
pub open spec fn xmsgs(es: Seq<X>, cs: Map<String, X>, root: X) -> Option<Seq<Msg>> decreases es.len() {
    if es.len() == 0 { Some(seq![]) } else {
        match (xmsgs(es.drop_last(), cs, root), xmsg(es.last(), cs, root)) {
            (Some(a), Some(m)) => if mnames(a).contains(m.name) || mtypes(a).contains(m.ty) || m.ty == S_HEADER_ID() || m.ty == S_TRAILER_ID() { None } else { Some(a.push(m)) },
            _ => None,
        }
    }
}
// the whole specification
pub struct Spec { pub begin: Seq<char>, pub defs: Seq<Def>, pub header: Seq<Mem>, pub trailer: Seq<Mem>, pub msgs: Seq<Msg> }
pub open spec fn spec_of(root: X) -> Option<Spec> {
    match (xbegin(root), sec(root.kids, "fields"@), sec(root.kids, "components"@), sec(root.kids, S_HEADER_ID()), sec(root.kids, S_TRAILER_ID()), sec(root.kids, "messages"@)) {
        (Some(b), Some(f), Some(c), Some(h), Some(t), Some(m)) => match (xdefs(f.kids.filter(p_field())), xcomps(c.kids.filter(p_elem()))) {
            (Some(ds), Some(cs)) => match (s_mems(h, cs, root), s_mems(t, cs, root), xmsgs(m.kids.filter(p_message()), cs, root)) {
                (Some(hm), Some(tm), Some(ms)) => Some(Spec { begin: b, defs: ds, header: hm, trailer: tm, msgs: ms }),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}
pub open spec fn xbegin(root: X) -> Option<Seq<char>> {
    match (xattr(root, "type"@), xattr(root, "major"@), xattr(root, "minor"@)) { (Some(a), Some(b), Some(c)) => Some(a + "."@ + b + "."@ + c), _ => None }
}
// ---------------------------------------------------------------- the loaded dictionary says what the specification declares
pub open spec fn fields_are(d: DataDictionary, ds: Seq<Def>) -> bool {
    &&& forall|n: Seq<char>| #[trigger] d.fields_by_name@.contains_key(mk(n)) == xnames(ds).contains(n)
    &&& forall|t: u32| #[trigger] d.fields_by_tag@.contains_key(t) == numbers(ds).contains(t)
    &&& forall|t: u32| #[trigger] d.field_type@.contains_key(t) == numbers(ds).contains(t)
    &&& forall|t: u32| #[trigger] d.field_values@.contains_key(t) ==> numbers(ds).contains(t)
    &&& forall|i: int| 0 <= i < ds.len() ==> def_is(d, #[trigger] ds[i])
}
pub open spec fn def_is(d: DataDictionary, f: Def) -> bool {
    &&& d.fields_by_name@.contains_key(mk(f.name)) && d.fields_by_name@[mk(f.name)] == f.num
    &&& d.fields_by_tag@.contains_key(f.num) && d.fields_by_tag@[f.num]@ == f.name
    &&& d.field_type@.contains_key(f.num) && reads_as(f.ty, d.field_type@[f.num])
    &&& d.field_values@.contains_key(f.num) == (f.vals.len() > 0)
    &&& f.vals.len() > 0 ==> forall|v: Seq<char>| #[trigger] d.field_values@[f.num]@.contains(mk(v)) == f.vals.contains(v)
}
// message type mt (or header, trailer) has exactly the members ms
pub open spec fn sect_is(d: DataDictionary, mt: Seq<char>, ms: Seq<Mem>) -> bool {
    &&& forall|t: u32| #[trigger] d_field(d, mt, t) == nums(ms).contains(t)
    &&& forall|t: u32| #[trigger] d_req(d, mt, t) == reqs(ms, t)
    &&& forall|t: u32| (#[trigger] d_grp(d, mt, t) is Some) == cnts(ms, t)
    &&& grps_are(d, mt, ms)
    &&& d.msg_fields@.contains_key(mk(mt)) && d.msg_required_fields@.contains_key(mk(mt))
}
pub open spec fn no_sect(d: DataDictionary, mt: Seq<char>) -> bool {
    &&& forall|t: u32| !#[trigger] d_field(d, mt, t)
    &&& forall|t: u32| !#[trigger] d_req(d, mt, t)
    &&& forall|t: u32| #[trigger] d_grp(d, mt, t) is None
}
pub open spec fn msgs_are(d: DataDictionary, ms: Seq<Msg>) -> bool {
    &&& forall|n: Seq<char>| #[trigger] d.types@.contains_key(mk(n)) == mnames(ms).contains(n)
    &&& forall|n: Seq<char>| #[trigger] d.category@.contains_key(mk(n)) == mtypes(ms).contains(n)
    &&& forall|i: int| 0 <= i < ms.len() ==> msg_is(d, #[trigger] ms[i])
    &&& forall|mt: Seq<char>| mt != S_HEADER_ID() && mt != S_TRAILER_ID() && !mtypes(ms).contains(mt) ==> #[trigger] no_sect(d, mt)
}
pub open spec fn msg_is(d: DataDictionary, m: Msg) -> bool {
    &&& d.types@.contains_key(mk(m.name)) && d.types@[mk(m.name)]@ == m.ty
    &&& d.category@.contains_key(mk(m.ty)) && d.category@[mk(m.ty)]@ == m.cat
    &&& sect_is(d, m.ty, m.mems)
}
pub open spec fn loaded(d: DataDictionary, s: Spec) -> bool {
    d.begin_string@ == s.begin && fields_are(d, s.defs) && sect_is(d, S_HEADER_ID(), s.header) && sect_is(d, S_TRAILER_ID(), s.trailer) && msgs_are(d, s.msgs)
}
pub open spec fn vals_are(m: Set<String>, vs: Seq<Seq<char>>) -> bool { (m.len() == 0) == (vs.len() == 0) && forall|v: Seq<char>| #[trigger] m.contains(mk(v)) == vs.contains(v) }
pub open spec fn same_members(a: DataDictionary, b: DataDictionary) -> bool {
    a.groups == b.groups && a.fields_order == b.fields_order && a.msg_fields == b.msg_fields && a.msg_required_fields == b.msg_required_fields
}
pub open spec fn same_rest(a: DataDictionary, b: DataDictionary) -> bool { a.begin_string == b.begin_string && a.types == b.types && a.category == b.category && same_members(a, b) }
pub open spec fn one(n: u32, req: bool) -> Seq<Mem> { seq![Mem { num: n, req: req, grp: None }] }
pub open spec fn set_one(a: DataDictionary, b: DataDictionary, mt: Seq<char>, n: u32, req: bool) -> bool {
    &&& forall|m: Seq<char>, t: u32| #[trigger] d_field(b, m, t) == (d_field(a, m, t) || m == mt && t == n)
    &&& forall|m: Seq<char>, t: u32| #[trigger] d_req(b, m, t) == (d_req(a, m, t) || m == mt && t == n && req)
    &&& forall|m: String| a.msg_fields@.contains_key(m) ==> #[trigger] b.msg_fields@.contains_key(m)
    &&& forall|m: String| a.msg_required_fields@.contains_key(m) ==> #[trigger] b.msg_required_fields@.contains_key(m)
    &&& a.groups == b.groups && same_names(a, b)
}
pub open spec fn group_set(a: DataDictionary, b: DataDictionary, mt: Seq<char>, n: u32, g: GroupInfo) -> bool {
    &&& forall|m: Seq<char>, t: u32| #[trigger] d_grp(b, m, t) == (if m == mt && t == n { Some(g) } else { d_grp(a, m, t) })
    &&& same_names(a, b) && a.msg_fields == b.msg_fields && a.msg_required_fields == b.msg_required_fields && a.fields_order == b.fields_order
}
// the members of a component: it can not be part of itself
pub open spec fn c_mems(x: X, req: bool, cs: Map<String, X>, root: X) -> Option<Seq<Mem>> { m_kids(x.kids, req, cs.remove(mk(xattr(x, "name"@)->0)), root) }
pub open spec fn sect_eq(a: DataDictionary, b: DataDictionary, mt: Seq<char>) -> bool {
    &&& forall|t: u32| #[trigger] d_field(b, mt, t) == d_field(a, mt, t)
    &&& forall|t: u32| #[trigger] d_req(b, mt, t) == d_req(a, mt, t)
    &&& forall|t: u32| #[trigger] d_grp(b, mt, t) == d_grp(a, mt, t)
    &&& a.msg_fields@.contains_key(mk(mt)) ==> b.msg_fields@.contains_key(mk(mt))
    &&& a.msg_required_fields@.contains_key(mk(mt)) ==> b.msg_required_fields@.contains_key(mk(mt))
}
// the messages ms have been added to the dictionary a, giving d
pub open spec fn msgs_from(a: DataDictionary, d: DataDictionary, ms: Seq<Msg>) -> bool {
    &&& forall|n: Seq<char>| #[trigger] d.types@.contains_key(mk(n)) == mnames(ms).contains(n)
    &&& forall|n: Seq<char>| #[trigger] d.category@.contains_key(mk(n)) == mtypes(ms).contains(n)
    &&& forall|i: int| 0 <= i < ms.len() ==> msg_is(d, #[trigger] ms[i])
    &&& forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).ty != S_HEADER_ID() && ms[i].ty != S_TRAILER_ID()
    &&& forall|mt: Seq<char>| !mtypes(ms).contains(mt) ==> #[trigger] sect_eq(a, d, mt)
    &&& same_fields(a, d)
}

// a dictionary file: its text is a document that declares a specification
pub open spec fn dict_loads(path: Seq<char>) -> bool {
    file_text(path) is Some && xml_root(file_text(path)->0) is Some && spec_of(xml_root(file_text(path)->0)->0) is Some
}
pub open spec fn dict_from(path: Seq<char>, d: DataDictionary) -> bool { loaded(d, spec_of(xml_root(file_text(path)->0)->0)->0) }
