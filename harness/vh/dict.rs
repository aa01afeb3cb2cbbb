//! C14 (what a loaded dictionary says) and C15 (what is refused).
use super::spec::*;
use super::*;
use crate::data_dictionary::DataDictionary;
use std::collections::{BTreeSet, HashSet};

fn set(h: Option<&HashSet<u32>>) -> BTreeSet<u32> {
    h.map(|x| x.iter().copied().collect()).unwrap_or_default()
}
fn type_name(t: &str) -> &str {
    if TYPES.contains(&t) { t } else { "UNKNOWN" }
}
fn scope_ok(dd: &DataDictionary, ty: &str, sp: &Spec, items: &[Node], ctx: bool, in_group: bool, path: &str) -> Result<(), String> {
    let mem = sp.expand(items);
    let want: BTreeSet<u32> = mem.iter().map(|m| m.tag()).collect();
    let got = set(dd.get_msg_fields(ty));
    if want != got {
        return Err(format!("{}: the fields are {:?}, the specification lists {:?}", path, got, want));
    }
    let want_req = sp.required(items, ctx);
    let got_req = set(dd.get_msg_required_field(ty));
    if want_req != got_req {
        return Err(format!("{}: the required fields are {:?}, the specification says {:?}", path, got_req, want_req));
    }
    let universe: Vec<u32> = sp.fields.iter().map(|f| f.tag).chain([77777]).collect();
    for t in &universe {
        if dd.is_msg_field(ty, *t) != want.contains(t) || dd.is_msg_req_field(ty, *t) != want_req.contains(t) {
            return Err(format!("{}: is_msg_field/is_msg_req_field({}) disagree with the specification", path, t));
        }
    }
    if in_group {
        let order: Vec<u32> = mem.iter().map(|m| m.tag()).collect();
        if dd.get_ordered_fields() != order {
            return Err(format!("{}: members in the order {:?}, declared {:?}", path, dd.get_ordered_fields(), order));
        }
    }
    fn groups(sp: &Spec, items: &[Node], out: &mut Vec<(u32, bool, Vec<Node>)>) {
        for i in items {
            match i {
                Node::G(t, r, s) => out.push((*t, *r, s.clone())),
                Node::C(c, _) => groups(sp, &sp.comps[*c].1, out),
                _ => {}
            }
        }
    }
    let mut gs = vec![];
    groups(sp, items, &mut gs);
    let tags: BTreeSet<u32> = gs.iter().map(|g| g.0).collect();
    for t in &universe {
        if dd.is_msg_group(ty, *t) != tags.contains(t) || dd.get_msg_group(ty, *t).is_some() != tags.contains(t) {
            return Err(format!("{}: tag {} is {}a group, the specification says otherwise", path, t, if tags.contains(t) { "not " } else { "" }));
        }
    }
    for (t, r, sub) in gs {
        let gi = dd.get_msg_group(ty, t).unwrap();
        let first = sp.expand(&sub)[0].tag();
        if gi.delimiter() != first {
            return Err(format!("{}: group {} has the delimiter {} instead of {}", path, t, gi.delimiter(), first));
        }
        scope_ok(gi.data_dictionary(), ty, sp, &sub, r, true, &format!("{}/{}", path, t))?;
    }
    Ok(())
}
fn gen14(r: &mut Rng, _n: u64) -> String {
    r.below(1_000_000).to_string()
}
fn run14(case: &str) -> Outcome {
    let seed: u64 = case.trim().parse().unwrap();
    let sp = gen_spec(seed);
    let xml = sp.xml();
    let dd = match guarded(|| xml.parse::<DataDictionary>().map_err(|e| e.to_string())) {
        Err(_) | Ok(Err(_)) => return trivial(), // C15
        Ok(Ok(d)) => d,
    };
    let check = || -> Result<(), String> {
        let all = scopes(&sp);
        for ty in all.keys() {
            scope_ok(&dd, ty, &sp, sp.items(ty).unwrap(), true, false, ty)?;
        }
        for t in sp.fields.iter().map(|f| f.tag).chain([77777]) {
            let h = all["header"].iter().any(|m| m.tag() == t);
            let tr = all["trailer"].iter().any(|m| m.tag() == t);
            if dd.is_header_field(t) != h || dd.is_trailer_field(t) != tr {
                return Err(format!("field {}: is_header_field {}, is_trailer_field {}", t, dd.is_header_field(t), dd.is_trailer_field(t)));
            }
        }
        if dd.get_msg_fields("no such type").is_some() {
            return Err("an undeclared message type has fields".to_string());
        }
        for f in &sp.fields {
            let ty = dd.get_field_type(f.tag).map(|t| t.to_string()).unwrap_or_default();
            if ty != type_name(&f.ty) {
                return Err(format!("field {} has the type {:?} instead of {:?}", f.tag, ty, type_name(&f.ty)));
            }
            let got: BTreeSet<String> = dd.get_field_values(f.tag).map(|s| s.iter().cloned().collect()).unwrap_or_default();
            let want: BTreeSet<String> = f.values.iter().cloned().collect();
            if got != want {
                return Err(format!("field {} has the values {:?} instead of {:?}", f.tag, got, want));
            }
            #[cfg(vh_dict)]
            if dd.vh_num(&f.name) != Some(f.tag) {
                return Err(format!("field name {} is number {:?} instead of {}", f.name, dd.vh_num(&f.name), f.tag));
            }
        }
        if dd.get_field_type(77777).is_some() || dd.get_field_values(77777).is_some() {
            return Err("an undeclared field has a type or values".to_string());
        }
        Ok(())
    };
    match guarded(check) {
        Ok(Ok(())) => pass(),
        Ok(Err(e)) => Outcome::Bad(format!("{} (specification: {})", e, xml.replace('\n', ""))),
        Err(p) => Outcome::Bad(format!("reading the dictionary panicked: {} (specification: {})", p, xml)),
    }
}

// ------------------------------------------------------------------ C15
#[derive(Clone, Debug)]
struct El {
    name: String,
    attrs: Vec<(String, String)>,
    kids: Vec<El>,
}
fn el(name: &str, attrs: &[(&str, String)], kids: Vec<El>) -> El {
    El { name: name.to_string(), attrs: attrs.iter().map(|(a, b)| (a.to_string(), b.clone())).collect(), kids }
}
fn yn(b: bool) -> String {
    if b { "Y".into() } else { "N".into() }
}
fn nodes(sp: &Spec, items: &[Node]) -> Vec<El> {
    items
        .iter()
        .map(|i| match i {
            Node::F(t, r) => el("field", &[("name", sp.name(*t)), ("required", yn(*r))], vec![]),
            Node::C(c, r) => el("component", &[("name", sp.comps[*c].0.clone()), ("required", yn(*r))], vec![]),
            Node::G(t, r, s) => el("group", &[("name", sp.name(*t)), ("required", yn(*r))], nodes(sp, s)),
        })
        .collect()
}
fn tree(sp: &Spec) -> El {
    let msgs = sp
        .msgs
        .iter()
        .map(|m| el("message", &[("name", m.name.clone()), ("msgcat", m.cat.clone()), ("msgtype", m.ty.clone())], nodes(sp, &m.items)))
        .collect();
    let comps = sp.comps.iter().map(|c| el("component", &[("name", c.0.clone())], nodes(sp, &c.1))).collect();
    let fields = sp
        .fields
        .iter()
        .map(|f| {
            let v = f.values.iter().map(|v| el("value", &[("enum", v.clone()), ("description", "x".into())], vec![])).collect();
            el("field", &[("number", f.tag.to_string()), ("name", f.name.clone()), ("type", f.ty.clone())], v)
        })
        .collect();
    el(
        "fix",
        &[("type", "FIX".into()), ("major", "4".into()), ("minor", "3".into())],
        vec![
            el("header", &[], nodes(sp, &sp.header)),
            el("messages", &[], msgs),
            el("trailer", &[], nodes(sp, &sp.trailer)),
            el("components", &[], comps),
            el("fields", &[], fields),
        ],
    )
}
fn write(e: &El, out: &mut String) {
    out.push_str(&format!("<{}", e.name));
    for (a, v) in &e.attrs {
        out.push_str(&format!(" {}=\"{}\"", a, xml_esc(v)));
    }
    out.push('>');
    for k in &e.kids {
        write(k, out);
    }
    out.push_str(&format!("</{}>", e.name));
}
fn sect<'a>(t: &'a mut El, name: &str) -> &'a mut El {
    t.kids.iter_mut().find(|k| k.name == name).unwrap()
}
/// paths (child indices from the root) of the containers whose content is examined
fn containers(t: &El, sp: &Spec) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn comps_of(e: &El, s: &mut BTreeSet<String>) {
        for k in &e.kids {
            if k.name == "component" {
                s.insert(k.attrs[0].1.clone());
            }
            comps_of(k, s);
        }
    }
    fn walk(e: &El, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(path.clone());
        for (i, k) in e.kids.iter().enumerate() {
            if k.name == "group" {
                path.push(i);
                walk(k, path, out);
                path.pop();
            }
        }
    }
    let mut used = BTreeSet::new();
    for (i, s) in t.kids.iter().enumerate() {
        match s.name.as_str() {
            "header" | "trailer" => {
                comps_of(s, &mut used);
                walk(s, &mut vec![i], &mut out);
            }
            "messages" => {
                for (j, m) in s.kids.iter().enumerate() {
                    comps_of(m, &mut used);
                    walk(m, &mut vec![i, j], &mut out);
                }
            }
            _ => {}
        }
    }
    let ci = t.kids.iter().position(|k| k.name == "components").unwrap();
    for _ in 0..sp.comps.len() {
        for c in &t.kids[ci].kids {
            if used.contains(&c.attrs[0].1) {
                comps_of(&c.clone(), &mut used);
            }
        }
    }
    for (j, c) in t.kids[ci].kids.iter().enumerate() {
        if used.contains(&c.attrs[0].1) {
            walk(c, &mut vec![ci, j], &mut out);
        }
    }
    out
}
fn at<'a>(t: &'a mut El, p: &[usize]) -> &'a mut El {
    let mut e = t;
    for i in p {
        e = &mut e.kids[*i];
    }
    e
}
fn r_names(v: &[String]) -> BTreeSet<String> {
    v.iter().cloned().collect()
}
/// a name that is none of these but may be close to one
fn near(r: &mut Rng, names: &BTreeSet<String>) -> String {
    let v: Vec<&String> = names.iter().collect();
    if !v.is_empty() && r.chance(2, 3) {
        let n = *r.pick(&v);
        let t = match r.below(5) {
            0 => format!(" {}", n),
            1 => format!("{} ", n),
            2 => n.to_uppercase(),
            3 => n.to_lowercase(),
            _ => n.chars().skip(1).collect(),
        };
        if !names.contains(&t) {
            return t;
        }
    }
    "NoSuchThing".to_string()
}
const KINDS: usize = 19;
/// the changed specification and whether it must be refused, and why
fn mutate(seed: u64, kind: usize, mseed: u64) -> Option<(String, Option<String>)> {
    let sp = gen_spec(seed);
    let r = &mut Rng::new(mseed);
    let mut t = tree(&sp);
    let cs = containers(&t, &sp);
    let mut why: Option<String> = None;
    match kind {
        0 => {}
        1 => {
            r.shuffle(&mut t.kids);
        }
        2 => {
            // a field number twice
            let f = r.pick(&sp.fields).clone();
            let fs = sect(&mut t, "fields");
            let i = r.below(fs.kids.len() + 1);
            let (n, ty) = if r.chance(1, 2) { (f.name.clone(), f.ty.clone()) } else { ("Another".into(), "INT".into()) };
            fs.kids.insert(i, el("field", &[("number", f.tag.to_string()), ("name", n), ("type", ty)], vec![]));
            why = Some(format!("field number {} is declared twice", f.tag));
        }
        3 => {
            let f = r.pick(&sp.fields).clone();
            let fs = sect(&mut t, "fields");
            let i = r.below(fs.kids.len() + 1);
            fs.kids.insert(i, el("field", &[("number", "424242".into()), ("name", f.name.clone()), ("type", "INT".into())], vec![]));
            why = Some(format!("field name {} is declared twice", f.name));
        }
        4 => {
            let fs = sect(&mut t, "fields");
            let c: Vec<usize> = (0..fs.kids.len()).filter(|i| !fs.kids[*i].kids.is_empty()).collect();
            if c.is_empty() {
                return None;
            }
            let f = &mut fs.kids[*r.pick(&c)];
            let v = r.pick(&f.kids).clone();
            if r.chance(1, 3) {
                // among many
                for i in 0..10 + r.below(150) {
                    let mut x = v.clone();
                    x.attrs[0].1 = format!("many{}", i);
                    f.kids.push(x);
                }
            }
            let i = r.below(f.kids.len() + 1);
            f.kids.insert(i, v);
            why = Some("an enumerated value is declared twice".to_string());
        }
        5 => {
            // a member of a container again
            let p = r.pick(&cs).clone();
            let c = at(&mut t, &p);
            let m: Vec<El> = c.kids.iter().filter(|k| k.name != "component").cloned().collect();
            if m.is_empty() {
                return None;
            }
            let mut k = r.pick(&m).clone();
            k.name = "field".to_string();
            k.kids.clear();
            let i = 1 + r.below(c.kids.len());
            why = Some(format!("{} is listed twice in one {}", k.attrs[0].1, c.name));
            c.kids.insert(i, k);
        }
        6 => {
            // a component whose fields are there already
            let p = r.pick(&cs).clone();
            if t.kids[p[0]].name == "components" {
                return None;
            }
            let inside = at(&mut t, &p).clone();
            let mut names: Vec<String> = sp.comps.iter().filter(|c| !sp.expand(&c.1).is_empty()).map(|c| c.0.clone()).collect();
            if names.is_empty() {
                return None;
            }
            r.shuffle(&mut names);
            let k = el("component", &[("name", names[0].clone()), ("required", "N".into())], vec![]);
            let c = at(&mut t, &p);
            c.kids.push(k.clone());
            c.kids.push(k);
            why = Some(format!("component {} is used twice in one {}", names[0], inside.name));
        }
        7 => {
            let m = r.pick(&sp.msgs).clone();
            sect(&mut t, "messages").kids.push(el("message", &[("name", m.name.clone()), ("msgcat", "app".into()), ("msgtype", "ZZ".into())], vec![]));
            why = Some(format!("message name {} is declared twice", m.name));
        }
        8 => {
            let m = r.pick(&sp.msgs).clone();
            sect(&mut t, "messages").kids.push(el("message", &[("name", "Other".into()), ("msgcat", "app".into()), ("msgtype", m.ty.clone())], vec![]));
            why = Some(format!("message type {} is declared twice", m.ty));
        }
        9 | 10 | 11 => {
            let p = r.pick(&cs).clone();
            let c = at(&mut t, &p);
            let i = r.below(c.kids.len() + 1);
            let k = match kind {
                9 => {
                    let n = near(r, &r_names(&sp.fields.iter().map(|f| f.name.clone()).collect::<Vec<_>>()));
                    el(["field", "group"][r.below(2)], &[("name", n), ("required", "N".into())], vec![])
                }
                10 => {
                    let n = near(r, &r_names(&sp.comps.iter().map(|c| c.0.clone()).collect::<Vec<_>>()));
                    el("component", &[("name", n), ("required", "N".into())], vec![])
                }
                _ => {
                    let a = [("name", sp.fields[0].name.clone()), ("required", "N".into())];
                    el(["fields", "value", "Field", "x"][r.below(4)], &a[..[2, 2, 1, 0][r.below(4)]], vec![])
                }
            };
            why = Some(format!("<{} name={}> inside a {}", k.name, k.attrs.get(0).map_or("", |a| &a.1), c.name));
            c.kids.insert(i, k);
        }
        12 => {
            // a missing attribute
            match r.below(4) {
                0 | 1 => {
                    let p = r.pick(&cs).clone();
                    let c = at(&mut t, &p);
                    if c.kids.is_empty() {
                        return None;
                    }
                    let i = r.below(c.kids.len());
                    let j = r.below(c.kids[i].attrs.len());
                    let a = c.kids[i].attrs.remove(j);
                    why = Some(format!("attribute {} is missing in a {}", a.0, c.kids[i].name));
                }
                2 => {
                    let ms = sect(&mut t, ["messages", "fields", "components"][r.below(3)]);
                    if ms.kids.is_empty() {
                        return None;
                    }
                    let i = r.below(ms.kids.len());
                    let j = r.below(ms.kids[i].attrs.len());
                    let a = ms.kids[i].attrs.remove(j);
                    why = Some(format!("attribute {} is missing in a {} of {}", a.0, ms.kids[i].name, ms.name));
                }
                _ => {
                    let j = r.below(3);
                    let a = t.attrs.remove(j);
                    why = Some(format!("attribute {} is missing in the root", a.0));
                }
            }
        }
        13 => {
            let i = r.below(5);
            let s = t.kids.remove(i);
            why = Some(format!("section {} is missing", s.name));
        }
        14 => {
            // a component that contains itself
            let c: Vec<Vec<usize>> = cs.iter().filter(|p| t.kids[p[0]].name == "components").cloned().collect();
            if c.is_empty() {
                return None;
            }
            let p = r.pick(&c).clone();
            let name = at(&mut t, &p[..2]).attrs[0].1.clone();
            at(&mut t, &p).kids.push(el("component", &[("name", name.clone()), ("required", "N".into())], vec![]));
            why = Some(format!("component {} contains itself", name));
        }
        15 => {
            // the sections' names are no message types
            let ty = ["header", "trailer"][r.below(2)];
            let ms = sect(&mut t, "messages");
            let i = r.below(ms.kids.len() + 1);
            ms.kids.insert(i, el("message", &[("name", "Extra".into()), ("msgcat", "app".into()), ("msgtype", ty.into())], vec![]));
            why = Some(format!("a message has the type {}", ty));
        }
        16 => {
            // only field elements declare fields
            let p = r.pick(&cs).clone();
            let c = at(&mut t, &p);
            let i = r.below(c.kids.len() + 1);
            c.kids.insert(i, el("field", &[("name", "Ghost".into()), ("required", "N".into())], vec![]));
            let fs = sect(&mut t, "fields");
            let i = r.below(fs.kids.len() + 1);
            fs.kids.insert(i, el(["value", "x", "group"][r.below(3)], &[("number", "434343".into()), ("name", "Ghost".into()), ("type", "INT".into())], vec![]));
            why = Some("a field is not declared by a field element".to_string());
        }
        17 => {
            // a group without members
            let p = r.pick(&cs).clone();
            sect(&mut t, "fields").kids.push(el("field", &[("number", "434343".into()), ("name", "NoThings".into()), ("type", "NUMINGROUP".into())], vec![]));
            let mut kids = vec![];
            if r.chance(1, 3) {
                sect(&mut t, "components").kids.push(el("component", &[("name", "Nothing".into())], vec![]));
                kids.push(el("component", &[("name", "Nothing".into()), ("required", "N".into())], vec![]));
            }
            let c = at(&mut t, &p);
            c.kids.push(el("group", &[("name", "NoThings".into()), ("required", "N".into())], kids));
            why = Some("a group has no members".to_string());
        }
        _ => {
            let fs = sect(&mut t, "fields");
            let i = r.below(fs.kids.len());
            let bad = ["x", "-1", "4294967296", "1.5", "0x1", " 424242", "424242 ", "424,242", "", "99999999999999999999", "\u{664}\u{664}"][r.below(11)];
            fs.kids[i].attrs[0].1 = bad.to_string();
            why = Some(format!("field number {:?} is not a number", bad));
        }
    }
    let mut s = String::new();
    write(&t, &mut s);
    Some((s, why))
}
fn gen15(r: &mut Rng, n: u64) -> String {
    format!("{} {} {}", r.below(1_000_000), n as usize % KINDS, r.below(1 << 30))
}
fn run15(case: &str) -> Outcome {
    let w: Vec<u64> = case.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let (xml, why) = match mutate(w[0], w[1] as usize, w[2]) {
        Some(x) => x,
        None => return trivial(),
    };
    match (guarded(|| xml.parse::<DataDictionary>().map(|_| ()).map_err(|e| e.to_string())), why) {
        (Err(p), _) => Outcome::Bad(format!("loading panicked: {} (specification: {})", p, xml)),
        (Ok(Ok(())), Some(y)) => Outcome::Bad(format!("a specification in which {} was loaded: {}", y, xml)),
        (Ok(Err(e)), None) => Outcome::Bad(format!("a correct specification was refused with {:?}: {}", e, xml)),
        _ => pass(),
    }
}
pub const C14: Prop = Prop { gen: gen14, run: run14, shrink: no_shrink };
pub const C15: Prop = Prop { gen: gen15, run: run15, shrink: no_shrink };
