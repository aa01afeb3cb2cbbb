//! Random dictionary specifications, their XML, and what they mean (independent of the code under test).
use super::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Node {
    F(u32, bool),
    G(u32, bool, Vec<Node>),
    C(usize, bool), // component index
}
#[derive(Clone, Debug)]
pub struct Field {
    pub tag: u32,
    pub name: String,
    pub ty: String,
    pub values: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Msg {
    pub name: String,
    pub ty: String,
    pub cat: String,
    pub items: Vec<Node>,
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub fields: Vec<Field>,
    pub comps: Vec<(String, Vec<Node>)>,
    pub header: Vec<Node>,
    pub trailer: Vec<Node>,
    pub msgs: Vec<Msg>,
}
/// members of a scope after expansion of the components
#[derive(Clone, Debug, PartialEq)]
pub enum Mem {
    F(u32),
    G(u32, Vec<Mem>),
}
impl Mem {
    pub fn tag(&self) -> u32 {
        match self {
            Mem::F(t) => *t,
            Mem::G(t, _) => *t,
        }
    }
}
/// text as an attribute value
pub fn xml_esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}
pub const TYPES: [&str; 24] = [
    "CHAR", "BOOLEAN", "DATA", "FLOAT", "AMT", "PERCENTAGE", "PRICE", "PRICEOFFSET", "QTY", "INT", "LENGTH", "NUMINGROUP",
    "SEQNUM", "TAGNUM", "STRING", "COUNTRY", "CURRENCY", "EXCHANGE", "LOCALMKTDATE", "MONTHYEAR", "MULTIPLEVALUESTRING",
    "UTCDATE", "UTCTIMEONLY", "UTCTIMESTAMP",
];

impl Spec {
    pub fn name(&self, tag: u32) -> String {
        self.fields.iter().find(|f| f.tag == tag).map(|f| f.name.clone()).unwrap_or(format!("Undefined{}", tag))
    }
    pub fn expand(&self, items: &[Node]) -> Vec<Mem> {
        let mut v = vec![];
        for i in items {
            match i {
                Node::F(t, _) => v.push(Mem::F(*t)),
                Node::G(t, _, s) => v.push(Mem::G(*t, self.expand(s))),
                Node::C(c, _) => v.extend(self.expand(&self.comps[*c].1)),
            }
        }
        v
    }
    /// tags that are required in this scope
    pub fn required(&self, items: &[Node], ctx: bool) -> BTreeSet<u32> {
        let mut v = BTreeSet::new();
        for i in items {
            match i {
                Node::F(t, r) | Node::G(t, r, _) => {
                    if *r && ctx {
                        v.insert(*t);
                    }
                }
                Node::C(c, r) => v.extend(self.required(&self.comps[*c].1, *r)),
            }
        }
        v
    }
    pub fn items(&self, scope: &str) -> Option<&Vec<Node>> {
        match scope {
            "header" => Some(&self.header),
            "trailer" => Some(&self.trailer),
            t => self.msgs.iter().find(|m| m.ty == t).map(|m| &m.items),
        }
    }
    fn nodes(&self, items: &[Node], s: &mut String) {
        for (k, i) in items.iter().enumerate() {
            // how it is marked
            let yn = |r: &bool| match (*r, (k + items.len()) % 7) {
                (true, 3) => "y",
                (true, _) => "Y",
                (false, 1) => "n",
                (false, 4) => "NO",
                (false, 5) => "false",
                _ => "N",
            };
            match i {
                Node::F(t, r) => s.push_str(&format!("<field name=\"{}\" required=\"{}\"/>", xml_esc(&self.name(*t)), yn(r))),
                Node::C(c, r) => s.push_str(&format!(
                    "<component name=\"{}\" required=\"{}\"/>",
                    xml_esc(&self.comps.get(*c).map(|c| c.0.clone()).unwrap_or("Nowhere".to_string())),
                    yn(r)
                )),
                Node::G(t, r, sub) => {
                    s.push_str(&format!("<group name=\"{}\" required=\"{}\">", xml_esc(&self.name(*t)), yn(r)));
                    self.nodes(sub, s);
                    s.push_str("</group>\n");
                }
            }
        }
    }
    pub fn xml(&self) -> String {
        let mut s = String::from("<fix type=\"FIX\" major=\"4\" minor=\"3\" servicepack=\"0\">\n<header>");
        self.nodes(&self.header, &mut s);
        s.push_str("</header>\n<messages>");
        for m in &self.msgs {
            s.push_str(&format!("<message name=\"{}\" msgcat=\"{}\" msgtype=\"{}\">", xml_esc(&m.name), m.cat, xml_esc(&m.ty)));
            self.nodes(&m.items, &mut s);
            s.push_str("</message>\n");
        }
        s.push_str("</messages>\n<trailer>");
        self.nodes(&self.trailer, &mut s);
        s.push_str("</trailer>\n<components>");
        for c in &self.comps {
            s.push_str(&format!("<component name=\"{}\">", xml_esc(&c.0)));
            self.nodes(&c.1, &mut s);
            s.push_str("</component>\n");
        }
        s.push_str("</components>\n<fields>\n");
        for f in &self.fields {
            s.push_str(&format!("<field number=\"{}\" name=\"{}\" type=\"{}\">", f.tag, xml_esc(&f.name), xml_esc(&f.ty)));
            for v in &f.values {
                s.push_str(&format!("<value enum=\"{}\" description=\"x\"/>", xml_esc(v)));
            }
            s.push_str("</field>\n");
        }
        s.push_str("</fields>\n</fix>\n");
        s
    }
}

pub fn tags_of(m: &[Mem], deep: bool, out: &mut BTreeSet<u32>) {
    for x in m {
        out.insert(x.tag());
        if deep {
            if let Mem::G(_, s) = x {
                tags_of(s, deep, out)
            }
        }
    }
}

/// fill a scope with random nodes, no tag twice in the scope
fn scope(r: &mut Rng, sp: &Spec, pool: &[u32], n: usize, depth: usize, comps: usize, used: &mut BTreeSet<u32>) -> Vec<Node> {
    let mut v = vec![];
    for _ in 0..n {
        let req = r.chance(1, 2);
        let k = r.below(10);
        if k < 2 && comps > 0 {
            let c = r.below(comps);
            let mut t = BTreeSet::new();
            tags_of(&sp.expand(&sp.comps[c].1), false, &mut t);
            if t.is_disjoint(used) {
                used.extend(t);
                v.push(Node::C(c, req));
            }
            continue;
        }
        let t = *r.pick(pool);
        if !used.insert(t) {
            continue;
        }
        if k < 5 && depth > 0 {
            let m = 1 + r.below(4);
            let mut u = BTreeSet::new();
            let mut sub = scope(r, sp, pool, m, depth - 1, comps, &mut u);
            if sp.expand(&sub).is_empty() {
                let t = *r.pick(pool);
                sub = vec![Node::F(t, req)];
            }
            v.push(Node::G(t, req, sub));
        } else {
            v.push(Node::F(t, req));
        }
    }
    v
}

pub fn gen_spec(seed: u64) -> Spec {
    let r = &mut Rng::new(seed ^ 0xABCDEF);
    let mut sp = Spec { fields: vec![], comps: vec![], header: vec![], trailer: vec![], msgs: vec![] };
    let mut pool: Vec<u32> = vec![1, 2, 11, 14, 38, 54, 55, 58, 67, 73, 78, 79, 80, 98, 108, 268, 269, 270, 271, 454, 711, 5001, 900000];
    if r.chance(1, 4) {
        pool.push(u32::MAX);
        pool.push(1 << 31);
    }
    if r.chance(1, 8) {
        pool.insert(0, 0);
    }
    if r.chance(1, 3) {
        for _ in 0..3 {
            let t = super::kin(r);
            if ![8, 9, 10, 35, 89, 93, 49, 56, 34, 52, 50, 57, 627, 628, 629, 630, 43, 122, 5555, 7777].contains(&t) && !pool.contains(&t) {
                pool.push(t);
            }
        }
    }
    let hpool: Vec<u32> = vec![49, 56, 34, 52, 50, 57, 627, 628, 629, 630, 43, 122];
    let mut hpool = hpool;
    for n in &super::hot().nums {
        if let Ok(n) = u32::try_from(*n) {
            if ![8, 9, 10, 35, 89, 93].contains(&n) && r.chance(1, 2) && !pool.contains(&n) && !hpool.contains(&n) {
                if r.chance(2, 3) { pool.push(n) } else { hpool.push(n) }
            }
        }
    }
    let small = r.chance(1, 2);
    if small {
        // few tags: the same tag is used in many places
        r.shuffle(&mut pool);
        pool.truncate(6 + r.below(5));
    }
    // components
    let nc = r.below(4);
    for c in 0..nc {
        let n = 1 + r.below(3);
        let mut u = BTreeSet::new();
        let items = scope(r, &sp, &pool, n, 1, c, &mut u);
        sp.comps.push((format!("Comp{}", c), items));
    }
    let mut u: BTreeSet<u32> = [8, 9, 35].into_iter().collect();
    sp.header = vec![Node::F(8, true), Node::F(9, true), Node::F(35, true)];
    let n = 2 + r.below(6);
    let hs = scope(r, &sp, &hpool, n, 2, 0, &mut u);
    sp.header.extend(hs);
    sp.trailer = vec![Node::F(93, false), Node::F(89, false), Node::F(10, true)];
    if r.chance(1, 4) {
        sp.trailer.insert(0, Node::F(5555, false));
    }
    if r.chance(1, 8) {
        sp.trailer.remove(0);
    }
    let types = ["A", "W", "E", "AE", "D", "0"];
    let nm = 1 + r.below(4);
    for i in 0..nm {
        let n = r.below(9);
        let mut u = BTreeSet::new();
        let all: Vec<u32> = if r.chance(1, 6) { pool.iter().chain(hpool.iter()).copied().collect() } else { pool.clone() };
        let items = scope(r, &sp, &all, n, 3, nc, &mut u);
        // a body field that is a header or trailer field would never be accepted in the body
        let cat = if r.chance(1, 2) { "app" } else { "admin" };
        sp.msgs.push(Msg { name: format!("Msg{}", i), ty: types[i].to_string(), cat: cat.to_string(), items });
    }
    let mut tags: BTreeSet<u32> = pool.iter().chain(hpool.iter()).copied().collect();
    if seed % 40 == 7 {
        // a group with many members
        let n = 100 + r.below(200) as u32;
        let sub: Vec<Node> = (0..n).map(|i| Node::F(20000 + i, i == 0)).collect();
        tags.extend(19999..20000 + n);
        sp.msgs[0].items.push(Node::G(19999, false, sub));
    }
    tags.extend([8, 9, 35, 93, 89, 10, 5555]);
    let mut tags: Vec<u32> = tags.into_iter().collect();
    r.shuffle(&mut tags);
    for t in tags {
        let nv = if r.chance(1, 4) { 1 + r.below(3) } else { 0 };
        sp.fields.push(Field {
            tag: t,
            name: format!("Fld{}", t),
            ty: if r.chance(1, 12) { "WEIRD".to_string() } else { r.pick(&TYPES).to_string() },
            values: (0..nv).map(|i| format!("v{}", i)).collect(),
        });
    }
    vary_texts(&mut sp, seed);
    sp
}

/// names, values and types that differ in little: blanks around them, case, characters that XML escapes
fn vary_texts(sp: &mut Spec, seed: u64) {
    let r = &mut Rng::new(seed ^ 0x5EED_7E87);
    if !r.chance(1, 2) {
        return;
    }
    let odd = |r: &mut Rng, s: &str| -> String {
        if let Some(t) = super::hot_str(r, 3, s) {
            let t: String = t.chars().filter(|c| *c >= ' ').collect();
            if !t.is_empty() {
                return t;
            }
        }
        match r.below(9) {
            0 => format!(" {}", s),
            1 => format!("{} ", s),
            2 => s.to_uppercase(),
            3 => s.to_lowercase(),
            4 => format!("{}&<\u{e9}>\"", s),
            5 => format!("{} x", s),
            6 if s.chars().count() > 1 => s.chars().take(s.chars().count() - 1).collect(),
            7 => format!("0{}", s),
            _ => format!("{}{}", s, s),
        }
    };
    for f in sp.fields.iter_mut() {
        for i in 0..f.values.len() {
            let t = if i > 0 && r.chance(1, 2) { odd(r, &f.values[i - 1].clone()) } else { odd(r, &f.values[i].clone()) };
            if !t.is_empty() && !f.values.contains(&t) {
                f.values[i] = t;
            }
        }
        if r.chance(1, 12) {
            f.ty = odd(r, &f.ty.clone());
        }
    }
    for i in 0..sp.fields.len() {
        if r.chance(1, 6) {
            let j = r.below(sp.fields.len());
            let t = odd(r, &sp.fields[j].name.clone());
            if !t.is_empty() && !sp.fields.iter().any(|f| f.name == t) && ![8, 9, 10, 35].contains(&sp.fields[i].tag) {
                sp.fields[i].name = t;
            }
        }
    }
    for i in 0..sp.comps.len() {
        let j = r.below(sp.comps.len());
        let t = odd(r, &sp.comps[j].0.clone());
        if r.chance(1, 3) && !sp.comps.iter().any(|c| c.0 == t) {
            sp.comps[i].0 = t;
        }
    }
    for i in 0..sp.msgs.len() {
        let j = r.below(sp.msgs.len());
        let t = odd(r, &sp.msgs[j].name.clone());
        if r.chance(1, 3) && !sp.msgs.iter().any(|m| m.name == t) {
            sp.msgs[i].name = t;
        }
        let j = r.below(sp.msgs.len());
        let t = if r.chance(1, 2) { sp.msgs[j].ty.to_lowercase() } else { format!("{}A", sp.msgs[j].ty) };
        if r.chance(1, 3) && !sp.msgs.iter().any(|m| m.ty == t) {
            sp.msgs[i].ty = t;
        }
    }
}

pub type Scopes = BTreeMap<String, Vec<Mem>>;
pub fn scopes(sp: &Spec) -> Scopes {
    let mut m = BTreeMap::new();
    m.insert("header".to_string(), sp.expand(&sp.header));
    m.insert("trailer".to_string(), sp.expand(&sp.trailer));
    for x in &sp.msgs {
        m.insert(x.ty.clone(), sp.expand(&x.items));
    }
    m
}
