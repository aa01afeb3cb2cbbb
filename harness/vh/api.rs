//! C05, C06, C07, C09: messages built through the public functions, against a plain model.
use super::*;
use crate::message::{FieldMap, Message, StringField};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Op {
    Set(u32, String),
    Grp(u32, u32, u32, Vec<(usize, Op)>), // tag, count, delimiter, writes into the new instances
    CheckSum,
    BodyLen,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub fields: BTreeMap<u32, String>,
    pub groups: BTreeMap<u32, (u32, Vec<Model>)>,
}
impl Model {
    fn apply(&mut self, op: &Op) {
        match op {
            Op::Set(t, v) => {
                self.fields.insert(*t, v.clone());
            }
            Op::Grp(t, n, d, w) => {
                self.fields.insert(*t, n.to_string());
                let mut insts = vec![Model::default(); *n as usize];
                for (i, o) in w {
                    if *i < insts.len() {
                        insts[*i].apply(o);
                    }
                }
                self.groups.insert(*t, (*d, insts));
            }
            _ => {}
        }
    }
    fn count(&self) -> usize {
        let mut n = self.fields.len();
        for (t, (_, v)) in &self.groups {
            if self.fields.contains_key(t) {
                n += v.iter().map(|m| m.count()).sum::<usize>();
            }
        }
        n
    }
    pub fn each(&self, f: &mut dyn FnMut(u32, &str)) {
        for (t, v) in &self.fields {
            f(*t, v);
            if let Some((_, g)) = self.groups.get(t) {
                for m in g {
                    m.each(f);
                }
            }
        }
    }
}
fn apply(fm: &mut FieldMap, op: &Op) -> Result<(), String> {
    match op {
        Op::Set(t, v) => fm.set_field(StringField::new(*t, v)),
        Op::Grp(t, n, d, w) => {
            let g = fm.set_group(*t, *n, *d);
            if g.size() != *n {
                return Err(format!("creating group {} with count {} gives {} instances", t, n, g.size()));
            }
            for i in 0..*n as usize {
                let held = g[i].iter().into_iter().count();
                if held != 0 {
                    return Err(format!("instance {} of the new group {} holds {} fields", i, t, held));
                }
            }
            for (i, o) in w {
                if *i < *n as usize {
                    apply(&mut g[*i], o)?;
                }
            }
        }
        _ => {}
    }
    Ok(())
}
const TAGS: [u32; 22] = [8, 9, 10, 35, 49, 56, 34, 52, 89, 93, 1, 11, 55, 58, 73, 78, 79, 108, 454, 627, 4294967295, 0];
fn value(s: &str) -> String {
    // "*N*x" is x repeated N times
    if let Some(r) = s.strip_prefix('*') {
        if let Some((n, c)) = r.split_once('*') {
            if let Ok(n) = n.parse::<usize>() {
                return c.repeat(n.min(30_000_000));
            }
        }
    }
    s.to_string()
}
/// one line per write: depth, target (h, b, t or an instance index), operation
fn parse_ops(lines: &[&str], pos: &mut usize, depth: usize) -> Vec<(String, Op)> {
    let mut v = vec![];
    while *pos < lines.len() {
        let w: Vec<&str> = lines[*pos].splitn(5, ' ').collect();
        if w.len() < 3 {
            *pos += 1;
            continue;
        }
        let d: usize = w[0].parse().unwrap_or(0);
        if d < depth {
            break;
        }
        *pos += 1;
        if d > depth {
            continue;
        }
        let op = match w[2] {
            "S" if w.len() == 5 => Op::Set(w[3].parse().unwrap_or(1), value(w[4])),
            "G" if w.len() == 5 => {
                let (n, dl) = w[4].split_once(' ').unwrap_or(("0", "1"));
                let sub = parse_ops(lines, pos, depth + 1);
                Op::Grp(
                    w[3].parse().unwrap_or(1),
                    n.parse().unwrap_or(0),
                    dl.parse().unwrap_or(1),
                    sub.into_iter().map(|(i, o)| (i.parse().unwrap_or(0), o)).collect(),
                )
            }
            "C" => Op::CheckSum,
            "L" => Op::BodyLen,
            _ => continue,
        };
        v.push((w[1].to_string(), op));
    }
    v
}
fn gen_value(r: &mut Rng) -> String {
    if let Some(s) = hot_str(r, 4, "x") {
        return s.replace(['\n', '\u{1}'], " ").replace('*', "+");
    }
    match r.below(12) {
        0 => "é€😀 ü".to_string(),
        1 => "\u{ff}\u{100}\u{7ff}\u{800}\u{ffff}\u{10ffff}".to_string(),
        2 => format!("*{}*~", 1 + r.below(9000)),
        3 => format!("*{}*ÿ", 1 + r.below(300)),
        4 => r.below(1 << 40).to_string(),
        5 => format!("-{}", r.below(1000)),
        6 => ["Y", "N", "true", "false", "1.5", "+7", "007", " 7", "x=y", "a=b=c", "4294967296", "NaN"][r.below(12)].to_string(),
        7 => "".to_string(),
        _ => {
            let n = 1 + r.below(9);
            (0..n).map(|_| (33 + r.below(94)) as u8 as char).collect()
        }
    }
}
fn gen_writes(r: &mut Rng, depth: usize, target: &str, n: usize, out: &mut Vec<String>, big: bool) {
    for _ in 0..n {
        if depth < 3 && r.chance(1, 5) {
            let t = *r.pick(&TAGS[10..]);
            let d = *r.pick(&TAGS[10..]);
            let c = match r.below(8) {
                0 => 0,
                7 if r.chance(1, 60) => [100, 257, 1025, 4097, 66_000][r.below(5)] + r.below(300),
                7 => r.below(40),
                k => k.min(4),
            };
            let c = hot_num(r, 6, 5000).unwrap_or(c as u64) as usize;
            let t = hot_num(r, 6, u32::MAX as u64).unwrap_or(t as u64);
            let d = hot_num(r, 6, u32::MAX as u64).unwrap_or(d as u64);
            out.push(format!("{} {} G {} {} {}", depth, target, t, c, d));
            if c > 0 {
                let m = r.below(6);
                for _ in 0..m {
                    let i = r.below(c);
                    gen_writes(r, depth + 1, &i.to_string(), 1, out, big);
                }
                if r.chance(1, 2) {
                    out.push(format!("{} {} S {} {}", depth + 1, r.below(c), d, gen_value(r)));
                }
            }
        } else {
            let t = match r.below(24) {
                0 | 1 => 1u32 << r.below(32),
                2 | 3 => kin(r),
                _ => *r.pick(&TAGS),
            };
            let t = hot_num(r, 6, u32::MAX as u64).unwrap_or(t as u64);
            out.push(format!("{} {} S {} {}", depth, target, t, gen_value(r)));
        }
    }
}
fn gen(r: &mut Rng, n: u64) -> String {
    let mut out = vec![];
    let k = r.below(12);
    for _ in 0..k {
        let t = ["h", "b", "b", "t"][r.below(4)];
        if t == "t" && r.chance(2, 3) {
            let tag = [93, 89, 10][r.below(3)];
            out.push(format!("0 t S {} {}", tag, gen_value(r)));
        } else {
            gen_writes(r, 0, t, 1, &mut out, false);
        }
        if r.chance(1, 8) {
            out.push("0 b C".to_string());
        }
        if r.chance(1, 8) {
            out.push("0 b L".to_string());
        }
    }
    if n % 4000 == 77 {
        // sizes at which 32-bit sums of bytes wrap
        out.push(format!("0 b S 58 *{}*~", 17_100_000 + r.below(200) * 1000));
        out.push(format!("0 b S 55 *{}*~", 17_100_000 + r.below(200) * 1000));
    }
    out.join("\n")
}
fn shrink(case: &str) -> Vec<String> {
    let l: Vec<&str> = case.lines().collect();
    let mut out = vec![];
    for w in [8, 4, 2, 1] {
        let mut i = 0;
        while i + w <= l.len() {
            let mut g = l.clone();
            g.drain(i..i + w);
            out.push(g.join("\n"));
            i += w;
        }
    }
    out
}
struct Built {
    msg: Message,
    model: [Model; 3],
}
fn sect<'a>(m: &'a Message, i: usize) -> &'a FieldMap {
    match i {
        0 => m.header(),
        1 => m.body(),
        _ => m.trailer(),
    }
}
const NAMES: [&str; 3] = ["header", "body", "trailer"];

fn same(fm: &FieldMap, m: &Model, path: &str) -> Result<(), String> {
    for (t, v) in &m.fields {
        match fm.get_field::<String>(*t) {
            Ok(x) if x == *v => {}
            Ok(x) => return Err(format!("{}: tag {} reads {:?}, last written {:?}", path, t, clip(&x), clip(v))),
            Err(e) => return Err(format!("{}: tag {} was set to {:?} but reading it says {:?}", path, t, clip(v), e)),
        }
        macro_rules! typed {
            ($t:ty) => {
                let want = v.parse::<$t>().ok();
                let got = fm.get_field::<$t>(*t).ok();
                if format!("{:?}", want) != format!("{:?}", got) {
                    return Err(format!("{}: tag {} with text {:?} read as {} gives {:?} instead of {:?}", path, t, clip(v), stringify!($t), got, want));
                }
            };
        }
        typed!(u32);
        typed!(i64);
        typed!(f64);
        typed!(bool);
        typed!(char);
    }
    for t in TAGS {
        if !m.fields.contains_key(&t) {
            if let Ok(x) = fm.get_field::<String>(t) {
                return Err(format!("{}: tag {} was never set but reads {:?}", path, t, clip(&x)));
            }
            if let Ok(x) = fm.get_field::<u32>(t) {
                return Err(format!("{}: tag {} was never set but reads {:?}", path, t, x));
            }
        }
        match (m.groups.get(&t), fm.get_group(t)) {
            (None, None) => {}
            (Some(_), None) => return Err(format!("{}: group {} was created but is absent", path, t)),
            (None, Some(_)) => return Err(format!("{}: group {} was never created but is present", path, t)),
            (Some((d, v)), Some(g)) => {
                if g.size() as usize != v.len() {
                    return Err(format!("{}: group {} has {} instances instead of {}", path, t, g.size(), v.len()));
                }
                for (i, x) in v.iter().enumerate() {
                    same(&g[i], x, &format!("{}/{}[{}]", path, t, i))?;
                }
                let _ = d;
            }
        }
    }
    let held = fm.iter().into_iter().count();
    if held != m.count() {
        return Err(format!("{}: serialises {} fields, {} were set", path, held, m.count()));
    }
    Ok(())
}
fn clip(s: &str) -> String {
    if s.len() > 60 {
        let h: String = s.chars().take(40).collect();
        format!("{}...({} bytes)", h, s.len())
    } else {
        s.to_string()
    }
}
fn build(case: &str, mut at: impl FnMut(&mut Built, &str) -> Result<(), String>) -> Result<Built, String> {
    let lines: Vec<&str> = case.lines().collect();
    let ops = parse_ops(&lines, &mut 0, 0);
    let mut b = Built { msg: Message::new(), model: Default::default() };
    for (target, op) in ops {
        match &op {
            Op::CheckSum => at(&mut b, "C")?,
            Op::BodyLen => at(&mut b, "L")?,
            _ => {
                let i = match target.as_str() {
                    "h" => 0,
                    "t" => 2,
                    _ => 1,
                };
                let r = match i {
                    0 => guarded(|| apply(b.msg.header_mut(), &op)),
                    2 => guarded(|| apply(b.msg.trailer_mut(), &op)),
                    // half of the body writes go through the message itself
                    _ => guarded(|| match &op {
                        Op::Set(t, v) if t % 2 == 0 => Ok(b.msg.set_field(StringField::new(*t, v))),
                        _ => apply(b.msg.body_mut(), &op),
                    }),
                };
                match r {
                    Err(p) => return Err(format!("{:?} panicked: {}", clip(&format!("{:?}", op)), p)),
                    Ok(Err(e)) => return Err(format!("C09 {}", e)),
                    Ok(Ok(())) => {}
                }
                b.model[i].apply(&op);
                at(&mut b, "")?;
            }
        }
    }
    Ok(b)
}
fn same_all(b: &Built) -> Result<(), String> {
    for i in 0..3 {
        same(sect(&b.msg, i), &b.model[i], NAMES[i])?;
    }
    Ok(())
}
fn c09(case: &str) -> Outcome {
    let big = case.len() > 4000;
    let r = build(case, |b, what| if what.is_empty() && !big { same_all(b) } else { Ok(()) });
    match r {
        Err(e) => Outcome::Bad(e),
        Ok(b) => match guarded(|| same_all(&b)) {
            Ok(Ok(())) => {
                // through the message as well
                for (t, v) in &b.model[1].fields {
                    if b.msg.get_field::<String>(*t).as_ref() != Ok(v) {
                        return Outcome::Bad(format!("message field {} does not read back {:?}", t, clip(v)));
                    }
                }
                if b.model.iter().all(|m| m.fields.is_empty()) { trivial() } else { pass() }
            }
            Ok(Err(e)) => Outcome::Bad(e),
            Err(p) => Outcome::Bad(format!("reading panicked: {}", p)),
        },
    }
}
fn sum_of(b: &Built) -> u64 {
    let mut s = 0u64;
    for m in &b.model {
        m.each(&mut |t, v| {
            if t != 10 {
                s += format!("{}={}\u{1}", t, v).bytes().map(|x| x as u64).sum::<u64>();
            }
        });
    }
    s % 256
}
fn len_of(b: &Built) -> usize {
    let mut s = 0;
    for m in &b.model {
        m.each(&mut |t, v| {
            if t != 8 && t != 9 && t != 10 {
                s += format!("{}={}\u{1}", t, v).len();
            }
        });
    }
    s
}
fn do_checksum(b: &mut Built) -> Result<(), String> {
    let want = format!("{:03}", sum_of(b));
    guarded(|| b.msg.set_checksum()).map_err(|p| format!("set_checksum panicked: {}", p))?;
    let got = b.msg.trailer().get_field::<String>(10);
    if got.as_ref() != Ok(&want) {
        return Err(format!("tag 10 is {:?}, the bytes of the message sum to {}", got, want));
    }
    b.model[2].fields.insert(10, want);
    Ok(())
}
fn do_len(b: &mut Built) -> Result<(), String> {
    let want = len_of(b).to_string();
    guarded(|| b.msg.set_body_len()).map_err(|p| format!("set_body_len panicked: {}", p))?;
    let got = b.msg.header().get_field::<String>(9);
    if got.as_ref() != Ok(&want) {
        return Err(format!("tag 9 is {:?}, the message has {} bytes outside tags 8, 9 and 10", got, want));
    }
    b.model[0].fields.insert(9, want);
    Ok(())
}
fn c05(case: &str) -> Outcome {
    let r = build(case, |b, w| if w == "C" { do_checksum(b) } else { Ok(()) });
    let r = r.and_then(|mut b| {
        do_checksum(&mut b)?;
        same_all(&b)?;
        do_checksum(&mut b)
    });
    match r {
        Ok(()) => pass(),
        Err(e) if e.starts_with("C09") => trivial(),
        Err(e) => Outcome::Bad(e),
    }
}
fn c06(case: &str) -> Outcome {
    let r = build(case, |b, w| if w == "L" { do_len(b) } else { Ok(()) });
    let r = r.and_then(|mut b| {
        do_len(&mut b)?;
        same_all(&b)?;
        do_len(&mut b)
    });
    match r {
        Ok(()) => pass(),
        Err(e) if e.starts_with("C09") => trivial(),
        Err(e) => Outcome::Bad(e),
    }
}
type Tok<'a> = (u32, &'a str);
/// the tokens from `pos` on start with exactly the fields of `m`; `first` must come first if present
fn take(toks: &[Tok], pos: &mut usize, m: &Model, first: &[u32], last: &[u32], path: &str) -> Result<(), String> {
    let mut left = m.fields.clone();
    let mut order = vec![];
    while !left.is_empty() {
        let (t, v) = match toks.get(*pos) {
            None => return Err(format!("{}: fields {:?} are not written", path, left.keys().collect::<Vec<_>>())),
            Some(x) => *x,
        };
        match left.remove(&t) {
            Some(w) if w == v => {}
            Some(w) => return Err(format!("{}: {}={:?} is written, the field holds {:?}", path, t, clip(v), clip(&w))),
            None => return Err(format!("{}: {}={:?} is written where one of {:?} is due", path, t, clip(v), left.keys().collect::<Vec<_>>())),
        }
        *pos += 1;
        order.push(t);
        if let Some((d, g)) = m.groups.get(&t) {
            for (i, x) in g.iter().enumerate() {
                take(toks, pos, x, &[*d], &[], &format!("{}/{}[{}]", path, t, i))?;
            }
        }
    }
    let want: Vec<u32> = first.iter().copied().filter(|t| m.fields.contains_key(t)).collect();
    if order[..want.len().min(order.len())] != want[..] {
        return Err(format!("{}: fields are written in the order {:?}, {:?} must come first", path, order, want));
    }
    let want: Vec<u32> = last.iter().copied().filter(|t| m.fields.contains_key(t)).collect();
    if order[order.len() - want.len().min(order.len())..] != want[..] {
        return Err(format!("{}: fields are written in the order {:?}, {:?} must come last", path, order, want));
    }
    Ok(())
}
fn c07(case: &str) -> Outcome {
    let b = match build(case, |_, _| Ok(())) {
        Ok(b) => b,
        Err(_) => return trivial(),
    };
    if same_all(&b).is_err() {
        return trivial(); // the containers themselves are C09
    }
    let text = match guarded(|| b.msg.to_string()) {
        Ok(t) => t,
        Err(p) => return Outcome::Bad(format!("serialising panicked: {}", p)),
    };
    if let Err(e) = layout(&text, &b.model, None) {
        return Outcome::Bad(format!("{} in {:?}", e, clip(&text.replace('\u{1}', "|"))));
    }
    pass()
}
pub fn layout(text: &str, model: &[Model; 3], _o: Option<()>) -> Result<(), String> {
    let mut toks: Vec<Tok> = vec![];
    let mut rest = text;
    while !rest.is_empty() {
        let e = rest.find('\u{1}').ok_or("the last field is not closed by SOH".to_string())?;
        let f = &rest[..e];
        rest = &rest[e + 1..];
        let (t, v) = f.split_once('=').ok_or(format!("{:?} is not tag=value", clip(f)))?;
        let n: u32 = t.parse().map_err(|_| format!("{:?} is not a tag", clip(t)))?;
        if n.to_string() != t {
            return Err(format!("tag {:?} is not in standard form", t));
        }
        toks.push((n, v));
    }
    let mut pos = 0;
    take(&toks, &mut pos, &model[0], &[8, 9, 35], &[], "header")?;
    take(&toks, &mut pos, &model[1], &[], &[], "body")?;
    let std_trailer = model[2].fields.keys().all(|t| [93, 89, 10].contains(t)) && model[2].groups.is_empty();
    take(&toks, &mut pos, &model[2], &[], if std_trailer { &[10] } else { &[] }, "trailer")?;
    if pos != toks.len() {
        return Err(format!("{} fields are written beyond the stored ones", toks.len() - pos));
    }
    Ok(())
}
fn gen07(r: &mut Rng, n: u64) -> String {
    if n % 3 == 0 {
        format!("parse {}", super::msgs::gen_valid(r, n))
    } else {
        gen(r, if n % 4000 == 77 { 1 } else { n })
    }
}
fn run07(case: &str) -> Outcome {
    match case.strip_prefix("parse ") {
        Some(c) => super::msgs::c07_parsed(c),
        None => c07(case),
    }
}
fn shrink07(case: &str) -> Vec<String> {
    match case.strip_prefix("parse ") {
        Some(c) => super::msgs::shrink(c).into_iter().map(|x| format!("parse {}", x)).collect(),
        None => shrink(case),
    }
}
pub const C05: Prop = Prop { gen, run: c05, shrink };
pub const C06: Prop = Prop { gen, run: c06, shrink };
pub const C07: Prop = Prop { gen: gen07, run: run07, shrink: shrink07 };
pub const C09: Prop = Prop { gen, run: c09, shrink };
