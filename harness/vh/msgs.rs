//! C01, C02, C03, C04, C08, C22: parsing of messages against an independent reading of the rules.
use super::spec::*;
use super::*;
use crate::data_dictionary::DataDictionary;
use crate::message::{FieldMap, Message};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Fld {
    pub tag: u32,
    pub val: String,
    pub grp: Option<Vec<Vec<Fld>>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    InvalidTag,
    TagSpecifiedWithoutValue,
    TagSpecifiedOutOfOrder,
    TagAppearsMoreThanOnce,
    IncorrectDataFormatForValue,
    IncorrectNumInGroupCountForRepeatingGroup,
    RequiredTagMissing,
    RepeatingGroupsOutOfOrder,
}
use Kind::*;
#[derive(Clone, Debug, PartialEq)]
pub struct Parsed {
    pub header: Vec<Fld>,
    pub body: Vec<Fld>,
    pub trailer: Vec<Fld>,
}

type Raw = Vec<(u32, String)>;

pub fn split(text: &str) -> Result<Raw, Kind> {
    let mut v = vec![];
    let mut rest: Vec<&str> = text.split('\u{1}').collect();
    if rest.last() == Some(&"") {
        rest.pop();
    }
    for f in rest {
        let eq = match f.find('=') {
            Some(i) => i,
            None => return Err(InvalidTag),
        };
        let tag: u32 = match f[..eq].parse() {
            Ok(t) => t,
            Err(_) => return Err(InvalidTag),
        };
        if f.len() == eq + 1 {
            return Err(TagSpecifiedWithoutValue);
        }
        v.push((tag, f[eq + 1..].to_string()));
    }
    Ok(v)
}

fn group(v: &Raw, pos: &mut usize, members: &[Mem], count: &str) -> Result<Vec<Vec<Fld>>, Kind> {
    let n: u32 = match count.parse() {
        Ok(n) => n,
        Err(_) => return Err(IncorrectDataFormatForValue),
    };
    if n as usize > v.len() - *pos {
        return Err(IncorrectNumInGroupCountForRepeatingGroup);
    }
    let delim = members[0].tag();
    let index = |t: u32| members.iter().position(|m| m.tag() == t);
    let mut insts: Vec<Vec<Fld>> = vec![];
    let mut last = 0usize; // index of the last member of the current instance
    while *pos < v.len() {
        let (t, val) = v[*pos].clone();
        let i = match index(t) {
            None => break,
            Some(i) => i,
        };
        *pos += 1;
        if t == delim {
            if insts.len() == n as usize {
                return Err(IncorrectNumInGroupCountForRepeatingGroup);
            }
            insts.push(vec![]);
        } else if insts.is_empty() {
            return Err(RequiredTagMissing);
        } else if i == last {
            return Err(TagAppearsMoreThanOnce);
        } else if i < last {
            return Err(RepeatingGroupsOutOfOrder);
        }
        last = i;
        let grp = match &members[i] {
            Mem::F(_) => None,
            Mem::G(_, sub) => Some(group(v, pos, sub, &val)?),
        };
        insts.last_mut().unwrap().push(Fld { tag: t, val, grp });
    }
    if insts.len() != n as usize {
        return Err(IncorrectNumInGroupCountForRepeatingGroup);
    }
    Ok(insts)
}

fn has(m: &[Mem], t: u32) -> bool {
    m.iter().any(|x| x.tag() == t)
}

pub fn parse(text: &str, sc: &Scopes) -> Result<Parsed, Kind> {
    let v = split(text)?;
    build(&v, sc)
}
pub fn build(v: &Raw, sc: &Scopes) -> Result<Parsed, Kind> {
    let empty: Vec<Mem> = vec![];
    let (h, t) = (&sc["header"], &sc["trailer"]);
    let mut p = Parsed { header: vec![], body: vec![], trailer: vec![] };
    if v.len() < 3 || v[0].0 != 8 || v[1].0 != 9 || v[2].0 != 35 {
        return Err(TagSpecifiedOutOfOrder);
    }
    let mut pos = 0;
    let take = |pos: &mut usize, sec: &mut Vec<Fld>, scope: &[Mem]| -> Result<(), Kind> {
        let (tag, val) = v[*pos].clone();
        *pos += 1;
        if sec.iter().any(|f| f.tag == tag) {
            return Err(TagAppearsMoreThanOnce);
        }
        let grp = match scope.iter().find(|m| m.tag() == tag) {
            Some(Mem::G(_, sub)) => Some(group(v, pos, sub, &val)?),
            _ => None,
        };
        sec.push(Fld { tag, val, grp });
        Ok(())
    };
    while pos < v.len() && has(h, v[pos].0) {
        take(&mut pos, &mut p.header, h)?;
    }
    let mt = match p.header.iter().find(|f| f.tag == 35) {
        Some(f) => f.val.clone(),
        None => return Err(RequiredTagMissing),
    };
    let b = sc.get(&mt).unwrap_or(&empty);
    while pos < v.len() && !has(t, v[pos].0) {
        if has(h, v[pos].0) {
            return Err(TagSpecifiedOutOfOrder);
        }
        take(&mut pos, &mut p.body, b)?;
    }
    while pos < v.len() {
        if !has(t, v[pos].0) {
            return Err(TagSpecifiedOutOfOrder);
        }
        take(&mut pos, &mut p.trailer, &[])?;
    }
    Ok(p)
}

// ---------------------------------------------------------------- generation
fn value(r: &mut Rng) -> String {
    if let Some(s) = hot_str(r, 4, "x") {
        let s = s.replace('\u{1}', "");
        if !s.is_empty() {
            return s;
        }
    }
    match r.below(16) {
        14 => {
            // characters of different width, short or long
            let n = if r.chance(1, 4) { 1 + r.below(700) } else { 1 + r.below(20) };
            let cs = ['a', '\u{e9}', '\u{20ac}', '\u{1d11e}', '0', '\u{7f}'];
            (0..n).map(|_| *r.pick(&cs)).collect()
        }
        15 => ["\0", "\n", "\r\n", "\t", "\u{2}", "\u{feff}x", " x", "x ", "\"q\"", "'", "%s{}", "|", "0x1F", "1.5", "20230101-00:00:00", "Y", "^A", "\\"][r.below(18)].to_string(),
        0 => "a=b".to_string(),
        1 => "=".to_string(),
        2 => "é€𝄞".to_string(),
        3 => " ".to_string(),
        4 => "10=123".to_string(),
        5 => "x".repeat(1 + r.below(200)),
        6 => "-1".to_string(),
        _ => format!("{}", r.below(1000)),
    }
}
fn emit_group(r: &mut Rng, sub: &[Mem], out: &mut Raw, budget: &mut usize) -> usize {
    let n = match r.below(8) {
        0 => 0,
        1 | 2 => 1,
        3 | 4 => 2,
        5 => 3,
        6 => r.below(6),
        7 if *budget > 600 => 100 + r.below(250),
        _ => r.below(14),
    };
    let n = hot_num(r, 6, 70).unwrap_or(n as u64) as usize;
    let mut k = 0;
    for _ in 0..n {
        if *budget == 0 {
            break;
        }
        k += 1;
        for (i, m) in sub.iter().enumerate() {
            if i > 0 && r.chance(1, 3) {
                continue;
            }
            *budget = budget.saturating_sub(1);
            emit(r, m, out, budget);
        }
    }
    k
}
fn emit(r: &mut Rng, m: &Mem, out: &mut Raw, budget: &mut usize) {
    match m {
        Mem::F(t) => out.push((*t, value(r))),
        Mem::G(t, sub) => {
            let at = out.len();
            out.push((*t, String::new()));
            let k = emit_group(r, sub, out, budget);
            out[at].1 = match r.below(20) {
                0 => format!("0{}", k),
                1 => format!("+{}", k),
                _ => k.to_string(),
            };
        }
    }
}
pub fn gen_fields(r: &mut Rng, sc: &Scopes) -> Raw {
    let mut v: Raw = vec![];
    let mut budget = if r.chance(1, 60) { 2000 } else { 60 };
    let types: Vec<&String> = sc.keys().filter(|k| *k != "header" && *k != "trailer").collect();
    let mt = if types.is_empty() || r.chance(1, 20) { "ZZ".to_string() } else { (*r.pick(&types)).clone() };
    v.push((8, "FIX.4.3".into()));
    v.push((9, "100".into()));
    v.push((35, mt.clone()));
    let sparse = 1 + r.below(4);
    for (sec, first) in [("header", 3), ("body", 0), ("trailer", 0)] {
        let name = if sec == "body" { mt.as_str() } else { sec };
        let mut ms: Vec<Mem> = sc.get(name).cloned().unwrap_or_default();
        if sec == "header" {
            ms.retain(|m| ![8, 9, 35].contains(&m.tag()));
        }
        let _ = first;
        if sec != "trailer" {
            r.shuffle(&mut ms);
        }
        for m in &ms {
            if r.chance(sparse - 1, 5) && m.tag() != 10 {
                continue;
            }
            if sec == "body" && (has(&sc["header"], m.tag()) || has(&sc["trailer"], m.tag())) {
                continue;
            }
            let m = if sec == "trailer" { Mem::F(m.tag()) } else { m.clone() };
            emit(r, &m, &mut v, &mut budget);
        }
        if sec == "body" && r.chance(1, 8) {
            v.push((7777, value(r)));
        }
    }
    v
}
fn all_tags(sc: &Scopes) -> Vec<u32> {
    let mut s = BTreeSet::new();
    for m in sc.values() {
        tags_of(m, true, &mut s);
    }
    s.insert(7777);
    s.insert(0);
    s.extend(hot().nums.iter().filter_map(|n| u32::try_from(*n).ok()));
    s.into_iter().collect()
}
pub fn mutate(r: &mut Rng, v: &mut Raw, sc: &Scopes) {
    if v.is_empty() {
        return;
    }
    let n = v.len();
    let tags = all_tags(sc);
    match r.below(12) {
        0 => {
            v.remove(r.below(n));
        }
        1 => {
            let i = r.below(n);
            let j = r.below(n + 1);
            let f = v[i].clone();
            v.insert(j, f);
        }
        2 => {
            let (i, j) = (r.below(n), r.below(n));
            v.swap(i, j);
        }
        3 => {
            let i = r.below(n);
            if i + 1 < n {
                v.swap(i, i + 1);
            }
        }
        4 | 5 => {
            // change a number by one, or to something odd
            let nums: Vec<usize> = (0..n).filter(|i| v[*i].1.parse::<u32>().is_ok()).collect();
            if nums.is_empty() {
                return;
            }
            let i = *r.pick(&nums);
            let k: u32 = v[i].1.parse().unwrap();
            v[i].1 = match r.below(10) {
                0 => k.wrapping_add(1).to_string(),
                1 => k.wrapping_sub(1).to_string(),
                2 => "4294967295".into(),
                3 => "2147483648".into(),
                4 => "2147483647".into(),
                5 => "x".into(),
                6 => "-1".into(),
                7 => "4294967296".into(),
                8 => format!("{}", n - i - 1),
                _ => format!("{}", n - i),
            };
        }
        6 => {
            let i = r.below(n + 1);
            v.insert(i, (*r.pick(&tags), value(r)));
        }
        7 => {
            let i = r.below(n);
            v[i].0 = *r.pick(&tags);
        }
        8 => {
            let k = r.below(n + 1);
            v.truncate(k);
        }
        9 => {
            let (i, j) = (r.below(n), r.below(n));
            let f = v.remove(i);
            v.insert(j.min(v.len()), f);
        }
        10 => {
            // repeat a run
            let i = r.below(n);
            let j = (i + 1 + r.below(4)).min(n);
            let run: Raw = v[i..j].to_vec();
            for (k, f) in run.into_iter().enumerate() {
                v.insert(j + k, f);
            }
        }
        _ => {
            let i = r.below(n);
            v[i].1 = value(r);
        }
    }
    // a message of about as many fields as the code mentions
    if let Some(k) = hot_num(r, 40, 300) {
        while v.len() < k as usize {
            let t = 8000 + v.len() as u32;
            let at = v.len().saturating_sub(1);
            v.insert(at, (t, "1".to_string()));
        }
    }
}
pub fn text_of(v: &Raw) -> String {
    v.iter().map(|(t, x)| format!("{}={}\u{1}", t, x)).collect()
}
pub fn scar(r: &mut Rng, t: String) -> String {
    let chars: Vec<char> = t.chars().collect();
    let n = chars.len();
    let mut c = chars.clone();
    match r.below(9) {
        0 if n > 0 => {
            c.truncate(r.below(n));
        }
        1 if n > 0 => {
            c.remove(r.below(n));
        }
        2 => c.insert(r.below(n + 1), *r.pick(&['=', '\u{1}', 'x', '8', '\u{e9}', '-', ' ', '\0'])),
        3 if n > 0 => {
            c.pop();
        }
        4 => c.insert(r.below(n + 1), '\u{1}'),
        5 => {
            // an empty value
            if let Some(i) = (0..n).filter(|i| chars[*i] == '=').nth(r.below(6)) {
                let mut j = i + 1;
                while j < c.len() && c[j] != '\u{1}' {
                    c.remove(j);
                }
                j = j.min(c.len());
                let _ = j;
            }
        }
        6 => {
            // a tag too large
            if let Some(i) = (0..n).filter(|i| chars[*i] == '=').nth(r.below(6)) {
                for d in "0000000000".chars() {
                    c.insert(i, d);
                }
            }
        }
        7 => c.insert(0, '\u{1}'),
        _ => c.push('='),
    }
    c.into_iter().collect()
}
fn gen_case(r: &mut Rng, n: u64, rough: usize) -> String {
    let seed = r.below(400) as u64;
    if n == 0 {
        return format!("{}\n", seed);
    }
    let sc = with_spec(seed, |sp, _, _| scopes(sp));
    let mut v = gen_fields(r, &sc);
    let m = match r.below(6) {
        0 | 1 => 0,
        2 | 3 => 1,
        4 => 2,
        _ => r.below(6),
    };
    for _ in 0..m {
        mutate(r, &mut v, &sc);
    }
    let mut t = text_of(&v);
    if r.chance(rough, 10) {
        for _ in 0..1 + r.below(2) {
            t = scar(r, t);
        }
    }
    format!("{}\n{}", seed, t)
}
fn gen_rough(r: &mut Rng, n: u64) -> String {
    gen_case(r, n, 4)
}
fn gen_smooth(r: &mut Rng, n: u64) -> String {
    gen_case(r, n, 1)
}
/// round trips: unmodified messages, now and then with one change
pub fn gen_valid(r: &mut Rng, _n: u64) -> String {
    let seed = r.below(400) as u64;
    let sc = with_spec(seed, |sp, _, _| scopes(sp));
    let mut v = gen_fields(r, &sc);
    if r.chance(1, 5) {
        mutate(r, &mut v, &sc);
    }
    format!("{}\n{}", seed, text_of(&v))
}
pub fn shrink(case: &str) -> Vec<String> {
    let (s, t) = case.split_once('\n').unwrap();
    let fs: Vec<&str> = t.split_inclusive('\u{1}').collect();
    let mut out = vec![];
    for w in [16, 8, 4, 2, 1] {
        let mut i = 0;
        while i + w <= fs.len() {
            let mut g = fs.clone();
            g.drain(i..i + w);
            out.push(format!("{}\n{}", s, g.concat()));
            i += w;
        }
    }
    out
}

// ---------------------------------------------------------------- the code under test
thread_local! { static SPECS: RefCell<BTreeMap<u64, (Spec, Scopes, Option<DataDictionary>)>> = RefCell::new(BTreeMap::new()); }
pub fn with_spec<T>(seed: u64, f: impl FnOnce(&Spec, &Scopes, Option<&DataDictionary>) -> T) -> T {
    SPECS.with(|c| {
        let mut c = c.borrow_mut();
        let e = c.entry(seed).or_insert_with(|| {
            let sp = gen_spec(seed);
            let x = sp.xml();
            let dd = guarded(|| x.parse::<DataDictionary>().ok()).ok().flatten();
            let sc = scopes(&sp);
            (sp, sc, dd)
        });
        f(&e.0, &e.1, e.2.as_ref())
    })
}
pub fn tree(fm: &FieldMap, expected: &[Fld], path: &str) -> Result<usize, String> {
    // reads exactly the expected fields back; returns their number
    let mut n = 0;
    for f in expected {
        n += 1;
        match fm.get_field::<String>(f.tag) {
            Ok(v) if v == f.val => {}
            Ok(v) => return Err(format!("{}: tag {} reads {:?}, the text has {:?}", path, f.tag, v, f.val)),
            Err(e) => return Err(format!("{}: tag {} with value {:?} cannot be read: {}", path, f.tag, f.val, e)),
        }
        match (&f.grp, fm.get_group(f.tag)) {
            (None, None) => {}
            (None, Some(_)) => return Err(format!("{}: tag {} has a group, it should be a plain field", path, f.tag)),
            (Some(_), None) => return Err(format!("{}: group {} is missing", path, f.tag)),
            (Some(x), Some(g)) => {
                if g.size() as usize != x.len() {
                    return Err(format!("{}: group {} has {} instances, the text {}", path, f.tag, g.size(), x.len()));
                }
                for (i, inst) in x.iter().enumerate() {
                    n += tree(&g[i], inst, &format!("{}/{}[{}]", path, f.tag, i))?;
                }
            }
        }
    }
    let held = fm.iter().into_iter().count();
    if held != n {
        return Err(format!("{}: {} fields are held, the text has {}", path, held, n));
    }
    Ok(n)
}
pub fn compare(m: &Message, p: &Parsed) -> Result<(), String> {
    tree(m.header(), &p.header, "header")?;
    tree(m.body(), &p.body, "body")?;
    tree(m.trailer(), &p.trailer, "trailer")?;
    Ok(())
}
fn case_parts(case: &str) -> (u64, String) {
    let (s, t) = case.split_once('\n').unwrap();
    (s.parse().unwrap(), t.to_string())
}
struct Run {
    text: String,
    real: Result<Result<Message, String>, String>, // Err(panic), Ok(Err(kind)), Ok(Ok(message))
    want: Result<Parsed, Kind>,
    sc: Scopes,
}
fn run(case: &str) -> Option<Run> {
    let (seed, text) = case_parts(case);
    with_spec(seed, |_, sc, dd| {
        let dd = dd?;
        let want = parse(&text, sc);
        // a bound generous enough for any representation of the fields of the text
        limit_memory((8 << 20) + 4000 * text.len());
        let real = guarded(|| Message::from_str(&text, dd).map_err(|e| e.to_string()));
        unlimit_memory();
        Some(Run { text: text.clone(), real, want, sc: sc.clone() })
    })
}
fn show(t: &str) -> String {
    t.replace('\u{1}', "|")
}
fn c01(case: &str) -> Outcome {
    let r = match run(case) {
        Some(r) => r,
        None => return trivial(),
    };
    match r.real {
        Err(p) => Outcome::Bad(format!("parsing {:?} panicked: {}", show(&r.text), p)),
        Ok(_) => pass(),
    }
}
fn c02(case: &str) -> Outcome {
    let r = match run(case) {
        Some(r) => r,
        None => return trivial(),
    };
    let m = match &r.real {
        Ok(Ok(m)) => m,
        _ => return trivial(),
    };
    match &r.want {
        Err(InvalidTag) | Err(TagSpecifiedWithoutValue) => Outcome::Bad(format!("{:?} has an ill-formed field but was accepted", show(&r.text))),
        Ok(p) => match compare(m, p) {
            Ok(()) => pass(),
            Err(e) => Outcome::Bad(format!("{:?} was accepted, but {}", show(&r.text), e)),
        },
        Err(_) => {
            // accepted although some other rule is broken: still every field has to be there
            let v = split(&r.text).unwrap();
            let mut text: Vec<(u32, String)> = v;
            let mut held: Vec<(u32, String)> = vec![];
            for s in [m.header(), m.body(), m.trailer()] {
                held.extend(s.iter().into_iter().map(|f| (f.tag(), f.value().clone())));
            }
            text.sort();
            held.sort();
            if text != held {
                Outcome::Bad(format!("{:?} was accepted, but the message holds {:?}", show(&r.text), held))
            } else if let Err(TagAppearsMoreThanOnce) = r.want {
                Outcome::Bad(format!("{:?} repeats a tag but was accepted", show(&r.text)))
            } else {
                trivial()
            }
        }
    }
}
fn c03(case: &str) -> Outcome {
    let r = match run(case) {
        Some(r) => r,
        None => return trivial(),
    };
    let m = match &r.real {
        Ok(Ok(m)) => m,
        _ => return trivial(),
    };
    match &r.want {
        Err(TagSpecifiedOutOfOrder) => Outcome::Bad(format!("{:?} breaks the section order but was accepted", show(&r.text))),
        Ok(p) => {
            // top level fields of each section
            for (name, fm, ex) in [("header", m.header(), &p.header), ("body", m.body(), &p.body), ("trailer", m.trailer(), &p.trailer)] {
                for f in ex {
                    if fm.get_field::<String>(f.tag).is_err() {
                        return Outcome::Bad(format!("{:?}: tag {} belongs to the {} but is not there", show(&r.text), f.tag, name));
                    }
                    if f.grp.is_some() != fm.get_group(f.tag).is_some() {
                        return Outcome::Bad(format!("{:?}: the group of tag {} is not in the {}", show(&r.text), f.tag, name));
                    }
                }
                for other in fm.iter() {
                    let t = other.tag();
                    let mut deep = vec![];
                    fn tags(f: &[Fld], v: &mut Vec<u32>) {
                        for x in f {
                            v.push(x.tag);
                            for i in x.grp.iter().flatten() {
                                tags(i, v)
                            }
                        }
                    }
                    tags(ex, &mut deep);
                    if !deep.contains(&t) {
                        return Outcome::Bad(format!("{:?}: tag {} is stored in the {}", show(&r.text), t, name));
                    }
                }
            }
            pass()
        }
        _ => trivial(),
    }
}
fn c04(case: &str) -> Outcome {
    let r = match run(case) {
        Some(r) => r,
        None => return trivial(),
    };
    let m = match &r.real {
        Ok(Ok(m)) => m,
        _ => return trivial(),
    };
    match &r.want {
        Err(k @ (IncorrectDataFormatForValue | IncorrectNumInGroupCountForRepeatingGroup | RequiredTagMissing | RepeatingGroupsOutOfOrder)) => {
            Outcome::Bad(format!("{:?} has an invalid group ({:?}) but was accepted", show(&r.text), k))
        }
        Err(TagAppearsMoreThanOnce) => {
            // either a section or a group instance repeats a tag; the latter is a group fault
            let v = split(&r.text).unwrap();
            if group_repeats(&v, &r.sc) {
                Outcome::Bad(format!("{:?} repeats a member inside a group instance but was accepted", show(&r.text)))
            } else {
                trivial()
            }
        }
        Ok(p) => {
            let any = p.header.iter().chain(p.body.iter()).any(|f| f.grp.is_some());
            if !any {
                return trivial();
            }
            fn groups(fm: &FieldMap, ex: &[Fld], path: &str) -> Result<(), String> {
                for f in ex {
                    if let Some(x) = &f.grp {
                        let only = [f.clone()];
                        let g = match fm.get_group(f.tag) {
                            Some(g) => g,
                            None => return Err(format!("{}: group {} is missing", path, f.tag)),
                        };
                        let _ = only;
                        if g.size() as usize != x.len() {
                            return Err(format!("{}: group {} has {} instances instead of {}", path, f.tag, g.size(), x.len()));
                        }
                        for (i, inst) in x.iter().enumerate() {
                            tree(&g[i], inst, &format!("{}/{}[{}]", path, f.tag, i))?;
                        }
                    }
                }
                Ok(())
            }
            match groups(m.header(), &p.header, "header").and_then(|_| groups(m.body(), &p.body, "body")) {
                Ok(()) => pass(),
                Err(e) => Outcome::Bad(format!("{:?}: {}", show(&r.text), e)),
            }
        }
        _ => trivial(),
    }
}
fn group_repeats(v: &Raw, sc: &Scopes) -> bool {
    // the repeat is inside a group if the text up to the failing field, read with sections only, has no repeat
    let full = build(v, sc);
    if full != Err(TagAppearsMoreThanOnce) {
        return false;
    }
    // shortest prefix that fails the same way; its last field is the repeated one
    for k in 3..=v.len() {
        if build(&v[..k].to_vec(), sc) == Err(TagAppearsMoreThanOnce) {
            // removing the repeated field and closing the text must leave it among group members
            let t = v[k - 1].0;
            let before = build(&v[..k - 1].to_vec(), sc);
            if let Ok(p) = before {
                return !p.header.iter().chain(p.body.iter()).chain(p.trailer.iter()).any(|f| f.tag == t);
            }
            return true;
        }
    }
    false
}
fn inside_groups(m: &[Mem], out: &mut BTreeSet<u32>) {
    for x in m {
        if let Mem::G(_, s) = x {
            tags_of(s, true, out);
        }
    }
}
fn c08(case: &str) -> Outcome {
    let r = match run(case) {
        Some(r) => r,
        None => return trivial(),
    };
    let m = match &r.real {
        Ok(Ok(m)) => m,
        _ => return trivial(),
    };
    let p = match &r.want {
        Ok(p) => p,
        _ => return trivial(),
    };
    let mut members = BTreeSet::new();
    inside_groups(&r.sc["header"], &mut members);
    let mt = &p.header.iter().find(|f| f.tag == 35).unwrap().val;
    if let Some(b) = r.sc.get(mt) {
        inside_groups(b, &mut members);
    }
    if p.header.iter().chain(p.body.iter()).chain(p.trailer.iter()).any(|f| members.contains(&f.tag)) {
        return trivial();
    }
    let (seed, _) = case_parts(case);
    let text2 = match guarded(|| m.to_string()) {
        Ok(t) => t,
        Err(e) => return Outcome::Bad(format!("{:?} is accepted but serialising panicked: {}", show(&r.text), e)),
    };
    let again = with_spec(seed, |_, _, dd| guarded(|| Message::from_str(&text2, dd.unwrap()).map_err(|e| e.to_string())));
    match again {
        Err(e) => Outcome::Bad(format!("parsing the serialised form {:?} panicked: {}", show(&text2), e)),
        Ok(Err(e)) => Outcome::Bad(format!("{:?} is accepted but its serialised form {:?} is rejected: {}", show(&r.text), show(&text2), e)),
        Ok(Ok(m2)) => {
            // the second message against what the first one holds
            let a = snapshot(m);
            let b = snapshot(&m2);
            if a != b {
                return Outcome::Bad(format!("{:?} serialises to {:?}, which holds {:?} instead of {:?}", show(&r.text), show(&text2), b, a));
            }
            match compare(&m2, p) {
                Ok(()) => pass(),
                Err(e) => Outcome::Bad(format!("{:?} serialises to {:?}, of which {}", show(&r.text), show(&text2), e)),
            }
        }
    }
}
pub fn snapshot(m: &Message) -> Vec<Vec<(u32, String)>> {
    [m.header(), m.body(), m.trailer()]
        .iter()
        .map(|s| {
            let mut v: Vec<(u32, String)> = s.iter().into_iter().map(|f| (f.tag(), f.value().clone())).collect();
            v.sort();
            v
        })
        .collect()
}
fn c22(case: &str) -> Outcome {
    let r = match run(case) {
        Some(r) => r,
        None => return trivial(),
    };
    match (&r.real, &r.want) {
        (Err(_), _) => trivial(),
        (Ok(Ok(_)), Ok(_)) => trivial(),
        (Ok(Ok(_)), Err(_)) => trivial(), // accepting a wrong text is not a wrong reason (C02, C03, C04)
        (Ok(Err(e)), Ok(_)) => Outcome::Bad(format!("{:?} breaks no rule but was rejected: {}", show(&r.text), e)),
        (Ok(Err(e)), Err(k)) => {
            let want = format!("{:?}", k);
            // the reason is the last word of the printed error
            let got = e.rsplit(|c: char| !c.is_alphanumeric()).find(|w| !w.is_empty()).unwrap_or("");
            if got == want {
                pass()
            } else {
                Outcome::Bad(format!("{:?} should be rejected with {} but the reason given is {}", show(&r.text), want, got))
            }
        }
    }
}

/// C07 for parsed messages: the written order inside the sections and the instances
pub fn c07_parsed(case: &str) -> Outcome {
    let r = match run(case) {
        Some(r) => r,
        None => return trivial(),
    };
    let (m, p) = match (&r.real, &r.want) {
        (Ok(Ok(m)), Ok(p)) => (m, p),
        _ => return trivial(),
    };
    if compare(m, p).is_err() {
        return trivial(); // C02
    }
    let text = match guarded(|| m.to_string()) {
        Ok(t) => t,
        Err(e) => return Outcome::Bad(format!("serialising panicked: {}", e)),
    };
    let toks = match split(&text) {
        Ok(t) => t,
        Err(_) => return Outcome::Bad(format!("{:?} is serialised as {:?}, which is not a sequence of fields", show(&r.text), show(&text))),
    };
    fn walk(t: &[(u32, String)], pos: &mut usize, fs: &[Fld], fixed: bool, first: &[u32], last: &[u32]) -> Result<(), String> {
        let mut left: Vec<&Fld> = fs.iter().collect();
        let mut order = vec![];
        while !left.is_empty() {
            let (tag, val) = t.get(*pos).ok_or("fields are missing".to_string())?;
            let i = left.iter().position(|f| f.tag == *tag && f.val == *val).ok_or(format!("{}={} is written where one of {:?} is due", tag, val, left.iter().map(|f| f.tag).collect::<Vec<_>>()))?;
            if fixed && i != 0 {
                return Err(format!("{}={} is written before {} in a group instance", tag, val, left[0].tag));
            }
            let f = left.remove(i);
            order.push(*tag);
            *pos += 1;
            if let Some(g) = &f.grp {
                for inst in g {
                    walk(t, pos, inst, true, &[], &[])?;
                }
            }
        }
        let w: Vec<u32> = first.iter().copied().filter(|t| order.contains(t)).collect();
        if order[..w.len()] != w[..] {
            return Err(format!("order {:?}, {:?} must come first", order, w));
        }
        let w: Vec<u32> = last.iter().copied().filter(|t| order.contains(t)).collect();
        if order[order.len() - w.len()..] != w[..] {
            return Err(format!("order {:?}, {:?} must come last", order, w));
        }
        Ok(())
    }
    let mut pos = 0;
    let std_trailer = p.trailer.iter().all(|f| [93, 89, 10].contains(&f.tag));
    let res = walk(&toks, &mut pos, &p.header, false, &[8, 9, 35], &[])
        .and_then(|_| walk(&toks, &mut pos, &p.body, false, &[], &[]))
        .and_then(|_| walk(&toks, &mut pos, &p.trailer, false, &[], if std_trailer { &[10] } else { &[] }));
    match res {
        Err(e) => Outcome::Bad(format!("{:?} is serialised as {:?}: {}", show(&r.text), show(&text), e)),
        Ok(()) if pos != toks.len() => Outcome::Bad(format!("{:?} is serialised as {:?}: extra fields", show(&r.text), show(&text))),
        Ok(()) => pass(),
    }
}
pub const C01: Prop = Prop { gen: gen_rough, run: c01, shrink };
pub const C02: Prop = Prop { gen: gen_smooth, run: c02, shrink };
pub const C03: Prop = Prop { gen: gen_smooth, run: c03, shrink };
pub const C04: Prop = Prop { gen: gen_smooth, run: c04, shrink };
pub const C08: Prop = Prop { gen: gen_valid, run: c08, shrink };
pub const C22: Prop = Prop { gen: gen_rough, run: c22, shrink };
