//! C10 (identity from raw text) and C11 (normal form, equality, text) of session identities.
use super::*;
use crate::message::Message;
use crate::session::{SessionId, SessionIdBuilder};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

pub fn first<'a>(text: &'a str, tag: &str) -> &'a str {
    let mut rest = text;
    loop {
        let (f, next) = match rest.find('\u{1}') {
            Some(i) => (&rest[..i], Some(&rest[i + 1..])),
            None => (rest, None),
        };
        if f.len() > tag.len() && f.starts_with(tag) && f.as_bytes()[tag.len()] == b'=' {
            return &f[tag.len() + 1..];
        }
        match next {
            Some(n) => rest = n,
            None => return "",
        }
    }
}
fn opt(s: &str) -> Option<String> {
    if s.is_empty() {
        None
    } else {
        Some(s.to_string())
    }
}
type Parts = (String, String, Option<String>, Option<String>, String, Option<String>, Option<String>, Option<String>);
fn parts(i: &SessionId) -> Parts {
    (
        i.begin_string().clone(),
        i.sender_compid().clone(),
        i.sender_subid().clone(),
        i.sender_locationid().clone(),
        i.target_compid().clone(),
        i.target_subid().clone(),
        i.target_locationid().clone(),
        i.session_qualifier().clone(),
    )
}
fn text(p: &Parts) -> String {
    let o = |x: &Option<String>| x.as_ref().map(|s| format!("/{}", s)).unwrap_or_default();
    format!("{}:{}{}{}->{}{}{}", p.0, p.1, o(&p.2), o(&p.3), p.4, o(&p.5), o(&p.6))
}
fn check_text(i: &SessionId) -> Result<(), String> {
    let p = parts(i);
    if i.to_string() != text(&p) || *i.id() != text(&p) {
        return Err(format!("identity {:?} prints as {:?} (id {:?}) instead of {:?}", p, i.to_string(), i.id(), text(&p)));
    }
    Ok(())
}
fn gen10(r: &mut Rng, n: u64) -> String {
    if n == 0 {
        return String::new();
    }
    let tags = ["8", "9", "35", "49", "50", "142", "56", "57", "143", "108", "149", "150", "1142", "18", "56 ", "049", "4", "5", "", "1", "4949", "+49", "58"];
    let k = if r.chance(1, 60) { r.below(400) } else { r.below(12) };
    let mut s = String::new();
    for i in 0..k {
        if i > 0 || r.chance(1, 15) {
            s.push('\u{1}');
        }
        match hot_num(r, 6, u64::MAX) {
            Some(n) => s.push_str(&n.to_string()),
            None => s.push_str(tags[r.below(tags.len())]),
        }
        if !r.chance(1, 10) {
            s.push('=');
        }
        if let Some(t) = hot_str(r, 4, "A") {
            s.push_str(&t);
            continue;
        }
        s.push_str(["A", "FIX.4.3", "", "49=X", "8=Y", "56=", "é€", "a=b", "BANZAI", "=", "57", " "][r.below(12)]);
    }
    if r.chance(2, 3) {
        s.push('\u{1}');
    }
    s
}
fn run10(case: &str) -> Outcome {
    let f = match guarded(|| Message::get_session_id(case)) {
        Ok(i) => i,
        Err(p) => return Outcome::Bad(format!("the identity of {:?} panicked: {}", case, p)),
    };
    let b = match guarded(|| Message::get_reverse_session_id(case)) {
        Ok(i) => i,
        Err(p) => return Outcome::Bad(format!("the reverse identity of {:?} panicked: {}", case, p)),
    };
    let g = |t: &str| first(case, t).to_string();
    let want_f = (g("8"), g("49"), opt(&g("50")), opt(&g("142")), g("56"), opt(&g("57")), opt(&g("143")), None);
    let want_b = (g("8"), g("56"), opt(&g("57")), opt(&g("143")), g("49"), opt(&g("50")), opt(&g("142")), None);
    for (got, want, name) in [(&f, &want_f, "identity"), (&b, &want_b, "reverse identity")] {
        if parts(got) != *want {
            return Outcome::Bad(format!("the {} of {:?} is {:?} instead of {:?}", name, case, parts(got), want));
        }
    }
    if case.contains('=') { pass() } else { trivial() }
}
fn shrink_chars(case: &str) -> Vec<String> {
    let fs: Vec<&str> = case.split_inclusive('\u{1}').collect();
    let mut v = vec![];
    for i in 0..fs.len() {
        let mut g = fs.clone();
        g.remove(i);
        v.push(g.concat());
    }
    v
}
// one line per identity: how it is made, then its parts separated by '|' (- is absent)
fn word(r: &mut Rng, optional: bool) -> String {
    let w = ["A", "B", "FIX.4.3", "", "A/B", "->", "A:", "é", " ", "B->A", "/", "FIX.4.4", "-", "1"];
    if optional && r.chance(1, 3) {
        "~".to_string()
    } else {
        let x = w[r.below(w.len())].to_string();
        match hot_str(r, 4, &x) {
            Some(t) => t.replace('\n', " ").replace('\r', " ").replace('|', "/"),
            None => x,
        }
    }
}
fn gen11(r: &mut Rng, _n: u64) -> String {
    let mut v = vec![];
    let mut last: Vec<String> = vec![];
    for i in 0..2 + r.below(3) {
        let mut p: Vec<String> = vec![];
        for k in 0..8 {
            if i > 0 && r.chance(3, 4) {
                p.push(last[k].clone());
            } else {
                p.push(word(r, ![0, 1, 4].contains(&k)));
            }
        }
        last = p.clone();
        let how = ["b", "n", "m", "d"][r.below(4)];
        v.push(format!("{}|{}", how, p.join("|")));
    }
    v.join("\n")
}
const KEYS: [&str; 7] = ["begin_string", "sender_comp_id", "sender_sub_id", "sender_location_id", "target_comp_id", "target_sub_id", "target_location_id"];
fn make(line: &str) -> Option<(SessionId, Parts)> {
    let w: Vec<String> = line.split('|').map(|s| s.to_string()).collect();
    if w.len() != 9 {
        return None;
    }
    let o = |i: usize| if w[i] == "~" { None } else { Some(w[i].clone()) };
    let norm = |i: usize| o(i).filter(|s| !s.is_empty());
    let mut want: Parts = (w[1].clone(), w[2].clone(), norm(3), norm(4), w[5].clone(), norm(6), norm(7), o(8));
    let id = match w[0].as_str() {
        "b" | "n" => {
            let mut b = if w[0] == "b" {
                let mut b = SessionIdBuilder::default();
                b.begin_string(w[1].as_str()).sender_compid(w[2].clone()).target_compid(w[5].as_str());
                b
            } else {
                SessionIdBuilder::new(w[1].as_str(), w[2].as_str(), w[5].as_str())
            };
            if let Some(x) = o(3) {
                b.sender_subid(x);
            }
            if let Some(x) = o(4) {
                b.sender_locationid(x);
            }
            if let Some(x) = o(6) {
                b.target_subid(x);
            }
            if let Some(x) = o(7) {
                b.target_locationid(x);
            }
            if let Some(x) = o(8) {
                b.session_qualifier(x);
            }
            b.build().ok()?
        }
        // from a configuration section: "m" from the section itself, "d" partly from the defaults
        how => {
            want.7 = None;
            let (mut sect, mut defs) = (HashMap::new(), HashMap::new());
            let mut h = 7usize;
            for (k, i) in KEYS.iter().zip([1, 2, 3, 4, 5, 6, 7]) {
                for c in line.bytes() {
                    h = h.wrapping_mul(31).wrapping_add(c as usize);
                }
                if let Some(x) = o(i) {
                    if how == "m" || h % 3 != 0 {
                        sect.insert(k.to_string(), x);
                        defs.insert(k.to_string(), format!("other{}", i));
                    } else {
                        defs.insert(k.to_string(), x);
                    }
                }
            }
            if o(8).is_some() {
                defs.insert("unrelated".to_string(), "x".to_string());
            }
            SessionId::from_map(&sect, &defs)
        }
    };
    Some((id, want))
}
fn h(i: &SessionId) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    i.hash(&mut s);
    s.finish()
}
fn run11(case: &str) -> Outcome {
    let mut ids = vec![];
    for l in case.lines() {
        match guarded(|| make(l)) {
            Err(p) => return Outcome::Bad(format!("building the identity {:?} panicked: {}", l, p)),
            Ok(None) => return trivial(),
            Ok(Some((id, want))) => {
                if parts(&id) != want {
                    return Outcome::Bad(format!("the identity built from {:?} has the parts {:?}", l, parts(&id)));
                }
                if let Err(e) = check_text(&id) {
                    return Outcome::Bad(e);
                }
                ids.push((id, want));
            }
        }
    }
    for (a, pa) in &ids {
        for (b, pb) in &ids {
            if (a == b) != (pa == pb) {
                return Outcome::Bad(format!("identities with parts {:?} and {:?} compare {}", pa, pb, if a == b { "equal" } else { "different" }));
            }
            if a == b && h(a) != h(b) {
                return Outcome::Bad(format!("equal identities {:?} hash differently", pa));
            }
        }
        let mut m = HashMap::new();
        for (k, (b, _)) in ids.iter().enumerate() {
            m.insert(b.clone(), k);
        }
        if m.get(a).is_none() {
            return Outcome::Bad(format!("an identity {:?} stored in a map is not found", pa));
        }
    }
    pass()
}
fn shrink_lines(case: &str) -> Vec<String> {
    let l: Vec<&str> = case.lines().collect();
    (0..l.len())
        .map(|i| {
            let mut g = l.clone();
            g.remove(i);
            g.join("\n")
        })
        .filter(|s| !s.is_empty())
        .collect()
}
pub const C10: Prop = Prop { gen: gen10, run: run10, shrink: shrink_chars };
pub const C11: Prop = Prop { gen: gen11, run: run11, shrink: shrink_lines };
