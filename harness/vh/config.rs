//! C12, C13: configuration texts; C20: the sessions made from them.
use super::*;
use crate::session::{Properties, SessionId};
use std::collections::{BTreeMap, BTreeSet};

type Sect = BTreeMap<String, String>;
const KEYS: [&str; 18] = [
    "begin_string", "sender_comp_id", "sender_sub_id", "sender_location_id", "target_comp_id", "target_sub_id", "target_location_id",
    "connection_type", "socket_accept_port", "socket_connect_host", "socket_connect_port", "heartbeat_interval", "reset_on_logon",
    "reset_on_logout", "reset_on_disconnect", "data_dictionary", "session_qualifier", "extra key",
];
struct Cfg {
    text: String,
    order: Vec<(bool, Vec<(String, String)>)>, // is default, lines
}
fn scratch() -> String {
    std::env::var("VH_SCRATCH").unwrap_or("/tmp".to_string())
}
/// text that can be a key or a value of one line
fn plain(s: &str) -> String {
    s.chars().filter(|c| !['\n', '\r', '"'].contains(c)).collect()
}
fn odd_key(r: &mut Rng) -> String {
    let k = ["#key", "; key", "//key", "'key'", "k.e.y", "k e y", "KEY", "-", "", "key[]", "extra", "Begin_String", "begin_string ", "!x", "@", "%", "default", "Default", "\u{e9}"][r.below(19)];
    let k = hot_str(r, 3, k).unwrap_or(k.to_string());
    let k: String = plain(&k).chars().filter(|c| *c != '=').collect();
    // a line that begins with a bracket is a section, and the named settings are chosen elsewhere
    if k.trim().starts_with('[') || KEYS.contains(&k.as_str()) { "other".to_string() } else { k }
}
fn val(r: &mut Rng, k: &str, clean: bool) -> String {
    let odd = !clean && r.chance(1, 10);
    match k {
        "begin_string" => if odd { ["FIX.4.1", "FIX.4.20", "FIX.4.2 ", "fix.4.2", "FIX.4.", "FIX.4.5", "FIX.4.4SP1", "", "FIX.5.0", "FIXT.1.1", "xFIX.4.3"][r.below(11)].to_string() } else { ["FIX.4.2", "FIX.4.3", "FIX.4.4"][r.below(3)].to_string() },
        "sender_comp_id" => ["S", "SENDER", "B NK"][r.below(3)].to_string(),
        "target_comp_id" => ["T", "TARGET1", "TARGET2", "T3", "x=y", "T4", "T5"][r.below(7)].to_string(),
        "sender_sub_id" | "sender_location_id" | "target_sub_id" | "target_location_id" => ["", "u", "v", "w"][r.below(4)].to_string(),
        "connection_type" => ["acceptor", "initiator", "acceptor", "acceptor"][r.below(4)].to_string(),
        "socket_accept_port" | "socket_connect_port" => (1 + r.below(65535)).to_string(),
        "socket_connect_host" => "localhost".to_string(),
        "heartbeat_interval" if r.chance(1, 4) => match hot_num(r, 2, u32::MAX as u64) {
            Some(n) => n.to_string(),
            None => ["65535", "65536", "2147483648", "4294967295", "0", "30", "86400", "007", "+5"][r.below(9)].to_string(),
        },
        "heartbeat_interval" => if odd { ["", "x", "-1", "30s", "4294967296"][r.below(5)].to_string() } else { r.below(100).to_string() },
        "reset_on_logon" | "reset_on_logout" | "reset_on_disconnect" => if odd { ["Y", "TRUE", "1", ""][r.below(4)].to_string() } else { ["true", "false"][r.below(2)].to_string() },
        "data_dictionary" => format!("{}/dict_{}.xml", scratch(), r.below(6)),
        _ => {
            let v = ["q", "12", "true", "", "a=b", "é", " 7", "7 ", "  ", "a b", "'x'", "a#b", "a;b", "[x]", "#", "a,b", "\\n", "Default", "x\u{a0}"][r.below(19)];
            let v = hot_str(r, 3, v).unwrap_or(v.to_string());
            plain(&v)
        }
    }
}
fn write_line(r: &mut Rng, k: &str, v: &str) -> String {
    // a blank at an end of a key or value only survives inside quotes
    let q = |r: &mut Rng, s: &str| if r.chance(1, 2) || s.trim() != s { format!("\"{}\"", s) } else { s.to_string() };
    let sp = |r: &mut Rng| ["", " ", "\t", "  "][r.below(4)];
    let kk = if r.chance(1, 8) || k.trim() != k { q(r, k) } else { k.to_string() };
    format!("{}{}{}={}{}{}", sp(r), kk, sp(r), sp(r), q(r, v), sp(r))
}
/// `clean`: a configuration that must load
fn gen_cfg(r: &mut Rng, clean: bool) -> String {
    let mut sects: Vec<(bool, Vec<(String, String)>)> = vec![];
    let ns = if r.chance(1, 50) { 10 + r.below(60) } else { r.below(5) };
    let ns = hot_num(r, 12, 80).unwrap_or(ns as u64) as usize;
    let initiator = r.chance(1, 4);
    for i in 0..ns + 1 {
        let mut l: Vec<(String, String)> = vec![];
        for k in KEYS {
            let p = match (i == 0, k) {
                (true, "connection_type") => 10,
                (false, "connection_type") => 1,
                (true, "target_comp_id") => 3,
                (false, "target_comp_id") => 8,
                (true, "data_dictionary") => 9,
                (true, "begin_string") | (true, "sender_comp_id") => 7,
                (true, "socket_accept_port") => 7,
                (true, "socket_connect_host") | (true, "socket_connect_port") => 6,
                (false, "begin_string") | (false, "sender_comp_id") => 4,
                _ => 3,
            };
            if r.chance(p, 10) {
                let mut v = val(r, k, clean);
                if k == "connection_type" && i == 0 {
                    v = if initiator { "initiator".into() } else { "acceptor".into() };
                }
                l.push((k.to_string(), v));
                if r.chance(1, 12) {
                    let mut v = val(r, k, clean);
                    if k == "connection_type" {
                        v = "acceptor".into();
                    }
                    l.push((k.to_string(), v));
                }
            }
        }
        while r.chance(1, 3) {
            let k = odd_key(r);
            let v = val(r, "", clean);
            l.push((k, v));
        }
        r.shuffle(&mut l);
        sects.push((i == 0, l));
    }
    if clean {
        let d = &mut sects[0].1;
        for k in ["begin_string", "sender_comp_id", "target_comp_id", "socket_accept_port", "socket_connect_host", "socket_connect_port", "data_dictionary"] {
            if !d.iter().any(|x| x.0 == k) {
                d.push((k.to_string(), val(r, k, true)));
            }
        }
        let mut seen = BTreeSet::new();
        let mut i = 1;
        while i < sects.len() {
            let t = format!("TGT{}", r.below(1000));
            sects[i].1.retain(|x| x.0 != "target_comp_id");
            sects[i].1.push(("target_comp_id".to_string(), t.clone()));
            if seen.insert(t) {
                i += 1;
            } else {
                sects.remove(i);
            }
        }
    } else {
        match r.below(12) {
            0 => {
                let i = r.below(sects.len());
                let s = sects.remove(i);
                sects.push(s);
            }
            1 => sects.retain(|s| !s.0),
            2 => {
                let s = sects[0].clone();
                let i = 1 + r.below(sects.len());
                sects.insert(i, s);
            }
            3 if sects.len() > 1 => {
                let i = 1 + r.below(sects.len() - 1);
                let s = sects[i].clone();
                sects.push(s);
            }
            4 => {
                if let Some(x) = sects[0].1.iter_mut().find(|x| x.0 == "connection_type") {
                    x.1 = ["acceptr", "", "both", "connector"][r.below(4)].to_string();
                }
            }
            5 => sects[0].1.retain(|x| x.0 != "connection_type"),
            6 => {
                let k = KEYS[r.below(11)];
                for s in sects.iter_mut() {
                    s.1.retain(|x| x.0 != k);
                }
            }
            _ => {}
        }
    }
    let nl = if r.chance(1, 6) { "\r\n" } else { "\n" };
    let mut t = String::new();
    if r.chance(1, 3) {
        t += nl;
    }
    for (d, l) in &sects {
        let h = if *d { "[Default]" } else { ["[Session]", "[Session1]", "[SESSION]", "[X]", "[ Session ]", "[]", "[a=b]", "[default]", "[Session]"][if r.chance(1, 3) { r.below(9) } else { 0 }] };
        t += &format!("{}{}{}", ["", " ", "   "][r.below(3)], h, nl);
        for (k, v) in l {
            t += &write_line(r, k, v);
            t += nl;
            if r.chance(1, 10) {
                t += ["", "  "][r.below(2)];
                t += nl;
            }
        }
    }
    if t.ends_with(nl) && r.chance(1, 4) {
        t.truncate(t.len() - nl.len());
    }
    t
}
fn strip(s: &str) -> String {
    let s = s.trim();
    let s = s.strip_prefix('"').unwrap_or(s);
    s.strip_suffix('"').unwrap_or(s).to_string()
}
fn read_cfg(text: &str) -> Cfg {
    let mut order: Vec<(bool, Vec<(String, String)>)> = vec![];
    for l in text.split('\n') {
        let l = l.trim();
        if l.starts_with('[') {
            order.push((l == "[Default]", vec![]));
        } else if let (Some((k, v)), Some(s)) = (l.split_once('='), order.last_mut()) {
            s.1.push((strip(k), strip(v)));
        }
    }
    Cfg { text: text.to_string(), order }
}
fn sect_map(l: &[(String, String)]) -> Sect {
    l.iter().cloned().collect()
}
type Id = Vec<Option<String>>;
fn ident(s: &Sect, d: &Sect) -> Id {
    let g = |k: &str| s.get(k).or(d.get(k)).cloned();
    let n = |k: &str| g(k).filter(|x| !x.is_empty());
    vec![g("begin_string"), g("sender_comp_id"), n("sender_sub_id"), n("sender_location_id"), g("target_comp_id"), n("target_sub_id"), n("target_location_id")]
}
fn real_ident(i: &SessionId) -> Id {
    vec![
        Some(i.begin_string().clone()), Some(i.sender_compid().clone()), i.sender_subid().clone(), i.sender_locationid().clone(),
        Some(i.target_compid().clone()), i.target_subid().clone(), i.target_locationid().clone(),
    ]
}
struct Loaded {
    default: Sect,
    sessions: Vec<(Id, Sect)>,
}
/// None: must be refused
fn load(c: &Cfg) -> Result<Loaded, String> {
    if c.order.iter().filter(|s| s.0).count() != 1 {
        return Err("not exactly one default section".into());
    }
    if !c.order[0].0 {
        return Err("a section before the default section".into());
    }
    let default = sect_map(&c.order[0].1);
    let mut sessions: Vec<(Id, Sect)> = vec![];
    let ct = default.get("connection_type").cloned().unwrap_or_default();
    if ct != "acceptor" && ct != "initiator" {
        return Err(format!("connection type {:?}", ct));
    }
    for (_, l) in &c.order[1..] {
        let s = sect_map(l);
        let id = ident(&s, &default);
        if sessions.iter().any(|x| x.0 == id) {
            return Err(format!("two sections with the identity {:?}", id));
        }
        let g = |k: &str| s.get(k).or(default.get(k));
        if !["FIX.4.2", "FIX.4.3", "FIX.4.4"].contains(&g("begin_string").map(|x| x.as_str()).unwrap_or("")) {
            return Err("a session without a known begin string".into());
        }
        let need: &[&str] = if ct == "acceptor" { &["sender_comp_id", "target_comp_id", "socket_accept_port"] } else { &["sender_comp_id", "target_comp_id", "socket_connect_host", "socket_connect_port"] };
        for k in need {
            if g(k).is_none() {
                return Err(format!("a session without {}", k));
            }
        }
        sessions.push((id, s));
    }
    Ok(Loaded { default, sessions })
}
fn show(t: &str) -> String {
    t.replace('\r', "").replace('\n', "; ")
}
fn gen13(r: &mut Rng, n: u64) -> String {
    gen_cfg(r, n % 3 == 0)
}
fn run13(case: &str) -> Outcome {
    let c = read_cfg(case);
    let want = load(&c);
    let real = guarded(|| Properties::from_str(&c.text));
    match (want, real) {
        (Err(_), Err(_)) => pass(),
        (Err(y), Ok(_)) => Outcome::Bad(format!("a configuration with {} was loaded: {}", y, show(case))),
        (Ok(_), Err(p)) => Outcome::Bad(format!("a complete configuration was refused with {:?}: {}", p, show(case))),
        (Ok(w), Ok(p)) => {
            let mut ids = p.session_ids();
            if ids.len() != w.sessions.len() {
                return Outcome::Bad(format!("{} sessions are loaded from {} sections: {}", ids.len(), w.sessions.len(), show(case)));
            }
            for (id, s) in &w.sessions {
                let i = match ids.iter().position(|i| real_ident(i) == *id) {
                    Some(i) => ids.remove(i),
                    None => return Outcome::Bad(format!("no session with the identity {:?} in {}", id, show(case))),
                };
                for k in KEYS.iter().copied().chain(["key", "\"extra key\"", "Session", ""]).chain(s.keys().map(|k| k.as_str())) {
                    let got = p.get_property(i, k).cloned();
                    if got.as_ref() != s.get(k) {
                        return Outcome::Bad(format!("setting {:?} of session {:?} is {:?}, its section says {:?}: {}", k, id, got, s.get(k), show(case)));
                    }
                }
            }
            let got = p.get_property(&SessionId::default(), "connection_type").cloned();
            for k in KEYS.iter().copied().chain(w.default.keys().map(|k| k.as_str())) {
                let d = p.get_default_config::<String>(k).ok();
                if d.as_ref() != w.default.get(k) {
                    return Outcome::Bad(format!("default setting {:?} is {:?}, the section says {:?}: {}", k, d, w.default.get(k), show(case)));
                }
            }
            let _ = got;
            pass()
        }
    }
}
fn gen12(r: &mut Rng, _n: u64) -> String {
    let mut t = gen_cfg(r, true);
    // values of every kind in both places
    let nl = if t.contains("\r\n") { "\r\n" } else { "\n" };
    let mut out = String::new();
    for l in t.split(nl) {
        out += l;
        out += nl;
        if l.trim().starts_with('[') {
            for k in ["k1", "k2", "k3", "k4"] {
                if r.chance(1, 2) {
                    let v = ["7", "-3", "true", "x", "", "1.5", "300", "70000", "é", "+5", "4294967296", "09", " 7", "7 ", " true", "True", "YES", "0x10", "1e3", "1_000", "-0", "\u{663}", "18446744073709551616", "a", "7,5", "0", "30"][r.below(27)];
                    let v = plain(&hot_str(r, 4, v).unwrap_or(v.to_string()));
                    out += &format!("{}=\"{}\"{}", k, v, nl);
                }
            }
        }
    }
    t = out;
    t
}
fn cmp<T: std::str::FromStr + std::fmt::Debug>(p: &Properties, sid: &SessionId, own: Option<&String>, def: Option<&String>, k: &str) -> Result<(), String>
where
    <T as std::str::FromStr>::Err: std::fmt::Debug,
{
    let show = |r: Option<Result<T, ()>>| format!("{:?}", r);
    let val = |o: Option<&String>| o.map(|s| s.parse::<T>().map_err(|_| ()));
    let err = |r: Result<T, crate::quickfix_errors::ConfigErr>| match r {
        Ok(v) => show(Some(Ok(v))),
        Err(crate::quickfix_errors::ConfigErr::NotFound(_)) => show(None),
        Err(_) => show(Some(Err(()))),
    };
    let tn = std::any::type_name::<T>();
    let a = match guarded(|| p.get_optional_config::<T>(sid, k)) {
        Ok(Some(v)) => show(Some(Ok(v))),
        Ok(None) => show(None),
        Err(_) => show(Some(Err(()))),
    };
    let w = show(val(own.or(def)));
    if a != w {
        return Err(format!("optional lookup of {} as {} gives {}, the texts are {:?} / {:?}", k, tn, a, own, def));
    }
    let a = guarded(|| err(p.get_or_default_config::<T>(sid, k))).unwrap_or("panic".into());
    if a != w {
        return Err(format!("or-default lookup of {} as {} gives {}, the texts are {:?} / {:?}", k, tn, a, own, def));
    }
    let a = guarded(|| err(p.get_config::<T>(sid, k))).unwrap_or("panic".into());
    if a != show(val(own)) {
        return Err(format!("session-only lookup of {} as {} gives {}, the text is {:?}", k, tn, a, own));
    }
    let a = guarded(|| err(p.get_default_config::<T>(k))).unwrap_or("panic".into());
    if a != show(val(def)) {
        return Err(format!("default-only lookup of {} as {} gives {}, the text is {:?}", k, tn, a, def));
    }
    if p.get_property(sid, k) != own {
        return Err(format!("the property {} is {:?}, the section says {:?}", k, p.get_property(sid, k), own));
    }
    Ok(())
}
fn run12(case: &str) -> Outcome {
    let c = read_cfg(case);
    let w = match load(&c) {
        Ok(w) => w,
        Err(_) => return trivial(),
    };
    let p = match guarded(|| Properties::from_str(&c.text)) {
        Ok(p) => p,
        Err(_) => return trivial(), // C13
    };
    let mut ids: Vec<SessionId> = p.session_ids().into_iter().cloned().collect();
    let absent = crate::session::SessionIdBuilder::new("FIX.4.3", "no", "body").build().unwrap();
    ids.push(absent);
    for i in &ids {
        let own = w.sessions.iter().find(|s| s.0 == real_ident(i)).map(|s| s.1.clone()).unwrap_or_default();
        for k in KEYS.iter().copied().chain(["k1", "k2", "k3", "k4", "nothing"]) {
            let (o, d) = (own.get(k), w.default.get(k));
            let r = cmp::<String>(&p, i, o, d, k)
                .and_then(|_| cmp::<u16>(&p, i, o, d, k))
                .and_then(|_| cmp::<u32>(&p, i, o, d, k))
                .and_then(|_| cmp::<bool>(&p, i, o, d, k))
                .and_then(|_| cmp::<i64>(&p, i, o, d, k))
                .and_then(|_| cmp::<u8>(&p, i, o, d, k))
                .and_then(|_| cmp::<f64>(&p, i, o, d, k))
                .and_then(|_| cmp::<char>(&p, i, o, d, k));
            if let Err(e) = r {
                return Outcome::Bad(format!("session {}: {}; configuration: {}", i, e, show(case)));
            }
        }
    }
    pass()
}
fn shrink(case: &str) -> Vec<String> {
    let l: Vec<&str> = case.split('\n').collect();
    (0..l.len())
        .map(|i| {
            let mut g = l.clone();
            g.remove(i);
            g.join("\n")
        })
        .collect()
}
pub const C12: Prop = Prop { gen: gen12, run: run12, shrink };
pub const C13: Prop = Prop { gen: gen13, run: run13, shrink };

pub fn dict_file(seed: u64) -> String {
    let p = format!("{}/dict_{}.xml", scratch(), seed);
    if !std::path::Path::new(&p).exists() {
        std::fs::write(&p, super::spec::gen_spec(seed).xml()).unwrap();
    }
    p
}
#[cfg(vh_sess)]
mod c20 {
    use super::*;
    fn gen20(r: &mut Rng, n: u64) -> String {
        let t = gen_cfg(r, true);
        if n % 40 == 3 {
            // now and then without dictionary files: the bundled one
            t.lines().filter(|l| !l.contains("data_dictionary")).collect::<Vec<_>>().join("\n")
        } else {
            t
        }
    }
    fn run20(case: &str) -> Outcome {
        for i in 0..6 {
            dict_file(i);
        }
        let c = read_cfg(case);
        let w = match load(&c) {
            Ok(w) => w,
            Err(_) => return trivial(),
        };
        let p = match guarded(|| Properties::from_str(&c.text)) {
            Ok(p) => p,
            Err(_) => return trivial(), // C13
        };
        let m = match guarded(|| crate::network::vh_create_sessions(&p)) {
            Ok(m) => m,
            Err(e) => return Outcome::Bad(format!("creating the sessions panicked: {} for {}", e, show(case))),
        };
        if m.len() != w.sessions.len() {
            return Outcome::Bad(format!("{} sessions run for {} sections: {}", m.len(), w.sessions.len(), show(case)));
        }
        for (id, own) in &w.sessions {
            let (k, s) = match m.iter().find(|x| real_ident(x.0) == *id) {
                Some(x) => x,
                None => return Outcome::Bad(format!("no session runs under {:?}: {}", id, show(case))),
            };
            if s.session_id != *k {
                return Outcome::Bad(format!("the session under {} calls itself {}: {}", k, s.session_id, show(case)));
            }
            let g = |k: &str| own.get(k).or(w.default.get(k)).cloned();
            let f = |k: &str| g(k).map(|x| x == "true").unwrap_or(true);
            let want = (g("heartbeat_interval").map(|x| x.parse().unwrap()).unwrap_or(30u32), f("reset_on_logon"), f("reset_on_logout"), f("reset_on_disconnect"), false, 0usize, true);
            let got = s.vh_view();
            if got != want {
                return Outcome::Bad(format!("session {} has (heartbeat, resets on logon, logout, disconnect, active, queued, unconnected) = {:?} instead of {:?}: {}", k, got, want, show(case)));
            }
            let file = g("data_dictionary").unwrap_or("resources/FIX43.xml".to_string());
            let dd = match guarded(|| crate::data_dictionary::DataDictionary::from_xml(&file)) {
                Ok(d) => d,
                Err(_) => return trivial(),
            };
            let view = |d: &crate::data_dictionary::DataDictionary| {
                let mut v = vec![];
                for t in ["header", "trailer", "A", "W", "E", "AE", "D", "0"] {
                    let mut f: Vec<u32> = d.get_msg_fields(t).map(|s| s.iter().copied().collect()).unwrap_or_default();
                    f.sort();
                    let mut q: Vec<u32> = d.get_msg_required_field(t).map(|s| s.iter().copied().collect()).unwrap_or_default();
                    q.sort();
                    v.push((f, q));
                }
                v
            };
            if view(&dd) != view(s.data_dictionary()) {
                return Outcome::Bad(format!("session {} does not use the dictionary {}: {}", k, file, show(case)));
            }
        }
        if w.sessions.is_empty() { trivial() } else { pass() }
    }
    pub const C20: Prop = Prop { gen: gen20, run: run20, shrink };
}
#[cfg(vh_sess)]
pub use c20::C20;
