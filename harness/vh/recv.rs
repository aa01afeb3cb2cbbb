//! C19: inbound texts pushed through the receiver of a set of sessions, with a recording application.
use super::msgs;
use super::spec::*;
use super::*;
use crate::application::Application;
use crate::message::{test_logon, Message};
use crate::network::SessionMap;
use crate::session::{Properties, Session, SessionId};
use std::sync::{Arc, Mutex};

struct Recorder(Mutex<Vec<(SessionId, Message)>>);
impl Application for Recorder {
    fn to_app(_: String) {}
    fn from_app(&self, id: &SessionId, sessions: &SessionMap, msg: Message) {
        self.0.lock().unwrap().push((id.clone(), msg));
        // a reply, although no session has a connection
        Session::sync_send_to_target(id, sessions, test_logon());
    }
}
const IDS: [(&str, &str, u64); 10] = [
    ("ME", "A", 0), ("ME", "B", 1), ("ME", "C", 2), ("X", "A", 3), ("ME", "D", 4), ("ME", "E", 5), ("ME", "F", 6), ("ME", "G", 7), ("ME", "H", 8), ("ME", "I", 9),
];
// case: one text per line, SOH written as ^
fn gen(r: &mut Rng, n: u64) -> String {
    let mut v = vec![];
    let k = 1 + r.below(9);
    let k = hot_num(r, 20, 100).unwrap_or(k as u64);
    let k = if r.chance(1, 400) { 300 + r.below(800) as u64 } else { k };
    // how many sessions there are
    let some = if r.chance(1, 3) { 1 + r.below(3) } else { IDS.len() };
    if some < IDS.len() {
        v.push(format!("@{}", some));
    }
    let k = k + v.len() as u64;
    while (v.len() as u64) < k {
        if k > 200 && v.len() > 20 {
            // a long sequence: texts of before again
            let again = v[1 + r.below(v.len() - 1)].clone();
            v.push(again);
            continue;
        }
        let (me, them, seed) = if r.chance(1, 8) { *r.pick(&IDS) } else { IDS[r.below(some)] };
        let sc = msgs::with_spec(seed, |sp, _, _| scopes(sp));
        let mut f = msgs::gen_fields(r, &sc);
        for (t, val) in [(8u32, "FIX.4.3"), (49, them), (56, me)] {
            let val = if r.chance(1, 15) { "Z" } else { val };
            match f.iter_mut().find(|x| x.0 == t) {
                Some(x) => x.1 = val.to_string(),
                None => {
                    let at = 3.min(f.len());
                    f.insert(at, (t, val.to_string()));
                }
            }
        }
        if !r.chance(1, 10) {
            f.retain(|x| ![50, 57, 142, 143].contains(&x.0));
        }
        if r.chance(1, 4) {
            msgs::mutate(r, &mut f, &sc);
        }
        if !f.is_empty() && r.chance(1, 6) {
            // a value a session protocol may look at
            let n = f.len();
            let i = r.below(n);
            f[i].1 = ["0", "1", "Y", "N", "-1", "4294967295", "00", "A", "5"][r.below(9)].to_string();
        }
        let mut t = msgs::text_of(&f);
        if r.chance(1, 6) {
            t = msgs::scar(r, t);
        }
        if r.chance(1, 20) {
            t = ["", "8=FIX.4.3", "\u{1}", "garbage", "10=000\u{1}", "8=FIX.4.3\u{1}49=A\u{1}56=ME\u{1}"][r.below(6)].to_string();
        }
        v.push(t.replace('\n', " ").replace('^', "'").replace('\u{1}', "^"));
        if r.chance(1, 6) {
            let again = v.last().unwrap().clone();
            v.push(again);
        } else if r.chance(1, 6) && !v[0].starts_with('@') {
            let again = r.pick(&v).clone();
            v.push(again);
        }
    }
    let _ = n;
    v.join("\n")
}
fn sessions() -> Option<Vec<(SessionId, Session)>> {
    let mut cfg = String::from("[Default]\nconnection_type=acceptor\nsocket_accept_port=1\nbegin_string=FIX.4.3\n");
    for (me, them, seed) in IDS {
        cfg += &format!("[Session]\nsender_comp_id={}\ntarget_comp_id={}\ndata_dictionary={}\n", me, them, super::config::dict_file(seed));
    }
    guarded(|| {
        let p = Properties::from_str(&cfg);
        p.session_ids().into_iter().map(|i| (i.clone(), Session::with_settings(i, &p))).collect::<Vec<_>>()
    })
    .ok()
}
thread_local! { static BASE: Option<Vec<(SessionId, Session)>> = sessions(); }
fn run(case: &str) -> Outcome {
    let (some, case) = match case.strip_prefix('@').and_then(|c| c.split_once('\n')) {
        Some((n, c)) => (n.parse().unwrap_or(IDS.len()).clamp(1, IDS.len()), c),
        None => (IDS.len(), case),
    };
    let base = match BASE.with(|b| b.clone()) {
        Some(b) if b.len() == IDS.len() => b.into_iter().filter(|(i, _)| IDS[..some].iter().any(|x| x.0 == i.sender_compid() && x.1 == i.target_compid())).collect::<Vec<_>>(),
        _ => return trivial(), // configuration or dictionary: C13, C15, C20
    };
    let texts: Vec<String> = case.split('\n').map(|l| l.replace('^', "\u{1}")).collect();
    let mut want: Vec<((&str, &str), msgs::Parsed, String)> = vec![];
    for t in &texts {
        let g = |k: &str| super::ids::first(t, k);
        if g("8") != "FIX.4.3" || ["50", "57", "142", "143"].iter().any(|k| !g(k).is_empty()) {
            continue;
        }
        // what the text calls the sender is the configured target
        if let Some((me, them, seed)) = IDS[..some].iter().find(|i| i.0 == g("56") && i.1 == g("49")) {
            if let Ok(p) = msgs::with_spec(*seed, |_, sc, _| msgs::parse(t, sc)) {
                want.push(((me, them), p, t.clone()));
            }
        }
    }
    let app = Arc::new(Recorder(Mutex::new(vec![])));
    let (tx, rx) = tokio::sync::mpsc::channel::<String>(4);
    crate::network::vh_receive(rx, Arc::clone(&app), SessionMap::from_iter(base));
    let mut sent = 0;
    let t0 = Instant::now();
    for t in &texts {
        let mut item = t.clone();
        loop {
            match tx.try_send(item) {
                Ok(()) => {
                    sent += 1;
                    break;
                }
                Err(tokio::sync::mpsc::error::TrySendError::Full(x)) => {
                    item = x;
                    std::thread::yield_now();
                    if t0.elapsed() > Duration::from_secs(8) {
                        return Outcome::Bad(format!("the receiver stopped taking texts after {:?}", show(&texts[..sent])));
                    }
                }
                Err(_) => break,
            }
        }
        if sent == 0 {
            break;
        }
    }
    drop(tx);
    while Arc::strong_count(&app) > 1 {
        if t0.elapsed() > Duration::from_secs(8) {
            return Outcome::Bad(format!("the receiver hangs on {:?}", show(&texts)));
        }
        std::thread::sleep(Duration::from_micros(50));
    }
    let got = app.0.lock().unwrap();
    for (i, ((me, them), p, t)) in want.iter().enumerate() {
        match got.get(i) {
            None => return Outcome::Bad(format!("of {:?} only {} valid texts reached the application, {:?} and later ones did not", show(&texts), i, show(&[t.clone()]))),
            Some((id, m)) => {
                if id.sender_compid() != me || id.target_compid() != them {
                    return Outcome::Bad(format!("of {:?} the text {:?} was handed on for session {}", show(&texts), show(&[t.clone()]), id));
                }
                if let Err(e) = msgs::compare(m, p) {
                    return Outcome::Bad(format!("of {:?} delivery {} is not the text {:?}: {}", show(&texts), i, show(&[t.clone()]), e));
                }
            }
        }
    }
    if got.len() != want.len() {
        return Outcome::Bad(format!("{} deliveries for {} valid texts among {:?}", got.len(), want.len(), show(&texts)));
    }
    if want.is_empty() { trivial() } else { pass() }
}
fn show(v: &[String]) -> Vec<String> {
    v.iter().map(|t| t.replace('\u{1}', "|")).collect()
}
fn shrink(case: &str) -> Vec<String> {
    let l: Vec<&str> = case.split('\n').collect();
    (0..l.len())
        .filter(|_| l.len() > 1)
        .map(|i| {
            let mut g = l.clone();
            g.remove(i);
            g.join("\n")
        })
        .collect()
}
pub const C19: Prop = Prop { gen, run, shrink };
