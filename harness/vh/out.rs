//! C21: messages sent to sessions, against the bytes their connections get.
use super::*;
use crate::application::Application;
use crate::message::{Message, StringField};
use crate::network::{SessionMap, SocketAcceptor};
use crate::session::{Properties, Session, SessionId};
use std::io::{Read, Write as _};
use std::net::{TcpListener as StdListener, TcpStream as StdStream};
use std::os::fd::AsRawFd;
use std::sync::{Arc, Mutex};

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, v: *const i32, len: u32) -> i32;
}
fn small_buffer(fd: i32, name: i32) {
    let v = [4096i32];
    unsafe {
        setsockopt(fd, 1, name, v.as_ptr(), 4);
    }
}
// sessions of the direct mode: who of them has which connection (none: 9)
const CONN: [usize; 4] = [0, 0, 1, 9];
fn id(k: usize) -> SessionId {
    Message::get_session_id(&format!("8=FIX.4.3\u{1}49=ME\u{1}56=T{}\u{1}", k))
}
fn message(serial: usize, len: usize, ch: char) -> Message {
    let mut m = Message::new();
    m.header_mut().set_field(StringField::new(8, "FIX.4.3"));
    m.header_mut().set_field(StringField::new(9, "5"));
    m.header_mut().set_field(StringField::new(35, "B"));
    m.set_field(StringField::new(58, &format!("{}.{}", serial, ch.to_string().repeat(len))));
    m.set_field(StringField::new(11, &serial.to_string()));
    m.trailer_mut().set_field(StringField::new(10, "000"));
    m
}
// case: mode (d direct, e engine), milliseconds the peer waits before reading, then thread.session.length.character per message
fn gen(r: &mut Rng, n: u64) -> String {
    let engine = n > 0 && r.chance(1, 5);
    let threads = if r.chance(1, 3) { 1 + r.below(3) } else { 1 };
    let mut v = vec![];
    let big = r.chance(1, 6);
    for _ in 0..r.below(14) {
        let len = if big && r.chance(1, 2) { 2000 + r.below(60000) } else { r.below(40) };
        let len = hot_num(r, 3, 120_000).unwrap_or(len as u64) as usize;
        let c = *r.pick(&['x', 'y', '\u{e9}', '\u{20ac}', ' ', '=']);
        let c = hot_str(r, 3, "").and_then(|s| s.chars().next()).unwrap_or(c);
        v.push(format!("{}.{}.{}.{}", r.below(threads), r.below(5), len, c as u32));
        if r.chance(1, 5) {
            let again = r.pick(&v).clone();
            v.push(again);
        }
    }
    // the same message again and again
    if threads == 1 && r.chance(1, 4) && !v.is_empty() {
        let m = v[0].clone();
        for x in v.iter_mut() {
            if r.chance(2, 3) {
                *x = m.clone();
            }
        }
    }
    let same = if threads == 1 && r.chance(1, 3) { "s" } else { "" };
    format!("{}{}|{}|{}", if engine { "e" } else { "d" }, same, if r.chance(1, 4) { r.below(6) } else { 0 }, v.join(","))
}
fn read_all(mut s: StdStream, wait: u64, upto: usize) -> Result<Vec<u8>, String> {
    std::thread::sleep(Duration::from_millis(wait));
    s.set_read_timeout(Some(Duration::from_secs(6))).map_err(|e| e.to_string())?;
    let mut got = vec![];
    let mut b = [0u8; 3000];
    while got.len() < upto {
        match s.read(&mut b) {
            Ok(0) => break,
            Ok(n) => got.extend_from_slice(&b[..n]),
            Err(_) => return Ok(got),
        }
    }
    Ok(got)
}
fn run(case: &str) -> Outcome {
    let w: Vec<&str> = case.split('|').collect();
    let wait: u64 = w[1].parse().unwrap_or(0);
    let msgs: Vec<[usize; 4]> = w[2].split(',').filter_map(|m| {
        let p: Vec<usize> = m.split('.').filter_map(|x| x.parse().ok()).collect();
        p.try_into().ok()
    }).collect();
    let same = w[0].ends_with('s');
    let once = || if w[0].starts_with('e') { engine(wait, &msgs, same) } else { direct(wait, &msgs, same) };
    match once() {
        // sockets and timers: believed when it happens again
        Outcome::Bad(_) => once(),
        x => x,
    }
}
fn built(msgs: &[[usize; 4]], same: bool) -> Vec<(Message, String)> {
    msgs.iter().enumerate().map(|(i, m)| {
        let x = message(if same { 0 } else { i }, m[2], char::from_u32(m[3] as u32).unwrap_or('x'));
        let t = x.to_string();
        (x, t)
    }).collect()
}
/// the texts of each thread in their order, merged: what is got has to be one of these merges
fn merges(got: &[u8], want: &[Vec<&str>]) -> Result<(), String> {
    let mut at = vec![0; want.len()];
    let mut rest = got;
    'next: loop {
        for (k, t) in want.iter().enumerate() {
            if at[k] < t.len() && rest.starts_with(t[at[k]].as_bytes()) {
                rest = &rest[t[at[k]].len()..];
                at[k] += 1;
                continue 'next;
            }
        }
        break;
    }
    let left: Vec<&str> = want.iter().zip(&at).flat_map(|(t, i)| t[*i..].to_vec()).collect();
    if rest.is_empty() && left.is_empty() {
        return Ok(());
    }
    Err(format!("after {} whole texts the connection got {:?}, {} texts were still due: {:?}", at.iter().sum::<usize>(), clip(&String::from_utf8_lossy(rest)), left.len(), left.iter().take(3).map(|s| clip(s)).collect::<Vec<_>>()))
}
fn clip(s: &str) -> String {
    let n = s.chars().count();
    let t: String = s.replace('\u{1}', "|").chars().take(90).collect();
    if n > 90 { format!("{}.. ({} characters)", t, n) } else { t }
}
fn direct(wait: u64, msgs: &[[usize; 4]], same: bool) -> Outcome {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let r = rt.block_on(async {
        let mut txs = vec![];
        let mut peers = vec![];
        for _ in 0..2 {
            let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?;
            let p = StdStream::connect(l.local_addr().unwrap()).map_err(|e| e.to_string())?;
            small_buffer(p.as_raw_fd(), 8);
            let (s, _) = l.accept().await.map_err(|e| e.to_string())?;
            small_buffer(s.as_raw_fd(), 7);
            let (rd, wr) = s.into_split();
            drop(rd);
            let (tx, rx) = tokio::sync::broadcast::channel::<String>(32);
            crate::io::acceptor::vh_write(wr, rx);
            txs.push(tx);
            peers.push(std::thread::spawn(move || read_all(p, wait, usize::MAX)));
        }
        let mut all = vec![];
        for (k, c) in CONN.iter().enumerate() {
            let mut s = Session::default();
            s.session_id = id(k);
            if *c < 2 {
                s.set_responder(Some(txs[*c].clone()));
            }
            all.push((id(k), s));
        }
        let sessions = SessionMap::from_iter(all);
        drop(txs);
        let b = built(msgs, same);
        let texts: Vec<String> = b.iter().map(|x| x.1.clone()).collect();
        let mut per: Vec<Vec<(usize, Message)>> = vec![vec![], vec![], vec![]];
        for (m, (x, _)) in msgs.iter().zip(b) {
            per[m[0] % 3].push((m[1], x));
        }
        let mut hs = vec![];
        for q in per {
            let sessions = sessions.clone();
            hs.push(std::thread::spawn(move || {
                for (k, m) in q {
                    // a session that is not configured: 4
                    Session::sync_send_to_target(&id(k), &sessions, m);
                }
            }));
        }
        for h in hs {
            if h.join().is_err() {
                return Ok(Err("sending a message panicked".to_string()));
            }
        }
        drop(sessions);
        for (c, p) in peers.into_iter().enumerate() {
            let got = match p.join() {
                Ok(Ok(g)) => g,
                _ => return Err("peer".to_string()),
            };
            let mut want: Vec<Vec<&str>> = vec![vec![], vec![], vec![]];
            for (m, t) in msgs.iter().zip(&texts) {
                if m[1] < 4 && CONN[m[1]] == c {
                    want[m[0] % 3].push(t);
                }
            }
            if let Err(e) = merges(&got, &want) {
                return Ok(Err(format!("connection {}: {}", c, e)));
            }
        }
        Ok::<_, String>(Ok(()))
    });
    rt.shutdown_background();
    match r {
        Ok(Ok(())) => if msgs.iter().any(|m| m[1] < 3) { pass() } else { trivial() },
        Ok(Err(e)) => Outcome::Bad(e),
        Err(_) => trivial(), // no loopback network
    }
}
// the application answers every text with the messages of its plan, the first text with none of them but a greeting
struct Replier(Mutex<Vec<(SessionId, Message)>>, Mutex<bool>);
impl Application for Replier {
    fn to_app(_: String) {}
    fn from_app(&self, sid: &SessionId, sessions: &SessionMap, _: Message) {
        for (k, m) in self.0.lock().unwrap().drain(..) {
            Session::sync_send_to_target(&k, sessions, m);
        }
        let _ = sid;
        *self.1.lock().unwrap() = true;
    }
}
fn engine(wait: u64, msgs: &[[usize; 4]], same: bool) -> Outcome {
    // sessions 0 and 1 share a port, 2 has its own
    let free = || StdListener::bind("127.0.0.1:0").and_then(|l| l.local_addr()).map(|a| a.port()).unwrap_or(0);
    let ports = [free(), free()];
    if ports[0] == 0 || ports[0] == ports[1] {
        return trivial();
    }
    let mut cfg = String::from("[Default]\nconnection_type=acceptor\nbegin_string=FIX.4.3\nsender_comp_id=ME\n");
    for k in 0..3 {
        cfg += &format!("[Session]\ntarget_comp_id=T{}\nsocket_accept_port={}\ndata_dictionary={}\n", k, ports[k / 2], super::config::dict_file(0));
    }
    let b = built(msgs, same);
    let texts: Vec<String> = b.iter().map(|x| x.1.clone()).collect();
    let plan: Vec<(SessionId, Message)> = msgs.iter().zip(b).map(|(m, (x, _))| (id(m[1]), x)).collect();
    let p = match guarded(|| Properties::from_str(&cfg)) {
        Ok(p) => p,
        Err(_) => return trivial(), // C13
    };
    let app = Replier(Mutex::new(vec![]), Mutex::new(false));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let made = rt.block_on(async { guarded(|| {
        let mut a = SocketAcceptor::new(p, app);
        a.start_accepting_connections();
        a
    }) });
    let a = match made {
        Ok(a) => a,
        Err(_) => { rt.shutdown_background(); return trivial(); } // C15, C20
    };
    let mut peers = vec![];
    for port in ports {
        let t0 = Instant::now();
        let s = loop {
            match StdStream::connect(("127.0.0.1", port)) {
                Ok(s) => break Some(s),
                Err(_) if t0.elapsed() > Duration::from_secs(3) => break None,
                Err(_) => std::thread::sleep(Duration::from_micros(300)),
            }
        };
        match s {
            Some(s) => { let _ = s.set_nodelay(true); peers.push(s) }
            None => { rt.shutdown_background(); return trivial(); }
        }
    }
    // a connection has its writer when it gets a probe
    let sessions = a.vh_sessions();
    for (c, s) in peers.iter_mut().enumerate() {
        let _ = s.set_read_timeout(Some(Duration::from_millis(30)));
        let mut b = [0u8; 4096];
        let probe = message(990 + c, 0, 'x');
        let t = probe.to_string();
        let mut n = 0;
        let t0 = Instant::now();
        let mut tries = 0;
        while n == 0 {
            if t0.elapsed() > Duration::from_secs(6) {
                rt.shutdown_background();
                return Outcome::Bad(format!("of {} messages sent to session T{} after its peer had connected, none arrived", tries, 2 * c));
            }
            Session::sync_send_to_target(&id(2 * c), &sessions, message(990 + c, 0, 'x'));
            tries += 1;
            n = s.read(&mut b).unwrap_or(0);
        }
        // the rest of the probes
        loop {
            match s.read(&mut b) {
                Ok(k) if k > 0 => n += k,
                _ => break,
            }
        }
        if n % t.len() != 0 || n > tries * t.len() {
            rt.shutdown_background();
            return Outcome::Bad(format!("{} probes of {} bytes were sent, the connection got {} bytes", tries, t.len(), n));
        }
    }
    let hs: Vec<_> = peers.into_iter().enumerate().map(|(c, s)| {
        let want: Vec<String> = msgs.iter().zip(&texts).filter(|(m, _)| m[1] < 3 && m[1] / 2 == c).map(|x| x.1.clone()).collect();
        let len = want.iter().map(|t| t.len()).sum::<usize>();
        (want, len, s)
    }).collect();
    for (k, m) in plan {
        Session::sync_send_to_target(&k, &sessions, m);
    }
    let mut bad = None;
    for (c, (want, len, s)) in hs.into_iter().enumerate() {
        let got = read_all(s, wait, len).unwrap_or_default();
        if let Err(e) = merges(&got, &[want.iter().map(|s| s.as_str()).collect()]) {
            bad = Some(format!("port {}: {}", c, e));
            break;
        }
    }
    drop(sessions);
    rt.shutdown_background();
    match bad {
        Some(e) => Outcome::Bad(e),
        None => if msgs.iter().any(|m| m[1] < 3) { pass() } else { trivial() },
    }
}
fn shrink(case: &str) -> Vec<String> {
    let w: Vec<&str> = case.split('|').collect();
    let l: Vec<&str> = w[2].split(',').collect();
    let mut out: Vec<String> = (0..l.len()).filter(|_| l.len() > 1).map(|i| {
        let mut g = l.clone();
        g.remove(i);
        format!("{}|{}|{}", w[0], w[1], g.join(","))
    }).collect();
    out.push(format!("d|{}|{}", w[1], w[2]));
    out.retain(|x| x != case);
    out
}
pub const C21: Prop = Prop { gen, run, shrink };
