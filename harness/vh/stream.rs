//! C18: bytes sent over a real connection in random pieces, against the cut the property describes.
use super::*;
use std::io::Write as _;
use std::net::TcpStream as StdStream;
use std::time::Duration;

// case: hex bytes, then "|", then sizes of the pieces, then "|" and how the stream ends (c close, r reset)
fn gen(r: &mut Rng, n: u64) -> String {
    let mut b: Vec<u8> = vec![];
    let k = if n == 0 { 0 } else { r.below(8) };
    for _ in 0..k {
        let m = r.below(6);
        for _ in 0..m {
            let f: &[u8] = match r.below(16) {
                0 => b"8=FIX.4.3",
                1 => b"58=10=x",
                2 => b"110=7",
                3 => b"",
                4 => &[0xff, 0xfe, b'=', 0xc3],
                5 => b" 10=1",
                6 => b"010=1",
                7 => b"10",
                8 => b"1",
                9 => "58=h\u{e9}\u{20ac}".as_bytes(),
                10 => b"10:3",
                11 => b"\n10=4",
                12 => b"100=1",
                _ => b"35=A",
            };
            match hot_str(r, 4, "35=A") {
                Some(t) => b.extend_from_slice(t.as_bytes()),
                None => b.extend_from_slice(f),
            }
            b.push(1);
        }
        b.extend_from_slice([&b"10=123"[..], b"10=", b"10==", b"10=10=5", &[b'1', b'0', b'=', 0xff]][r.below(5)]);
        if let Some(t) = hot_str(r, 4, "123") {
            b.extend_from_slice(t.as_bytes());
        }
        b.push(1);
    }
    if r.chance(1, 30) {
        // longer than any buffer in between
        let at = b.len();
        let extra = vec![b'x'; 5000 + r.below(70000)];
        b.splice(at..at, extra);
        if r.chance(1, 2) {
            b.push(1);
        }
        b.extend_from_slice(b"10=9\x01");
    }
    match r.below(4) {
        0 => b.extend_from_slice(b"8=FIX\x0110=12"),
        1 => b.extend_from_slice([&b"35=A\x01"[..], b"10=", b"1", b"\x01"][r.below(4)]),
        _ => {}
    }
    let mut sizes = vec![];
    match r.below(4) {
        0 => {}
        1 if b.len() < 60 => sizes = vec![1; b.len()],
        _ => {
            for _ in 0..r.below(5) {
                sizes.push(1 + r.below(b.len().max(1)));
            }
        }
    }
    let hex: String = b.iter().map(|x| format!("{:02x}", x)).collect();
    format!("{}|{}|{}", hex, sizes.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), if r.chance(1, 12) { "r" } else { "c" })
}
fn cut(b: &[u8]) -> Vec<String> {
    let mut out = vec![];
    let (mut start, mut field) = (0, 0);
    for i in 0..b.len() {
        if b[i] == 1 {
            if b[field..].starts_with(b"10=") && field + 3 <= i {
                out.push(String::from_utf8_lossy(&b[start..=i]).to_string());
                start = i + 1;
            }
            field = i + 1;
        }
    }
    out
}
thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
}
fn run(case: &str) -> Outcome {
    let w: Vec<&str> = case.split('|').collect();
    let bytes: Vec<u8> = (0..w[0].len() / 2).map(|i| u8::from_str_radix(&w[0][2 * i..2 * i + 2], 16).unwrap()).collect();
    let sizes: Vec<usize> = w[1].split(',').filter_map(|x| x.parse().ok()).collect();
    let reset = w[2] == "r";
    let want = cut(&bytes);
    let b2 = bytes.clone();
    let got: Result<(Vec<String>, bool), String> = RT.with(|rt| {
        rt.block_on(async {
            let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?;
            let addr = l.local_addr().unwrap();
            let client = std::thread::spawn(move || {
                let mut s = match StdStream::connect(addr) {
                    Ok(s) => s,
                    Err(_) => return,
                };
                let _ = s.set_nodelay(true);
                let mut rest = &b2[..];
                for k in sizes {
                    let k = k.min(rest.len());
                    let _ = s.write_all(&rest[..k]);
                    rest = &rest[k..];
                    std::thread::sleep(Duration::from_micros(150));
                }
                let _ = s.write_all(rest);
                if reset {
                    let lin = [1i32, 0i32];
                    use std::os::fd::AsRawFd;
                    extern "C" {
                        fn setsockopt(fd: i32, level: i32, name: i32, v: *const i32, len: u32) -> i32;
                    }
                    unsafe {
                        setsockopt(s.as_raw_fd(), 1, 13, lin.as_ptr(), 8);
                    }
                    std::thread::sleep(Duration::from_micros(300));
                }
            });
            let (stream, _) = l.accept().await.map_err(|e| e.to_string())?;
            let (rd, _wr) = stream.into_split();
            let (tx, mut rx) = tokio::sync::mpsc::channel::<String>(1 + bytes.len() % 3);
            crate::io::acceptor::vh_listen(rd, tx);
            let mut got = vec![];
            let mut ended = true;
            loop {
                match tokio::time::timeout(Duration::from_secs(8), rx.recv()).await {
                    Ok(Some(s)) => got.push(s),
                    Ok(None) => break,
                    Err(_) => {
                        ended = false;
                        break;
                    }
                }
                if got.len() > bytes.len() + 10 {
                    ended = false;
                    break;
                }
            }
            let _ = client.join();
            Ok((got, ended))
        })
    });
    let (got, ended) = match got {
        Ok(x) => x,
        Err(_) => return trivial(), // no loopback network
    };
    if !ended {
        return Outcome::Bad(format!("after the stream {:?} ended, reading did not stop; handed on so far: {:?}", String::from_utf8_lossy(&bytes), clip(&got)));
    }
    let ok = if reset { got.len() <= want.len() && got[..] == want[..got.len()] } else { got == want };
    if !ok {
        return Outcome::Bad(format!("the stream {:?} was cut into {:?} instead of {:?}", clip(&[String::from_utf8_lossy(&bytes).to_string()]), clip(&got), clip(&want)));
    }
    if want.is_empty() { trivial() } else { pass() }
}
fn clip(v: &[String]) -> Vec<String> {
    v.iter().take(6).map(|s| s.chars().take(120).collect()).collect()
}
fn shrink(case: &str) -> Vec<String> {
    let w: Vec<&str> = case.split('|').collect();
    let mut out = vec![format!("{}||{}", w[0], w[2])];
    let n = w[0].len() / 2;
    if n <= 400 {
        for k in [32, 8, 4, 2, 1] {
            let mut i = 0;
            while i + k <= n {
                out.push(format!("{}{}|{}|{}", &w[0][..2 * i], &w[0][2 * (i + k)..], w[1], w[2]));
                i += k;
            }
        }
    }
    out.retain(|x| x != case);
    out
}
pub const C18: Prop = Prop { gen, run, shrink };
