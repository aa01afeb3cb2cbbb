//! Search for inputs on which the real code breaks a property, against independent oracles.
//! The crate is a copy of /repo (made by tools/check.py on every run) with this module added.
pub mod spec;
pub mod msgs;
pub mod api;
pub mod ids;
pub mod config;
pub mod dict;
pub mod sched;
pub mod types_h;
#[cfg(vh_stream)]
pub mod stream;
#[cfg(vh_recv)]
pub mod recv;
#[cfg(vh_out)]
pub mod out;

use std::collections::HashSet;
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- literals of the code under test
/// Values that the current code mentions more often than the code the contracts were written for (tools/lits.py).
/// They only steer the generators; without any, no random number is drawn for them.
pub struct Hot {
    pub nums: Vec<u64>,
    pub strs: Vec<String>,
}
pub fn hot() -> &'static Hot {
    static HOT: std::sync::OnceLock<Hot> = std::sync::OnceLock::new();
    HOT.get_or_init(|| {
        let mut h = Hot { nums: vec![], strs: vec![] };
        let t = std::env::var("VH_HOT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        for l in t.lines() {
            if let Some(n) = l.strip_prefix('n') {
                h.nums.extend(n.parse::<u64>().ok());
            } else if let Some(x) = l.strip_prefix('s') {
                let b: Vec<u8> = (0..x.len() / 2).filter_map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).ok()).collect();
                let s = String::from_utf8_lossy(&b).to_string();
                if let Ok(n) = s.parse::<u64>() {
                    h.nums.push(n);
                }
                if s.chars().count() < 40 {
                    h.strs.push(s);
                }
            }
        }
        h
    })
}
pub fn is_hot() -> bool {
    !hot().nums.is_empty() || !hot().strs.is_empty()
}
/// a tag that resembles one of the tags with a meaning of their own: in its last digits, its first digits or its lowest bits
pub fn kin(r: &mut Rng) -> u32 {
    let t = [8u32, 9, 10, 35, 49, 56, 89, 93][r.below(8)];
    match r.below(5) {
        0 => t + 100 * (1 + r.below(50)) as u32,
        1 => t + [1000, 10_000, 100_000, 1_000_000][r.below(4)],
        2 => t + 256 * (1 + r.below(3)) as u32,
        3 => t + 65536,
        _ => t * 10 + r.below(10) as u32,
    }
}
/// now and then (one time in `den`), a number of the code, or one next to it
pub fn hot_num(r: &mut Rng, den: usize, max: u64) -> Option<u64> {
    let h = hot();
    if h.nums.is_empty() || !r.chance(1, den) {
        return None;
    }
    let n = *r.pick(&h.nums);
    let n = match r.below(6) {
        0 => n.wrapping_add(1),
        1 => n.wrapping_sub(1),
        2 if n < 1 << 40 => n * 2 + r.below(3) as u64,
        _ => n,
    };
    if n <= max { Some(n) } else { None }
}
/// now and then, a text made from one of the code's, or `base` changed by one
pub fn hot_str(r: &mut Rng, den: usize, base: &str) -> Option<String> {
    let h = hot();
    if !is_hot() || !r.chance(1, den) {
        return None;
    }
    let t = if !h.strs.is_empty() && (h.nums.is_empty() || r.chance(2, 3)) {
        r.pick(&h.strs).clone()
    } else {
        let n = *r.pick(&h.nums);
        match r.below(5) {
            // a text of about that size
            0 | 1 if n < 100_000 => {
                let c = *r.pick(&['x', '1', ' ', '\u{e9}', '\u{20ac}']);
                let k = (n + r.below(4) as u64).saturating_sub(1) as usize;
                let k = if c.len_utf8() > 1 && r.chance(1, 2) { k / c.len_utf8() + 1 } else { k };
                let mut s: String = (0..k).map(|_| c).collect();
                if r.chance(1, 2) {
                    s.insert(0, 'y');
                }
                return Some(s);
            }
            2 if n < 128 => (n as u8 as char).to_string(),
            3 => n.wrapping_add(1).to_string(),
            _ => n.to_string(),
        }
    };
    Some(match r.below(9) {
        0 => format!("{}{}", t, base),
        1 => format!("{}{}", base, t),
        2 => format!("{}x", t),
        3 => {
            let c: Vec<char> = base.chars().collect();
            let i = r.below(c.len() + 1);
            format!("{}{}{}", c[..i].iter().collect::<String>(), t, c[i..].iter().collect::<String>())
        }
        4 => format!("{}{}", t, t),
        5 => t.chars().rev().collect(),
        _ => t,
    })
}

pub enum Outcome {
    Pass { nontrivial: bool },
    Bad(String),
}
pub fn pass() -> Outcome {
    Outcome::Pass { nontrivial: true }
}
pub fn trivial() -> Outcome {
    Outcome::Pass { nontrivial: false }
}

pub struct Prop {
    pub gen: fn(&mut Rng, u64) -> String,
    pub run: fn(&str) -> Outcome,
    pub shrink: fn(&str) -> Vec<String>,
}

pub fn no_shrink(_: &str) -> Vec<String> {
    vec![]
}

// ---------------------------------------------------------------- memory bound
// Every case states how much memory it may take; going beyond it ends the process with code 77,
// and the case in the "current" file is the witness.
struct Counting;
static USED: AtomicUsize = AtomicUsize::new(0);
pub static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let u = USED.fetch_add(l.size(), Ordering::Relaxed) + l.size();
        if u > LIMIT.load(Ordering::Relaxed) {
            std::process::exit(77);
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        USED.fetch_sub(l.size(), Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
pub fn limit_memory(extra: usize) {
    LIMIT.store(USED.load(Ordering::Relaxed).saturating_add(extra), Ordering::Relaxed);
}
pub fn unlimit_memory() {
    LIMIT.store(usize::MAX, Ordering::Relaxed);
}

// ---------------------------------------------------------------- fake clock (C16)
pub static FAKE_NOW: AtomicU64 = AtomicU64::new(u64::MAX); // seconds since 1970 + 2^40, u64::MAX = real
pub static FAKE_NS: AtomicU64 = AtomicU64::new(0);
#[repr(C)]
pub struct Ts {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Ts) -> i32 {
    let f = FAKE_NOW.load(Ordering::Relaxed);
    if clk == 0 && f != u64::MAX {
        (*ts).sec = f as i64 - (1i64 << 40);
        (*ts).nsec = FAKE_NS.load(Ordering::Relaxed) as i64;
        return 0;
    }
    syscall(228, clk as i64, ts) as i32
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn lookup(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => msgs::C01,
        "C02" => msgs::C02,
        "C03" => msgs::C03,
        "C04" => msgs::C04,
        "C08" => msgs::C08,
        "C22" => msgs::C22,
        "C05" => api::C05,
        "C06" => api::C06,
        "C07" => api::C07,
        "C09" => api::C09,
        "C10" => ids::C10,
        "C11" => ids::C11,
        "C12" => config::C12,
        "C13" => config::C13,
        "C14" => dict::C14,
        "C15" => dict::C15,
        "C16" => sched::C16,
        "C17" => types_h::C17,
        #[cfg(vh_stream)]
        "C18" => stream::C18,
        #[cfg(vh_recv)]
        "C19" => recv::C19,
        #[cfg(vh_out)]
        "C21" => out::C21,
        #[cfg(vh_sess)]
        "C20" => config::C20,
        _ => return None,
    })
}

/// harness PROP OUT.json CURRENT seed seconds maxcases      search
/// harness PROP OUT.json CURRENT replay CASEFILE            run one case
pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p = match lookup(&a[1]) {
        Some(p) => p,
        None => {
            eprintln!("unknown property");
            std::process::exit(2)
        }
    };
    if std::env::var("VH_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let out = &a[2];
    let current = a[3].clone();
    if a[4] == "replay" {
        let case = String::from_utf8_lossy(&std::fs::read(&a[5]).unwrap()).to_string();
        std::fs::write(&current, &case).unwrap();
        let t = std::thread::Builder::new().stack_size(64 << 20);
        let r = t.spawn(move || (p.run)(&case)).unwrap().join();
        let txt = match r {
            Ok(Outcome::Pass { .. }) => "{\"violation\": null}".to_string(),
            Ok(Outcome::Bad(w)) => format!("{{\"violation\": {}}}", esc(&w)),
            Err(_) => "{\"violation\": \"the oracle failed\"}".to_string(),
        };
        std::fs::write(out, txt).unwrap();
        return;
    }
    let seed: u64 = a[4].parse().unwrap();
    let secs: f64 = a[5].parse().unwrap();
    let maxc: u64 = a[6].parse().unwrap();
    let out = out.clone();
    // a case may take 20 s, then the process ends with code 78 (the current file is the witness)
    static BEAT: AtomicU64 = AtomicU64::new(0);
    std::thread::spawn(|| {
        let mut last = (0u64, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let b = BEAT.load(Ordering::Relaxed);
            if b != last.0 {
                last = (b, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(20) {
                std::process::exit(78);
            }
        }
    });
    let t = std::thread::Builder::new().stack_size(64 << 20);
    t.spawn(move || {
        let start = Instant::now();
        let mut rng = Rng::new(seed);
        let (mut n, mut nontriv) = (0u64, 0u64);
        let mut seen: HashSet<u64> = HashSet::new();
        let mut samples: Vec<String> = vec![];
        let mut bad: Option<(String, String)> = None;
        let mut cur = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&current).unwrap();
        let mut put = |case: &str| {
            use std::io::Seek;
            cur.rewind().unwrap();
            cur.write_all(case.as_bytes()).unwrap();
            cur.set_len(case.len() as u64).unwrap();
        };
        while n < maxc && start.elapsed().as_secs_f64() < secs {
            let case = (p.gen)(&mut rng, n);
            put(&case);
            BEAT.fetch_add(1, Ordering::Relaxed);
            n += 1;
            match (p.run)(&case) {
                Outcome::Pass { nontrivial } => {
                    if nontrivial {
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        case.hash(&mut h);
                        if seen.insert(h.finish()) {
                            nontriv += 1;
                            if samples.len() < 3 && case.len() < 1500 {
                                samples.push(case.clone());
                            }
                        }
                    }
                }
                Outcome::Bad(w) => {
                    bad = Some((case, w));
                    break;
                }
            }
        }
        if let Some((case, why)) = bad.take() {
            let (mut case, mut why) = (case, why);
            let t0 = Instant::now();
            'outer: loop {
                for c in (p.shrink)(&case) {
                    if t0.elapsed() > Duration::from_secs(10) {
                        break 'outer;
                    }
                    put(&c);
                    BEAT.fetch_add(1, Ordering::Relaxed);
                    if let Outcome::Bad(w) = (p.run)(&c) {
                        case = c;
                        why = w;
                        continue 'outer;
                    }
                }
                break;
            }
            bad = Some((case, why));
        }
        let v = match &bad {
            None => "null".to_string(),
            Some((c, w)) => format!("{{\"case\": {}, \"why\": {}}}", esc(c), esc(w)),
        };
        let txt = format!(
            "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"samples\": [{}], \"violation\": {}}}",
            n, nontriv, samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "), v
        );
        std::fs::write(&out, txt).unwrap();
        std::process::exit(0);
    })
    .unwrap()
    .join()
    .unwrap();
}
