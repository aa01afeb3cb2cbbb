//! C16: session windows, with a clock the harness sets.
use super::*;
use crate::session::{Properties, SessionSchedule};
use chrono::{Datelike, NaiveDateTime, NaiveTime, TimeZone, Timelike, Weekday};
use chrono_tz::Tz;
use std::sync::atomic::Ordering;

const ZONES: [&str; 10] = ["UTC", "Europe/London", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "America/Sao_Paulo", "Africa/Cairo", "Pacific/Kiritimati", "America/St_Johns"];
const DAYS: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
const ALL: [Weekday; 7] = [Weekday::Mon, Weekday::Tue, Weekday::Wed, Weekday::Thu, Weekday::Fri, Weekday::Sat, Weekday::Sun];

// zone start end startday endday instant nanos ; "-" is absent
fn local(z: Tz, t: i64) -> NaiveDateTime {
    z.from_utc_datetime(&NaiveDateTime::from_timestamp(t, 0)).naive_local()
}
fn gen(r: &mut Rng, _n: u64) -> String {
    let zn = *r.pick(&ZONES);
    let z: Tz = zn.parse().unwrap();
    let time = |r: &mut Rng| match r.below(5) {
        0 => 0,
        1 => 86399,
        2 => r.below(24) * 3600,
        _ => hot_num(r, 4, 86399).unwrap_or(r.below(86400) as u64) as usize,
    };
    let (s, e) = (time(r), time(r));
    // fractions of a second
    let frac = |r: &mut Rng| if r.chance(1, 8) { [1, 500_000_000, 999_999_999, 1_000_000, 250][r.below(5)] } else { 0usize };
    let (fs, fe) = (frac(r), frac(r));
    let mut days = match r.below(3) {
        0 => None,
        _ => Some((r.below(7), r.below(7))),
    };
    if let Some((a, b)) = days {
        if a == b && (s, fs) > (e, fe) {
            days = Some((a, (b + 1) % 7));
        }
    }
    let (mut hs, mut he) = (true, true);
    let (mut hd, mut he_d) = (days.is_some(), days.is_some());
    match r.below(25) {
        0 => hs = false,
        1 => he = false,
        2 => {
            hs = false;
            he = false;
        }
        3 => hd = false,
        4 => he_d = false,
        _ => {}
    }
    // an instant: anywhere, or close to a clock change or to an edge of the window
    let mut t = 315532800 + (r.next() % (68u64 * 365 * 86400)) as i64;
    if r.chance(1, 3) {
        let step = 86400;
        for _ in 0..400 {
            let a = local(z, t).timestamp() - t;
            let b = local(z, t + step).timestamp() - (t + step);
            if a != b {
                let (mut lo, mut hi) = (t, t + step);
                while hi - lo > 1 {
                    let m = (lo + hi) / 2;
                    if local(z, m).timestamp() - m == a {
                        lo = m
                    } else {
                        hi = m
                    }
                }
                t = hi - 7200 + r.below(14400) as i64;
                break;
            }
            t += step;
        }
    }
    let mut near = None;
    if r.chance(1, 2) {
        let start = r.chance(1, 2);
        near = Some(if start { fs } else { fe });
        let edge = if start { s } else { e } as i64;
        let tod = local(z, t).time().num_seconds_from_midnight() as i64;
        t += edge - tod + r.below(3) as i64 - 1;
        if let (Some((a, b)), true) = (days, r.chance(2, 3)) {
            let want = if r.chance(1, 2) { a } else { b } as i64;
            let wd = local(z, t).weekday().num_days_from_monday() as i64;
            t += (want - wd) * 86400;
        }
    }
    let hms = |x: usize, f: usize| {
        let t = format!("{:02}:{:02}:{:02}", x / 3600, x / 60 % 60, x % 60);
        if f == 0 { t } else { format!("{}.{:09}", t, f) }
    };
    let o = |b: bool, s: String| if b { s } else { "-".to_string() };
    let (a, b) = days.unwrap_or((0, 0));
    let ns = match near {
        Some(f) if r.chance(3, 4) => (f + r.below(3)).saturating_sub(1).min(999_999_999),
        _ if r.chance(1, 4) => 1 + r.below(999_999_999),
        _ => 0,
    };
    format!("{} {} {} {} {} {} {}", zn, o(hs, hms(s, fs)), o(he, hms(e, fe)), o(hd, DAYS[a].into()), o(he_d, DAYS[b].into()), t, ns)
}
fn expected(l: NaiveDateTime, s: Option<NaiveTime>, e: Option<NaiveTime>, sd: Option<Weekday>, ed: Option<Weekday>) -> bool {
    let ns = |t: NaiveTime| t.num_seconds_from_midnight() as i128 * 1_000_000_000 + t.nanosecond() as i128;
    let (s, e) = match (s, e) {
        (Some(s), Some(e)) => (ns(s), ns(e)),
        _ => return true,
    };
    let now = ns(l.time());
    let within = |now: i128, a: i128, b: i128| if a <= b { a <= now && now <= b } else { now >= a || now <= b };
    match (sd, ed) {
        (Some(a), Some(b)) => {
            let day = 86_400_000_000_000i128;
            let w = |d: Weekday, t: i128| d.num_days_from_monday() as i128 * day + t;
            if a == b {
                l.weekday() == a && s <= now && now <= e
            } else {
                within(w(l.weekday(), now), w(a, s), w(b, e))
            }
        }
        _ => within(now, s, e),
    }
}
fn run(case: &str) -> Outcome {
    let w: Vec<&str> = case.split_whitespace().collect();
    let z: Tz = w[0].parse().unwrap();
    let o = |i: usize| if w[i] == "-" { None } else { Some(w[i]) };
    let s: Option<NaiveTime> = o(1).map(|x| x.parse().unwrap());
    let e: Option<NaiveTime> = o(2).map(|x| x.parse().unwrap());
    let day = |i: usize| o(i).map(|x| ALL[DAYS.iter().position(|d| *d == x).unwrap()]);
    let (sd, ed) = (day(3), day(4));
    let t: i64 = w[5].parse().unwrap();
    let ns: u32 = w[6].parse().unwrap();
    let mut cfg = String::from("[Default]\nconnection_type=acceptor\nsocket_accept_port=1\nbegin_string=FIX.4.3\nsender_comp_id=A\n");
    cfg += &format!("default_timezone={}\n[Session]\ntarget_comp_id=B\n", w[0]);
    for (i, k) in ["start_time", "end_time", "start_day", "end_day"].iter().enumerate() {
        if let Some(v) = o(i + 1) {
            cfg += &format!("{}={}\n", k, v);
        }
    }
    let refuse = s.is_some() != e.is_some() || sd.is_some() != ed.is_some() || (sd.is_some() && s.is_none());
    let props = match guarded(|| Properties::from_str(&cfg)) {
        Ok(p) => p,
        Err(_) => return trivial(),
    };
    let ids = props.session_ids();
    let from_cfg = guarded(|| SessionSchedule::create_schedule(ids[0], &props));
    if refuse {
        return match from_cfg {
            Err(_) => pass(),
            Ok(_) => Outcome::Bad(format!("a schedule configuration with only some of its times and days was accepted: {}", cfg.replace('\n', ";"))),
        };
    }
    let from_cfg = match from_cfg {
        Ok(x) => x,
        Err(p) => return Outcome::Bad(format!("the schedule of {} was refused: {}", cfg.replace('\n', ";"), p)),
    };
    let direct = SessionSchedule::new(s.unwrap_or_default(), sd, e.unwrap_or_default(), ed, z, s.is_none());
    let l = z.from_utc_datetime(&NaiveDateTime::from_timestamp(t, ns)).naive_local();
    let want = expected(l, s, e, sd, ed);
    FAKE_NS.store(ns as u64, Ordering::Relaxed);
    FAKE_NOW.store((t + (1i64 << 40)) as u64, Ordering::Relaxed);
    let a = guarded(|| from_cfg.is_session_time());
    let b = guarded(|| direct.is_session_time());
    FAKE_NOW.store(u64::MAX, Ordering::Relaxed);
    for g in [a, b] {
        match g {
            Err(p) => return Outcome::Bad(format!("at UTC second {} (local {}) the check panicked: {} [{}]", t, l, p, case)),
            Ok(x) if x != want => {
                return Outcome::Bad(format!("at local time {} {} the session {} {} to {} {} in {} is {}", l.weekday(), l, w[3], w[1], w[4], w[2], w[0], if x { "active" } else { "inactive" }))
            }
            _ => {}
        }
    }
    pass()
}
pub const C16: Prop = Prop { gen, run, shrink: no_shrink };
