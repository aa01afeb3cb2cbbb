// the configuration of a schedule: t are the session's own settings, d the defaults
pub open spec fn parses<F>(o: Option<Seq<char>>) -> bool { o is Some ==> parse_ok::<F>(o->0) }
pub open spec fn oparse<F>(o: Option<Seq<char>>) -> Option<F> { match o { Some(t) => Some(parse_val::<F>(t)), None => None } }
pub open spec fn sched_given(t: SMap, d: SMap) -> bool {
    let (st, et, sd, ed, tz) = (either(t, d, "start_time"@), either(t, d, "end_time"@), either(t, d, "start_day"@), either(t, d, "end_day"@), either(t, d, "default_timezone"@));
    &&& parses::<NaiveTime>(st) && parses::<NaiveTime>(et) && parses::<Weekday>(sd) && parses::<Weekday>(ed) && parses::<Tz>(tz)
    &&& (st is Some) == (et is Some) && (sd is Some) == (ed is Some) && (sd is Some ==> st is Some)
}
pub open spec fn sched_is(r: SessionSchedule, t: SMap, d: SMap) -> bool {
    let (st, et, sd, ed, tz) = (either(t, d, "start_time"@), either(t, d, "end_time"@), either(t, d, "start_day"@), either(t, d, "end_day"@), either(t, d, "default_timezone"@));
    &&& r.is_non_stop == (st is None)
    &&& st is Some ==> Some(r.start_time) == oparse::<NaiveTime>(st) && Some(r.end_time) == oparse::<NaiveTime>(et)
    &&& r.start_day == oparse::<Weekday>(sd) && r.end_day == oparse::<Weekday>(ed)
    &&& r.time_zone == (match tz { Some(x) => parse_val::<Tz>(x), None => tz_utc() })
}
// both days or none
pub open spec fn sched_wf(s: SessionSchedule) -> bool { (s.start_day is Some) == (s.end_day is Some) }
// the window that opens on day a closes on the first day on or after a that is the end day; now lies in it
pub open spec fn in_window(s: SessionSchedule, a: int, b: int, now: (int, int)) -> bool {
    &&& Some(wd_of(a)) == s.start_day && Some(wd_of(b)) == s.end_day && a <= b < a + 7
    &&& dle((a, s.start_time.nt()), now) && dle(now, (b, s.end_time.nt()))
}
// now is the local wall clock: day and point of the day
pub open spec fn active(s: SessionSchedule, now: (int, int)) -> bool {
    if s.is_non_stop { true }
    else if s.start_day is None {
        if s.start_time.nt() <= s.end_time.nt() { s.start_time.nt() <= now.1 <= s.end_time.nt() } else { s.start_time.nt() <= now.1 || now.1 <= s.end_time.nt() }
    } else { exists|a: int, b: int| #[trigger] in_window(s, a, b, now) }
}
pub open spec fn back(d: int, j: int) -> int { d - j }
pub open spec fn ahead(d: int, j: int) -> int { d + j }
