// ---------------------------------------------------------------- chrono, chrono_tz
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Weekday { Mon, Tue, Wed, Thu, Fri, Sat, Sun }
pub open spec fn wd_of(k: int) -> Weekday {
    if k % 7 == 0 { Weekday::Mon } else if k % 7 == 1 { Weekday::Tue } else if k % 7 == 2 { Weekday::Wed } else if k % 7 == 3 { Weekday::Thu }
    else if k % 7 == 4 { Weekday::Fri } else if k % 7 == 5 { Weekday::Sat } else { Weekday::Sun }
}
impl Weekday {
    pub open spec fn n(self) -> int { match self { Weekday::Mon => 0, Weekday::Tue => 1, Weekday::Wed => 2, Weekday::Thu => 3, Weekday::Fri => 4, Weekday::Sat => 5, Weekday::Sun => 6 } }
    #[verifier::external_body]
    pub fn num_days_from_monday(&self) -> (r: u32) ensures r == self.n() { unimplemented!() }
    #[verifier::external_body]
    pub fn number_from_monday(&self) -> (r: u32) ensures r == self.n() + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn num_days_from_sunday(&self) -> (r: u32) ensures r == (self.n() + 1) % 7 { unimplemented!() }
    #[verifier::external_body]
    pub fn succ(&self) -> (r: Weekday) ensures r == wd_of(self.n() + 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn pred(&self) -> (r: Weekday) ensures r == wd_of(self.n() + 6) { unimplemented!() }
}
macro_rules! ext_from_str { ($t:ty) => { verus! {
#[verifier::external]
impl FromStr for $t { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { unimplemented!() } }
} } }
ext_from_str!(Weekday);
ext_from_str!(NaiveTime);
ext_from_str!(Tz);
// a point of a day; nt() orders them
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NaiveTime { p: u64 }
impl NaiveTime { pub uninterp spec fn nt(&self) -> int; }
pub uninterp spec fn midnight() -> NaiveTime;
impl VDefault for NaiveTime {
    open spec fn is_def(&self) -> bool { *self == midnight() }
    #[verifier::external_body]
    fn v_default() -> (r: Self) { unimplemented!() }
}
// a day; nd() numbers the days, 0 is a Monday
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NaiveDate { p: u64 }
pub uninterp spec fn date_in_range(d: int) -> bool;
impl NaiveDate {
    pub uninterp spec fn nd(&self) -> int;
    #[verifier::external_body]
    pub fn weekday(&self) -> (r: Weekday) ensures r == wd_of(self.nd()) { unimplemented!() }
    #[verifier::external_body]
    pub fn pred(&self) -> (r: NaiveDate) requires date_in_range(self.nd() - 1) ensures r.nd() == self.nd() - 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn succ(&self) -> (r: NaiveDate) requires date_in_range(self.nd() + 1) ensures r.nd() == self.nd() + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn pred_opt(&self) -> (r: Option<NaiveDate>) ensures date_in_range(self.nd() - 1) ==> r is Some && r->0.nd() == self.nd() - 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn succ_opt(&self) -> (r: Option<NaiveDate>) ensures date_in_range(self.nd() + 1) ==> r is Some && r->0.nd() == self.nd() + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn and_time(&self, t: NaiveTime) -> (r: NaiveDateTime) ensures r.dt() == (self.nd(), t.nt()) { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NaiveDateTime { p: u64 }
impl NaiveDateTime {
    pub uninterp spec fn dt(&self) -> (int, int);
    #[verifier::external_body]
    pub fn date(&self) -> (r: NaiveDate) ensures r.nd() == self.dt().0 { unimplemented!() }
    #[verifier::external_body]
    pub fn time(&self) -> (r: NaiveTime) ensures r.nt() == self.dt().1 { unimplemented!() }
    #[verifier::external_body]
    pub fn weekday(&self) -> (r: Weekday) ensures r == wd_of(self.dt().0) { unimplemented!() }
}
pub open spec fn ord(a: int, b: int) -> std::cmp::Ordering { if a < b { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater } }
pub open spec fn dle(a: (int, int), b: (int, int)) -> bool { a.0 < b.0 || a.0 == b.0 && a.1 <= b.1 }
pub open spec fn dord(a: (int, int), b: (int, int)) -> std::cmp::Ordering { if a.0 == b.0 { ord(a.1, b.1) } else { ord(a.0, b.0) } }
macro_rules! ordered { ($t:ty, $a:ident, $b:ident, $e:expr) => { verus! {
impl PartialEqSpecImpl for $t {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&$a, $b: &Self) -> bool { $e == std::cmp::Ordering::Equal }
}
impl PartialEq for $t {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl for $t {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&$a, $b: &Self) -> Option<std::cmp::Ordering> { Some($e) }
}
impl PartialOrd for $t {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { unimplemented!() }
    #[verifier::external_body]
    fn lt(&self, o: &Self) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn le(&self, o: &Self) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn gt(&self, o: &Self) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn ge(&self, o: &Self) -> bool { unimplemented!() }
}
} } }
ordered!(NaiveTime, self, other, ord(self.nt(), other.nt()));
ordered!(NaiveDate, self, other, ord(self.nd(), other.nd()));
ordered!(NaiveDateTime, self, other, dord(self.dt(), other.dt()));
// instants and time zones
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VInst { p: u64 }
// the instant the running call asks the clock
pub uninterp spec fn is_now(i: VInst) -> bool;
pub struct Utc;
impl Utc {
    #[verifier::external_body]
    pub fn now() -> (r: VInst) ensures is_now(r) { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Tz { p: u64 }
// local wall clock of a zone at an instant: a day and a point of that day, and days around it exist
pub uninterp spec fn local(z: Tz, i: VInst) -> (int, int);
pub axiom fn ax_local(z: Tz, i: VInst)
    ensures forall|k: int| -8 <= k <= 8 ==> #[trigger] date_in_range(local(z, i).0 + k);
impl VInst {
    #[verifier::external_body]
    pub fn naive_utc(&self) -> (r: VInst) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn with_timezone(&self, z: &Tz) -> (r: VZoned) ensures r.z() == *z, r.i() == *self { unimplemented!() }
}
impl Tz {
    #[verifier::external_body]
    pub fn from_utc_datetime(&self, i: &VInst) -> (r: VZoned) ensures r.z() == *self, r.i() == *i { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VZoned { p: u64 }
impl VZoned {
    pub uninterp spec fn z(&self) -> Tz;
    pub uninterp spec fn i(&self) -> VInst;
    #[verifier::external_body]
    pub fn naive_local(&self) -> (r: NaiveDateTime) ensures r.dt() == local(self.z(), self.i()) { unimplemented!() }
    #[verifier::external_body]
    pub fn date_naive(&self) -> (r: NaiveDate) ensures r.nd() == local(self.z(), self.i()).0 { unimplemented!() }
    #[verifier::external_body]
    pub fn time(&self) -> (r: NaiveTime) ensures r.nt() == local(self.z(), self.i()).1 { unimplemented!() }
    #[verifier::external_body]
    pub fn weekday(&self) -> (r: Weekday) ensures r == wd_of(local(self.z(), self.i()).0) { unimplemented!() }
}
pub uninterp spec fn tz_utc() -> Tz;
#[verifier::external_body]
pub fn v_utc() -> (r: Tz) ensures r == tz_utc() { unimplemented!() }
pub trait VOrDefault<T>: Sized {
    spec fn uo(&self) -> Option<T>;
    fn v_unwrap_or_default(self) -> (r: T) where T: VDefault ensures match self.uo() { Some(x) => r == x, None => r.is_def() };
}
impl<T> VOrDefault<T> for Option<T> {
    open spec fn uo(&self) -> Option<T> { *self }
    fn v_unwrap_or_default(self) -> (r: T) where T: VDefault { match self { Some(x) => x, None => T::v_default() } }
}
