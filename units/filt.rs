// the elements of s at the marked positions
pub open spec fn filt<T>(s: Seq<T>, bs: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { seq![] } else if bs.last() { filt(s.drop_last(), bs.drop_last()).push(s.last()) } else { filt(s.drop_last(), bs.drop_last()) }
}
pub trait VFilt<T>: Sized {
    spec fn fsq(&self) -> Seq<T>;
    fn v_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Vec<T>)
        requires forall|i: int| 0 <= i < self.fsq().len() ==> call_requires(f, (&#[trigger] self.fsq()[i],))
        ensures exists|bs: Seq<bool>| #[trigger] filt(self.fsq(), bs) == r@ && bs.len() == self.fsq().len()
            && forall|i: int| 0 <= i < bs.len() ==> call_ensures(f, (&self.fsq()[i],), #[trigger] bs[i]);
    fn v_find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self.fsq().len() ==> call_requires(f, (&#[trigger] self.fsq()[i],))
        ensures match r {
            Some(x) => exists|k: int| 0 <= k < self.fsq().len() && x == #[trigger] self.fsq()[k] && call_ensures(f, (&self.fsq()[k],), true)
                && forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] self.fsq()[i],), false),
            None => forall|i: int| 0 <= i < self.fsq().len() ==> call_ensures(f, (&#[trigger] self.fsq()[i],), false),
        };
}
impl<T> VFilt<T> for Vec<T> {
    open spec fn fsq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>) { unimplemented!() }
}
