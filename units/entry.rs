// ---------------------------------------------------------------- HashMap: the entry API
pub struct VEntry<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
pub trait VMapE<K, V>: Sized {
    spec fn em(&self) -> Map<K, V>;
    fn v_entry<'a>(&'a mut self, key: K) -> (r: VEntry<'a, K, V>) ensures r.key == key, old(self).em() == r.map@, final(self).em() == (*final(r.map))@;
}
impl<K: std::hash::Hash + Eq, V> VMapE<K, V> for HashMap<K, V> {
    open spec fn em(&self) -> Map<K, V> { self@ }
    fn v_entry<'a>(&'a mut self, key: K) -> (r: VEntry<'a, K, V>) { VEntry { map: self, key } }
}
impl<'a, K, V> VEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn v_or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'a mut V)
        requires call_requires(f, ())
        ensures if (*old(self.map))@.contains_key(self.key) { *r == (*old(self.map))@[self.key] } else { call_ensures(f, (), *r) },
            (*final(self.map))@ == (*old(self.map))@.insert(self.key, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_or_insert(self, v: V) -> (r: &'a mut V)
        ensures *r == (if (*old(self.map))@.contains_key(self.key) { (*old(self.map))@[self.key] } else { v }),
            (*final(self.map))@ == (*old(self.map))@.insert(self.key, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_or_default(self) -> (r: &'a mut V) where V: VDefault
        ensures if (*old(self.map))@.contains_key(self.key) { *r == (*old(self.map))@[self.key] } else { (*r).is_def() },
            (*final(self.map))@ == (*old(self.map))@.insert(self.key, *final(r)),
    { unimplemented!() }
}
