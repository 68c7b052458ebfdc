// ---- std::collections::BTreeMap (assumed contracts; entries are derived from one primitive)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
pub open spec fn opt_get<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub open spec fn opt_put<K, V>(m: Map<K, V>, k: K, v: Option<V>) -> Map<K, V> { match v { Some(v) => m.insert(k, v), None => m.remove(k) } }
pub struct OccupiedEntry<'a, V> { pub v: &'a mut V }
pub struct VacantEntry<'a, V> { pub slot: &'a mut Option<V> }
impl<'a, V> OccupiedEntry<'a, V> {
    fn into_mut(self) -> (r: &'a mut V) ensures *r == *old(self.v), *final(r) == *final(self.v) { self.v }
    fn get_mut(&mut self) -> (r: &mut V) ensures *r == *old(self).v, *final(self).v == *final(r), *final(final(self).v) == *final(old(self).v) { &mut *self.v }
}
impl<'a, V> VacantEntry<'a, V> {
    fn insert(self, value: V) -> (r: &'a mut V)
        ensures *r == value, *final(self.slot) == Some(*final(r))
    {
        *self.slot = Some(value);
        match self.slot { Some(v) => v, None => unreached() }
    }
}
pub mod btree_map { use super::*;
pub enum Entry<'a, V> { Occupied(OccupiedEntry<'a, V>), Vacant(VacantEntry<'a, V>) }
}
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    fn slot(&mut self, k: K) -> (r: &mut Option<V>)
        ensures *r == opt_get(old(self)@, k), final(self)@ == opt_put(old(self)@, k, *final(r)) { unimplemented!() }
    fn entry(&mut self, k: K) -> (r: btree_map::Entry<'_, V>)
        ensures match r {
            btree_map::Entry::Occupied(e) => opt_get(old(self)@, k) == Some(*e.v) && final(self)@ == old(self)@.insert(k, *final(e.v)),
            btree_map::Entry::Vacant(e) => opt_get(old(self)@, k) is None && *e.slot is None && final(self)@ == opt_put(old(self)@, k, *final(e.slot)),
        }
    {
        let s = self.slot(k);
        match s { Some(v) => btree_map::Entry::Occupied(OccupiedEntry { v }), None => btree_map::Entry::Vacant(VacantEntry { slot: s }) }
    }
    #[verifier::external_body]
    fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => opt_get(self@, *k) == Some(*v), None => opt_get(self@, *k) is None } { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures r == opt_get(old(self)@, k), final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures r == opt_get(old(self)@, *k), final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self)
        ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
}
