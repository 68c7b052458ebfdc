// ---- maps keyed by a name (HashMap<Box<str>, V>; assumed contracts) and names themselves: Box<str> is String
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct NameMap<V> { v: Vec<(String, V)> }
pub type Names<V> = Map<Seq<char>, V>;
impl<V> View for NameMap<V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> NameMap<V> {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k@) && self@[k@] == *v, None => !self@.contains_key(k@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v), r == (if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn empty() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
}
/// HashSet<u32> (assumed contracts)
#[verifier::external_body]
pub struct IndexSet { s: Vec<u32> }
impl View for IndexSet { type V = Set<u32>; uninterp spec fn view(&self) -> Set<u32>; }
pub open spec fn listing(e: Seq<u32>, s: Set<u32>) -> bool { forall|k: u32| #[trigger] s.contains(k) <==> #[trigger] e.contains(k) }
impl IndexSet {
    #[verifier::external_body]
    pub fn contains(&self, k: &u32) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: u32) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn empty() -> (r: Self) ensures r@ == Set::<u32>::empty() { unimplemented!() }
    /// The elements in iteration order.
    #[verifier::external_body]
    pub fn elements(&self) -> (r: Vec<u32>) ensures listing(r@, self@) { unimplemented!() }
}
#[verifier::external_body]
pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn same_text(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
