// ---- the dots of a name
/// The scopes around s, innermost first: what precedes its dots, from right to left.
pub open spec fn outer(s: Seq<char>, n: int) -> Seq<Seq<char>>
    decreases n
{
    if n <= 0 { seq![] } else if s[n - 1] == '.' { seq![s.take(n - 1)] + outer(s, n - 1) } else { outer(s, n - 1) }
}
pub open spec fn is_prefix_bytes(s: Seq<char>, i: int, p: Seq<char>) -> bool { p.is_prefix_of(s) && encode_utf8(p).len() == i }
/// `&s[..i]`
#[verifier::external_body]
fn prefix(s: &str, i: usize) -> (r: &str)
    requires exists|p: Seq<char>| is_prefix_bytes(s@, i as int, p),
    ensures forall|p: Seq<char>| #[trigger] is_prefix_bytes(s@, i as int, p) ==> r@ == p { unimplemented!() }
pub open spec fn dots_of(m: Seq<(usize, &str)>, s: Seq<char>) -> bool {
    m.len() == outer(s, s.len() as int).len() && forall|k: int| 0 <= k < m.len() ==> is_prefix_bytes(s, (#[trigger] m[k]).0 as int, outer(s, s.len() as int)[k])
}
/// Positions of the dots, from the right: `s.rmatch_indices('.')`
#[verifier::external_body]
fn dots(s: &str) -> (r: Vec<(usize, &str)>)
    ensures dots_of(r@, s@) { unimplemented!() }
/// `s.match_indices('.')`: the same from the left
#[verifier::external_body]
fn dots_from_left(s: &str) -> (r: Vec<(usize, &str)>)
    ensures r@.len() == outer(s@, s@.len() as int).len(), forall|k: int| 0 <= k < r@.len() ==> is_prefix_bytes(s@, (#[trigger] r@[k]).0 as int, outer(s@, s@.len() as int)[r@.len() - 1 - k]) { unimplemented!() }
