// ---- full names (bytes of a str: see utf8 in vstd)
fn byte_len(s: &str) -> (r: usize) ensures r == encode_utf8(s@).len() { s.as_bytes().len() }
#[verifier::external_body]
fn owned_path(p: &[i32]) -> (r: Vec<i32>) ensures r@ == p@ { unimplemented!() }
/// b is what a ends with.
pub open spec fn tail_of(a: Seq<char>, b: Seq<char>) -> bool { b.len() <= a.len() && a.skip(a.len() - b.len()) == b }
/// The text of an identity whose name starts at byte i.
pub open spec fn splits(s: Seq<char>, i: int, b: Seq<char>) -> bool { tail_of(s, b) && encode_utf8(s.take(s.len() - b.len())).len() == i }
/// `&s[i..]`
#[verifier::external_body]
fn suffix(s: &str, i: usize) -> (r: &str)
    requires exists|b: Seq<char>| splits(s@, i as int, b),
    ensures splits(s@, i as int, r@) { unimplemented!() }
proof fn tail_bytes(a: Seq<char>, b: Seq<char>)
    requires tail_of(a, b),
    ensures encode_utf8(a).len() == encode_utf8(a.take(a.len() - b.len())).len() + encode_utf8(b).len(),
{
    let p = a.take(a.len() - b.len());
    assert(a =~= p + b);
    encode_utf8_concat(p, b);
}
impl Identity {
    pub open spec fn name_of(&self, b: Seq<char>) -> bool { splits(self.full_name@, self.name_index as int, b) }
    pub open spec fn well_formed(&self) -> bool { exists|b: Seq<char>| self.name_of(b) }
//@@ fn prost-reflect/src/descriptor/mod.rs Identity::new
//@@ ret r
//@@ subst? debug_assert ! $a:tt ; ==>> 
//@@ subst? $x:id . len ( ) ==>> byte_len($x)
//@@ subst? path . into ( ) ==>> owned_path(path)
//@@ subst? full_name . into ( ) ==>> owned(full_name)
//@@ spec
    requires tail_of($p2@, $p3@),
    ensures r.file == $p0, r.path@ == $p1@, r.full_name@ == $p2@, r.name_of($p3@),
//@@ start
    proof { tail_bytes($p2@, $p3@); }
//@@ end
//@@ fn prost-reflect/src/descriptor/mod.rs Identity::full_name
//@@ ret r
//@@ spec
    ensures r@ == self.full_name@,
//@@ end
//@@ fn prost-reflect/src/descriptor/mod.rs Identity::name
//@@ ret r
//@@ subst? & self . full_name [ self . name_index .. ] ==>> suffix(&self.full_name, self.name_index)
//@@ spec
    requires self.well_formed(),
    ensures self.name_of(r@),
//@@ start
    proof { let b = choose|b: Seq<char>| self.name_of(b); assert(splits(self.full_name@, self.name_index as int, b)); }
//@@ end
}
