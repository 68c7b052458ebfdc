//@@ props P19
//@@ include head.rs
use vstd::string::*;
use vstd::utf8::*;
//@@ include names.rs
//@@ include bytes.rs
//@@ include own_value.rs
#[verifier::external_body]
fn unreached<A>() -> A requires false { unimplemented!() }
//@@ include btree.rs
//@@ include pool.rs
//@@ include errors.rs
//@@ include identity.rs
//@@ include tag.rs
broadcast use group_utf8_lib;
//@@ item prost-reflect/src/descriptor/build/resolve.rs struct ResolveVisitor
//@@ include protos.rs
//@@ include tables.rs
//@@ include decimal.rs
//@@ include escape.rs
//@@ include default.rs
// ---- core (assumed): what its parsers read
pub struct DefaultError;
pub trait FromText: Sized {
    spec fn text(s: Seq<char>) -> Option<Self>;
    fn parse(s: &str) -> (r: Result<Self, DefaultError>) ensures match r { Ok(v) => Self::text(s@) == Some(v), Err(_) => Self::text(s@) is None };
}
impl FromText for f64 { open spec fn text(s: Seq<char>) -> Option<f64> { f64_text(s) } #[verifier::external_body] fn parse(s: &str) -> Result<f64, DefaultError> { unimplemented!() } }
impl FromText for f32 { open spec fn text(s: Seq<char>) -> Option<f32> { f32_text(s) } #[verifier::external_body] fn parse(s: &str) -> Result<f32, DefaultError> { unimplemented!() } }
impl FromText for i32 { open spec fn text(s: Seq<char>) -> Option<i32> { i32_text(s) } #[verifier::external_body] fn parse(s: &str) -> Result<i32, DefaultError> { unimplemented!() } }
impl FromText for i64 { open spec fn text(s: Seq<char>) -> Option<i64> { i64_text(s) } #[verifier::external_body] fn parse(s: &str) -> Result<i64, DefaultError> { unimplemented!() } }
impl FromText for u32 { open spec fn text(s: Seq<char>) -> Option<u32> { u32_text(s) } #[verifier::external_body] fn parse(s: &str) -> Result<u32, DefaultError> { unimplemented!() } }
impl FromText for u64 { open spec fn text(s: Seq<char>) -> Option<u64> { u64_text(s) } #[verifier::external_body] fn parse(s: &str) -> Result<u64, DefaultError> { unimplemented!() } }
impl FromText for bool { open spec fn text(s: Seq<char>) -> Option<bool> { bool_text(s) } #[verifier::external_body] fn parse(s: &str) -> Result<bool, DefaultError> { unimplemented!() } }
fn parse_as<T: FromText>(s: &str) -> (r: Result<T, DefaultError>) ensures match r { Ok(v) => T::text(s@) == Some(v), Err(_) => T::text(s@) is None } { T::parse(s) }
/// Under contract in c_escape.rs.
#[verifier::external_body]
fn unescape_c_escape_string(s: &str) -> (r: Result<Bytes, &'static str>)
    ensures r is Ok <==> unescaped(s.spec_bytes(), 0) is Some, r is Ok ==> r.unwrap()@ == unescaped(s.spec_bytes(), 0).unwrap() { unimplemented!() }
pub open spec fn grows<T>(a: Seq<T>, b: Seq<T>) -> bool { b.len() > a.len() }
pub open spec fn more(a: ResolveVisitor, b: ResolveVisitor, e: bool) -> bool { a.errors@.is_prefix_of(b.errors@) && (grows(a.errors@, b.errors@) <==> e) }
// ---- the code
//@@ fn prost-reflect/src/descriptor/build/resolve.rs parse_simple_value
//@@ sig fn parse_simple_value(kind: KindIndex, value: &str) -> (r: Result<Value, DefaultError>)
//@@ subst? $v:id . parse ( ) ==>> parse_as($v)
//@@ subst? $v:id . parse :: < $t > ( ) ==>> parse_as::<$t>($v)
//@@ subst? $x:e . map ( Value :: $c:id ) ? ==>> (match $x { Ok(v_) => Value::$c(v_), Err(_) => return Err(DefaultError) })
//@@ subst? $v:id . to_owned ( ) ==>> owned($v)
//@@ subst? unreachable ! ( ) ==>> unreached()
//@@ spec
    requires !(kind is Enum || kind is Message || kind is Group),
    ensures scalar_means(kind, value@, encode_utf8(value@), match r { Ok(v) => Some(v), Err(_) => None }),
//@@ end
impl ResolveVisitor<'_> {
//@@ fn prost-reflect/src/descriptor/build/resolve.rs ResolveVisitor::parse_field_default_value
//@@ ret r
//@@ subst? $v:e . iter ( ) . find ( | $x:id | $a:e == $b:e ) ==>> { let mut k_: usize = 0; let mut f_: Option<&EnumValueDescriptorInner> = None; while k_ < $v.len() && f_.is_none() { let $x = &$v[k_]; if same_text($a, $b) { f_ = Some($x); } k_ += 1; } f_ }
//@@ subst? default_value . to_owned ( ) ==>> owned(default_value)
//@@ subst? format ! $a:tt ==>> some_text()
//@@ subst? $e:e . full_name ( ) . to_owned ( ) ==>> owned($e.full_name())
//@@ subst? "message type" . to_owned ( ) ==>> some_text()
//@@ subst? let default_value = default_value ? ; ==>> let default_value = match default_value { Some(v_) => v_, None => return None };
//@@ spec
    requires $p3 < old(self).pool.files@.len(), kind_named(*old(self).pool, $p1),
    ensures
        *final(self).pool == *old(self).pool,
        more(*old(self), *final(self), $p2 is Some && r is None),
        match $p2 { Some(t) => default_means(*old(self).pool, $p1, t@, encode_utf8(t@), r), None => r is None },
//@@ loop 0
    invariant
        0 <= k_ <= enum_.values@.len(), enum_named(*enum_), *self.pool == *old(self).pool, self.errors == old(self).errors,
        f_ is None ==> forall|i: int| 0 <= i < k_ ==> !#[trigger] value_called(enum_.values@[i], default_value@),
        f_ is Some ==> k_ > 0 && *f_->0 == enum_.values@[k_ - 1] && names_value(*enum_, k_ - 1, default_value@),
    decreases enum_.values@.len() - k_,
//@@ in-loop 0
    proof {
        let v = enum_.values@[k_ as int];
        assert(v.id.well_formed());
        assert forall|a: Seq<char>, b: Seq<char>| #[trigger] value_called(v, a) && #[trigger] v.id.name_of(b) implies a == b by { one_name(v.id, a, b); }
    }
//@@ end
}
fn main() {}
}
