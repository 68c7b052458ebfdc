//@@ props P07
//@@ include head.rs
//@@ include wire.rs
//@@ include prost.rs
//@@ include value.rs
//@@ include opaque_message.rs
//@@ include nested.rs
//@@ include extension.rs
/// A panic that is never reached.
#[verifier::external_body]
fn unreached<A>() -> A requires false { unimplemented!() }
/// `iter().all(..)` over a list and over the entries of a map (assumed contracts of std)
#[verifier::external_body]
fn all_of<T, F: Fn(&T) -> bool>(xs: &Vec<T>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < xs@.len() ==> call_requires(f, (&#[trigger] xs@[i],)),
    ensures
        r ==> forall|i: int| 0 <= i < xs@.len() ==> call_ensures(f, (&#[trigger] xs@[i],), true),
        !r ==> exists|i: int| 0 <= i < xs@.len() && call_ensures(f, (&#[trigger] xs@[i],), false),
{ unimplemented!() }
#[verifier::external_body]
fn all_entries<F: Fn((&MapKey, &Value)) -> bool>(m: &HashMap<MapKey, Value>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < entries(*m).len() ==> call_requires(f, ((&(#[trigger] entries(*m)[i]).0, &entries(*m)[i].1),)),
    ensures
        r ==> forall|i: int| 0 <= i < entries(*m).len() ==> call_ensures(f, ((&(#[trigger] entries(*m)[i]).0, &entries(*m)[i].1),), true),
        !r ==> exists|i: int| 0 <= i < entries(*m).len() && call_ensures(f, ((&(#[trigger] entries(*m)[i]).0, &entries(*m)[i].1),), false),
{ unimplemented!() }

impl MapKey {
//@@ fn prost-reflect/src/dynamic/mod.rs MapKey::default_value
//@@ subst panic ! $m:tt ==>> unreached()
//@@ subst? String :: default ( ) ==>> String::new()
//@@ ret r
//@@ spec
    requires key_kind(*kind),
    ensures key_ok(r, *kind),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs MapKey::is_valid
//@@ ret r
//@@ spec
    ensures r == key_ok(*self, *kind),
//@@ end
}
impl Value {
//@@ fn prost-reflect/src/dynamic/mod.rs Value::is_valid
//@@ ret r
//@@ spec
    ensures r == scalar_ok(*self, *kind),
//@@ end
#[verifier::exec_allows_no_decreases_clause]
//@@ fn prost-reflect/src/dynamic/mod.rs Value::is_valid_for_field
//@@ subst? list . iter ( ) . all ( | value | $b:tt ) ==>> all_of(list, |value: &Value| -> (o: bool) ensures o == scalar_ok(*value, kind) $b)
//@@ subst? list . iter ( ) . all ( | value | value . is_valid ( & kind ) ) ==>> all_of(list, |value: &Value| -> (o: bool) ensures o == scalar_ok(*value, kind) { value.is_valid(&kind) })
//@@ subst? map . iter ( ) . all ( | ( key , value ) | $b:tt ) ==>> all_entries(map, |e__: (&MapKey, &Value)| -> (o: bool) requires entry_desc(message_desc), key_desc == message_desc.key_field().s_kind(), value_desc == message_desc.value_field() ensures o == entry_ok((*e__.0, *e__.1), message_desc) { let (key, value) = e__; $b })
//@@ ret r
//@@ spec
    requires desc_ok(field_desc),
    ensures r == value_ok(*self, field_desc),
//@@ end
#[verifier::exec_allows_no_decreases_clause]
//@@ fn prost-reflect/src/dynamic/mod.rs Value::is_valid_for_extension
//@@ subst? list . iter ( ) . all ( | value | $b:tt ) ==>> all_of(list, |value: &Value| -> (o: bool) ensures o == scalar_ok(*value, kind) $b)
//@@ subst? list . iter ( ) . all ( | value | value . is_valid ( & kind ) ) ==>> all_of(list, |value: &Value| -> (o: bool) ensures o == scalar_ok(*value, kind) { value.is_valid(&kind) })
//@@ subst? map . iter ( ) . all ( | ( key , value ) | $b:tt ) ==>> all_entries(map, |e__: (&MapKey, &Value)| -> (o: bool) requires entry_desc(message_desc), key_desc == message_desc.key_field().s_kind(), value_desc == message_desc.value_field() ensures o == entry_ok((*e__.0, *e__.1), message_desc) { let (key, value) = e__; $b })
//@@ ret r
//@@ spec
    requires desc_ok(extension_desc),
    ensures r == value_ok(*self, extension_desc),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs Value::into_map_key
//@@ ret r
//@@ spec
    ensures
        forall|k: Kind| key_kind(k) && #[trigger] scalar_ok(self, k) ==> r is Some && key_ok(r->Some_0, k),
        r is Some ==> self == key_value(r->Some_0),
        r is None ==> self is F32 || self is F64 || self is EnumNumber || self is Bytes || self is Message || self is List || self is Map,
//@@ end
}
/// The value a key stands for.
pub open spec fn key_value(m: MapKey) -> Value {
    match m { MapKey::Bool(v) => Value::Bool(v), MapKey::I32(v) => Value::I32(v), MapKey::I64(v) => Value::I64(v), MapKey::U32(v) => Value::U32(v), MapKey::U64(v) => Value::U64(v), MapKey::String(v) => Value::String(v) }
}
impl Value {
//@@ fn prost-reflect/src/dynamic/mod.rs From for Value::from
//@@ ret r
//@@ spec
    ensures r == key_value(value), forall|k: Kind| #[trigger] key_ok(value, k) ==> scalar_ok(r, k),
//@@ end
}

} // verus!
fn main() {}
