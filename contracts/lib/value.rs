// ---- values and descriptors
use std::collections::HashMap;
//@@ item prost-reflect/src/dynamic/mod.rs enum Value
//@@ item prost-reflect/src/dynamic/mod.rs enum MapKey
//@@ item prost-reflect/src/descriptor/mod.rs enum Kind
//@@ item prost-reflect/src/descriptor/mod.rs const MAP_ENTRY_KEY_NUMBER
//@@ item prost-reflect/src/descriptor/mod.rs const MAP_ENTRY_VALUE_NUMBER
#[verifier::external_body]
pub struct MessageDescriptor { x: u8 }
#[verifier::external_body]
pub struct EnumDescriptor { x: u8 }
#[verifier::external_body]
pub struct FieldDescriptor { x: u8 }
#[verifier::external_body]
pub struct OneofDescriptor { x: u8 }

/// What the messages below use of a field or extension (its values never change).
pub trait FieldDescriptorLike {
    spec fn s_number(&self) -> u32;
    spec fn s_kind(&self) -> Kind;
    spec fn s_group(&self) -> bool;
    spec fn s_list(&self) -> bool;
    spec fn s_map(&self) -> bool;
    spec fn s_packed(&self) -> bool;
    spec fn s_packable(&self) -> bool;
    spec fn s_presence(&self) -> bool;
    spec fn s_default(&self) -> Value;
    spec fn s_is_default(&self, value: Value) -> bool;
    spec fn s_valid(&self, value: Value) -> bool;
    spec fn s_oneof(&self) -> Option<OneofDescriptor>;
    fn number(&self) -> (r: u32) ensures r == self.s_number();
    fn kind(&self) -> (r: Kind) ensures r == self.s_kind();
    fn is_group(&self) -> (r: bool) ensures r == self.s_group();
    fn is_list(&self) -> (r: bool) ensures r == self.s_list();
    fn is_map(&self) -> (r: bool) ensures r == self.s_map();
    fn is_packed(&self) -> (r: bool) ensures r == self.s_packed();
    fn is_packable(&self) -> (r: bool) ensures r == self.s_packable();
    fn supports_presence(&self) -> (r: bool) ensures r == self.s_presence();
    fn default_value(&self) -> (r: Value) ensures r == self.s_default();
    fn is_default_value(&self, value: &Value) -> (r: bool) ensures r == self.s_is_default(*value);
    fn is_valid(&self, value: &Value) -> (r: bool) ensures r == self.s_valid(*value);
    fn containing_oneof(&self) -> (r: Option<OneofDescriptor>) ensures r == self.s_oneof();
//@@ fn prost-reflect/src/dynamic/fields.rs FieldDescriptorLike::has
//@@ ret r
//@@ spec
    ensures r == (self.s_presence() || !self.s_is_default(*value)),
//@@ end
}
pub open spec fn packable(k: Kind) -> bool { !(k is String || k is Bytes || k is Message) }
pub open spec fn scalar_ok(v: Value, k: Kind) -> bool {
    match k {
        Kind::Bool => v is Bool,
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => v is I32,
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => v is I64,
        Kind::Uint32 | Kind::Fixed32 => v is U32,
        Kind::Uint64 | Kind::Fixed64 => v is U64,
        Kind::Float => v is F32,
        Kind::Double => v is F64,
        Kind::String => v is String,
        Kind::Bytes => v is Bytes,
        Kind::Enum(_) => v is EnumNumber,
        Kind::Message(_) => v is Message,
    }
}
pub open spec fn key_kind(k: Kind) -> bool { !(k is Float || k is Double || k is Bytes || k is Enum || k is Message) }
pub open spec fn key_ok(m: MapKey, k: Kind) -> bool {
    match k {
        Kind::Bool => m is Bool,
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => m is I32,
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => m is I64,
        Kind::Uint32 | Kind::Fixed32 => m is U32,
        Kind::Uint64 | Kind::Fixed64 => m is U64,
        Kind::String => m is String,
        _ => false,
    }
}
impl MessageDescriptor {
    pub uninterp spec fn s_field(&self, number: u32) -> Option<FieldDescriptor>;
    pub open spec fn key_field(&self) -> FieldDescriptor { self.s_field(1)->Some_0 }
    pub open spec fn value_field(&self) -> FieldDescriptor { self.s_field(2)->Some_0 }
    #[verifier::external_body]
    pub fn get_field(&self, number: u32) -> (r: Option<FieldDescriptor>) ensures r == self.s_field(number) { unimplemented!() }
    #[verifier::external_body]
    pub fn map_entry_key_field(&self) -> (r: FieldDescriptor) requires self.s_field(1) is Some, ensures r == self.key_field() { unimplemented!() }
    #[verifier::external_body]
    pub fn map_entry_value_field(&self) -> (r: FieldDescriptor) requires self.s_field(2) is Some, ensures r == self.value_field() { unimplemented!() }
}
impl FieldDescriptorLike for FieldDescriptor {
    uninterp spec fn s_number(&self) -> u32;
    uninterp spec fn s_kind(&self) -> Kind;
    uninterp spec fn s_group(&self) -> bool;
    uninterp spec fn s_list(&self) -> bool;
    uninterp spec fn s_map(&self) -> bool;
    uninterp spec fn s_packed(&self) -> bool;
    uninterp spec fn s_packable(&self) -> bool;
    uninterp spec fn s_presence(&self) -> bool;
    uninterp spec fn s_default(&self) -> Value;
    uninterp spec fn s_is_default(&self, value: Value) -> bool;
    uninterp spec fn s_valid(&self, value: Value) -> bool;
    uninterp spec fn s_oneof(&self) -> Option<OneofDescriptor>;
    #[verifier::external_body] fn number(&self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn kind(&self) -> (r: Kind) { unimplemented!() }
    #[verifier::external_body] fn is_group(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_list(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_map(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_packed(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_packable(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn supports_presence(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn default_value(&self) -> (r: Value) { unimplemented!() }
    #[verifier::external_body] fn is_default_value(&self, value: &Value) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_valid(&self, value: &Value) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn containing_oneof(&self) -> (r: Option<OneofDescriptor>) { unimplemented!() }
}
/// The parts of a singular field's descriptor.
pub open spec fn single_desc<D: FieldDescriptorLike + ?Sized>(d: &D) -> bool {
    &&& field_number(d.s_number())
    &&& d.s_group() ==> d.s_kind() is Message
    &&& d.s_packable() == packable(d.s_kind())
}
pub open spec fn entry_desc(m: MessageDescriptor) -> bool {
    &&& m.s_field(1) is Some && m.s_field(2) is Some
    &&& single_desc(&m.key_field()) && !m.key_field().s_list() && !m.key_field().s_map() && key_kind(m.key_field().s_kind()) && m.key_field().s_number() == 1
    &&& single_desc(&m.value_field()) && !m.value_field().s_list() && !m.value_field().s_map() && !m.value_field().s_packed() && m.value_field().s_number() == 2
    &&& scalar_ok(m.value_field().s_default(), m.value_field().s_kind())
}
/// What an accepted descriptor guarantees about a field.
pub open spec fn desc_ok<D: FieldDescriptorLike + ?Sized>(d: &D) -> bool {
    &&& single_desc(d)
    &&& d.s_packed() ==> d.s_list() && packable(d.s_kind())
    &&& !(d.s_list() && d.s_map())
    &&& d.s_list() ==> !d.s_presence() && forall|v: Value| #[trigger] d.s_is_default(v) ==> v is List && v->List_0@.len() == 0
    &&& d.s_map() ==> !d.s_presence() && d.s_kind() is Message && entry_desc(d.s_kind()->Message_0)
}
/// The contents of a map in the order in which it iterates, which is fixed while it is not changed.
pub uninterp spec fn entries(m: HashMap<MapKey, Value>) -> Seq<(MapKey, Value)>;
/// `for (key, value) in map` and `map.iter()` (assumed contracts of std)
#[verifier::external_body]
fn map_entries<'a>(m: &'a HashMap<MapKey, Value>) -> (r: Vec<(&'a MapKey, &'a Value)>)
    ensures r@.len() == entries(*m).len(), forall|i: int| 0 <= i < r@.len() ==> (*#[trigger] r@[i].0, *r@[i].1) == entries(*m)[i],
{ unimplemented!() }
/// A value of the field's type.
pub open spec fn value_ok<D: FieldDescriptorLike + ?Sized>(v: Value, d: &D) -> bool {
    if d.s_list() { v is List && forall|i: int| 0 <= i < v->List_0@.len() ==> scalar_ok(#[trigger] v->List_0@[i], d.s_kind()) }
    else if d.s_map() { v is Map && forall|i: int| 0 <= i < entries(v->Map_0).len() ==> entry_ok(#[trigger] entries(v->Map_0)[i], d.s_kind()->Message_0) }
    else { scalar_ok(v, d.s_kind()) }
}
pub open spec fn entry_ok(e: (MapKey, Value), m: MessageDescriptor) -> bool { key_ok(e.0, m.key_field().s_kind()) && scalar_ok(e.1, m.value_field().s_kind()) }
