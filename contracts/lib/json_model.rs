// ---- values, descriptors, and the JSON which the canonical mapping prescribes for them
use std::collections::HashMap;
//@@ item prost-reflect/src/dynamic/mod.rs enum Value
//@@ item prost-reflect/src/dynamic/mod.rs enum MapKey
//@@ item prost-reflect/src/descriptor/mod.rs enum Kind
//@@ item prost-reflect/src/dynamic/serde/mod.rs struct SerializeOptions
//@@ item prost-reflect/src/dynamic/serde/ser/mod.rs struct SerializeWrapper
//@@ item prost-reflect/src/dynamic/serde/ser/mod.rs struct ValueAndKind
#[verifier::external_body]
pub struct MessageDescriptor { x: u8 }
#[verifier::external_body]
pub struct EnumDescriptor { x: u8 }
#[verifier::external_body]
pub struct EnumValueDescriptor { x: u8 }
#[verifier::external_body]
pub struct FieldDescriptor { x: u8 }
#[verifier::external_body]
pub struct DynamicMessage { x: u8 }
#[verifier::external_body]
pub struct Bytes { x: u8 }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
/// The canonical (padded, standard alphabet) base64 text of bytes.
pub uninterp spec fn base64(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub struct Engine { x: u8 }
pub uninterp spec fn standard_alphabet(e: &Engine) -> bool;
exec static BASE64_STANDARD: Engine ensures standard_alphabet(&BASE64_STANDARD) { base64_standard() }
#[verifier::external_body]
const fn base64_standard() -> (r: Engine) ensures standard_alphabet(&r) { Engine { x: 0 } }
pub trait ByteSeq { spec fn byte_seq(&self) -> Seq<u8>; }
impl ByteSeq for Bytes { open spec fn byte_seq(&self) -> Seq<u8> { self@ } }
impl ByteSeq for Vec<u8> { open spec fn byte_seq(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub struct Base64Display { x: u8 }
impl Base64Display {
    #[verifier::external_body]
    pub fn new<B: ByteSeq>(b: &B, e: &Engine) -> (r: Base64Display) ensures standard_alphabet(e) ==> r.shown() == base64(b.byte_seq()) { unimplemented!() }
}
impl Display for Base64Display { uninterp spec fn shown(&self) -> Seq<char>; }

impl EnumValueDescriptor {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    pub uninterp spec fn s_number(&self) -> i32;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    #[verifier::external_body]
    pub fn number(&self) -> (r: i32) ensures r == self.s_number() { unimplemented!() }
}
impl EnumDescriptor {
    pub uninterp spec fn s_full_name(&self) -> Seq<char>;
    pub uninterp spec fn s_value(&self, number: i32) -> Option<EnumValueDescriptor>;
    pub uninterp spec fn s_named(&self, name: Seq<char>) -> Option<EnumValueDescriptor>;
    #[verifier::external_body]
    pub fn full_name(&self) -> (r: &str) ensures r@ == self.s_full_name() { unimplemented!() }
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_value(&self, number: i32) -> (r: Option<EnumValueDescriptor>) ensures r == self.s_value(number) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_value_by_name(&self, name: &str) -> (r: Option<EnumValueDescriptor>) ensures r == self.s_named(name@) { unimplemented!() }
}
/// What lookups in an accepted enum guarantee (P08, P10).
pub open spec fn enum_ok(e: EnumDescriptor) -> bool {
    forall|n: i32| (#[trigger] e.s_value(n)) is Some ==> e.s_named(e.s_value(n)->Some_0.s_name()) is Some && e.s_named(e.s_value(n)->Some_0.s_name())->Some_0.s_number() == n
}
pub open spec fn null_enum(e: EnumDescriptor) -> bool { e.s_full_name() == "google.protobuf.NullValue"@ }
#[verifier::external_body]
pub struct ExtensionDescriptor { x: u8 }
#[verifier::external_body]
pub struct OneofDescriptor { x: u8 }
impl OneofDescriptor {
    pub uninterp spec fn s_fields(&self) -> Seq<FieldDescriptor>;
    #[verifier::external_body]
    pub fn fields(&self) -> (r: Vec<FieldDescriptor>) ensures r@ == self.s_fields() { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> &str { unimplemented!() }
}
impl FieldDescriptor {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    /// The field counts as present whenever it is stored.
    pub uninterp spec fn s_presence(&self) -> bool;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    #[verifier::external_body]
    pub fn json_name(&self) -> (r: &str) ensures r@ == self.s_json_name() { unimplemented!() }
    #[verifier::external_body]
    pub fn containing_oneof(&self) -> (r: Option<OneofDescriptor>) ensures r == self.s_oneof() { unimplemented!() }
}
impl ExtensionDescriptor {
    #[verifier::external_body]
    pub fn json_name(&self) -> (r: &str) ensures r@ == self.s_json_name() { unimplemented!() }
}
/// What is used of a field or an extension here.
pub trait FieldDescriptorLike {
    spec fn s_kind(&self) -> Kind;
    spec fn s_list(&self) -> bool;
    spec fn s_map(&self) -> bool;
    spec fn s_number(&self) -> u32;
    spec fn s_json_name(&self) -> Seq<char>;
    spec fn s_oneof(&self) -> Option<OneofDescriptor>;
    fn kind(&self) -> (r: Kind) ensures r == self.s_kind();
    fn is_list(&self) -> (r: bool) ensures r == self.s_list();
    fn is_map(&self) -> (r: bool) ensures r == self.s_map();
}
impl FieldDescriptorLike for FieldDescriptor {
    uninterp spec fn s_kind(&self) -> Kind;
    uninterp spec fn s_list(&self) -> bool;
    uninterp spec fn s_map(&self) -> bool;
    uninterp spec fn s_number(&self) -> u32;
    uninterp spec fn s_json_name(&self) -> Seq<char>;
    uninterp spec fn s_oneof(&self) -> Option<OneofDescriptor>;
    #[verifier::external_body] fn kind(&self) -> (r: Kind) { unimplemented!() }
    #[verifier::external_body] fn is_list(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_map(&self) -> (r: bool) { unimplemented!() }
}
impl FieldDescriptorLike for ExtensionDescriptor {
    uninterp spec fn s_kind(&self) -> Kind;
    uninterp spec fn s_list(&self) -> bool;
    uninterp spec fn s_map(&self) -> bool;
    uninterp spec fn s_number(&self) -> u32;
    uninterp spec fn s_json_name(&self) -> Seq<char>;
    open spec fn s_oneof(&self) -> Option<OneofDescriptor> { None }
    #[verifier::external_body] fn kind(&self) -> (r: Kind) { unimplemented!() }
    #[verifier::external_body] fn is_list(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_map(&self) -> (r: bool) { unimplemented!() }
}
pub open spec fn entry_desc(m: MessageDescriptor) -> bool {
    &&& m.s_entry()
    &&& !m.key_field().s_list() && !m.key_field().s_map() && key_kind(m.key_field().s_kind())
    &&& !m.value_field().s_list() && !m.value_field().s_map()
}
pub open spec fn entry_kind(k: Kind) -> bool { k is Message && entry_desc(k->Message_0) }
pub open spec fn key_kind(k: Kind) -> bool { !(k is Float || k is Double || k is Bytes || k is Enum || k is Message) }
/// What an accepted descriptor guarantees about a field.
pub open spec fn field_ok<D: FieldDescriptorLike + ?Sized>(d: &D) -> bool { !(d.s_list() && d.s_map()) && (d.s_map() ==> entry_kind(d.s_kind())) }
impl MessageDescriptor {
    pub uninterp spec fn s_full_name(&self) -> Seq<char>;
    pub uninterp spec fn s_entry(&self) -> bool;
    pub uninterp spec fn key_field(&self) -> FieldDescriptor;
    pub uninterp spec fn value_field(&self) -> FieldDescriptor;
    #[verifier::external_body]
    pub fn full_name(&self) -> (r: &str) ensures r@ == self.s_full_name() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_map_entry(&self) -> (r: bool) ensures r == self.s_entry() { unimplemented!() }
    #[verifier::external_body]
    pub fn map_entry_key_field(&self) -> (r: FieldDescriptor) requires self.s_entry(), ensures r == self.key_field() { unimplemented!() }
    #[verifier::external_body]
    pub fn map_entry_value_field(&self) -> (r: FieldDescriptor) requires self.s_entry(), ensures r == self.value_field() { unimplemented!() }
}
/// The contents of a map in the order in which it iterates, which is fixed while it is not changed.
pub uninterp spec fn entries(m: HashMap<MapKey, Value>) -> Seq<(MapKey, Value)>;
/// `for (key, value) in map` (assumed contract of std)
#[verifier::external_body]
fn map_entries<'a>(m: &'a HashMap<MapKey, Value>) -> (r: Vec<(&'a MapKey, &'a Value)>)
    ensures r@.len() == entries(*m).len(), forall|i: int| 0 <= i < r@.len() ==> (*#[trigger] r@[i].0, *r@[i].1) == entries(*m)[i],
{ unimplemented!() }
#[verifier::external_body]
fn unreached<T>() -> (r: T) requires false { unimplemented!() }

pub open spec fn key_text(k: MapKey) -> Seq<char> {
    match k {
        MapKey::Bool(b) => bool_text(b),
        MapKey::I32(i) => dec(i as int),
        MapKey::I64(i) => dec(i as int),
        MapKey::U32(i) => dec(i as int),
        MapKey::U64(i) => dec(i as int),
        MapKey::String(s) => s@,
    }
}
/// The JSON of a message, which is the contract of its own serialization.
pub uninterp spec fn message_json(m: DynamicMessage, o: SerializeOptions) -> Json;
/// It has such a JSON (a timestamp out of range has none, and neither has what it is in).
pub uninterp spec fn message_writes(m: DynamicMessage, o: SerializeOptions) -> bool;
pub open spec fn scalar_writes(v: Value, o: SerializeOptions) -> bool { v is Message ==> message_writes(v->Message_0, o) }
pub open spec fn value_writes(v: Value, o: SerializeOptions) -> bool {
    match v {
        Value::List(vs) => forall|i: int| 0 <= i < vs@.len() ==> scalar_writes(#[trigger] vs@[i], o),
        Value::Map(m) => forall|i: int| 0 <= i < entries(m).len() ==> scalar_writes((#[trigger] entries(m)[i]).1, o),
        _ => scalar_writes(v, o),
    }
}
/// The canonical JSON of a value which is neither a list nor a map.
pub open spec fn scalar_json(v: Value, k: Kind, o: SerializeOptions) -> Json {
    match v {
        Value::Bool(b) => Json::Bool(b),
        Value::I32(i) => Json::Int(i as int),
        Value::U32(i) => Json::Int(i as int),
        Value::I64(i) => if o.stringify_64_bit_integers { Json::Str(dec(i as int)) } else { Json::Int(i as int) },
        Value::U64(i) => if o.stringify_64_bit_integers { Json::Str(dec(i as int)) } else { Json::Int(i as int) },
        Value::F32(f) => f32_json(f),
        Value::F64(f) => f64_json(f),
        Value::String(s) => Json::Str(s@),
        Value::Bytes(b) => Json::Str(base64(b@)),
        Value::EnumNumber(n) =>
            if null_enum(k->Enum_0) { Json::Null }
            else if o.use_enum_numbers || k->Enum_0.s_value(n) is None { Json::Int(n as int) }
            else { Json::Str(k->Enum_0.s_value(n)->Some_0.s_name()) },
        Value::Message(m) => message_json(m, o),
        _ => Json::Null,
    }
}
pub open spec fn list_json(vs: Seq<Value>, k: Kind, o: SerializeOptions) -> Seq<Json> { vs.map_values(|v: Value| scalar_json(v, k, o)) }
pub open spec fn member_json(e: (MapKey, Value), k: Kind, o: SerializeOptions) -> (Seq<char>, Json) { (key_text(e.0), scalar_json(e.1, k, o)) }
pub open spec fn map_json(es: Seq<(MapKey, Value)>, k: Kind, o: SerializeOptions) -> Seq<(Seq<char>, Json)> { es.map_values(|e: (MapKey, Value)| member_json(e, k, o)) }
pub open spec fn value_json(v: Value, k: Kind, o: SerializeOptions) -> Json {
    match v {
        Value::List(vs) => Json::Arr(list_json(vs@, k, o)),
        Value::Map(m) => Json::Obj(map_json(entries(m), k->Message_0.value_field().s_kind(), o)),
        _ => scalar_json(v, k, o),
    }
}
pub open spec fn scalar_ok(v: Value, k: Kind) -> bool {
    match k {
        Kind::Bool => v is Bool,
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => v is I32,
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => v is I64,
        Kind::Uint32 | Kind::Fixed32 => v is U32,
        Kind::Uint64 | Kind::Fixed64 => v is U64,
        Kind::Float => v is F32,
        Kind::Double => v is F64,
        Kind::String => v is String,
        Kind::Bytes => v is Bytes,
        Kind::Enum(_) => v is EnumNumber,
        Kind::Message(_) => v is Message,
    }
}
pub open spec fn key_ok(m: MapKey, k: Kind) -> bool {
    match k {
        Kind::Bool => m is Bool,
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => m is I32,
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => m is I64,
        Kind::Uint32 | Kind::Fixed32 => m is U32,
        Kind::Uint64 | Kind::Fixed64 => m is U64,
        Kind::String => m is String,
        _ => false,
    }
}
impl Kind {
//@@ fn prost-reflect/src/descriptor/api.rs Kind::as_message
//@@ ret r
//@@ spec
    ensures *self is Message ==> r == Some(&self->Message_0), !(*self is Message) ==> r is None,
//@@ end
}
/// A value of a field of this kind (P06).
pub open spec fn typed(v: Value, k: Kind) -> bool {
    match v {
        Value::List(vs) => forall|i: int| 0 <= i < vs@.len() ==> scalar_ok(#[trigger] vs@[i], k),
        Value::Map(m) => entry_kind(k)
            && forall|i: int| 0 <= i < entries(m).len() ==> key_ok((#[trigger] entries(m)[i]).0, k->Message_0.key_field().s_kind()) && scalar_ok(entries(m)[i].1, k->Message_0.value_field().s_kind()),
        _ => scalar_ok(v, k),
    }
}
impl DynamicMessage {
    #[verifier::external_body]
    pub fn serialize_with_options(&self, s: Ser, o: &SerializeOptions) -> (r: Result<Out, SerError>) ensures r is Ok ==> r->Ok_0.json() == message_json(*self, *o), r is Err ==> !message_writes(*self, *o) { unimplemented!() }
}
/// serde calls `serialize` of what it is given; the contracts of those, below, are what it produces.
impl SeqSer {
    #[verifier::external_body]
    pub fn serialize_element(&mut self, w: &SerializeWrapper<ValueAndKind>) -> (r: Result<(), SerError>)
        requires typed(*w.value.value, *w.value.kind),
        ensures r is Ok ==> final(self).items() == old(self).items().push(value_json(*w.value.value, *w.value.kind, *w.options)), r is Err ==> !value_writes(*w.value.value, *w.options),
    { unimplemented!() }
}
pub trait Member { spec fn m_json(&self) -> Json; spec fn m_writes(&self) -> bool; spec fn m_ready(&self) -> bool; }
impl Member for SerializeWrapper<'_, ValueAndKind<'_>> {
    open spec fn m_json(&self) -> Json { value_json(*self.value.value, *self.value.kind, *self.options) }
    open spec fn m_writes(&self) -> bool { value_writes(*self.value.value, *self.options) }
    open spec fn m_ready(&self) -> bool { typed(*self.value.value, *self.value.kind) }
}
pub trait MemberKey { spec fn k_text(&self) -> Seq<char>; }
impl MemberKey for SerializeWrapper<'_, MapKey> { open spec fn k_text(&self) -> Seq<char> { key_text(*self.value) } }
impl MemberKey for str { open spec fn k_text(&self) -> Seq<char> { self@ } }
impl MapSer {
    #[verifier::external_body]
    pub fn serialize_entry<K: MemberKey + ?Sized, V: Member>(&mut self, k: &K, v: &V) -> (r: Result<(), SerError>)
        requires v.m_ready(),
        ensures r is Ok ==> final(self).members() == old(self).members().push((k.k_text(), v.m_json())), r is Err ==> !v.m_writes(),
    { unimplemented!() }
}
