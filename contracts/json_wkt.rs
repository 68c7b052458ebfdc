//@@ props P13
//@@ include head.rs
use vstd::string::*;
//@@ include json.rs
//@@ include json_model.rs
//@@ include json_read.rs
//@@ include json_visitors.rs
impl Error for SerError { #[verifier::external_body] fn custom<T>(m: T) -> SerError { unimplemented!() } }
impl DynamicMessage {
    pub uninterp spec fn s_desc(&self) -> MessageDescriptor;
    #[verifier::external_body]
    pub fn descriptor(&self) -> (r: MessageDescriptor) ensures r == self.s_desc() { unimplemented!() }
}
pub mod prost_types {
    use super::*;
    pub struct Any { pub type_url: String, pub value: Vec<u8> }
    pub struct Timestamp { pub seconds: i64, pub nanos: i32 }
    pub struct Duration { pub seconds: i64, pub nanos: i32 }
    pub struct FieldMask { pub paths: Vec<String> }
    pub struct ListValue { pub values: Vec<Value> }
    pub struct Struct { pub fields: Fields }
    pub struct Value { pub kind: Option<value::Kind> }
    /// BTreeMap<String, Value>
    #[verifier::external_body]
    pub struct Fields { x: u8 }
    pub mod value {
        use super::*;
        pub enum Kind { NullValue(i32), NumberValue(f64), StringValue(String), BoolValue(bool), StructValue(Struct), ListValue(ListValue) }
    }
}
use prost_types::Fields;
pub uninterp spec fn zero32(v: f32) -> bool;
pub uninterp spec fn zero64(v: f64) -> bool;
pub broadcast axiom fn zeros32(v: f32) ensures #[trigger] zero32(v) ==> fin32(v);
pub broadcast axiom fn zeros64(v: f64) ensures #[trigger] zero64(v) ==> fin64(v);
/// Both zeros are equal.
pub open spec fn same_f32(a: f32, b: f32) -> bool { a == b || zero32(a) && zero32(b) || nan32(a) && nan32(b) }
pub open spec fn same_f64(a: f64, b: f64) -> bool { a == b || zero64(a) && zero64(b) || nan64(a) && nan64(b) }
pub open spec fn strings(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
/// The generated type which a message of this name transcodes to (assumed contract of transcode_to and transcode_from: P16-style round trip through the wire).
pub trait Inner: Sized {
    spec fn of(m: DynamicMessage) -> Option<Self>;
    /// Equal as far as the wire tells.
    spec fn same(a: Self, b: Self) -> bool;
    spec fn named(n: Seq<char>) -> bool;
}
impl Inner for f32 { uninterp spec fn of(m: DynamicMessage) -> Option<f32>; open spec fn same(a: f32, b: f32) -> bool { same_f32(a, b) } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.FloatValue"@ } }
impl Inner for f64 { uninterp spec fn of(m: DynamicMessage) -> Option<f64>; open spec fn same(a: f64, b: f64) -> bool { same_f64(a, b) } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.DoubleValue"@ } }
impl Inner for i32 { uninterp spec fn of(m: DynamicMessage) -> Option<i32>; open spec fn same(a: i32, b: i32) -> bool { a == b } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.Int32Value"@ } }
impl Inner for i64 { uninterp spec fn of(m: DynamicMessage) -> Option<i64>; open spec fn same(a: i64, b: i64) -> bool { a == b } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.Int64Value"@ } }
impl Inner for u32 { uninterp spec fn of(m: DynamicMessage) -> Option<u32>; open spec fn same(a: u32, b: u32) -> bool { a == b } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.UInt32Value"@ } }
impl Inner for u64 { uninterp spec fn of(m: DynamicMessage) -> Option<u64>; open spec fn same(a: u64, b: u64) -> bool { a == b } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.UInt64Value"@ } }
impl Inner for bool { uninterp spec fn of(m: DynamicMessage) -> Option<bool>; open spec fn same(a: bool, b: bool) -> bool { a == b } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.BoolValue"@ } }
impl Inner for String { uninterp spec fn of(m: DynamicMessage) -> Option<String>; open spec fn same(a: String, b: String) -> bool { a@ == b@ } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.StringValue"@ } }
impl Inner for Vec<u8> { uninterp spec fn of(m: DynamicMessage) -> Option<Vec<u8>>; open spec fn same(a: Vec<u8>, b: Vec<u8>) -> bool { a@ == b@ } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.BytesValue"@ } }
impl Inner for Bytes { uninterp spec fn of(m: DynamicMessage) -> Option<Bytes>; open spec fn same(a: Bytes, b: Bytes) -> bool { a@ == b@ } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.BytesValue"@ } }
impl Inner for () { uninterp spec fn of(m: DynamicMessage) -> Option<()>; open spec fn same(a: (), b: ()) -> bool { true } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.Empty"@ } }
impl Inner for prost_types::Any { uninterp spec fn of(m: DynamicMessage) -> Option<prost_types::Any>; open spec fn same(a: prost_types::Any, b: prost_types::Any) -> bool { a.type_url@ == b.type_url@ && a.value@ == b.value@ } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.Any"@ } }
impl Inner for prost_types::Timestamp { uninterp spec fn of(m: DynamicMessage) -> Option<prost_types::Timestamp>; open spec fn same(a: prost_types::Timestamp, b: prost_types::Timestamp) -> bool { a == b } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.Timestamp"@ } }
impl Inner for prost_types::Duration { uninterp spec fn of(m: DynamicMessage) -> Option<prost_types::Duration>; open spec fn same(a: prost_types::Duration, b: prost_types::Duration) -> bool { a == b } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.Duration"@ } }
impl Inner for prost_types::FieldMask { uninterp spec fn of(m: DynamicMessage) -> Option<prost_types::FieldMask>; open spec fn same(a: prost_types::FieldMask, b: prost_types::FieldMask) -> bool { strings(a.paths@) == strings(b.paths@) } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.FieldMask"@ } }
impl Inner for prost_types::Struct { uninterp spec fn of(m: DynamicMessage) -> Option<prost_types::Struct>; open spec fn same(a: prost_types::Struct, b: prost_types::Struct) -> bool { same_struct(a, b) } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.Struct"@ } }
impl Inner for prost_types::ListValue { uninterp spec fn of(m: DynamicMessage) -> Option<prost_types::ListValue>; open spec fn same(a: prost_types::ListValue, b: prost_types::ListValue) -> bool { same_values(a.values@, b.values@) } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.ListValue"@ } }
impl Inner for prost_types::Value { uninterp spec fn of(m: DynamicMessage) -> Option<prost_types::Value>; open spec fn same(a: prost_types::Value, b: prost_types::Value) -> bool { same_pv(a, b) } open spec fn named(n: Seq<char>) -> bool { n == "google.protobuf.Value"@ } }
impl DynamicMessage {
    #[verifier::external_body]
    pub fn transcode_to<T: Inner>(&self) -> (r: Result<T, SerError>) ensures res(r) == T::of(*self) { unimplemented!() }
}
/// Nested more than prost's recursion limit allows.
pub uninterp spec fn too_deep<T>(t: T) -> bool;
#[verifier::external_body]
fn make_message<T: Inner>(desc: &MessageDescriptor, message: T) -> (r: Result<DynamicMessage, DeError>)
    ensures r is Ok ==> made(*desc, message, r->Ok_0), T::named(desc.s_full_name()) && !too_deep(message) ==> r is Ok,
{ unimplemented!() }
pub open spec fn made<T: Inner>(desc: MessageDescriptor, message: T, m: DynamicMessage) -> bool { m.s_desc() == desc && T::of(m) is Some && T::same(message, T::of(m)->Some_0) }
// ---- the types with a JSON form of their own
pub enum Wkt { Any, Timestamp, Duration, Struct, Float, Double, Int32, Int64, Uint32, Uint64, Bool, String, Bytes, FieldMask, List, Value, Empty }
pub open spec fn wkt_of(n: Seq<char>) -> Option<Wkt> {
    if n == "google.protobuf.Any"@ { Some(Wkt::Any) }
    else if n == "google.protobuf.Timestamp"@ { Some(Wkt::Timestamp) }
    else if n == "google.protobuf.Duration"@ { Some(Wkt::Duration) }
    else if n == "google.protobuf.Struct"@ { Some(Wkt::Struct) }
    else if n == "google.protobuf.FloatValue"@ { Some(Wkt::Float) }
    else if n == "google.protobuf.DoubleValue"@ { Some(Wkt::Double) }
    else if n == "google.protobuf.Int32Value"@ { Some(Wkt::Int32) }
    else if n == "google.protobuf.Int64Value"@ { Some(Wkt::Int64) }
    else if n == "google.protobuf.UInt32Value"@ { Some(Wkt::Uint32) }
    else if n == "google.protobuf.UInt64Value"@ { Some(Wkt::Uint64) }
    else if n == "google.protobuf.BoolValue"@ { Some(Wkt::Bool) }
    else if n == "google.protobuf.StringValue"@ { Some(Wkt::String) }
    else if n == "google.protobuf.BytesValue"@ { Some(Wkt::Bytes) }
    else if n == "google.protobuf.FieldMask"@ { Some(Wkt::FieldMask) }
    else if n == "google.protobuf.ListValue"@ { Some(Wkt::List) }
    else if n == "google.protobuf.Value"@ { Some(Wkt::Value) }
    else if n == "google.protobuf.Empty"@ { Some(Wkt::Empty) }
    else { None }
}
proof fn wkt_names()
    ensures
        wkt_of("google.protobuf.Any"@) == Some(Wkt::Any),
        wkt_of("google.protobuf.Timestamp"@) == Some(Wkt::Timestamp),
        wkt_of("google.protobuf.Duration"@) == Some(Wkt::Duration),
        wkt_of("google.protobuf.Struct"@) == Some(Wkt::Struct),
        wkt_of("google.protobuf.FloatValue"@) == Some(Wkt::Float),
        wkt_of("google.protobuf.DoubleValue"@) == Some(Wkt::Double),
        wkt_of("google.protobuf.Int32Value"@) == Some(Wkt::Int32),
        wkt_of("google.protobuf.Int64Value"@) == Some(Wkt::Int64),
        wkt_of("google.protobuf.UInt32Value"@) == Some(Wkt::Uint32),
        wkt_of("google.protobuf.UInt64Value"@) == Some(Wkt::Uint64),
        wkt_of("google.protobuf.BoolValue"@) == Some(Wkt::Bool),
        wkt_of("google.protobuf.StringValue"@) == Some(Wkt::String),
        wkt_of("google.protobuf.BytesValue"@) == Some(Wkt::Bytes),
        wkt_of("google.protobuf.FieldMask"@) == Some(Wkt::FieldMask),
        wkt_of("google.protobuf.ListValue"@) == Some(Wkt::List),
        wkt_of("google.protobuf.Value"@) == Some(Wkt::Value),
        wkt_of("google.protobuf.Empty"@) == Some(Wkt::Empty),
{

    reveal_strlit("google.protobuf.Any");
    reveal_strlit("google.protobuf.Timestamp");
    reveal_strlit("google.protobuf.Duration");
    reveal_strlit("google.protobuf.Struct");
    reveal_strlit("google.protobuf.FloatValue");
    reveal_strlit("google.protobuf.DoubleValue");
    reveal_strlit("google.protobuf.Int32Value");
    reveal_strlit("google.protobuf.Int64Value");
    reveal_strlit("google.protobuf.UInt32Value");
    reveal_strlit("google.protobuf.UInt64Value");
    reveal_strlit("google.protobuf.BoolValue");
    reveal_strlit("google.protobuf.StringValue");
    reveal_strlit("google.protobuf.BytesValue");
    reveal_strlit("google.protobuf.FieldMask");
    reveal_strlit("google.protobuf.ListValue");
    reveal_strlit("google.protobuf.Value");
    reveal_strlit("google.protobuf.Empty");
    assert("google.protobuf.Any"@.len() == 19);
    assert("google.protobuf.Timestamp"@.len() == 25);
    assert("google.protobuf.Duration"@.len() == 24);
    assert("google.protobuf.Struct"@.len() == 22);
    assert("google.protobuf.FloatValue"@.len() == 26);
    assert("google.protobuf.DoubleValue"@.len() == 27);
    assert("google.protobuf.Int32Value"@.len() == 26);
    assert("google.protobuf.Int64Value"@.len() == 26);
    assert("google.protobuf.UInt32Value"@.len() == 27);
    assert("google.protobuf.UInt64Value"@.len() == 27);
    assert("google.protobuf.BoolValue"@.len() == 25);
    assert("google.protobuf.StringValue"@.len() == 27);
    assert("google.protobuf.BytesValue"@.len() == 26);
    assert("google.protobuf.FieldMask"@.len() == 25);
    assert("google.protobuf.ListValue"@.len() == 25);
    assert("google.protobuf.Value"@.len() == 21);
    assert("google.protobuf.Empty"@.len() == 21);
    assert("google.protobuf.Int32Value"@[16] != "google.protobuf.FloatValue"@[16]);
    assert("google.protobuf.Int64Value"@[16] != "google.protobuf.FloatValue"@[16]);
    assert("google.protobuf.Int64Value"@[19] != "google.protobuf.Int32Value"@[19]);
    assert("google.protobuf.UInt32Value"@[16] != "google.protobuf.DoubleValue"@[16]);
    assert("google.protobuf.UInt64Value"@[16] != "google.protobuf.DoubleValue"@[16]);
    assert("google.protobuf.UInt64Value"@[20] != "google.protobuf.UInt32Value"@[20]);
    assert("google.protobuf.BoolValue"@[16] != "google.protobuf.Timestamp"@[16]);
    assert("google.protobuf.StringValue"@[16] != "google.protobuf.DoubleValue"@[16]);
    assert("google.protobuf.StringValue"@[16] != "google.protobuf.UInt32Value"@[16]);
    assert("google.protobuf.StringValue"@[16] != "google.protobuf.UInt64Value"@[16]);
    assert("google.protobuf.BytesValue"@[16] != "google.protobuf.FloatValue"@[16]);
    assert("google.protobuf.BytesValue"@[16] != "google.protobuf.Int32Value"@[16]);
    assert("google.protobuf.BytesValue"@[16] != "google.protobuf.Int64Value"@[16]);
    assert("google.protobuf.FieldMask"@[16] != "google.protobuf.Timestamp"@[16]);
    assert("google.protobuf.FieldMask"@[16] != "google.protobuf.BoolValue"@[16]);
    assert("google.protobuf.ListValue"@[16] != "google.protobuf.Timestamp"@[16]);
    assert("google.protobuf.ListValue"@[16] != "google.protobuf.BoolValue"@[16]);
    assert("google.protobuf.ListValue"@[16] != "google.protobuf.FieldMask"@[16]);
    assert("google.protobuf.Empty"@[16] != "google.protobuf.Value"@[16]);
}
//@@ fn prost-reflect/src/dynamic/serde/mod.rs is_well_known_type
//@@ ret r
//@@ spec
    ensures r == (wkt_of(full_name@) is Some),
//@@ start
    broadcast use str_ext;
    proof { wkt_names(); }
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs get_well_known_type_serializer
//@@ sig fn get_well_known_type_serializer(full_name: &str) -> (r: Option<Wkt>)
//@@ subst? Some ( serialize_any ) ==>> Some(Wkt::Any)
//@@ subst? Some ( serialize_timestamp ) ==>> Some(Wkt::Timestamp)
//@@ subst? Some ( serialize_duration ) ==>> Some(Wkt::Duration)
//@@ subst? Some ( serialize_struct ) ==>> Some(Wkt::Struct)
//@@ subst? Some ( serialize_float ) ==>> Some(Wkt::Float)
//@@ subst? Some ( serialize_double ) ==>> Some(Wkt::Double)
//@@ subst? Some ( serialize_int32 ) ==>> Some(Wkt::Int32)
//@@ subst? Some ( serialize_int64 ) ==>> Some(Wkt::Int64)
//@@ subst? Some ( serialize_uint32 ) ==>> Some(Wkt::Uint32)
//@@ subst? Some ( serialize_uint64 ) ==>> Some(Wkt::Uint64)
//@@ subst? Some ( serialize_bool ) ==>> Some(Wkt::Bool)
//@@ subst? Some ( serialize_string ) ==>> Some(Wkt::String)
//@@ subst? Some ( serialize_bytes ) ==>> Some(Wkt::Bytes)
//@@ subst? Some ( serialize_field_mask ) ==>> Some(Wkt::FieldMask)
//@@ subst? Some ( serialize_list ) ==>> Some(Wkt::List)
//@@ subst? Some ( serialize_value ) ==>> Some(Wkt::Value)
//@@ subst? Some ( serialize_empty ) ==>> Some(Wkt::Empty)
//@@ subst? debug_assert ! $x:tt ; =>
//@@ spec
    ensures r == wkt_of(full_name@),
//@@ start
    broadcast use str_ext;
    proof { wkt_names(); }
//@@ end

/// Calls the function which the table names.
fn call_serializer(w: Wkt, msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
    requires wkt_of(msg.s_desc().s_full_name()) == Some(w),
    ensures
        r is Ok ==> r->Ok_0.json() == own_json(w, *msg, *options),
        r is Err ==> !own_writes(w, *msg, *options),
{
    match w {
        Wkt::Any => serialize_any(msg, serializer, options),
        Wkt::Timestamp => serialize_timestamp(msg, serializer, options),
        Wkt::Duration => serialize_duration(msg, serializer, options),
        Wkt::Struct => serialize_struct(msg, serializer, options),
        Wkt::Float => serialize_float(msg, serializer, options),
        Wkt::Double => serialize_double(msg, serializer, options),
        Wkt::Int32 => serialize_int32(msg, serializer, options),
        Wkt::Int64 => serialize_int64(msg, serializer, options),
        Wkt::Uint32 => serialize_uint32(msg, serializer, options),
        Wkt::Uint64 => serialize_uint64(msg, serializer, options),
        Wkt::Bool => serialize_bool(msg, serializer, options),
        Wkt::String => serialize_string(msg, serializer, options),
        Wkt::Bytes => serialize_bytes(msg, serializer, options),
        Wkt::FieldMask => serialize_field_mask(msg, serializer, options),
        Wkt::List => serialize_list(msg, serializer, options),
        Wkt::Value => serialize_value(msg, serializer, options),
        Wkt::Empty => serialize_empty(msg, serializer, options),
    }
}

// ---- google.protobuf.Value, Struct and ListValue
pub type PV = prost_types::Value;
/// The entries of a Struct, in their order, each key once (assumed contract of BTreeMap).
pub uninterp spec fn fields_of(f: Fields) -> Seq<(String, PV)>;
pub uninterp spec fn field_map(f: Fields) -> Map<Seq<char>, PV>;
pub broadcast axiom fn fields_once(f: Fields)
    ensures
        #![trigger fields_of(f)]
        #![trigger field_map(f)]
        forall|i: int| 0 <= i < fields_of(f).len() ==> field_map(f).contains_key((#[trigger] fields_of(f)[i]).0@) && field_map(f)[fields_of(f)[i].0@] == fields_of(f)[i].1,
        forall|k: Seq<char>| #[trigger] field_map(f).contains_key(k) ==> exists|i: int| 0 <= i < fields_of(f).len() && (#[trigger] fields_of(f)[i]).0@ == k,
        forall|i: int, j: int| 0 <= i < j < fields_of(f).len() ==> (#[trigger] fields_of(f)[i]).0@ != (#[trigger] fields_of(f)[j]).0@;
#[verifier::external_body]
fn field_entries(f: &Fields) -> (r: Vec<(&String, &PV)>)
    ensures r@.len() == fields_of(*f).len(), forall|i: int| 0 <= i < r@.len() ==> (*(#[trigger] r@[i]).0, *r@[i].1) == fields_of(*f)[i],
{ unimplemented!() }
#[verifier::external_body]
fn fields_len(f: &Fields) -> usize { unimplemented!() }
#[verifier::external_body]
fn no_fields() -> (r: Fields) ensures field_map(r) == Map::<Seq<char>, PV>::empty() { unimplemented!() }
#[verifier::external_body]
fn fields_insert(f: &mut Fields, k: String, v: PV) ensures field_map(*final(f)) == field_map(*old(f)).insert(k@, v) { unimplemented!() }

/// The JSON of a Value; defined by its equations, a Value being a finite tree.
pub uninterp spec fn pv_json(v: PV) -> Json;
pub open spec fn pv_list(vs: Seq<PV>) -> Seq<Json> { vs.map_values(|v: PV| pv_json(v)) }
pub open spec fn pv_member(e: (String, PV)) -> (Seq<char>, Json) { (e.0@, pv_json(e.1)) }
pub open spec fn pv_members(es: Seq<(String, PV)>) -> Seq<(Seq<char>, Json)> { es.map_values(|e: (String, PV)| pv_member(e)) }
pub broadcast axiom fn pv_json_is(v: PV)
    ensures #[trigger] pv_json(v) == (match v.kind {
        None | Some(prost_types::value::Kind::NullValue(_)) => Json::Null,
        Some(prost_types::value::Kind::BoolValue(b)) => Json::Bool(b),
        Some(prost_types::value::Kind::NumberValue(n)) => Json::F64(n),
        Some(prost_types::value::Kind::StringValue(s)) => Json::Str(s@),
        Some(prost_types::value::Kind::ListValue(l)) => Json::Arr(pv_list(l.values@)),
        Some(prost_types::value::Kind::StructValue(s)) => Json::Obj(pv_members(fields_of(s.fields))),
    });
/// A Value without infinities and NaN anywhere can be written.
pub uninterp spec fn pv_writes(v: PV) -> bool;
pub open spec fn pvs_write(vs: Seq<PV>) -> bool { forall|i: int| 0 <= i < vs.len() ==> pv_writes(#[trigger] vs[i]) }
pub open spec fn entries_write(es: Seq<(String, PV)>) -> bool { forall|i: int| 0 <= i < es.len() ==> pv_writes((#[trigger] es[i]).1) }
pub broadcast axiom fn pv_writes_is(v: PV)
    ensures #[trigger] pv_writes(v) == (match v.kind {
        Some(prost_types::value::Kind::NumberValue(n)) => fin64(n),
        Some(prost_types::value::Kind::ListValue(l)) => pvs_write(l.values@),
        Some(prost_types::value::Kind::StructValue(s)) => entries_write(fields_of(s.fields)),
        _ => true,
    });
impl SeqSer {
    #[verifier::external_body]
    pub fn serialize_value(&mut self, w: &SerializeWrapper<PV>) -> (r: Result<(), SerError>)
        ensures r is Ok ==> final(self).items() == old(self).items().push(pv_json(*w.value)), r is Err ==> !pv_writes(*w.value),
    { unimplemented!() }
}
impl Member for SerializeWrapper<'_, PV> {
    open spec fn m_json(&self) -> Json { pv_json(*self.value) }
    open spec fn m_writes(&self) -> bool { pv_writes(*self.value) }
    open spec fn m_ready(&self) -> bool { true }
}
impl MemberKey for String { open spec fn k_text(&self) -> Seq<char> { self@ } }
impl SerializeWrapper<'_, PV> {
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs Serialize for SerializeWrapper<prost_types::Value>::serialize
//@@ sig fn serialize(&self, serializer: Ser) -> (r: Result<Out, SerError>)
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == pv_json(*self.value), r is Err ==> !pv_writes(*self.value),
//@@ end
}
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_value_inner
//@@ sig fn serialize_value_inner(raw: &PV, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? $x:id . is_finite ( ) => f64_finite(*$x)
//@@ subst? Error :: custom ==>> SerError::custom
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == pv_json(*raw), r is Err ==> !pv_writes(*raw),
//@@ start
    broadcast use {pv_json_is, pv_writes_is};
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_struct_inner
//@@ sig fn serialize_struct_inner(raw: &prost_types::Struct, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? $x:id . fields . len ( ) ==>> fields_len(&$x.fields)
//@@ subst for ( key , value ) in & $x:id . fields { ==>> let es__ = field_entries(&$x.fields); for e__ in es__ { let (key, value) = e__;
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == Json::Obj(pv_members(fields_of(raw.fields))), r is Err ==> !entries_write(fields_of(raw.fields)),
//@@ loop 0 iter it
        invariant
            it.seq().len() == fields_of(raw.fields).len(), forall|j: int| 0 <= j < it.seq().len() ==> (*(#[trigger] it.seq()[j]).0, *it.seq()[j].1) == fields_of(raw.fields)[j],
            map.members() == pv_members(fields_of(raw.fields).take(it.index@ as int)),
//@@ in-loop 0
        proof { let e = fields_of(raw.fields)[it.index@ as int]; }
//@@ end-loop 0
        proof { assert(map.members() =~= pv_members(fields_of(raw.fields).take(it.index@ as int + 1))); }
//@@ after-loop 0
    proof { assert(fields_of(raw.fields).take(fields_of(raw.fields).len() as int) =~= fields_of(raw.fields)); }
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_list_inner
//@@ sig fn serialize_list_inner(raw: &prost_types::ListValue, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . serialize_element ( ==>> .serialize_value(
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == Json::Arr(pv_list(raw.values@)), r is Err ==> !pvs_write(raw.values@),
//@@ loop 0 iter it
        invariant
            it.seq().len() == raw.values@.len(), forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == raw.values@[j],
            list.items() == pv_list(raw.values@.take(it.index@ as int)),
//@@ in-loop 0
        proof { assert(*value == raw.values@[it.index@ as int]); }
//@@ end-loop 0
        proof { assert(list.items() =~= pv_list(raw.values@.take(it.index@ as int + 1))); }
//@@ after-loop 0
    proof { assert(raw.values@.take(raw.values@.len() as int) =~= raw.values@); }
//@@ end

/// Equal, strings and maps by content.
pub uninterp spec fn same_pv(a: PV, b: PV) -> bool;
pub open spec fn same_values(a: Seq<PV>, b: Seq<PV>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_pv(#[trigger] a[i], b[i]) }
pub open spec fn same_struct(a: prost_types::Struct, b: prost_types::Struct) -> bool {
    (forall|k: Seq<char>| #[trigger] field_map(a.fields).contains_key(k) <==> field_map(b.fields).contains_key(k))
    && forall|k: Seq<char>| #[trigger] field_map(a.fields).contains_key(k) ==> same_pv(field_map(a.fields)[k], field_map(b.fields)[k])
}
pub broadcast axiom fn same_pv_is(a: PV, b: PV)
    ensures #[trigger] same_pv(a, b) == (match (a.kind, b.kind) {
        (None, None) => true,
        (Some(prost_types::value::Kind::NullValue(x)), Some(prost_types::value::Kind::NullValue(y))) => x == y,
        (Some(prost_types::value::Kind::BoolValue(x)), Some(prost_types::value::Kind::BoolValue(y))) => x == y,
        (Some(prost_types::value::Kind::NumberValue(x)), Some(prost_types::value::Kind::NumberValue(y))) => x == y,
        (Some(prost_types::value::Kind::StringValue(x)), Some(prost_types::value::Kind::StringValue(y))) => x@ == y@,
        (Some(prost_types::value::Kind::ListValue(x)), Some(prost_types::value::Kind::ListValue(y))) => same_values(x.values@, y.values@),
        (Some(prost_types::value::Kind::StructValue(x)), Some(prost_types::value::Kind::StructValue(y))) => same_struct(x, y),
        _ => false,
    });

// ---- the functions of the table
/// The text of a timestamp or duration (printed by prost-types), and whether it is in range (unit time, P15).
pub uninterp spec fn timestamp_text(t: prost_types::Timestamp) -> Seq<char>;
pub uninterp spec fn duration_text(t: prost_types::Duration) -> Seq<char>;
pub uninterp spec fn timestamp_ok(t: prost_types::Timestamp) -> bool;
pub uninterp spec fn duration_ok(t: prost_types::Duration) -> bool;
impl Display for prost_types::Timestamp { open spec fn shown(&self) -> Seq<char> { timestamp_text(*self) } }
impl Display for prost_types::Duration { open spec fn shown(&self) -> Seq<char> { duration_text(*self) } }
#[verifier::external_body]
fn check_timestamp(t: &prost_types::Timestamp) -> (r: Result<(), &'static str>) ensures r is Ok <==> timestamp_ok(*t) { unimplemented!() }
#[verifier::external_body]
fn check_duration(t: &prost_types::Duration) -> (r: Result<(), &'static str>) ensures r is Ok <==> duration_ok(*t) { unimplemented!() }
/// The text of a field mask, and whether it has one (unit field_mask, P14).
pub uninterp spec fn mask_text(t: Seq<Seq<char>>) -> Option<Seq<char>>;
#[verifier::external_body]
fn serialize_field_mask(msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
    ensures match prost_types::FieldMask::of(*msg) { Some(m) => match mask_text(strings(m.paths@)) { Some(t) => r is Ok && r->Ok_0.json() == Json::Str(t), None => r is Err }, None => r is Err },
{ unimplemented!() }
pub open spec fn int64_json(v: int, o: SerializeOptions) -> Json { if o.stringify_64_bit_integers { Json::Str(dec(v)) } else { Json::Int(v) } }
/// The members which the fields of a message are written as (unit json_value).
pub uninterp spec fn plain_members(m: DynamicMessage, o: SerializeOptions) -> Seq<(Seq<char>, Json)>;
pub uninterp spec fn plain_writes(m: DynamicMessage, o: SerializeOptions) -> bool;
#[verifier::external_body]
fn serialize_dynamic_message_fields(map: &mut MapSer, value: &DynamicMessage, options: &SerializeOptions) -> (r: Result<(), SerError>)
    ensures
        r is Ok ==> final(map).members() == old(map).members() + plain_members(*value, *options),
        r is Err ==> !plain_writes(*value, *options),
{ unimplemented!() }
pub broadcast axiom fn message_json_is(m: DynamicMessage, o: SerializeOptions)
    ensures #[trigger] message_json(m, o) == (match wkt_of(m.s_desc().s_full_name()) { Some(w) => own_json(w, m, o), None => Json::Obj(plain_members(m, o)) });
pub broadcast axiom fn message_writes_is(m: DynamicMessage, o: SerializeOptions)
    ensures #[trigger] message_writes(m, o) == (match wkt_of(m.s_desc().s_full_name()) { Some(w) => own_writes(w, m, o), None => plain_writes(m, o) });
pub open spec fn own_json(w: Wkt, m: DynamicMessage, o: SerializeOptions) -> Json {
    match w {
        Wkt::Any => any_json(prost_types::Any::of(m)->Some_0, m.s_desc().s_pool(), o),
        Wkt::Timestamp => Json::Str(timestamp_text(prost_types::Timestamp::of(m)->Some_0)),
        Wkt::Duration => Json::Str(duration_text(prost_types::Duration::of(m)->Some_0)),
        Wkt::Struct => Json::Obj(pv_members(fields_of(prost_types::Struct::of(m)->Some_0.fields))),
        Wkt::Float => f32_json(<f32 as Inner>::of(m)->Some_0),
        Wkt::Double => f64_json(<f64 as Inner>::of(m)->Some_0),
        Wkt::Int32 => Json::Int(<i32 as Inner>::of(m)->Some_0 as int),
        Wkt::Int64 => int64_json(<i64 as Inner>::of(m)->Some_0 as int, o),
        Wkt::Uint32 => Json::Int(<u32 as Inner>::of(m)->Some_0 as int),
        Wkt::Uint64 => int64_json(<u64 as Inner>::of(m)->Some_0 as int, o),
        Wkt::Bool => Json::Bool(<bool as Inner>::of(m)->Some_0),
        Wkt::String => Json::Str(<String as Inner>::of(m)->Some_0@),
        Wkt::Bytes => Json::Str(base64(<Vec<u8> as Inner>::of(m)->Some_0@)),
        Wkt::FieldMask => Json::Str(mask_text(strings(prost_types::FieldMask::of(m)->Some_0.paths@))->Some_0),
        Wkt::List => Json::Arr(pv_list(prost_types::ListValue::of(m)->Some_0.values@)),
        Wkt::Value => pv_json(PV::of(m)->Some_0),
        Wkt::Empty => Json::Obj(Seq::empty()),
    }
}
pub open spec fn own_writes(w: Wkt, m: DynamicMessage, o: SerializeOptions) -> bool {
    match w {
        Wkt::Any => prost_types::Any::of(m) is Some && any_writes(prost_types::Any::of(m)->Some_0, m.s_desc().s_pool(), o),
        Wkt::Timestamp => prost_types::Timestamp::of(m) is Some && timestamp_ok(prost_types::Timestamp::of(m)->Some_0),
        Wkt::Duration => prost_types::Duration::of(m) is Some && duration_ok(prost_types::Duration::of(m)->Some_0),
        Wkt::Struct => prost_types::Struct::of(m) is Some && entries_write(fields_of(prost_types::Struct::of(m)->Some_0.fields)),
        Wkt::Float => <f32 as Inner>::of(m) is Some,
        Wkt::Double => <f64 as Inner>::of(m) is Some,
        Wkt::Int32 => <i32 as Inner>::of(m) is Some,
        Wkt::Int64 => <i64 as Inner>::of(m) is Some,
        Wkt::Uint32 => <u32 as Inner>::of(m) is Some,
        Wkt::Uint64 => <u64 as Inner>::of(m) is Some,
        Wkt::Bool => <bool as Inner>::of(m) is Some,
        Wkt::String => <String as Inner>::of(m) is Some,
        Wkt::Bytes => <Vec<u8> as Inner>::of(m) is Some,
        Wkt::FieldMask => prost_types::FieldMask::of(m) is Some && mask_text(strings(prost_types::FieldMask::of(m)->Some_0.paths@)) is Some,
        Wkt::List => prost_types::ListValue::of(m) is Some && pvs_write(prost_types::ListValue::of(m)->Some_0.values@),
        Wkt::Value => PV::of(m) is Some && pv_writes(PV::of(m)->Some_0),
        Wkt::Empty => true,
    }
}
// Any
#[verifier::external_body]
pub struct DescriptorPool { x: u8 }
impl DescriptorPool {
    pub uninterp spec fn s_message(&self, n: Seq<char>) -> Option<MessageDescriptor>;
    #[verifier::external_body]
    pub fn get_message_by_name(&self, n: &str) -> (r: Option<MessageDescriptor>) ensures r == self.s_message(n@), r is Some ==> r->Some_0.s_full_name() == n@ && r->Some_0.s_pool() == *self { unimplemented!() }
}
impl MessageDescriptor {
    pub uninterp spec fn s_pool(&self) -> DescriptorPool;
    #[verifier::external_body]
    pub fn parent_pool(&self) -> (r: &DescriptorPool) ensures *r == self.s_pool() { unimplemented!() }
}
/// What decoding bytes as this type gives.
pub uninterp spec fn decoded(d: MessageDescriptor, b: Seq<u8>) -> Option<DynamicMessage>;
pub open spec fn empty_message(m: DynamicMessage) -> bool { m.slots() == Map::<u32, Value>::empty() }
impl DynamicMessage {
    #[verifier::external_body]
    pub fn new(d: MessageDescriptor) -> (r: DynamicMessage) ensures r.s_desc() == d, empty_message(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn merge(&mut self, b: &[u8]) -> (r: Result<(), SerError>)
        requires empty_message(*old(self)),
        ensures final(self).s_desc() == old(self).s_desc(), r is Ok ==> decoded(old(self).s_desc(), b@) == Some(*final(self)), r is Err ==> decoded(old(self).s_desc(), b@) is None,
    { unimplemented!() }
}
#[verifier::external_body]
fn vec_ref(v: &Vec<u8>) -> (r: &[u8]) ensures r@ == v@ { unimplemented!() }
/// The part after the last '/' of a type URL.
pub uninterp spec fn url_name(u: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
fn get_type_url_message_name(u: &str) -> (r: Result<&str, String>) ensures r is Ok ==> url_name(u@) == Some(r->Ok_0@), r is Err ==> url_name(u@) is None { unimplemented!() }
pub open spec fn any_type(a: prost_types::Any, pool: DescriptorPool) -> Option<MessageDescriptor> { match url_name(a.type_url@) { Some(n) => pool.s_message(n), None => None } }
pub open spec fn any_payload(a: prost_types::Any, pool: DescriptorPool) -> Option<DynamicMessage> { match any_type(a, pool) { Some(d) => decoded(d, a.value@), None => None } }
pub open spec fn any_json(a: prost_types::Any, pool: DescriptorPool, o: SerializeOptions) -> Json {
    let p = any_payload(a, pool)->Some_0;
    let head = ("@type"@, Json::Str(a.type_url@));
    if wkt_of(url_name(a.type_url@)->Some_0) is Some { Json::Obj(seq![head, ("value"@, message_json(p, o))]) } else { Json::Obj(seq![head] + plain_members(p, o)) }
}
pub open spec fn any_writes(a: prost_types::Any, pool: DescriptorPool, o: SerializeOptions) -> bool { any_payload(a, pool) is Some && message_writes(any_payload(a, pool)->Some_0, o) }
impl Member for String {
    open spec fn m_json(&self) -> Json { Json::Str(self@) }
    open spec fn m_writes(&self) -> bool { true }
    open spec fn m_ready(&self) -> bool { true }
}
impl Member for SerializeWrapper<'_, DynamicMessage> {
    open spec fn m_json(&self) -> Json { message_json(*self.value, *self.options) }
    open spec fn m_writes(&self) -> bool { message_writes(*self.value, *self.options) }
    open spec fn m_ready(&self) -> bool { true }
}
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_any
//@@ sig fn serialize_any(msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . map_err ( decode_to_ser_err ) ==>> 
//@@ subst? . map_err ( Error :: custom ) ==>> .map_err(|e__| -> (o__: SerError) { SerError::custom(e__) })
//@@ subst? . ok_or_else ( | | $x ) ==>> .ok_or(SerError::custom(""))
//@@ subst? $x:id . value . as_ref ( ) ==>> vec_ref(&$x.value)
//@@ spec
    requires wkt_of(msg.s_desc().s_full_name()) == Some(Wkt::Any),
    ensures r is Ok ==> r->Ok_0.json() == own_json(Wkt::Any, *msg, *options), r is Err ==> !own_writes(Wkt::Any, *msg, *options),
//@@ start
    broadcast use {message_json_is, message_writes_is};
//@@ before? map . end ( )
    proof {
        let a = prost_types::Any::of(*msg)->Some_0;
        let head = ("@type"@, Json::Str(a.type_url@));
        let p = any_payload(a, msg.s_desc().s_pool())->Some_0;
        assert(Seq::<(Seq<char>, Json)>::empty().push(head) =~= seq![head]);
        assert(seq![head].push(("value"@, message_json(p, *options))) =~= seq![head, ("value"@, message_json(p, *options))]);
    }
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_timestamp
//@@ sig fn serialize_timestamp(msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . map_err ( decode_to_ser_err ) ==>> 
//@@ subst? . map_err ( Error :: custom ) ==>> .map_err(|e__| -> (o__: SerError) { SerError::custom(e__) })
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == own_json(Wkt::Timestamp, *msg, *options), r is Err ==> !own_writes(Wkt::Timestamp, *msg, *options),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_duration
//@@ sig fn serialize_duration(msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . map_err ( decode_to_ser_err ) ==>> 
//@@ subst? . map_err ( Error :: custom ) ==>> .map_err(|e__| -> (o__: SerError) { SerError::custom(e__) })
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == own_json(Wkt::Duration, *msg, *options), r is Err ==> !own_writes(Wkt::Duration, *msg, *options),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_float
//@@ sig fn serialize_float(msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . map_err ( decode_to_ser_err ) ==>> 
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == own_json(Wkt::Float, *msg, *options), r is Err ==> !own_writes(Wkt::Float, *msg, *options),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_double
//@@ sig fn serialize_double(msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . map_err ( decode_to_ser_err ) ==>> 
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == own_json(Wkt::Double, *msg, *options), r is Err ==> !own_writes(Wkt::Double, *msg, *options),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_int32
//@@ sig fn serialize_int32(msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . map_err ( decode_to_ser_err ) ==>> 
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == own_json(Wkt::Int32, *msg, *options), r is Err ==> !own_writes(Wkt::Int32, *msg, *options),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_int64
//@@ sig fn serialize_int64(msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . map_err ( decode_to_ser_err ) ==>> 
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == own_json(Wkt::Int64, *msg, *options), r is Err ==> !own_writes(Wkt::Int64, *msg, *options),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_uint32
//@@ sig fn serialize_uint32(msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . map_err ( decode_to_ser_err ) ==>> 
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == own_json(Wkt::Uint32, *msg, *options), r is Err ==> !own_writes(Wkt::Uint32, *msg, *options),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_uint64
//@@ sig fn serialize_uint64(msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . map_err ( decode_to_ser_err ) ==>> 
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == own_json(Wkt::Uint64, *msg, *options), r is Err ==> !own_writes(Wkt::Uint64, *msg, *options),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_bool
//@@ sig fn serialize_bool(msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . map_err ( decode_to_ser_err ) ==>> 
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == own_json(Wkt::Bool, *msg, *options), r is Err ==> !own_writes(Wkt::Bool, *msg, *options),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_string
//@@ sig fn serialize_string(msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . map_err ( decode_to_ser_err ) ==>> 
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == own_json(Wkt::String, *msg, *options), r is Err ==> !own_writes(Wkt::String, *msg, *options),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_bytes
//@@ sig fn serialize_bytes(msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . map_err ( decode_to_ser_err ) ==>> 
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == own_json(Wkt::Bytes, *msg, *options), r is Err ==> !own_writes(Wkt::Bytes, *msg, *options),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_empty
//@@ sig fn serialize_empty(msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . map_err ( decode_to_ser_err ) ==>> 
//@@ subst? serializer . collect_map ( std :: iter :: empty :: < ( ( ) , ( ) ) > ( ) ) ==>> serializer.collect_empty_map()
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == own_json(Wkt::Empty, *msg, *options), r is Err ==> !own_writes(Wkt::Empty, *msg, *options),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_value
//@@ sig fn serialize_value(msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . map_err ( decode_to_ser_err ) ==>> 
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == own_json(Wkt::Value, *msg, *options), r is Err ==> !own_writes(Wkt::Value, *msg, *options),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_struct
//@@ sig fn serialize_struct(msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . map_err ( decode_to_ser_err ) ==>> 
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == own_json(Wkt::Struct, *msg, *options), r is Err ==> !own_writes(Wkt::Struct, *msg, *options),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_list
//@@ sig fn serialize_list(msg: &DynamicMessage, serializer: Ser, options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . map_err ( decode_to_ser_err ) ==>> 
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == own_json(Wkt::List, *msg, *options), r is Err ==> !own_writes(Wkt::List, *msg, *options),
//@@ end
impl Ser {
    #[verifier::external_body]
    pub fn collect_empty_map(self) -> (r: Result<Out, SerError>) ensures r is Ok, r->Ok_0.json() == Json::Obj(Seq::empty()) { unimplemented!() }
}
#[verifier::external_body]
fn serialize_f32(value: f32, serializer: Ser) -> (r: Result<Out, SerError>) ensures r is Ok, r->Ok_0.json() == f32_json(value) { unimplemented!() }
#[verifier::external_body]
fn serialize_f64(value: f64, serializer: Ser) -> (r: Result<Out, SerError>) ensures r is Ok, r->Ok_0.json() == f64_json(value) { unimplemented!() }
pub mod wkt { pub use super::*; }
impl SerializeWrapper<'_, DynamicMessage> {
//@@ fn prost-reflect/src/dynamic/serde/ser/mod.rs Serialize for SerializeWrapper<DynamicMessage>::serialize
//@@ sig fn serialize(&self, serializer: Ser) -> (r: Result<Out, SerError>)
//@@ subst? $f:id ( self . value , serializer , self . options ) ==>> call_serializer($f, self.value, serializer, self.options)
//@@ spec
    ensures r is Ok ==> r->Ok_0.json() == message_json(*self.value, *self.options), r is Err ==> !message_writes(*self.value, *self.options),
//@@ start
    broadcast use {message_json_is, message_writes_is};
//@@ before? map . end ( )
    proof { assert(Seq::<(Seq<char>, Json)>::empty() + plain_members(*self.value, *self.options) =~= plain_members(*self.value, *self.options)); }
//@@ end
}

// ---- the reader
pub open spec fn via<T: Inner>(d: MessageDescriptor, x: Option<T>, r: Option<DynamicMessage>) -> bool {
    match x { None => r is None, Some(v) => match r { Some(m) => made(d, v, m), None => too_deep(v) } }
}
pub type Slots = Map<u32, Value>;
impl DynamicMessage { pub uninterp spec fn slots(&self) -> Slots; }
/// What reading the members of an object into a message makes of it (unit json_value).
pub uninterp spec fn object_reads(d: MessageDescriptor, ms: Seq<(Seq<char>, Json)>, p: DeserializeOptions, s0: Slots, r: Option<Slots>) -> bool;
pub open spec fn own_reads(w: Wkt, d: MessageDescriptor, j: Json, p: DeserializeOptions, r: Option<DynamicMessage>) -> bool {
    match w {
        Wkt::Any => exists|x: Option<prost_types::Any>| #[trigger] any_reads(j, d.s_pool(), p, x) && via(d, x, r),
        Wkt::Float => exists|x: Option<f32>| #[trigger] FloatVisitor.reads(j, x) && via(d, x, r),
        Wkt::Double => exists|x: Option<f64>| #[trigger] DoubleVisitor.reads(j, x) && via(d, x, r),
        Wkt::Int32 => exists|x: Option<i32>| #[trigger] Int32Visitor.reads(j, x) && via(d, x, r),
        Wkt::Int64 => exists|x: Option<i64>| #[trigger] Int64Visitor.reads(j, x) && via(d, x, r),
        Wkt::Uint32 => exists|x: Option<u32>| #[trigger] Uint32Visitor.reads(j, x) && via(d, x, r),
        Wkt::Uint64 => exists|x: Option<u64>| #[trigger] Uint64Visitor.reads(j, x) && via(d, x, r),
        Wkt::Bool => exists|x: Option<bool>| #[trigger] BoolVisitor.reads(j, x) && via(d, x, r),
        Wkt::String => exists|x: Option<String>| #[trigger] StringVisitor.reads(j, x) && via(d, x, r),
        Wkt::Bytes => exists|x: Option<Bytes>| #[trigger] BytesVisitor.reads(j, x) && via(d, x, r),
        Wkt::Timestamp => exists|x: Option<prost_types::Timestamp>| #[trigger] GoogleProtobufTimestampVisitor.reads(j, x) && via(d, x, r),
        Wkt::Duration => exists|x: Option<prost_types::Duration>| #[trigger] GoogleProtobufDurationVisitor.reads(j, x) && via(d, x, r),
        Wkt::FieldMask => exists|x: Option<prost_types::FieldMask>| #[trigger] GoogleProtobufFieldMaskVisitor.reads(j, x) && via(d, x, r),
        Wkt::Struct => exists|x: Option<prost_types::Struct>| #[trigger] GoogleProtobufStructVisitor.reads(j, x) && via(d, x, r),
        Wkt::List => exists|x: Option<prost_types::ListValue>| #[trigger] GoogleProtobufListVisitor.reads(j, x) && via(d, x, r),
        Wkt::Value => exists|x: Option<PV>| #[trigger] GoogleProtobufValueVisitor.reads(j, x) && via(d, x, r),
        Wkt::Empty => exists|x: Option<()>| #[trigger] GoogleProtobufEmptyVisitor.reads(j, x) && via(d, x, r),
    }
}
/// What a message type without a form of its own reads (unit json_value).
pub open spec fn plain_reads(d: MessageDescriptor, j: Json, p: DeserializeOptions, r: Option<DynamicMessage>) -> bool {
    match j {
        Json::Obj(ms) => match r {
            Some(m) => m.s_desc() == d && object_reads(d, ms, p, Map::empty(), Some(m.slots())),
            None => object_reads(d, ms, p, Map::empty(), None),
        },
        _ => r is None,
    }
}
pub uninterp spec fn message_reads(m: MessageDescriptor, j: Json, o: DeserializeOptions, r: Option<DynamicMessage>) -> bool;
/// The definition of message_reads, by recursion on the document.
pub broadcast axiom fn message_reads_is(d: MessageDescriptor, j: Json, p: DeserializeOptions, r: Option<DynamicMessage>)
    ensures #[trigger] message_reads(d, j, p, r) == (match wkt_of(d.s_full_name()) { Some(w) => own_reads(w, d, j, p, r), None => plain_reads(d, j, p, r) });
//@@ item prost-reflect/src/dynamic/serde/de/wkt.rs struct GoogleProtobufAnyVisitor
//@@ item prost-reflect/src/dynamic/serde/de/wkt.rs struct GoogleProtobufTimestampVisitor
//@@ item prost-reflect/src/dynamic/serde/de/wkt.rs struct GoogleProtobufDurationVisitor
//@@ item prost-reflect/src/dynamic/serde/de/wkt.rs struct GoogleProtobufFieldMaskVisitor
//@@ item prost-reflect/src/dynamic/serde/de/wkt.rs struct GoogleProtobufListVisitor
//@@ item prost-reflect/src/dynamic/serde/de/wkt.rs struct GoogleProtobufStructVisitor
//@@ item prost-reflect/src/dynamic/serde/de/wkt.rs struct GoogleProtobufValueVisitor
//@@ item prost-reflect/src/dynamic/serde/de/wkt.rs struct GoogleProtobufEmptyVisitor
//@@ item prost-reflect/src/dynamic/serde/de/kind.rs struct MessageVisitor
impl Visitor for MessageVisitor<'_> {
    type Value = DynamicMessage;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<DynamicMessage>) -> bool { plain_reads(*self.0, j, *self.1, r) }
}
pub mod kind { pub use super::*; }
/// (unit time)
pub uninterp spec fn timestamp_of(s: Seq<char>) -> Option<prost_types::Timestamp>;
pub uninterp spec fn duration_of(s: Seq<char>) -> Option<prost_types::Duration>;
/// (unit field_mask)
pub uninterp spec fn mask_of(s: Seq<char>) -> Option<Seq<Seq<char>>>;
impl Visitor for GoogleProtobufTimestampVisitor {
    type Value = prost_types::Timestamp;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<prost_types::Timestamp>) -> bool { match j { Json::Str(s) => r == timestamp_of(s), _ => r is None } }
}
impl Visitor for GoogleProtobufDurationVisitor {
    type Value = prost_types::Duration;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<prost_types::Duration>) -> bool { match j { Json::Str(s) => r == duration_of(s), _ => r is None } }
}
impl Visitor for GoogleProtobufFieldMaskVisitor {
    type Value = prost_types::FieldMask;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<prost_types::FieldMask>) -> bool { match j { Json::Str(s) => match r { Some(m) => mask_of(s) == Some(strings(m.paths@)), None => mask_of(s) is None }, _ => r is None } }
}
impl Visitor for GoogleProtobufEmptyVisitor {
    type Value = ();
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<()>) -> bool { match j { Json::Obj(ms) => r is Some <==> ms.len() == 0, _ => r is None } }
}
impl GoogleProtobufEmptyVisitor {
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufEmptyVisitor::visit_map
//@@ sig fn visit_map(self, map_: MapAcc) -> (r: Result<(), DeError>)
//@@ subst? map . next_entry :: < IgnoredAny , IgnoredAny > ( ) ==>> map.skip_entry()
//@@ subst? Error :: custom ==>> DeError::custom
//@@ spec
    requires map_.due() is None,
    ensures self.reads(Json::Obj(map_.rest()), res(r)),
//@@ start
    let mut map = map_;
//@@ end
}
impl MapAcc {
    /// `next_entry::<IgnoredAny, IgnoredAny>()`
    #[verifier::external_body]
    pub fn skip_entry(&mut self) -> (r: Result<Option<()>, DeError>)
        requires old(self).due() is None,
        ensures
            r is Ok, r->Ok_0 is None <==> old(self).rest().len() == 0, final(self).due() is None,
            old(self).rest().len() > 0 ==> final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
}

/// What a document is read as; defined by its equations, a document being a finite tree.
pub uninterp spec fn pv_reads(j: Json, r: Option<PV>) -> bool;
pub open spec fn pvs_read(js: Seq<Json>, vs: Seq<PV>) -> bool { vs.len() == js.len() && forall|i: int| 0 <= i < js.len() ==> pv_reads(#[trigger] js[i], Some(vs[i])) }
pub open spec fn pv_list_reads(js: Seq<Json>, r: Option<Seq<PV>>) -> bool { match r { Some(vs) => pvs_read(js, vs), None => exists|i: int| 0 <= i < js.len() && pv_reads(#[trigger] js[i], None) } }
pub open spec fn values_of(ms: Seq<(Seq<char>, Json)>) -> Seq<Json> { ms.map_values(|m: (Seq<char>, Json)| m.1) }
pub open spec fn put(ms: Seq<(Seq<char>, Json)>, vs: Seq<PV>) -> Map<Seq<char>, PV>
    decreases vs.len()
{
    if vs.len() == 0 { Map::empty() } else { put(ms, vs.drop_last()).insert(ms[vs.len() - 1].0, vs.last()) }
}
pub open spec fn pv_struct_reads(ms: Seq<(Seq<char>, Json)>, r: Option<Map<Seq<char>, PV>>) -> bool {
    match r { Some(f) => exists|vs: Seq<PV>| #[trigger] pvs_read(values_of(ms), vs) && f == put(ms, vs), None => exists|i: int| 0 <= i < ms.len() && pv_reads((#[trigger] ms[i]).1, None) }
}
pub uninterp spec fn int_double(i: int) -> f64;
pub open spec fn pv(k: prost_types::value::Kind) -> Option<PV> { Some(PV { kind: Some(k) }) }
pub broadcast axiom fn pv_reads_is(j: Json, r: Option<PV>)
    ensures #[trigger] pv_reads(j, r) == (match j {
        Json::Null => r == pv(prost_types::value::Kind::NullValue(0)),
        Json::Bool(b) => r == pv(prost_types::value::Kind::BoolValue(b)),
        Json::Int(i) => r == pv(prost_types::value::Kind::NumberValue(int_double(i))),
        Json::F32(v) => r == pv(prost_types::value::Kind::NumberValue(text64(v))),
        Json::F64(v) => r == pv(prost_types::value::Kind::NumberValue(v)),
        Json::Str(s) => match r { Some(PV { kind: Some(prost_types::value::Kind::StringValue(t)) }) => t@ == s, _ => false },
        Json::Arr(js) => match r { Some(PV { kind: Some(prost_types::value::Kind::ListValue(l)) }) => pv_list_reads(js, Some(l.values@)), Some(_) => false, None => pv_list_reads(js, None) },
        Json::Obj(ms) => match r { Some(PV { kind: Some(prost_types::value::Kind::StructValue(s)) }) => pv_struct_reads(ms, Some(field_map(s.fields))), Some(_) => false, None => pv_struct_reads(ms, None) },
    });
impl Visitor for GoogleProtobufValueVisitor {
    type Value = PV;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<PV>) -> bool { pv_reads(j, r) }
}
impl DeserializeSeed for GoogleProtobufValueVisitor {
    type Value = PV;
    open spec fn seed_ready(self) -> bool { true }
    open spec fn seeds(self, j: Json, r: Option<PV>) -> bool { pv_reads(j, r) }
}
impl Visitor for GoogleProtobufListVisitor {
    type Value = prost_types::ListValue;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<prost_types::ListValue>) -> bool { match j { Json::Arr(js) => pv_list_reads(js, match r { Some(l) => Some(l.values@), None => None }), _ => r is None } }
}
impl Visitor for GoogleProtobufStructVisitor {
    type Value = prost_types::Struct;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<prost_types::Struct>) -> bool { match j { Json::Obj(ms) => pv_struct_reads(ms, match r { Some(l) => Some(field_map(l.fields)), None => None }), _ => r is None } }
}
impl GoogleProtobufListVisitor {
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufListVisitor::visit_seq
//@@ sig fn visit_seq(self, seq_: SeqAcc) -> (r: Result<prost_types::ListValue, DeError>)
//@@ spec
    ensures self.reads(Json::Arr(seq_.rest()), res(r)),
//@@ start
    let ghost js = seq_.rest();
    let mut seq = seq_;
//@@ loop 0
        invariant_except_break
            values@.len() <= js.len(), seq.rest() == js.skip(values@.len() as int),
        invariant
            js == seq_.rest(),
            forall|i: int| 0 <= i < values@.len() ==> pv_reads(#[trigger] js[i], Some(values@[i])),
            values@.len() < js.len() ==> js.skip(values@.len() as int)[0] == js[values@.len() as int],
        ensures
            values@.len() == js.len(),
        decreases js.len() - values@.len(),
//@@ in-loop 0
        proof { assert(js.skip(values@.len() as int).skip(1) =~= js.skip((values@.len() + 1) as int)); }
//@@ end
}
impl GoogleProtobufStructVisitor {
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufStructVisitor::visit_map
//@@ sig fn visit_map(self, map_: MapAcc) -> (r: Result<prost_types::Struct, DeError>)
//@@ subst? map . next_key :: < String > ( ) ==>> map.next_key()
//@@ subst? BTreeMap :: new ( ) ==>> no_fields()
//@@ subst? fields . insert ( $k , $v ) ==>> fields_insert(&mut fields, $k.into_owned(), $v)
//@@ spec
    requires map_.due() is None,
    ensures self.reads(Json::Obj(map_.rest()), res(r)),
//@@ start
    let ghost ms = map_.rest();
    let ghost mut vs = Seq::<PV>::empty();
    let mut map = map_;
//@@ loop 0
        invariant_except_break
            vs.len() <= ms.len(), map.rest() == ms.skip(vs.len() as int), map.due() is None,
        invariant
            ms == map_.rest(),
            forall|i: int| 0 <= i < vs.len() ==> pv_reads((#[trigger] ms[i]).1, Some(vs[i])),
            field_map(fields) == put(ms, vs),
            vs.len() < ms.len() ==> ms.skip(vs.len() as int)[0] == ms[vs.len() as int],
        ensures
            vs.len() == ms.len(),
        decreases ms.len() - vs.len(),
//@@ in-loop 0
        proof { assert(ms.skip(vs.len() as int).skip(1) =~= ms.skip((vs.len() + 1) as int)); assert(ms.skip(vs.len() as int)[0] == ms[vs.len() as int]); }
//@@ after? map . next_value_seed ( $x ) ? ;
        proof { assert(vs.push(value).drop_last() =~= vs); vs = vs.push(value); }
//@@ after-loop 0
    proof {
        assert forall|i: int| 0 <= i < ms.len() implies pv_reads(#[trigger] values_of(ms)[i], Some(vs[i])) by { assert(pv_reads(ms[i].1, Some(vs[i]))); }
        assert(pvs_read(values_of(ms), vs));
    }
//@@ end
}
impl GoogleProtobufValueVisitor {
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs DeserializeSeed for GoogleProtobufValueVisitor::deserialize
//@@ sig fn deserialize(self, deserializer: De) -> (r: Result<PV, DeError>)
//@@ spec
    ensures self.seeds(deserializer.json(), res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufValueVisitor::visit_bool
//@@ sig fn visit_bool(self, v: bool) -> (r: Result<PV, DeError>)
//@@ spec
    ensures self.reads(Json::Bool(v), res(r)),
//@@ start
    broadcast use pv_reads_is;
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufValueVisitor::visit_i64
//@@ sig fn visit_i64(self, v: i64) -> (r: Result<PV, DeError>)
//@@ subst? v as f64 ==>> i64_double(v)
//@@ spec
    ensures self.reads(Json::Int(v as int), res(r)),
//@@ start
    broadcast use pv_reads_is;
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufValueVisitor::visit_u64
//@@ sig fn visit_u64(self, v: u64) -> (r: Result<PV, DeError>)
//@@ subst? v as f64 ==>> u64_double(v)
//@@ spec
    ensures self.reads(Json::Int(v as int), res(r)),
//@@ start
    broadcast use pv_reads_is;
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufValueVisitor::visit_f64
//@@ sig fn visit_f64(self, v: f64) -> (r: Result<PV, DeError>)
//@@ spec
    ensures self.reads(Json::F64(v), res(r)),
//@@ start
    broadcast use pv_reads_is;
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufValueVisitor::visit_str
//@@ sig fn visit_str(self, v: &str) -> (r: Result<PV, DeError>)
//@@ spec
    ensures self.reads(Json::Str(v@), res(r)),
//@@ start
    broadcast use pv_reads_is;
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufValueVisitor::visit_string
//@@ sig fn visit_string(self, v: String) -> (r: Result<PV, DeError>)
//@@ spec
    ensures self.reads(Json::Str(v@), res(r)),
//@@ start
    broadcast use pv_reads_is;
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufValueVisitor::visit_unit
//@@ sig fn visit_unit(self) -> (r: Result<PV, DeError>)
//@@ spec
    ensures self.reads(Json::Null, res(r)),
//@@ start
    broadcast use pv_reads_is;
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufValueVisitor::visit_seq
//@@ sig fn visit_seq(self, seq: SeqAcc) -> (r: Result<PV, DeError>)
//@@ subst? . map ( | $l:id | $x ) ==>> .map(|$l: prost_types::ListValue| -> (o__: PV) ensures o__ == (PV { kind: Some(prost_types::value::Kind::ListValue($l)) }) { $x })
//@@ spec
    ensures self.reads(Json::Arr(seq.rest()), res(r)),
//@@ start
    broadcast use pv_reads_is;
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufValueVisitor::visit_map
//@@ sig fn visit_map(self, map: MapAcc) -> (r: Result<PV, DeError>)
//@@ subst? . map ( | $l:id | $x ) ==>> .map(|$l: prost_types::Struct| -> (o__: PV) ensures o__ == (PV { kind: Some(prost_types::value::Kind::StructValue($l)) }) { $x })
//@@ spec
    requires map.due() is None,
    ensures self.reads(Json::Obj(map.rest()), res(r)),
//@@ start
    broadcast use pv_reads_is;
//@@ end
}
#[verifier::external_body]
fn i64_double(v: i64) -> (r: f64) ensures r == int_double(v as int) { unimplemented!() }
#[verifier::external_body]
fn u64_double(v: u64) -> (r: f64) ensures r == int_double(v as int) { unimplemented!() }
impl Visitor for GoogleProtobufAnyVisitor<'_> {
    type Value = prost_types::Any;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<prost_types::Any>) -> bool { any_reads(j, *self.0, *self.1, r) }
}
//@@ fn prost-reflect/src/dynamic/serde/de/mod.rs deserialize_message
//@@ sig fn deserialize_message(desc: &MessageDescriptor, deserializer: De, options: &DeserializeOptions) -> (r: Result<DynamicMessage, DeError>)
//@@ subst? deserializer . $m:id ( $v ) . and_then ( | $x:id | make_message ( desc , $y:id ) ) ==>> match deserializer.$m($v) { Ok(v__) => make_message(desc, v__), Err(e__) => Err(e__) }
//@@ spec
    ensures message_reads(*desc, deserializer.json(), *options, res(r)),
//@@ start
    broadcast use {str_ext, message_reads_is};
    proof { wkt_names(); }
//@@ end
// ---- reading Any
pub struct StringSeed;
impl DeserializeSeed for StringSeed {
    type Value = String;
    open spec fn seed_ready(self) -> bool { true }
    open spec fn seeds(self, j: Json, r: Option<String>) -> bool { match j { Json::Str(s) => r is Some && r->Some_0@ == s, _ => r is None } }
}
//@@ item prost-reflect/src/dynamic/serde/de/mod.rs struct MessageSeed
impl DeserializeSeed for MessageSeed<'_> {
    type Value = DynamicMessage;
    open spec fn seed_ready(self) -> bool { true }
    open spec fn seeds(self, j: Json, r: Option<DynamicMessage>) -> bool { message_reads(*self.0, j, *self.1, r) }
}
impl MessageSeed<'_> {
//@@ fn prost-reflect/src/dynamic/serde/de/mod.rs DeserializeSeed for MessageSeed::deserialize
//@@ sig fn deserialize(self, deserializer: De) -> (r: Result<DynamicMessage, DeError>)
//@@ spec
    ensures self.seeds(deserializer.json(), res(r)),
//@@ end
}
/// serde_value::Value: a document held in memory (assumed contract: reading from it is reading the document).
#[verifier::external_body]
pub struct Held { x: u8 }
impl Held { pub uninterp spec fn json(&self) -> Json; }
impl MapAcc {
    /// `next_value::<serde_value::Value>()`
    #[verifier::external_body]
    pub fn next_value(&mut self) -> (r: Result<Held, DeError>)
        requires old(self).due() is Some,
        ensures r is Ok, r->Ok_0.json() == old(self).due()->Some_0, final(self).rest() == old(self).rest(), final(self).due() is None,
    { unimplemented!() }
}
impl Key {
    #[verifier::external_body]
    pub fn is(&self, s: &str) -> (r: bool) ensures r == (self.view() == s@) { unimplemented!() }
}
/// HashMap<Cow<str>, serde_value::Value>
#[verifier::external_body]
pub struct Buffer { x: u8 }
pub type Docs = Map<Seq<char>, Json>;
/// The entries of a map, each key once, in some order.
pub open spec fn lists(es: Seq<(Seq<char>, Json)>, b: Docs) -> bool {
    &&& forall|i: int| 0 <= i < es.len() ==> b.contains_key((#[trigger] es[i]).0) && b[es[i].0] == es[i].1
    &&& forall|k: Seq<char>| #[trigger] b.contains_key(k) ==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0 != (#[trigger] es[j]).0
}
impl Buffer {
    pub uninterp spec fn docs(&self) -> Docs;
    #[verifier::external_body]
    pub fn new() -> (r: Buffer) ensures r.docs() == Map::<Seq<char>, Json>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Key, v: Held) ensures final(self).docs() == old(self).docs().insert(k.view(), v.json()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<De>)
        ensures r is Some <==> old(self).docs().contains_key(k@), r is Some ==> r->Some_0.json() == old(self).docs()[k@], final(self).docs() == old(self).docs().remove(k@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn first_key(&self) -> (r: Option<&Key>) ensures r is Some <==> !none(self.docs()) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_entries(self) -> (r: MapAcc) ensures r.due() is None, lists(r.rest(), self.docs()) { unimplemented!() }
    #[verifier::external_body]
    pub fn gone(self) { unimplemented!() }
}
pub open spec fn none(b: Docs) -> bool { forall|k: Seq<char>| !(#[trigger] b.contains_key(k)) }
/// The first member of this name, or the length.
pub open spec fn pos(ms: Seq<(Seq<char>, Json)>, key: Seq<char>) -> int
    decreases ms.len()
{
    if ms.len() == 0 || ms[0].0 == key { 0 } else { 1 + pos(ms.skip(1), key) }
}
proof fn pos_bounds(ms: Seq<(Seq<char>, Json)>, key: Seq<char>)
    ensures 0 <= pos(ms, key) <= ms.len(),
    decreases ms.len(),
{
    if ms.len() > 0 && ms[0].0 != key { pos_bounds(ms.skip(1), key); }
}
pub open spec fn buffered(b: Docs, ms: Seq<(Seq<char>, Json)>) -> Docs
    decreases ms.len()
{
    if ms.len() == 0 { b } else { buffered(b, ms.drop_last()).insert(ms.last().0, ms.last().1) }
}
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs find_field
//@@ sig fn find_field<D: DeserializeSeed>(map: &mut MapAcc, buffered_entries: &mut Buffer, expected: &str, value_seed: D) -> (r: Result<D::Value, DeError>)
//@@ subst? map . next_key :: < Cow < str >> ( ) ==>> map.next_key()
//@@ subst? map . next_key :: < Cow < str > > ( ) ==>> map.next_key()
//@@ subst? Some ( $k:id ) if $k == expected => $x , ==>> Some($k) if $k.is(expected) => $x,
//@@ subst? Error :: custom ==>> DeError::custom
//@@ subst? format ! $m:tt => ""
//@@ spec
    requires old(map).due() is None, value_seed.seed_ready(),
    ensures
        ({
            let ms = old(map).rest();
            let k = pos(ms, expected@);
            &&& 0 <= k <= ms.len()
            &&& k == ms.len() ==> r is Err
            &&& k < ms.len() ==> value_seed.seeds(ms[k].1, res(r))
            &&& k < ms.len() && r is Ok ==> final(map).due() is None && final(map).rest() == ms.skip(k + 1) && final(buffered_entries).docs() == buffered(old(buffered_entries).docs(), ms.take(k))
        }),
//@@ start
    let ghost ms = map.rest();
    let ghost b0 = buffered_entries.docs();
    let ghost mut n: int = 0;
    proof { pos_bounds(ms, expected@); assert(ms.skip(0) =~= ms); assert(ms.take(0) =~= Seq::empty()); }
//@@ loop 0
        invariant
            map.due() is None, 0 <= n <= ms.len(), map.rest() == ms.skip(n), pos(ms, expected@) == n + pos(ms.skip(n), expected@), 0 <= pos(ms, expected@) <= ms.len(), value_seed.seed_ready(),
            b0 == old(buffered_entries).docs(), ms == old(map).rest(), buffered_entries.docs() == buffered(b0, ms.take(n)),
        decreases ms.len() - n,
//@@ in-loop 0
        proof {
            if n < ms.len() {
                assert(ms.skip(n)[0] == ms[n]); assert(ms.skip(n).skip(1) =~= ms.skip(n + 1)); assert(ms.take(n + 1).drop_last() =~= ms.take(n)); assert(ms.take(n + 1).last() == ms[n]);
            }
        }
//@@ end-loop 0
        proof { n = n + 1; }
//@@ end
/// What reading an Any makes of a document.
pub open spec fn any_reads(j: Json, pool: DescriptorPool, p: DeserializeOptions, r: Option<prost_types::Any>) -> bool {
    match j {
        Json::Obj(ms) => {
            let k = pos(ms, "@type"@);
            if k >= ms.len() { r is None } else {
                match ms[k].1 {
                    Json::Str(u) => match url_name(u) {
                        Some(n) => match pool.s_message(n) {
                            Some(d) => match r {
                                Some(a) => a.type_url@ == u && exists|m: DynamicMessage| payload_reads(n, d, buffered(Map::empty(), ms.take(k)), ms.skip(k + 1), p, Some(m)) && a.value@ == #[trigger] encoded(m),
                                None => payload_reads(n, d, buffered(Map::empty(), ms.take(k)), ms.skip(k + 1), p, None),
                            },
                            None => r is None,
                        },
                        None => r is None,
                    },
                    _ => r is None,
                }
            }
        },
        _ => r is None,
    }
}
/// The bytes a message is encoded as.
pub uninterp spec fn encoded(m: DynamicMessage) -> Seq<u8>;
impl DynamicMessage {
    #[verifier::external_body]
    pub fn encode_to_vec(&self) -> (r: Vec<u8>) ensures r@ == encoded(*self) { unimplemented!() }
}
/// `b` are the members before `@type`, `ms` those after it.
pub open spec fn payload_reads(n: Seq<char>, d: MessageDescriptor, b: Docs, ms: Seq<(Seq<char>, Json)>, p: DeserializeOptions, r: Option<DynamicMessage>) -> bool {
    if wkt_of(n) is Some {
        if b.contains_key("value"@) { own_payload(d, b["value"@], p, none(b.remove("value"@)) && ms.len() == 0, r) }
        else {
            let k = pos(ms, "value"@);
            if k >= ms.len() { r is None } else { own_payload(d, ms[k].1, p, none(buffered(b.remove("value"@), ms.take(k))) && ms.skip(k + 1).len() == 0, r) }
        }
    } else {
        exists|s: Option<Slots>| #[trigger] entries_read(d, b, p, Map::empty(), s) && match s {
            None => r is None,
            Some(s) => match r {
                Some(m) => m.s_desc() == d && object_reads(d, ms, p, s, Some(m.slots())),
                None => object_reads(d, ms, p, s, None),
            },
        }
    }
}
pub open spec fn own_payload(d: MessageDescriptor, j: Json, p: DeserializeOptions, only: bool, r: Option<DynamicMessage>) -> bool {
    if p.deny_unknown_fields && !only { r is None } else { message_reads(d, j, p, r) }
}
//@@ item prost-reflect/src/dynamic/serde/de/kind.rs struct MessageVisitorInner
impl MessageVisitorInner<'_> {
    /// (unit json_value)
    #[verifier::external_body]
    pub fn visit_map(self, map: MapAcc) -> (r: Result<(), DeError>)
        requires map.due() is None,
        ensures
            final(self.0).s_desc() == old(self.0).s_desc(),
            r is Ok ==> object_reads(old(self.0).s_desc(), map.rest(), *self.1, old(self.0).slots(), Some(final(self.0).slots())),
            r is Err ==> object_reads(old(self.0).s_desc(), map.rest(), *self.1, old(self.0).slots(), None),
    { unimplemented!() }
}
/// into_deserializer and deserialize_map
fn visit_entries(b: Buffer, m: &mut DynamicMessage, o: &DeserializeOptions) -> (r: Result<(), DeError>)
    ensures
        final(m).s_desc() == old(m).s_desc(),
        entries_read(old(m).s_desc(), b.docs(), *o, old(m).slots(), match r { Ok(_) => Some(final(m).slots()), Err(_) => None }),
{
    let es = b.into_entries();
    proof { assert(lists(es.rest(), b.docs())); }
    MessageVisitorInner(m, o).visit_map(es)
}
pub open spec fn entries_read(d: MessageDescriptor, b: Docs, p: DeserializeOptions, s0: Slots, r: Option<Slots>) -> bool {
    exists|es: Seq<(Seq<char>, Json)>| #[trigger] lists(es, b) && object_reads(d, es, p, s0, r)
}
#[verifier::external_body]
fn string_ref(s: &String) -> (r: &str) ensures r@ == s@ { unimplemented!() }
impl GoogleProtobufAnyVisitor<'_> {
#[verifier::spinoff_prover]
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufAnyVisitor::visit_map
//@@ sig fn visit_map(self, map_: MapAcc) -> (r: Result<prost_types::Any, DeError>)
//@@ subst? HashMap :: new ( ) ==>> Buffer::new()
//@@ subst? PhantomData :: < String > ==>> StringSeed
//@@ subst? . map_err ( Error :: custom ) ==>> .map_err(|e__| -> (o__: DeError) { DeError::custom(e__) })
//@@ subst? . ok_or_else ( | | $x ) ==>> .ok_or(DeError::custom(""))
//@@ subst? $b:id . into_deserializer ( ) . deserialize_map ( MessageVisitorInner ( & mut $m , $o ) ) ==>> visit_entries($b, &mut $m, $o)
//@@ subst? $b:id . keys ( ) . next ( ) ==>> $b.first_key()
//@@ subst? drop ( $b:id ) ==>> $b.gone()
//@@ subst? map . next_key :: < Cow < str >> ( ) ==>> map.next_key()
//@@ subst? map . next_key :: < Cow < str > > ( ) ==>> map.next_key()
//@@ subst? map . next_entry :: < IgnoredAny , IgnoredAny > ( ) ==>> map.skip_entry()
//@@ subst? Error :: custom ==>> DeError::custom
//@@ subst? format ! $m:tt => ""
//@@ spec
    requires map_.due() is None,
    ensures self.reads(Json::Obj(map_.rest()), res(r)),
//@@ start
    let mut map = map_;
    let ghost ms = map_.rest();
    let ghost k = pos(ms, "@type"@);
//@@ before? let $p:id = if is_well_known_type
        let ghost b = buffered(Map::empty(), ms.take(k));
        let ghost rest = ms.skip(k + 1);
        let ghost n = message_name@;
        let ghost d = message_desc;
        proof { assert(map.rest() == rest); assert(buffered_entries.docs() == b); assert(!b.contains_key("value"@) ==> b.remove("value"@) =~= b); }
//@@ loop 0
        invariant map.due() is None,
        decreases map.rest().len(),
//@@ end
}

// ---- the round trip of the types with a JSON form of their own
/// The depth of a value: its elements and entries are less deep.
pub uninterp spec fn pv_depth(v: PV) -> nat;
pub broadcast axiom fn pv_depth_is(v: PV)
    ensures
        #![trigger pv_depth(v)]
        match v.kind {
            Some(prost_types::value::Kind::ListValue(l)) => forall|i: int| 0 <= i < l.values@.len() ==> pv_depth(#[trigger] l.values@[i]) < pv_depth(v),
            Some(prost_types::value::Kind::StructValue(s)) => forall|i: int| 0 <= i < fields_of(s.fields).len() ==> pv_depth((#[trigger] fields_of(s.fields)[i]).1) < pv_depth(v),
            _ => true,
        };
/// A Value with a kind everywhere, and the one value there is for NullValue.
pub uninterp spec fn pv_set(v: PV) -> bool;
pub open spec fn pvs_set(vs: Seq<PV>) -> bool { forall|i: int| 0 <= i < vs.len() ==> pv_set(#[trigger] vs[i]) }
pub open spec fn entries_set(es: Seq<(String, PV)>) -> bool { forall|i: int| 0 <= i < es.len() ==> pv_set((#[trigger] es[i]).1) }
pub broadcast axiom fn pv_set_is(v: PV)
    ensures #[trigger] pv_set(v) == (match v.kind {
        None => false,
        Some(prost_types::value::Kind::NullValue(i)) => i == 0,
        Some(prost_types::value::Kind::ListValue(l)) => pvs_set(l.values@),
        Some(prost_types::value::Kind::StructValue(s)) => entries_set(fields_of(s.fields)),
        _ => true,
    });
proof fn list_round(vs: Seq<PV>, r: Option<Seq<PV>>)
    requires pv_list_reads(pv_list(vs), r), forall|i: int, x: Option<PV>| 0 <= i < vs.len() && pv_reads(pv_json(vs[i]), x) ==> x is Some && #[trigger] same_pv(vs[i], x->Some_0),
        forall|i: int| 0 <= i < vs.len() ==> !pv_reads(pv_json(#[trigger] vs[i]), None),
    ensures r is Some, same_values(vs, r->Some_0),
{
    let js = pv_list(vs);
    match r {
        Some(ws) => {
            assert forall|i: int| 0 <= i < vs.len() implies same_pv(#[trigger] vs[i], ws[i]) by { assert(js[i] == pv_json(vs[i])); assert(pv_reads(js[i], Some(ws[i]))); assert(same_pv(vs[i], Some(ws[i])->Some_0)); }
        },
        None => { let i = choose|i: int| 0 <= i < js.len() && pv_reads(#[trigger] js[i], None); assert(js[i] == pv_json(vs[i])); },
    }
}
proof fn put_is(ms: Seq<(Seq<char>, Json)>, ws: Seq<PV>, f: Map<Seq<char>, PV>)
    requires ws.len() <= ms.len(), f == put(ms, ws), forall|i: int, j: int| 0 <= i < j < ms.len() ==> (#[trigger] ms[i]).0 != (#[trigger] ms[j]).0,
    ensures
        forall|i: int| 0 <= i < ws.len() ==> f.contains_key((#[trigger] ms[i]).0) && f[ms[i].0] == ws[i],
        forall|k: Seq<char>| #[trigger] f.contains_key(k) ==> exists|i: int| 0 <= i < ws.len() && (#[trigger] ms[i]).0 == k,
    decreases ws.len(),
{
    if ws.len() > 0 {
        let g = put(ms, ws.drop_last());
        put_is(ms, ws.drop_last(), g);
        assert(ws.last() == ws[ws.len() - 1]);
        assert forall|i: int| 0 <= i < ws.len() implies f.contains_key((#[trigger] ms[i]).0) && f[ms[i].0] == ws[i] by {
            if i < ws.len() - 1 { assert(ms[i].0 != ms[ws.len() - 1].0); assert(ws.drop_last()[i] == ws[i]); }
        }
        assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies exists|i: int| 0 <= i < ws.len() && (#[trigger] ms[i]).0 == k by {
            if k == ms[ws.len() - 1].0 { assert(ms[ws.len() - 1].0 == k); }
            else { assert(g.contains_key(k)); let i = choose|i: int| 0 <= i < ws.drop_last().len() && (#[trigger] ms[i]).0 == k; assert(ms[i].0 == k); }
        }
    }
}
proof fn struct_round(f: Fields, r: Option<Map<Seq<char>, PV>>)
    requires
        pv_struct_reads(pv_members(fields_of(f)), r),
        forall|i: int, x: Option<PV>| 0 <= i < fields_of(f).len() && pv_reads(pv_json(fields_of(f)[i].1), x) ==> x is Some && #[trigger] same_pv(fields_of(f)[i].1, x->Some_0),
        forall|i: int| 0 <= i < fields_of(f).len() ==> !pv_reads(pv_json((#[trigger] fields_of(f)[i]).1), None),
    ensures r is Some,
        forall|k: Seq<char>| #[trigger] field_map(f).contains_key(k) <==> r->Some_0.contains_key(k),
        forall|k: Seq<char>| #[trigger] field_map(f).contains_key(k) ==> same_pv(field_map(f)[k], r->Some_0[k]),
{
    broadcast use fields_once;
    let es = fields_of(f);
    let ms = pv_members(es);
    match r {
        Some(g) => {
            let ws = choose|ws: Seq<PV>| #[trigger] pvs_read(values_of(ms), ws) && g == put(ms, ws);
            assert forall|i: int, j: int| 0 <= i < j < ms.len() implies (#[trigger] ms[i]).0 != (#[trigger] ms[j]).0 by { assert(es[i].0@ != es[j].0@); }
            put_is(ms, ws, g);
            assert forall|i: int| 0 <= i < es.len() implies same_pv((#[trigger] es[i]).1, ws[i]) by {
                assert(values_of(ms)[i] == pv_json(es[i].1)); assert(pv_reads(values_of(ms)[i], Some(ws[i]))); assert(same_pv(es[i].1, Some(ws[i])->Some_0));
            }
            assert forall|k: Seq<char>| #[trigger] field_map(f).contains_key(k) implies g.contains_key(k) && same_pv(field_map(f)[k], g[k]) by {
                let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0@ == k;
                assert(ms[i].0 == k);
                assert(field_map(f)[es[i].0@] == es[i].1);
                assert(g[ms[i].0] == ws[i]);
            }
            assert forall|k: Seq<char>| g.contains_key(k) implies #[trigger] field_map(f).contains_key(k) by {
                let i = choose|i: int| 0 <= i < ws.len() && (#[trigger] ms[i]).0 == k;
                assert(es[i].0@ == k);
            }
        },
        None => { let i = choose|i: int| 0 <= i < ms.len() && pv_reads((#[trigger] ms[i]).1, None); assert(ms[i].1 == pv_json(es[i].1)); },
    }
}
/// What is read from the document a Value is written as is accepted, and is that Value.
#[verifier::spinoff_prover]
proof fn pv_round(v: PV, r: Option<PV>)
    requires pv_set(v), pv_writes(v), pv_reads(pv_json(v), r),
    ensures r is Some, same_pv(v, r->Some_0),
    decreases pv_depth(v), 1nat,
{
    broadcast use {pv_json_is, pv_writes_is, pv_set_is, pv_reads_is, pv_depth_is, same_pv_is};
    match v.kind {
        Some(prost_types::value::Kind::ListValue(l)) => {
            let vs = l.values@;
            list_rounds(vs, pv_depth(v));
            match r {
                Some(PV { kind: Some(prost_types::value::Kind::ListValue(m)) }) => { list_round(vs, Some(m.values@)); },
                _ => { list_round(vs, None); },
            }
        },
        Some(prost_types::value::Kind::StructValue(s)) => {
            entries_rounds(s.fields, pv_depth(v));
            match r {
                Some(PV { kind: Some(prost_types::value::Kind::StructValue(t)) }) => { struct_round(s.fields, Some(field_map(t.fields))); },
                _ => { struct_round(s.fields, None); },
            }
        },
        _ => {},
    }
}
proof fn list_rounds(vs: Seq<PV>, n: nat)
    requires pvs_set(vs), pvs_write(vs), forall|i: int| 0 <= i < vs.len() ==> pv_depth(#[trigger] vs[i]) < n,
    ensures
        forall|i: int, x: Option<PV>| 0 <= i < vs.len() && pv_reads(pv_json(vs[i]), x) ==> x is Some && #[trigger] same_pv(vs[i], x->Some_0),
        forall|i: int| 0 <= i < vs.len() ==> !pv_reads(pv_json(#[trigger] vs[i]), None),
    decreases n, 0nat,
{
    assert forall|i: int, x: Option<PV>| 0 <= i < vs.len() && pv_reads(pv_json(vs[i]), x) implies x is Some && #[trigger] same_pv(vs[i], x->Some_0) by { pv_round(vs[i], x); }
    assert forall|i: int| 0 <= i < vs.len() implies !pv_reads(pv_json(#[trigger] vs[i]), None) by { if pv_reads(pv_json(vs[i]), None) { pv_round(vs[i], None); } }
}
proof fn entries_rounds(f: Fields, n: nat)
    requires entries_set(fields_of(f)), entries_write(fields_of(f)), forall|i: int| 0 <= i < fields_of(f).len() ==> pv_depth((#[trigger] fields_of(f)[i]).1) < n,
    ensures
        forall|i: int, x: Option<PV>| 0 <= i < fields_of(f).len() && pv_reads(pv_json(fields_of(f)[i].1), x) ==> x is Some && #[trigger] same_pv(fields_of(f)[i].1, x->Some_0),
        forall|i: int| 0 <= i < fields_of(f).len() ==> !pv_reads(pv_json((#[trigger] fields_of(f)[i]).1), None),
    decreases n, 0nat,
{
    let es = fields_of(f);
    assert forall|i: int, x: Option<PV>| 0 <= i < es.len() && pv_reads(pv_json(es[i].1), x) implies x is Some && #[trigger] same_pv(es[i].1, x->Some_0) by { assert(pv_set((es[i]).1)); pv_round(es[i].1, x); }
    assert forall|i: int| 0 <= i < es.len() implies !pv_reads(pv_json((#[trigger] es[i]).1), None) by { if pv_reads(pv_json(es[i].1), None) { pv_round(es[i].1, None); } }
}

/// The same Values are the same to a third.
proof fn pv_trans(a: PV, b: PV, c: PV)
    requires same_pv(a, b), same_pv(b, c),
    ensures same_pv(a, c),
    decreases pv_depth(a), 1nat,
{
    broadcast use {same_pv_is, pv_depth_is};
    match (a.kind, b.kind, c.kind) {
        (Some(prost_types::value::Kind::ListValue(x)), Some(prost_types::value::Kind::ListValue(y)), Some(prost_types::value::Kind::ListValue(z))) => { values_trans(x.values@, y.values@, z.values@, pv_depth(a)); },
        (Some(prost_types::value::Kind::StructValue(x)), Some(prost_types::value::Kind::StructValue(y)), Some(prost_types::value::Kind::StructValue(z))) => { struct_trans(x, y, z, pv_depth(a)); },
        _ => {},
    }
}
proof fn values_trans(a: Seq<PV>, b: Seq<PV>, c: Seq<PV>, n: nat)
    requires same_values(a, b), same_values(b, c), forall|i: int| 0 <= i < a.len() ==> pv_depth(#[trigger] a[i]) < n,
    ensures same_values(a, c),
    decreases n, 0nat,
{
    assert forall|i: int| 0 <= i < a.len() implies same_pv(#[trigger] a[i], c[i]) by { assert(same_pv(a[i], b[i])); assert(same_pv(b[i], c[i])); pv_trans(a[i], b[i], c[i]); }
}
proof fn struct_trans(a: prost_types::Struct, b: prost_types::Struct, c: prost_types::Struct, n: nat)
    requires same_struct(a, b), same_struct(b, c), forall|i: int| 0 <= i < fields_of(a.fields).len() ==> pv_depth((#[trigger] fields_of(a.fields)[i]).1) < n,
    ensures same_struct(a, c),
    decreases n, 0nat,
{
    broadcast use fields_once;
    let (f, g, h) = (field_map(a.fields), field_map(b.fields), field_map(c.fields));
    assert forall|k: Seq<char>| #[trigger] f.contains_key(k) <==> h.contains_key(k) by { assert(f.contains_key(k) <==> g.contains_key(k)); }
    assert forall|k: Seq<char>| #[trigger] f.contains_key(k) implies same_pv(f[k], h[k]) by {
        assert(g.contains_key(k));
        let i = choose|i: int| 0 <= i < fields_of(a.fields).len() && (#[trigger] fields_of(a.fields)[i]).0@ == k;
        assert(pv_depth(fields_of(a.fields)[i].1) < n);
        pv_trans(f[k], g[k], h[k]);
    }
}
/// Not nested more than the recursion limit of prost allows.
pub open spec fn shallow<T: Inner>(v: T) -> bool { forall|x: T| T::same(v, x) ==> !#[trigger] too_deep(x) }
pub open spec fn held<T: Inner>(m: DynamicMessage, r: Option<DynamicMessage>) -> bool { r is Some && T::of(r->Some_0) is Some && T::same(T::of(m)->Some_0, T::of(r->Some_0)->Some_0) }
/// What prost-types reads from the text which it wrote a Timestamp or Duration in range as (P15).
pub broadcast axiom fn timestamp_round(t: prost_types::Timestamp) requires timestamp_ok(t) ensures timestamp_of(#[trigger] timestamp_text(t)) == Some(t);
pub broadcast axiom fn duration_round(t: prost_types::Duration) requires duration_ok(t) ensures duration_of(#[trigger] duration_text(t)) == Some(t);
/// (unit field_mask, P14)
pub broadcast axiom fn mask_round(t: Seq<Seq<char>>) requires mask_text(t) is Some ensures mask_of((#[trigger] mask_text(t))->Some_0) == Some(t);
/// (unit json_value)
pub broadcast axiom fn object_reads_nothing(d: MessageDescriptor, ms: Seq<(Seq<char>, Json)>, p: DeserializeOptions, s: Slots, r: Option<Slots>)
    requires ms.len() == 0, #[trigger] object_reads(d, ms, p, s, r),
    ensures r == Some(s);
/// Equal messages.
pub uninterp spec fn same_message(a: DynamicMessage, b: DynamicMessage) -> bool;
/// What is assumed of the payload of an Any, which is what is shown of the message it is in.
pub open spec fn payload_round(d: MessageDescriptor, m: DynamicMessage, o: SerializeOptions, p: DeserializeOptions) -> bool {
    forall|x: Option<DynamicMessage>| #[trigger] message_reads(d, message_json(m, o), p, x) ==> x is Some && same_message(m, x->Some_0)
}
/// The same type URL, and an equal payload.
pub open spec fn same_any(a: prost_types::Any, b: prost_types::Any, pool: DescriptorPool) -> bool {
    a.type_url@ == b.type_url@ && exists|m: DynamicMessage| b.value@ == #[trigger] encoded(m) && same_message(any_payload(a, pool)->Some_0, m)
}
#[verifier::spinoff_prover]
proof fn any_round(a: prost_types::Any, pool: DescriptorPool, o: SerializeOptions, p: DeserializeOptions, r: Option<prost_types::Any>)
    requires
        any_writes(a, pool, o), any_reads(any_json(a, pool, o), pool, p, r),
        payload_round(any_type(a, pool)->Some_0, any_payload(a, pool)->Some_0, o, p),
        // the type is looked up by this name, and the payload is decoded as this type
        any_type(a, pool)->Some_0.s_full_name() == url_name(a.type_url@)->Some_0, any_payload(a, pool)->Some_0.s_desc() == any_type(a, pool)->Some_0,
    ensures r is Some, same_any(a, r->Some_0, pool),
{
    broadcast use {message_json_is, message_reads_is};
    let n = url_name(a.type_url@)->Some_0;
    let d = any_type(a, pool)->Some_0;
    let m = any_payload(a, pool)->Some_0;
    let head = ("@type"@, Json::Str(a.type_url@));
    let ms = any_json(a, pool, o)->Obj_0;
    assert(ms[0] == head);
    assert(pos(ms, "@type"@) == 0);
    assert(ms.take(0) =~= Seq::<(Seq<char>, Json)>::empty());
    let b = buffered(Map::empty(), ms.take(0));
    let rest = ms.skip(1);
    assert(b == Map::<Seq<char>, Json>::empty());
    assert forall|x: Option<DynamicMessage>| #[trigger] payload_reads(n, d, b, rest, p, x) implies x is Some && same_message(m, x->Some_0) by {
        if wkt_of(n) is Some {
            let j = message_json(m, o);
            assert(rest =~= seq![("value"@, j)]);
            assert(rest[0] == ("value"@, j));
            assert(pos(rest, "value"@) == 0);
            assert(rest.take(0) =~= Seq::<(Seq<char>, Json)>::empty());
            assert(none(buffered(b.remove("value"@), rest.take(0))));
            assert(own_payload(d, j, p, true, x));
            assert(message_reads(d, j, p, x));
        } else {
            assert(rest =~= plain_members(m, o));
            let s = choose|s: Option<Slots>| #[trigger] entries_read(d, b, p, Map::empty(), s) && match s {
                None => x is None,
                Some(s) => match x { Some(m) => m.s_desc() == d && object_reads(d, rest, p, s, Some(m.slots())), None => object_reads(d, rest, p, s, None) },
            };
            let es = choose|es: Seq<(Seq<char>, Json)>| #[trigger] lists(es, b) && object_reads(d, es, p, Map::empty(), s);
            if es.len() > 0 { assert(b.contains_key(es[0].0)); }
            object_reads_nothing(d, es, p, Map::empty(), s);
            assert(plain_reads(d, Json::Obj(rest), p, x));
            assert(message_reads(d, message_json(m, o), p, x));
        }
    }
    match r {
        Some(c) => {
            let y = choose|y: DynamicMessage| payload_reads(n, d, b, rest, p, Some(y)) && c.value@ == #[trigger] encoded(y);
            assert(same_message(m, Some(y)->Some_0));
        },
        None => { assert(payload_reads(n, d, b, rest, p, None::<DynamicMessage>)); },
    }
}
/// What a well-known value must be so that its JSON form tells what it is.
pub open spec fn own_rep(w: Wkt, m: DynamicMessage, o: SerializeOptions, p: DeserializeOptions) -> bool {
    match w {
        Wkt::Any => {
            let a = prost_types::Any::of(m)->Some_0;
            let pool = m.s_desc().s_pool();
            // nested messages; the form of the same content is the same
            &&& payload_round(any_type(a, pool)->Some_0, any_payload(a, pool)->Some_0, o, p)
            &&& any_type(a, pool)->Some_0.s_full_name() == url_name(a.type_url@)->Some_0 && any_payload(a, pool)->Some_0.s_desc() == any_type(a, pool)->Some_0
            &&& forall|x: prost_types::Any| same_any(a, x, pool) ==> !#[trigger] too_deep(x)
        },
        Wkt::Timestamp => shallow(<prost_types::Timestamp as Inner>::of(m)->Some_0) && <prost_types::Timestamp as Inner>::of(m) is Some,
        Wkt::Duration => shallow(<prost_types::Duration as Inner>::of(m)->Some_0) && <prost_types::Duration as Inner>::of(m) is Some,
        Wkt::Struct => shallow(<prost_types::Struct as Inner>::of(m)->Some_0) && <prost_types::Struct as Inner>::of(m) is Some && entries_set(fields_of(<prost_types::Struct as Inner>::of(m)->Some_0.fields)),
        Wkt::Float => shallow(<f32 as Inner>::of(m)->Some_0) && <f32 as Inner>::of(m) is Some && !rounds_twice(<f32 as Inner>::of(m)->Some_0),
        Wkt::Double => shallow(<f64 as Inner>::of(m)->Some_0) && <f64 as Inner>::of(m) is Some,
        Wkt::Int32 => shallow(<i32 as Inner>::of(m)->Some_0) && <i32 as Inner>::of(m) is Some,
        Wkt::Int64 => shallow(<i64 as Inner>::of(m)->Some_0) && <i64 as Inner>::of(m) is Some,
        Wkt::Uint32 => shallow(<u32 as Inner>::of(m)->Some_0) && <u32 as Inner>::of(m) is Some,
        Wkt::Uint64 => shallow(<u64 as Inner>::of(m)->Some_0) && <u64 as Inner>::of(m) is Some,
        Wkt::Bool => shallow(<bool as Inner>::of(m)->Some_0) && <bool as Inner>::of(m) is Some,
        Wkt::String => shallow(<String as Inner>::of(m)->Some_0) && <String as Inner>::of(m) is Some,
        Wkt::Bytes => shallow(<Bytes as Inner>::of(m)->Some_0) && <Bytes as Inner>::of(m) is Some && <Vec<u8> as Inner>::of(m) is Some && <Vec<u8> as Inner>::of(m)->Some_0@ == <Bytes as Inner>::of(m)->Some_0@,
        Wkt::FieldMask => shallow(<prost_types::FieldMask as Inner>::of(m)->Some_0) && <prost_types::FieldMask as Inner>::of(m) is Some,
        Wkt::List => shallow(<prost_types::ListValue as Inner>::of(m)->Some_0) && <prost_types::ListValue as Inner>::of(m) is Some && pvs_set(<prost_types::ListValue as Inner>::of(m)->Some_0.values@),
        Wkt::Value => shallow(<PV as Inner>::of(m)->Some_0) && <PV as Inner>::of(m) is Some && pv_set(<PV as Inner>::of(m)->Some_0),
        Wkt::Empty => shallow(<() as Inner>::of(m)->Some_0) && <() as Inner>::of(m) is Some,
    }
}
pub open spec fn own_same(w: Wkt, m: DynamicMessage, r: Option<DynamicMessage>) -> bool {
    match w {
        Wkt::Any => r is Some && prost_types::Any::of(r->Some_0) is Some && exists|a: prost_types::Any| #[trigger] same_any(prost_types::Any::of(m)->Some_0, a, m.s_desc().s_pool()) && prost_types::Any::same(a, prost_types::Any::of(r->Some_0)->Some_0),
        Wkt::Timestamp => held::<prost_types::Timestamp>(m, r),
        Wkt::Duration => held::<prost_types::Duration>(m, r),
        Wkt::Struct => held::<prost_types::Struct>(m, r),
        Wkt::Float => held::<f32>(m, r),
        Wkt::Double => held::<f64>(m, r),
        Wkt::Int32 => held::<i32>(m, r),
        Wkt::Int64 => held::<i64>(m, r),
        Wkt::Uint32 => held::<u32>(m, r),
        Wkt::Uint64 => held::<u64>(m, r),
        Wkt::Bool => held::<bool>(m, r),
        Wkt::String => held::<String>(m, r),
        Wkt::Bytes => held::<Bytes>(m, r),
        Wkt::FieldMask => held::<prost_types::FieldMask>(m, r),
        Wkt::List => held::<prost_types::ListValue>(m, r),
        Wkt::Value => held::<PV>(m, r),
        Wkt::Empty => held::<()>(m, r),
    }
}
/// P13 for the types with a JSON form of their own.
#[verifier::spinoff_prover]
proof fn own_round(w: Wkt, m: DynamicMessage, o: SerializeOptions, p: DeserializeOptions, r: Option<DynamicMessage>)
    requires
        wkt_of(m.s_desc().s_full_name()) == Some(w), own_writes(w, m, o), own_rep(w, m, o, p), own_reads(w, m.s_desc(), own_json(w, m, o), p, r),
    ensures own_same(w, m, r), r->Some_0.s_desc() == m.s_desc(),
{
    hide(any_json); hide(any_reads); hide(payload_round); hide(same_any);
    broadcast use {f32_classes, f64_classes, f32_infinities, f64_infinities, float_text, dec_reads, base64_is, timestamp_round, duration_round, mask_round, zeros32, zeros64};
    wkt_names();
    let d = m.s_desc();
    match w {
        Wkt::Any => {
            let a = prost_types::Any::of(m)->Some_0;
            let x = choose|x: Option<prost_types::Any>| #[trigger] any_reads(any_json(a, d.s_pool(), o), d.s_pool(), p, x) && via(d, x, r);
            any_round(a, d.s_pool(), o, p, x);
        },
        Wkt::Timestamp => {
            let x = choose|x: Option<prost_types::Timestamp>| #[trigger] GoogleProtobufTimestampVisitor.reads(own_json(w, m, o), x) && via(d, x, r);
             assert(own_same(w, m, r));
        },
        Wkt::Duration => {
            let x = choose|x: Option<prost_types::Duration>| #[trigger] GoogleProtobufDurationVisitor.reads(own_json(w, m, o), x) && via(d, x, r);
             assert(own_same(w, m, r));
        },
        Wkt::Struct => {
            let x = choose|x: Option<prost_types::Struct>| #[trigger] GoogleProtobufStructVisitor.reads(own_json(w, m, o), x) && via(d, x, r);
            let v = prost_types::Struct::of(m)->Some_0; structs_round(v.fields, match x { Some(l) => Some(field_map(l.fields)), None => None }); if r is Some { strukt_trans(v, x->Some_0, prost_types::Struct::of(r->Some_0)->Some_0); } assert(own_same(w, m, r));
        },
        Wkt::Float => {
            let x = choose|x: Option<f32>| #[trigger] FloatVisitor.reads(own_json(w, m, o), x) && via(d, x, r);
             assert(own_same(w, m, r));
        },
        Wkt::Double => {
            let x = choose|x: Option<f64>| #[trigger] DoubleVisitor.reads(own_json(w, m, o), x) && via(d, x, r);
             assert(own_same(w, m, r));
        },
        Wkt::Int32 => {
            let x = choose|x: Option<i32>| #[trigger] Int32Visitor.reads(own_json(w, m, o), x) && via(d, x, r);
             assert(own_same(w, m, r));
        },
        Wkt::Int64 => {
            let x = choose|x: Option<i64>| #[trigger] Int64Visitor.reads(own_json(w, m, o), x) && via(d, x, r);
             assert(own_same(w, m, r));
        },
        Wkt::Uint32 => {
            let x = choose|x: Option<u32>| #[trigger] Uint32Visitor.reads(own_json(w, m, o), x) && via(d, x, r);
             assert(own_same(w, m, r));
        },
        Wkt::Uint64 => {
            let x = choose|x: Option<u64>| #[trigger] Uint64Visitor.reads(own_json(w, m, o), x) && via(d, x, r);
             assert(own_same(w, m, r));
        },
        Wkt::Bool => {
            let x = choose|x: Option<bool>| #[trigger] BoolVisitor.reads(own_json(w, m, o), x) && via(d, x, r);
             assert(own_same(w, m, r));
        },
        Wkt::String => {
            let x = choose|x: Option<String>| #[trigger] StringVisitor.reads(own_json(w, m, o), x) && via(d, x, r);
             assert(own_same(w, m, r));
        },
        Wkt::Bytes => {
            let x = choose|x: Option<Bytes>| #[trigger] BytesVisitor.reads(own_json(w, m, o), x) && via(d, x, r);
             assert(own_same(w, m, r));
        },
        Wkt::FieldMask => {
            let x = choose|x: Option<prost_types::FieldMask>| #[trigger] GoogleProtobufFieldMaskVisitor.reads(own_json(w, m, o), x) && via(d, x, r);
             assert(own_same(w, m, r));
        },
        Wkt::List => {
            let x = choose|x: Option<prost_types::ListValue>| #[trigger] GoogleProtobufListVisitor.reads(own_json(w, m, o), x) && via(d, x, r);
            let v = prost_types::ListValue::of(m)->Some_0; lists_round(v.values@, match x { Some(l) => Some(l.values@), None => None }); if r is Some { list_trans(v.values@, x->Some_0.values@, prost_types::ListValue::of(r->Some_0)->Some_0.values@); } assert(own_same(w, m, r));
        },
        Wkt::Value => {
            let x = choose|x: Option<PV>| #[trigger] GoogleProtobufValueVisitor.reads(own_json(w, m, o), x) && via(d, x, r);
            let v = PV::of(m)->Some_0; pv_round(v, x); if r is Some { pv_trans(v, x->Some_0, PV::of(r->Some_0)->Some_0); } assert(own_same(w, m, r));
        },
        Wkt::Empty => {
            let x = choose|x: Option<()>| #[trigger] GoogleProtobufEmptyVisitor.reads(own_json(w, m, o), x) && via(d, x, r);
             assert(own_same(w, m, r));
        },
    }
}

proof fn lists_round(vs: Seq<PV>, r: Option<Seq<PV>>)
    requires pvs_set(vs), pvs_write(vs), pv_list_reads(pv_list(vs), r),
    ensures r is Some, same_values(vs, r->Some_0),
{
    let l = most(vs.map_values(|v: PV| pv_depth(v)));
    assert forall|i: int| 0 <= i < vs.len() implies pv_depth(#[trigger] vs[i]) < l + 1 by { assert(vs.map_values(|v: PV| pv_depth(v))[i] == pv_depth(vs[i])); most_is(vs.map_values(|v: PV| pv_depth(v)), i); }
    list_rounds(vs, l + 1);
    list_round(vs, r);
}
proof fn structs_round(f: Fields, r: Option<Map<Seq<char>, PV>>)
    requires entries_set(fields_of(f)), entries_write(fields_of(f)), pv_struct_reads(pv_members(fields_of(f)), r),
    ensures r is Some,
        forall|k: Seq<char>| #[trigger] field_map(f).contains_key(k) <==> r->Some_0.contains_key(k),
        forall|k: Seq<char>| #[trigger] field_map(f).contains_key(k) ==> same_pv(field_map(f)[k], r->Some_0[k]),
{
    let ds = fields_of(f).map_values(|e: (String, PV)| pv_depth(e.1));
    assert forall|i: int| 0 <= i < fields_of(f).len() implies pv_depth((#[trigger] fields_of(f)[i]).1) < most(ds) + 1 by { assert(ds[i] == pv_depth(fields_of(f)[i].1)); most_is(ds, i); }
    entries_rounds(f, most(ds) + 1);
    struct_round(f, r);
}
proof fn list_trans(a: Seq<PV>, b: Seq<PV>, c: Seq<PV>)
    requires same_values(a, b), same_values(b, c),
    ensures same_values(a, c),
{
    let ds = a.map_values(|v: PV| pv_depth(v));
    assert forall|i: int| 0 <= i < a.len() implies pv_depth(#[trigger] a[i]) < most(ds) + 1 by { assert(ds[i] == pv_depth(a[i])); most_is(ds, i); }
    values_trans(a, b, c, most(ds) + 1);
}
proof fn strukt_trans(a: prost_types::Struct, b: prost_types::Struct, c: prost_types::Struct)
    requires same_struct(a, b), same_struct(b, c),
    ensures same_struct(a, c),
{
    let es = fields_of(a.fields);
    let ds = es.map_values(|e: (String, PV)| pv_depth(e.1));
    assert forall|i: int| 0 <= i < es.len() implies pv_depth((#[trigger] es[i]).1) < most(ds) + 1 by { assert(ds[i] == pv_depth(es[i].1)); most_is(ds, i); }
    struct_trans(a, b, c, most(ds) + 1);
}
pub open spec fn most(s: Seq<nat>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { let m = most(s.drop_last()); if s.last() > m { s.last() } else { m } }
}
proof fn most_is(s: Seq<nat>, i: int)
    requires 0 <= i < s.len(),
    ensures s[i] <= most(s),
    decreases s.len(),
{
    if i < s.len() - 1 { most_is(s.drop_last(), i); assert(s.drop_last()[i] == s[i]); }
}
/// P13 for any message: a type without a form of its own is the subject of message_round in unit json_value.
proof fn message_own_round(m: DynamicMessage, o: SerializeOptions, p: DeserializeOptions, r: Option<DynamicMessage>)
    requires
        wkt_of(m.s_desc().s_full_name()) is Some, message_writes(m, o), own_rep(wkt_of(m.s_desc().s_full_name())->Some_0, m, o, p),
        message_reads(m.s_desc(), message_json(m, o), p, r),
    ensures own_same(wkt_of(m.s_desc().s_full_name())->Some_0, m, r),
{
    broadcast use {message_json_is, message_reads_is, message_writes_is};
    own_round(wkt_of(m.s_desc().s_full_name())->Some_0, m, o, p, r);
}
} // verus!
fn main() {}
