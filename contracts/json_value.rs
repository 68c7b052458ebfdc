//@@ props P13 P20
//@@ include head.rs
use vstd::string::*;
//@@ include json.rs
//@@ include json_model.rs
//@@ include json_read.rs
//@@ include json_visitors.rs

// ---- the writer

impl SerializeWrapper<'_, MapKey> {
//@@ fn prost-reflect/src/dynamic/serde/ser/mod.rs Serialize for SerializeWrapper<MapKey>::serialize
//@@ sig fn serialize(&self, serializer: Ser) -> (r: Result<Out, SerError>)
//@@ spec
    ensures r is Ok, r->Ok_0.json() == Json::Str(key_text(*self.value)),
//@@ end
}

//@@ fn prost-reflect/src/dynamic/serde/ser/mod.rs serialize_f32
//@@ sig fn serialize_f32(value: f32, serializer: Ser) -> (r: Result<Out, SerError>)
//@@ subst? value . is_finite ( ) => f32_finite(value)
//@@ subst? value == f32 :: INFINITY => f32_is_inf(value)
//@@ subst? value == f32 :: NEG_INFINITY => f32_is_neg_inf(value)
//@@ subst? debug_assert ! $x:tt ; =>
//@@ spec
    ensures r is Ok, r->Ok_0.json() == f32_json(value),
//@@ start
    broadcast use f32_classes;
//@@ end

//@@ fn prost-reflect/src/dynamic/serde/ser/mod.rs serialize_f64
//@@ sig fn serialize_f64(value: f64, serializer: Ser) -> (r: Result<Out, SerError>)
//@@ subst? value . is_finite ( ) => f64_finite(value)
//@@ subst? value == f64 :: INFINITY => f64_is_inf(value)
//@@ subst? value == f64 :: NEG_INFINITY => f64_is_neg_inf(value)
//@@ subst? debug_assert ! $x:tt ; =>
//@@ spec
    ensures r is Ok, r->Ok_0.json() == f64_json(value),
//@@ start
    broadcast use f64_classes;
//@@ end

impl<'a> SerializeWrapper<'a, ValueAndKind<'a>> {
//@@ fn prost-reflect/src/dynamic/serde/ser/mod.rs Serialize for SerializeWrapper<ValueAndKind>::serialize
//@@ sig fn serialize(&self, serializer: Ser) -> (r: Result<Out, SerError>)
//@@ subst? panic ! $m:tt ==>> unreached()
//@@ subst? for ( key , value ) in values { ==>> let es__ = map_entries(values); for e__ in es__ { let (key, value) = e__;
//@@ spec
    requires typed(*self.value.value, *self.value.kind),
    ensures
        r is Ok ==> r->Ok_0.json() == value_json(*self.value.value, *self.value.kind, *self.options),
        r is Err ==> !value_writes(*self.value.value, *self.options),
//@@ loop 0 iter it
        invariant
            self.value.value == Value::List(*values), typed(*self.value.value, *self.value.kind),
            it.seq().len() == values@.len(), forall|j: int| 0 <= j < values@.len() ==> *#[trigger] it.seq()[j] == values@[j],
            list.items() == list_json(values@.take(it.index@ as int), *self.value.kind, *self.options),
//@@ in-loop 0
        proof { assert(scalar_ok(values@[it.index@ as int], *self.value.kind)); }
//@@ end-loop 0
        proof { assert(list.items() =~= list_json(values@.take(it.index@ as int + 1), *self.value.kind, *self.options)); }
//@@ after-loop 0
        proof { assert(values@.take(values@.len() as int) =~= values@); }
//@@ loop 1 iter it
        invariant
            self.value.value == Value::Map(*values), typed(*self.value.value, *self.value.kind),
            value_kind == self.value.kind->Message_0.value_field().s_kind(),
            it.seq().len() == entries(*values).len(), forall|j: int| 0 <= j < it.seq().len() ==> (*#[trigger] it.seq()[j].0, *it.seq()[j].1) == entries(*values)[j],
            map.members() == map_json(entries(*values).take(it.index@ as int), value_kind, *self.options),
//@@ in-loop 1
        proof { let e = entries(*values)[it.index@ as int]; assert(scalar_ok(e.1, value_kind)); }
//@@ end-loop 1
        proof { assert(map.members() =~= map_json(entries(*values).take(it.index@ as int + 1), value_kind, *self.options)); }
//@@ after-loop 1
        proof { assert(entries(*values).take(entries(*values).len() as int) =~= entries(*values)); }
//@@ end
}

// ---- the reader: scalars
proof fn names_differ()
    ensures "Infinity"@ != "-Infinity"@, "Infinity"@ != "NaN"@, "-Infinity"@ != "NaN"@,
{
    reveal_strlit("Infinity"); reveal_strlit("-Infinity"); reveal_strlit("NaN");
    assert("Infinity"@.len() == 8 && "-Infinity"@.len() == 9 && "NaN"@.len() == 3);
}

impl Int32Visitor {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Int32Visitor::visit_str
//@@ sig fn visit_str(self, v: &str) -> (r: Result<i32, DeError>)
//@@ subst? $v:id . parse ( ) => parse_i32($v)
//@@ spec
    ensures self.reads(Json::Str(v@), res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Int32Visitor::visit_i64
//@@ sig fn visit_i64(self, v: i64) -> (r: Result<i32, DeError>)
//@@ subst? $v:id . try_into ( ) => i64_to_i32($v)
//@@ spec
    ensures self.reads(Json::Int(v as int), res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Int32Visitor::visit_u64
//@@ sig fn visit_u64(self, v: u64) -> (r: Result<i32, DeError>)
//@@ subst? $v:id . try_into ( ) => u64_to_i32($v)
//@@ spec
    ensures self.reads(Json::Int(v as int), res(r)),
//@@ end
}

impl Int64Visitor {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Int64Visitor::visit_str
//@@ sig fn visit_str(self, v: &str) -> (r: Result<i64, DeError>)
//@@ subst? $v:id . parse ( ) => parse_i64($v)
//@@ spec
    ensures self.reads(Json::Str(v@), res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Int64Visitor::visit_i64
//@@ sig fn visit_i64(self, v: i64) -> (r: Result<i64, DeError>)
//@@ subst? $v:id . try_into ( ) => i64_to_i64($v)
//@@ spec
    ensures self.reads(Json::Int(v as int), res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Int64Visitor::visit_u64
//@@ sig fn visit_u64(self, v: u64) -> (r: Result<i64, DeError>)
//@@ subst? $v:id . try_into ( ) => u64_to_i64($v)
//@@ spec
    ensures self.reads(Json::Int(v as int), res(r)),
//@@ end
}

impl Uint32Visitor {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Uint32Visitor::visit_str
//@@ sig fn visit_str(self, v: &str) -> (r: Result<u32, DeError>)
//@@ subst? $v:id . parse ( ) => parse_u32($v)
//@@ spec
    ensures self.reads(Json::Str(v@), res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Uint32Visitor::visit_i64
//@@ sig fn visit_i64(self, v: i64) -> (r: Result<u32, DeError>)
//@@ subst? $v:id . try_into ( ) => i64_to_u32($v)
//@@ spec
    ensures self.reads(Json::Int(v as int), res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Uint32Visitor::visit_u64
//@@ sig fn visit_u64(self, v: u64) -> (r: Result<u32, DeError>)
//@@ subst? $v:id . try_into ( ) => u64_to_u32($v)
//@@ spec
    ensures self.reads(Json::Int(v as int), res(r)),
//@@ end
}

impl Uint64Visitor {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Uint64Visitor::visit_str
//@@ sig fn visit_str(self, v: &str) -> (r: Result<u64, DeError>)
//@@ subst? $v:id . parse ( ) => parse_u64($v)
//@@ spec
    ensures self.reads(Json::Str(v@), res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Uint64Visitor::visit_i64
//@@ sig fn visit_i64(self, v: i64) -> (r: Result<u64, DeError>)
//@@ subst? $v:id . try_into ( ) => i64_to_u64($v)
//@@ spec
    ensures self.reads(Json::Int(v as int), res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for Uint64Visitor::visit_u64
//@@ sig fn visit_u64(self, v: u64) -> (r: Result<u64, DeError>)
//@@ subst? $v:id . try_into ( ) => u64_to_u64($v)
//@@ spec
    ensures self.reads(Json::Int(v as int), res(r)),
//@@ end
}

impl DoubleVisitor {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for DoubleVisitor::visit_f64
//@@ sig fn visit_f64(self, v: f64) -> (r: Result<f64, DeError>)
//@@ spec
    ensures self.reads(Json::F64(v), res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for DoubleVisitor::visit_str
//@@ sig fn visit_str(self, v: &str) -> (r: Result<f64, DeError>)
//@@ subst? f64 :: from_str ( $x ) => parse_f64($x)
//@@ subst? f64 :: INFINITY => f64_inf()
//@@ subst? f64 :: NEG_INFINITY => f64_neg_inf()
//@@ subst? f64 :: NAN => f64_a_nan()
//@@ spec
    ensures self.reads(Json::Str(v@), res(r)),
//@@ start
    proof { names_differ(); }
//@@ end
}

impl FloatVisitor {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for FloatVisitor::visit_f64
//@@ sig fn visit_f64(self, v: f64) -> (r: Result<f32, DeError>)
//@@ subst? $v:id as f32 => f64_as_f32($v)
//@@ subst? $v:id . is_infinite ( ) => f32_infinite($v)
//@@ subst? Error :: custom ==>> DeError::custom
//@@ spec
    ensures self.reads(Json::F64(v), res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for FloatVisitor::visit_str
//@@ sig fn visit_str(self, v: &str) -> (r: Result<f32, DeError>)
//@@ subst? f32 :: from_str ( $x ) => parse_f32($x)
//@@ subst? f32 :: INFINITY => f32_inf()
//@@ subst? f32 :: NEG_INFINITY => f32_neg_inf()
//@@ subst? f32 :: NAN => f32_a_nan()
//@@ spec
    ensures self.reads(Json::Str(v@), res(r)),
//@@ start
    proof { names_differ(); }
//@@ end
}

impl StringVisitor {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for StringVisitor::visit_str
//@@ sig fn visit_str(self, v: &str) -> (r: Result<String, DeError>)
//@@ spec
    ensures self.reads(Json::Str(v@), res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for StringVisitor::visit_string
//@@ sig fn visit_string(self, v: String) -> (r: Result<String, DeError>)
//@@ spec
    ensures self.reads(Json::Str(v@), res(r)),
//@@ end
}

impl BoolVisitor {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for BoolVisitor::visit_bool
//@@ sig fn visit_bool(self, v: bool) -> (r: Result<bool, DeError>)
//@@ spec
    ensures self.reads(Json::Bool(v), res(r)),
//@@ end
}

impl BytesVisitor {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for BytesVisitor::visit_str
//@@ sig fn visit_str(self, v: &str) -> (r: Result<Bytes, DeError>)
//@@ subst? use base64 :: $x ; =>
//@@ subst? const $n:id : $t = $v ; ==>> let $n = $v;
//@@ subst? & alphabet :: STANDARD ==>> alphabet::standard()
//@@ subst? & alphabet :: URL_SAFE ==>> alphabet::url_safe()
//@@ subst? GeneralPurpose :: new ( $a , CONFIG ) ==>> GeneralPurpose::new($a, &CONFIG)
//@@ subst? $b:id . into ( ) => bytes_from($b)
//@@ subst? format ! $m:tt => ""
//@@ subst? Error :: custom ==>> DeError::custom
//@@ spec
    ensures self.reads(Json::Str(v@), res(r)),
//@@ end
}

// ---- the reader: enums

//@@ item prost-reflect/src/dynamic/serde/de/kind.rs struct EnumVisitor
impl Visitor for EnumVisitor<'_> {
    type Value = Option<i32>;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<Option<i32>>) -> bool {
        match j {
            Json::Str(s) => match self.0.s_named(s) {
                Some(e) => r == Some(Some(e.s_number())),
                None => r == (if self.1.deny_unknown_fields { None } else { Some(None) }),
            },
            Json::Int(i) => r == (if i32::MIN <= i <= i32::MAX { Some(Some(i as i32)) } else { None }),
            _ => r is None,
        }
    }
}
impl EnumVisitor<'_> {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for EnumVisitor::visit_str
//@@ sig fn visit_str(self, v: &str) -> (r: Result<Option<i32>, DeError>)
//@@ subst? Error :: custom ==>> DeError::custom
//@@ subst? format ! $m:tt => ""
//@@ spec
    ensures self.reads(Json::Str(v@), res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for EnumVisitor::visit_i32
//@@ sig fn visit_i32(self, v: i32) -> (r: Result<Option<i32>, DeError>)
//@@ spec
    ensures self.reads(Json::Int(v as int), res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for EnumVisitor::visit_i64
//@@ sig fn visit_i64(self, v: i64) -> (r: Result<Option<i32>, DeError>)
//@@ subst? $v:id . try_into ( ) => i64_to_i32($v)
//@@ subst? Error :: custom ==>> DeError::custom
//@@ spec
    ensures self.reads(Json::Int(v as int), res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for EnumVisitor::visit_u64
//@@ sig fn visit_u64(self, v: u64) -> (r: Result<Option<i32>, DeError>)
//@@ subst? $v:id . try_into ( ) => u64_to_i32($v)
//@@ subst? Error :: custom ==>> DeError::custom
//@@ spec
    ensures self.reads(Json::Int(v as int), res(r)),
//@@ end
}
pub mod wkt { use super::*;
//@@ item prost-reflect/src/dynamic/serde/de/wkt.rs struct GoogleProtobufNullVisitor
}
impl Visitor for wkt::GoogleProtobufNullVisitor<'_> {
    type Value = Option<i32>;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<Option<i32>>) -> bool {
        match j {
            Json::Null => r == Some(Some(0i32)),
            Json::Str(s) => if s == "NULL_VALUE"@ { r == Some(Some(0i32)) } else { r == (if self.0.deny_unknown_fields { None } else { Some(None) }) },
            _ => r is None,
        }
    }
}
impl wkt::GoogleProtobufNullVisitor<'_> {
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufNullVisitor::visit_unit
//@@ sig fn visit_unit(self) -> (r: Result<Option<i32>, DeError>)
//@@ spec
    ensures self.reads(Json::Null, res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufNullVisitor::visit_str
//@@ sig fn visit_str(self, v: &str) -> (r: Result<Option<i32>, DeError>)
//@@ subst? Error :: custom ==>> DeError::custom
//@@ subst? format ! $m:tt => ""
//@@ spec
    ensures self.reads(Json::Str(v@), res(r)),
//@@ end
}
pub mod kind { pub use super::*; }
pub open spec fn enum_reads(e: EnumDescriptor, j: Json, o: DeserializeOptions, r: Option<Option<i32>>) -> bool {
    if null_enum(e) { wkt::GoogleProtobufNullVisitor(&o).reads(j, r) } else { EnumVisitor(&e, &o).reads(j, r) }
}
//@@ fn prost-reflect/src/dynamic/serde/de/mod.rs deserialize_enum
//@@ sig fn deserialize_enum(desc: &EnumDescriptor, deserializer: De, options: &DeserializeOptions) -> (r: Result<Option<i32>, DeError>)
//@@ spec
    ensures enum_reads(*desc, deserializer.json(), *options, res(r)),
//@@ start
    broadcast use str_ext;
//@@ end

// ---- the reader: values, lists, maps, fields

/// What reading a message makes of a document: the contract of deserialize_message.
pub uninterp spec fn message_reads(m: MessageDescriptor, j: Json, o: DeserializeOptions, r: Option<DynamicMessage>) -> bool;
#[verifier::external_body]
fn deserialize_message(desc: &MessageDescriptor, deserializer: De, options: &DeserializeOptions) -> (r: Result<DynamicMessage, DeError>)
    ensures message_reads(*desc, deserializer.json(), *options, res(r)),
{ unimplemented!() }

//@@ item prost-reflect/src/dynamic/serde/de/kind.rs struct KindSeed
pub open spec fn kind_reads(k: Kind, j: Json, o: DeserializeOptions, r: Option<Option<Value>>) -> bool {
    match k {
        Kind::Double => match r { None => DoubleVisitor.reads(j, None), Some(Some(Value::F64(v))) => DoubleVisitor.reads(j, Some(v)), _ => false },
        Kind::Float => match r { None => FloatVisitor.reads(j, None), Some(Some(Value::F32(v))) => FloatVisitor.reads(j, Some(v)), _ => false },
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => match r { None => Int32Visitor.reads(j, None), Some(Some(Value::I32(v))) => Int32Visitor.reads(j, Some(v)), _ => false },
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => match r { None => Int64Visitor.reads(j, None), Some(Some(Value::I64(v))) => Int64Visitor.reads(j, Some(v)), _ => false },
        Kind::Uint32 | Kind::Fixed32 => match r { None => Uint32Visitor.reads(j, None), Some(Some(Value::U32(v))) => Uint32Visitor.reads(j, Some(v)), _ => false },
        Kind::Uint64 | Kind::Fixed64 => match r { None => Uint64Visitor.reads(j, None), Some(Some(Value::U64(v))) => Uint64Visitor.reads(j, Some(v)), _ => false },
        Kind::Bool => match r { None => BoolVisitor.reads(j, None), Some(Some(Value::Bool(v))) => BoolVisitor.reads(j, Some(v)), _ => false },
        Kind::String => match r { None => StringVisitor.reads(j, None), Some(Some(Value::String(v))) => StringVisitor.reads(j, Some(v)), _ => false },
        Kind::Bytes => match r { None => BytesVisitor.reads(j, None), Some(Some(Value::Bytes(v))) => BytesVisitor.reads(j, Some(v)), _ => false },
        Kind::Message(m) => match r { None => message_reads(m, j, o, None), Some(Some(Value::Message(v))) => message_reads(m, j, o, Some(v)), _ => false },
        Kind::Enum(e) => match r { None => enum_reads(e, j, o, None), Some(None) => enum_reads(e, j, o, Some(None)), Some(Some(Value::EnumNumber(n))) => enum_reads(e, j, o, Some(Some(n))), _ => false },
    }
}
impl DeserializeSeed for KindSeed<'_> {
    type Value = Option<Value>;
    open spec fn seed_ready(self) -> bool { true }
    open spec fn seeds(self, j: Json, r: Option<Option<Value>>) -> bool { kind_reads(*self.0, j, *self.1, r) }
}
impl KindSeed<'_> {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs DeserializeSeed for KindSeed::deserialize
//@@ sig fn deserialize(self, deserializer: De) -> (r: Result<Option<Value>, DeError>)
//@@ subst? . map ( Value :: EnumNumber ) ==>> .map(|n: i32| -> (v: Value) ensures v == Value::EnumNumber(n) { Value::EnumNumber(n) })
//@@ spec
    ensures self.seeds(deserializer.json(), res(r)),
//@@ start
    hide(enum_reads);
//@@ end
}

//@@ item prost-reflect/src/dynamic/serde/de/kind.rs struct ListVisitor
/// The elements read, where None is an unknown enumerator which is left out.
pub open spec fn elements_read(js: Seq<Json>, k: Kind, o: DeserializeOptions, es: Seq<Option<Value>>) -> bool {
    es.len() == js.len() && forall|i: int| 0 <= i < js.len() ==> kind_reads(k, js[i], o, Some(#[trigger] es[i]))
}
pub open spec fn kept(es: Seq<Option<Value>>) -> Seq<Value>
    decreases es.len()
{
    if es.len() == 0 { Seq::empty() } else { match es.last() { Some(v) => kept(es.drop_last()).push(v), None => kept(es.drop_last()) } }
}
pub open spec fn list_reads(js: Seq<Json>, k: Kind, o: DeserializeOptions, r: Option<Vec<Value>>) -> bool {
    match r {
        Some(vs) => exists|es: Seq<Option<Value>>| #[trigger] elements_read(js, k, o, es) && vs@ == kept(es),
        None => exists|i: int| 0 <= i < js.len() && kind_reads(k, #[trigger] js[i], o, None),
    }
}
impl Visitor for ListVisitor<'_> {
    type Value = Vec<Value>;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<Vec<Value>>) -> bool { match j { Json::Arr(js) => list_reads(js, *self.0, *self.1, r), _ => r is None } }
}
impl ListVisitor<'_> {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for ListVisitor::visit_seq
//@@ sig fn visit_seq(self, seq_: SeqAcc) -> (r: Result<Vec<Value>, DeError>)
//@@ spec
    ensures self.reads(Json::Arr(seq_.rest()), res(r)),
//@@ start
    hide(kind_reads);
    let ghost js = seq_.rest();
    let mut seq = seq_;
    let ghost mut es = Seq::<Option<Value>>::empty();
//@@ loop 0
        invariant_except_break
            es.len() <= js.len(), seq.rest() == js.skip(es.len() as int),
            es.len() < js.len() ==> seq.rest()[0] == js[es.len() as int],
        invariant
            forall|i: int| 0 <= i < es.len() ==> kind_reads(*self.0, js[i], *self.1, Some(#[trigger] es[i])),
            result@ == kept(es), js == seq_.rest(),
        ensures
            es.len() == js.len(), elements_read(js, *self.0, *self.1, es), result@ == kept(es),
        decreases js.len() - es.len(),
//@@ in-loop 0
        proof {
            assert(js.skip(es.len() as int)[0] == js[es.len() as int]);
            assert(js.skip(es.len() as int).skip(1) =~= js.skip(es.len() as int + 1));
            assert(es.push(value).drop_last() =~= es);
            es = es.push(value);
        }
//@@ end
}

//@@ item prost-reflect/src/dynamic/serde/de/mod.rs struct FieldDescriptorSeed
//@@ item prost-reflect/src/dynamic/serde/de/kind.rs struct MapVisitor
/// What a key is read from.
pub open spec fn key_reads(k: Kind, s: Seq<char>, r: Option<MapKey>) -> bool {
    match k {
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => match r { Some(MapKey::I32(i)) => dec_int(s) == Some(i as int), None => !in_range(dec_int(s), i32::MIN as int, i32::MAX as int), _ => false },
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => match r { Some(MapKey::I64(i)) => dec_int(s) == Some(i as int), None => !in_range(dec_int(s), i64::MIN as int, i64::MAX as int), _ => false },
        Kind::Uint32 | Kind::Fixed32 => match r { Some(MapKey::U32(i)) => dec_uint(s) == Some(i as int), None => !in_range(dec_uint(s), 0, u32::MAX as int), _ => false },
        Kind::Uint64 | Kind::Fixed64 => match r { Some(MapKey::U64(i)) => dec_uint(s) == Some(i as int), None => !in_range(dec_uint(s), 0, u64::MAX as int), _ => false },
        Kind::Bool => match r { Some(MapKey::Bool(b)) => s == bool_text(b), None => s != "true"@ && s != "false"@, _ => false },
        Kind::String => match r { Some(MapKey::String(t)) => t@ == s, _ => false },
        _ => false,
    }
}
/// What the value of a field, or of the entries of a map, is read from.
pub open spec fn value_reads<D: FieldDescriptorLike + ?Sized>(d: &D, j: Json, o: DeserializeOptions, r: Option<Option<Value>>) -> bool {
    if d.s_list() {
        match j {
            Json::Arr(js) => match r { None => list_reads(js, d.s_kind(), o, None), Some(Some(Value::List(vs))) => list_reads(js, d.s_kind(), o, Some(vs)), _ => false },
            _ => r is None,
        }
    } else if d.s_map() {
        match j {
            Json::Obj(ms) => match r { None => map_reads(ms, d.s_kind()->Message_0, o, None), Some(Some(Value::Map(m))) => map_reads(ms, d.s_kind()->Message_0, o, Some(m)), _ => false },
            _ => r is None,
        }
    } else { kind_reads(d.s_kind(), j, o, r) }
}
/// The contents of a map: values by keys, which are compared by what is in them.
pub uninterp spec fn contents(m: HashMap<MapKey, Value>) -> Map<GKey, Value>;
pub enum GKey { Bool(bool), I32(i32), I64(i64), U32(u32), U64(u64), String(Seq<char>) }
pub open spec fn gk(k: MapKey) -> GKey {
    match k {
        MapKey::Bool(b) => GKey::Bool(b), MapKey::I32(i) => GKey::I32(i), MapKey::I64(i) => GKey::I64(i),
        MapKey::U32(i) => GKey::U32(i), MapKey::U64(i) => GKey::U64(i), MapKey::String(s) => GKey::String(s@),
    }
}
#[verifier::external_body]
fn map_put(m: &mut HashMap<MapKey, Value>, key: MapKey, value: Value)
    ensures contents(*final(m)) == contents(*old(m)).insert(gk(key), value) { unimplemented!() }
#[verifier::external_body]
fn map_with_capacity(n: usize) -> (r: HashMap<MapKey, Value>) ensures contents(r) == Map::<GKey, Value>::empty() { unimplemented!() }
/// The keys and values read; the value is None where it is an unknown enumerator, whose entry is left out.
pub open spec fn members_read(ms: Seq<(Seq<char>, Json)>, m: MessageDescriptor, o: DeserializeOptions, es: Seq<(MapKey, Option<Value>)>) -> bool {
    es.len() == ms.len() && forall|i: int| 0 <= i < ms.len() ==> member_read(ms[i], m, o, #[trigger] es[i])
}
pub open spec fn member_read(m: (Seq<char>, Json), d: MessageDescriptor, o: DeserializeOptions, e: (MapKey, Option<Value>)) -> bool {
    key_reads(d.key_field().s_kind(), m.0, Some(e.0)) && kind_reads(d.value_field().s_kind(), m.1, o, Some(e.1))
}
pub open spec fn member_fails(m: (Seq<char>, Json), d: MessageDescriptor, o: DeserializeOptions) -> bool {
    key_reads(d.key_field().s_kind(), m.0, None) || kind_reads(d.value_field().s_kind(), m.1, o, None)
}
pub open spec fn put_all(es: Seq<(MapKey, Option<Value>)>) -> Map<GKey, Value>
    decreases es.len()
{
    if es.len() == 0 { Map::empty() } else { match es.last().1 { Some(v) => put_all(es.drop_last()).insert(gk(es.last().0), v), None => put_all(es.drop_last()) } }
}
pub open spec fn map_reads(ms: Seq<(Seq<char>, Json)>, d: MessageDescriptor, o: DeserializeOptions, r: Option<HashMap<MapKey, Value>>) -> bool {
    match r {
        Some(m) => exists|es: Seq<(MapKey, Option<Value>)>| #[trigger] members_read(ms, d, o, es) && contents(m) == put_all(es),
        None => exists|i: int| 0 <= i < ms.len() && member_fails(#[trigger] ms[i], d, o),
    }
}
impl Visitor for MapVisitor<'_> {
    type Value = HashMap<MapKey, Value>;
    open spec fn ready(self) -> bool { entry_kind(*self.0) }
    open spec fn reads(self, j: Json, r: Option<HashMap<MapKey, Value>>) -> bool { match j { Json::Obj(ms) => map_reads(ms, self.0->Message_0, *self.1, r), _ => r is None } }
}
impl<T: FieldDescriptorLike> DeserializeSeed for FieldDescriptorSeed<'_, T> {
    type Value = Option<Value>;
    open spec fn seed_ready(self) -> bool { field_ok(self.0) }
    open spec fn seeds(self, j: Json, r: Option<Option<Value>>) -> bool { value_reads(self.0, j, *self.1, r) }
}
impl MapVisitor<'_> {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for MapVisitor::visit_map
//@@ sig fn visit_map(self, map_: MapAcc) -> (r: Result<HashMap<MapKey, Value>, DeError>)
//@@ subst? map . next_key :: < Cow < str >> ( ) ==>> map.next_key()
//@@ subst? map . next_key :: < Cow < str > > ( ) ==>> map.next_key()
//@@ subst? HashMap :: with_capacity ( $x ) ==>> map_with_capacity($x)
//@@ subst? i32 :: from_str ( ==>> parse_i32(
//@@ subst? i64 :: from_str ( ==>> parse_i64(
//@@ subst? u32 :: from_str ( ==>> parse_u32(
//@@ subst? u64 :: from_str ( ==>> parse_u64(
//@@ subst? bool :: from_str ( ==>> parse_bool(
//@@ subst? Error :: custom ==>> DeError::custom
//@@ subst? unreachable ! $m:tt ==>> unreached()
//@@ subst? result . insert ( $k , $v ) ==>> map_put(&mut result, $k, $v)
//@@ spec
    requires self.ready(), map_.due() is None,
    ensures self.reads(Json::Obj(map_.rest()), res(r)),
//@@ start
    hide(kind_reads);
    let ghost ms = map_.rest();
    let mut map = map_;
    let ghost mut es = Seq::<(MapKey, Option<Value>)>::empty();
//@@ loop 0
        invariant_except_break
            es.len() <= ms.len(), map.rest() == ms.skip(es.len() as int), map.due() is None,
            es.len() < ms.len() ==> map.rest()[0] == ms[es.len() as int],
        invariant
            ms == map_.rest(), entry_kind(*self.0), *map_entry_message == self.0->Message_0,
            key_kind == map_entry_message.key_field().s_kind(), value_desc == map_entry_message.value_field(),
            forall|i: int| 0 <= i < es.len() ==> member_read(ms[i], *map_entry_message, *self.1, #[trigger] es[i]),
            contents(result) == put_all(es),
        ensures
            es.len() == ms.len(), members_read(ms, *map_entry_message, *self.1, es), contents(result) == put_all(es),
        decreases ms.len() - es.len(),
//@@ in-loop 0
        let ghost m0 = ms[es.len() as int];
        proof {
            assert(ms.skip(es.len() as int)[0] == ms[es.len() as int]);
            assert(ms.skip(es.len() as int).skip(1) =~= ms.skip(es.len() as int + 1));
            assert(key_str.view() == m0.0);
        }
//@@ before if let Some ( value ) = value
        proof {
            assert(key_reads(key_kind, m0.0, Some(key)));
            assert(member_read(m0, *map_entry_message, *self.1, (key, value)));
            assert(es.push((key, value)).drop_last() =~= es);
            es = es.push((key, value));
        }
//@@ end
}
impl<T: FieldDescriptorLike> FieldDescriptorSeed<'_, T> {
//@@ fn prost-reflect/src/dynamic/serde/de/mod.rs DeserializeSeed for FieldDescriptorSeed::deserialize
//@@ sig fn deserialize(self, deserializer: De) -> (r: Result<Option<Value>, DeError>)
//@@ spec
    requires self.seed_ready(),
    ensures self.seeds(deserializer.json(), res(r)),
//@@ start
    hide(kind_reads); hide(list_reads); hide(map_reads);
//@@ end
}
/// The message null of google.protobuf.Value, and the attempt to make it.
pub uninterp spec fn null_value(m: DynamicMessage) -> bool;
#[verifier::external_body]
fn make_null(desc: &MessageDescriptor) -> (r: Result<DynamicMessage, DeError>) requires desc.s_full_name() == "google.protobuf.Value"@, ensures r is Ok, null_value(r->Ok_0) { unimplemented!() }
//@@ item prost-reflect/src/dynamic/serde/de/mod.rs struct OptionalFieldDescriptorSeed
pub open spec fn null_reads(list_or_map: bool, k: Kind, r: Option<Option<Value>>) -> bool {
    if list_or_map { r == Some(None::<Value>) }
    else if k is Message && k->Message_0.s_full_name() == "google.protobuf.Value"@ { r is Some && r->Some_0 is Some && r->Some_0->Some_0 is Message && null_value(r->Some_0->Some_0->Message_0) }
    else if k is Enum && null_enum(k->Enum_0) { r == Some(Some(Value::EnumNumber(0))) }
    else { r == Some(None::<Value>) }
}
pub open spec fn field_reads<D: FieldDescriptorLike + ?Sized>(d: &D, j: Json, o: DeserializeOptions, r: Option<Option<Value>>) -> bool {
    if j is Null { null_reads(d.s_list() || d.s_map(), d.s_kind(), r) } else { value_reads(d, j, o, r) }
}
impl<T: FieldDescriptorLike> Visitor for OptionalFieldDescriptorSeed<'_, T> {
    type Value = Option<Value>;
    open spec fn ready(self) -> bool { field_ok(self.0) }
    open spec fn reads(self, j: Json, r: Option<Option<Value>>) -> bool { field_reads(self.0, j, *self.1, r) }
}
impl<T: FieldDescriptorLike> DeserializeSeed for OptionalFieldDescriptorSeed<'_, T> {
    type Value = Option<Value>;
    open spec fn seed_ready(self) -> bool { field_ok(self.0) }
    open spec fn seeds(self, j: Json, r: Option<Option<Value>>) -> bool { field_reads(self.0, j, *self.1, r) }
}
impl<T: FieldDescriptorLike> OptionalFieldDescriptorSeed<'_, T> {
//@@ fn prost-reflect/src/dynamic/serde/de/mod.rs DeserializeSeed for OptionalFieldDescriptorSeed::deserialize
//@@ sig fn deserialize(self, deserializer: De) -> (r: Result<Option<Value>, DeError>)
//@@ spec
    requires self.seed_ready(),
    ensures self.seeds(deserializer.json(), res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/mod.rs Visitor for OptionalFieldDescriptorSeed::visit_none
//@@ sig fn visit_none(self) -> (r: Result<Option<Value>, DeError>)
//@@ subst? make_message ( & $d:id , prost_types :: Value { kind : Some ( prost_types :: value :: Kind :: NullValue ( 0 ) ) , } , ) . map ( | v | Some ( Value :: Message ( v ) ) ) ==>> match make_null(&$d) { Ok(v) => Ok(Some(Value::Message(v))), Err(e) => Err(e) }
//@@ spec
    requires self.ready(),
    ensures self.reads(Json::Null, res(r)),
//@@ start
    broadcast use str_ext;
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/mod.rs Visitor for OptionalFieldDescriptorSeed::visit_unit
//@@ sig fn visit_unit(self) -> (r: Result<Option<Value>, DeError>)
//@@ spec
    requires self.ready(),
    ensures self.reads(Json::Null, res(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/mod.rs Visitor for OptionalFieldDescriptorSeed::visit_some
//@@ sig fn visit_some(self, deserializer: De) -> (r: Result<Option<Value>, DeError>)
//@@ spec
    requires self.ready(), !(deserializer.json() is Null),
    ensures self.reads(deserializer.json(), res(r)),
//@@ end
}

// ---- the round trip of values

/// Equal values; NaN payloads are not kept, strings, bytes and maps are compared by content.
pub uninterp spec fn same_message(a: DynamicMessage, b: DynamicMessage) -> bool;
pub open spec fn same_scalar(a: Value, b: Value) -> bool {
    match a {
        Value::F32(x) => b is F32 && (b->F32_0 == x || nan32(x) && nan32(b->F32_0)),
        Value::F64(x) => b is F64 && (b->F64_0 == x || nan64(x) && nan64(b->F64_0)),
        Value::String(x) => b is String && b->String_0@ == x@,
        Value::Bytes(x) => b is Bytes && b->Bytes_0@ == x@,
        Value::Message(x) => b is Message && same_message(x, b->Message_0),
        Value::List(_) | Value::Map(_) => false,
        _ => a == b,
    }
}
pub open spec fn same_map(a: Map<GKey, Value>, b: Map<GKey, Value>) -> bool {
    (forall|g: GKey| #[trigger] a.contains_key(g) <==> b.contains_key(g)) && forall|g: GKey| #[trigger] a.contains_key(g) ==> same_scalar(a[g], b[g])
}
pub open spec fn same_list(a: Seq<Value>, b: Seq<Value>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_scalar(#[trigger] a[i], b[i]) }
pub open spec fn same_value(a: Value, b: Value) -> bool {
    match a {
        Value::List(x) => b is List && same_list(x@, b->List_0@),
        Value::Map(x) => b is Map && same_map(contents(x), contents(b->Map_0)),
        _ => same_scalar(a, b),
    }
}
/// A map iterates over its contents, each key once (assumed contract of std).
pub broadcast axiom fn entries_contents(m: HashMap<MapKey, Value>)
    ensures
        #![trigger entries(m)]
        #![trigger contents(m)]
        forall|i: int| 0 <= i < entries(m).len() ==> contents(m).contains_key(gk((#[trigger] entries(m)[i]).0)) && contents(m)[gk(entries(m)[i].0)] == entries(m)[i].1,
        forall|g: GKey| #[trigger] contents(m).contains_key(g) ==> exists|i: int| 0 <= i < entries(m).len() && gk((#[trigger] entries(m)[i]).0) == g,
        forall|i: int, j: int| 0 <= i < j < entries(m).len() ==> gk((#[trigger] entries(m)[i]).0) != gk((#[trigger] entries(m)[j]).0);

/// What is assumed of the messages within a value, which is what is shown of the value they are in.
pub open spec fn message_ok(m: DynamicMessage, k: MessageDescriptor, o: SerializeOptions, p: DeserializeOptions) -> bool {
    &&& forall|r: Option<DynamicMessage>| #[trigger] message_reads(k, message_json(m, o), p, r) ==> r is Some && same_message(m, r->Some_0)
    &&& message_json(m, o) is Null ==> k.s_full_name() == "google.protobuf.Value"@ && forall|n: DynamicMessage| #[trigger] null_value(n) ==> same_message(m, n)
}
/// A value which JSON can represent.
pub open spec fn scalar_rep(v: Value, k: Kind, o: SerializeOptions, p: DeserializeOptions) -> bool {
    scalar_ok(v, k) && match v {
        Value::F32(f) => !rounds_twice(f),
        Value::EnumNumber(n) => enum_ok(k->Enum_0) && (null_enum(k->Enum_0) ==> n == 0),
        Value::Message(m) => message_ok(m, k->Message_0, o, p),
        _ => true,
    }
}
pub open spec fn rep<D: FieldDescriptorLike + ?Sized>(v: Value, d: &D, o: SerializeOptions, p: DeserializeOptions) -> bool {
    if d.s_list() { v is List && forall|i: int| 0 <= i < v->List_0@.len() ==> scalar_rep(#[trigger] v->List_0@[i], d.s_kind(), o, p) }
    else if d.s_map() {
        let m = d.s_kind()->Message_0;
        v is Map && forall|i: int| 0 <= i < entries(v->Map_0).len() ==> key_ok((#[trigger] entries(v->Map_0)[i]).0, m.key_field().s_kind()) && scalar_rep(entries(v->Map_0)[i].1, m.value_field().s_kind(), o, p)
    } else { scalar_rep(v, d.s_kind(), o, p) }
}
#[verifier::spinoff_prover]
proof fn scalar_round(v: Value, k: Kind, o: SerializeOptions, p: DeserializeOptions, r: Option<Option<Value>>)
    requires scalar_rep(v, k, o, p), kind_reads(k, scalar_json(v, k, o), p, r),
    ensures r is Some, r->Some_0 is Some, same_scalar(v, r->Some_0->Some_0), !(v is EnumNumber || v is Message) ==> !(scalar_json(v, k, o) is Null),
{
    broadcast use {f32_classes, f64_classes, f32_infinities, f64_infinities, float_text, dec_reads, base64_is};
    names_differ();
    match v {
        Value::Bytes(b) => { assert(base64(b@) == base64_text(b@, false, true)); },
        _ => {}
    }
}
proof fn kept_all(es: Seq<Option<Value>>)
    requires forall|i: int| 0 <= i < es.len() ==> #[trigger] es[i] is Some,
    ensures kept(es) == es.map_values(|e: Option<Value>| e->Some_0),
    decreases es.len(),
{
    if es.len() > 0 {
        kept_all(es.drop_last());
        assert(es.last() is Some);
    }
    assert(kept(es) =~= es.map_values(|e: Option<Value>| e->Some_0));
}
proof fn list_round(vs: Seq<Value>, k: Kind, o: SerializeOptions, p: DeserializeOptions, r: Option<Vec<Value>>)
    requires forall|i: int| 0 <= i < vs.len() ==> scalar_rep(#[trigger] vs[i], k, o, p), list_reads(list_json(vs, k, o), k, p, r),
    ensures r is Some, same_list(vs, r->Some_0@),
{
    hide(scalar_rep); hide(kind_reads); hide(scalar_json);
    let js = list_json(vs, k, o);
    match r {
        None => {
            let i = choose|i: int| 0 <= i < js.len() && kind_reads(k, #[trigger] js[i], p, None);
            assert(scalar_rep(vs[i], k, o, p));
            scalar_round(vs[i], k, o, p, None);
        },
        Some(w) => {
            let es = choose|es: Seq<Option<Value>>| #[trigger] elements_read(js, k, p, es) && w@ == kept(es);
            assert forall|i: int| 0 <= i < vs.len() implies #[trigger] es[i] is Some && same_scalar(vs[i], es[i]->Some_0) by {
                assert(scalar_rep(vs[i], k, o, p));
                assert(kind_reads(k, js[i], p, Some(es[i])));
                scalar_round(vs[i], k, o, p, Some(es[i]));
            }
            kept_all(es);
            assert forall|i: int| 0 <= i < vs.len() implies same_scalar(#[trigger] vs[i], w@[i]) by { assert(es[i] is Some); }
        },
    }
}
proof fn key_round(m: MapKey, k: Kind, r: Option<MapKey>)
    requires key_ok(m, k), key_reads(k, key_text(m), r),
    ensures r is Some, gk(r->Some_0) == gk(m),
{
    broadcast use dec_reads;
    reveal_strlit("true"); reveal_strlit("false");
    assert("true"@.len() == 4 && "false"@.len() == 5);
}
proof fn put_all_distinct(es: Seq<(MapKey, Option<Value>)>)
    requires
        forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).1 is Some,
        forall|i: int, j: int| 0 <= i < j < es.len() ==> gk((#[trigger] es[i]).0) != gk((#[trigger] es[j]).0),
    ensures
        forall|i: int| 0 <= i < es.len() ==> put_all(es).contains_key(gk((#[trigger] es[i]).0)) && put_all(es)[gk(es[i].0)] == es[i].1->Some_0,
        forall|g: GKey| #[trigger] put_all(es).contains_key(g) ==> exists|i: int| 0 <= i < es.len() && gk((#[trigger] es[i]).0) == g,
    decreases es.len(),
{
    if es.len() > 0 {
        let d = es.drop_last();
        put_all_distinct(d);
        assert(es.last() == es[es.len() - 1]);
        assert forall|i: int| 0 <= i < es.len() implies put_all(es).contains_key(gk((#[trigger] es[i]).0)) && put_all(es)[gk(es[i].0)] == es[i].1->Some_0 by {
            if i < es.len() - 1 { assert(d[i] == es[i]); assert(gk(es[i].0) != gk(es[es.len() - 1].0)); }
        }
        assert forall|g: GKey| #[trigger] put_all(es).contains_key(g) implies exists|i: int| 0 <= i < es.len() && gk((#[trigger] es[i]).0) == g by {
            if g == gk(es.last().0) { assert(gk(es[es.len() - 1].0) == g); }
            else { assert(es.last().1 is Some); assert(put_all(d).contains_key(g)); let i = choose|i: int| 0 <= i < d.len() && gk((#[trigger] d[i]).0) == g; assert(d[i] == es[i]); assert(gk(es[i].0) == g); }
        }
    }
}
proof fn map_round(m: HashMap<MapKey, Value>, d: MessageDescriptor, o: SerializeOptions, p: DeserializeOptions, r: Option<HashMap<MapKey, Value>>)
    requires
        forall|i: int| 0 <= i < entries(m).len() ==> key_ok((#[trigger] entries(m)[i]).0, d.key_field().s_kind()) && scalar_rep(entries(m)[i].1, d.value_field().s_kind(), o, p),
        map_reads(map_json(entries(m), d.value_field().s_kind(), o), d, p, r),
    ensures r is Some, same_map(contents(m), contents(r->Some_0)),
{
    hide(scalar_rep); hide(kind_reads); hide(scalar_json); hide(key_ok); hide(key_reads); hide(same_scalar);
    broadcast use entries_contents;
    let k = d.value_field().s_kind();
    let kk = d.key_field().s_kind();
    let en = entries(m);
    let ms = map_json(en, k, o);
    match r {
        None => {
            let i = choose|i: int| 0 <= i < ms.len() && member_fails(#[trigger] ms[i], d, p);
            assert(key_ok(en[i].0, kk));
            assert(ms[i] == member_json(en[i], k, o));
            if key_reads(kk, ms[i].0, None) { key_round(en[i].0, kk, None); } else { scalar_round(en[i].1, k, o, p, None); }
        },
        Some(n) => {
            let es = choose|es: Seq<(MapKey, Option<Value>)>| #[trigger] members_read(ms, d, p, es) && contents(n) == put_all(es);
            assert forall|i: int| 0 <= i < en.len() implies gk((#[trigger] es[i]).0) == gk(en[i].0) && es[i].1 is Some && same_scalar(en[i].1, es[i].1->Some_0) by {
                assert(key_ok(en[i].0, kk));
                assert(ms[i] == member_json(en[i], k, o));
                assert(member_read(ms[i], d, p, es[i]));
                key_round(en[i].0, kk, Some(es[i].0));
                scalar_round(en[i].1, k, o, p, Some(es[i].1));
            }
            assert forall|i: int, j: int| 0 <= i < j < es.len() implies gk((#[trigger] es[i]).0) != gk((#[trigger] es[j]).0) by {
                assert(gk(en[i].0) != gk(en[j].0));
            }
            put_all_distinct(es);
            assert forall|g: GKey| #[trigger] contents(m).contains_key(g) implies contents(n).contains_key(g) && same_scalar(contents(m)[g], contents(n)[g]) by {
                let i = choose|i: int| 0 <= i < en.len() && gk((#[trigger] en[i]).0) == g;
                assert(gk(es[i].0) == gk(en[i].0));
            }
            assert forall|g: GKey| #[trigger] contents(n).contains_key(g) implies contents(m).contains_key(g) by {
                let i = choose|i: int| 0 <= i < es.len() && gk((#[trigger] es[i]).0) == g;
                assert(gk(es[i].0) == gk(en[i].0));
                assert(contents(m).contains_key(gk(en[i].0)));
            }
        },
    }
}
/// P13 for one field: what is read from the JSON of a representable value is that value, under all options.
proof fn field_round<D: FieldDescriptorLike + ?Sized>(d: &D, v: Value, o: SerializeOptions, p: DeserializeOptions, r: Option<Option<Value>>)
    requires field_ok(d), rep(v, d, o, p), field_reads(d, value_json(v, d.s_kind(), o), p, r),
    ensures r is Some, r->Some_0 is Some, same_value(v, r->Some_0->Some_0),
{
    hide(scalar_rep); hide(kind_reads); hide(list_reads); hide(map_reads); hide(scalar_json); hide(same_scalar);
    if d.s_list() {
        match r { Some(Some(Value::List(w))) => list_round(v->List_0@, d.s_kind(), o, p, Some(w)), Some(_) => {}, None => list_round(v->List_0@, d.s_kind(), o, p, None) }
    } else if d.s_map() {
        let m = d.s_kind()->Message_0;
        match r { Some(Some(Value::Map(w))) => map_round(v->Map_0, m, o, p, Some(w)), Some(_) => {}, None => map_round(v->Map_0, m, o, p, None) }
    } else {
        scalar_field_round(v, d.s_kind(), o, p, r);
    }
}
proof fn scalar_field_round(v: Value, k: Kind, o: SerializeOptions, p: DeserializeOptions, r: Option<Option<Value>>)
    requires scalar_rep(v, k, o, p), if value_json(v, k, o) is Null { null_reads(false, k, r) } else { kind_reads(k, value_json(v, k, o), p, r) },
    ensures r is Some, r->Some_0 is Some, same_value(v, r->Some_0->Some_0),
{
    hide(kind_reads);
    broadcast use {f32_classes, f64_classes};
    if value_json(v, k, o) is Null {} else { scalar_round(v, k, o, p, r); }
}

// ---- messages
/// std::borrow::Cow
pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
pub open spec fn cow<T>(c: Cow<'_, T>) -> T { match c { Cow::Borrowed(v) => *v, Cow::Owned(v) => v } }
impl<'a, T> Cow<'a, T> { fn as_ref(&self) -> (r: &T) ensures *r == cow(*self) { match self { Cow::Borrowed(v) => v, Cow::Owned(v) => v } } }
#[verifier::external_body]
pub struct UnknownFieldSet { x: u8 }
//@@ item prost-reflect/src/dynamic/fields.rs enum ValueAndDescriptor
/// The stored values by field number.
pub type Slots = Map<u32, Value>;
impl DynamicMessage {
    pub uninterp spec fn s_desc(&self) -> MessageDescriptor;
    pub uninterp spec fn slots(&self) -> Slots;
    /// What iterating over the message yields: the fields which are present, with `all` also those without presence.
    pub uninterp spec fn s_members(&self, skip_defaults: bool) -> Seq<ValueAndDescriptor<'_>>;
    #[verifier::external_body]
    pub fn members(&self, all: bool) -> (r: Vec<ValueAndDescriptor<'_>>) ensures r@ == self.s_members(!all) { unimplemented!() }
    #[verifier::external_body]
    pub fn descriptor(&self) -> (r: MessageDescriptor) ensures r == self.s_desc() { unimplemented!() }
    #[verifier::external_body]
    pub fn new(d: MessageDescriptor) -> (r: DynamicMessage) ensures r.s_desc() == d, r.slots() == Map::<u32, Value>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn has_field(&self, f: &FieldDescriptor) -> (r: bool) ensures r == present(self.slots(), *f) { unimplemented!() }
    /// (contracts shown in unit fields)
    #[verifier::external_body]
    pub fn set_field(&mut self, f: &FieldDescriptor, v: Value)
        requires valid(f, v),
        ensures final(self).s_desc() == old(self).s_desc(), stores(old(self).slots(), f, v, final(self).slots()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_extension(&mut self, f: &ExtensionDescriptor, v: Value)
        requires valid(f, v),
        ensures final(self).s_desc() == old(self).s_desc(), stores(old(self).slots(), f, v, final(self).slots()),
    { unimplemented!() }
}
pub uninterp spec fn is_default(f: FieldDescriptor, v: Value) -> bool;
pub open spec fn present(s: Slots, f: FieldDescriptor) -> bool { s.contains_key(f.s_number()) && (f.s_presence() || !is_default(f, s[f.s_number()])) }
pub open spec fn member(o: OneofDescriptor, n: u32) -> bool { exists|i: int| 0 <= i < o.s_fields().len() && (#[trigger] o.s_fields()[i]).s_number() == n }
pub open spec fn sibling<D: FieldDescriptorLike + ?Sized>(d: &D, n: u32) -> bool { n != d.s_number() && d.s_oneof() is Some && member(d.s_oneof()->Some_0, n) }
pub open spec fn stores<D: FieldDescriptorLike + ?Sized>(s: Slots, d: &D, v: Value, r: Slots) -> bool {
    &&& forall|n: u32| #[trigger] r.contains_key(n) <==> n == d.s_number() || s.contains_key(n) && !sibling(d, n)
    &&& r[d.s_number()] == v
    &&& forall|n: u32| n != d.s_number() && #[trigger] r.contains_key(n) ==> r[n] == s[n]
}
/// A value which the field accepts.
pub open spec fn valid<D: FieldDescriptorLike + ?Sized>(d: &D, v: Value) -> bool {
    if d.s_list() { v is List && forall|i: int| 0 <= i < v->List_0@.len() ==> scalar_ok(#[trigger] v->List_0@[i], d.s_kind()) }
    else if d.s_map() {
        let m = d.s_kind()->Message_0;
        v is Map && forall|g: GKey| #[trigger] contents(v->Map_0).contains_key(g) ==> scalar_ok(contents(v->Map_0)[g], m.value_field().s_kind())
    } else { scalar_ok(v, d.s_kind()) }
}
impl MessageDescriptor {
    pub uninterp spec fn s_by_json_name(&self, n: Seq<char>) -> Option<FieldDescriptor>;
    pub uninterp spec fn s_by_name(&self, n: Seq<char>) -> Option<FieldDescriptor>;
    pub uninterp spec fn s_extension_by_json_name(&self, n: Seq<char>) -> Option<ExtensionDescriptor>;
    #[verifier::external_body]
    pub fn get_field_by_json_name(&self, n: &str) -> (r: Option<FieldDescriptor>) ensures r == self.s_by_json_name(n@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_field_by_name(&self, n: &str) -> (r: Option<FieldDescriptor>) ensures r == self.s_by_name(n@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_extension_by_json_name(&self, n: &str) -> (r: Option<ExtensionDescriptor>) ensures r == self.s_extension_by_json_name(n@) { unimplemented!() }
    pub open spec fn s_lookup(&self, n: Seq<char>) -> Option<FieldDescriptor> { match self.s_by_json_name(n) { Some(f) => Some(f), None => self.s_by_name(n) } }
}
/// What holds of the fields of an accepted message type.
pub open spec fn type_ok(m: MessageDescriptor) -> bool {
    &&& forall|n: Seq<char>| (#[trigger] m.s_by_json_name(n)) is Some ==> field_ok(&m.s_by_json_name(n)->Some_0)
    &&& forall|n: Seq<char>| (#[trigger] m.s_by_name(n)) is Some ==> field_ok(&m.s_by_name(n)->Some_0)
    &&& forall|n: Seq<char>| (#[trigger] m.s_extension_by_json_name(n)) is Some ==> field_ok(&m.s_extension_by_json_name(n)->Some_0)
}

/// The members of the object which a message is written as.
pub open spec fn member_of<'a>(m: ValueAndDescriptor<'a>, o: SerializeOptions) -> (Seq<char>, Json) {
    match m {
        ValueAndDescriptor::Field(v, d) => (if o.use_proto_field_name { d.s_name() } else { d.s_json_name() }, value_json(cow(v), d.s_kind(), o)),
        ValueAndDescriptor::Extension(v, d) => (d.s_json_name(), value_json(cow(v), d.s_kind(), o)),
        ValueAndDescriptor::Unknown(_) => (Seq::empty(), Json::Null),
    }
}
pub open spec fn members_json<'a>(ms: Seq<ValueAndDescriptor<'a>>, o: SerializeOptions) -> Seq<(Seq<char>, Json)>
    decreases ms.len()
{
    if ms.len() == 0 { Seq::empty() } else if ms.last() is Unknown { members_json(ms.drop_last(), o) } else { members_json(ms.drop_last(), o).push(member_of(ms.last(), o)) }
}
pub open spec fn member_writes<'a>(m: ValueAndDescriptor<'a>, o: SerializeOptions) -> bool {
    match m { ValueAndDescriptor::Field(v, _) => value_writes(cow(v), o), ValueAndDescriptor::Extension(v, _) => value_writes(cow(v), o), ValueAndDescriptor::Unknown(_) => true }
}
pub open spec fn members_write<'a>(ms: Seq<ValueAndDescriptor<'a>>, o: SerializeOptions) -> bool { forall|i: int| 0 <= i < ms.len() ==> member_writes(#[trigger] ms[i], o) }
pub open spec fn member_typed<'a>(m: ValueAndDescriptor<'a>) -> bool {
    match m { ValueAndDescriptor::Field(v, d) => typed(cow(v), d.s_kind()), ValueAndDescriptor::Extension(v, d) => typed(cow(v), d.s_kind()), ValueAndDescriptor::Unknown(_) => true }
}
//@@ fn prost-reflect/src/dynamic/serde/ser/mod.rs serialize_dynamic_message_fields
//@@ sig fn serialize_dynamic_message_fields(map: &mut MapSer, value: &DynamicMessage, options: &SerializeOptions) -> (r: Result<(), SerError>)
//@@ subst value . fields . iter ( & value . desc , $x , false ) ==>> value.members($x)
//@@ subst for field in fields { ==>> let mut i__ = 0; while i__ < fields.len() { let field = &fields[i__]; i__ += 1;
//@@ subst? ref field_desc ==>> field_desc
//@@ subst? ref extension_desc ==>> extension_desc
//@@ subst? ref kind ==>> kind__
//@@ spec
    requires forall|i: int| 0 <= i < value.s_members(options.skip_default_fields).len() ==> member_typed(#[trigger] value.s_members(options.skip_default_fields)[i]),
    ensures
        r is Ok ==> final(map).members() == old(map).members() + members_json(value.s_members(options.skip_default_fields), *options),
        r is Err ==> !members_write(value.s_members(options.skip_default_fields), *options),
//@@ start
    let ghost vm = value.s_members(options.skip_default_fields);
    let ghost m0 = map.members();
    proof { assert(vm.take(0) =~= Seq::<ValueAndDescriptor<'_>>::empty()); assert(m0 + Seq::<(Seq<char>, Json)>::empty() =~= m0); }
//@@ loop 0
        invariant
            i__ <= fields.len(), fields@ == vm, vm == value.s_members(options.skip_default_fields),
            forall|i: int| 0 <= i < vm.len() ==> member_typed(#[trigger] vm[i]),
            map.members() == m0 + members_json(vm.take(i__ as int), *options),
        decreases fields.len() - i__,
//@@ in-loop 0
        proof {
            assert(member_typed(vm[i__ as int]));
            assert(member_writes(vm[i__ as int], *options) || !members_write(vm, *options));
            assert(vm.take(i__ + 1).drop_last() =~= vm.take(i__ as int));
        }
        let ghost before = map.members();
//@@ before map . serialize_entry
        let kind = &kind__;
//@@ end-loop 0
        proof { assert(map.members() =~= m0 + members_json(vm.take(i__ as int), *options)); }
//@@ after-loop 0
    proof { assert(vm.take(vm.len() as int) =~= vm); }
//@@ end

//@@ item prost-reflect/src/dynamic/serde/de/kind.rs struct MessageVisitor
//@@ item prost-reflect/src/dynamic/serde/de/kind.rs struct MessageVisitorInner
pub open spec fn conflict(f: FieldDescriptor, s: Slots) -> bool {
    f.s_oneof() is Some && exists|i: int| 0 <= i < f.s_oneof()->Some_0.s_fields().len() && present(s, #[trigger] f.s_oneof()->Some_0.s_fields()[i])
}
/// What one member of an object does to the message.
pub open spec fn member_step(d: MessageDescriptor, m: (Seq<char>, Json), p: DeserializeOptions, s: Slots, r: Option<Slots>) -> bool {
    match d.s_lookup(m.0) {
        Some(f) => exists|rv: Option<Option<Value>>| #[trigger] field_reads(&f, m.1, p, rv) && match rv {
            None => r is None,
            Some(None) => r == Some(s),
            Some(Some(v)) => if conflict(f, s) { r is None } else { r is Some && stores(s, &f, v, r->Some_0) },
        },
        None => match d.s_extension_by_json_name(m.0) {
            Some(f) => exists|rv: Option<Option<Value>>| #[trigger] field_reads(&f, m.1, p, rv) && match rv {
                None => r is None,
                Some(None) => r == Some(s),
                Some(Some(v)) => r is Some && stores(s, &f, v, r->Some_0),
            },
            None => if p.deny_unknown_fields { r is None } else { r == Some(s) },
        },
    }
}
/// The states in which the members are read one after the other.
pub open spec fn states(d: MessageDescriptor, ms: Seq<(Seq<char>, Json)>, p: DeserializeOptions, s0: Slots, ss: Seq<Slots>) -> bool {
    &&& 0 < ss.len() <= ms.len() + 1 && ss[0] == s0
    &&& forall|i: int| 0 <= i < ss.len() - 1 ==> member_step(d, #[trigger] ms[i], p, ss[i], Some(ss[i + 1]))
}
/// What reading the members of an object into a message makes of it.
pub open spec fn object_reads(d: MessageDescriptor, ms: Seq<(Seq<char>, Json)>, p: DeserializeOptions, s0: Slots, r: Option<Slots>) -> bool {
    match r {
        Some(s) => exists|ss: Seq<Slots>| #[trigger] states(d, ms, p, s0, ss) && ss.len() == ms.len() + 1 && ss.last() == s,
        None => exists|ss: Seq<Slots>| #[trigger] states(d, ms, p, s0, ss) && ss.len() <= ms.len() && member_step(d, ms[ss.len() - 1], p, ss.last(), None),
    }
}
proof fn states_push(d: MessageDescriptor, ms: Seq<(Seq<char>, Json)>, p: DeserializeOptions, s0: Slots, ss: Seq<Slots>, s: Slots)
    requires states(d, ms, p, s0, ss), ss.len() <= ms.len(), member_step(d, ms[ss.len() - 1], p, ss.last(), Some(s)),
    ensures states(d, ms, p, s0, ss.push(s)),
{
    let t = ss.push(s);
    assert forall|i: int| 0 <= i < t.len() - 1 implies member_step(d, #[trigger] ms[i], p, t[i], Some(t[i + 1])) by {
        if i < ss.len() - 1 { assert(t[i] == ss[i] && t[i + 1] == ss[i + 1]); } else { assert(t[i] == ss.last()); }
    }
}
/// Whatever a field reads is a value of its type, so that it can be stored.
proof fn read_valid<D: FieldDescriptorLike + ?Sized>(d: &D, j: Json, p: DeserializeOptions, v: Value)
    requires field_ok(d), field_reads(d, j, p, Some(Some(v))),
    ensures valid(d, v),
{
    if j is Null {} else if d.s_list() {
        let js = j->Arr_0;
        let k = d.s_kind();
        let es = choose|es: Seq<Option<Value>>| #[trigger] elements_read(js, k, p, es) && v->List_0@ == kept(es);
        assert forall|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is Some implies scalar_ok(es[i]->Some_0, k) by { kind_valid(k, js[i], p, es[i]->Some_0); }
        kept_valid(es, k);
    } else if d.s_map() {
        let m = d.s_kind()->Message_0;
        let ms = j->Obj_0;
        let es = choose|es: Seq<(MapKey, Option<Value>)>| #[trigger] members_read(ms, m, p, es) && contents(v->Map_0) == put_all(es);
        let k = m.value_field().s_kind();
        assert forall|i: int| 0 <= i < es.len() && (#[trigger] es[i]).1 is Some implies scalar_ok(es[i].1->Some_0, k) by { assert(member_read(ms[i], m, p, es[i])); kind_valid(k, ms[i].1, p, es[i].1->Some_0); }
        put_valid(es, k);
    } else { kind_valid(d.s_kind(), j, p, v); }
}
proof fn kind_valid(k: Kind, j: Json, p: DeserializeOptions, v: Value)
    requires kind_reads(k, j, p, Some(Some(v))),
    ensures scalar_ok(v, k),
{}
proof fn kept_valid(es: Seq<Option<Value>>, k: Kind)
    requires forall|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is Some ==> scalar_ok(es[i]->Some_0, k),
    ensures forall|i: int| 0 <= i < kept(es).len() ==> scalar_ok(#[trigger] kept(es)[i], k),
    decreases es.len(),
{
    if es.len() > 0 {
        let d = es.drop_last();
        assert forall|i: int| 0 <= i < d.len() && (#[trigger] d[i]) is Some implies scalar_ok(d[i]->Some_0, k) by { assert(d[i] == es[i]); }
        kept_valid(d, k);
        assert(es.last() == es[es.len() - 1]);
        assert forall|i: int| 0 <= i < kept(es).len() implies scalar_ok(#[trigger] kept(es)[i], k) by { if i < kept(d).len() { assert(kept(es)[i] == kept(d)[i]); } }
    }
}
proof fn put_valid(es: Seq<(MapKey, Option<Value>)>, k: Kind)
    requires forall|i: int| 0 <= i < es.len() && (#[trigger] es[i]).1 is Some ==> scalar_ok(es[i].1->Some_0, k),
    ensures forall|g: GKey| #[trigger] put_all(es).contains_key(g) ==> scalar_ok(put_all(es)[g], k),
    decreases es.len(),
{
    if es.len() > 0 {
        let d = es.drop_last();
        assert forall|i: int| 0 <= i < d.len() && (#[trigger] d[i]).1 is Some implies scalar_ok(d[i].1->Some_0, k) by { assert(d[i] == es[i]); }
        put_valid(d, k);
        assert(es.last() == es[es.len() - 1]);
        assert forall|g: GKey| #[trigger] put_all(es).contains_key(g) implies scalar_ok(put_all(es)[g], k) by {
            if es.last().1 is Some && g == gk(es.last().0) {} else { assert(put_all(d).contains_key(g)); }
        }
    }
}
proof fn member_conflict(d: MessageDescriptor, m: (Seq<char>, Json), p: DeserializeOptions, s: Slots, f: FieldDescriptor, v: Value)
    requires d.s_lookup(m.0) == Some(f), field_reads(&f, m.1, p, Some(Some(v))), conflict(f, s),
    ensures member_step(d, m, p, s, None),
{
    let r: Option<Slots> = None;
    let rv: Option<Option<Value>> = Some(Some(v));
    assert(d.s_lookup(m.0)->Some_0 == f);
    assert(field_reads(&f, m.1, p, rv));
    assert(match rv { None => r is None, Some(None) => r == Some(s), Some(Some(v)) => if conflict(f, s) { r is None } else { r is Some && stores(s, &f, v, r->Some_0) } });
    assert(exists|rv: Option<Option<Value>>| #[trigger] field_reads(&f, m.1, p, rv) && match rv {
            None => r is None,
            Some(None) => r == Some(s),
            Some(Some(v)) => if conflict(f, s) { r is None } else { r is Some && stores(s, &f, v, r->Some_0) },
        });
}
/// Option::or_else
pub trait Otherwise<T>: Sized {
    spec fn opt(self) -> Option<T>;
    fn otherwise<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>)
        requires self.opt() is None ==> f.requires(()),
        ensures self.opt() is Some ==> r == self.opt(), self.opt() is None ==> f.ensures((), r);
}
impl<T> Otherwise<T> for Option<T> {
    open spec fn opt(self) -> Option<T> { self }
    fn otherwise<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) { match self { Some(x) => Some(x), None => f() } }
}
impl MessageVisitorInner<'_> {
#[verifier::spinoff_prover]
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for MessageVisitorInner::visit_map
//@@ sig fn visit_map(self, map_: MapAcc) -> (r: Result<(), DeError>)
//@@ subst? map . next_key :: < Cow < str >> ( ) ==>> map.next_key()
//@@ subst? map . next_key :: < Cow < str > > ( ) ==>> map.next_key()
//@@ subst? map . next_value :: < IgnoredAny > ( ) ==>> map.skip_value()
//@@ subst? . or_else ( | | $x ) ==>> .otherwise(|| -> (o: Option<FieldDescriptor>) ensures o == desc.s_by_name(key.view()) { $x })
//@@ subst? Error :: custom ==>> DeError::custom
//@@ subst? format ! $m:tt => ""
//@@ spec
    requires type_ok(old(self.0).s_desc()), map_.due() is None,
    ensures
        final(self.0).s_desc() == old(self.0).s_desc(),
        r is Ok ==> object_reads(old(self.0).s_desc(), map_.rest(), *self.1, old(self.0).slots(), Some(final(self.0).slots())),
        r is Err ==> object_reads(old(self.0).s_desc(), map_.rest(), *self.1, old(self.0).slots(), None),
//@@ start
    let mut map = map_;
    let ghost d = self.0.s_desc();
    let ghost p = *self.1;
    let ghost s0 = self.0.slots();
    let ghost ms = map_.rest();
    let ghost mut ss: Seq<Slots> = seq![s0];
//@@ loop 0
        invariant_except_break
            ss.len() <= ms.len() + 1, map.rest() == ms.skip(ss.len() - 1), map.due() is None,
        invariant
            d == old(self.0).s_desc(), s0 == old(self.0).slots(), ms == map_.rest(), desc == d, type_ok(d), p == *self.1, self.0.s_desc() == d, 
            states(d, ms, p, s0, ss), self.0.slots() == ss.last(),
        ensures
            ss.len() == ms.len() + 1, states(d, ms, p, s0, ss), self.0.slots() == ss.last(), self.0.s_desc() == d,
        decreases ms.len() + 1 - ss.len(),
//@@ in-loop 0
        let ghost m0 = ms[ss.len() - 1];
        proof {
            assert(ms.skip(ss.len() - 1)[0] == m0);
            assert(ms.skip(ss.len() - 1).skip(1) =~= ms.skip(ss.len() as int));
            assert(key.view() == m0.0);
        }
//@@ end-loop 0
        proof {
            assert(member_step(d, m0, p, ss.last(), Some(self.0.slots())));
            states_push(d, ms, p, s0, ss, self.0.slots());
            ss = ss.push(self.0.slots());
        }
//@@ before if let Some ( oneof_desc ) =
        proof { read_valid(&field, m0.1, p, value); }
//@@ before self . 0 . set_extension
        proof { read_valid(&extension_desc, m0.1, p, value); }
//@@ loop 1 iter fs
            invariant
                d == old(self.0).s_desc(), s0 == old(self.0).slots(), ms == map_.rest(), p == *self.1, self.0.s_desc() == d, states(d, ms, p, s0, ss), ss.len() <= ms.len(), m0 == ms[ss.len() - 1],
                d.s_lookup(m0.0) == Some(field), field_reads(&field, m0.1, p, Some(Some(value))), field.s_oneof() == Some(oneof_desc),
                fs.seq() == oneof_desc.s_fields(), self.0.slots() == ss.last(), 
                forall|i: int| 0 <= i < fs.index@ ==> !present(ss.last(), #[trigger] oneof_desc.s_fields()[i]),
//@@ in-loop 1
                proof {
                    assert(oneof_field == oneof_desc.s_fields()[fs.index@ as int]);
                    if present(ss.last(), oneof_field) {
                        assert(field.s_oneof()->Some_0 == oneof_desc);
                        assert(0 <= fs.index@ < oneof_desc.s_fields().len());
                        assert(present(ss.last(), field.s_oneof()->Some_0.s_fields()[fs.index@ as int]));
                        assert(conflict(field, ss.last()));
                        member_conflict(d, m0, p, ss.last(), field, value);
                    }
                }
//@@ end
}

#[verifier::external_body]
fn desc_clone(d: &MessageDescriptor) -> (r: MessageDescriptor) ensures r == *d { unimplemented!() }
impl Visitor for MessageVisitor<'_> {
    type Value = DynamicMessage;
    open spec fn ready(self) -> bool { type_ok(*self.0) }
    open spec fn reads(self, j: Json, r: Option<DynamicMessage>) -> bool { plain_reads(*self.0, j, *self.1, r) }
}
/// What a message type without a JSON form of its own is read from.
pub open spec fn plain_reads(d: MessageDescriptor, j: Json, p: DeserializeOptions, r: Option<DynamicMessage>) -> bool {
    match j {
        Json::Obj(ms) => match r {
            Some(m) => m.s_desc() == d && object_reads(d, ms, p, Map::empty(), Some(m.slots())),
            None => object_reads(d, ms, p, Map::empty(), None),
        },
        _ => r is None,
    }
}
impl MessageVisitor<'_> {
//@@ fn prost-reflect/src/dynamic/serde/de/kind.rs Visitor for MessageVisitor::visit_map
//@@ sig fn visit_map(self, map: MapAcc) -> (r: Result<DynamicMessage, DeError>)
//@@ subst? self . 0 . clone ( ) ==>> desc_clone(self.0)
//@@ spec
    requires self.ready(), map.due() is None,
    ensures self.reads(Json::Obj(map.rest()), res(r)),
//@@ end
}

// ---- the round trip of messages
pub open spec fn vd_number<'a>(m: ValueAndDescriptor<'a>) -> u32 {
    match m { ValueAndDescriptor::Field(_, d) => d.s_number(), ValueAndDescriptor::Extension(_, d) => d.s_number(), ValueAndDescriptor::Unknown(_) => 0 }
}
pub open spec fn vd_value<'a>(m: ValueAndDescriptor<'a>) -> Value {
    match m { ValueAndDescriptor::Field(v, _) => cow(v), ValueAndDescriptor::Extension(v, _) => cow(v), ValueAndDescriptor::Unknown(_) => arbitrary() }
}
pub open spec fn vd_name<'a>(m: ValueAndDescriptor<'a>, o: SerializeOptions) -> Seq<char> { member_of(m, o).0 }
/// A member of the message, found again by the name it is written with.
pub open spec fn member_rep<'a>(m: ValueAndDescriptor<'a>, d: MessageDescriptor, o: SerializeOptions, p: DeserializeOptions) -> bool {
    match m {
        ValueAndDescriptor::Field(v, f) => field_ok(&f) && rep(cow(v), &f, o, p) && d.s_lookup(vd_name(m, o)) == Some(f),
        ValueAndDescriptor::Extension(v, x) => field_ok(&x) && rep(cow(v), &x, o, p) && d.s_lookup(vd_name(m, o)) is None && d.s_extension_by_json_name(vd_name(m, o)) == Some(x),
        ValueAndDescriptor::Unknown(_) => false,
    }
}
/// The members of a message: no number twice, and one member of a oneof at most (P04, P06).
pub open spec fn members_ok<'a>(ms: Seq<ValueAndDescriptor<'a>>, d: MessageDescriptor, o: SerializeOptions, p: DeserializeOptions) -> bool {
    &&& forall|i: int| 0 <= i < ms.len() ==> member_rep(#[trigger] ms[i], d, o, p)
    &&& forall|i: int, j: int| #![trigger ms[i], ms[j]] 0 <= i < j < ms.len() ==> vd_number(ms[i]) != vd_number(ms[j])
    &&& forall|i: int, j: int| #![trigger ms[i], ms[j]] 0 <= i < j < ms.len() ==> match ms[j] {
            ValueAndDescriptor::Field(_, f) => f.s_oneof() is Some ==> !member(f.s_oneof()->Some_0, vd_number(ms[i])),
            _ => true,
        }
}
proof fn members_json_is<'a>(ms: Seq<ValueAndDescriptor<'a>>, o: SerializeOptions)
    requires forall|i: int| 0 <= i < ms.len() ==> !(#[trigger] ms[i] is Unknown),
    ensures members_json(ms, o).len() == ms.len(), forall|i: int| 0 <= i < ms.len() ==> #[trigger] members_json(ms, o)[i] == member_of(ms[i], o),
    decreases ms.len(),
{
    if ms.len() > 0 {
        let d = ms.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies !(#[trigger] d[i] is Unknown) by { assert(d[i] == ms[i]); }
        members_json_is(d, o);
        assert(ms.last() == ms[ms.len() - 1]);
        assert forall|i: int| 0 <= i < ms.len() implies #[trigger] members_json(ms, o)[i] == member_of(ms[i], o) by { if i < d.len() { assert(d[i] == ms[i]); } }
    }
}
/// The values of the first `k` members are stored, and nothing else.
pub open spec fn holds<'a>(s: Slots, ms: Seq<ValueAndDescriptor<'a>>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < k ==> s.contains_key(vd_number(#[trigger] ms[i])) && same_value(vd_value(ms[i]), s[vd_number(ms[i])])
    &&& forall|n: u32| #[trigger] s.contains_key(n) ==> exists|i: int| 0 <= i < k && vd_number(#[trigger] ms[i]) == n
}
#[verifier::spinoff_prover]
proof fn member_round<'a>(d: MessageDescriptor, ms: Seq<ValueAndDescriptor<'a>>, k: int, o: SerializeOptions, p: DeserializeOptions, s: Slots, r: Option<Slots>)
    requires members_ok(ms, d, o, p), 0 <= k < ms.len(), holds(s, ms, k), member_step(d, member_of(ms[k], o), p, s, r),
    ensures r is Some, holds(r->Some_0, ms, k + 1),
{
    hide(rep); hide(same_value); hide(value_json); hide(field_reads); hide(field_ok);
    let m = ms[k];
    let n = vd_number(m);
    let j = member_of(m, o).1;
    assert(member_rep(m, d, o, p));
    assert(!s.contains_key(n)) by {
        if s.contains_key(n) { let i = choose|i: int| 0 <= i < k && vd_number(#[trigger] ms[i]) == n; assert(vd_number(ms[i]) != vd_number(ms[k])); }
    }
    match m {
        ValueAndDescriptor::Field(v, f) => {
            let rv = choose|rv: Option<Option<Value>>| #[trigger] field_reads(&f, j, p, rv) && match rv {
                None => r is None, Some(None) => r == Some(s),
                Some(Some(v)) => if conflict(f, s) { r is None } else { r is Some && stores(s, &f, v, r->Some_0) },
            };
            field_round(&f, cow(v), o, p, rv);
            assert(forall|x: u32| #[trigger] s.contains_key(x) ==> !sibling(&f, x)) by {
                assert forall|x: u32| #[trigger] s.contains_key(x) implies !sibling(&f, x) by {
                    let i = choose|i: int| 0 <= i < k && vd_number(#[trigger] ms[i]) == x;
                    assert(vd_number(ms[i]) != vd_number(ms[k]));
                }
            }
            if conflict(f, s) {
                let fs = f.s_oneof()->Some_0.s_fields();
                let c = choose|c: int| 0 <= c < fs.len() && present(s, #[trigger] fs[c]);
                assert(s.contains_key(fs[c].s_number()));
                assert(member(f.s_oneof()->Some_0, fs[c].s_number()));
            }
            stored(s, &f, vd_value(m), rv->Some_0->Some_0, r->Some_0, ms, k);
        },
        ValueAndDescriptor::Extension(v, f) => {
            let rv = choose|rv: Option<Option<Value>>| #[trigger] field_reads(&f, j, p, rv) && match rv {
                None => r is None, Some(None) => r == Some(s), Some(Some(v)) => r is Some && stores(s, &f, v, r->Some_0),
            };
            field_round(&f, cow(v), o, p, rv);
            stored(s, &f, vd_value(m), rv->Some_0->Some_0, r->Some_0, ms, k);
        },
        ValueAndDescriptor::Unknown(_) => {},
    }
}
proof fn stored<'a, D: FieldDescriptorLike + ?Sized>(s: Slots, d: &D, v: Value, w: Value, r: Slots, ms: Seq<ValueAndDescriptor<'a>>, k: int)
    requires
        0 <= k < ms.len(), holds(s, ms, k), !s.contains_key(d.s_number()), stores(s, d, w, r), same_value(v, w),
        vd_number(ms[k]) == d.s_number(), vd_value(ms[k]) == v, forall|x: u32| #[trigger] s.contains_key(x) ==> !sibling(d, x),
    ensures holds(r, ms, k + 1),
{
    hide(same_value);
    assert forall|i: int| 0 <= i < k + 1 implies r.contains_key(vd_number(#[trigger] ms[i])) && same_value(vd_value(ms[i]), r[vd_number(ms[i])]) by {
        if i < k { let n = vd_number(ms[i]); assert(s.contains_key(n)); assert(n != d.s_number()); assert(!sibling(d, n)); assert(r.contains_key(n)); assert(r[n] == s[n]); }
        else { assert(i == k); assert(r.contains_key(d.s_number())); }
    }
    assert forall|n: u32| #[trigger] r.contains_key(n) implies exists|i: int| 0 <= i < k + 1 && vd_number(#[trigger] ms[i]) == n by {
        if n == d.s_number() { assert(vd_number(ms[k]) == n); }
        else { assert(s.contains_key(n)); let i = choose|i: int| 0 <= i < k && vd_number(#[trigger] ms[i]) == n; assert(vd_number(ms[i]) == n); }
    }
}
proof fn states_round<'a>(d: MessageDescriptor, ms: Seq<ValueAndDescriptor<'a>>, o: SerializeOptions, p: DeserializeOptions, ss: Seq<Slots>, k: int)
    requires members_ok(ms, d, o, p), states(d, members_json(ms, o), p, Map::empty(), ss), members_json(ms, o).len() == ms.len(), 0 <= k < ss.len(),
        forall|i: int| 0 <= i < ms.len() ==> #[trigger] members_json(ms, o)[i] == member_of(ms[i], o),
    ensures holds(ss[k], ms, k),
    decreases k,
{
    hide(members_ok); hide(member_step);
    if k > 0 {
        states_round(d, ms, o, p, ss, k - 1);
        assert(members_json(ms, o)[k - 1] == member_of(ms[k - 1], o));
        assert(ss[k - 1 + 1] == ss[k]);
        member_round(d, ms, k - 1, o, p, ss[k - 1], Some(ss[k]));
    }
}
proof fn members_known<'a>(ms: Seq<ValueAndDescriptor<'a>>, d: MessageDescriptor, o: SerializeOptions, p: DeserializeOptions)
    requires members_ok(ms, d, o, p),
    ensures forall|i: int| 0 <= i < ms.len() ==> !(#[trigger] ms[i] is Unknown),
{
    assert forall|i: int| 0 <= i < ms.len() implies !(#[trigger] ms[i] is Unknown) by { assert(member_rep(ms[i], d, o, p)); }
}
/// P13 for a message: what is read from the object its members are written as is accepted, and holds exactly these members.
proof fn message_round<'a>(d: MessageDescriptor, ms: Seq<ValueAndDescriptor<'a>>, o: SerializeOptions, p: DeserializeOptions, r: Option<Slots>)
    requires members_ok(ms, d, o, p), object_reads(d, members_json(ms, o), p, Map::empty(), r),
    ensures r is Some, holds(r->Some_0, ms, ms.len() as int),
{
    hide(member_step); hide(members_ok);
    members_known(ms, d, o, p);
    members_json_is(ms, o);
    let js = members_json(ms, o);
    match r {
        Some(s) => {
            let ss = choose|ss: Seq<Slots>| #[trigger] states(d, js, p, Map::empty(), ss) && ss.len() == js.len() + 1 && ss.last() == s;
            states_round(d, ms, o, p, ss, ss.len() - 1);
        },
        None => {
            let ss = choose|ss: Seq<Slots>| #[trigger] states(d, js, p, Map::empty(), ss) && ss.len() <= js.len() && member_step(d, js[ss.len() - 1], p, ss.last(), None);
            states_round(d, ms, o, p, ss, ss.len() - 1);
            assert(js[ss.len() - 1] == member_of(ms[ss.len() - 1], o));
            member_round(d, ms, ss.len() - 1, o, p, ss.last(), None);
        },
    }
}
/// Nothing is read from no members (used by unit json_wkt).
proof fn object_reads_nothing(d: MessageDescriptor, ms: Seq<(Seq<char>, Json)>, p: DeserializeOptions, s: Slots, r: Option<Slots>)
    requires ms.len() == 0, object_reads(d, ms, p, s, r),
    ensures r == Some(s),
{
}


} // verus!
fn main() {}
