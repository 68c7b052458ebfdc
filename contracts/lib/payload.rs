/// How the protobuf encoding writes a scalar.
pub open spec fn payload(v: Value, k: Kind) -> Seq<u8> {
    match k {
        Kind::Bool => varint(if v->Bool_0 { 1 } else { 0 }),
        Kind::Int32 => varint(wrap64(v->I32_0 as int)),
        Kind::Int64 => varint(wrap64(v->I64_0 as int)),
        Kind::Uint32 => varint(v->U32_0 as u64),
        Kind::Uint64 => varint(v->U64_0),
        Kind::Sint32 => varint(zigzag(v->I32_0 as int) as u64),
        Kind::Sint64 => varint(zigzag(v->I64_0 as int) as u64),
        Kind::Fixed32 => le(v->U32_0 as int, 4),
        Kind::Fixed64 => le(v->U64_0 as int, 8),
        Kind::Sfixed32 => le(wrap32(v->I32_0 as int) as int, 4),
        Kind::Sfixed64 => le(wrap64(v->I64_0 as int) as int, 8),
        Kind::Float => le(f32_bits(v->F32_0) as int, 4),
        Kind::Double => le(f64_bits(v->F64_0) as int, 8),
        Kind::String => delimited(encode_utf8(v->String_0@)),
        Kind::Bytes => delimited(v->Bytes_0@),
        Kind::Enum(_) => varint(wrap64(v->EnumNumber_0 as int)),
        Kind::Message(_) => delimited(v->Message_0.raw()),
    }
}
pub open spec fn wt(k: Kind) -> WireType {
    match k {
        Kind::Double | Kind::Fixed64 | Kind::Sfixed64 => WireType::SixtyFourBit,
        Kind::Float | Kind::Fixed32 | Kind::Sfixed32 => WireType::ThirtyTwoBit,
        Kind::String | Kind::Bytes | Kind::Message(_) => WireType::LengthDelimited,
        _ => WireType::Varint,
    }
}
pub open spec fn key_value(m: MapKey) -> Value {
    match m { MapKey::Bool(v) => Value::Bool(v), MapKey::I32(v) => Value::I32(v), MapKey::I64(v) => Value::I64(v), MapKey::U32(v) => Value::U32(v), MapKey::U64(v) => Value::U64(v), MapKey::String(v) => Value::String(v) }
}
/// One value of a field.
pub open spec fn record<D: FieldDescriptorLike + ?Sized>(v: Value, d: &D) -> Seq<u8> {
    if d.s_group() { key(d.s_number(), WireType::StartGroup) + v->Message_0.raw() + key(d.s_number(), WireType::EndGroup) }
    else { key(d.s_number(), wt(d.s_kind())) + payload(v, d.s_kind()) }
}
pub open spec fn singular<D: FieldDescriptorLike + ?Sized>(v: Value, d: &D) -> Seq<u8> {
    if !d.s_presence() && d.s_is_default(v) { Seq::empty() } else { record(v, d) }
}
pub open spec fn key_record(m: MapKey, d: FieldDescriptor) -> Seq<u8> {
    if !d.s_presence() && is_default_key(m, d.s_kind()) { Seq::empty() } else { record(key_value(m), &d) }
}
pub open spec fn is_default_key(m: MapKey, k: Kind) -> bool {
    match m { MapKey::Bool(v) => !v, MapKey::I32(v) => v == 0, MapKey::I64(v) => v == 0, MapKey::U32(v) => v == 0, MapKey::U64(v) => v == 0, MapKey::String(v) => v@.len() == 0 }
}
pub open spec fn entry_record(e: (MapKey, Value), m: MessageDescriptor) -> Seq<u8> {
    key_record(e.0, m.key_field()) + singular(e.1, &m.value_field())
}
pub open spec fn packed_parts(vs: Seq<Value>, k: Kind) -> Seq<Seq<u8>> { Seq::new(vs.len(), |i: int| payload(vs[i], k)) }
pub open spec fn list_parts<D: FieldDescriptorLike + ?Sized>(vs: Seq<Value>, d: &D) -> Seq<Seq<u8>> { Seq::new(vs.len(), |i: int| record(vs[i], d)) }
pub open spec fn map_parts(es: Seq<(MapKey, Value)>, number: u32, m: MessageDescriptor) -> Seq<Seq<u8>> {
    Seq::new(es.len(), |i: int| entry_part(es[i], number, m))
}
pub open spec fn entry_part(e: (MapKey, Value), number: u32, m: MessageDescriptor) -> Seq<u8> { key(number, WireType::LengthDelimited) + delimited(entry_record(e, m)) }
/// How a message writes one of its fields.
pub open spec fn enc<D: FieldDescriptorLike + ?Sized>(v: Value, d: &D) -> Seq<u8> {
    if v is List {
        let vs = v->List_0@;
        if vs.len() == 0 && d.s_is_default(v) { Seq::empty() }
        else if d.s_packed() { key(d.s_number(), WireType::LengthDelimited) + delimited(cat(packed_parts(vs, d.s_kind()))) }
        else { cat(list_parts(vs, d)) }
    } else if v is Map {
        if d.s_is_default(v) { Seq::empty() } else { cat(map_parts(entries(v->Map_0), d.s_number(), d.s_kind()->Message_0)) }
    } else { singular(v, d) }
}
