// ---- the default values of fields (P19): what a text denotes for a kind
/// The numbers a text denotes as core reads them (`f64::from_str`, `f32::from_str`).
pub uninterp spec fn f64_text(s: Seq<char>) -> Option<f64>;
pub uninterp spec fn f32_text(s: Seq<char>) -> Option<f32>;
pub open spec fn in_bounds(v: Option<int>, lo: int, hi: int) -> Option<int> { match v { Some(v) => if lo <= v <= hi { Some(v) } else { None }, None => None } }
pub open spec fn bool_text(s: Seq<char>) -> Option<bool> { if s == "true"@ { Some(true) } else if s == "false"@ { Some(false) } else { None } }
pub open spec fn i32_text(s: Seq<char>) -> Option<i32> { match in_bounds(dec_int(s), i32::MIN as int, i32::MAX as int) { Some(v) => Some(v as i32), None => None } }
pub open spec fn i64_text(s: Seq<char>) -> Option<i64> { match in_bounds(dec_int(s), i64::MIN as int, i64::MAX as int) { Some(v) => Some(v as i64), None => None } }
pub open spec fn u32_text(s: Seq<char>) -> Option<u32> { match in_bounds(dec_uint(s), 0, u32::MAX as int) { Some(v) => Some(v as u32), None => None } }
pub open spec fn u64_text(s: Seq<char>) -> Option<u64> { match in_bounds(dec_uint(s), 0, u64::MAX as int) { Some(v) => Some(v as u64), None => None } }
/// The text `t` (with its bytes) denotes the value `r` for a scalar kind, or no value.
pub open spec fn scalar_means(k: KindIndex, t: Seq<char>, b: Seq<u8>, r: Option<Value>) -> bool {
    match k {
        KindIndex::Double => r == (match f64_text(t) { Some(v) => Some(Value::F64(v)), None => None }),
        KindIndex::Float => r == (match f32_text(t) { Some(v) => Some(Value::F32(v)), None => None }),
        KindIndex::Int32 | KindIndex::Sint32 | KindIndex::Sfixed32 => r == (match i32_text(t) { Some(v) => Some(Value::I32(v)), None => None }),
        KindIndex::Int64 | KindIndex::Sint64 | KindIndex::Sfixed64 => r == (match i64_text(t) { Some(v) => Some(Value::I64(v)), None => None }),
        KindIndex::Uint32 | KindIndex::Fixed32 => r == (match u32_text(t) { Some(v) => Some(Value::U32(v)), None => None }),
        KindIndex::Uint64 | KindIndex::Fixed64 => r == (match u64_text(t) { Some(v) => Some(Value::U64(v)), None => None }),
        KindIndex::Bool => r == (match bool_text(t) { Some(v) => Some(Value::Bool(v)), None => None }),
        KindIndex::String => r is Some && r->0 is String && r->0->String_0@ == t,
        KindIndex::Bytes => match unescaped(b, 0) { Some(d) => r is Some && r->0 is Bytes && r->0->Bytes_0@ == d, None => r is None },
        KindIndex::Enum(_) | KindIndex::Message(_) | KindIndex::Group(_) => false,
    }
}
/// The first value of an enum with the name.
pub open spec fn names_value(e: EnumDescriptorInner, i: int, t: Seq<char>) -> bool {
    0 <= i < e.values@.len() && value_called(e.values@[i], t) && forall|j: int| 0 <= j < i ==> !#[trigger] value_called(e.values@[j], t)
}
/// P19: the default of a field of kind k, declared by the text t, is r (None: the text denotes none).
pub open spec fn default_means(p: DescriptorPoolInner, k: KindIndex, t: Seq<char>, b: Seq<u8>, r: Option<Value>) -> bool {
    match k {
        KindIndex::Enum(e) => match r {
            Some(v) => exists|i: int| #[trigger] names_value(p.enums@[e as int], i, t) && v == Value::EnumNumber(p.enums@[e as int].values@[i].number),
            None => forall|i: int| 0 <= i < p.enums@[e as int].values@.len() ==> !#[trigger] value_called(p.enums@[e as int].values@[i], t),
        },
        KindIndex::Message(_) | KindIndex::Group(_) => r is None,
        _ => scalar_means(k, t, b, r),
    }
}
/// Every value of an enum has a name.
pub open spec fn enum_named(e: EnumDescriptorInner) -> bool { forall|i: int| 0 <= i < e.values@.len() ==> (#[trigger] e.values@[i]).id.well_formed() }
pub open spec fn kind_named(p: DescriptorPoolInner, k: KindIndex) -> bool { match k { KindIndex::Enum(e) => e < p.enums@.len() && enum_named(p.enums@[e as int]), _ => true } }
