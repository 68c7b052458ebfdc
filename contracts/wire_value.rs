//@@ props P01 P02
//@@ include head.rs
//@@ include wire.rs
//@@ include prost.rs
//@@ include value.rs
//@@ include opaque_message.rs
//@@ include nested.rs

// ---- specification

//@@ include payload.rs
pub broadcast proof fn sign_extends(v: i32)
    ensures #[trigger] (v as u64) == wrap64(v as int),
{
    assert(v < 0 ==> (v as u64) == (0x1_0000_0000_0000_0000int + v) as u64) by (bit_vector);
}
proof fn entry_written(b: Seq<u8>, c: Seq<u8>, e: (MapKey, Value), number: u32, m: MessageDescriptor)
    ensures ((((b + c) + key(number, WireType::LengthDelimited)) + varint(entry_record(e, m).len() as u64)) + key_record(e.0, m.key_field())) + singular(e.1, &m.value_field())
        == b + (c + entry_part(e, number, m)),
{
    assert(((((b + c) + key(number, WireType::LengthDelimited)) + varint(entry_record(e, m).len() as u64)) + key_record(e.0, m.key_field())) + singular(e.1, &m.value_field())
        =~= b + (c + entry_part(e, number, m)));
}
pub broadcast proof fn sign_extends64(v: i64)
    ensures #[trigger] (v as u64) == wrap64(v as int),
{
    assert(v < 0 ==> (v as u64) == (0x1_0000_0000_0000_0000int + v) as u64) by (bit_vector);
}
proof fn list_fits<D: FieldDescriptorLike + ?Sized>(vs: Seq<Value>, d: &D)
    ensures forall|i: int| 0 <= i < vs.len() ==> record(#[trigger] vs[i], d).len() <= cat(list_parts(vs, d)).len(),
{
    assert forall|i: int| 0 <= i < vs.len() implies record(#[trigger] vs[i], d).len() <= cat(list_parts(vs, d)).len() by { cat_part(list_parts(vs, d), i); }
}
proof fn entries_fit(es: Seq<(MapKey, Value)>, number: u32, m: MessageDescriptor)
    ensures forall|i: int| 0 <= i < es.len() ==> entry_part(#[trigger] es[i], number, m).len() <= cat(map_parts(es, number, m)).len(),
{
    assert forall|i: int| 0 <= i < es.len() implies entry_part(#[trigger] es[i], number, m).len() <= cat(map_parts(es, number, m)).len() by { cat_part(map_parts(es, number, m), i); }
}
// ---- helpers (verified)

/// `values.iter().map(f)`, evaluated at once
fn map_all<'a, T, F: Fn(&'a Value) -> T>(values: &'a Vec<Value>, f: F) -> (r: Vec<T>)
    requires forall|i: int| 0 <= i < values@.len() ==> call_requires(f, (&#[trigger] values@[i],)),
    ensures r@.len() == values@.len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (&values@[i],), #[trigger] r@[i]),
{
    let mut out: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < values.len()
        invariant
            i <= values@.len(), out@.len() == i,
            forall|i: int| 0 <= i < values@.len() ==> call_requires(f, (&#[trigger] values@[i],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (&values@[j],), #[trigger] out@[j]),
        decreases values@.len() - i
    {
        let v = &values[i];
        assert(call_requires(f, (&values@[i as int],)));
        out.push(f(v));
        i += 1;
    }
    out
}
/// `values.iter()`, as references
fn refs<'a, T>(values: &'a Vec<T>) -> (r: Vec<&'a T>)
    ensures r@.len() == values@.len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == values@[i],
{
    let mut out: Vec<&'a T> = Vec::new();
    let mut i: usize = 0;
    while i < values.len()
        invariant i <= values@.len(), out@.len() == i, forall|j: int| 0 <= j < i ==> *#[trigger] out@[j] == values@[j],
        decreases values@.len() - i
    {
        out.push(&values[i]);
        i += 1;
    }
    out
}
/// `iter.into_iter().map(f).sum()`
fn sum_all<T: Copy, F: Fn(T) -> usize>(values: &Vec<T>, f: F, Ghost(parts): Ghost<Seq<Seq<u8>>>) -> (r: usize)
    requires
        parts.len() == values@.len(), cat(parts).len() <= usize::MAX,
        forall|i: int| 0 <= i < values@.len() ==> call_requires(f, (#[trigger] values@[i],)),
        forall|i: int, n: usize| 0 <= i < values@.len() && #[trigger] call_ensures(f, (values@[i],), n) ==> n == parts[i].len(),
    ensures r == cat(parts).len(),
{
    let mut n: usize = 0;
    let mut i: usize = 0;
    proof { assert(parts.take(0) =~= Seq::<Seq<u8>>::empty()); }
    while i < values.len()
        invariant
            i <= values@.len(), n == cat(parts.take(i as int)).len(),
            parts.len() == values@.len(), cat(parts).len() <= usize::MAX,
            forall|i: int| 0 <= i < values@.len() ==> call_requires(f, (#[trigger] values@[i],)),
            forall|i: int, n: usize| 0 <= i < values@.len() && #[trigger] call_ensures(f, (values@[i],), n) ==> n == parts[i].len(),
        decreases values@.len() - i
    {
        proof { cat_part(parts, i as int); cat_step(parts, i as int); }
        let k = f(values[i]);
        n = n + k;
        i += 1;
    }
    proof { assert(parts.take(values@.len() as int) =~= parts); }
    n
}

// ---- the code

//@@ fn prost-reflect/src/dynamic/message.rs from_sint32
//@@ ret r
//@@ spec
    ensures r as int == zigzag(value as int),
//@@ start
    proof {
        assert(value >= 0 ==> ((value << 1) ^ (value >> 31)) as u32 == 2 * value) by (bit_vector);
        assert(value < 0 ==> ((value << 1) ^ (value >> 31)) as u32 == -2 * value - 1) by (bit_vector);
    }
//@@ end

//@@ fn prost-reflect/src/dynamic/message.rs from_sint64
//@@ ret r
//@@ spec
    ensures r as int == zigzag(value as int),
//@@ start
    proof {
        assert(value >= 0 ==> ((value << 1) ^ (value >> 63)) as u64 == 2 * value) by (bit_vector);
        assert(value < 0 ==> ((value << 1) ^ (value >> 63)) as u64 == -2 * value - 1) by (bit_vector);
    }
//@@ end

impl Kind {
//@@ fn prost-reflect/src/descriptor/api.rs Kind::wire_type
//@@ ret r
//@@ spec
    ensures r == wt(*self),
//@@ end
}

impl Value {
//@@ fn prost-reflect/src/dynamic/mod.rs Value::as_bool
//@@ ret r
//@@ spec
    ensures r == (match *self { Value::Bool(v) => Some(v), _ => None }),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs Value::as_u32
//@@ ret r
//@@ spec
    ensures r == (match *self { Value::U32(v) => Some(v), _ => None }),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs Value::as_u64
//@@ ret r
//@@ spec
    ensures r == (match *self { Value::U64(v) => Some(v), _ => None }),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs Value::as_i64
//@@ ret r
//@@ spec
    ensures r == (match *self { Value::I64(v) => Some(v), _ => None }),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs Value::as_i32
//@@ ret r
//@@ spec
    ensures r == (match *self { Value::I32(v) => Some(v), _ => None }),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs Value::as_f32
//@@ ret r
//@@ spec
    ensures r == (match *self { Value::F32(v) => Some(v), _ => None }),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs Value::as_f64
//@@ ret r
//@@ spec
    ensures r == (match *self { Value::F64(v) => Some(v), _ => None }),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs Value::as_enum_number
//@@ ret r
//@@ spec
    ensures r == (match *self { Value::EnumNumber(v) => Some(v), _ => None }),
//@@ end
}

//@@ fn prost-reflect/src/dynamic/message.rs encode_packed_list
//@@ sig fn encode_packed_list<T: Copy, B: BufMut, E: Fn(T, &mut B), L: Fn(T) -> usize>(Ghost(parts): Ghost<Seq<Seq<u8>>>, number: u32, iter: Vec<T>, buf: &mut B, encode: E, encoded_len: L)
//@@ subst iter . clone ( ) . into_iter ( ) . map ( encoded_len ) . sum ( ) ==>> sum_all(&iter, encoded_len, Ghost(parts))
//@@ spec
    requires
        field_number(number), parts.len() == iter@.len(), cat(parts).len() <= usize::MAX,
        forall|v: T, b: &mut B| #[trigger] call_requires(encode, (v, b)),
        forall|v: T| #[trigger] call_requires(encoded_len, (v,)),
        forall|i: int, b: &mut B| 0 <= i < iter@.len() && #[trigger] call_ensures(encode, (iter@[i], b), ()) ==> final(b).out() == b.out() + parts[i],
        forall|i: int, n: usize| 0 <= i < iter@.len() && #[trigger] call_ensures(encoded_len, (iter@[i],), n) ==> n == parts[i].len(),
    ensures final(buf).out() == old(buf).out() + (key(number, WireType::LengthDelimited) + delimited(cat(parts))),
//@@ start
    let ghost b0 = buf.out();
    let ghost vs = iter@;
//@@ before for value in iter
    let ghost b1 = buf.out();
    proof { assert(parts.take(0) =~= Seq::<Seq<u8>>::empty()); assert(b1 + cat(parts.take(0)) =~= b1); }
//@@ loop 0 iter it
        invariant
            it.seq() == vs, parts.len() == vs.len(),
            buf.out() == b1 + cat(parts.take(it.index@ as int)),
            forall|v: T, b: &mut B| #[trigger] call_requires(encode, (v, b)),
            forall|i: int, b: &mut B| 0 <= i < vs.len() && #[trigger] call_ensures(encode, (vs[i], b), ()) ==> final(b).out() == b.out() + parts[i],
//@@ in-loop 0
        proof { cat_step(parts, it.index@ as int); add3(b1, cat(parts.take(it.index@ as int)), parts[it.index@ as int]); }
//@@ after-loop 0
    proof {
        assert(parts.take(vs.len() as int) =~= parts);
        let k = key(number, WireType::LengthDelimited);
        assert(buf.out() =~= b0 + (k + delimited(cat(parts))));
    }
//@@ end

//@@ fn prost-reflect/src/dynamic/message.rs packed_list_encoded_len
//@@ sig fn packed_list_encoded_len<T: Copy, L: Fn(T) -> usize>(Ghost(parts): Ghost<Seq<Seq<u8>>>, number: u32, iter: Vec<T>, encoded_len: L) -> (r: usize)
//@@ subst iter . into_iter ( ) . map ( encoded_len ) . sum ( ) ==>> sum_all(&iter, encoded_len, Ghost(parts))
//@@ spec
    requires
        field_number(number), parts.len() == iter@.len(),
        key(number, WireType::LengthDelimited).len() + delimited(cat(parts)).len() <= usize::MAX,
        forall|v: T| #[trigger] call_requires(encoded_len, (v,)),
        forall|i: int, n: usize| 0 <= i < iter@.len() && #[trigger] call_ensures(encoded_len, (iter@[i],), n) ==> n == parts[i].len(),
    ensures r == key(number, WireType::LengthDelimited).len() + delimited(cat(parts)).len(),
//@@ end

/// A panic that is never reached.
#[verifier::external_body]
fn unreached<A>() -> A requires false { unimplemented!() }
/// `==` of map keys (assumed contract of the derived PartialEq)
#[verifier::external_body]
fn map_key_eq(a: &MapKey, b: &MapKey) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }

impl MapKey {
//@@ fn prost-reflect/src/dynamic/mod.rs MapKey::default_value
//@@ subst panic ! $m:tt ==>> unreached()
//@@ subst? String :: default ( ) ==>> String::new()
//@@ ret r
//@@ spec
    requires key_kind(*kind),
    ensures key_ok(r, *kind), is_default_key(r, *kind),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs MapKey::is_default
//@@ subst * self == MapKey :: default_value ( kind ) ==>> map_key_eq(self, &MapKey::default_value(kind))
//@@ ret r
//@@ spec
    requires key_ok(*self, *kind),
    ensures r == is_default_key(*self, *kind),
//@@ start
    broadcast use string_ext;
//@@ end
//@@ fn prost-reflect/src/dynamic/message.rs MapKey::encode_field
//@@ subst panic ! $m:tt ==>> unreached()
//@@ spec
    requires single_desc(field_desc), key_ok(*self, field_desc.s_kind()),
    ensures final(buf).out() == old(buf).out() + key_record(*self, *field_desc),
//@@ start
    let ghost b0 = buf.out();
    proof { assert(b0 + Seq::<u8>::empty() =~= b0); }
//@@ end
//@@ fn prost-reflect/src/dynamic/message.rs MapKey::encoded_len
//@@ subst panic ! $m:tt ==>> unreached()
//@@ ret r
//@@ spec
    requires single_desc(field_desc), key_ok(*self, field_desc.s_kind()), key_record(*self, *field_desc).len() <= usize::MAX,
    ensures r == key_record(*self, *field_desc).len(),
//@@ end
}

impl Value {
#[verifier::exec_allows_no_decreases_clause]
#[verifier::spinoff_prover]
#[verifier::rlimit(50)]
//@@ fn prost-reflect/src/dynamic/message.rs Value::encode_field
//@@ subst panic ! $m:tt ==>> unreached()
//@@ subst? values . iter ( ) . map ( | v | v . as_bool ( ) . expect $m:tt ) ==>> map_all(values, |v: &Value| -> (o: bool) requires *v is Bool ensures *v == Value::Bool(o) { v.as_bool().expect$m })
//@@ subst? values . iter ( ) . map ( | v | v . as_u32 ( ) . expect $m:tt ) ==>> map_all(values, |v: &Value| -> (o: u32) requires *v is U32 ensures *v == Value::U32(o) { v.as_u32().expect$m })
//@@ subst? values . iter ( ) . map ( | v | v . as_u64 ( ) . expect $m:tt ) ==>> map_all(values, |v: &Value| -> (o: u64) requires *v is U64 ensures *v == Value::U64(o) { v.as_u64().expect$m })
//@@ subst? values . iter ( ) . map ( | v | v . as_i64 ( ) . expect $m:tt ) ==>> map_all(values, |v: &Value| -> (o: i64) requires *v is I64 ensures *v == Value::I64(o) { v.as_i64().expect$m })
//@@ subst? values . iter ( ) . map ( | v | v . as_i32 ( ) . expect $m:tt ) ==>> map_all(values, |v: &Value| -> (o: i32) requires *v is I32 ensures *v == Value::I32(o) { v.as_i32().expect$m })
//@@ subst? values . iter ( ) . map ( | v | v . as_f32 ( ) . expect $m:tt ) ==>> map_all(values, |v: &Value| -> (o: f32) requires *v is F32 ensures *v == Value::F32(o) { v.as_f32().expect$m })
//@@ subst? values . iter ( ) . map ( | v | v . as_f64 ( ) . expect $m:tt ) ==>> map_all(values, |v: &Value| -> (o: f64) requires *v is F64 ensures *v == Value::F64(o) { v.as_f64().expect$m })
//@@ subst? values . iter ( ) . map ( | v | v . as_enum_number ( ) . expect $m:tt ) ==>> map_all(values, |v: &Value| -> (o: i32) requires *v is EnumNumber ensures *v == Value::EnumNumber(o) { v.as_enum_number().expect$m })
//@@ subst? | v , b | prost :: encoding :: encode_varint ( v as u64 , b ) ==>> |v, b| ensures final(b).out() == old(b).out() + varint(v as u64) { prost::encoding::encode_varint(v as u64, b) }
//@@ subst? | v , b | prost :: encoding :: encode_varint ( v , b ) ==>> |v, b| ensures final(b).out() == old(b).out() + varint(v) { prost::encoding::encode_varint(v, b) }
//@@ subst? | v , b | prost :: encoding :: encode_varint ( from_sint32 ( v ) as u64 , b ) ==>> |v, b| ensures final(b).out() == old(b).out() + varint(zigzag(v as int) as u64) { prost::encoding::encode_varint(from_sint32(v) as u64, b) }
//@@ subst? | v , b | prost :: encoding :: encode_varint ( from_sint64 ( v ) , b ) ==>> |v, b| ensures final(b).out() == old(b).out() + varint(zigzag(v as int) as u64) { prost::encoding::encode_varint(from_sint64(v), b) }
//@@ subst? | v , b | b . put_f64_le ( v ) ==>> |v, b| ensures final(b).out() == old(b).out() + le(f64_bits(v) as int, 8) { b.put_f64_le(v) }
//@@ subst? | v , b | b . put_f32_le ( v ) ==>> |v, b| ensures final(b).out() == old(b).out() + le(f32_bits(v) as int, 4) { b.put_f32_le(v) }
//@@ subst? | v , b | b . put_u32_le ( v ) ==>> |v, b| ensures final(b).out() == old(b).out() + le(v as int, 4) { b.put_u32_le(v) }
//@@ subst? | v , b | b . put_u64_le ( v ) ==>> |v, b| ensures final(b).out() == old(b).out() + le(v as int, 8) { b.put_u64_le(v) }
//@@ subst? | v , b | b . put_i32_le ( v ) ==>> |v, b| ensures final(b).out() == old(b).out() + le(wrap32(v as int) as int, 4) { b.put_i32_le(v) }
//@@ subst? | v , b | b . put_i64_le ( v ) ==>> |v, b| ensures final(b).out() == old(b).out() + le(wrap64(v as int) as int, 8) { b.put_i64_le(v) }
//@@ subst? | v | prost :: encoding :: encoded_len_varint ( v as u64 ) ==>> |v| -> (n: usize) ensures n == varint(v as u64).len() { prost::encoding::encoded_len_varint(v as u64) }
//@@ subst? | v | prost :: encoding :: encoded_len_varint ( from_sint32 ( v ) as u64 ) ==>> |v| -> (n: usize) ensures n == varint(zigzag(v as int) as u64).len() { prost::encoding::encoded_len_varint(from_sint32(v) as u64) }
//@@ subst? | v | prost :: encoding :: encoded_len_varint ( from_sint64 ( v ) ) ==>> |v| -> (n: usize) ensures n == varint(zigzag(v as int) as u64).len() { prost::encoding::encoded_len_varint(from_sint64(v)) }
//@@ subst? | _ | $n:tt , ==>> |v_| -> (n: usize) ensures n == $n { $n },
//@@ subst? encode_packed_list ( ==>> encode_packed_list(Ghost(packed_parts(values@, field_desc.s_kind())),
//@@ subst for ( key , value ) in values { ==>> let es__ = map_entries(values); for e__ in es__ { let (key, value) = e__;
//@@ spec
    requires
        desc_ok(field_desc), value_ok(*self, field_desc) || field_desc.s_list() && scalar_ok(*self, field_desc.s_kind()),
        enc(*self, field_desc).len() <= usize::MAX,
    ensures final(buf).out() == old(buf).out() + enc(*self, field_desc),
//@@ start
    hide(varint); hide(le); hide(zigzag); hide(wrap64); hide(wrap32); hide(encode_utf8); hide(key); hide(cat);
    let ghost b0 = buf.out();
    proof { assert(b0 + Seq::<u8>::empty() =~= b0); }
    broadcast use {le_len, sign_extends, sign_extends64};
//@@ before for value in values
    proof { assert(list_parts(values@, field_desc).take(0) =~= Seq::<Seq<u8>>::empty()); cat_none(); }
//@@ loop 0 iter it
        invariant
            desc_ok(field_desc), field_desc.s_list(), number == field_desc.s_number(),
            value_ok(Value::List(*values), field_desc),
            it.seq().len() == values@.len(), forall|j: int| 0 <= j < values@.len() ==> *#[trigger] it.seq()[j] == values@[j],
            cat(list_parts(values@, field_desc)).len() <= usize::MAX,
            buf.out() == b0 + cat(list_parts(values@, field_desc).take(it.index@ as int)),
//@@ in-loop 0
        proof {
            let p = list_parts(values@, field_desc);
            assert(scalar_ok(Value::List(*values)->List_0@[it.index@ as int], field_desc.s_kind()));
            assert(p[it.index@ as int] == record(values@[it.index@ as int], field_desc));
            cat_step(p, it.index@ as int); cat_part(p, it.index@ as int);
            add3(b0, cat(p.take(it.index@ as int)), p[it.index@ as int]);
        }
//@@ after-loop 0
    proof { assert(list_parts(values@, field_desc).take(values@.len() as int) =~= list_parts(values@, field_desc)); }
//@@ before let es__
    let ghost ps = map_parts(entries(*values), number, map_entry);
    proof { assert(ps.take(0) =~= Seq::<Seq<u8>>::empty()); cat_none(); }
//@@ loop 1 iter it
        invariant
            field_number(number), entry_desc(map_entry), key_desc == map_entry.key_field(), value_desc == map_entry.value_field(),
            ps == map_parts(entries(*values), number, map_entry), it.seq().len() == ps.len(),
            forall|j: int| 0 <= j < it.seq().len() ==> (*#[trigger] it.seq()[j].0, *it.seq()[j].1) == entries(*values)[j],
            forall|j: int| 0 <= j < ps.len() ==> entry_ok(#[trigger] entries(*values)[j], map_entry),
            cat(ps).len() <= usize::MAX,
            buf.out() == b0 + cat(ps.take(it.index@ as int)),
//@@ in-loop 1
        let ghost b1 = buf.out();
        proof {
            cat_step(ps, it.index@ as int); cat_part(ps, it.index@ as int);
            assert(entry_ok(entries(*values)[it.index@ as int], map_entry));
            assert(ps[it.index@ as int] == entry_part(entries(*values)[it.index@ as int], number, map_entry));
        }
//@@ end-loop 1
        proof { entry_written(b0, cat(ps.take(it.index@ as int)), entries(*values)[it.index@ as int], number, map_entry); }
//@@ after-loop 1
    proof { assert(ps.take(ps.len() as int) =~= ps); }
//@@ end

#[verifier::exec_allows_no_decreases_clause]
#[verifier::spinoff_prover]
#[verifier::rlimit(50)]
//@@ fn prost-reflect/src/dynamic/message.rs Value::encoded_len
//@@ subst panic ! $m:tt ==>> unreached()
//@@ subst? values . iter ( ) . map ( | v | v . as_bool ( ) . expect $m:tt ) ==>> map_all(values, |v: &Value| -> (o: bool) requires *v is Bool ensures *v == Value::Bool(o) { v.as_bool().expect$m })
//@@ subst? values . iter ( ) . map ( | v | v . as_u32 ( ) . expect $m:tt ) ==>> map_all(values, |v: &Value| -> (o: u32) requires *v is U32 ensures *v == Value::U32(o) { v.as_u32().expect$m })
//@@ subst? values . iter ( ) . map ( | v | v . as_u64 ( ) . expect $m:tt ) ==>> map_all(values, |v: &Value| -> (o: u64) requires *v is U64 ensures *v == Value::U64(o) { v.as_u64().expect$m })
//@@ subst? values . iter ( ) . map ( | v | v . as_i64 ( ) . expect $m:tt ) ==>> map_all(values, |v: &Value| -> (o: i64) requires *v is I64 ensures *v == Value::I64(o) { v.as_i64().expect$m })
//@@ subst? values . iter ( ) . map ( | v | v . as_i32 ( ) . expect $m:tt ) ==>> map_all(values, |v: &Value| -> (o: i32) requires *v is I32 ensures *v == Value::I32(o) { v.as_i32().expect$m })
//@@ subst? values . iter ( ) . map ( | v | v . as_f32 ( ) . expect $m:tt ) ==>> map_all(values, |v: &Value| -> (o: f32) requires *v is F32 ensures *v == Value::F32(o) { v.as_f32().expect$m })
//@@ subst? values . iter ( ) . map ( | v | v . as_f64 ( ) . expect $m:tt ) ==>> map_all(values, |v: &Value| -> (o: f64) requires *v is F64 ensures *v == Value::F64(o) { v.as_f64().expect$m })
//@@ subst? values . iter ( ) . map ( | v | v . as_enum_number ( ) . expect $m:tt ) ==>> map_all(values, |v: &Value| -> (o: i32) requires *v is EnumNumber ensures *v == Value::EnumNumber(o) { v.as_enum_number().expect$m })
//@@ subst? | v | prost :: encoding :: encoded_len_varint ( v as u64 ) ==>> |v| -> (n: usize) ensures n == varint(v as u64).len() { prost::encoding::encoded_len_varint(v as u64) }
//@@ subst? | v | prost :: encoding :: encoded_len_varint ( from_sint32 ( v ) as u64 ) ==>> |v| -> (n: usize) ensures n == varint(zigzag(v as int) as u64).len() { prost::encoding::encoded_len_varint(from_sint32(v) as u64) }
//@@ subst? | v | prost :: encoding :: encoded_len_varint ( from_sint64 ( v ) ) ==>> |v| -> (n: usize) ensures n == varint(zigzag(v as int) as u64).len() { prost::encoding::encoded_len_varint(from_sint64(v)) }
//@@ subst? | _ | $n:tt , ==>> |v_| -> (n: usize) ensures n == $n { $n },
//@@ subst? , prost :: encoding :: encoded_len_varint , ==>> , |v| -> (n: usize) ensures n == varint(v).len() { prost::encoding::encoded_len_varint(v) },
//@@ subst? packed_list_encoded_len ( ==>> packed_list_encoded_len(Ghost(packed_parts(values@, field_desc.s_kind())),
//@@ subst? values . iter ( ) . map ( | value | value . encoded_len ( field_desc ) ) . sum ( ) ==>> { proof { list_fits(values@, field_desc); } sum_all(&refs(values), |value: &Value| -> (n: usize) requires desc_ok(field_desc), field_desc.s_list() && scalar_ok(*value, field_desc.s_kind()) && record(*value, field_desc).len() <= usize::MAX ensures n == record(*value, field_desc).len() { value.encoded_len(field_desc) }, Ghost(list_parts(values@, field_desc))) }
//@@ subst? values . iter ( ) . map ( | ( key , value ) | $b:tt ) . sum ::< usize > ( ) ==>> { let es__ = map_entries(values); proof { entries_fit(entries(*values), number, map_entry); assert(forall|i: int| 0 <= i < entries(*values).len() ==> entry_ok(#[trigger] entries(*values)[i], map_entry)); } sum_all(&es__, |e__: (&MapKey, &Value)| -> (n: usize) requires entry_desc(map_entry), field_number(number), key_len == key(number, WireType::LengthDelimited).len(), key_desc == map_entry.key_field(), value_desc == map_entry.value_field(), entry_ok((*e__.0, *e__.1), map_entry), entry_part((*e__.0, *e__.1), number, map_entry).len() <= usize::MAX ensures n == entry_part((*e__.0, *e__.1), number, map_entry).len() { let (key, value) = e__; $b }, Ghost(map_parts(entries(*values), number, map_entry))) }
//@@ ret r
//@@ spec
    requires
        desc_ok(field_desc), value_ok(*self, field_desc) || field_desc.s_list() && scalar_ok(*self, field_desc.s_kind()),
        enc(*self, field_desc).len() <= usize::MAX,
    ensures r == enc(*self, field_desc).len(),
//@@ start
    hide(cat); hide(varint); hide(le); hide(zigzag); hide(wrap64); hide(wrap32); hide(encode_utf8); hide(key);
    broadcast use {le_len, sign_extends, sign_extends64};
//@@ end
}

} // verus!
fn main() {}
