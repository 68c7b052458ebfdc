// ---- P02, P03: what was written is read back, and how records combine

proof fn fixed32_read(v: u32, rest: Seq<u8>)
    ensures dec_fixed32(le(v as int, 4) + rest) == Some((v, rest)),
{
    assert(cap256(4) == 0x1_0000_0000int) by (compute);
    le_read(v as int, 4, rest); le_len(v as int, 4);
}
proof fn fixed64_read(v: u64, rest: Seq<u8>)
    ensures dec_fixed64(le(v as int, 8) + rest) == Some((v, rest)),
{
    assert(cap256(8) == 0x1_0000_0000_0000_0000int) by (compute);
    le_read(v as int, 8, rest); le_len(v as int, 8);
}
#[verifier::spinoff_prover]
proof fn fixed_read(k: Kind, v: Value, rest: Seq<u8>)
    requires scalar_ok(v, k), k is Fixed32 || k is Fixed64 || k is Sfixed32 || k is Sfixed64 || k is Float || k is Double,
    ensures dec_plain(k, payload(v, k) + rest) == Some((gv(v), rest)),
{
    hide(le); hide(unle);
    match k {
        Kind::Fixed32 => { fixed32_read(v->U32_0, rest); }
        Kind::Fixed64 => { fixed64_read(v->U64_0, rest); }
        Kind::Sfixed32 => { fixed32_read(wrap32(v->I32_0 as int), rest); }
        Kind::Sfixed64 => { fixed64_read(wrap64(v->I64_0 as int), rest); }
        Kind::Float => { broadcast use f32_is_bits; fixed32_read(f32_bits(v->F32_0), rest); }
        Kind::Double => { broadcast use f64_is_bits; fixed64_read(f64_bits(v->F64_0), rest); }
        _ => {}
    }
}
proof fn signed_back(a: i32, b: i64)
    ensures signed32(low32(wrap64(a as int))) == a, signed64(wrap64(b as int)) == b,
{}
#[verifier::spinoff_prover]
proof fn varint_kind_read(k: Kind, v: Value, rest: Seq<u8>)
    requires scalar_ok(v, k), k is Bool || k is Int32 || k is Int64 || k is Uint32 || k is Uint64 || k is Enum,
    ensures dec_plain(k, payload(v, k) + rest) == Some((gv(v), rest)),
{
    hide(varint); hide(dec_varint); hide(wrap64); hide(signed32); hide(signed64);
    match k {
        Kind::Bool => { varint_read(if v->Bool_0 { 1 } else { 0 }, rest); }
        Kind::Int32 => { signed_back(v->I32_0, 0); varint_read(wrap64(v->I32_0 as int), rest); }
        Kind::Int64 => { signed_back(0, v->I64_0); varint_read(wrap64(v->I64_0 as int), rest); }
        Kind::Uint32 => { varint_read(v->U32_0 as u64, rest); }
        Kind::Uint64 => { varint_read(v->U64_0, rest); }
        Kind::Enum(_) => { signed_back(v->EnumNumber_0, 0); varint_read(wrap64(v->EnumNumber_0 as int), rest); }
        _ => {}
    }
}
#[verifier::spinoff_prover]
proof fn zigzag_read(k: Kind, v: Value, rest: Seq<u8>)
    requires scalar_ok(v, k), k is Sint32 || k is Sint64,
    ensures dec_plain(k, payload(v, k) + rest) == Some((gv(v), rest)),
{
    hide(varint); hide(dec_varint);
    match k {
        Kind::Sint32 => { varint_read(zigzag(v->I32_0 as int) as u64, rest); }
        Kind::Sint64 => { varint_read(zigzag(v->I64_0 as int) as u64, rest); }
        _ => {}
    }
}
#[verifier::spinoff_prover]
proof fn delimited_kind_read(k: Kind, v: Value, rest: Seq<u8>)
    requires scalar_ok(v, k), k is String || k is Bytes,
    ensures dec_plain(k, payload(v, k) + rest) == Some((gv(v), rest)),
{
    hide(varint); hide(dec_varint);
    match k {
        Kind::String => {
            broadcast use string_fits;
            delimited_read(encode_utf8(v->String_0@), rest);
            encode_utf8_valid_utf8(v->String_0@);
            encode_utf8_decode_utf8(v->String_0@);
        }
        Kind::Bytes => { broadcast use bytes_fit; delimited_read(v->Bytes_0@, rest); }
        _ => {}
    }
}
proof fn plain_read(k: Kind, v: Value, rest: Seq<u8>)
    requires scalar_ok(v, k), !(k is Message),
    ensures dec_plain(k, payload(v, k) + rest) == Some((gv(v), rest)),
{
    hide(dec_plain); hide(payload); hide(gv);
    match k {
        Kind::Bool | Kind::Int32 | Kind::Int64 | Kind::Uint32 | Kind::Uint64 | Kind::Enum(_) => { varint_kind_read(k, v, rest); }
        Kind::Sint32 | Kind::Sint64 => { zigzag_read(k, v, rest); }
        Kind::String | Kind::Bytes => { delimited_kind_read(k, v, rest); }
        Kind::Message(_) => {}
        _ => { fixed_read(k, v, rest); }
    }
}
/// What decoding the encoding of a message yields.
pub uninterp spec fn reread(m: DynamicMessage) -> DynamicMessage;
/// Decoding what m writes into a new message works inside c (the induction hypothesis for messages nested in a field).
pub open spec fn rereads(m: DynamicMessage, desc: MessageDescriptor, group: Option<u32>, c: DecodeContext) -> bool {
    &&& c.depth() > 0
    &&& m.raw().len() <= u64::MAX
    &&& match group {
        None => forall|rest: Seq<u8>| #[trigger] fresh(desc).merged(m.raw() + rest, rest.len() as int, inner_ctx(c)) == Some((reread(m), rest)),
        Some(n) => forall|rest: Seq<u8>| #[trigger] fresh(desc).merged_group(n, m.raw() + (key(n, WireType::EndGroup) + rest), inner_ctx(c)) == Some((reread(m), rest)),
    }
}
/// The value as it is read back.
pub open spec fn back(v: Value) -> G { match v { Value::Message(m) => G::Message(reread(m)), _ => gv(v) } }
pub open spec fn backs(vs: Seq<Value>) -> Seq<G> { Seq::new(vs.len(), |i: int| back(vs[i])) }
pub open spec fn nested_ok(v: Value, k: Kind, group: Option<u32>, c: DecodeContext) -> bool { match k { Kind::Message(m) => rereads(v->Message_0, m, group, c), _ => true } }
/// What follows the key of a record.
pub open spec fn after_key<D: FieldDescriptorLike + ?Sized>(v: Value, d: &D, rest: Seq<u8>) -> Seq<u8> {
    if d.s_group() { v->Message_0.raw() + (key(d.s_number(), WireType::EndGroup) + rest) } else { payload(v, d.s_kind()) + rest }
}
pub open spec fn wire_of<D: FieldDescriptorLike + ?Sized>(d: &D) -> WireType { if d.s_group() { WireType::StartGroup } else { wt(d.s_kind()) } }
/// One value is read back from its record; a scalar whatever was there before.
#[verifier::spinoff_prover]
proof fn record_read<D: FieldDescriptorLike + ?Sized>(v: Value, d: &D, g: G, rest: Seq<u8>, c: DecodeContext)
    requires single_desc(d), scalar_ok(v, d.s_kind()), nested_ok(v, d.s_kind(), group_of(d), c), d.s_kind() is Message ==> g == zero(d.s_kind()),
    ensures
        dec_key(record(v, d) + rest) == Some((d.s_number(), wire_of(d), after_key(v, d, rest))),
        dec_scalar(d.s_kind(), g, group_of(d), wire_of(d), after_key(v, d, rest), c) == Some((back(v), rest)),
        rest.len() <= after_key(v, d, rest).len() < (record(v, d) + rest).len(),
{
    let k = d.s_kind(); let n = d.s_number();
    let t = after_key(v, d, rest);
    assert(record(v, d) + rest =~= key(n, wire_of(d)) + t);
    key_read(n, wire_of(d), t);
    varint_shorter(key(n, wire_of(d)) + t, 0);
    match k {
        Kind::Message(_) => { if d.s_group() { } else { delimited_read(v->Message_0.raw(), rest); } }
        _ => { plain_read(k, v, rest); }
    }
}
// ---- loops
/// Reading a and then what follows it is reading both.
pub proof fn loop_compose<V>(step: Step<V>, v: V, s: Seq<u8>, mid: int, limit: int)
    requires limit <= mid,
    ensures match dec_loop(step, v, s, mid) { Some((w, t)) => dec_loop(step, v, s, limit) == dec_loop(step, w, t, limit), None => true },
    decreases s.len()
{
    if s.len() > mid {
        match step(v, s) { Some((w, t)) => { if t.len() < s.len() { loop_compose(step, w, t, mid, limit); } }, None => {} }
    }
}
/// A step does not look at what follows the part it reads.
pub open spec fn local<V>(step: Step<V>) -> bool {
    forall|v: V, s: Seq<u8>, more: Seq<u8>| match step(v, s) { Some((w, t)) => #[trigger] step(v, s + more) == Some((w, t + more)), None => true }
}
proof fn loop_local<V>(step: Step<V>, v: V, s: Seq<u8>, limit: int, more: Seq<u8>)
    requires local(step), 0 <= limit,
    ensures match dec_loop(step, v, s, limit) { Some((w, t)) => dec_loop(step, v, s + more, limit + more.len()) == Some((w, t + more)), None => true },
    decreases s.len()
{
    if s.len() > limit {
        match step(v, s) { Some((w, t)) => { assert(step(v, s + more) == Some((w, t + more))); if t.len() < s.len() { loop_local(step, w, t, limit, more); } }, None => {} }
    }
}
/// P03: decoding a concatenation is decoding the first part and merging the second into it.
pub proof fn concatenation<V>(step: Step<V>, v: V, a: Seq<u8>, b: Seq<u8>)
    requires local(step),
    ensures match dec_loop(step, v, a, 0) { Some((w, t)) => dec_loop(step, v, a + b, 0) == dec_loop(step, w, b, 0), None => true },
{
    loop_local(step, v, a, 0, b);
    match dec_loop(step, v, a, 0) { Some((w, t)) => { loop_ends(step, v, a, 0); assert(t + b =~= b); loop_compose(step, v, a + b, b.len() as int, 0); }, None => {} }
}
proof fn loop_ends<V>(step: Step<V>, v: V, s: Seq<u8>, limit: int)
    ensures match dec_loop(step, v, s, limit) { Some((w, t)) => t.len() == limit, None => true },
    decreases s.len()
{
    if s.len() > limit {
        match step(v, s) { Some((w, t)) => { if t.len() < s.len() { loop_ends(step, w, t, limit); } }, None => {} }
    }
}
// ---- the records of one field
pub open spec fn record_step<D: FieldDescriptorLike + ?Sized>(d: &D, c: DecodeContext) -> Step<F> {
    |f: F, s: Seq<u8>| match dec_key(s) { Some((n, w, t)) => if n == d.s_number() { dec_field(f, d, w, t, c) } else { None }, None => None }
}
proof fn one_step<V>(step: Step<V>, v: V, s: Seq<u8>, w: V, t: Seq<u8>)
    requires step(v, s) == Some((w, t)), t.len() < s.len(),
    ensures dec_loop(step, v, s, t.len() as int) == Some((w, t)),
{
    assert(dec_loop(step, w, t, t.len() as int) == Some((w, t)));
}
/// P03: the last value of a singular scalar wins; a message is merged into the one that is there.
pub proof fn last_wins(k: Kind, g: G, h: G, group: Option<u32>, w: WireType, s: Seq<u8>, c: DecodeContext)
    ensures !(k is Message) ==> dec_scalar(k, g, group, w, s, c) == dec_scalar(k, h, group, w, s, c),
{}
proof fn single_read<D: FieldDescriptorLike + ?Sized>(v: Value, d: &D, g: G, rest: Seq<u8>, c: DecodeContext)
    requires single_desc(d), scalar_ok(v, d.s_kind()), nested_ok(v, d.s_kind(), group_of(d), c), d.s_kind() is Message ==> g == zero(d.s_kind()),
    ensures dec_loop(record_step(d, c), F::One(g), record(v, d) + rest, rest.len() as int) == Some((F::One(back(v)), rest)),
{
    record_read(v, d, g, rest, c);
    one_step(record_step(d, c), F::One(g), record(v, d) + rest, F::One(back(v)), rest);
}
#[verifier::spinoff_prover]
proof fn list_record_read<D: FieldDescriptorLike + ?Sized>(done: Seq<G>, v: Value, d: &D, after: Seq<u8>, c: DecodeContext)
    requires single_desc(d), scalar_ok(v, d.s_kind()), nested_ok(v, d.s_kind(), group_of(d), c),
    ensures record_step(d, c)(F::List(done), record(v, d) + after) == Some((F::List(done.push(back(v))), after)), after.len() < (record(v, d) + after).len(),
{
    hide(dec_scalar); hide(record); hide(after_key); hide(dec_loop); hide(varint);
    record_read(v, d, zero(d.s_kind()), after, c);
}
/// P03: unpacked records append.
#[verifier::spinoff_prover]
pub proof fn unpacked_read<D: FieldDescriptorLike + ?Sized>(done: Seq<G>, vs: Seq<Value>, d: &D, rest: Seq<u8>, c: DecodeContext)
    requires single_desc(d), forall|i: int| 0 <= i < vs.len() ==> scalar_ok(#[trigger] vs[i], d.s_kind()) && nested_ok(vs[i], d.s_kind(), group_of(d), c),
    ensures dec_loop(record_step(d, c), F::List(done), cat(list_parts(vs, d)) + rest, rest.len() as int) == Some((F::List(done + backs(vs)), rest)),
    decreases vs.len()
{
    hide(record_step); hide(record); hide(scalar_ok); hide(nested_ok);
    let k = d.s_kind(); let parts = list_parts(vs, d); let step = record_step(d, c); let s = cat(parts) + rest;
    if vs.len() == 0 {
        assert(s =~= rest);
        assert(done + backs(vs) =~= done);
    } else {
        let v = vs[0]; let after = cat(list_parts(vs.skip(1), d)) + rest;
        cat_front(parts);
        assert(parts.skip(1) =~= list_parts(vs.skip(1), d));
        assert(s =~= record(v, d) + after);
        list_record_read(done, v, d, after, c);
        one_step(step, F::List(done), s, F::List(done.push(back(v))), after);
        loop_compose(step, F::List(done), s, after.len() as int, rest.len() as int);
        assert(forall|i: int| 0 <= i < vs.skip(1).len() ==> #[trigger] vs.skip(1)[i] == vs[i + 1]);
        unpacked_read(done.push(back(v)), vs.skip(1), d, rest, c);
        assert(done.push(back(v)) + backs(vs.skip(1)) =~= done + backs(vs));
    }
}
#[verifier::spinoff_prover]
proof fn packed_payload_read(done: Seq<G>, vs: Seq<Value>, k: Kind, group: Option<u32>, rest: Seq<u8>, c: DecodeContext)
    requires packable(k), forall|i: int| 0 <= i < vs.len() ==> scalar_ok(#[trigger] vs[i], k),
    ensures dec_loop(packed_step(k, group, c), done, cat(packed_parts(vs, k)) + rest, rest.len() as int) == Some((done + gvs(vs), rest)),
    decreases vs.len()
{
    let parts = packed_parts(vs, k); let step = packed_step(k, group, c); let s = cat(parts) + rest;
    if vs.len() == 0 {
        assert(s =~= rest);
        assert(done + gvs(vs) =~= done);
    } else {
        let v = vs[0]; let after = cat(packed_parts(vs.skip(1), k)) + rest;
        cat_front(parts);
        assert(parts.skip(1) =~= packed_parts(vs.skip(1), k));
        assert(s =~= payload(v, k) + after);
        plain_read(k, v, after);
        plain_shorter(k, s);
        assert(step(done, s) == Some((done.push(gv(v)), after)));
        one_step(step, done, s, done.push(gv(v)), after);
        loop_compose(step, done, s, after.len() as int, rest.len() as int);
        assert(forall|i: int| 0 <= i < vs.skip(1).len() ==> #[trigger] vs.skip(1)[i] == vs[i + 1]);
        packed_payload_read(done.push(gv(v)), vs.skip(1), k, group, rest, c);
        assert(done.push(gv(v)) + gvs(vs.skip(1)) =~= done + gvs(vs));
    }
}
/// P03: a packed record appends the same values, however the field is declared.
#[verifier::spinoff_prover]
pub proof fn packed_read<D: FieldDescriptorLike + ?Sized>(done: Seq<G>, vs: Seq<Value>, d: &D, rest: Seq<u8>, c: DecodeContext)
    requires single_desc(d), packable(d.s_kind()), forall|i: int| 0 <= i < vs.len() ==> scalar_ok(#[trigger] vs[i], d.s_kind()), cat(packed_parts(vs, d.s_kind())).len() <= u64::MAX,
    ensures ({
        let s = (key(d.s_number(), WireType::LengthDelimited) + delimited(cat(packed_parts(vs, d.s_kind())))) + rest;
        &&& dec_loop(record_step(d, c), F::List(done), s, rest.len() as int) == Some((F::List(done + gvs(vs)), rest))
        &&& dec_loop(record_step(d, c), F::List(done), s, rest.len() as int) == dec_loop(record_step(d, c), F::List(done), cat(list_parts(vs, d)) + rest, rest.len() as int)
    }),
{
    let k = d.s_kind(); let p = cat(packed_parts(vs, k)); let n = d.s_number(); let step = record_step(d, c);
    let s = (key(n, WireType::LengthDelimited) + delimited(p)) + rest;
    let t = varint(p.len() as u64) + (p + rest);
    assert(s =~= key(n, WireType::LengthDelimited) + t);
    key_read(n, WireType::LengthDelimited, t);
    varint_read(p.len() as u64, p + rest);
    packed_payload_read(done, vs, k, group_of(d), rest, c);
    varint_shorter(s, 0);
    varint_shorter(t, 0);
    assert(step(F::List(done), s) == Some((F::List(done + gvs(vs)), rest)));
    one_step(step, F::List(done), s, F::List(done + gvs(vs)), rest);
    unpacked_read(done, vs, d, rest, c);
    assert(backs(vs) =~= gvs(vs)) by { assert forall|i: int| 0 <= i < vs.len() implies back(#[trigger] vs[i]) == gv(vs[i]) by { assert(scalar_ok(vs[i], k)); } }
}
// ---- maps
pub open spec fn entry_value(v: Value, m: MessageDescriptor) -> G {
    if !m.value_field().s_presence() && m.value_field().s_is_default(v) { gv(m.value_field().s_default()) } else { back(v) }
}
pub open spec fn put_all(es: Map<G, G>, new: Seq<(MapKey, Value)>, m: MessageDescriptor) -> Map<G, G>
    decreases new.len()
{
    if new.len() == 0 { es } else { put_all(es.insert(gk(new[0].0), entry_value(new[0].1, m)), new.skip(1), m) }
}
proof fn key_back(e: MapKey, k: Kind)
    requires key_kind(k), key_ok(e, k),
    ensures scalar_ok(key_value(e), k), gv(key_value(e)) == gk(e), back(key_value(e)) == gk(e), is_default_key(e, k) ==> gk(e) == zero_key(k),
{
    if k is String && is_default_key(e, k) { assert(e->String_0@ =~= Seq::<char>::empty()); }
}
pub open spec fn entry_start(m: MessageDescriptor) -> (G, G) { (zero_key(m.key_field().s_kind()), gv(m.value_field().s_default())) }
pub open spec fn entry_default(m: MessageDescriptor) -> bool { m.value_field().s_kind() is Message ==> gv(m.value_field().s_default()) == zero(m.value_field().s_kind()) }
#[verifier::spinoff_prover]
proof fn entry_read(e: (MapKey, Value), m: MessageDescriptor, rest: Seq<u8>, c: DecodeContext)
    requires entry_desc(m), entry_default(m), entry_ok(e, m), nested_ok(e.1, m.value_field().s_kind(), group_of(&m.value_field()), c),
    ensures dec_loop(entry_step(m, c), entry_start(m), entry_record(e, m) + rest, rest.len() as int) == Some(((gk(e.0), entry_value(e.1, m)), rest)),
{
    let step = entry_step(m, c); let kd = m.key_field(); let vd = m.value_field();
    let k0 = key_record(e.0, kd); let v0 = singular(e.1, &vd);
    let s = entry_record(e, m) + rest;
    let mid = v0 + rest;
    assert(s =~= k0 + mid);
    key_back(e.0, kd.s_kind());
    let s1 = (gk(e.0), entry_start(m).1);
    // the key
    if !kd.s_presence() && is_default_key(e.0, kd.s_kind()) {
        assert(s =~= mid);
        assert(dec_loop(step, entry_start(m), s, mid.len() as int) == Some((s1, mid)));
    } else {
        record_read(key_value(e.0), &kd, zero_key(kd.s_kind()), mid, c);
        assert(step(entry_start(m), s) == Some((s1, mid)));
        one_step(step, entry_start(m), s, s1, mid);
    }
    loop_compose(step, entry_start(m), s, mid.len() as int, rest.len() as int);
    // the value
    let s2 = (gk(e.0), entry_value(e.1, m));
    if !vd.s_presence() && vd.s_is_default(e.1) {
        assert(mid =~= rest);
    } else {
        record_read(e.1, &vd, s1.1, rest, c);
        assert(step(s1, mid) == Some((s2, rest)));
        one_step(step, s1, mid, s2, rest);
    }
}
pub open spec fn entry_fits(e: (MapKey, Value), m: MessageDescriptor, c: DecodeContext) -> bool {
    entry_ok(e, m) && nested_ok(e.1, m.value_field().s_kind(), group_of(&m.value_field()), c) && entry_record(e, m).len() <= u64::MAX
}
/// One entry is put into the map.
#[verifier::spinoff_prover]
proof fn map_record_read<D: FieldDescriptorLike + ?Sized>(es: Map<G, G>, e: (MapKey, Value), d: &D, after: Seq<u8>, c: DecodeContext)
    requires
        single_desc(d), d.s_kind() is Message, entry_desc(d.s_kind()->Message_0), entry_default(d.s_kind()->Message_0), entry_fits(e, d.s_kind()->Message_0, c),
    ensures ({
        let m = d.s_kind()->Message_0;
        let s = (key(d.s_number(), WireType::LengthDelimited) + delimited(entry_record(e, m))) + after;
        &&& record_step(d, c)(F::Map(es), s) == Some((F::Map(es.insert(gk(e.0), entry_value(e.1, m))), after))
        &&& after.len() < s.len()
    }),
{
    let m = d.s_kind()->Message_0; let n = d.s_number(); let p = entry_record(e, m);
    let s = (key(n, WireType::LengthDelimited) + delimited(p)) + after;
    let t = varint(p.len() as u64) + (p + after);
    assert(s =~= key(n, WireType::LengthDelimited) + t);
    key_read(n, WireType::LengthDelimited, t);
    varint_read(p.len() as u64, p + after);
    entry_read(e, m, after, c);
    varint_shorter(s, 0);
    varint_shorter(t, 0);
}
/// P03: entries are put into the map one after another; a missing key or value means its default.
#[verifier::spinoff_prover]
pub proof fn map_read<D: FieldDescriptorLike + ?Sized>(es: Map<G, G>, new: Seq<(MapKey, Value)>, d: &D, rest: Seq<u8>, c: DecodeContext)
    requires
        single_desc(d), d.s_kind() is Message, entry_desc(d.s_kind()->Message_0), entry_default(d.s_kind()->Message_0),
        forall|i: int| 0 <= i < new.len() ==> entry_fits(#[trigger] new[i], d.s_kind()->Message_0, c),
    ensures dec_loop(record_step(d, c), F::Map(es), cat(map_parts(new, d.s_number(), d.s_kind()->Message_0)) + rest, rest.len() as int) == Some((F::Map(put_all(es, new, d.s_kind()->Message_0)), rest)),
    decreases new.len()
{
    let m = d.s_kind()->Message_0; let n = d.s_number(); let step = record_step(d, c);
    let parts = map_parts(new, n, m); let s = cat(parts) + rest;
    if new.len() == 0 {
        assert(s =~= rest);
    } else {
        let e = new[0]; let after = cat(map_parts(new.skip(1), n, m)) + rest;
        cat_front(parts);
        assert(parts.skip(1) =~= map_parts(new.skip(1), n, m));
        let front = key(n, WireType::LengthDelimited) + delimited(entry_record(e, m));
        assert(parts[0] == front);
        assert(s =~= front + after);
        let es1 = es.insert(gk(e.0), entry_value(e.1, m));
        map_record_read(es, e, d, after, c);
        one_step(step, F::Map(es), s, F::Map(es1), after);
        loop_compose(step, F::Map(es), s, after.len() as int, rest.len() as int);
        assert(forall|i: int| 0 <= i < new.skip(1).len() ==> #[trigger] new.skip(1)[i] == new[i + 1]);
        map_read(es1, new.skip(1), d, rest, c);
    }
}
