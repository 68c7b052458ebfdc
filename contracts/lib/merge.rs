// ---- what decoding a field does, as a function

/// A value as a mathematical object: strings and byte strings are their contents.
pub ghost enum G { Bool(bool), I32(i32), I64(i64), U32(u32), U64(u64), F32(f32), F64(f64), String(Seq<char>), Bytes(Seq<u8>), Enum(i32), Message(DynamicMessage), Other }
pub open spec fn gv(v: Value) -> G {
    match v {
        Value::Bool(x) => G::Bool(x), Value::I32(x) => G::I32(x), Value::I64(x) => G::I64(x), Value::U32(x) => G::U32(x), Value::U64(x) => G::U64(x),
        Value::F32(x) => G::F32(x), Value::F64(x) => G::F64(x), Value::String(x) => G::String(x@), Value::Bytes(x) => G::Bytes(x@),
        Value::EnumNumber(x) => G::Enum(x), Value::Message(x) => G::Message(x), _ => G::Other,
    }
}
pub open spec fn gk(m: MapKey) -> G {
    match m { MapKey::Bool(x) => G::Bool(x), MapKey::I32(x) => G::I32(x), MapKey::I64(x) => G::I64(x), MapKey::U32(x) => G::U32(x), MapKey::U64(x) => G::U64(x), MapKey::String(x) => G::String(x@) }
}
pub open spec fn g_ok(g: G, k: Kind) -> bool {
    match k {
        Kind::Bool => g is Bool,
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => g is I32,
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => g is I64,
        Kind::Uint32 | Kind::Fixed32 => g is U32,
        Kind::Uint64 | Kind::Fixed64 => g is U64,
        Kind::Float => g is F32,
        Kind::Double => g is F64,
        Kind::String => g is String,
        Kind::Bytes => g is Bytes,
        Kind::Enum(_) => g is Enum,
        Kind::Message(_) => g is Message,
    }
}
/// One value, read from a record of wire type w into one that is g.
pub open spec fn dec_scalar(k: Kind, g: G, group: Option<u32>, w: WireType, s: Seq<u8>, c: DecodeContext) -> Option<(G, Seq<u8>)> {
    match k {
        Kind::Message(_) => match group {
            Some(n) => match dec_group(g->Message_0, n, w, s, c) { Some((m, t)) => Some((G::Message(m), t)), None => None },
            None => match dec_message(g->Message_0, w, s, c) { Some((m, t)) => Some((G::Message(m), t)), None => None },
        },
        _ => if w != wt(k) { None } else { dec_plain(k, s) },
    }
}
pub open spec fn dec_plain(k: Kind, s: Seq<u8>) -> Option<(G, Seq<u8>)> {
    match k {
        Kind::Bool => match dec_bool(s) { Some((v, t)) => Some((G::Bool(v), t)), None => None },
        Kind::Int32 => match dec_int32(s) { Some((v, t)) => Some((G::I32(v), t)), None => None },
        Kind::Int64 => match dec_int64(s) { Some((v, t)) => Some((G::I64(v), t)), None => None },
        Kind::Uint32 => match dec_uint32(s) { Some((v, t)) => Some((G::U32(v), t)), None => None },
        Kind::Uint64 => match dec_varint(s) { Some((v, t)) => Some((G::U64(v), t)), None => None },
        Kind::Sint32 => match dec_sint32(s) { Some((v, t)) => Some((G::I32(v), t)), None => None },
        Kind::Sint64 => match dec_sint64(s) { Some((v, t)) => Some((G::I64(v), t)), None => None },
        Kind::Fixed32 => match dec_fixed32(s) { Some((v, t)) => Some((G::U32(v), t)), None => None },
        Kind::Fixed64 => match dec_fixed64(s) { Some((v, t)) => Some((G::U64(v), t)), None => None },
        Kind::Sfixed32 => match dec_sfixed32(s) { Some((v, t)) => Some((G::I32(v), t)), None => None },
        Kind::Sfixed64 => match dec_sfixed64(s) { Some((v, t)) => Some((G::I64(v), t)), None => None },
        Kind::Float => match dec_float(s) { Some((v, t)) => Some((G::F32(v), t)), None => None },
        Kind::Double => match dec_double(s) { Some((v, t)) => Some((G::F64(v), t)), None => None },
        Kind::String => match dec_delimited(s) { Some((b, t)) => if valid_utf8(b) { Some((G::String(decode_utf8(b)), t)) } else { None }, None => None },
        Kind::Bytes => match dec_delimited(s) { Some((b, t)) => Some((G::Bytes(b), t)), None => None },
        Kind::Enum(_) => match dec_int32(s) { Some((v, t)) => Some((G::Enum(v), t)), None => None },
        Kind::Message(_) => None,
    }
}
pub type Step<V> = spec_fn(V, Seq<u8>) -> Option<(V, Seq<u8>)>;
/// Steps until `limit` bytes are left; a step that goes beyond is an error.
pub open spec fn dec_loop<V>(step: Step<V>, v: V, s: Seq<u8>, limit: int) -> Option<(V, Seq<u8>)>
    decreases s.len()
{
    if s.len() <= limit { if s.len() == limit { Some((v, s)) } else { None } }
    else { match step(v, s) { Some((w, t)) => if t.len() < s.len() { dec_loop(step, w, t, limit) } else { None }, None => None } }
}
pub open spec fn dec_delimited_loop<V>(step: Step<V>, v: V, s: Seq<u8>) -> Option<(V, Seq<u8>)> {
    match dec_varint(s) { Some((n, t)) => if n <= t.len() { dec_loop(step, v, t, t.len() - n) } else { None }, None => None }
}
/// A step reads something and keeps the invariant.
pub open spec fn steps<V>(step: Step<V>, inv: spec_fn(V) -> bool) -> bool {
    forall|v: V, s: Seq<u8>| inv(v) ==> match #[trigger] step(v, s) { Some((w, t)) => t.len() < s.len() && inv(w), None => true }
}
/// The contents of a map (assumed to be what its iteration shows).
pub uninterp spec fn contents(m: HashMap<MapKey, Value>) -> Map<G, G>;
/// `map.insert(key, value)` (assumed contract of std; equality of keys is equality of contents)
#[verifier::external_body]
fn map_put(m: &mut HashMap<MapKey, Value>, key: MapKey, value: Value)
    ensures contents(*final(m)) == contents(*old(m)).insert(gk(key), gv(value)) { unimplemented!() }
pub open spec fn gvs(vs: Seq<Value>) -> Seq<G> { Seq::new(vs.len(), |i: int| gv(vs[i])) }
pub ghost enum F { One(G), List(Seq<G>), Map(Map<G, G>) }
pub open spec fn fv(v: Value) -> F { match v { Value::List(vs) => F::List(gvs(vs@)), Value::Map(m) => F::Map(contents(m)), _ => F::One(gv(v)) } }
/// A new message.
pub uninterp spec fn fresh(m: MessageDescriptor) -> DynamicMessage;
pub uninterp spec fn zero_scalar(k: Kind) -> G;
/// The default of a type.
pub open spec fn zero(k: Kind) -> G { match k { Kind::Message(m) => G::Message(fresh(m)), _ => zero_scalar(k) } }
pub open spec fn zero_key(k: Kind) -> G {
    match k {
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => G::I32(0), Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => G::I64(0),
        Kind::Uint32 | Kind::Fixed32 => G::U32(0), Kind::Uint64 | Kind::Fixed64 => G::U64(0), Kind::Bool => G::Bool(false), _ => G::String(Seq::empty()),
    }
}
pub open spec fn group_of<D: FieldDescriptorLike + ?Sized>(d: &D) -> Option<u32> { if d.s_group() { Some(d.s_number()) } else { None } }
pub open spec fn packed_step(k: Kind, group: Option<u32>, c: DecodeContext) -> Step<Seq<G>> {
    |vs: Seq<G>, s: Seq<u8>| match dec_scalar(k, zero(k), group, wt(k), s, c) { Some((g, t)) => Some((vs.push(g), t)), None => None }
}
pub open spec fn list_inv(k: Kind) -> spec_fn(Seq<G>) -> bool { |vs: Seq<G>| forall|i: int| 0 <= i < vs.len() ==> g_ok(#[trigger] vs[i], k) }
pub open spec fn entry_step(m: MessageDescriptor, c: DecodeContext) -> Step<(G, G)> {
    |kv: (G, G), s: Seq<u8>| match dec_key(s) {
        Some((n, w, t)) =>
            if n == 1 { match dec_scalar(m.key_field().s_kind(), kv.0, None, w, t, c) { Some((g, u)) => Some(((g, kv.1), u)), None => None } }
            else if n == 2 { match dec_scalar(m.value_field().s_kind(), kv.1, group_of(&m.value_field()), w, t, c) { Some((g, u)) => Some(((kv.0, g), u)), None => None } }
            else { match encoding::skipped(w, n, t, c) { Some(u) => Some((kv, u)), None => None } },
        None => None,
    }
}
pub open spec fn entry_inv(m: MessageDescriptor) -> spec_fn((G, G)) -> bool { |kv: (G, G)| g_ok(kv.0, m.key_field().s_kind()) && g_ok(kv.1, m.value_field().s_kind()) }
/// P03: what a record of a field turns its value into.
pub open spec fn dec_field<D: FieldDescriptorLike + ?Sized>(f: F, d: &D, w: WireType, s: Seq<u8>, c: DecodeContext) -> Option<(F, Seq<u8>)> {
    let k = d.s_kind();
    match f {
        F::One(g) => match dec_scalar(k, g, group_of(d), w, s, c) { Some((h, t)) => Some((F::One(h), t)), None => None },
        F::List(vs) =>
            if w == WireType::LengthDelimited && packable(k) { match dec_delimited_loop(packed_step(k, group_of(d), c), vs, s) { Some((us, t)) => Some((F::List(us), t)), None => None } }
            else { match dec_scalar(k, zero(k), group_of(d), w, s, c) { Some((g, t)) => Some((F::List(vs.push(g)), t)), None => None } },
        F::Map(es) =>
            if w != WireType::LengthDelimited { None } else {
                let m = k->Message_0;
                match dec_delimited_loop(entry_step(m, c), (zero_key(m.key_field().s_kind()), gv(m.value_field().s_default())), s) { Some((kv, t)) => Some((F::Map(es.insert(kv.0, kv.1)), t)), None => None }
            },
    }
}
pub open spec fn f_ok<D: FieldDescriptorLike + ?Sized>(f: F, d: &D) -> bool {
    match f { F::One(g) => g_ok(g, d.s_kind()), F::List(vs) => d.s_list() && list_inv(d.s_kind())(vs), F::Map(_) => d.s_map() && !d.s_list() && d.s_kind() is Message }
}
proof fn delimited_shorter(s: Seq<u8>)
    ensures match dec_delimited(s) { Some((b, t)) => t.len() < s.len(), None => true },
{
    varint_shorter(s, 0);
}
proof fn plain_shorter(k: Kind, s: Seq<u8>)
    ensures match dec_plain(k, s) { Some((g, t)) => t.len() < s.len() && g_ok(g, k), None => true },
{
    varint_shorter(s, 0);
    delimited_shorter(s);
}
pub broadcast proof fn scalar_shorter(k: Kind, g: G, group: Option<u32>, w: WireType, s: Seq<u8>, c: DecodeContext)
    ensures match #[trigger] dec_scalar(k, g, group, w, s, c) { Some((h, t)) => t.len() <= s.len() && (!(k is Message) ==> t.len() < s.len()) && g_ok(h, k), None => true },
{
    plain_shorter(k, s);
    delimited_shorter(s);
    broadcast use group_shorter;
}
pub proof fn packed_steps(k: Kind, group: Option<u32>, c: DecodeContext)
    requires packable(k),
    ensures steps(packed_step(k, group, c), list_inv(k)),
{
    broadcast use scalar_shorter;
}
pub proof fn entry_steps(m: MessageDescriptor, c: DecodeContext)
    ensures steps(entry_step(m, c), entry_inv(m)),
{
    broadcast use {scalar_shorter, encoding::skipped_shorter};
    assert forall|kv: (G, G), s: Seq<u8>| entry_inv(m)(kv) implies match #[trigger] entry_step(m, c)(kv, s) { Some((w, t)) => t.len() < s.len() && entry_inv(m)(w), None => true } by { varint_shorter(s, 0); }
}
pub broadcast proof fn key_shape(m: MapKey, k: Kind)
    requires key_kind(k),
    ensures #[trigger] g_ok(gk(m), k) == key_ok(m, k),
{}
pub broadcast proof fn value_shape(v: Value, k: Kind)
    ensures #[trigger] g_ok(gv(v), k) == scalar_ok(v, k), scalar_ok(v, k) ==> fv(v) == F::One(gv(v)),
{}
/// `values.push(value)`
fn add_value(values: &mut Vec<Value>, value: Value)
    ensures gvs(final(values)@) == gvs(old(values)@).push(gv(value)),
{
    let ghost g = gvs(values@);
    let ghost v = gv(value);
    values.push(value);
    proof { assert(gvs(values@) =~= g.push(v)); }
}
proof fn loop_keeps<V>(step: Step<V>, inv: spec_fn(V) -> bool, v: V, s: Seq<u8>, limit: int)
    requires steps(step, inv), inv(v),
    ensures match dec_loop(step, v, s, limit) { Some((w, t)) => inv(w) && t.len() <= s.len(), None => true },
    decreases s.len()
{
    if s.len() > limit {
        match step(v, s) { Some((w, t)) => { loop_keeps(step, inv, w, t, limit); }, None => {} }
    }
}
/// The result of decoding has the field's type.
pub proof fn field_keeps_type<D: FieldDescriptorLike + ?Sized>(f: F, d: &D, w: WireType, s: Seq<u8>, c: DecodeContext)
    requires f_ok(f, d),
    ensures match dec_field(f, d, w, s, c) { Some((g, t)) => f_ok(g, d), None => true },
{
    broadcast use scalar_shorter;
    let k = d.s_kind();
    match f {
        F::List(vs) => if w == WireType::LengthDelimited && packable(k) {
            packed_steps(k, group_of(d), c);
            match dec_varint(s) { Some((n, t)) => if n <= t.len() { loop_keeps(packed_step(k, group_of(d), c), list_inv(k), vs, t, t.len() - n); }, None => {} }
        },
        _ => {}
    }
}
