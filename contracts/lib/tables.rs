// ---- the tables of the pool
/// The path of a message or enum leads to its declaration.
pub open spec fn message_placed(p: DescriptorPoolInner, m: u32) -> bool {
    m < p.messages@.len() && p.messages@[m as int].id.file < p.files@.len() && message_at(p.files@[p.messages@[m as int].id.file as int].raw, p.messages@[m as int].id.path@) is Some
}
pub open spec fn declaration(p: DescriptorPoolInner, m: u32) -> DescriptorProto { message_at(p.files@[p.messages@[m as int].id.file as int].raw, p.messages@[m as int].id.path@)->0 }
pub open spec fn enum_placed(p: DescriptorPoolInner, e: u32) -> bool {
    e < p.enums@.len() && p.enums@[e as int].id.file < p.files@.len() && enum_at(p.files@[p.enums@[e as int].id.file as int].raw, p.enums@[e as int].id.path@) is Some
}
pub open spec fn enum_declaration(p: DescriptorPoolInner, e: u32) -> EnumDescriptorProto { enum_at(p.files@[p.enums@[e as int].id.file as int].raw, p.enums@[e as int].id.path@)->0 }
pub open spec fn sorted(v: Seq<(i32, u32)>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 <= (#[trigger] v[j]).0 }
pub open spec fn has_number(v: Seq<(i32, u32)>, n: i32) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == n }
/// `v.binary_search_by(|(n, _)| n.cmp(&x))`
#[verifier::external_body]
fn search(v: &Vec<(i32, u32)>, x: i32) -> (r: Result<usize, usize>)
    requires sorted(v@),
    ensures match r {
        Ok(i) => i < v@.len() && v@[i as int].0 == x,
        Err(i) => i <= v@.len() && (forall|k: int| 0 <= k < i ==> (#[trigger] v@[k]).0 < x) && (forall|k: int| i <= k < v@.len() ==> (#[trigger] v@[k]).0 > x),
    } { unimplemented!() }
pub open spec fn enum_tables(e: EnumDescriptorInner) -> bool {
    &&& sorted(e.value_numbers@)
    &&& forall|i: int| 0 <= i < e.value_numbers@.len() ==> (#[trigger] e.value_numbers@[i]).1 < e.values@.len()
    &&& forall|n: Seq<char>| #[trigger] e.value_names@.contains_key(n) ==> e.value_names@[n] < e.values@.len()
}
pub open spec fn packable(k: KindIndex) -> bool { !(k is String || k is Bytes || k is Message || k is Group) }
/// The tables of a message refer to its fields.
pub open spec fn message_tables(m: MessageDescriptorInner) -> bool {
    &&& forall|n: u32| #[trigger] m.field_numbers@.contains_key(n) ==> m.field_numbers@[n] < m.fields@.len()
    &&& forall|n: Seq<char>| #[trigger] m.field_names@.contains_key(n) ==> m.field_names@[n] < m.fields@.len()
    &&& forall|n: Seq<char>| #[trigger] m.field_json_names@.contains_key(n) ==> m.field_json_names@[n] < m.fields@.len()
}
/// The tables of a message hold exactly its fields: each under its number, name and JSON name, and nothing else.
pub open spec fn number_keys(m: MessageDescriptorInner) -> bool {
    &&& forall|n: u32| #[trigger] m.field_numbers@.contains_key(n) ==> m.field_numbers@[n] < m.fields@.len() && m.fields@[m.field_numbers@[n] as int].number == n
    &&& forall|i: int| 0 <= i < m.fields@.len() ==> opt_get(m.field_numbers@, (#[trigger] m.fields@[i]).number) == Some(i as u32)
}
pub open spec fn json_keys(m: MessageDescriptorInner) -> bool {
    &&& forall|n: Seq<char>| #[trigger] m.field_json_names@.contains_key(n) ==> m.field_json_names@[n] < m.fields@.len() && m.fields@[m.field_json_names@[n] as int].json_name@ == n
    &&& forall|i: int| 0 <= i < m.fields@.len() ==> opt_get(m.field_json_names@, (#[trigger] m.fields@[i]).json_name@) == Some(i as u32)
}
pub open spec fn called(f: FieldDescriptorInner, n: Seq<char>) -> bool { f.id.name_of(n) }
pub open spec fn name_keys(m: MessageDescriptorInner) -> bool {
    &&& forall|n: Seq<char>| #[trigger] m.field_names@.contains_key(n) ==> m.field_names@[n] < m.fields@.len() && called(m.fields@[m.field_names@[n] as int], n)
    &&& forall|i: int, n: Seq<char>| 0 <= i < m.fields@.len() && #[trigger] called(m.fields@[i], n) ==> opt_get(m.field_names@, n) == Some(i as u32)
}
pub open spec fn message_sound(m: MessageDescriptorInner) -> bool { number_keys(m) && json_keys(m) && name_keys(m) && m.fields@.len() <= u32::MAX }
/// The first k values of an enum are in its tables, and nothing else is.
pub open spec fn enum_sound(e: EnumDescriptorInner, k: int) -> bool {
    &&& k <= e.values@.len() && e.values@.len() <= u32::MAX && sorted(e.value_numbers@)
    &&& forall|j: int| 0 <= j < e.value_numbers@.len() ==> (#[trigger] e.value_numbers@[j]).1 < k && e.values@[e.value_numbers@[j].1 as int].number == e.value_numbers@[j].0
    &&& forall|i: int| 0 <= i < k ==> e.value_numbers@.contains(((#[trigger] e.values@[i]).number, i as u32))
    &&& forall|n: Seq<char>| #[trigger] e.value_names@.contains_key(n) ==> e.value_names@[n] < k && value_called(e.values@[e.value_names@[n] as int], n)
    &&& forall|i: int, n: Seq<char>| 0 <= i < k && #[trigger] value_called(e.values@[i], n) ==> opt_get(e.value_names@, n) == Some(i as u32)
}
pub open spec fn value_called(v: EnumValueDescriptorInner, n: Seq<char>) -> bool { v.id.name_of(n) }
/// A name starts at one place only.
proof fn one_name(id: Identity, a: Seq<char>, b: Seq<char>)
    requires id.name_of(a), id.name_of(b),
    ensures a == b,
{
    let s = id.full_name@;
    let p = s.take(s.len() - a.len()); let q = s.take(s.len() - b.len());
    assert(s =~= p + a); assert(s =~= q + b);
    if p.len() < q.len() { shorter_bytes(p, q); } else if q.len() < p.len() { shorter_bytes(q, p); }
    assert(a.len() == b.len());
}
proof fn shorter_bytes(p: Seq<char>, q: Seq<char>)
    requires p.is_prefix_of(q), p.len() < q.len(),
    ensures encode_utf8(p).len() < encode_utf8(q).len(),
{
    let r = q.skip(p.len() as int);
    assert(q =~= p + r);
    encode_utf8_concat(p, r);
    assert(r.len() > 0);
    assert(encode_utf8(r).len() > 0) by { some_bytes(r); }
}
proof fn some_bytes(r: Seq<char>)
    requires r.len() > 0,
    ensures encode_utf8(r).len() > 0,
{
    if encode_utf8(r).len() == 0 {
        let e = Seq::<char>::empty();
        assert(encode_utf8(e) =~= Seq::<u8>::empty());
        assert(encode_utf8(r) =~= Seq::<u8>::empty());
        encode_utf8_decode_utf8(r);
        encode_utf8_decode_utf8(e);
    }
}
