// ---- the slots of a message
pub type Slots = Map<u32, ValueOrUnknown>;
/// The value stored in a field.
pub open spec fn stored(m: Slots, n: u32) -> Option<Value> { match opt_get(m, n) { Some(ValueOrUnknown::Value(v)) => Some(v), _ => None } }
/// The field is present.
pub open spec fn present<D: FieldDescriptorLike>(m: Slots, d: &D) -> bool {
    match stored(m, d.s_number()) { Some(v) => d.s_presence() || !d.s_is_default(v), None => false }
}
/// What reading the field returns.
pub open spec fn read<D: FieldDescriptorLike>(m: Slots, d: &D) -> Value { match stored(m, d.s_number()) { Some(v) => v, None => d.s_default() } }
pub open spec fn member(o: OneofDescriptor, n: u32) -> bool { exists|i: int| 0 <= i < o.s_fields().len() && #[trigger] o.s_fields()[i].s_number() == n }
/// The other members of the field's oneof.
pub open spec fn siblings<D: FieldDescriptorLike>(d: &D) -> ISet<u32> {
    ISet::new(|n: u32| n != d.s_number() && d.s_oneof() is Some && member(d.s_oneof()->Some_0, n))
}
pub open spec fn without(m: Slots, s: ISet<u32>, r: Slots) -> bool {
    forall|n: u32| #[trigger] opt_get(r, n) == (if s.contains(n) { None } else { opt_get(m, n) })
}
/// The state after storing a value, given in terms of every slot.
pub open spec fn after_store<D: FieldDescriptorLike>(m: Slots, d: &D, v: Value, r: Slots) -> bool {
    forall|n: u32| #[trigger] opt_get(r, n) == (if n == d.s_number() { Some(ValueOrUnknown::Value(v)) } else if siblings(d).contains(n) { None } else { opt_get(m, n) })
}
