//@@ props P03 P02 P04 P01
//@@ include head.rs
//@@ include wire.rs
//@@ include prost.rs
//@@ include value.rs
/// A panic that is never reached.
#[verifier::external_body]
fn unreached<A>() -> A requires false { unimplemented!() }
//@@ include btree.rs
//@@ item prost-reflect/src/dynamic/unknown.rs struct UnknownField
//@@ item prost-reflect/src/dynamic/unknown.rs enum UnknownFieldValue
//@@ item prost-reflect/src/dynamic/unknown.rs struct UnknownFieldSet
//@@ item prost-reflect/src/dynamic/fields.rs struct DynamicMessageFieldSet
//@@ item prost-reflect/src/dynamic/fields.rs enum ValueOrUnknown
//@@ item prost-reflect/src/dynamic/fields.rs enum ValueAndDescriptor
//@@ item prost-reflect/src/dynamic/mod.rs struct DynamicMessage
/// std::borrow::Cow
pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
pub open spec fn cow<T>(c: Cow<'_, T>) -> T { match c { Cow::Borrowed(v) => *v, Cow::Owned(v) => v } }
impl<'a, T> std::ops::Deref for Cow<'a, T> { type Target = T; #[verifier::external_body] fn deref(&self) -> (r: &T) ensures *r == cow(*self) { unimplemented!() } }
//@@ include extension.rs
impl OneofDescriptor { pub uninterp spec fn s_fields(&self) -> Seq<FieldDescriptor>; }
//@@ include slots.rs
//@@ include nested.rs
//@@ include payload.rs
//@@ include merge.rs
//@@ include readback.rs
//@@ include records.rs

// ---- a message as a mathematical object
pub ghost enum Slot { Known(F), Unknown(Seq<Rec>) }
pub type State = spec_fn(u32) -> Option<Slot>;
pub open spec fn state(m: Slots) -> State {
    |n: u32| match opt_get(m, n) { Some(ValueOrUnknown::Value(v)) => Some(Slot::Known(fv(v))), Some(ValueOrUnknown::Unknown(us)) => Some(Slot::Unknown(of_set(us))), _ => None }
}
pub open spec fn nothing() -> State { |n: u32| None }
/// What the field holds.
pub open spec fn held<D: FieldDescriptorLike>(st: State, d: &D) -> F { match st(d.s_number()) { Some(Slot::Known(f)) => f, _ => fv(d.s_default()) } }
pub open spec fn put<D: FieldDescriptorLike>(st: State, d: &D, f: F) -> State {
    |n: u32| if n == d.s_number() { Some(Slot::Known(f)) } else if siblings(d).contains(n) { None } else { st(n) }
}
pub open spec fn unknown_at(st: State, n: u32) -> Seq<Rec> { match st(n) { Some(Slot::Unknown(us)) => us, _ => Seq::empty() } }
pub open spec fn put_unknown(st: State, n: u32, us: Seq<Rec>) -> State { |k: u32| if k == n { Some(Slot::Unknown(us)) } else { st(k) } }
pub open spec fn field_record<D: FieldDescriptorLike>(st: State, d: &D, w: WireType, s: Seq<u8>, c: DecodeContext) -> Option<(State, Seq<u8>)> {
    match dec_field(held(st, d), d, w, s, c) { Some((f, t)) => Some((put(st, d, f), t)), None => None }
}
/// P03: what one record turns a message into.
pub open spec fn message_record(desc: MessageDescriptor, st: State, n: u32, w: WireType, s: Seq<u8>, c: DecodeContext) -> Option<(State, Seq<u8>)> {
    match desc.s_field(n) {
        Some(d) => field_record(st, &d, w, s, c),
        None => match desc.s_extension(n) {
            Some(d) => field_record(st, &d, w, s, c),
            None => match dec_body(n, w, s, c.depth()) { Some((u, t)) => Some((put_unknown(st, n, unknown_at(st, n).push(u)), t)), None => None },
        },
    }
}
pub open spec fn message_step(desc: MessageDescriptor, c: DecodeContext) -> Step<State> {
    |st: State, s: Seq<u8>| match dec_key(s) { Some((n, w, t)) => message_record(desc, st, n, w, t, c), None => None }
}
/// What an accepted descriptor guarantees about a field of a message (P09, P11, P07).
pub open spec fn field_desc_ok<D: FieldDescriptorLike>(d: &D, n: u32) -> bool {
    &&& d.s_number() == n && desc_ok(d)
    &&& if d.s_list() { fv(d.s_default()) == F::List(Seq::empty()) && forall|v: Value| v is List ==> #[trigger] d.s_is_default(v) == (v->List_0@.len() == 0) }
        else if d.s_map() { fv(d.s_default()) == F::Map(Map::empty()) && entry_default(d.s_kind()->Message_0) && forall|v: Value| v is Map ==> #[trigger] d.s_is_default(v) == (entries(v->Map_0).len() == 0) }
        else { scalar_ok(d.s_default(), d.s_kind()) && (d.s_kind() is Message ==> d.s_presence() && gv(d.s_default()) == zero(d.s_kind())) }
}
pub open spec fn message_desc_ok(desc: MessageDescriptor) -> bool {
    &&& forall|n: u32| match #[trigger] desc.s_field(n) { Some(d) => field_desc_ok(&d, n) && desc.s_extension(n) is None, None => true }
    &&& forall|n: u32| match #[trigger] desc.s_extension(n) { Some(d) => field_desc_ok(&d, n), None => true }
}
/// Values have the type of their field, and what is unknown is under the numbers of no field.
pub open spec fn message_ok(desc: MessageDescriptor, m: Slots) -> bool {
    &&& forall|n: u32| match #[trigger] desc.s_field(n) { Some(d) => match stored(m, n) { Some(v) => value_ok(v, &d), None => true }, None => true }
    &&& forall|n: u32| match #[trigger] desc.s_extension(n) { Some(d) => match stored(m, n) { Some(v) => value_ok(v, &d), None => true }, None => true }
    &&& forall|n: u32| (#[trigger] opt_get(m, n)) is Some ==> match m[n] {
        ValueOrUnknown::Value(_) => desc.s_field(n) is Some || desc.s_extension(n) is Some,
        ValueOrUnknown::Unknown(us) => desc.s_field(n) is None && desc.s_extension(n) is None && unknown_ok(of_set(us), n),
        ValueOrUnknown::Taken => true,
    }
}
pub open spec fn unknown_ok(us: Seq<Rec>, n: u32) -> bool { forall|i: int| 0 <= i < us.len() ==> rec_ok(#[trigger] us[i]) && rec_number(us[i]) == n }
/// The value of a field, as type-checked on the abstract side.
broadcast proof fn value_type<D: FieldDescriptorLike>(v: Value, d: &D)
    requires desc_ok(d), value_ok(v, d),
    ensures #[trigger] f_ok(fv(v), d),
{
}
// ---- contracts proved elsewhere
impl Value {
    /// wire_merge.rs
    #[verifier::external_body]
    pub fn merge_field<D: FieldDescriptorLike, B: Buf>(&mut self, field_desc: &D, wire_type: WireType, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
        requires desc_ok(field_desc), f_ok(fv(*old(self)), field_desc),
        ensures match dec_field(fv(*old(self)), field_desc, wire_type, old(buf).rest(), ctx) { Some((f, t)) => r is Ok && fv(*final(self)) == f && final(buf).rest() == t, None => r is Err },
    { unimplemented!() }
    /// wire_value.rs
    #[verifier::external_body]
    pub fn encode_field<D: FieldDescriptorLike, B: BufMut>(&self, field_desc: &D, buf: &mut B)
        requires desc_ok(field_desc), value_ok(*self, field_desc), enc(*self, field_desc).len() <= usize::MAX,
        ensures final(buf).out() == old(buf).out() + enc(*self, field_desc),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn encoded_len<D: FieldDescriptorLike>(&self, field_desc: &D) -> (r: usize)
        requires desc_ok(field_desc), value_ok(*self, field_desc), enc(*self, field_desc).len() <= usize::MAX,
        ensures r == enc(*self, field_desc).len(),
    { unimplemented!() }
}
impl UnknownField {
    /// unknown.rs
    #[verifier::external_body]
    pub fn decode_value<B: Buf>(number: u32, wire_type: WireType, buf: &mut B, ctx: DecodeContext) -> (r: Result<UnknownField, DecodeError>)
        ensures match dec_body(number, wire_type, old(buf).rest(), ctx.depth()) { Some((u, t)) => r is Ok && of_field(r->Ok_0) == u && final(buf).rest() == t, None => r is Err },
    { unimplemented!() }
}
impl UnknownFieldSet {
    /// unknown.rs
    #[verifier::external_body]
    pub fn encode_raw<B: BufMut>(&self, buf: &mut B)
        requires forall|i: int| 0 <= i < of_set(*self).len() ==> rec_ok(#[trigger] of_set(*self)[i]),
        ensures final(buf).out() == old(buf).out() + recs(of_set(*self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn encoded_len(&self) -> (r: usize)
        requires forall|i: int| 0 <= i < of_set(*self).len() ==> rec_ok(#[trigger] of_set(*self)[i]), recs(of_set(*self)).len() <= usize::MAX,
        ensures r == recs(of_set(*self)).len(),
    { unimplemented!() }
}
impl DynamicMessageFieldSet {
    /// fields.rs
    #[verifier::external_body]
    pub fn add_unknown(&mut self, number: u32, unknown: UnknownField)
        requires stored(old(self).fields@, number) is None,
        ensures
            forall|n: u32| n != number ==> #[trigger] opt_get(final(self).fields@, n) == opt_get(old(self).fields@, n),
            match opt_get(final(self).fields@, number) {
                Some(ValueOrUnknown::Unknown(us)) => us.fields@ == (match opt_get(old(self).fields@, number) { Some(ValueOrUnknown::Unknown(u0)) => u0.fields@, _ => Seq::empty() }).push(unknown),
                _ => false,
            },
    { unimplemented!() }
    /// What iteration shows (proved per slot in fields.rs; that every slot is visited once is std's).
    #[verifier::external_body]
    pub fn iter<'a>(&'a self, message: &'a MessageDescriptor, include_default: bool, index_order: bool) -> (r: Vec<ValueAndDescriptor<'a>>)
        ensures !include_default ==> items(r@) == shown(*message, self.fields@, index_order),
    { unimplemented!() }
}
pub ghost enum Item { Field(Value, FieldDescriptor), Extension(Value, ExtensionDescriptor), Unknown(UnknownFieldSet) }
pub open spec fn item(i: ValueAndDescriptor<'_>) -> Item {
    match i { ValueAndDescriptor::Field(v, d) => Item::Field(cow(v), d), ValueAndDescriptor::Extension(v, d) => Item::Extension(cow(v), d), ValueAndDescriptor::Unknown(us) => Item::Unknown(*us) }
}
pub open spec fn items(s: Seq<ValueAndDescriptor<'_>>) -> Seq<Item> { Seq::new(s.len(), |i: int| item(s[i])) }
/// The order of iteration, which depends on nothing else.
pub uninterp spec fn shown(desc: MessageDescriptor, m: Slots, index_order: bool) -> Seq<Item>;
pub uninterp spec fn number_at(desc: MessageDescriptor, m: Slots, index_order: bool, i: int) -> u32;
pub open spec fn shows(desc: MessageDescriptor, m: Slots, n: u32, it: Item) -> bool {
    match it {
        Item::Field(v, d) => desc.s_field(n) == Some(d) && present(m, &d) && v == read(m, &d) && d.s_number() == n,
        Item::Extension(v, d) => desc.s_extension(n) == Some(d) && stored(m, n) == Some(v) && (d.s_presence() || !d.s_is_default(v)),
        Item::Unknown(us) => opt_get(m, n) == Some(ValueOrUnknown::Unknown(us)),
    }
}
pub open spec fn visible(desc: MessageDescriptor, m: Slots, n: u32) -> bool { exists|it: Item| shows(desc, m, n, it) }
/// Every present field, present extension and set of unknown records is shown once.
pub axiom fn shown_once(desc: MessageDescriptor, m: Slots, index_order: bool)
    requires message_desc_ok(desc),
    ensures
        forall|i: int| 0 <= i < shown(desc, m, index_order).len() ==> shows(desc, m, #[trigger] number_at(desc, m, index_order, i), shown(desc, m, index_order)[i]),
        forall|i: int, j: int| 0 <= i < j < shown(desc, m, index_order).len() ==> #[trigger] number_at(desc, m, index_order, i) != #[trigger] number_at(desc, m, index_order, j),
        forall|n: u32| #[trigger] visible(desc, m, n) ==> exists|i: int| 0 <= i < shown(desc, m, index_order).len() && #[trigger] number_at(desc, m, index_order, i) == n;
pub open spec fn part(it: Item) -> Seq<u8> { match it { Item::Field(v, d) => enc(v, &d), Item::Extension(v, d) => enc(v, &d), Item::Unknown(us) => recs(of_set(us)) } }
pub open spec fn parts(is: Seq<Item>) -> Seq<Seq<u8>> { Seq::new(is.len(), |i: int| part(is[i])) }
/// What a message writes.
pub open spec fn written(m: DynamicMessage) -> Seq<u8> { cat(parts(shown(m.desc, m.slots(), false))) }
pub open spec fn item_ok(it: Item) -> bool {
    match it {
        Item::Field(v, d) => desc_ok(&d) && value_ok(v, &d),
        Item::Extension(v, d) => desc_ok(&d) && value_ok(v, &d),
        Item::Unknown(us) => forall|i: int| 0 <= i < of_set(us).len() ==> rec_ok(#[trigger] of_set(us)[i]),
    }
}
proof fn shown_fit(m: DynamicMessage)
    requires m.ok(), written(m).len() <= usize::MAX,
    ensures forall|i: int| 0 <= i < shown(m.desc, m.slots(), false).len() ==> item_ok(#[trigger] shown(m.desc, m.slots(), false)[i]) && part(shown(m.desc, m.slots(), false)[i]).len() <= usize::MAX && cat(parts(shown(m.desc, m.slots(), false)).take(i)).len() + part(shown(m.desc, m.slots(), false)[i]).len() <= usize::MAX,
{
    let s = shown(m.desc, m.slots(), false);
    shown_once(m.desc, m.slots(), false);
    assert forall|i: int| 0 <= i < s.len() implies item_ok(#[trigger] s[i]) && part(s[i]).len() <= usize::MAX && cat(parts(s).take(i)).len() + part(s[i]).len() <= usize::MAX by {
        let n = number_at(m.desc, m.slots(), false, i);
        assert(shows(m.desc, m.slots(), n, s[i]));
        assert(m.desc.s_field(n) is Some || m.desc.s_field(n) is None);
        assert(m.desc.s_extension(n) is Some || m.desc.s_extension(n) is None);
        assert(opt_get(m.slots(), n) is Some || opt_get(m.slots(), n) is None);
        cat_part(parts(s), i);
        assert(parts(s)[i] == part(s[i]));
    }
}
impl DynamicMessage {
    pub open spec fn slots(&self) -> Slots { self.fields.fields@ }
    pub open spec fn ok(&self) -> bool { message_desc_ok(self.desc) && message_ok(self.desc, self.slots()) }
    /// fields.rs
    #[verifier::external_body]
    pub fn get_field_mut(&mut self, field_desc: &FieldDescriptor) -> (r: &mut Value)
        ensures *r == read(old(self).slots(), field_desc), after_store(old(self).slots(), field_desc, *final(r), final(self).slots()), final(self).desc == old(self).desc,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_extension_mut(&mut self, extension_desc: &ExtensionDescriptor) -> (r: &mut Value)
        ensures *r == read(old(self).slots(), extension_desc), after_store(old(self).slots(), extension_desc, *final(r), final(self).slots()), final(self).desc == old(self).desc,
    { unimplemented!() }
//@@ fn prost-reflect/src/dynamic/message.rs Message for DynamicMessage::encode_raw
//@@ spec
    requires self.ok(), written(*self).len() <= usize::MAX,
    ensures final(buf).out() == old(buf).out() + written(*self),
//@@ start
    hide(cat); hide(enc); hide(recs);
    let ghost b0 = buf.out();
    let ghost s = shown(self.desc, self.slots(), false);
    proof { shown_fit(*self); cat_none(); assert(parts(s).take(0) =~= Seq::<Seq<u8>>::empty()); assert(b0 + Seq::<u8>::empty() =~= b0); }
//@@ loop 0 iter it
        invariant
            items(it.seq()) == s, forall|i: int| 0 <= i < s.len() ==> item_ok(#[trigger] s[i]) && part(s[i]).len() <= usize::MAX,
            buf.out() == b0 + cat(parts(s).take(it.index@ as int)),
//@@ in-loop 0
        proof {
            let i = it.index@ as int;
            assert(item(field) == s[i]);
            cat_step(parts(s), i);
            add3(b0, cat(parts(s).take(i)), part(s[i]));
        }
//@@ after-loop 0
    proof { assert(parts(s).take(s.len() as int) =~= parts(s)); }
//@@ end
//@@ fn prost-reflect/src/dynamic/message.rs Message for DynamicMessage::encoded_len
//@@ ret r
//@@ spec
    requires self.ok(), written(*self).len() <= usize::MAX,
    ensures r == written(*self).len(),
//@@ start
    hide(cat); hide(enc); hide(recs);
    let ghost s = shown(self.desc, self.slots(), false);
    proof { shown_fit(*self); cat_none(); assert(parts(s).take(0) =~= Seq::<Seq<u8>>::empty()); }
//@@ loop 0 iter it
        invariant
            items(it.seq()) == s, forall|i: int| 0 <= i < s.len() ==> item_ok(#[trigger] s[i]) && part(s[i]).len() <= usize::MAX && cat(parts(s).take(i)).len() + part(s[i]).len() <= usize::MAX,
            len == cat(parts(s).take(it.index@ as int)).len(),
//@@ in-loop 0
        proof {
            let i = it.index@ as int;
            assert(item(field) == s[i]);
            cat_step(parts(s), i);
        }
//@@ after-loop 0
    proof { assert(parts(s).take(s.len() as int) =~= parts(s)); }
//@@ end
//@@ fn prost-reflect/src/dynamic/message.rs Message for DynamicMessage::merge_field
//@@ ret r
//@@ spec
    requires old(self).ok(), field_number(number),
    ensures
        match message_record(old(self).desc, state(old(self).slots()), number, wire_type, old(buf).rest(), ctx) {
            Some((st, t)) => r is Ok && state(final(self).slots()) =~= st && final(buf).rest() == t && final(self).desc == old(self).desc,
            None => r is Err,
        },
//@@ start
    let ghost s0 = self.slots();
    proof { assert(match self.desc.s_field(number) { Some(d) => field_desc_ok(&d, number), None => true }); assert(match self.desc.s_extension(number) { Some(d) => field_desc_ok(&d, number), None => true }); assert(opt_get(s0, number) is Some || opt_get(s0, number) is None); }
//@@ after? self . fields . add_unknown ( number , field ) ;
    proof {
        of_fields_push(match opt_get(s0, number) { Some(ValueOrUnknown::Unknown(u0)) => u0.fields@, _ => Seq::empty() }, field);
        assert(state(self.slots()) =~= put_unknown(state(s0), number, unknown_at(state(s0), number).push(of_field(field)))) by {
            assert forall|n: u32| #[trigger] state(self.slots())(n) == put_unknown(state(s0), number, unknown_at(state(s0), number).push(of_field(field)))(n) by {
                assert(opt_get(self.slots(), n) is Some || opt_get(self.slots(), n) is None);
            }
        }
    }
//@@ end
}
//@@ include whole.rs
//@@ include local.rs
//@@ include records_local.rs
} // verus!
fn main() {}
