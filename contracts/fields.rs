//@@ props P05 P06 P04 P07
//@@ include head.rs
//@@ include wire.rs
//@@ include prost.rs
//@@ include value.rs
/// A panic that is never reached.
#[verifier::external_body]
fn unreached<A>() -> A requires false { unimplemented!() }
#[verifier::external_body]
fn must(b: bool) requires b { unimplemented!() }
//@@ include btree.rs

// ---- the code's types
//@@ item prost-reflect/src/dynamic/unknown.rs struct UnknownField
//@@ item prost-reflect/src/dynamic/unknown.rs enum UnknownFieldValue
//@@ item prost-reflect/src/dynamic/unknown.rs struct UnknownFieldSet
//@@ item prost-reflect/src/dynamic/fields.rs struct DynamicMessageFieldSet
//@@ item prost-reflect/src/dynamic/fields.rs enum ValueOrUnknown
//@@ item prost-reflect/src/dynamic/fields.rs enum ValueAndDescriptor
/// std::borrow::Cow
pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
pub open spec fn cow<T>(c: Cow<'_, T>) -> T { match c { Cow::Borrowed(v) => *v, Cow::Owned(v) => v } }
//@@ include extension.rs
impl OneofDescriptor {
    pub uninterp spec fn s_fields(&self) -> Seq<FieldDescriptor>;
    #[verifier::external_body]
    pub fn fields(&self) -> (r: Vec<FieldDescriptor>) ensures r@ == self.s_fields() { unimplemented!() }
}

//@@ include slots.rs
/// P06: at most one member of the oneof is stored.
pub open spec fn exclusive(m: Slots, o: OneofDescriptor) -> bool {
    forall|a: u32, b: u32| member(o, a) && member(o, b) && #[trigger] stored(m, a) is Some && #[trigger] stored(m, b) is Some ==> a == b
}
/// The descriptor belongs to the oneof exactly when its number does.
pub open spec fn consistent<D: FieldDescriptorLike>(d: &D, o: OneofDescriptor) -> bool { member(o, d.s_number()) <==> d.s_oneof() == Some(o) }
/// P06: storing keeps every oneof exclusive, and what is stored is the field's member.
pub proof fn store_keeps_exclusive<D: FieldDescriptorLike>(m: Slots, d: &D, v: Value, r: Slots, o: OneofDescriptor)
    requires exclusive(m, o), consistent(d, o), after_store(m, d, v, r),
    ensures exclusive(r, o), stored(r, d.s_number()) == Some(v), d.s_oneof() == Some(o) ==> forall|n: u32| member(o, n) && n != d.s_number() ==> (#[trigger] stored(r, n)) is None,
{
    assert(forall|n: u32| opt_get(r, n) == (if n == d.s_number() { Some(ValueOrUnknown::Value(v)) } else if siblings(d).contains(n) { None } else { opt_get(m, n) }));
    assert forall|a: u32, b: u32| member(o, a) && member(o, b) && #[trigger] stored(r, a) is Some && #[trigger] stored(r, b) is Some implies a == b by {
        assert(opt_get(r, a) is Some && opt_get(r, b) is Some);
        if a != d.s_number() && b != d.s_number() { assert(stored(m, a) is Some && stored(m, b) is Some); }
    }
}
/// P06: removing keeps every oneof exclusive.
pub proof fn removal_keeps_exclusive(m: Slots, s: ISet<u32>, r: Slots, o: OneofDescriptor)
    requires exclusive(m, o), without(m, s, r),
    ensures exclusive(r, o),
{
    assert forall|a: u32, b: u32| member(o, a) && member(o, b) && #[trigger] stored(r, a) is Some && #[trigger] stored(r, b) is Some implies a == b by {
        assert(opt_get(r, a) is Some && opt_get(r, b) is Some);
        assert(stored(m, a) is Some && stored(m, b) is Some);
    }
}
/// P05: reading after storing; other fields keep what they had.
pub proof fn read_after_store<D: FieldDescriptorLike, E: FieldDescriptorLike>(m: Slots, d: &D, v: Value, r: Slots, other: &E)
    requires after_store(m, d, v, r), other.s_number() != d.s_number(), !siblings(d).contains(other.s_number()),
    ensures read(r, d) == v, present(r, d) == (d.s_presence() || !d.s_is_default(v)), read(r, other) == read(m, other), present(r, other) == present(m, other), opt_get(r, other.s_number()) == opt_get(m, other.s_number()),
{
    assert(opt_get(r, d.s_number()) is Some);
    assert(opt_get(r, other.s_number()) == opt_get(m, other.s_number()));
}

proof fn store_after_clearing<D: FieldDescriptorLike>(m0: Slots, m1: Slots, d: &D)
    requires without(m0, siblings(d), m1),
    ensures forall|v: Value| after_store(m0, d, v, #[trigger] m1.insert(d.s_number(), ValueOrUnknown::Value(v))),
{
    assert forall|v: Value| after_store(m0, d, v, #[trigger] m1.insert(d.s_number(), ValueOrUnknown::Value(v))) by {
        let r = m1.insert(d.s_number(), ValueOrUnknown::Value(v));
        assert forall|n: u32| #[trigger] opt_get(r, n) == (if n == d.s_number() { Some(ValueOrUnknown::Value(v)) } else if siblings(d).contains(n) { None } else { opt_get(m0, n) }) by {
            assert(opt_get(m1, n) == (if siblings(d).contains(n) { None } else { opt_get(m0, n) }));
        }
    }
}
// ---- the code
impl UnknownFieldSet {
//@@ fn prost-reflect/src/dynamic/unknown.rs UnknownFieldSet::insert
//@@ spec
    ensures final(self).fields@ == old(self).fields@.push(unknown),
//@@ end
    /// `from_iter([unknown])`
    #[verifier::external_body]
    fn one(unknown: UnknownField) -> (r: Self) ensures r.fields@ == seq![unknown] { unimplemented!() }
}
impl ValueOrUnknown {
//@@ fn prost-reflect/src/dynamic/fields.rs ValueOrUnknown::unwrap_value_mut
//@@ subst unreachable ! ( ) ==>> unreached()
//@@ ret r
//@@ spec
    requires *old(self) is Value,
    ensures *old(self) == ValueOrUnknown::Value(*r), *final(self) == ValueOrUnknown::Value(*final(r)),
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs ValueOrUnknown::unwrap_value
//@@ subst unreachable ! ( ) ==>> unreached()
//@@ ret r
//@@ spec
    requires self is Value,
    ensures self == ValueOrUnknown::Value(r),
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs ValueOrUnknown::unwrap_unknown
//@@ subst unreachable ! ( ) ==>> unreached()
//@@ ret r
//@@ spec
    requires self is Unknown,
    ensures self == ValueOrUnknown::Unknown(r),
//@@ end
}
impl DynamicMessageFieldSet {
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::get_value
//@@ ret r
//@@ spec
    ensures match r { Some(v) => stored(self.fields@, number) == Some(*v), None => stored(self.fields@, number) is None },
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::has
//@@ subst? | value | desc . has ( value ) ==>> |value: &Value| -> (o: bool) ensures o == (desc.s_presence() || !desc.s_is_default(*value)) { desc.has(value) }
//@@ ret r
//@@ spec
    ensures r == present(self.fields@, desc),
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::get
//@@ ret r
//@@ spec
    ensures cow(r) == read(self.fields@, desc),
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::get_mut
//@@ ret r
//@@ spec
    ensures *r == read(old(self).fields@, desc), after_store(old(self).fields@, desc, *final(r), final(self).fields@),
//@@ start
    let ghost m0 = self.fields@;
//@@ after? self . clear_oneof_fields ( desc ) ;
        proof { if without(m0, siblings(desc), self.fields@) { assert(opt_get(self.fields@, desc.s_number()) == opt_get(m0, desc.s_number())); store_after_clearing(m0, self.fields@, desc); } }
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::set
//@@ subst? debug_assert ! ( $c:e , $m:e , ) ==>> must($c)
//@@ subst? debug_assert ! ( $c:e , $m:e ) ==>> must($c)
//@@ subst? debug_assert ! ( $c:e ) ==>> must($c)
//@@ spec
    requires desc.s_valid(value),
    ensures after_store(old(self).fields@, desc, value, final(self).fields@),
//@@ start
    let ghost m0 = self.fields@;
//@@ after? self . clear_oneof_fields ( desc ) ;
        proof { if without(m0, siblings(desc), self.fields@) { store_after_clearing(m0, self.fields@, desc); } }
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::clear_oneof_fields
//@@ spec
    ensures without(old(self).fields@, siblings(desc), final(self).fields@),
//@@ start
    let ghost m0 = self.fields@;
//@@ loop 0 iter it
        invariant
            it.seq() == oneof_desc.s_fields(), desc.s_oneof() == Some(oneof_desc), m0 == old(self).fields@,
            forall|n: u32| #[trigger] opt_get(self.fields@, n) == (if n != desc.s_number() && exists|i: int| 0 <= i < it.index@ && #[trigger] oneof_desc.s_fields()[i].s_number() == n { None } else { opt_get(m0, n) }),
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::add_unknown
//@@ subst? UnknownFieldSet :: from_iter ( [ $u:e ] ) ==>> UnknownFieldSet::one($u)
//@@ subst? UnknownFieldSet :: from_iter ( [ $u:e , ] ) ==>> UnknownFieldSet::one($u)
//@@ subst panic ! $m:tt ==>> unreached()
//@@ spec
    requires stored(old(self).fields@, number) is None,
    ensures
        forall|n: u32| n != number ==> #[trigger] opt_get(final(self).fields@, n) == opt_get(old(self).fields@, n),
        match opt_get(final(self).fields@, number) {
            Some(ValueOrUnknown::Unknown(us)) => us.fields@ == (match opt_get(old(self).fields@, number) { Some(ValueOrUnknown::Unknown(u0)) => u0.fields@, _ => Seq::empty() }).push(unknown),
            _ => false,
        },
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::clear
//@@ spec
    ensures final(self).fields@ == old(self).fields@.remove(desc.s_number()), without(old(self).fields@, iset![desc.s_number()], final(self).fields@),
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::take
//@@ ret r
//@@ spec
    ensures
        final(self).fields@ == old(self).fields@.remove(desc.s_number()), !present(final(self).fields@, desc),
        r == (if present(old(self).fields@, desc) { stored(old(self).fields@, desc.s_number()) } else { None }),
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::clear_all
//@@ spec
    ensures final(self).fields@ == Slots::empty(),
//@@ end
}

// What iteration does with one slot. The adaptors around it (every slot in order of number, filter_map) are std's.
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::iter_fields
//@@ sig fn iter_fields_step<'a>(number: u32, value: &'a ValueOrUnknown, message: &'a MessageDescriptor) -> (r: Option<(FieldDescriptor, &'a Value)>)
//@@ subst self . fields . iter ( ) . filter_map ( move | ( & number , value ) | $b:tt ) ==>> $b
//@@ spec
    ensures
        match r {
            Some((d, v)) => *value is Value && message.s_field(number) is Some && (message.s_field(number)->Some_0.s_presence() || !message.s_field(number)->Some_0.s_is_default((*value)->Value_0)) && Some(d) == message.s_field(number) && *v == (*value)->Value_0,
            None => !(*value is Value && message.s_field(number) is Some && (message.s_field(number)->Some_0.s_presence() || !message.s_field(number)->Some_0.s_is_default((*value)->Value_0))),
        },
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::iter_extensions
//@@ sig fn iter_extensions_step<'a>(number: u32, value: &'a ValueOrUnknown, message: &'a MessageDescriptor) -> (r: Option<(ExtensionDescriptor, &'a Value)>)
//@@ subst self . fields . iter ( ) . filter_map ( move | ( & number , value ) | $b:tt ) ==>> $b
//@@ spec
    ensures
        match r {
            Some((d, v)) => *value is Value && message.s_extension(number) is Some && (message.s_extension(number)->Some_0.s_presence() || !message.s_extension(number)->Some_0.s_is_default((*value)->Value_0)) && Some(d) == message.s_extension(number) && *v == (*value)->Value_0,
            None => !(*value is Value && message.s_extension(number) is Some && (message.s_extension(number)->Some_0.s_presence() || !message.s_extension(number)->Some_0.s_is_default((*value)->Value_0))),
        },
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::iter_fields_mut
//@@ sig fn iter_fields_mut_step<'a>(number: u32, value: &'a mut ValueOrUnknown, message: &'a MessageDescriptor) -> (r: Option<(FieldDescriptor, &'a mut Value)>)
//@@ subst self . fields . iter_mut ( ) . filter_map ( move | ( & number , value ) | $b:tt ) ==>> $b
//@@ spec
    ensures
        match r {
            Some((d, v)) => *old(value) is Value && message.s_field(number) is Some && (message.s_field(number)->Some_0.s_presence() || !message.s_field(number)->Some_0.s_is_default((*old(value))->Value_0)) && Some(d) == message.s_field(number) && *v == (*old(value))->Value_0 && *final(value) == ValueOrUnknown::Value(*final(v)),
            None => !(*old(value) is Value && message.s_field(number) is Some && (message.s_field(number)->Some_0.s_presence() || !message.s_field(number)->Some_0.s_is_default((*old(value))->Value_0))) && *final(value) == *old(value),
        },
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::iter_extensions_mut
//@@ sig fn iter_extensions_mut_step<'a>(number: u32, value: &'a mut ValueOrUnknown, message: &'a MessageDescriptor) -> (r: Option<(ExtensionDescriptor, &'a mut Value)>)
//@@ subst self . fields . iter_mut ( ) . filter_map ( move | ( & number , value ) | $b:tt ) ==>> $b
//@@ spec
    ensures
        match r {
            Some((d, v)) => *old(value) is Value && message.s_extension(number) is Some && (message.s_extension(number)->Some_0.s_presence() || !message.s_extension(number)->Some_0.s_is_default((*old(value))->Value_0)) && Some(d) == message.s_extension(number) && *v == (*old(value))->Value_0 && *final(value) == ValueOrUnknown::Value(*final(v)),
            None => !(*old(value) is Value && message.s_extension(number) is Some && (message.s_extension(number)->Some_0.s_presence() || !message.s_extension(number)->Some_0.s_is_default((*old(value))->Value_0))) && *final(value) == *old(value),
        },
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::take_fields
//@@ sig fn take_fields_step<'a>(number: u32, value_or_unknown: &'a mut ValueOrUnknown, message: &'a MessageDescriptor) -> (r: Option<(FieldDescriptor, Value)>)
//@@ subst self . fields . iter_mut ( ) . filter_map ( move | ( & number , value_or_unknown ) | $b:tt ) ==>> $b
//@@ spec
    ensures
        match r {
            Some((d, v)) => *old(value_or_unknown) is Value && message.s_field(number) is Some && (message.s_field(number)->Some_0.s_presence() || !message.s_field(number)->Some_0.s_is_default((*old(value_or_unknown))->Value_0)) && Some(d) == message.s_field(number) && v == (*old(value_or_unknown))->Value_0 && *final(value_or_unknown) is Taken,
            None => !(*old(value_or_unknown) is Value && message.s_field(number) is Some && (message.s_field(number)->Some_0.s_presence() || !message.s_field(number)->Some_0.s_is_default((*old(value_or_unknown))->Value_0))) && *final(value_or_unknown) == *old(value_or_unknown),
        },
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::take_extensions
//@@ sig fn take_extensions_step<'a>(number: u32, value_or_unknown: &'a mut ValueOrUnknown, message: &'a MessageDescriptor) -> (r: Option<(ExtensionDescriptor, Value)>)
//@@ subst self . fields . iter_mut ( ) . filter_map ( move | ( & number , value_or_unknown ) | $b:tt ) ==>> $b
//@@ spec
    ensures
        match r {
            Some((d, v)) => *old(value_or_unknown) is Value && message.s_extension(number) is Some && (message.s_extension(number)->Some_0.s_presence() || !message.s_extension(number)->Some_0.s_is_default((*old(value_or_unknown))->Value_0)) && Some(d) == message.s_extension(number) && v == (*old(value_or_unknown))->Value_0 && *final(value_or_unknown) is Taken,
            None => !(*old(value_or_unknown) is Value && message.s_extension(number) is Some && (message.s_extension(number)->Some_0.s_presence() || !message.s_extension(number)->Some_0.s_is_default((*old(value_or_unknown))->Value_0))) && *final(value_or_unknown) == *old(value_or_unknown),
        },
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::iter_unknown
//@@ sig fn iter_unknown_step<'a>(value: &'a ValueOrUnknown) -> (r: &'a [UnknownField])
//@@ subst self . fields . values ( ) . flat_map ( move | value | $b ) ==>> $b
//@@ subst [ ] . iter ( ) ==>> nothing()
//@@ subst unknowns . iter ( ) ==>> unknowns.fields.as_slice()
//@@ spec
    ensures r@ == (match *value { ValueOrUnknown::Unknown(us) => us.fields@, _ => Seq::empty() }),
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::take_unknown
//@@ sig fn take_unknown_step(value_or_unknown: &mut ValueOrUnknown) -> (r: Vec<UnknownField>)
//@@ subst self . fields . values_mut ( ) . flat_map ( move | value_or_unknown | $b ) ==>> $b
//@@ subst . unwrap_unknown ( ) . into_iter ( ) ==>> .unwrap_unknown().fields
//@@ subst vec ! [ ] . into_iter ( ) ==>> Vec::new()
//@@ spec
    ensures
        r@ == (match *old(value_or_unknown) { ValueOrUnknown::Unknown(us) => us.fields@, _ => Seq::empty() }),
        *final(value_or_unknown) == (if *old(value_or_unknown) is Unknown { ValueOrUnknown::Taken } else { *old(value_or_unknown) }),
//@@ end
impl DynamicMessageFieldSet {
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::iter
//@@ sig fn iter_keeps<'a>(&'a self, f: &FieldDescriptor, include_default: bool) -> (r: bool)
//@@ subst let field_descriptors = $x ; let fields = field_descriptors . filter ( move | f | $b:tt ) . map $m:tt ; let extensions_unknowns = $y ; fields . chain ( extensions_unknowns ) ==>> $b
//@@ spec
    ensures r == (present(self.fields@, f) || include_default && !f.s_presence()),
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::iter
//@@ sig fn iter_item<'a>(&'a self, f: FieldDescriptor) -> (r: ValueAndDescriptor<'a>)
//@@ subst let field_descriptors = $x ; let fields = field_descriptors . filter $m:tt . map ( | f | $b ) ; let extensions_unknowns = $y ; fields . chain ( extensions_unknowns ) ==>> $b
//@@ spec
    ensures match r { ValueAndDescriptor::Field(v, d) => cow(v) == read(self.fields@, &f) && d == f, _ => false },
//@@ end
//@@ fn prost-reflect/src/dynamic/fields.rs DynamicMessageFieldSet::iter
//@@ sig fn iter_extension_item<'a>(number: u32, value: &'a ValueOrUnknown, message: &'a MessageDescriptor) -> (r: Option<ValueAndDescriptor<'a>>)
//@@ subst let field_descriptors = $x ; let fields = $f ; let extensions_unknowns = self . fields . iter ( ) . filter_map ( move | ( & number , value ) | $b ) ; fields . chain ( extensions_unknowns ) ==>> $b
//@@ spec
    ensures match r {
        Some(ValueAndDescriptor::Extension(v, d)) => *value is Value && cow(v) == value->Value_0 && message.s_extension(number) == Some(d) && (d.s_presence() || !d.s_is_default(value->Value_0)),
        Some(ValueAndDescriptor::Unknown(u)) => *value is Unknown && *u == value->Unknown_0,
        Some(ValueAndDescriptor::Field(..)) => false,
        None => match *value { ValueOrUnknown::Value(v) => match message.s_extension(number) { Some(d) => !(d.s_presence() || !d.s_is_default(v)), None => true }, ValueOrUnknown::Unknown(_) => false, ValueOrUnknown::Taken => true },
    },
//@@ end
}
// ---- DynamicMessage
//@@ item prost-reflect/src/dynamic/mod.rs struct DynamicMessage
//@@ item prost-reflect/src/dynamic/mod.rs enum SetFieldError
impl Clone for FieldDescriptor { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl MessageDescriptor {
    pub uninterp spec fn s_named(&self, name: Seq<char>) -> Option<FieldDescriptor>;
    #[verifier::external_body]
    pub fn get_field_by_name(&self, name: &str) -> (r: Option<FieldDescriptor>) ensures r == self.s_named(name@) { unimplemented!() }
}
impl Value {
    /// proved in valid.rs
    #[verifier::external_body]
    pub fn is_valid_for_field(&self, field_desc: &FieldDescriptor) -> (r: bool) ensures r == field_desc.s_valid(*self) { unimplemented!() }
}
/// `unwrap` of a result that is always Ok
#[verifier::external_body]
fn unwrap_ok(r: Result<(), SetFieldError>) requires r is Ok { unimplemented!() }
impl DynamicMessage {
    pub open spec fn slots(&self) -> Slots { self.fields.fields@ }
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::new
//@@ subst? DynamicMessageFieldSet :: default ( ) ==>> DynamicMessageFieldSet::none()
//@@ ret r
//@@ spec
    ensures r.desc == desc, r.slots() == Slots::empty(),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::has_field
//@@ ret r
//@@ spec
    ensures r == present(self.slots(), field_desc),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::get_field
//@@ ret r
//@@ spec
    ensures cow(r) == read(self.slots(), field_desc),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::get_field_mut
//@@ ret r
//@@ spec
    ensures *r == read(old(self).slots(), field_desc), after_store(old(self).slots(), field_desc, *final(r), final(self).slots()), final(self).desc == old(self).desc,
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::try_set_field
//@@ ret r
//@@ spec
    ensures
        final(self).desc == old(self).desc,
        field_desc.s_valid(value) ==> r is Ok && after_store(old(self).slots(), field_desc, value, final(self).slots()),
        !field_desc.s_valid(value) ==> *final(self) == *old(self) && r == Err::<(), SetFieldError>(SetFieldError::InvalidType { field: *field_desc, value }),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::set_field
//@@ subst self . try_set_field ( field_desc , value ) . unwrap ( ) ==>> unwrap_ok(self.try_set_field(field_desc, value))
//@@ ret r
//@@ spec
    requires field_desc.s_valid(value),
    ensures after_store(old(self).slots(), field_desc, value, final(self).slots()), final(self).desc == old(self).desc,
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::clear_field
//@@ ret r
//@@ spec
    ensures final(self).slots() == old(self).slots().remove(field_desc.s_number()), final(self).desc == old(self).desc,
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::take_field
//@@ ret r
//@@ spec
    ensures
        final(self).slots() == old(self).slots().remove(field_desc.s_number()), final(self).desc == old(self).desc,
        r == (if present(old(self).slots(), field_desc) { stored(old(self).slots(), field_desc.s_number()) } else { None }),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::has_extension
//@@ ret r
//@@ spec
    ensures r == present(self.slots(), extension_desc),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::get_extension
//@@ ret r
//@@ spec
    ensures cow(r) == read(self.slots(), extension_desc),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::get_extension_mut
//@@ ret r
//@@ spec
    ensures *r == read(old(self).slots(), extension_desc), after_store(old(self).slots(), extension_desc, *final(r), final(self).slots()), final(self).desc == old(self).desc,
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::set_extension
//@@ ret r
//@@ spec
    requires extension_desc.s_valid(value),
    ensures after_store(old(self).slots(), extension_desc, value, final(self).slots()), final(self).desc == old(self).desc,
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::clear_extension
//@@ ret r
//@@ spec
    ensures final(self).slots() == old(self).slots().remove(extension_desc.s_number()), final(self).desc == old(self).desc,
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::take_extension
//@@ ret r
//@@ spec
    ensures
        final(self).slots() == old(self).slots().remove(extension_desc.s_number()), final(self).desc == old(self).desc,
        r == (if present(old(self).slots(), extension_desc) { stored(old(self).slots(), extension_desc.s_number()) } else { None }),
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::has_field_by_number
//@@ subst? self . desc . $g:id ( $a:e ) . map ( | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => Some($b), None => None }
//@@ subst? self . desc . $g:id ( $a:e ) . map ( move | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => Some($b), None => None }
//@@ subst? self . desc . $g:id ( $a:e ) . is_some_and ( | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => $b, None => false }
//@@ ret r
//@@ spec
    ensures r == match self.desc.s_field(number) { Some(d) => present(self.slots(), &d), None => false },
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::get_field_by_number
//@@ subst? self . desc . $g:id ( $a:e ) . map ( | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => Some($b), None => None }
//@@ subst? self . desc . $g:id ( $a:e ) . map ( move | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => Some($b), None => None }
//@@ subst? self . desc . $g:id ( $a:e ) . is_some_and ( | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => $b, None => false }
//@@ ret r
//@@ spec
    ensures match self.desc.s_field(number) { Some(d) => r is Some && cow(r->Some_0) == read(self.slots(), &d), None => r is None },
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::get_field_by_number_mut
//@@ subst? self . desc . $g:id ( $a:e ) . map ( | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => Some($b), None => None }
//@@ subst? self . desc . $g:id ( $a:e ) . map ( move | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => Some($b), None => None }
//@@ subst? self . desc . $g:id ( $a:e ) . is_some_and ( | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => $b, None => false }
//@@ ret r
//@@ spec
    ensures match old(self).desc.s_field(number) { Some(d) => r is Some && *r->Some_0 == read(old(self).slots(), &d) && after_store(old(self).slots(), &d, *final(r->Some_0), final(self).slots()) && final(self).desc == old(self).desc, None => r is None && *final(self) == *old(self) },
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::set_field_by_number
//@@ ret r
//@@ spec
    requires old(self).desc.s_field(number) is Some ==> old(self).desc.s_field(number)->Some_0.s_valid(value),
    ensures match old(self).desc.s_field(number) { Some(d) => after_store(old(self).slots(), &d, value, final(self).slots()) && final(self).desc == old(self).desc, None => *final(self) == *old(self) },
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::try_set_field_by_number
//@@ ret r
//@@ spec
    ensures match old(self).desc.s_field(number) {
        Some(d) => (d.s_valid(value) ==> r is Ok && after_store(old(self).slots(), &d, value, final(self).slots())) && (!d.s_valid(value) ==> *final(self) == *old(self) && r == Err::<(), SetFieldError>(SetFieldError::InvalidType { field: d, value })),
        None => *final(self) == *old(self) && r == Err::<(), SetFieldError>(SetFieldError::NotFound),
    },
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::clear_field_by_number
//@@ ret r
//@@ spec
    ensures match old(self).desc.s_field(number) { Some(d) => final(self).slots() == old(self).slots().remove(d.s_number()), None => *final(self) == *old(self) },
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::take_field_by_number
//@@ ret r
//@@ spec
    ensures match old(self).desc.s_field(number) { Some(d) => final(self).slots() == old(self).slots().remove(d.s_number()) && r == (if present(old(self).slots(), &d) { stored(old(self).slots(), d.s_number()) } else { None }), None => r is None && *final(self) == *old(self) },
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::has_field_by_name
//@@ subst? self . desc . $g:id ( $a:e ) . map ( | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => Some($b), None => None }
//@@ subst? self . desc . $g:id ( $a:e ) . map ( move | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => Some($b), None => None }
//@@ subst? self . desc . $g:id ( $a:e ) . is_some_and ( | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => $b, None => false }
//@@ ret r
//@@ spec
    ensures r == match self.desc.s_named(name@) { Some(d) => present(self.slots(), &d), None => false },
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::get_field_by_name
//@@ subst? self . desc . $g:id ( $a:e ) . map ( | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => Some($b), None => None }
//@@ subst? self . desc . $g:id ( $a:e ) . map ( move | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => Some($b), None => None }
//@@ subst? self . desc . $g:id ( $a:e ) . is_some_and ( | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => $b, None => false }
//@@ ret r
//@@ spec
    ensures match self.desc.s_named(name@) { Some(d) => r is Some && cow(r->Some_0) == read(self.slots(), &d), None => r is None },
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::get_field_by_name_mut
//@@ subst? self . desc . $g:id ( $a:e ) . map ( | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => Some($b), None => None }
//@@ subst? self . desc . $g:id ( $a:e ) . map ( move | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => Some($b), None => None }
//@@ subst? self . desc . $g:id ( $a:e ) . is_some_and ( | field_desc | $b ) ==>> match self.desc.$g($a) { Some(field_desc) => $b, None => false }
//@@ ret r
//@@ spec
    ensures match old(self).desc.s_named(name@) { Some(d) => r is Some && *r->Some_0 == read(old(self).slots(), &d) && after_store(old(self).slots(), &d, *final(r->Some_0), final(self).slots()) && final(self).desc == old(self).desc, None => r is None && *final(self) == *old(self) },
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::set_field_by_name
//@@ ret r
//@@ spec
    requires old(self).desc.s_named(name@) is Some ==> old(self).desc.s_named(name@)->Some_0.s_valid(value),
    ensures match old(self).desc.s_named(name@) { Some(d) => after_store(old(self).slots(), &d, value, final(self).slots()) && final(self).desc == old(self).desc, None => *final(self) == *old(self) },
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::try_set_field_by_name
//@@ ret r
//@@ spec
    ensures match old(self).desc.s_named(name@) {
        Some(d) => (d.s_valid(value) ==> r is Ok && after_store(old(self).slots(), &d, value, final(self).slots())) && (!d.s_valid(value) ==> *final(self) == *old(self) && r == Err::<(), SetFieldError>(SetFieldError::InvalidType { field: d, value })),
        None => *final(self) == *old(self) && r == Err::<(), SetFieldError>(SetFieldError::NotFound),
    },
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::clear_field_by_name
//@@ ret r
//@@ spec
    ensures match old(self).desc.s_named(name@) { Some(d) => final(self).slots() == old(self).slots().remove(d.s_number()), None => *final(self) == *old(self) },
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs DynamicMessage::take_field_by_name
//@@ ret r
//@@ spec
    ensures match old(self).desc.s_named(name@) { Some(d) => final(self).slots() == old(self).slots().remove(d.s_number()) && r == (if present(old(self).slots(), &d) { stored(old(self).slots(), d.s_number()) } else { None }), None => r is None && *final(self) == *old(self) },
//@@ end
}
impl DynamicMessageFieldSet {
    /// `default()`: no slots
    #[verifier::external_body]
    fn none() -> (r: Self) ensures r.fields@ == Slots::empty() { unimplemented!() }
}
#[verifier::external_body]
fn nothing<'a>() -> (r: &'a [UnknownField]) ensures r@.len() == 0 { &[] }
#[verifier::external_body]
fn replace<T>(dest: &mut T, src: T) -> (r: T) ensures r == *old(dest), *final(dest) == src { std::mem::replace(dest, src) }

} // verus!
fn main() {}
