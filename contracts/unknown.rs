//@@ props P04 P01 P02
//@@ include head.rs
//@@ include wire.rs
//@@ include prost.rs

// ---- the code's types
//@@ item prost-reflect/src/dynamic/unknown.rs struct UnknownField
//@@ item prost-reflect/src/dynamic/unknown.rs enum UnknownFieldValue
//@@ item prost-reflect/src/dynamic/unknown.rs struct UnknownFieldSet

//@@ include records.rs
impl Message for UnknownFieldSet {
    open spec fn raw(&self) -> Seq<u8> { recs(of_set(*self)) }
    uninterp spec fn merged(&self, s: Seq<u8>, limit: int, c: DecodeContext) -> Option<(Self, Seq<u8>)>;
    uninterp spec fn merged_group(&self, number: u32, s: Seq<u8>, c: DecodeContext) -> Option<(Self, Seq<u8>)>;
}

// ---- assumed contracts of std and prost
impl DecodeContext {
    #[verifier::external_body]
    fn limit_reached(&self) -> (r: Result<(), DecodeError>) ensures r is Err <==> self.depth() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn enter_recursion(&self) -> (r: DecodeContext) requires self.depth() > 0 ensures r.depth() == self.depth() - 1 { unimplemented!() }
}
pub struct DecodeErrorKind;
#[verifier::external_body]
fn end_group_error() -> DecodeError { unimplemented!() }
#[verifier::external_body]
fn bytes_default() -> (r: Bytes) { unimplemented!() }
#[verifier::external_body]
fn le_bytes8(v: u64) -> (r: [u8; 8]) ensures r@ == le(v as int, 8) { v.to_le_bytes() }
#[verifier::external_body]
fn le_bytes4(v: u32) -> (r: [u8; 4]) ensures r@ == le(v as int, 4) { v.to_le_bytes() }
#[verifier::external_body]
fn unreached<A>() -> A requires false { unimplemented!() }

// ---- the code
impl UnknownField {
//@@ fn prost-reflect/src/dynamic/unknown.rs UnknownField::number
//@@ ret r
//@@ spec
    ensures r == rec_number(of_field(*self)),
//@@ end
//@@ fn prost-reflect/src/dynamic/unknown.rs UnknownField::wire_type
//@@ ret r
//@@ spec
    ensures r == rec_type(of_field(*self)),
//@@ end
//@@ fn prost-reflect/src/dynamic/unknown.rs UnknownField::encode
//@@ spec
    requires rec_ok(of_field(*self)),
    ensures final(buf).out() == old(buf).out() + rec_bytes(of_field(*self)),
//@@ start
    let ghost b0 = buf.out();
    proof {
        let u = of_field(*self);
        assert(b0 + (key(rec_number(u), rec_type(u)) + rec_body(u)) =~= (b0 + key(rec_number(u), rec_type(u))) + rec_body(u));
        if let Rec::Group(n, us) = u { add3(key(n, WireType::StartGroup), recs(us), key(n, WireType::EndGroup)); }
    }
//@@ end
//@@ fn prost-reflect/src/dynamic/unknown.rs UnknownField::encoded_len
//@@ ret r
//@@ spec
    requires rec_ok(of_field(*self)), rec_bytes(of_field(*self)).len() <= usize::MAX,
    ensures r == rec_bytes(of_field(*self)).len(),
//@@ end
//@@ fn prost-reflect/src/dynamic/unknown.rs UnknownField::decode
//@@ ret r
//@@ spec
    ensures match dec_key(old(buf).rest()) {
        Some((n, w, t)) => match dec_body(n, w, t, ctx.depth()) { Some((u, t)) => r is Ok && of_field(r->Ok_0) == u && final(buf).rest() == t, None => r is Err },
        None => r is Err,
    },
//@@ end
//@@ fn prost-reflect/src/dynamic/unknown.rs UnknownField::decode_value
//@@ subst? Bytes :: default ( ) ==>> bytes_default()
//@@ subst? UnknownFieldSet :: default ( ) ==>> UnknownFieldSet { fields: Vec::new() }
//@@ subst? encoding :: group :: merge ( ==>> group_merge(
//@@ subst? UnknownFieldValue :: SixtyFourBit ( value . to_le_bytes ( ) ) ==>> { proof { le_of_fixed64(s0); } UnknownFieldValue::SixtyFourBit(le_bytes8(value)) }
//@@ subst? UnknownFieldValue :: ThirtyTwoBit ( value . to_le_bytes ( ) ) ==>> { proof { le_of_fixed32(s0); } UnknownFieldValue::ThirtyTwoBit(le_bytes4(value)) }
//@@ subst? unreachable ! ( ) ==>> unreached()
//@@ ret r
//@@ spec
    ensures match dec_body(number, wire_type, old(buf).rest(), ctx.depth()) { Some((u, t)) => r is Ok && of_field(r->Ok_0) == u && final(buf).rest() == t, None => r is Err },
    decreases ctx.depth(), 1nat
//@@ start
    let ghost s0 = buf.rest();
//@@ end
}
impl UnknownFieldSet {
//@@ fn prost-reflect/src/dynamic/unknown.rs UnknownFieldSet::is_empty
//@@ ret r
//@@ spec
    ensures r == (of_set(*self).len() == 0),
//@@ start
    proof { of_fields_len(self.fields@); }
//@@ end
//@@ fn prost-reflect/src/dynamic/unknown.rs UnknownFieldSet::insert
//@@ spec
    ensures of_set(*final(self)) == of_set(*old(self)).push(of_field(unknown)), final(self).fields@ == old(self).fields@.push(unknown),
//@@ start
    proof { of_fields_push(self.fields@, unknown); }
//@@ end
//@@ fn prost-reflect/src/dynamic/unknown.rs UnknownFieldSet::encode_raw
//@@ spec
    requires forall|i: int| 0 <= i < of_set(*self).len() ==> rec_ok(#[trigger] of_set(*self)[i]),
    ensures final(buf).out() == old(buf).out() + self.raw(),
//@@ start
    let ghost b0 = buf.out();
    proof { of_fields_len(self.fields@); assert forall|i: int| 0 <= i < self.fields@.len() implies rec_ok(of_field(#[trigger] self.fields@[i])) by { assert(rec_ok(of_set(*self)[i])); } assert(self.fields@.take(0) =~= Seq::<UnknownField>::empty()); assert(recs(of_fields(Seq::<UnknownField>::empty())) =~= Seq::<u8>::empty()); assert(b0 + Seq::<u8>::empty() =~= b0); }
//@@ loop 0 iter it
        invariant
            it.seq().len() == self.fields@.len(), forall|j: int| 0 <= j < it.seq().len() ==> *#[trigger] it.seq()[j] == self.fields@[j],
            forall|i: int| 0 <= i < self.fields@.len() ==> rec_ok(of_field(#[trigger] self.fields@[i])),
            buf.out() == b0 + recs(of_fields(self.fields@.take(it.index@ as int))),
//@@ in-loop 0
        proof { of_fields_step(self.fields@, it.index@ as int); add3(b0, recs(of_fields(self.fields@.take(it.index@ as int))), rec_bytes(of_field(self.fields@[it.index@ as int]))); }
//@@ after-loop 0
    proof { assert(self.fields@.take(self.fields@.len() as int) =~= self.fields@); }
//@@ end
//@@ fn prost-reflect/src/dynamic/unknown.rs UnknownFieldSet::encoded_len
//@@ ret r
//@@ spec
    requires forall|i: int| 0 <= i < of_set(*self).len() ==> rec_ok(#[trigger] of_set(*self)[i]), self.raw().len() <= usize::MAX,
    ensures r == self.raw().len(),
//@@ start
    proof { of_fields_len(self.fields@); assert forall|i: int| 0 <= i < self.fields@.len() implies rec_ok(of_field(#[trigger] self.fields@[i])) by { assert(rec_ok(of_set(*self)[i])); } assert(self.fields@.take(0) =~= Seq::<UnknownField>::empty()); }
//@@ loop 0 iter it
        invariant
            it.seq().len() == self.fields@.len(), forall|j: int| 0 <= j < it.seq().len() ==> *#[trigger] it.seq()[j] == self.fields@[j],
            forall|i: int| 0 <= i < self.fields@.len() ==> rec_ok(of_field(#[trigger] self.fields@[i])),
            len == recs(of_fields(self.fields@.take(it.index@ as int))).len(), self.raw().len() <= usize::MAX,
//@@ in-loop 0
        proof { of_fields_step(self.fields@, it.index@ as int); of_fields_mono(self.fields@, it.index@ + 1); }
//@@ after-loop 0
    proof { assert(self.fields@.take(self.fields@.len() as int) =~= self.fields@); }
//@@ end
//@@ fn prost-reflect/src/dynamic/unknown.rs UnknownFieldSet::merge_field
//@@ ret r
//@@ spec
    ensures match dec_body(number, wire_type, old(buf).rest(), ctx.depth()) { Some((u, t)) => r is Ok && of_set(*final(self)) == of_set(*old(self)).push(u) && final(buf).rest() == t, None => r is Err },
    decreases ctx.depth(), 2nat
//@@ before self . fields . push
    proof { of_fields_push(self.fields@, field); }
//@@ end
}
/// prost's own code, for this message type.
//@@ fn prost:src/encoding.rs group::merge
//@@ sig fn group_merge<B: Buf>(tag: u32, wire_type: WireType, msg: &mut UnknownFieldSet, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
//@@ subst check_wire_type ( ==>> encoding::check_wire_type(
//@@ subst decode_key ( ==>> encoding::decode_key(
//@@ subst M :: merge_field ( msg , ==>> msg.merge_field(
//@@ subst DecodeErrorKind :: UnexpectedEndGroupTag . into ( ) ==>> end_group_error()
//@@ spec
    ensures
        wire_type != WireType::StartGroup || ctx.depth() == 0 ==> r is Err,
        wire_type == WireType::StartGroup && ctx.depth() > 0 ==> match dec_group_rest(of_set(*old(msg)), tag, old(buf).rest(), (ctx.depth() - 1) as nat) {
            Some((us, t)) => r is Ok && of_set(*final(msg)) == us && final(buf).rest() == t,
            None => r is Err,
        },
    decreases ctx.depth(), 0nat
//@@ start
    let ghost s0 = buf.rest();
    let ghost us0 = of_set(*msg);
//@@ loop 0
        invariant
            ctx.depth() > 0, wire_type == WireType::StartGroup, s0 == old(buf).rest(), us0 == of_set(*old(msg)),
            dec_group_rest(us0, tag, s0, (ctx.depth() - 1) as nat) == dec_group_rest(of_set(*msg), tag, buf.rest(), (ctx.depth() - 1) as nat),
        decreases buf.rest().len()
//@@ in-loop 0
        proof {
            varint_shorter(buf.rest(), 0);
            if let Some((n, w, t)) = dec_key(buf.rest()) { body_shorter(n, w, t, (ctx.depth() - 1) as nat); }
        }
//@@ end

} // verus!
fn main() {}
