use vstd::utf8::*;
use vstd::string::*;
pub open spec fn dec_bool(s: Seq<u8>) -> Option<(bool, Seq<u8>)> { match dec_varint(s) { Some((v, t)) => Some((v != 0, t)), None => None } }
pub open spec fn dec_int32(s: Seq<u8>) -> Option<(i32, Seq<u8>)> { match dec_varint(s) { Some((v, t)) => Some((signed32(low32(v)), t)), None => None } }
pub open spec fn dec_int64(s: Seq<u8>) -> Option<(i64, Seq<u8>)> { match dec_varint(s) { Some((v, t)) => Some((signed64(v), t)), None => None } }
pub open spec fn dec_uint32(s: Seq<u8>) -> Option<(u32, Seq<u8>)> { match dec_varint(s) { Some((v, t)) => Some((low32(v), t)), None => None } }
pub open spec fn dec_sint32(s: Seq<u8>) -> Option<(i32, Seq<u8>)> { match dec_varint(s) { Some((v, t)) => Some((unzigzag(low32(v) as int) as i32, t)), None => None } }
pub open spec fn dec_sint64(s: Seq<u8>) -> Option<(i64, Seq<u8>)> { match dec_varint(s) { Some((v, t)) => Some((unzigzag(v as int) as i64, t)), None => None } }
pub open spec fn dec_fixed32(s: Seq<u8>) -> Option<(u32, Seq<u8>)> { if s.len() >= 4 { Some((unle(s, 4) as u32, s.skip(4))) } else { None } }
pub open spec fn dec_fixed64(s: Seq<u8>) -> Option<(u64, Seq<u8>)> { if s.len() >= 8 { Some((unle(s, 8) as u64, s.skip(8))) } else { None } }
pub open spec fn dec_sfixed32(s: Seq<u8>) -> Option<(i32, Seq<u8>)> { match dec_fixed32(s) { Some((v, t)) => Some((signed32(v), t)), None => None } }
pub open spec fn dec_sfixed64(s: Seq<u8>) -> Option<(i64, Seq<u8>)> { match dec_fixed64(s) { Some((v, t)) => Some((signed64(v), t)), None => None } }
pub open spec fn dec_float(s: Seq<u8>) -> Option<(f32, Seq<u8>)> { match dec_fixed32(s) { Some((v, t)) => Some((f32_of(v), t)), None => None } }
pub open spec fn dec_double(s: Seq<u8>) -> Option<(f64, Seq<u8>)> { match dec_fixed64(s) { Some((v, t)) => Some((f64_of(v), t)), None => None } }
pub open spec fn dec_message<M: Message>(m: M, w: WireType, s: Seq<u8>, c: DecodeContext) -> Option<(M, Seq<u8>)> {
    if w != WireType::LengthDelimited || c.depth() == 0 { None } else {
        match dec_delimited(s) { Some((b, t)) => match m.merged(b + t, t.len() as int, inner_ctx(c)) { Some((n, u)) => if u == t { Some((n, t)) } else { None }, None => None }, None => None }
    }
}
pub open spec fn dec_group<M: Message>(m: M, tag: u32, w: WireType, s: Seq<u8>, c: DecodeContext) -> Option<(M, Seq<u8>)> {
    if w != WireType::StartGroup || c.depth() == 0 { None } else { m.merged_group(tag, s, inner_ctx(c)) }
}
// ---- prost and bytes (assumed contracts)

/// Bytes are a sequence of bytes; clones are equal.
#[verifier::external_body]
pub struct Bytes { b: Vec<u8> }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
/// Bytes and strings are determined by their contents, which fit in memory.
pub broadcast axiom fn bytes_ext(a: Bytes, b: Bytes) ensures #![trigger a@, b@] a@ =~= b@ ==> a == b, a@.len() <= usize::MAX;
pub broadcast axiom fn bytes_fit(a: Bytes) ensures #[trigger] a@.len() <= usize::MAX;
pub broadcast axiom fn string_ext(a: String, b: String) ensures #![trigger a@, b@] a@ =~= b@ ==> a == b;
pub broadcast axiom fn string_fits(a: String) ensures #[trigger] encode_utf8(a@).len() <= usize::MAX;

/// Room in a buffer is not modelled.
pub trait BufMut {
    spec fn out(&self) -> Seq<u8>;
    fn put_slice(&mut self, s: &[u8]) ensures final(self).out() == old(self).out() + s@;
    fn put_u32_le(&mut self, v: u32) ensures final(self).out() == old(self).out() + le(v as int, 4);
    fn put_u64_le(&mut self, v: u64) ensures final(self).out() == old(self).out() + le(v as int, 8);
    fn put_i32_le(&mut self, v: i32) ensures final(self).out() == old(self).out() + le(wrap32(v as int) as int, 4);
    fn put_i64_le(&mut self, v: i64) ensures final(self).out() == old(self).out() + le(wrap64(v as int) as int, 8);
    fn put_f32_le(&mut self, v: f32) ensures final(self).out() == old(self).out() + le(f32_bits(v) as int, 4);
    fn put_f64_le(&mut self, v: f64) ensures final(self).out() == old(self).out() + le(f64_bits(v) as int, 8);
}
/// What is left to read.
pub trait Buf {
    spec fn rest(&self) -> Seq<u8>;
    fn remaining(&self) -> (r: usize) ensures r == self.rest().len();
}
#[verifier::external_body]
pub struct DecodeError { e: u8 }
#[verifier::external_body]
pub struct DecodeContext { c: u32 }
impl DecodeContext { pub uninterp spec fn depth(&self) -> nat; }
impl Clone for DecodeContext {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// The context inside a nested message.
pub uninterp spec fn inner_ctx(c: DecodeContext) -> DecodeContext;

/// prost::Message: what an implementation writes, and what it becomes by merging fields.
pub trait Message: Sized {
    spec fn raw(&self) -> Seq<u8>;
    /// the message after merging the fields in s up to a remainder of `limit` bytes, and what follows
    spec fn merged(&self, s: Seq<u8>, limit: int, c: DecodeContext) -> Option<(Self, Seq<u8>)>;
    /// the same up to the end of a group
    spec fn merged_group(&self, number: u32, s: Seq<u8>, c: DecodeContext) -> Option<(Self, Seq<u8>)>;
}

pub mod prost { pub use super::*; pub mod encoding {
use super::super::*;
#[verifier::external_body]
pub fn encode_key<B: BufMut>(tag: u32, wire_type: WireType, buf: &mut B)
    requires field_number(tag),
    ensures final(buf).out() == old(buf).out() + key(tag, wire_type),
{ unimplemented!() }
#[verifier::external_body]
pub fn encode_varint<B: BufMut>(value: u64, buf: &mut B)
    ensures final(buf).out() == old(buf).out() + varint(value),
{ unimplemented!() }
#[verifier::external_body]
pub fn key_len(tag: u32) -> (r: usize)
    requires field_number(tag),
    ensures r == key(tag, WireType::Varint).len(), forall|w: WireType| r == #[trigger] key(tag, w).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len_varint(value: u64) -> (r: usize)
    ensures r == varint(value).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn decode_varint<B: Buf>(buf: &mut B) -> (r: Result<u64, DecodeError>)
    ensures match dec_varint(old(buf).rest()) { Some((v, t)) => r is Ok && r->Ok_0 == v && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
#[verifier::external_body]
pub fn decode_key<B: Buf>(buf: &mut B) -> (r: Result<(u32, WireType), DecodeError>)
    ensures match dec_key(old(buf).rest()) { Some((n, w, t)) => r is Ok && r->Ok_0 == (n, w) && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
#[verifier::external_body]
pub fn check_wire_type(expected: WireType, actual: WireType) -> (r: Result<(), DecodeError>)
    ensures r is Ok <==> expected == actual,
{ unimplemented!() }
/// The rest after skipping a field.
pub uninterp spec fn skipped(w: WireType, tag: u32, s: Seq<u8>, c: DecodeContext) -> Option<Seq<u8>>;
pub broadcast axiom fn skipped_shorter(w: WireType, tag: u32, s: Seq<u8>, c: DecodeContext)
    ensures match #[trigger] skipped(w, tag, s, c) { Some(t) => t.len() <= s.len(), None => true };
#[verifier::external_body]
pub fn skip_field<B: Buf>(wire_type: WireType, tag: u32, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures match skipped(wire_type, tag, old(buf).rest(), ctx) { Some(t) => r is Ok && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
pub mod bool { use super::*;
#[verifier::external_body]
pub fn encode<B: BufMut>(tag: u32, value: &bool, buf: &mut B)
    requires field_number(tag),
    ensures final(buf).out() == old(buf).out() + (key(tag, WireType::Varint) + varint(if *value { 1 } else { 0 })),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len(tag: u32, value: &bool) -> (r: usize)
    requires field_number(tag), key(tag, WireType::Varint).len() + varint(if *value { 1 } else { 0 }).len() <= usize::MAX,
    ensures r == key(tag, WireType::Varint).len() + varint(if *value { 1 } else { 0 }).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn merge<B: Buf>(wire_type: WireType, value: &mut bool, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures
        wire_type != WireType::Varint ==> r is Err,
        wire_type == WireType::Varint ==> match dec_bool(old(buf).rest()) { Some((v, t)) => r is Ok && *final(value) == v && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
}
pub mod int32 { use super::*;
#[verifier::external_body]
pub fn encode<B: BufMut>(tag: u32, value: &i32, buf: &mut B)
    requires field_number(tag),
    ensures final(buf).out() == old(buf).out() + (key(tag, WireType::Varint) + varint(wrap64(*value as int))),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len(tag: u32, value: &i32) -> (r: usize)
    requires field_number(tag), key(tag, WireType::Varint).len() + varint(wrap64(*value as int)).len() <= usize::MAX,
    ensures r == key(tag, WireType::Varint).len() + varint(wrap64(*value as int)).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn merge<B: Buf>(wire_type: WireType, value: &mut i32, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures
        wire_type != WireType::Varint ==> r is Err,
        wire_type == WireType::Varint ==> match dec_int32(old(buf).rest()) { Some((v, t)) => r is Ok && *final(value) == v && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
}
pub mod int64 { use super::*;
#[verifier::external_body]
pub fn encode<B: BufMut>(tag: u32, value: &i64, buf: &mut B)
    requires field_number(tag),
    ensures final(buf).out() == old(buf).out() + (key(tag, WireType::Varint) + varint(wrap64(*value as int))),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len(tag: u32, value: &i64) -> (r: usize)
    requires field_number(tag), key(tag, WireType::Varint).len() + varint(wrap64(*value as int)).len() <= usize::MAX,
    ensures r == key(tag, WireType::Varint).len() + varint(wrap64(*value as int)).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn merge<B: Buf>(wire_type: WireType, value: &mut i64, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures
        wire_type != WireType::Varint ==> r is Err,
        wire_type == WireType::Varint ==> match dec_int64(old(buf).rest()) { Some((v, t)) => r is Ok && *final(value) == v && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
}
pub mod uint32 { use super::*;
#[verifier::external_body]
pub fn encode<B: BufMut>(tag: u32, value: &u32, buf: &mut B)
    requires field_number(tag),
    ensures final(buf).out() == old(buf).out() + (key(tag, WireType::Varint) + varint(*value as u64)),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len(tag: u32, value: &u32) -> (r: usize)
    requires field_number(tag), key(tag, WireType::Varint).len() + varint(*value as u64).len() <= usize::MAX,
    ensures r == key(tag, WireType::Varint).len() + varint(*value as u64).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn merge<B: Buf>(wire_type: WireType, value: &mut u32, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures
        wire_type != WireType::Varint ==> r is Err,
        wire_type == WireType::Varint ==> match dec_uint32(old(buf).rest()) { Some((v, t)) => r is Ok && *final(value) == v && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
}
pub mod uint64 { use super::*;
#[verifier::external_body]
pub fn encode<B: BufMut>(tag: u32, value: &u64, buf: &mut B)
    requires field_number(tag),
    ensures final(buf).out() == old(buf).out() + (key(tag, WireType::Varint) + varint(*value)),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len(tag: u32, value: &u64) -> (r: usize)
    requires field_number(tag), key(tag, WireType::Varint).len() + varint(*value).len() <= usize::MAX,
    ensures r == key(tag, WireType::Varint).len() + varint(*value).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn merge<B: Buf>(wire_type: WireType, value: &mut u64, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures
        wire_type != WireType::Varint ==> r is Err,
        wire_type == WireType::Varint ==> match dec_varint(old(buf).rest()) { Some((v, t)) => r is Ok && *final(value) == v && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
}
pub mod sint32 { use super::*;
#[verifier::external_body]
pub fn encode<B: BufMut>(tag: u32, value: &i32, buf: &mut B)
    requires field_number(tag),
    ensures final(buf).out() == old(buf).out() + (key(tag, WireType::Varint) + varint(zigzag(*value as int) as u64)),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len(tag: u32, value: &i32) -> (r: usize)
    requires field_number(tag), key(tag, WireType::Varint).len() + varint(zigzag(*value as int) as u64).len() <= usize::MAX,
    ensures r == key(tag, WireType::Varint).len() + varint(zigzag(*value as int) as u64).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn merge<B: Buf>(wire_type: WireType, value: &mut i32, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures
        wire_type != WireType::Varint ==> r is Err,
        wire_type == WireType::Varint ==> match dec_sint32(old(buf).rest()) { Some((v, t)) => r is Ok && *final(value) == v && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
}
pub mod sint64 { use super::*;
#[verifier::external_body]
pub fn encode<B: BufMut>(tag: u32, value: &i64, buf: &mut B)
    requires field_number(tag),
    ensures final(buf).out() == old(buf).out() + (key(tag, WireType::Varint) + varint(zigzag(*value as int) as u64)),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len(tag: u32, value: &i64) -> (r: usize)
    requires field_number(tag), key(tag, WireType::Varint).len() + varint(zigzag(*value as int) as u64).len() <= usize::MAX,
    ensures r == key(tag, WireType::Varint).len() + varint(zigzag(*value as int) as u64).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn merge<B: Buf>(wire_type: WireType, value: &mut i64, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures
        wire_type != WireType::Varint ==> r is Err,
        wire_type == WireType::Varint ==> match dec_sint64(old(buf).rest()) { Some((v, t)) => r is Ok && *final(value) == v && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
}
pub mod float { use super::*;
#[verifier::external_body]
pub fn encode<B: BufMut>(tag: u32, value: &f32, buf: &mut B)
    requires field_number(tag),
    ensures final(buf).out() == old(buf).out() + (key(tag, WireType::ThirtyTwoBit) + le(f32_bits(*value) as int, 4)),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len(tag: u32, value: &f32) -> (r: usize)
    requires field_number(tag), key(tag, WireType::ThirtyTwoBit).len() + le(f32_bits(*value) as int, 4).len() <= usize::MAX,
    ensures r == key(tag, WireType::ThirtyTwoBit).len() + le(f32_bits(*value) as int, 4).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn merge<B: Buf>(wire_type: WireType, value: &mut f32, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures
        wire_type != WireType::ThirtyTwoBit ==> r is Err,
        wire_type == WireType::ThirtyTwoBit ==> match dec_float(old(buf).rest()) { Some((v, t)) => r is Ok && *final(value) == v && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
}
pub mod double { use super::*;
#[verifier::external_body]
pub fn encode<B: BufMut>(tag: u32, value: &f64, buf: &mut B)
    requires field_number(tag),
    ensures final(buf).out() == old(buf).out() + (key(tag, WireType::SixtyFourBit) + le(f64_bits(*value) as int, 8)),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len(tag: u32, value: &f64) -> (r: usize)
    requires field_number(tag), key(tag, WireType::SixtyFourBit).len() + le(f64_bits(*value) as int, 8).len() <= usize::MAX,
    ensures r == key(tag, WireType::SixtyFourBit).len() + le(f64_bits(*value) as int, 8).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn merge<B: Buf>(wire_type: WireType, value: &mut f64, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures
        wire_type != WireType::SixtyFourBit ==> r is Err,
        wire_type == WireType::SixtyFourBit ==> match dec_double(old(buf).rest()) { Some((v, t)) => r is Ok && *final(value) == v && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
}
pub mod fixed32 { use super::*;
#[verifier::external_body]
pub fn encode<B: BufMut>(tag: u32, value: &u32, buf: &mut B)
    requires field_number(tag),
    ensures final(buf).out() == old(buf).out() + (key(tag, WireType::ThirtyTwoBit) + le(*value as int, 4)),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len(tag: u32, value: &u32) -> (r: usize)
    requires field_number(tag), key(tag, WireType::ThirtyTwoBit).len() + le(*value as int, 4).len() <= usize::MAX,
    ensures r == key(tag, WireType::ThirtyTwoBit).len() + le(*value as int, 4).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn merge<B: Buf>(wire_type: WireType, value: &mut u32, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures
        wire_type != WireType::ThirtyTwoBit ==> r is Err,
        wire_type == WireType::ThirtyTwoBit ==> match dec_fixed32(old(buf).rest()) { Some((v, t)) => r is Ok && *final(value) == v && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
}
pub mod fixed64 { use super::*;
#[verifier::external_body]
pub fn encode<B: BufMut>(tag: u32, value: &u64, buf: &mut B)
    requires field_number(tag),
    ensures final(buf).out() == old(buf).out() + (key(tag, WireType::SixtyFourBit) + le(*value as int, 8)),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len(tag: u32, value: &u64) -> (r: usize)
    requires field_number(tag), key(tag, WireType::SixtyFourBit).len() + le(*value as int, 8).len() <= usize::MAX,
    ensures r == key(tag, WireType::SixtyFourBit).len() + le(*value as int, 8).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn merge<B: Buf>(wire_type: WireType, value: &mut u64, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures
        wire_type != WireType::SixtyFourBit ==> r is Err,
        wire_type == WireType::SixtyFourBit ==> match dec_fixed64(old(buf).rest()) { Some((v, t)) => r is Ok && *final(value) == v && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
}
pub mod sfixed32 { use super::*;
#[verifier::external_body]
pub fn encode<B: BufMut>(tag: u32, value: &i32, buf: &mut B)
    requires field_number(tag),
    ensures final(buf).out() == old(buf).out() + (key(tag, WireType::ThirtyTwoBit) + le(wrap32(*value as int) as int, 4)),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len(tag: u32, value: &i32) -> (r: usize)
    requires field_number(tag), key(tag, WireType::ThirtyTwoBit).len() + le(wrap32(*value as int) as int, 4).len() <= usize::MAX,
    ensures r == key(tag, WireType::ThirtyTwoBit).len() + le(wrap32(*value as int) as int, 4).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn merge<B: Buf>(wire_type: WireType, value: &mut i32, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures
        wire_type != WireType::ThirtyTwoBit ==> r is Err,
        wire_type == WireType::ThirtyTwoBit ==> match dec_sfixed32(old(buf).rest()) { Some((v, t)) => r is Ok && *final(value) == v && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
}
pub mod sfixed64 { use super::*;
#[verifier::external_body]
pub fn encode<B: BufMut>(tag: u32, value: &i64, buf: &mut B)
    requires field_number(tag),
    ensures final(buf).out() == old(buf).out() + (key(tag, WireType::SixtyFourBit) + le(wrap64(*value as int) as int, 8)),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len(tag: u32, value: &i64) -> (r: usize)
    requires field_number(tag), key(tag, WireType::SixtyFourBit).len() + le(wrap64(*value as int) as int, 8).len() <= usize::MAX,
    ensures r == key(tag, WireType::SixtyFourBit).len() + le(wrap64(*value as int) as int, 8).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn merge<B: Buf>(wire_type: WireType, value: &mut i64, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures
        wire_type != WireType::SixtyFourBit ==> r is Err,
        wire_type == WireType::SixtyFourBit ==> match dec_sfixed64(old(buf).rest()) { Some((v, t)) => r is Ok && *final(value) == v && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
}
pub mod string { use super::*;
#[verifier::external_body]
pub fn encode<B: BufMut>(tag: u32, value: &String, buf: &mut B)
    requires field_number(tag),
    ensures final(buf).out() == old(buf).out() + (key(tag, WireType::LengthDelimited) + delimited(encode_utf8(value@))),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len(tag: u32, value: &String) -> (r: usize)
    requires field_number(tag), key(tag, WireType::LengthDelimited).len() + delimited(encode_utf8(value@)).len() <= usize::MAX,
    ensures r == key(tag, WireType::LengthDelimited).len() + delimited(encode_utf8(value@)).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn merge<B: Buf>(wire_type: WireType, value: &mut String, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures
        wire_type != WireType::LengthDelimited ==> r is Err,
        wire_type == WireType::LengthDelimited ==> match dec_delimited(old(buf).rest()) {
            Some((b, t)) => if valid_utf8(b) { r is Ok && final(value)@ == decode_utf8(b) && final(buf).rest() == t } else { r is Err },
            None => r is Err,
        },
{ unimplemented!() }
}
pub mod bytes { use super::*;
#[verifier::external_body]
pub fn encode<B: BufMut>(tag: u32, value: &Bytes, buf: &mut B)
    requires field_number(tag),
    ensures final(buf).out() == old(buf).out() + (key(tag, WireType::LengthDelimited) + delimited(value@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len(tag: u32, value: &Bytes) -> (r: usize)
    requires field_number(tag), key(tag, WireType::LengthDelimited).len() + delimited(value@).len() <= usize::MAX,
    ensures r == key(tag, WireType::LengthDelimited).len() + delimited(value@).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn merge<B: Buf>(wire_type: WireType, value: &mut Bytes, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures
        wire_type != WireType::LengthDelimited ==> r is Err,
        wire_type == WireType::LengthDelimited ==> match dec_delimited(old(buf).rest()) {
            Some((b, t)) => r is Ok && final(value)@ == b && final(buf).rest() == t,
            None => r is Err,
        },
{ unimplemented!() }
}
pub mod message { use super::*;
#[verifier::external_body]
pub fn encode<M: Message, B: BufMut>(tag: u32, msg: &M, buf: &mut B)
    requires field_number(tag), msg.raw().len() <= usize::MAX,
    ensures final(buf).out() == old(buf).out() + (key(tag, WireType::LengthDelimited) + delimited(msg.raw())),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len<M: Message>(tag: u32, msg: &M) -> (r: usize)
    requires field_number(tag), key(tag, WireType::LengthDelimited).len() + delimited(msg.raw()).len() <= usize::MAX,
    ensures r == key(tag, WireType::LengthDelimited).len() + delimited(msg.raw()).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn merge<M: Message, B: Buf>(wire_type: WireType, msg: &mut M, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures
        match dec_message(*old(msg), wire_type, old(buf).rest(), ctx) { Some((m, t)) => r is Ok && *final(msg) == m && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
}
pub mod group { use super::*;
#[verifier::external_body]
pub fn encode<M: Message, B: BufMut>(tag: u32, msg: &M, buf: &mut B)
    requires field_number(tag),
    ensures final(buf).out() == old(buf).out() + (key(tag, WireType::StartGroup) + msg.raw() + key(tag, WireType::EndGroup)),
{ unimplemented!() }
#[verifier::external_body]
pub fn encoded_len<M: Message>(tag: u32, msg: &M) -> (r: usize)
    requires field_number(tag), key(tag, WireType::StartGroup).len() + msg.raw().len() + key(tag, WireType::EndGroup).len() <= usize::MAX,
    ensures r == key(tag, WireType::StartGroup).len() + msg.raw().len() + key(tag, WireType::EndGroup).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn merge<M: Message, B: Buf>(tag: u32, wire_type: WireType, msg: &mut M, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures
        match dec_group(*old(msg), tag, wire_type, old(buf).rest(), ctx) { Some((m, t)) => r is Ok && *final(msg) == m && final(buf).rest() == t, None => r is Err },
{ unimplemented!() }
}
} }
use prost::encoding;
