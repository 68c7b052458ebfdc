//@@ props P15
//@@ include head.rs
use vstd::string::*;
use vstd::utf8::*;

// ---- specification

/// The documented range of a timestamp: 0001-01-01T00:00:00Z to 9999-12-31T23:59:59.999999999Z.
pub open spec fn timestamp_ok(seconds: int, nanos: int) -> bool { -62135596800 <= seconds <= 253402300799 && 0 <= nanos <= 999_999_999 }
/// The documented range of a duration.
pub open spec fn duration_ok(seconds: int, nanos: int) -> bool {
    -315_576_000_000 <= seconds <= 315_576_000_000 && -999_999_999 <= nanos <= 999_999_999 && (seconds > 0 ==> nanos >= 0) && (seconds < 0 ==> nanos <= 0)
}
pub open spec fn digit(b: u8) -> bool { 0x30 <= b <= 0x39 }
pub open spec fn at(s: Seq<u8>, i: int, b: u8) -> bool { 0 <= i < s.len() && s[i] == b }
pub open spec fn digits(s: Seq<u8>, i: int, n: int) -> bool { 0 <= i && i + n <= s.len() && forall|k: int| i <= k < i + n ==> digit(#[trigger] s[k]) }
pub open spec fn starts_digit(s: Seq<u8>) -> bool { s.len() > 0 && digit(s[0]) }
/// Where a run of digits ends.
pub open spec fn run_end(s: Seq<u8>, i: int) -> int
    decreases s.len() - i
{
    if 0 <= i < s.len() && digit(s[i]) { run_end(s, i + 1) } else { i }
}
/// Where the seconds with their fraction end.
pub open spec fn secs_end(s: Seq<u8>) -> int { if at(s, 19, '.' as u8) { run_end(s, 20) } else { 19 } }
/// YYYY-MM-DDThh:mm:ss[.f+](Z|(+|-)hh:mm)
pub open spec fn rfc3339(s: Seq<u8>) -> bool {
    &&& digits(s, 0, 4) && at(s, 4, '-' as u8) && digits(s, 5, 2) && at(s, 7, '-' as u8) && digits(s, 8, 2)
    &&& at(s, 10, 'T' as u8)
    &&& digits(s, 11, 2) && at(s, 13, ':' as u8) && digits(s, 14, 2) && at(s, 16, ':' as u8) && digits(s, 17, 2)
    &&& at(s, 19, '.' as u8) ==> digits(s, 20, 1)
    &&& {
        let e = secs_end(s);
        ||| at(s, e, 'Z' as u8) && s.len() == e + 1
        ||| (at(s, e, '+' as u8) || at(s, e, '-' as u8)) && digits(s, e + 1, 2) && at(s, e + 3, ':' as u8) && digits(s, e + 4, 2) && s.len() == e + 6
    }
}
broadcast proof fn skip_skip(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b),
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
/// One step from digits of the rest to digits of the whole.
broadcast proof fn digits_skip(s: Seq<u8>, a: int, i: int, n: int)
    requires 0 <= a <= s.len(), 0 <= i, 0 <= n,
    ensures #[trigger] digits(s.skip(a), i, n) == digits(s, a + i, n),
{
    if digits(s.skip(a), i, n) {
        assert forall|k: int| a + i <= k < a + i + n implies digit(#[trigger] s[k]) by { assert(digit(s.skip(a)[k - a])); }
    }
    if digits(s, a + i, n) {
        assert forall|k: int| i <= k < i + n implies digit(#[trigger] s.skip(a)[k]) by { assert(digit(s[a + k])); }
    }
}

proof fn more_digits(s: Seq<u8>, i: int, n: int, ok: bool)
    requires 0 <= i < n, i <= s.len(), digits(s, 0, i), ok == starts_digit(s.skip(i)),
    ensures ok ==> digits(s, 0, i + 1), !ok ==> !digits(s, 0, n),
{
    if ok { assert(s.skip(i)[0] == s[i]); assert(digits(s, 0, i + 1)); }
    else if digits(s, 0, n) { assert(digit(s[i])); assert(s.skip(i)[0] == s[i]); }
}
// ---- assumed contracts

/// `str::bytes().peekable()` from core: what is left
#[verifier::external_body]
pub struct Rest { x: u8 }
impl View for Rest { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Rest {
    #[verifier::external_body]
    fn next_if<F: Fn(&u8) -> bool>(&mut self, f: F) -> (r: Option<u8>)
        requires forall|b: &u8| call_requires(f, (b,)),
        ensures
            r is Some ==> old(self)@.len() > 0 && r == Some(old(self)@[0]) && call_ensures(f, (&old(self)@[0],), true) && final(self)@ == old(self)@.skip(1),
            r is None ==> final(self)@ == old(self)@ && (old(self)@.len() > 0 ==> call_ensures(f, (&old(self)@[0],), false)),
    { unimplemented!() }
    #[verifier::external_body]
    fn next_if_eq(&mut self, c: &u8) -> (r: Option<u8>)
        ensures
            r is Some ==> old(self)@.len() > 0 && r == Some(old(self)@[0]) && old(self)@[0] == *c && final(self)@ == old(self)@.skip(1),
            r is None ==> final(self)@ == old(self)@ && !(old(self)@.len() > 0 && old(self)@[0] == *c),
    { unimplemented!() }
    #[verifier::external_body]
    fn peek(&mut self) -> (r: Option<&u8>)
        ensures *final(self) == *old(self), match r { Some(b) => old(self)@.len() > 0 && *b == old(self)@[0], None => old(self)@.len() == 0 },
    { unimplemented!() }
}
#[verifier::external_body]
fn bytes_of(s: &str) -> (r: Rest) ensures r@ == encode_utf8(s@) { unimplemented!() }
/// u8::is_ascii_digit
#[verifier::external_body]
fn is_ascii_digit(b: &u8) -> (r: bool) ensures r == digit(*b) { unimplemented!() }
pub open spec fn absolute(v: int) -> int { if v < 0 { -v } else { v } }
pub assume_specification [i64::unsigned_abs] (v: i64) -> (r: u64) ensures r == absolute(v as int);
pub assume_specification [i32::unsigned_abs] (v: i32) -> (r: u32) ensures r == absolute(v as int);
pub assume_specification [i64::abs] (v: i64) -> (r: i64) requires v != i64::MIN, ensures r == absolute(v as int);
pub assume_specification [i32::abs] (v: i32) -> (r: i32) requires v != i32::MIN, ensures r == absolute(v as int);
/// the text of an error
#[verifier::external_body]
fn message() -> String { unimplemented!() }
/// serde's Error
pub trait Error: Sized { fn custom<T>(m: T) -> Self; }
pub struct ParseError;
#[verifier::external_body]
pub struct DecodeError { x: u8 }
#[verifier::external_body]
fn decode_to_ser_err<E>(err: DecodeError) -> E { unimplemented!() }
pub struct SerializeOptions;

pub mod prost_types {
use super::*;
pub struct Duration { pub seconds: i64, pub nanos: i32 }
pub struct Timestamp { pub seconds: i64, pub nanos: i32 }
}
/// What the parsers of prost-types read (assumed contracts), and what their Display writes.
pub trait WellKnown: Sized {
    spec fn read(s: Seq<char>) -> Option<Self>;
    spec fn text(&self) -> Seq<char>;
    /// decoding the wire form of a dynamic message
    spec fn of(m: DynamicMessage) -> Option<Self>;
}
impl WellKnown for prost_types::Duration {
    uninterp spec fn read(s: Seq<char>) -> Option<Self>;
    uninterp spec fn text(&self) -> Seq<char>;
    uninterp spec fn of(m: DynamicMessage) -> Option<Self>;
}
impl WellKnown for prost_types::Timestamp {
    uninterp spec fn read(s: Seq<char>) -> Option<Self>;
    uninterp spec fn text(&self) -> Seq<char>;
    uninterp spec fn of(m: DynamicMessage) -> Option<Self>;
}
#[verifier::external_body]
fn parse<T: WellKnown>(s: &str) -> (r: Result<T, ParseError>)
    ensures match T::read(s@) { Some(t) => r == Ok::<T, ParseError>(t), None => r is Err },
{ unimplemented!() }
#[verifier::external_body]
pub struct DynamicMessage { x: u8 }
impl DynamicMessage {
    #[verifier::external_body]
    fn transcode_to<T: WellKnown>(&self) -> (r: Result<T, DecodeError>)
        ensures match T::of(*self) { Some(t) => r == Ok::<T, DecodeError>(t), None => r is Err },
    { unimplemented!() }
}
/// serde's Serializer, as far as it is used here: what became of writing a string
pub trait Serializer: Sized {
    type Ok;
    type Error: Error;
    spec fn strings(&self, r: Result<Self::Ok, Self::Error>, s: Seq<char>) -> bool;
    fn collect_str<T: WellKnown>(self, v: &T) -> (r: Result<Self::Ok, Self::Error>) ensures self.strings(r, v.text());
}

// ---- the code
//@@ item prost-reflect/src/dynamic/serde/mod.rs const MAX_DURATION_SECONDS
//@@ item prost-reflect/src/dynamic/serde/mod.rs const MAX_DURATION_NANOS
//@@ item prost-reflect/src/dynamic/serde/mod.rs const MIN_TIMESTAMP_SECONDS
//@@ item prost-reflect/src/dynamic/serde/mod.rs const MAX_TIMESTAMP_SECONDS
//@@ item prost-reflect/src/dynamic/serde/mod.rs const MAX_TIMESTAMP_NANOS

//@@ fn prost-reflect/src/dynamic/serde/mod.rs check_duration
//@@ ret r
//@@ spec
    ensures r is Ok <==> duration_ok(duration.seconds as int, duration.nanos as int),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/mod.rs check_timestamp
//@@ ret r
//@@ spec
    ensures r is Ok <==> timestamp_ok(timestamp.seconds as int, timestamp.nanos as int),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs validate_strict_rfc3339::pop_digit
//@@ subst? Peekable < Bytes > ==>> Rest
//@@ subst? u8 :: is_ascii_digit ==>> |b: &u8| -> (o: bool) ensures o == digit(*b) { is_ascii_digit(b) }
//@@ ret r
//@@ spec
    ensures r == starts_digit(old($p0)@), final($p0)@ == (if r { old($p0)@.skip(1) } else { old($p0)@ }),
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs validate_strict_rfc3339::pop_digits
//@@ subst? Peekable < Bytes > ==>> Rest
//@@ subst? ( 0 .. n ) . all ( | _ | pop_digit ( bytes ) ) ==>> { let mut i__ = 0; let mut ok__ = true; while ok__ && i__ < n invariant i__ <= n, s0 == old(bytes)@, ok__ ==> digits(s0, 0, i__ as int) && bytes@ == s0.skip(i__ as int), !ok__ ==> !digits(s0, 0, n as int) && bytes@.len() <= s0.len() decreases n - i__, (if ok__ { 1int } else { 0 }) { ok__ = pop_digit(bytes); proof { more_digits(s0, i__ as int, n as int, ok__); } if ok__ { i__ = i__ + 1; } } ok__ }
//@@ ret r
//@@ spec
    ensures r == digits(old($p0)@, 0, $p1 as int), r ==> final($p0)@ == old($p0)@.skip($p1 as int), final($p0)@.len() <= old($p0)@.len(),
//@@ start
    broadcast use {skip_skip, digits_skip};
    let ghost s0 = bytes@;
    proof { assert(s0.skip(0) =~= s0); }
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs validate_strict_rfc3339::pop_char
//@@ subst? Peekable < Bytes > ==>> Rest
//@@ ret r
//@@ spec
    ensures r == at(old($p0)@, 0, $p1), final($p0)@ == (if r { old($p0)@.skip(1) } else { old($p0)@ }),
//@@ end
#[verifier::rlimit(40)]
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs validate_strict_rfc3339
//@@ drop-items
//@@ subst? $v:id . bytes ( ) . peekable ( ) ==>> bytes_of($v)
//@@ subst? format ! $m:tt ==>> message()
//@@ subst? $m:tt . to_owned ( ) ==>> message()
//@@ subst? | & ch | $x == b'+' || $y == b'-' ==>> |ch__: &u8| -> (o: bool) ensures o == (*ch__ == 0x2b || *ch__ == 0x2d) { let ch = *ch__; $x == b'+' || $y == b'-' }
//@@ ret r
//@@ spec
    ensures r is Ok <==> rfc3339(encode_utf8(v@)),
//@@ start
    broadcast use {skip_skip, digits_skip};
    let ghost s = encode_utf8(v@);
    let ghost mut k: int = 21;
    proof { assert(s.skip(0) =~= s); }
//@@ loop 0
        invariant
            21 <= k <= s.len(), v@ == s.skip(k), run_end(s, 20) == run_end(s, k),
        decreases v@.len(),
//@@ in-loop 0
        proof { k = k + 1; }
//@@ before? while pop_digit
        proof { assert(s.skip(20)[0] == s[20]); assert(run_end(s, 20) == run_end(s, 21)); }
//@@ after-loop 0
        proof { assert(k < s.len() ==> s.skip(k)[0] == s[k]); assert(run_end(s, k) == k); }
//@@ end
pub struct GoogleProtobufTimestampVisitor;
impl GoogleProtobufTimestampVisitor {
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufTimestampVisitor::visit_str
//@@ subst? Self :: Value ==>> prost_types::Timestamp
//@@ subst? . map_err ( Error :: custom ) ==>> .map_err(|e__| -> (o__: E) { E::custom(e__) })
//@@ subst? v . parse ( ) ==>> parse(v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> rfc3339(encode_utf8(v@)) && prost_types::Timestamp::read(v@) is Some && timestamp_ok(prost_types::Timestamp::read(v@)->Some_0.seconds as int, prost_types::Timestamp::read(v@)->Some_0.nanos as int),
        r is Ok ==> Some(r->Ok_0) == prost_types::Timestamp::read(v@),
//@@ end
}
pub struct GoogleProtobufDurationVisitor;
impl GoogleProtobufDurationVisitor {
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufDurationVisitor::visit_str
//@@ subst? Self :: Value ==>> prost_types::Duration
//@@ subst? . map_err ( Error :: custom ) ==>> .map_err(|e__| -> (o__: E) { E::custom(e__) })
//@@ subst? v . parse ( ) ==>> parse(v)
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> prost_types::Duration::read(v@) is Some && duration_ok(prost_types::Duration::read(v@)->Some_0.seconds as int, prost_types::Duration::read(v@)->Some_0.nanos as int),
        r is Ok ==> Some(r->Ok_0) == prost_types::Duration::read(v@),
//@@ end
}
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_timestamp
//@@ subst? . map_err ( Error :: custom ) ==>> .map_err(|e__| -> (o__: S::Error) { S::Error::custom(e__) })
//@@ subst? . map_err ( decode_to_ser_err ) ==>> .map_err(|e__| -> (o__: S::Error) { decode_to_ser_err(e__) })
//@@ ret r
//@@ spec
    ensures match prost_types::Timestamp::of(*msg) {
        Some(t) => if timestamp_ok(t.seconds as int, t.nanos as int) { serializer.strings(r, t.text()) } else { r is Err },
        None => r is Err,
    },
//@@ end
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_duration
//@@ subst? . map_err ( Error :: custom ) ==>> .map_err(|e__| -> (o__: S::Error) { S::Error::custom(e__) })
//@@ subst? . map_err ( decode_to_ser_err ) ==>> .map_err(|e__| -> (o__: S::Error) { decode_to_ser_err(e__) })
//@@ ret r
//@@ spec
    ensures match prost_types::Duration::of(*msg) {
        Some(t) => if duration_ok(t.seconds as int, t.nanos as int) { serializer.strings(r, t.text()) } else { r is Err },
        None => r is Err,
    },
//@@ end

} // verus!
fn main() {}
