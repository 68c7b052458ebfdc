// ---- reading JSON: serde's Deserializer for JSON, visitors and seeds

//@@ item prost-reflect/src/dynamic/serde/mod.rs struct DeserializeOptions
#[verifier::external_body]
pub struct DeError { x: u8 }
/// serde's Error
pub trait Error: Sized { fn custom<T>(m: T) -> Self; }
impl Error for DeError { #[verifier::external_body] fn custom<T>(m: T) -> DeError { unimplemented!() } }
pub struct ConvError;
/// Strings with the same characters are equal.
pub broadcast axiom fn str_ext(a: &str, b: &str) ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub open spec fn res<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }

/// `reads(j, r)`: what the visitor (or seed) makes of the document `j` is `r`, None meaning that it is rejected.
pub trait Visitor: Sized { type Value; spec fn ready(self) -> bool; spec fn reads(self, j: Json, r: Option<Self::Value>) -> bool; }
pub trait DeserializeSeed: Sized { type Value; spec fn seed_ready(self) -> bool; spec fn seeds(self, j: Json, r: Option<Self::Value>) -> bool; }

/// A deserializer positioned at a JSON document (assumed contract of serde_json: it calls the visitor's method for
/// the kind of document it finds, and the visitor rejects a document for which it has no method).
#[verifier::external_body]
pub struct De { x: u8 }
impl De {
    pub uninterp spec fn json(&self) -> Json;
    #[verifier::external_body]
    pub fn deserialize_any<V: Visitor>(self, v: V) -> (r: Result<V::Value, DeError>) requires v.ready(), ensures v.reads(self.json(), res(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize_str<V: Visitor>(self, v: V) -> (r: Result<V::Value, DeError>) requires v.ready(), ensures v.reads(self.json(), res(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize_string<V: Visitor>(self, v: V) -> (r: Result<V::Value, DeError>) requires v.ready(), ensures v.reads(self.json(), res(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize_map<V: Visitor>(self, v: V) -> (r: Result<V::Value, DeError>) requires v.ready(), ensures v.reads(self.json(), res(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize_seq<V: Visitor>(self, v: V) -> (r: Result<V::Value, DeError>) requires v.ready(), ensures v.reads(self.json(), res(r)) { unimplemented!() }
    /// null is given to visit_none, everything else to visit_some.
    #[verifier::external_body]
    pub fn deserialize_option<V: Visitor>(self, v: V) -> (r: Result<V::Value, DeError>) requires v.ready(), ensures v.reads(self.json(), res(r)) { unimplemented!() }
}
/// The elements of an array which are still to come.
#[verifier::external_body]
pub struct SeqAcc { x: u8 }
impl SeqAcc {
    pub uninterp spec fn rest(&self) -> Seq<Json>;
    #[verifier::external_body]
    pub fn size_hint(&self) -> Option<usize> { unimplemented!() }
    #[verifier::external_body]
    pub fn next_element_seed<S: DeserializeSeed>(&mut self, seed: S) -> (r: Result<Option<S::Value>, DeError>)
        requires seed.seed_ready(),
        ensures
            old(self).rest().len() == 0 ==> r == Ok::<Option<S::Value>, DeError>(None),
            old(self).rest().len() > 0 ==> match r {
                Ok(Some(v)) => seed.seeds(old(self).rest()[0], Some(v)) && final(self).rest() == old(self).rest().skip(1),
                Ok(None) => false,
                Err(_) => seed.seeds(old(self).rest()[0], None),
            },
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Key { x: u8 }
impl Key {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self.view() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: String) ensures r@ == self.view() { unimplemented!() }
}
/// The members of an object which are still to come; `due` is the value of the key which was read last.
#[verifier::external_body]
pub struct MapAcc { x: u8 }
impl MapAcc {
    pub uninterp spec fn rest(&self) -> Seq<(Seq<char>, Json)>;
    pub uninterp spec fn due(&self) -> Option<Json>;
    #[verifier::external_body]
    pub fn size_hint(&self) -> Option<usize> { unimplemented!() }
    #[verifier::external_body]
    pub fn next_key(&mut self) -> (r: Result<Option<Key>, DeError>)
        requires old(self).due() is None,
        ensures
            r is Ok,
            old(self).rest().len() == 0 ==> r->Ok_0 is None,
            old(self).rest().len() > 0 ==> r->Ok_0 is Some && r->Ok_0->Some_0.view() == old(self).rest()[0].0
                && final(self).rest() == old(self).rest().skip(1) && final(self).due() == Some(old(self).rest()[0].1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_value_seed<S: DeserializeSeed>(&mut self, seed: S) -> (r: Result<S::Value, DeError>)
        requires old(self).due() is Some, seed.seed_ready(),
        ensures seed.seeds(old(self).due()->Some_0, res(r)), final(self).rest() == old(self).rest(), final(self).due() is None,
    { unimplemented!() }
    /// `next_value::<IgnoredAny>()`
    #[verifier::external_body]
    pub fn skip_value(&mut self) -> (r: Result<(), DeError>)
        requires old(self).due() is Some,
        ensures r is Ok, final(self).rest() == old(self).rest(), final(self).due() is None,
    { unimplemented!() }
}

/// The double that a reader makes of the text which a (finite) float was written as.
pub uninterp spec fn text64(v: f32) -> f64;
/// `w as f32`
pub uninterp spec fn narrow(w: f64) -> f32;
/// The floats of the known finding, which come back as another float.
pub uninterp spec fn rounds_twice(v: f32) -> bool;
/// The shortest decimal text of a float is read as a double which narrows to the float again, but for the known finding.
pub broadcast axiom fn float_text(v: f32)
    requires fin32(v), !rounds_twice(v),
    ensures narrow(#[trigger] text64(v)) == v;
#[verifier::external_body]
fn f64_as_f32(v: f64) -> (r: f32) ensures r == narrow(v) { unimplemented!() }
#[verifier::external_body]
fn i64_as_f64(v: i64) -> f64 { unimplemented!() }
#[verifier::external_body]
fn u64_as_f64(v: u64) -> f64 { unimplemented!() }
#[verifier::external_body]
fn i64_as_f32(v: i64) -> f32 { unimplemented!() }
#[verifier::external_body]
fn u64_as_f32(v: u64) -> f32 { unimplemented!() }
#[verifier::external_body]
fn f64_inf() -> (r: f64) ensures inf64(r) { unimplemented!() }
#[verifier::external_body]
fn f64_neg_inf() -> (r: f64) ensures neg_inf64(r) { unimplemented!() }
#[verifier::external_body]
fn f64_a_nan() -> (r: f64) ensures nan64(r) { unimplemented!() }
#[verifier::external_body]
fn f32_inf() -> (r: f32) ensures inf32(r) { unimplemented!() }
#[verifier::external_body]
fn f32_neg_inf() -> (r: f32) ensures neg_inf32(r) { unimplemented!() }
#[verifier::external_body]
fn f32_a_nan() -> (r: f32) ensures nan32(r) { unimplemented!() }
/// `f64::from_str`: the names of the special values, where it knows them, mean those values.
#[verifier::external_body]
fn parse_f64(s: &str) -> (r: Result<f64, ConvError>)
    ensures r is Ok ==> (s@ == "Infinity"@ ==> inf64(r->Ok_0)) && (s@ == "-Infinity"@ ==> neg_inf64(r->Ok_0)) && (s@ == "NaN"@ ==> nan64(r->Ok_0)),
{ unimplemented!() }
#[verifier::external_body]
fn parse_f32(s: &str) -> (r: Result<f32, ConvError>)
    ensures r is Ok ==> (s@ == "Infinity"@ ==> inf32(r->Ok_0)) && (s@ == "-Infinity"@ ==> neg_inf32(r->Ok_0)) && (s@ == "NaN"@ ==> nan32(r->Ok_0)),
{ unimplemented!() }

// ---- integers
pub open spec fn dec_digit(c: char) -> bool { '0' <= c <= '9' }
/// The number a string of decimal digits writes.
pub open spec fn dec_value(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { dec_value(s.drop_last()) * 10 + (s.last() as int - '0' as int) }
}
pub open spec fn dec_digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> dec_digit(#[trigger] s[i]) }
/// The integer that a decimal literal with an optional sign denotes, as the integer parsers of core read it.
pub open spec fn dec_int(s: Seq<char>) -> Option<int> {
    if dec_digits(s) { Some(dec_value(s)) }
    else if s.len() > 1 && s[0] == '+' && dec_digits(s.skip(1)) { Some(dec_value(s.skip(1))) }
    else if s.len() > 1 && s[0] == '-' && dec_digits(s.skip(1)) { Some(-dec_value(s.skip(1))) }
    else { None }
}
/// A minus is only read for signed types (so that "-0" is rejected for unsigned ones).
pub open spec fn dec_uint(s: Seq<char>) -> Option<int> { if s.len() > 0 && s[0] == '-' { None } else { dec_int(s) } }
/// What the integer parsers of core make of what its formatters write.
pub broadcast axiom fn dec_reads(i: int)
    ensures dec_int(#[trigger] dec(i)) == Some(i), i >= 0 ==> dec_uint(dec(i)) == Some(i);
pub open spec fn in_range(i: Option<int>, lo: int, hi: int) -> bool { i is Some && lo <= i->Some_0 <= hi }
/// The integer in range `lo..=hi` which a document denotes, or None; floats are not used for what is written here.
pub open spec fn int_of(j: Json, unsigned: bool) -> Option<int> {
    match j { Json::Int(i) => Some(i), Json::Str(s) => if unsigned { dec_uint(s) } else { dec_int(s) }, _ => None }
}
#[verifier::external_body]
fn parse_i32(s: &str) -> (r: Result<i32, ConvError>)
    ensures r is Ok <==> in_range(dec_int(s@), i32::MIN as int, i32::MAX as int), r is Ok ==> r->Ok_0 as int == dec_int(s@)->Some_0,
{ unimplemented!() }
#[verifier::external_body]
fn parse_i64(s: &str) -> (r: Result<i64, ConvError>)
    ensures r is Ok <==> in_range(dec_int(s@), i64::MIN as int, i64::MAX as int), r is Ok ==> r->Ok_0 as int == dec_int(s@)->Some_0,
{ unimplemented!() }
#[verifier::external_body]
fn parse_u32(s: &str) -> (r: Result<u32, ConvError>)
    ensures r is Ok <==> in_range(dec_uint(s@), 0, u32::MAX as int), r is Ok ==> r->Ok_0 as int == dec_uint(s@)->Some_0,
{ unimplemented!() }
#[verifier::external_body]
fn parse_u64(s: &str) -> (r: Result<u64, ConvError>)
    ensures r is Ok <==> in_range(dec_uint(s@), 0, u64::MAX as int), r is Ok ==> r->Ok_0 as int == dec_uint(s@)->Some_0,
{ unimplemented!() }
#[verifier::external_body]
fn parse_bool(s: &str) -> (r: Result<bool, ConvError>)
    ensures r is Ok <==> s@ == "true"@ || s@ == "false"@, r is Ok ==> r->Ok_0 == (s@ == "true"@),
{ unimplemented!() }
#[verifier::external_body]
fn i64_to_i32(v: i64) -> (r: Result<i32, ConvError>)
    ensures r is Ok <==> i32::MIN <= v <= i32::MAX, r is Ok ==> r->Ok_0 as int == v as int,
{ unimplemented!() }
#[verifier::external_body]
fn u64_to_i32(v: u64) -> (r: Result<i32, ConvError>)
    ensures r is Ok <==> i32::MIN <= v <= i32::MAX, r is Ok ==> r->Ok_0 as int == v as int,
{ unimplemented!() }
#[verifier::external_body]
fn u64_to_i64(v: u64) -> (r: Result<i64, ConvError>)
    ensures r is Ok <==> i64::MIN <= v <= i64::MAX, r is Ok ==> r->Ok_0 as int == v as int,
{ unimplemented!() }
#[verifier::external_body]
fn i64_to_u32(v: i64) -> (r: Result<u32, ConvError>)
    ensures r is Ok <==> u32::MIN <= v <= u32::MAX, r is Ok ==> r->Ok_0 as int == v as int,
{ unimplemented!() }
#[verifier::external_body]
fn u64_to_u32(v: u64) -> (r: Result<u32, ConvError>)
    ensures r is Ok <==> u32::MIN <= v <= u32::MAX, r is Ok ==> r->Ok_0 as int == v as int,
{ unimplemented!() }
#[verifier::external_body]
fn i64_to_u64(v: i64) -> (r: Result<u64, ConvError>)
    ensures r is Ok <==> u64::MIN <= v <= u64::MAX, r is Ok ==> r->Ok_0 as int == v as int,
{ unimplemented!() }

// ---- base64 (assumed contract of the base64 crate)
/// The text of bytes in the standard or the URL-safe alphabet, with or without padding.
pub uninterp spec fn base64_text(b: Seq<u8>, url: bool, padded: bool) -> Seq<char>;
pub broadcast axiom fn base64_is(b: Seq<u8>) ensures #[trigger] base64(b) == base64_text(b, false, true);
pub enum DecodeError { InvalidByte(usize, u8), InvalidLength(usize), InvalidLastSymbol(usize, u8), InvalidPadding }
pub enum DecodePaddingMode { Indifferent, RequireCanonical, RequireNone }
impl DecodePaddingMode { fn dup(&self) -> (r: DecodePaddingMode) ensures r == *self { match self { DecodePaddingMode::Indifferent => DecodePaddingMode::Indifferent, DecodePaddingMode::RequireCanonical => DecodePaddingMode::RequireCanonical, DecodePaddingMode::RequireNone => DecodePaddingMode::RequireNone } } }
pub struct GeneralPurposeConfig { pub trailing: bool, pub mode: DecodePaddingMode }
impl GeneralPurposeConfig {
    pub fn new() -> (r: GeneralPurposeConfig) { GeneralPurposeConfig { trailing: false, mode: DecodePaddingMode::RequireCanonical } }
    pub fn with_decode_allow_trailing_bits(self, t: bool) -> (r: GeneralPurposeConfig) ensures r.trailing == t, r.mode == self.mode { GeneralPurposeConfig { trailing: t, mode: self.mode } }
    pub fn with_decode_padding_mode(self, m: DecodePaddingMode) -> (r: GeneralPurposeConfig) ensures r.trailing == self.trailing, r.mode == m { GeneralPurposeConfig { trailing: self.trailing, mode: m } }
}
pub mod alphabet {
    pub struct Alphabet { pub url: bool }
    pub fn standard() -> (r: Alphabet) ensures !r.url { Alphabet { url: false } }
    pub fn url_safe() -> (r: Alphabet) ensures r.url { Alphabet { url: true } }
}
pub struct GeneralPurpose { pub url: bool, pub mode: DecodePaddingMode }
impl GeneralPurpose {
    pub fn new(a: alphabet::Alphabet, c: &GeneralPurposeConfig) -> (r: GeneralPurpose) ensures r.url == a.url, r.mode == c.mode { GeneralPurpose { url: a.url, mode: c.mode.dup() } }
    /// The text of its own alphabet is decoded; that of the other one, too, up to the first of the two characters in which they differ.
    #[verifier::external_body]
    pub fn decode_vec(&self, s: &str, buf: &mut Vec<u8>) -> (r: Result<(), DecodeError>)
        ensures self.mode is Indifferent ==> forall|b: Seq<u8>, url: bool, padded: bool| s@ == #[trigger] base64_text(b, url, padded) ==> match r {
            Ok(_) => final(buf)@ == old(buf)@ + b,
            Err(DecodeError::InvalidByte(_, c)) => url != self.url && (if url { c == 45 || c == 95 } else { c == 43 || c == 47 }),
            Err(_) => false,
        },
    { unimplemented!() }
}
#[verifier::external_body]
fn bytes_from(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@ { unimplemented!() }
