// ---- JSON documents, and serde's serializer and deserializer of them

/// A JSON document; a number which a float was written as is kept as that float.
pub enum Json {
    Null,
    Bool(bool),
    Int(int),
    F32(f32),
    F64(f64),
    Str(Seq<char>),
    Arr(Seq<Json>),
    Obj(Seq<(Seq<char>, Json)>),
}
#[verifier::external_body]
pub struct SerError { x: u8 }
/// What a serializer has produced.
#[verifier::external_body]
pub struct Out { x: u8 }
impl Out { pub uninterp spec fn json(&self) -> Json; }

/// A type with a Display impl, and what that prints.
pub trait Display { spec fn shown(&self) -> Seq<char>; }
pub uninterp spec fn dec(i: int) -> Seq<char>;
pub open spec fn bool_text(b: bool) -> Seq<char> { if b { "true"@ } else { "false"@ } }
impl Display for i32 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
impl Display for i64 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
impl Display for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
impl Display for u64 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
impl Display for bool { open spec fn shown(&self) -> Seq<char> { bool_text(*self) } }

/// serde's Serializer, for one that writes JSON to memory (assumed contract of serde_json: it does not fail)
#[verifier::external_body]
pub struct Ser { x: u8 }
impl Ser {
    #[verifier::external_body]
    pub fn serialize_bool(self, v: bool) -> (r: Result<Out, SerError>) ensures r is Ok, r->Ok_0.json() == Json::Bool(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_i32(self, v: i32) -> (r: Result<Out, SerError>) ensures r is Ok, r->Ok_0.json() == Json::Int(v as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_i64(self, v: i64) -> (r: Result<Out, SerError>) ensures r is Ok, r->Ok_0.json() == Json::Int(v as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_u32(self, v: u32) -> (r: Result<Out, SerError>) ensures r is Ok, r->Ok_0.json() == Json::Int(v as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_u64(self, v: u64) -> (r: Result<Out, SerError>) ensures r is Ok, r->Ok_0.json() == Json::Int(v as int) { unimplemented!() }
    /// A float which is not finite is written as null.
    #[verifier::external_body]
    pub fn serialize_f32(self, v: f32) -> (r: Result<Out, SerError>) ensures r is Ok, r->Ok_0.json() == (if fin32(v) { Json::F32(v) } else { Json::Null }) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_f64(self, v: f64) -> (r: Result<Out, SerError>) ensures r is Ok, r->Ok_0.json() == (if fin64(v) { Json::F64(v) } else { Json::Null }) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_str(self, v: &str) -> (r: Result<Out, SerError>) ensures r is Ok, r->Ok_0.json() == Json::Str(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_none(self) -> (r: Result<Out, SerError>) ensures r is Ok, r->Ok_0.json() == Json::Null { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_unit(self) -> (r: Result<Out, SerError>) ensures r is Ok, r->Ok_0.json() == Json::Null { unimplemented!() }
    #[verifier::external_body]
    pub fn collect_str<T: Display>(self, v: &T) -> (r: Result<Out, SerError>) ensures r is Ok, r->Ok_0.json() == Json::Str(v.shown()) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_seq(self, n: Option<usize>) -> (r: Result<SeqSer, SerError>) ensures r is Ok, r->Ok_0.items() == Seq::<Json>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_map(self, n: Option<usize>) -> (r: Result<MapSer, SerError>) ensures r is Ok, r->Ok_0.members() == Seq::<(Seq<char>, Json)>::empty() { unimplemented!() }
}
#[verifier::external_body]
pub struct SeqSer { x: u8 }
impl SeqSer {
    pub uninterp spec fn items(&self) -> Seq<Json>;
    #[verifier::external_body]
    pub fn end(self) -> (r: Result<Out, SerError>) ensures r is Ok, r->Ok_0.json() == Json::Arr(self.items()) { unimplemented!() }
}
#[verifier::external_body]
pub struct MapSer { x: u8 }
impl MapSer {
    pub uninterp spec fn members(&self) -> Seq<(Seq<char>, Json)>;
    #[verifier::external_body]
    pub fn end(self) -> (r: Result<Out, SerError>) ensures r is Ok, r->Ok_0.json() == Json::Obj(self.members()) { unimplemented!() }
}

// ---- floats
pub uninterp spec fn fin32(v: f32) -> bool;
pub uninterp spec fn inf32(v: f32) -> bool;
pub uninterp spec fn neg_inf32(v: f32) -> bool;
pub uninterp spec fn nan32(v: f32) -> bool;
pub uninterp spec fn fin64(v: f64) -> bool;
pub uninterp spec fn inf64(v: f64) -> bool;
pub uninterp spec fn neg_inf64(v: f64) -> bool;
pub uninterp spec fn nan64(v: f64) -> bool;
/// A float is finite, one of the infinities or a NaN.
pub broadcast axiom fn f32_classes(v: f32)
    ensures
        #![trigger fin32(v)] #![trigger inf32(v)] #![trigger neg_inf32(v)] #![trigger nan32(v)]
        fin32(v) || inf32(v) || neg_inf32(v) || nan32(v),
        !(inf32(v) && (fin32(v) || neg_inf32(v) || nan32(v))), !(neg_inf32(v) && (fin32(v) || nan32(v))), !(fin32(v) && nan32(v));
pub broadcast axiom fn f64_classes(v: f64)
    ensures
        #![trigger fin64(v)] #![trigger inf64(v)] #![trigger neg_inf64(v)] #![trigger nan64(v)]
        fin64(v) || inf64(v) || neg_inf64(v) || nan64(v),
        !(inf64(v) && (fin64(v) || neg_inf64(v) || nan64(v))), !(neg_inf64(v) && (fin64(v) || nan64(v))), !(fin64(v) && nan64(v));
/// There is one infinity of each sign.
pub broadcast axiom fn f32_infinities(v: f32, w: f32) ensures #![trigger inf32(v), inf32(w)] #![trigger neg_inf32(v), neg_inf32(w)] inf32(v) && inf32(w) || neg_inf32(v) && neg_inf32(w) ==> v == w;
pub broadcast axiom fn f64_infinities(v: f64, w: f64) ensures #![trigger inf64(v), inf64(w)] #![trigger neg_inf64(v), neg_inf64(w)] inf64(v) && inf64(w) || neg_inf64(v) && neg_inf64(w) ==> v == w;
#[verifier::external_body]
fn f32_finite(v: f32) -> (r: bool) ensures r == fin32(v) { unimplemented!() }
#[verifier::external_body]
fn f32_is_inf(v: f32) -> (r: bool) ensures r == inf32(v) { unimplemented!() }
#[verifier::external_body]
fn f32_is_neg_inf(v: f32) -> (r: bool) ensures r == neg_inf32(v) { unimplemented!() }
#[verifier::external_body]
fn f32_infinite(v: f32) -> (r: bool) ensures r == (inf32(v) || neg_inf32(v)) { unimplemented!() }
#[verifier::external_body]
fn f32_nan(v: f32) -> (r: bool) ensures r == nan32(v) { unimplemented!() }
#[verifier::external_body]
fn f64_finite(v: f64) -> (r: bool) ensures r == fin64(v) { unimplemented!() }
#[verifier::external_body]
fn f64_is_inf(v: f64) -> (r: bool) ensures r == inf64(v) { unimplemented!() }
#[verifier::external_body]
fn f64_is_neg_inf(v: f64) -> (r: bool) ensures r == neg_inf64(v) { unimplemented!() }
#[verifier::external_body]
fn f64_nan(v: f64) -> (r: bool) ensures r == nan64(v) { unimplemented!() }
pub open spec fn f32_json(v: f32) -> Json {
    if fin32(v) { Json::F32(v) } else if inf32(v) { Json::Str("Infinity"@) } else if neg_inf32(v) { Json::Str("-Infinity"@) } else { Json::Str("NaN"@) }
}
pub open spec fn f64_json(v: f64) -> Json {
    if fin64(v) { Json::F64(v) } else if inf64(v) { Json::Str("Infinity"@) } else if neg_inf64(v) { Json::Str("-Infinity"@) } else { Json::Str("NaN"@) }
}
