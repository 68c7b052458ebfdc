//@@ props P21
//@@ include head.rs
use vstd::string::*;
use vstd::utf8::*;
//@@ include names.rs
//@@ include bytes.rs
//@@ include own_value.rs
#[verifier::external_body]
fn unreached<A>() -> A requires false { unimplemented!() }
broadcast use group_utf8_lib;
/// google.protobuf.UninterpretedOption, as prost-types declares it
#[verifier::external_body] pub struct NamePart { x: u8 }
pub struct UninterpretedOption {
    pub name: Vec<NamePart>, pub identifier_value: Option<String>, pub positive_int_value: Option<u64>, pub negative_int_value: Option<i64>,
    pub double_value: Option<f64>, pub string_value: Option<Vec<u8>>, pub aggregate_value: Option<String>,
}
// ---- std (assumed)
pub trait Integer: Sized { spec fn of(i: int) -> Option<Self>; spec fn int(self) -> int; }
impl Integer for i32 { open spec fn of(i: int) -> Option<i32> { if i32::MIN <= i <= i32::MAX { Some(i as i32) } else { None } } open spec fn int(self) -> int { self as int } }
impl Integer for u32 { open spec fn of(i: int) -> Option<u32> { if 0 <= i <= u32::MAX { Some(i as u32) } else { None } } open spec fn int(self) -> int { self as int } }
impl Integer for i64 { open spec fn of(i: int) -> Option<i64> { if i64::MIN <= i <= i64::MAX { Some(i as i64) } else { None } } open spec fn int(self) -> int { self as int } }
impl Integer for u64 { open spec fn of(i: int) -> Option<u64> { if 0 <= i <= u64::MAX { Some(i as u64) } else { None } } open spec fn int(self) -> int { self as int } }
/// `try_into`
#[verifier::external_body]
fn converted<A: Integer, T: Integer>(a: A) -> (r: Result<T, ()>) ensures match r { Ok(v) => T::of(a.int()) == Some(v), Err(_) => T::of(a.int()) is None } { unimplemented!() }
/// `as f64` and `as f32`: the nearest float
pub uninterp spec fn nearest(i: int) -> f64;
pub uninterp spec fn narrowed(f: f64) -> f32;
#[verifier::external_body]
fn to_f64<A: Integer>(a: A) -> (r: f64) ensures r == nearest(a.int()) { unimplemented!() }
#[verifier::external_body]
fn to_f32(a: f64) -> (r: f32) ensures r == narrowed(a) { unimplemented!() }
/// Texts are what they say: `match` with a literal compares the text.
#[verifier::external_body]
fn text_ref(o: &Option<String>) -> (r: Option<&str>) ensures match (o, r) { (Some(s), Some(x)) => x@ == s@, (None, None) => true, _ => false }, r is Some ==> forall|l: &str| #[trigger] l@ == r->0@ ==> l == r->0 { unimplemented!() }
#[verifier::external_body]
fn text_of(b: &Vec<u8>) -> (r: Result<String, ()>) ensures match r { Ok(s) => valid_utf8(b@) && s@ == decode_utf8(b@), Err(_) => !valid_utf8(b@) } { unimplemented!() }
impl Bytes {
    #[verifier::external_body]
    fn copy_from_slice(b: &[u8]) -> (r: Bytes) ensures r@ == b@ { unimplemented!() }
}
// ---- descriptors and messages (lookup.rs, P18, P05)
#[verifier::external_body] pub struct EnumDescriptor { x: u8 }
#[verifier::external_body] pub struct EnumValueDescriptor { x: u8 }
pub uninterp spec fn value_named(d: EnumDescriptor, name: Seq<char>) -> Option<i32>;
pub uninterp spec fn number_of(v: EnumValueDescriptor) -> i32;
impl EnumDescriptor {
    #[verifier::external_body]
    fn get_value_by_name(&self, name: &str) -> (r: Option<EnumValueDescriptor>) ensures match r { Some(v) => value_named(*self, name@) == Some(number_of(v)), None => value_named(*self, name@) is None } { unimplemented!() }
}
impl EnumValueDescriptor {
    #[verifier::external_body]
    fn number(&self) -> (r: i32) ensures r == number_of(*self) { unimplemented!() }
}
#[verifier::external_body] pub struct MessageDescriptor { x: u8 }
#[verifier::external_body] pub struct ParseError { x: u8 }
pub uninterp spec fn text_read(d: MessageDescriptor, text: Seq<char>) -> Option<DynamicMessage>;
pub uninterp spec fn is_entry(d: MessageDescriptor) -> bool;
/// the field of that number: its value or default (P05)
pub uninterp spec fn field_value(m: DynamicMessage, number: u32) -> Option<Value>;
pub uninterp spec fn as_key(v: Value) -> Option<MapKey>;
impl DynamicMessage {
    #[verifier::external_body]
    fn parse_text_format(d: MessageDescriptor, s: &str) -> (r: Result<DynamicMessage, ParseError>) ensures match r { Ok(m) => text_read(d, s@) == Some(m), Err(_) => text_read(d, s@) is None } { unimplemented!() }
    /// get_field_by_number(..) and into_owned()
    #[verifier::external_body]
    fn owned_field(&self, number: u32) -> (r: Option<Value>) ensures r == field_value(*self, number) { unimplemented!() }
}
impl MessageDescriptor {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Value {
    #[verifier::external_body]
    fn into_map_key(self) -> (r: Option<MapKey>) ensures r == as_key(self) { unimplemented!() }
}
// ---- what an option says
pub open spec fn bool_of(o: UninterpretedOption) -> Option<bool> {
    match o.identifier_value { Some(s) => if s@ == "true"@ { Some(true) } else if s@ == "false"@ { Some(false) } else { None }, None => None }
}
pub open spec fn int_of(o: UninterpretedOption) -> Option<int> {
    match (o.positive_int_value, o.negative_int_value) { (Some(i), _) => Some(i as int), (None, Some(i)) => Some(i as int), _ => None }
}
pub open spec fn float_of(o: UninterpretedOption) -> Option<f64> {
    match o.double_value { Some(f) => Some(f), None => match int_of(o) { Some(i) => Some(nearest(i)), None => None } }
}
pub open spec fn bytes_of(o: UninterpretedOption) -> Option<Seq<u8>> { match o.string_value { Some(b) => Some(b@), None => None } }
pub open spec fn string_of(o: UninterpretedOption) -> Option<Seq<char>> { match o.string_value { Some(b) => if valid_utf8(b@) { Some(decode_utf8(b@)) } else { None }, None => None } }
pub open spec fn enum_of(o: UninterpretedOption, d: EnumDescriptor) -> Option<i32> { match o.identifier_value { Some(s) => value_named(d, s@), None => None } }
pub open spec fn message_of(o: UninterpretedOption, d: MessageDescriptor) -> Option<DynamicMessage> { match o.aggregate_value { Some(s) => text_read(d, s@), None => None } }
pub open spec fn entry_of(o: UninterpretedOption, d: MessageDescriptor) -> Option<(MapKey, Value)> {
    match message_of(o, d) {
        Some(m) => match (field_value(m, 1), field_value(m, 2)) { (Some(k), Some(v)) => match as_key(k) { Some(k) => Some((k, v)), None => None }, _ => None },
        None => None,
    }
}
// ---- setting a value
pub type GKey = MapKey;
/// the entries of a map by key (keys are compared as values)
pub uninterp spec fn contents(m: HashMap<MapKey, Value>) -> Map<GKey, Value>;
#[verifier::external_body]
fn map_put(m: &mut HashMap<MapKey, Value>, key: MapKey, value: Value) ensures contents(*final(m)) == contents(*old(m)).insert(key, value) { unimplemented!() }
//@@ item prost-reflect/src/descriptor/mod.rs enum Kind
impl Kind {
    #[verifier::external_body]
    fn as_enum(&self) -> (r: Option<&EnumDescriptor>) ensures match *self { Kind::Enum(d) => r == Some(&d), _ => r is None } { unimplemented!() }
    #[verifier::external_body]
    fn as_message(&self) -> (r: Option<&MessageDescriptor>) ensures match *self { Kind::Message(d) => r == Some(&d), _ => r is None } { unimplemented!() }
}
pub trait FieldDescriptorLike { spec fn s_kind(&self) -> Kind; fn kind(&self) -> (r: Kind) ensures r == self.s_kind(); }
/// A single value of the kind (P05, P07).
pub open spec fn of_kind(v: Value, k: Kind) -> bool {
    match k {
        Kind::Double => v is F64, Kind::Float => v is F32, Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => v is I32, Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => v is I64,
        Kind::Uint32 | Kind::Fixed32 => v is U32, Kind::Uint64 | Kind::Fixed64 => v is U64, Kind::Bool => v is Bool, Kind::String => v is String, Kind::Bytes => v is Bytes,
        Kind::Message(_) => v is Message, Kind::Enum(_) => v is EnumNumber,
    }
}
impl Value {
    #[verifier::external_body]
    fn default_value(k: &Kind) -> (r: Value) ensures of_kind(r, *k) { unimplemented!() }
}
/// `v` is what a single field of the kind is set to.
pub open spec fn says(o: UninterpretedOption, k: Kind, v: Value) -> bool {
    of_kind(v, k) && match v {
        Value::Bool(b) => bool_of(o) == Some(b),
        Value::I32(i) => int_of(o) == Some(i as int), Value::I64(i) => int_of(o) == Some(i as int), Value::U32(i) => int_of(o) == Some(i as int), Value::U64(i) => int_of(o) == Some(i as int),
        Value::F32(f) => float_of(o) is Some && f == narrowed(float_of(o)->0), Value::F64(f) => float_of(o) == Some(f),
        Value::String(s) => string_of(o) == Some(s@), Value::Bytes(b) => bytes_of(o) == Some(b@),
        Value::EnumNumber(n) => enum_of(o, k->Enum_0) == Some(n), Value::Message(m) => message_of(o, k->Message_0) == Some(m),
        _ => false,
    }
}
/// The option says something of that kind.
pub open spec fn fits(o: UninterpretedOption, k: Kind) -> bool {
    match k {
        Kind::Double | Kind::Float => float_of(o) is Some,
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => int_of(o) is Some && i32::MIN <= int_of(o)->0 <= i32::MAX, Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => int_of(o) is Some && i64::MIN <= int_of(o)->0 <= i64::MAX,
        Kind::Uint32 | Kind::Fixed32 => int_of(o) is Some && 0 <= int_of(o)->0 <= u32::MAX, Kind::Uint64 | Kind::Fixed64 => int_of(o) is Some && 0 <= int_of(o)->0 <= u64::MAX,
        Kind::Bool => bool_of(o) is Some, Kind::String => string_of(o) is Some, Kind::Bytes => bytes_of(o) is Some,
        Kind::Message(d) => message_of(o, d) is Some, Kind::Enum(d) => enum_of(o, d) is Some,
    }
}
/// What a field holding `a` holds afterwards: single values are replaced, lists get one more element at the end, maps one entry.
pub open spec fn value_set(a: Value, b: Value, k: Kind, o: UninterpretedOption) -> bool {
    match (a, b) {
        (Value::List(x), Value::List(y)) => y@.len() == x@.len() + 1 && y@.drop_last() =~= x@ && says(o, k, y@.last()),
        (Value::Map(x), Value::Map(y)) => k is Message && entry_of(o, k->Message_0) is Some && contents(y) == contents(x).insert(entry_of(o, k->Message_0).unwrap().0, entry_of(o, k->Message_0).unwrap().1),
        (Value::List(_), _) | (Value::Map(_), _) => false,
        _ => says(o, k, b),
    }
}
pub open spec fn accepted(a: Value, k: Kind, o: UninterpretedOption) -> bool { if a is Map { entry_of(o, k->Message_0) is Some } else { fits(o, k) } }
//@@ item prost-reflect/src/descriptor/mod.rs const MAP_ENTRY_KEY_NUMBER
//@@ item prost-reflect/src/descriptor/mod.rs const MAP_ENTRY_VALUE_NUMBER
#[verifier::external_body] pub struct DescriptorErrorKind { x: u8 }
#[verifier::external_body]
fn invalid() -> DescriptorErrorKind { unimplemented!() }
//@@ fn prost-reflect/src/descriptor/build/options.rs option_to_bool
//@@ ret r
//@@ subst? $x:e . as_deref ( ) ==>> text_ref(&$x)
//@@ spec
    ensures r == (match bool_of(*$p0) { Some(b) => Ok(b), None => Err(()) }),
//@@ start
    proof { reveal_strlit("true"); reveal_strlit("false"); assert("true"@[0] != "false"@[0]); assert("true"@ == "true"@ && "false"@ == "false"@); }
//@@ end
//@@ fn prost-reflect/src/descriptor/build/options.rs option_to_int
//@@ sig fn option_to_int<T: Integer>(option: &UninterpretedOption) -> (r: Result<T, ()>)
//@@ subst? int ==>> int_
//@@ subst? $i:id . try_into ( ) . map_err ( drop ) ==>> converted($i)
//@@ spec
    ensures match int_of(*$p0) { Some(i) => match T::of(i) { Some(v) => r == Ok::<T, ()>(v), None => r is Err }, None => r is Err },
//@@ end
//@@ fn prost-reflect/src/descriptor/build/options.rs option_to_float
//@@ ret r
//@@ subst? int ==>> int_
//@@ subst? $i:id as f64 ==>> to_f64($i)
//@@ spec
    ensures r == (match float_of(*$p0) { Some(f) => Ok(f), None => Err(()) }),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/options.rs option_to_string
//@@ ret r
//@@ subst? String :: from_utf8 ( $b:id . clone ( ) ) . map_err ( drop ) ==>> text_of($b)
//@@ spec
    ensures match r { Ok(s) => string_of(*$p0) == Some(s@), Err(_) => string_of(*$p0) is None },
//@@ end
//@@ fn prost-reflect/src/descriptor/build/options.rs option_to_bytes
//@@ ret r
//@@ spec
    ensures match r { Ok(b) => bytes_of(*$p0) == Some(b@), Err(_) => bytes_of(*$p0) is None },
//@@ end
//@@ fn prost-reflect/src/descriptor/build/options.rs option_to_enum
//@@ ret r
//@@ spec
    ensures match r { Ok(n) => enum_of(*$p0, *$p1) == Some(n), Err(_) => enum_of(*$p0, *$p1) is None },
//@@ end
//@@ fn prost-reflect/src/descriptor/build/options.rs option_to_message
//@@ ret r
//@@ subst? $x:e . map_err ( Some ) ==>> (match $x { Ok(m_) => Ok(m_), Err(e_) => Err(Some(e_)) })
//@@ spec
    ensures match r { Ok(m) => message_of(*$p0, *$p1) == Some(m), Err(_) => message_of(*$p0, *$p1) is None },
//@@ end
//@@ fn prost-reflect/src/descriptor/build/options.rs option_to_map_entry
//@@ ret r
//@@ subst? debug_assert ! $a:tt ; ==>> 
//@@ subst? $m:id . get_field_by_number ( $n ) . ok_or ( None ) ? . into_owned ( ) ==>> (match $m.owned_field($n) { Some(v_) => v_, None => return Err(None) })
//@@ subst? $x:e . ok_or ( None ) ? ==>> (match $x { Some(v_) => v_, None => return Err(None) })
//@@ spec
    ensures match r { Ok((k, v)) => entry_of(*$p0, *$p1) == Some((k, v)), Err(_) => entry_of(*$p0, *$p1) is None },
//@@ end
pub struct OptionsVisitor { x: u8 }
impl OptionsVisitor {
//@@ fn prost-reflect/src/descriptor/build/options.rs OptionsVisitor::set_field_value
//@@ sig fn set_field_value<D: FieldDescriptorLike>(&self, value: &mut Value, resolved_path: &mut Vec<i32>, desc: &D, option: &UninterpretedOption, file: u32, path: &[i32]) -> (r: Result<(), DescriptorErrorKind>)
//@@ subst? let err = | ( ) | DescriptorErrorKind :: $v:id $b:b ; ==>> 
//@@ subst? let parse_err = | parse_err | match parse_err $b:b ; ==>> 
//@@ subst? $x:e . map_err ( $f:id ) ? as f32 ==>> to_f32(match $x { Ok(v_) => v_, Err(_) => return Err(invalid()) })
//@@ subst? $x:e . map_err ( $f:id ) ? ==>> (match $x { Ok(v_) => v_, Err(_) => return Err(invalid()) })
//@@ subst? value . insert ( $k , $v ) ==>> map_put(value, $k, $v)
//@@ subst? desc . kind ( ) . as_enum ( ) . unwrap ( ) ==>> kind_.as_enum().unwrap()
//@@ subst? desc . kind ( ) . as_message ( ) . unwrap ( ) ==>> kind_.as_message().unwrap()
//@@ spec
    requires
        match *old($p1) { Value::List(l) => l@.len() <= i32::MAX, Value::Map(_) => $p3.s_kind() is Message, v => of_kind(v, $p3.s_kind()) },
    ensures
        r is Ok == accepted(*old($p1), $p3.s_kind(), *$p4),
        match r { Ok(_) => value_set(*old($p1), *final($p1), $p3.s_kind(), *$p4), Err(_) => *final($p1) == *old($p1) },
        match *old($p1) { Value::List(l) => final($p2)@ == old($p2)@.push(l@.len() as i32), _ => final($p2)@ == old($p2)@ },
    decreases *old($p1) is List as int,
//@@ start
    let kind_ = desc.kind();
//@@ end
}
fn main() {}
}
