// ---- messages, and the tokens of their text
use vstd::string::*;
use vstd::utf8::*;
use std::collections::HashMap;
//@@ item prost-reflect/src/dynamic/mod.rs enum Value
//@@ item prost-reflect/src/dynamic/mod.rs enum MapKey
//@@ item prost-reflect/src/descriptor/mod.rs enum Kind
//@@ item prost-reflect/src/dynamic/text_format/mod.rs struct FormatOptions
#[verifier::external_body]
pub struct MessageDescriptor { x: u8 }
#[verifier::external_body]
pub struct EnumDescriptor { x: u8 }
#[verifier::external_body]
pub struct EnumValueDescriptor { x: u8 }
#[verifier::external_body]
pub struct FieldDescriptor { x: u8 }
#[verifier::external_body]
pub struct ExtensionDescriptor { x: u8 }
#[verifier::external_body]
pub struct OneofDescriptor { x: u8 }
#[verifier::external_body]
pub struct DescriptorPool { x: u8 }
#[verifier::external_body]
pub struct Bytes { x: u8 }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Bytes {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
/// The stored values of a message (DynamicMessageFieldSet), by field number.
#[verifier::external_body]
pub struct FieldSet { x: u8 }
pub type Slots = Map<u32, Value>;
impl View for FieldSet { type V = Slots; uninterp spec fn view(&self) -> Slots; }
pub struct DynamicMessage { pub desc: MessageDescriptor, pub fields: FieldSet }
/// std::borrow::Cow
pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
pub open spec fn cow<T>(c: Cow<'_, T>) -> T { match c { Cow::Borrowed(v) => *v, Cow::Owned(v) => v } }
impl<'a, T> Cow<'a, T> { fn get(&self) -> (r: &T) ensures *r == cow(*self) { match self { Cow::Borrowed(v) => v, Cow::Owned(v) => v } } }
#[verifier::external_body]
pub struct UnknownFieldSet { x: u8 }
#[verifier::external_body]
pub struct UnknownField { x: u8 }
//@@ item prost-reflect/src/dynamic/fields.rs enum ValueAndDescriptor

impl EnumValueDescriptor {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    pub uninterp spec fn s_number(&self) -> i32;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    #[verifier::external_body]
    pub fn number(&self) -> (r: i32) ensures r == self.s_number() { unimplemented!() }
}
impl EnumDescriptor {
    pub uninterp spec fn s_value(&self, number: i32) -> Option<EnumValueDescriptor>;
    pub uninterp spec fn s_named(&self, name: Seq<char>) -> Option<EnumValueDescriptor>;
    #[verifier::external_body]
    pub fn full_name(&self) -> &str { unimplemented!() }
    #[verifier::external_body]
    pub fn get_value(&self, number: i32) -> (r: Option<EnumValueDescriptor>) ensures r == self.s_value(number) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_value_by_name(&self, name: &str) -> (r: Option<EnumValueDescriptor>) ensures r == self.s_named(name@) { unimplemented!() }
}
impl OneofDescriptor {
    pub uninterp spec fn s_fields(&self) -> Seq<FieldDescriptor>;
    #[verifier::external_body]
    pub fn fields(&self) -> (r: Vec<FieldDescriptor>) ensures r@ == self.s_fields() { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> &str { unimplemented!() }
}
/// What is used of a field or an extension here.
pub trait FieldDescriptorLike {
    spec fn s_kind(&self) -> Kind;
    spec fn s_list(&self) -> bool;
    spec fn s_map(&self) -> bool;
    spec fn s_group(&self) -> bool;
    spec fn s_number(&self) -> u32;
    /// The field counts as present whenever it is stored.
    spec fn s_presence(&self) -> bool;
    spec fn s_is_default(&self, v: Value) -> bool;
    spec fn s_default(&self) -> Value;
    spec fn s_oneof(&self) -> Option<OneofDescriptor>;
    fn kind(&self) -> (r: Kind) ensures r == self.s_kind();
    fn is_list(&self) -> (r: bool) ensures r == self.s_list();
    fn is_map(&self) -> (r: bool) ensures r == self.s_map();
    fn is_group(&self) -> (r: bool) ensures r == self.s_group();
    fn containing_oneof(&self) -> (r: Option<OneofDescriptor>) ensures r == self.s_oneof();
    fn text_name(&self) -> &str;
}
impl FieldDescriptorLike for FieldDescriptor {
    uninterp spec fn s_kind(&self) -> Kind;
    uninterp spec fn s_list(&self) -> bool;
    uninterp spec fn s_map(&self) -> bool;
    uninterp spec fn s_group(&self) -> bool;
    uninterp spec fn s_number(&self) -> u32;
    uninterp spec fn s_presence(&self) -> bool;
    uninterp spec fn s_is_default(&self, v: Value) -> bool;
    uninterp spec fn s_default(&self) -> Value;
    uninterp spec fn s_oneof(&self) -> Option<OneofDescriptor>;
    #[verifier::external_body] fn kind(&self) -> (r: Kind) { unimplemented!() }
    #[verifier::external_body] fn is_list(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_map(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_group(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn containing_oneof(&self) -> (r: Option<OneofDescriptor>) { unimplemented!() }
    #[verifier::external_body] fn text_name(&self) -> &str { unimplemented!() }
}
impl FieldDescriptor {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
}
impl FieldDescriptorLike for ExtensionDescriptor {
    uninterp spec fn s_kind(&self) -> Kind;
    uninterp spec fn s_list(&self) -> bool;
    uninterp spec fn s_map(&self) -> bool;
    uninterp spec fn s_group(&self) -> bool;
    uninterp spec fn s_number(&self) -> u32;
    uninterp spec fn s_presence(&self) -> bool;
    uninterp spec fn s_is_default(&self, v: Value) -> bool;
    uninterp spec fn s_default(&self) -> Value;
    open spec fn s_oneof(&self) -> Option<OneofDescriptor> { None }
    #[verifier::external_body] fn kind(&self) -> (r: Kind) { unimplemented!() }
    #[verifier::external_body] fn is_list(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_map(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_group(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn containing_oneof(&self) -> (r: Option<OneofDescriptor>) { unimplemented!() }
    #[verifier::external_body] fn text_name(&self) -> &str { unimplemented!() }
}
impl ExtensionDescriptor {
    pub uninterp spec fn s_full_name(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn full_name(&self) -> (r: &str) ensures r@ == self.s_full_name() { unimplemented!() }
}
impl DescriptorPool {
    pub uninterp spec fn s_message(&self, n: Seq<char>) -> Option<MessageDescriptor>;
    #[verifier::external_body]
    pub fn get_message_by_name(&self, n: &str) -> (r: Option<MessageDescriptor>) ensures r == self.s_message(n@) { unimplemented!() }
}
impl MessageDescriptor {
    pub uninterp spec fn s_full_name(&self) -> Seq<char>;
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    pub uninterp spec fn s_entry(&self) -> bool;
    pub uninterp spec fn s_field(&self, number: u32) -> Option<FieldDescriptor>;
    pub uninterp spec fn s_by_name(&self, n: Seq<char>) -> Option<FieldDescriptor>;
    pub uninterp spec fn s_extension(&self, n: Seq<char>) -> Option<ExtensionDescriptor>;
    pub uninterp spec fn s_pool(&self) -> DescriptorPool;
    pub open spec fn key_field(&self) -> FieldDescriptor { self.s_field(1)->Some_0 }
    pub open spec fn value_field(&self) -> FieldDescriptor { self.s_field(2)->Some_0 }
    #[verifier::external_body]
    pub fn full_name(&self) -> (r: &str) ensures r@ == self.s_full_name() { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    #[verifier::external_body]
    pub fn map_entry_value_field(&self) -> (r: FieldDescriptor) requires self.s_entry(), ensures r == self.value_field() { unimplemented!() }
    #[verifier::external_body]
    pub fn parent_pool(&self) -> (r: &DescriptorPool) ensures *r == self.s_pool() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_field_by_name(&self, n: &str) -> (r: Option<FieldDescriptor>) ensures r == self.s_by_name(n@), r is Some ==> field_ok(&r->0) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_extension_by_full_name(&self, n: &str) -> (r: Option<ExtensionDescriptor>) ensures r == self.s_extension(n@), r is Some ==> field_ok(&r->0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: MessageDescriptor) ensures r == *self { unimplemented!() }
}
impl Kind {
//@@ fn prost-reflect/src/descriptor/api.rs Kind::as_message
//@@ ret r
//@@ spec
    ensures *self is Message ==> r == Some(&self->Message_0), !(*self is Message) ==> r is None,
//@@ end
}
pub open spec fn key_kind(k: Kind) -> bool { !(k is Float || k is Double || k is Bytes || k is Enum || k is Message) }
pub open spec fn entry_kind(k: Kind) -> bool {
    k is Message && {
        let m = k->Message_0;
        &&& m.s_entry() && m.s_field(1) is Some && m.s_field(2) is Some
        &&& !m.key_field().s_list() && !m.key_field().s_map() && !m.key_field().s_group() && key_kind(m.key_field().s_kind()) && m.key_field().s_number() == 1
        &&& !m.value_field().s_list() && !m.value_field().s_map() && !m.value_field().s_group() && m.value_field().s_number() == 2
        &&& m.key_field().s_oneof() is None && m.value_field().s_oneof() is None
        &&& m.key_field().s_name() == "key"@ && m.value_field().s_name() == "value"@
        &&& m.s_by_name("key"@) == Some(m.key_field()) && m.s_by_name("value"@) == Some(m.value_field())
        &&& m.s_full_name() != "google.protobuf.Any"@
    }
}
/// What an accepted descriptor guarantees about a field.
pub open spec fn field_ok<D: FieldDescriptorLike + ?Sized>(d: &D) -> bool {
    !(d.s_list() && d.s_map()) && (d.s_map() ==> entry_kind(d.s_kind()) && !d.s_group()) && (d.s_group() ==> d.s_kind() is Message)
}
pub open spec fn scalar_ok(v: Value, k: Kind) -> bool {
    match k {
        Kind::Bool => v is Bool,
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => v is I32,
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => v is I64,
        Kind::Uint32 | Kind::Fixed32 => v is U32,
        Kind::Uint64 | Kind::Fixed64 => v is U64,
        Kind::Float => v is F32,
        Kind::Double => v is F64,
        Kind::String => v is String,
        Kind::Bytes => v is Bytes,
        Kind::Enum(_) => v is EnumNumber,
        Kind::Message(d) => v is Message && v->Message_0.desc == d,
    }
}
pub open spec fn key_ok(m: MapKey, k: Kind) -> bool {
    match k {
        Kind::Bool => m is Bool,
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => m is I32,
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => m is I64,
        Kind::Uint32 | Kind::Fixed32 => m is U32,
        Kind::Uint64 | Kind::Fixed64 => m is U64,
        Kind::String => m is String,
        _ => false,
    }
}
/// The contents of a map in the order in which it iterates, which is fixed while it is not changed.
pub uninterp spec fn entries(m: HashMap<MapKey, Value>) -> Seq<(MapKey, Value)>;
/// An iterator (assumed contracts of std): what it still yields
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Items<T> { x: Vec<T> }
impl<T> Items<T> {
    pub uninterp spec fn items(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self).items().len() > 0 && x == old(self).items()[0] && final(self).items() == old(self).items().skip(1),
            None => old(self).items().len() == 0 && final(self).items() == old(self).items(),
        },
    { unimplemented!() }
}
/// A value of a field of this kind.
pub open spec fn typed(v: Value, k: Kind) -> bool {
    match v {
        Value::List(vs) => forall|i: int| 0 <= i < vs@.len() ==> scalar_ok(#[trigger] vs@[i], k),
        Value::Map(m) => entry_kind(k)
            && forall|i: int| 0 <= i < entries(m).len() ==> key_ok((#[trigger] entries(m)[i]).0, k->Message_0.key_field().s_kind()) && scalar_ok(entries(m)[i].1, k->Message_0.value_field().s_kind()),
        _ => scalar_ok(v, k),
    }
}

// ---- tokens
pub enum Tok { Ident(Seq<char>), Int(int), Float(Seq<char>), Str(Seq<u8>), Dot, Minus, LeftBrace, RightBrace, LeftBracket, RightBracket, LeftAngle, RightAngle, Comma, Colon, Semicolon, Slash, Other(char) }
pub open spec fn letter(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || c == '_' }
pub open spec fn word_char(c: char) -> bool { letter(c) || '0' <= c <= '9' }
pub open spec fn ident(s: Seq<char>) -> bool { s.len() > 0 && letter(s[0]) && forall|i: int| 0 <= i < s.len() ==> word_char(#[trigger] s[i]) }
pub open spec fn mark(c: char) -> Seq<Tok> {
    if c == ' ' || c == '\n' { Seq::empty() } else {
        seq![if c == '{' { Tok::LeftBrace } else if c == '}' { Tok::RightBrace } else if c == '[' { Tok::LeftBracket } else if c == ']' { Tok::RightBracket }
            else if c == '.' { Tok::Dot } else if c == ',' { Tok::Comma } else if c == ':' { Tok::Colon } else if c == '/' { Tok::Slash } else { Tok::Other(c) }]
    }
}
/// Where the word at the start of a text ends.
pub open spec fn word_end(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() > 0 && word_char(s[0]) { 1 + word_end(s.skip(1)) } else { 0 }
}
/// The tokens of a text made of words and marks.
pub open spec fn scan(s: Seq<char>) -> Seq<Tok>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if word_char(s[0]) { if 0 < word_end(s) <= s.len() { seq![Tok::Ident(s.take(word_end(s)))] + scan(s.skip(word_end(s))) } else { Seq::empty() } }
    else { mark(s[0]) + scan(s.skip(1)) }
}
pub open spec fn ends_apart(s: Seq<char>) -> bool { s.len() > 0 && !word_char(s.last()) }
/// Identifiers and dots between them.
pub open spec fn dotted(t: Seq<Tok>) -> bool
    decreases t.len()
{
    t.len() > 0 && t[0] is Ident && (t.len() == 1 || t.len() >= 3 && t[1] is Dot && dotted(t.skip(2)))
}
/// A name of identifiers joined by dots.
pub open spec fn name_ok(s: Seq<char>) -> bool { dotted(scan(s)) && (forall|i: int| 0 <= i < s.len() ==> word_char(#[trigger] s[i]) || s[i] == '.') }

pub open spec fn int_toks(i: int) -> Seq<Tok> { if i < 0 { seq![Tok::Minus, Tok::Int(-i)] } else { seq![Tok::Int(i)] } }
pub open spec fn bool_toks(b: bool) -> Seq<Tok> { seq![Tok::Ident(if b { "true"@ } else { "false"@ })] }
/// A floating point type: its text as `{}` and as `{:.1}`, and how texts are read.
pub trait Real: Sized {
    spec fn plain(self) -> Seq<Tok>;
    spec fn one_place(self) -> Seq<Tok>;
    spec fn s_integral(self) -> bool;
    spec fn nan(self) -> bool;
    spec fn infinite(self) -> bool;
    spec fn minus(self) -> bool;
    spec fn negated(self) -> Self;
    spec fn inf() -> Self;
    /// what the text of a literal, without a suffix f, is read as
    spec fn read(s: Seq<char>) -> Option<Self>;
}
impl Real for f32 {
    uninterp spec fn plain(self) -> Seq<Tok>;
    uninterp spec fn one_place(self) -> Seq<Tok>;
    uninterp spec fn s_integral(self) -> bool;
    uninterp spec fn nan(self) -> bool;
    uninterp spec fn infinite(self) -> bool;
    uninterp spec fn minus(self) -> bool;
    uninterp spec fn negated(self) -> Self;
    uninterp spec fn inf() -> Self;
    uninterp spec fn read(s: Seq<char>) -> Option<Self>;
}
impl Real for f64 {
    uninterp spec fn plain(self) -> Seq<Tok>;
    uninterp spec fn one_place(self) -> Seq<Tok>;
    uninterp spec fn s_integral(self) -> bool;
    uninterp spec fn nan(self) -> bool;
    uninterp spec fn infinite(self) -> bool;
    uninterp spec fn minus(self) -> bool;
    uninterp spec fn negated(self) -> Self;
    uninterp spec fn inf() -> Self;
    uninterp spec fn read(s: Seq<char>) -> Option<Self>;
}
pub open spec fn sign(b: bool) -> Seq<Tok> { if b { seq![Tok::Minus] } else { Seq::empty() } }
pub uninterp spec fn unsuffixed(s: Seq<char>) -> Seq<char>;
pub open spec fn real_toks<T: Real>(v: T) -> Seq<Tok> { if v.s_integral() { v.one_place() } else { v.plain() } }
/// Display of core writes a NaN as NaN, infinities as inf, and other numbers so that they are read back exactly:
/// integral ones with one place, others in full (assumed).
pub broadcast axiom fn real_text<T: Real>(v: T)
    ensures ({
        let t = #[trigger] real_toks(v);
        if v.nan() { t == seq![Tok::Ident("NaN"@)] }
        else if v.infinite() { t == sign(v.minus()) + seq![Tok::Ident("inf"@)] && v == (if v.minus() { T::inf().negated() } else { T::inf() }) }
        else {
            t.len() == sign(v.minus()).len() + 1 && t.take(t.len() - 1) == sign(v.minus()) && t.last() is Float
            && T::read(unsuffixed(t.last()->Float_0)) is Some && v == (if v.minus() { T::read(unsuffixed(t.last()->Float_0))->Some_0.negated() } else { T::read(unsuffixed(t.last()->Float_0))->Some_0 })
        }
    });

/// The text of a message, defined by recursion over the messages in it (message_text).
pub uninterp spec fn message_toks(m: DynamicMessage, o: FormatOptions) -> Seq<Tok>;
pub axiom fn message_text(m: DynamicMessage, o: FormatOptions) ensures message_toks(m, o) == body_toks(m, o);
/// What iterating over the message yields: the fields which are present, with `all` also those without presence.
pub uninterp spec fn s_members<'a>(m: DynamicMessage, all: bool, index_order: bool) -> Seq<ValueAndDescriptor<'a>>;
pub uninterp spec fn unknown_toks(u: UnknownFieldSet, o: FormatOptions) -> Seq<Tok>;
pub open spec fn members<'a>(m: DynamicMessage, o: FormatOptions) -> Seq<ValueAndDescriptor<'a>> {
    let ms = s_members(m, !o.skip_default_fields, o.print_message_fields_in_index_order);
    if o.skip_unknown_fields { ms.filter(|v: ValueAndDescriptor| !(v is Unknown)) } else { ms }
}
pub open spec fn message_value_toks(m: DynamicMessage, o: FormatOptions) -> Seq<Tok> {
    if members(m, o).len() == 0 { seq![Tok::LeftBrace, Tok::RightBrace] } else { seq![Tok::LeftBrace] + message_toks(m, o) + seq![Tok::RightBrace] }
}
pub open spec fn body_toks(m: DynamicMessage, o: FormatOptions) -> Seq<Tok> {
    if o.expand_any && any_of(m) is Some {
        let (url, body) = any_of(m)->Some_0;
        seq![Tok::LeftBracket] + scan(url) + seq![Tok::RightBracket] + message_value_toks(body, o)
    } else { delimited(members(m, o).map_values(member_fn(o)), o) }
}
pub open spec fn member_fn<'a>(o: FormatOptions) -> spec_fn(ValueAndDescriptor<'a>) -> Seq<Tok> { |v: ValueAndDescriptor<'a>| member_toks(v, o) }
/// Fields one after the other.
pub open spec fn delimited(ts: Seq<Seq<Tok>>, o: FormatOptions) -> Seq<Tok>
    decreases ts.len()
{
    if ts.len() == 0 { Seq::empty() }
    else if ts.len() == 1 { ts[0] }
    else { delimited(ts.drop_last(), o) + separator(o) + ts.last() }
}
pub open spec fn separator(o: FormatOptions) -> Seq<Tok> { if o.pretty { Seq::empty() } else { seq![Tok::Comma] } }
/// Elements with commas between them.
pub open spec fn listed(ts: Seq<Seq<Tok>>) -> Seq<Tok>
    decreases ts.len()
{
    if ts.len() == 0 { Seq::empty() }
    else if ts.len() == 1 { ts[0] }
    else { listed(ts.drop_last()) + seq![Tok::Comma] + ts.last() }
}
pub open spec fn scalar_toks(v: Value, k: Option<Kind>, o: FormatOptions) -> Seq<Tok> {
    match v {
        Value::Bool(b) => bool_toks(b),
        Value::I32(i) => int_toks(i as int),
        Value::I64(i) => int_toks(i as int),
        Value::U32(i) => int_toks(i as int),
        Value::U64(i) => int_toks(i as int),
        Value::F32(f) => real_toks(f),
        Value::F64(f) => real_toks(f),
        Value::String(s) => seq![Tok::Str(encode_utf8(s@))],
        Value::Bytes(b) => seq![Tok::Str(b@)],
        Value::EnumNumber(n) => if k is Some && k->Some_0 is Enum && k->Some_0->Enum_0.s_value(n) is Some { scan(k->Some_0->Enum_0.s_value(n)->Some_0.s_name()) } else { int_toks(n as int) },
        Value::Message(m) => message_value_toks(m, o),
        _ => Seq::empty(),
    }
}
pub open spec fn value_toks(v: Value, k: Option<Kind>, o: FormatOptions) -> Seq<Tok> {
    match v {
        Value::List(vs) => seq![Tok::LeftBracket] + listed(list_toks(vs@, k, o)) + seq![Tok::RightBracket],
        Value::Map(m) => seq![Tok::LeftBracket] + listed(map_toks(entries(m), k->Some_0->Message_0.value_field().s_kind(), o)) + seq![Tok::RightBracket],
        _ => scalar_toks(v, k, o),
    }
}
pub open spec fn list_toks(vs: Seq<Value>, k: Option<Kind>, o: FormatOptions) -> Seq<Seq<Tok>> { vs.map_values(|v: Value| scalar_toks(v, k, o)) }
pub open spec fn map_toks(es: Seq<(MapKey, Value)>, k: Kind, o: FormatOptions) -> Seq<Seq<Tok>> { es.map_values(|e: (MapKey, Value)| entry_toks(e, k, o)) }
pub open spec fn key_toks(k: MapKey) -> Seq<Tok> {
    match k {
        MapKey::Bool(b) => bool_toks(b),
        MapKey::I32(i) => int_toks(i as int),
        MapKey::I64(i) => int_toks(i as int),
        MapKey::U32(i) => int_toks(i as int),
        MapKey::U64(i) => int_toks(i as int),
        MapKey::String(s) => seq![Tok::Str(encode_utf8(s@))],
    }
}
pub open spec fn colon(v: Value) -> Seq<Tok> { if v is Message { Seq::empty() } else { seq![Tok::Colon] } }
pub open spec fn entry_toks(e: (MapKey, Value), k: Kind, o: FormatOptions) -> Seq<Tok> {
    seq![Tok::LeftBrace, Tok::Ident("key"@), Tok::Colon] + key_toks(e.0) + separator(o) + seq![Tok::Ident("value"@)] + colon(e.1) + scalar_toks(e.1, Some(k), o) + seq![Tok::RightBrace]
}
pub open spec fn name_toks<'a>(m: ValueAndDescriptor<'a>) -> Seq<Tok> {
    match m {
        ValueAndDescriptor::Field(_, d) => scan(if d.s_group() { d.s_kind()->Message_0.s_name() } else { d.s_name() }),
        ValueAndDescriptor::Extension(_, d) => seq![Tok::LeftBracket] + scan(d.s_full_name()) + seq![Tok::RightBracket],
        ValueAndDescriptor::Unknown(_) => Seq::empty(),
    }
}
pub open spec fn vd_value<'a>(m: ValueAndDescriptor<'a>) -> Value {
    match m { ValueAndDescriptor::Field(v, _) => cow(v), ValueAndDescriptor::Extension(v, _) => cow(v), ValueAndDescriptor::Unknown(_) => arbitrary() }
}
pub open spec fn vd_kind<'a>(m: ValueAndDescriptor<'a>) -> Kind {
    match m { ValueAndDescriptor::Field(_, d) => d.s_kind(), ValueAndDescriptor::Extension(_, d) => d.s_kind(), ValueAndDescriptor::Unknown(_) => arbitrary() }
}
pub open spec fn member_toks<'a>(m: ValueAndDescriptor<'a>, o: FormatOptions) -> Seq<Tok> {
    match m {
        ValueAndDescriptor::Unknown(u) => unknown_toks(*u, o),
        _ => name_toks(m) + colon(vd_value(m)) + value_toks(vd_value(m), Some(vd_kind(m)), o),
    }
}
pub open spec fn member_typed<'a>(m: ValueAndDescriptor<'a>) -> bool {
    match m {
        ValueAndDescriptor::Unknown(_) => true,
        ValueAndDescriptor::Field(v, d) => typed(cow(v), d.s_kind()) && ident(d.s_name()) && (d.s_group() ==> d.s_kind() is Message && ident(d.s_kind()->Message_0.s_name())),
        ValueAndDescriptor::Extension(v, d) => typed(cow(v), d.s_kind()) && name_ok(d.s_full_name()),
    }
}
/// What the descriptors of a message and of the messages in it promise, defined by recursion over the messages in it (writable_is).
pub uninterp spec fn writable(m: DynamicMessage, o: FormatOptions) -> bool;
pub axiom fn writable_is(m: DynamicMessage, o: FormatOptions) ensures writable(m, o) == body_writable(m, o);
pub open spec fn scalar_writable(v: Value, k: Kind, o: FormatOptions) -> bool {
    &&& v is Message ==> writable(v->Message_0, o)
    &&& k is Enum ==> forall|n: i32| (#[trigger] k->Enum_0.s_value(n)) is Some ==> ident(k->Enum_0.s_value(n)->Some_0.s_name())
}
pub open spec fn value_writable(v: Value, k: Kind, o: FormatOptions) -> bool {
    match v {
        Value::List(vs) => forall|i: int| 0 <= i < vs@.len() ==> scalar_writable(#[trigger] vs@[i], k, o),
        Value::Map(m) => forall|i: int| 0 <= i < entries(m).len() ==> scalar_writable((#[trigger] entries(m)[i]).1, k->Message_0.value_field().s_kind(), o),
        _ => scalar_writable(v, k, o),
    }
}
pub open spec fn body_writable(m: DynamicMessage, o: FormatOptions) -> bool {
    &&& o.expand_any && any_of(m) is Some ==> writable(any_of(m)->Some_0.1, o)
    &&& forall|i: int| 0 <= i < members(m, o).len() ==> member_typed(#[trigger] members(m, o)[i]) && (!(members(m, o)[i] is Unknown) ==> value_writable(vd_value(members(m, o)[i]), vd_kind(members(m, o)[i]), o))
}
proof fn scan_nothing() ensures scan(Seq::empty()) == Seq::<Tok>::empty() { }
proof fn word_end_is(w: Seq<char>, r: Seq<char>)
    requires forall|i: int| 0 <= i < w.len() ==> word_char(#[trigger] w[i]), r.len() == 0 || !word_char(r[0]),
    ensures word_end(w + r) == w.len(),
    decreases w.len(),
{
    if w.len() > 0 {
        let t = w.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies word_char(#[trigger] t[i]) by { assert(t[i] == w[i + 1]); }
        word_end_is(t, r);
        assert((w + r)[0] == w[0]);
        assert((w + r).skip(1) =~= t + r);
    } else { assert(w + r =~= r); }
}
proof fn word_before(w: Seq<char>, r: Seq<char>)
    requires w.len() > 0, forall|i: int| 0 <= i < w.len() ==> word_char(#[trigger] w[i]), r.len() == 0 || !word_char(r[0]),
    ensures scan(w + r) == seq![Tok::Ident(w)] + scan(r),
{
    word_end_is(w, r);
    assert((w + r)[0] == w[0]);
    assert((w + r).take(w.len() as int) =~= w);
    assert((w + r).skip(w.len() as int) =~= r);
}
proof fn word_is(w: Seq<char>)
    requires w.len() > 0, forall|i: int| 0 <= i < w.len() ==> word_char(#[trigger] w[i]),
    ensures scan(w) == seq![Tok::Ident(w)],
{
    word_before(w, Seq::empty());
    assert(w + Seq::<char>::empty() =~= w);
    assert(seq![Tok::Ident(w)] + Seq::<Tok>::empty() =~= seq![Tok::Ident(w)]);
}
