//@@ props P11 P21 P20 P19
//@@ include head.rs
use std::collections::HashMap;
use std::sync::Arc;
use vstd::string::*;
use vstd::utf8::*;
//@@ include names.rs
#[verifier::external_body]
fn unreached<A>() -> A requires false { unimplemented!() }
//@@ include btree.rs
//@@ include pool.rs
//@@ include identity.rs
//@@ include tag.rs
//@@ include protos.rs
//@@ include tables.rs
// ---- descriptors, as declared in the source
//@@ item prost-reflect/src/descriptor/mod.rs struct DescriptorPool
//@@ item prost-reflect/src/descriptor/mod.rs struct FileDescriptor
//@@ item prost-reflect/src/descriptor/mod.rs struct MessageDescriptor
//@@ item prost-reflect/src/descriptor/mod.rs struct OneofDescriptor
//@@ item prost-reflect/src/descriptor/mod.rs struct FieldDescriptor
//@@ item prost-reflect/src/descriptor/mod.rs struct ExtensionDescriptor
//@@ item prost-reflect/src/descriptor/mod.rs struct EnumDescriptor
//@@ item prost-reflect/src/descriptor/mod.rs struct EnumValueDescriptor
//@@ item prost-reflect/src/descriptor/mod.rs struct ServiceDescriptor
//@@ item prost-reflect/src/descriptor/mod.rs struct MethodDescriptor
//@@ item prost-reflect/src/descriptor/mod.rs enum Kind
//@@ item prost-reflect/src/descriptor/mod.rs const MAP_ENTRY_KEY_NUMBER
//@@ item prost-reflect/src/descriptor/mod.rs const MAP_ENTRY_VALUE_NUMBER
//@@ item prost-reflect/src/dynamic/mod.rs enum Value
//@@ item prost-reflect/src/dynamic/mod.rs enum MapKey
//@@ item prost:src/encoding/wire_type.rs enum WireType
#[verifier::external_body] pub struct Bytes { x: Vec<u8> }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body] pub struct DynamicMessage { x: u8 }
/// `DynamicMessage::new` (see fields.rs)
pub uninterp spec fn new_message(d: MessageDescriptor) -> DynamicMessage;
impl DynamicMessage { #[verifier::external_body] fn new(d: MessageDescriptor) -> (r: Self) ensures r == new_message(d) { unimplemented!() } }
// ---- derived Clone (assumed: an equal value)
#[verifier::external_body] fn dup<T: Clone>(v: &T) -> (r: T) ensures r == *v { unimplemented!() }
#[verifier::external_body] fn dup_value(v: &Value) -> (r: Value) ensures r == *v { unimplemented!() }
fn same_pool(p: &DescriptorPool) -> (r: DescriptorPool) ensures r == *p { DescriptorPool { inner: p.inner.clone() } }
fn same_message(m: &MessageDescriptor) -> (r: MessageDescriptor) ensures r == *m { MessageDescriptor { pool: same_pool(&m.pool), index: m.index } }
fn same_enum(m: &EnumDescriptor) -> (r: EnumDescriptor) ensures r == *m { EnumDescriptor { pool: same_pool(&m.pool), index: m.index } }
fn same_service(m: &ServiceDescriptor) -> (r: ServiceDescriptor) ensures r == *m { ServiceDescriptor { pool: same_pool(&m.pool), index: m.index } }
// ---- std (assumed contracts where there is no body)
#[verifier::external_body]
fn strip_dot(s: &str) -> (r: Option<&str>) ensures match r { Some(t) => s@.len() > 0 && s@[0] == '.' && t@ == s@.skip(1), None => s@.len() == 0 || s@[0] != '.' } { unimplemented!() }
pub open spec fn undotted(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '.' { s.skip(1) } else { s } }
fn copied(v: Option<&u32>) -> (r: Option<u32>) ensures r == (match v { Some(v) => Some(*v), None => None }) { match v { Some(v) => Some(*v), None => None } }
fn path_of(v: &Vec<i32>) -> (r: &[i32]) ensures r@ == v@ { v.as_slice() }
pub uninterp spec fn double_zero() -> f64;
pub uninterp spec fn float_zero() -> f32;
#[verifier::external_body] fn zero_f64() -> (r: f64) ensures r == double_zero() { unimplemented!() }
#[verifier::external_body] fn zero_f32() -> (r: f32) ensures r == float_zero() { unimplemented!() }
#[verifier::external_body] fn empty_text() -> (r: String) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body] fn empty_bytes() -> (r: Bytes) ensures r@.len() == 0 { unimplemented!() }
pub uninterp spec fn entries(m: HashMap<MapKey, Value>) -> Seq<(MapKey, Value)>;
#[verifier::external_body] fn empty_map() -> (r: HashMap<MapKey, Value>) ensures entries(r).len() == 0 { unimplemented!() }
pub open spec fn lists<D>(r: Seq<D>, f: spec_fn(int) -> D, n: int) -> bool { r.len() == n && forall|i: int| #![trigger r[i]] #![trigger f(i)] 0 <= i < n ==> r[i] == f(i) }
pub open spec fn first<D>(r: Option<D>, f: spec_fn(int) -> D, n: int, p: spec_fn(D) -> bool) -> bool {
    match r { Some(d) => exists|i: int| 0 <= i < n && d == #[trigger] f(i) && p(d) && forall|j: int| 0 <= j < i ==> !p(#[trigger] f(j)), None => forall|i: int| 0 <= i < n ==> !p(#[trigger] f(i)) }
}
// Iterators are collected: `iter().map(f)` and the like return what they would yield.
fn each<T: Copy, D, F: Fn(T) -> D>(v: &Vec<T>, f: F) -> (r: Vec<D>)
    requires forall|x: T| #[trigger] call_requires(f, (x,)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), #[trigger] r@[i]),
{
    let mut r = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant 0 <= i <= v@.len(), r@.len() == i, forall|x: T| #[trigger] call_requires(f, (x,)), forall|j: int| 0 <= j < i ==> call_ensures(f, (v@[j],), #[trigger] r@[j]),
        decreases v@.len() - i,
    { r.push(f(v[i])); i += 1; }
    r
}
fn each_second<D, F: Fn(u32) -> D>(v: &Vec<(i32, u32)>, f: F) -> (r: Vec<D>)
    requires forall|x: u32| #[trigger] call_requires(f, (x,)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (v@[i].1,), #[trigger] r@[i]),
{
    let mut r = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant 0 <= i <= v@.len(), r@.len() == i, forall|x: u32| #[trigger] call_requires(f, (x,)), forall|j: int| 0 <= j < i ==> call_ensures(f, (v@[j].1,), #[trigger] r@[j]),
        decreases v@.len() - i,
    { r.push(f(v[i].1)); i += 1; }
    r
}
fn each_position<T, D, F: Fn(usize) -> D>(v: &Vec<T>, f: F) -> (r: Vec<D>)
    requires forall|x: usize| #[trigger] call_requires(f, (x,)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (i as usize,), #[trigger] r@[i]),
{
    let mut r = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant 0 <= i <= v@.len(), r@.len() == i, forall|x: usize| #[trigger] call_requires(f, (x,)), forall|j: int| 0 <= j < i ==> call_ensures(f, (j as usize,), #[trigger] r@[j]),
        decreases v@.len() - i,
    { r.push(f(i)); i += 1; }
    r
}
/// `indices(v).map(f)`
fn each_index<T, D, F: Fn(u32) -> D>(v: &Vec<T>, f: F) -> (r: Vec<D>)
    requires forall|x: u32| #[trigger] call_requires(f, (x,)), v@.len() <= u32::MAX,
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (i as u32,), #[trigger] r@[i]),
{
    let mut r = Vec::new();
    let mut i: u32 = 0;
    while (i as usize) < v.len()
        invariant 0 <= i <= v@.len(), v@.len() <= u32::MAX, r@.len() == i, forall|x: u32| #[trigger] call_requires(f, (x,)), forall|j: int| 0 <= j < i ==> call_ensures(f, (j as u32,), #[trigger] r@[j]),
        decreases v@.len() - i,
    { r.push(f(i)); i += 1; }
    r
}
/// `iter().find(f)`
fn find_first<D, F: Fn(&D) -> bool>(v: Vec<D>, f: F) -> (r: Option<D>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)),
    ensures
        match r {
            Some(d) => exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i] == d && call_ensures(f, (&d,), true) && forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] v@[j],), false),
            None => forall|j: int| 0 <= j < v@.len() ==> call_ensures(f, (&#[trigger] v@[j],), false),
        },
{
    let ghost all = v@;
    let mut w = v;
    let mut i: usize = 0;
    while i < w.len()
        invariant 0 <= i <= w@.len(), w@ == all, all == v@, forall|i: int| 0 <= i < all.len() ==> call_requires(f, (&#[trigger] all[i],)), forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] all[j],), false),
        decreases w@.len() - i,
    {
        if f(&w[i]) {
            let d = w.swap_remove(i);
            proof {
                assert(0 <= i < all.len() && all[i as int] == d && call_ensures(f, (&d,), true));
                assert forall|j: int| 0 <= j < i implies call_ensures(f, (&#[trigger] all[j],), false) by { }
                let k = i as int;
                assert(0 <= k < all.len() && all[k] == d && call_ensures(f, (&d,), true) && forall|j: int| 0 <= j < k ==> call_ensures(f, (&#[trigger] all[j],), false));
            }
            return Some(d);
        }
        i += 1;
    }
    None
}
/// The values of a map in ascending order of the keys.
pub open spec fn ascending(k: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> (#[trigger] k[i]) < (#[trigger] k[j]) }
pub open spec fn in_key_order(m: Map<u32, u32>, k: Seq<u32>, v: Seq<u32>) -> bool {
    &&& ascending(k) && v.len() == k.len()
    &&& forall|n: u32| #[trigger] m.contains_key(n) <==> k.contains(n)
    &&& forall|i: int| 0 <= i < k.len() ==> m.contains_key(#[trigger] k[i]) && v[i] == m[k[i]]
}
#[verifier::external_body]
fn values(m: &BTreeMap<u32, u32>) -> (r: Vec<u32>) ensures exists|k: Seq<u32>| #[trigger] in_key_order(m@, k, r@) { unimplemented!() }
// ---- specification
impl MessageOptions {
    pub uninterp spec fn s_map_entry(&self) -> bool;
    #[verifier::external_body] fn map_entry(&self) -> (r: bool) ensures r == self.s_map_entry() { unimplemented!() }
}
pub open spec fn map_entry_option(m: DescriptorProto) -> bool { m.options is Some && m.options->0.value.s_map_entry() }
/// The kind a descriptor shows for what the tables hold.
pub open spec fn kind_of(p: DescriptorPool, k: KindIndex) -> Kind {
    match k {
        KindIndex::Double => Kind::Double, KindIndex::Float => Kind::Float, KindIndex::Int32 => Kind::Int32, KindIndex::Int64 => Kind::Int64,
        KindIndex::Uint32 => Kind::Uint32, KindIndex::Uint64 => Kind::Uint64, KindIndex::Sint32 => Kind::Sint32, KindIndex::Sint64 => Kind::Sint64,
        KindIndex::Fixed32 => Kind::Fixed32, KindIndex::Fixed64 => Kind::Fixed64, KindIndex::Sfixed32 => Kind::Sfixed32, KindIndex::Sfixed64 => Kind::Sfixed64,
        KindIndex::Bool => Kind::Bool, KindIndex::String => Kind::String, KindIndex::Bytes => Kind::Bytes,
        KindIndex::Message(i) | KindIndex::Group(i) => Kind::Message(MessageDescriptor { pool: p, index: i }),
        KindIndex::Enum(i) => Kind::Enum(EnumDescriptor { pool: p, index: i }),
    }
}
pub open spec fn wire_type_of(k: Kind) -> WireType {
    match k {
        Kind::Double | Kind::Fixed64 | Kind::Sfixed64 => WireType::SixtyFourBit,
        Kind::Float | Kind::Fixed32 | Kind::Sfixed32 => WireType::ThirtyTwoBit,
        Kind::String | Kind::Bytes | Kind::Message(_) => WireType::LengthDelimited,
        _ => WireType::Varint,
    }
}
/// The value a field of this kind has when unset: zero, empty, the first value of an enum, an empty message.
pub open spec fn default_of(v: Value, k: Kind) -> bool {
    match k {
        Kind::Bool => v == Value::Bool(false),
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => v == Value::I32(0),
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => v == Value::I64(0),
        Kind::Uint32 | Kind::Fixed32 => v == Value::U32(0),
        Kind::Uint64 | Kind::Fixed64 => v == Value::U64(0),
        Kind::Float => v == Value::F32(float_zero()),
        Kind::Double => v == Value::F64(double_zero()),
        Kind::String => v is String && v->String_0@.len() == 0,
        Kind::Bytes => v is Bytes && v->Bytes_0@.len() == 0,
        Kind::Enum(e) => v == Value::EnumNumber(e.table().values@[0].number),
        Kind::Message(m) => v == Value::Message(new_message(m)),
    }
}
pub open spec fn enum_ok(e: EnumDescriptor) -> bool { e.there() && e.table().values@.len() > 0 }
pub open spec fn kind_ok(k: Kind) -> bool { k is Enum ==> enum_ok(k->Enum_0) }
/// What a field refers to is in the tables.
pub open spec fn index_placed(p: DescriptorPool, k: KindIndex) -> bool {
    match k { KindIndex::Message(i) | KindIndex::Group(i) => message_placed(*p.inner, i), KindIndex::Enum(i) => enum_ok(EnumDescriptor { pool: p, index: i }), _ => true }
}
pub open spec fn entry_kind(p: DescriptorPool, k: KindIndex) -> bool { match k { KindIndex::Message(i) | KindIndex::Group(i) => map_entry_option(declaration(*p.inner, i)), _ => false } }
pub open spec fn by_number(m: MessageDescriptor, r: Seq<FieldDescriptor>) -> bool {
    exists|k: Seq<u32>, v: Seq<u32>| #[trigger] in_key_order(m.table().field_numbers@, k, v) && lists(r, |i: int| (FieldDescriptor { message: m, index: v[i] }), k.len() as int)
}
// ---- the code
impl KindIndex {
//@@ fn prost-reflect/src/descriptor/mod.rs KindIndex::is_packable
//@@ ret r
//@@ spec
    ensures r == packable(*self),
//@@ end
}
impl DescriptorPoolInner {
//@@ fn prost-reflect/src/descriptor/mod.rs DescriptorPoolInner::get_by_name
//@@ ret r
//@@ subst? $n:id . strip_prefix ( '.' ) ==>> strip_dot($n)
//@@ spec
    ensures match r { Some(d) => opt_get(self.names@, undotted($p1@)) == Some(*d), None => opt_get(self.names@, undotted($p1@)) is None },
//@@ end
}
impl Kind {
//@@ fn prost-reflect/src/descriptor/api.rs Kind::new
//@@ ret r
//@@ subst? pool . clone ( ) ==>> same_pool(pool)
//@@ spec
    ensures r == kind_of(*$p0, $p1),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs Kind::as_message
//@@ ret r
//@@ spec
    ensures match r { Some(m) => *self == Kind::Message(*m), None => !(*self is Message) },
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs Kind::as_enum
//@@ ret r
//@@ spec
    ensures match r { Some(m) => *self == Kind::Enum(*m), None => !(*self is Enum) },
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs Kind::wire_type
//@@ ret r
//@@ spec
    ensures r == wire_type_of(*self),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs Kind::default_value
//@@ ret r
//@@ subst? desc . clone ( ) ==>> same_message(desc)
//@@ subst? Value :: F64 ( 0.0 ) ==>> Value::F64(zero_f64())
//@@ subst? Value :: F32 ( 0.0 ) ==>> Value::F32(zero_f32())
//@@ subst? String :: default ( ) ==>> empty_text()
//@@ subst? Bytes :: default ( ) ==>> empty_bytes()
//@@ spec
    requires kind_ok(*self),
    ensures default_of(r, *self),
//@@ end
}
impl DescriptorPool {
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::files
//@@ sig pub fn files(&self) -> (r: Vec<FileDescriptor>)
//@@ subst? indices ( & self . inner . files ) . map ( | index | $x ) ==>> each_index(&self.inner . files, |index: u32| -> (d: FileDescriptor) ensures d == (FileDescriptor { pool: *self, index }) { $x })
//@@ subst? self . clone ( ) ==>> same_pool(self)
//@@ spec
    requires self.inner.files@.len() <= u32::MAX,
    ensures lists(r@, |i: int| (FileDescriptor { pool: *self, index: i as u32 }), self.inner.files@.len() as int),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::services
//@@ sig pub fn services(&self) -> (r: Vec<ServiceDescriptor>)
//@@ subst? indices ( & self . inner . services ) . map ( | index | $x ) ==>> each_index(&self.inner . services, |index: u32| -> (d: ServiceDescriptor) ensures d == (ServiceDescriptor { pool: *self, index }) { $x })
//@@ subst? self . clone ( ) ==>> same_pool(self)
//@@ spec
    requires self.inner.services@.len() <= u32::MAX,
    ensures lists(r@, |i: int| (ServiceDescriptor { pool: *self, index: i as u32 }), self.inner.services@.len() as int),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::all_messages
//@@ sig pub fn all_messages(&self) -> (r: Vec<MessageDescriptor>)
//@@ subst? indices ( & self . inner . messages ) . map ( | index | $x ) ==>> each_index(&self.inner . messages, |index: u32| -> (d: MessageDescriptor) ensures d == (MessageDescriptor { pool: *self, index }) { $x })
//@@ subst? self . clone ( ) ==>> same_pool(self)
//@@ spec
    requires self.inner.messages@.len() <= u32::MAX,
    ensures lists(r@, |i: int| (MessageDescriptor { pool: *self, index: i as u32 }), self.inner.messages@.len() as int),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::all_enums
//@@ sig pub fn all_enums(&self) -> (r: Vec<EnumDescriptor>)
//@@ subst? indices ( & self . inner . enums ) . map ( | index | $x ) ==>> each_index(&self.inner . enums, |index: u32| -> (d: EnumDescriptor) ensures d == (EnumDescriptor { pool: *self, index }) { $x })
//@@ subst? self . clone ( ) ==>> same_pool(self)
//@@ spec
    requires self.inner.enums@.len() <= u32::MAX,
    ensures lists(r@, |i: int| (EnumDescriptor { pool: *self, index: i as u32 }), self.inner.enums@.len() as int),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::all_extensions
//@@ sig pub fn all_extensions(&self) -> (r: Vec<ExtensionDescriptor>)
//@@ subst? indices ( & self . inner . extensions ) . map ( | index | $x ) ==>> each_index(&self.inner . extensions, |index: u32| -> (d: ExtensionDescriptor) ensures d == (ExtensionDescriptor { pool: *self, index }) { $x })
//@@ subst? self . clone ( ) ==>> same_pool(self)
//@@ spec
    requires self.inner.extensions@.len() <= u32::MAX,
    ensures lists(r@, |i: int| (ExtensionDescriptor { pool: *self, index: i as u32 }), self.inner.extensions@.len() as int),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::get_file_by_name
//@@ ret r
//@@ subst? Some ( & index ) ==>> Some(index)
//@@ subst? $x:e . get ( $n ) ==>> copied($x.get($n))
//@@ subst? self . clone ( ) ==>> same_pool(self)
//@@ spec
    ensures r == (match opt_get(self.inner.file_names@, $p1@) { Some(i) => Some(FileDescriptor { pool: *self, index: i }), None => None }),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::get_message_by_name
//@@ ret r
//@@ subst? Some ( & Definition $b:b ) ==>> Some(Definition $b)
//@@ subst? index , } ) , ==>> index: *index, } ),
//@@ subst? self . clone ( ) ==>> same_pool(self)
//@@ spec
    ensures r == (match opt_get(self.inner.names@, undotted($p1@)) { Some(d) => if d.kind is Message { Some(MessageDescriptor { pool: *self, index: d.kind->Message_0 }) } else { None }, None => None }),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::get_enum_by_name
//@@ ret r
//@@ subst? Some ( & Definition $b:b ) ==>> Some(Definition $b)
//@@ subst? index , } ) , ==>> index: *index, } ),
//@@ subst? self . clone ( ) ==>> same_pool(self)
//@@ spec
    ensures r == (match opt_get(self.inner.names@, undotted($p1@)) { Some(d) => if d.kind is Enum { Some(EnumDescriptor { pool: *self, index: d.kind->Enum_0 }) } else { None }, None => None }),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::get_extension_by_name
//@@ ret r
//@@ subst? Some ( & Definition $b:b ) ==>> Some(Definition $b)
//@@ subst? index , } ) , ==>> index: *index, } ),
//@@ subst? self . clone ( ) ==>> same_pool(self)
//@@ spec
    ensures r == (match opt_get(self.inner.names@, undotted($p1@)) { Some(d) => if d.kind is Extension { Some(ExtensionDescriptor { pool: *self, index: d.kind->Extension_0 }) } else { None }, None => None }),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::get_service_by_name
//@@ ret r
//@@ subst? Some ( & Definition $b:b ) ==>> Some(Definition $b)
//@@ subst? index , } ) , ==>> index: *index, } ),
//@@ subst? self . clone ( ) ==>> same_pool(self)
//@@ spec
    ensures r == (match opt_get(self.inner.names@, undotted($p1@)) { Some(d) => if d.kind is Service { Some(ServiceDescriptor { pool: *self, index: d.kind->Service_0 }) } else { None }, None => None }),
//@@ end
}
impl FileDescriptor {
    pub open spec fn table(&self) -> FileDescriptorInner { self.pool.inner.files@[self.index as int] }
    pub open spec fn there(&self) -> bool { self.index < self.pool.inner.files@.len() }
//@@ fn prost-reflect/src/descriptor/api.rs FileDescriptor::parent_pool
//@@ ret r
//@@ spec
    ensures *r == self.pool,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FileDescriptor::index
//@@ ret r
//@@ spec
    ensures r == self.index,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FileDescriptor::inner
//@@ ret r
//@@ spec
    requires self.there(),
    ensures *r == self.table(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FileDescriptor::syntax
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == self.table().syntax,
//@@ end
}
impl MessageDescriptor {
    pub open spec fn table(&self) -> MessageDescriptorInner { self.pool.inner.messages@[self.index as int] }
    pub open spec fn there(&self) -> bool { self.index < self.pool.inner.messages@.len() }
    pub open spec fn placed(&self) -> bool { self.there() && message_placed(*self.pool.inner, self.index) }
    pub open spec fn s_map_entry(&self) -> bool { map_entry_option(declaration(*self.pool.inner, self.index)) }
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::inner
//@@ ret r
//@@ spec
    requires self.there(),
    ensures *r == self.table(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::parent_pool
//@@ ret r
//@@ spec
    ensures *r == self.pool,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::parent_file
//@@ ret r
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_message(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(),
    ensures r == (FileDescriptor { pool: self.pool, index: self.table().id.file }),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::parent_message
//@@ ret r
//@@ subst? self . inner ( ) . parent . map ( | index | $x ) ==>> (match self.inner().parent { Some(index) => Some($x), None => None })
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_message(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(),
    ensures r == (match self.table().parent { Some(i) => Some(MessageDescriptor { pool: self.pool, index: i }), None => None }),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::name
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there() && self.table().id.well_formed(),
    ensures self.table().id.name_of(r@),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::full_name
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there(),
    ensures r@ == self.table().id.full_name@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::path
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there(),
    ensures r@ == self.table().id.path@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::raw_file
//@@ ret r
//@@ subst? types :: FileDescriptorProto ==>> FileDescriptorProto
//@@ spec
    requires self.placed(),
    ensures *r == self.pool.inner.files@[self.table().id.file as int].raw,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::raw
//@@ sig fn raw(&self) -> (r: &DescriptorProto)
//@@ spec
    requires self.placed(),
    ensures *r == declaration(*self.pool.inner, self.index),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::is_map_entry
//@@ ret r
//@@ subst? $x:e . as_ref ( ) . map ( | o | $e ) . unwrap_or ( $d ) ==>> (match &$x { Some(o) => $e, None => $d })
//@@ spec
    requires self.placed(),
    ensures r == self.s_map_entry(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::fields
//@@ sig pub fn fields(&self) -> (r: Vec<FieldDescriptor>)
//@@ subst? $x:e . values ( ) . map ( | & index | $y ) ==>> each(&values(&$x), |index: u32| -> (d: FieldDescriptor) ensures d == (FieldDescriptor { message: *self, index }) { $y })
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_message(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(),
    ensures by_number(*self, r@),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::fields_in_index_order
//@@ sig pub fn fields_in_index_order(&self) -> (r: Vec<FieldDescriptor>)
//@@ subst? $x:e . iter ( ) . enumerate ( ) . map ( | ( index , _ ) | $y ) ==>> each_position(&$x, |index: usize| -> (d: FieldDescriptor) ensures d == (FieldDescriptor { message: *self, index: index as u32 }) { $y })
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_message(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(), self.table().fields@.len() <= u32::MAX,
    ensures lists(r@, |i: int| (FieldDescriptor { message: *self, index: i as u32 }), self.table().fields@.len() as int),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::oneofs
//@@ sig pub fn oneofs(&self) -> (r: Vec<OneofDescriptor>)
//@@ subst? indices ( & self . inner ( ) . oneofs ) . map ( | index | $y ) ==>> each_index(&self.inner().oneofs, |index: u32| -> (d: OneofDescriptor) ensures d == (OneofDescriptor { message: *self, index }) { $y })
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_message(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(), self.table().oneofs@.len() <= u32::MAX,
    ensures lists(r@, |i: int| (OneofDescriptor { message: *self, index: i as u32 }), self.table().oneofs@.len() as int),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::extensions
//@@ sig pub fn extensions(&self) -> (r: Vec<ExtensionDescriptor>)
//@@ subst? $x:e . iter ( ) . map ( | & index | $y ) ==>> each(&$x, |index: u32| -> (d: ExtensionDescriptor) ensures d == (ExtensionDescriptor { pool: self.pool, index }) { $y })
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_message(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(),
    ensures lists(r@, |i: int| (ExtensionDescriptor { pool: self.pool, index: self.table().extensions@[i] }), self.table().extensions@.len() as int),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::get_field
//@@ ret r
//@@ subst? $x:e . get ( $k ) . map ( | & index | $y ) ==>> (match copied($x.get($k)) { Some(index) => Some($y), None => None })
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_message(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(),
    ensures r == (match opt_get(self.table().field_numbers@, $p1) { Some(i) => Some(FieldDescriptor { message: *self, index: i }), None => None }),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::get_field_by_name
//@@ ret r
//@@ subst? $x:e . get ( $k ) . map ( | & index | $y ) ==>> (match copied($x.get($k)) { Some(index) => Some($y), None => None })
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_message(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(),
    ensures r == (match opt_get(self.table().field_names@, $p1@) { Some(i) => Some(FieldDescriptor { message: *self, index: i }), None => None }),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::get_field_by_json_name
//@@ ret r
//@@ subst? $x:e . get ( $k ) . map ( | & index | $y ) ==>> (match copied($x.get($k)) { Some(index) => Some($y), None => None })
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_message(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(),
    ensures r == (match opt_get(self.table().field_json_names@, $p1@) { Some(i) => Some(FieldDescriptor { message: *self, index: i }), None => None }),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::map_entry_key_field
//@@ ret r
//@@ subst? debug_assert ! $a:tt ; ==>> 
//@@ subst? $x:e . expect ( $m ) ==>> (match $x { Some(v_) => v_, None => unreached() })
//@@ spec
    requires self.there(), self.table().field_numbers@.contains_key(1u32),
    ensures opt_get(self.table().field_numbers@, 1u32) == Some(r.index) && r.message == *self,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::map_entry_value_field
//@@ ret r
//@@ subst? debug_assert ! $a:tt ; ==>> 
//@@ subst? $x:e . expect ( $m ) ==>> (match $x { Some(v_) => v_, None => unreached() })
//@@ spec
    requires self.there(), self.table().field_numbers@.contains_key(2u32),
    ensures opt_get(self.table().field_numbers@, 2u32) == Some(r.index) && r.message == *self,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::get_extension
//@@ ret r
//@@ subst? $x:e . find ( | $e:id | $c ) ==>> find_first($x, |$e: &ExtensionDescriptor| -> (b: bool) requires $e.there() ensures b == ($e.table().number == number) { $c })
//@@ subst? $x:e == name ==>> same_text($x, name)
//@@ spec
    requires self.there(), forall|i: int| 0 <= i < self.table().extensions@.len() ==> #[trigger] self.table().extensions@[i] < self.pool.inner.extensions@.len(),
    ensures first(r, |i: int| (ExtensionDescriptor { pool: self.pool, index: self.table().extensions@[i] }), self.table().extensions@.len() as int, |d: ExtensionDescriptor| d.table().number == number),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::get_extension_by_full_name
//@@ ret r
//@@ subst? $x:e . find ( | $e:id | $c ) ==>> find_first($x, |$e: &ExtensionDescriptor| -> (b: bool) requires $e.there() ensures b == ($e.table().id.full_name@ == name@) { $c })
//@@ subst? $x:e == name ==>> same_text($x, name)
//@@ spec
    requires self.there(), forall|i: int| 0 <= i < self.table().extensions@.len() ==> #[trigger] self.table().extensions@[i] < self.pool.inner.extensions@.len(),
    ensures first(r, |i: int| (ExtensionDescriptor { pool: self.pool, index: self.table().extensions@[i] }), self.table().extensions@.len() as int, |d: ExtensionDescriptor| d.table().id.full_name@ == name@),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::get_extension_by_json_name
//@@ ret r
//@@ subst? $x:e . find ( | $e:id | $c ) ==>> find_first($x, |$e: &ExtensionDescriptor| -> (b: bool) requires $e.there() ensures b == ($e.table().json_name@ == name@) { $c })
//@@ subst? $x:e == name ==>> same_text($x, name)
//@@ spec
    requires self.there(), forall|i: int| 0 <= i < self.table().extensions@.len() ==> #[trigger] self.table().extensions@[i] < self.pool.inner.extensions@.len(),
    ensures first(r, |i: int| (ExtensionDescriptor { pool: self.pool, index: self.table().extensions@[i] }), self.table().extensions@.len() as int, |d: ExtensionDescriptor| d.table().json_name@ == name@),
//@@ end
}
impl FieldDescriptor {
    pub open spec fn table(&self) -> FieldDescriptorInner { self.message.table().fields@[self.index as int] }
    pub open spec fn there(&self) -> bool { self.message.there() && self.index < self.message.table().fields@.len() }
    pub open spec fn kind_placed(&self) -> bool { self.there() && index_placed(self.message.pool, self.table().kind) }
    pub open spec fn s_map(&self) -> bool { self.table().cardinality == Cardinality::Repeated && entry_kind(self.message.pool, self.table().kind) }
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::parent_pool
//@@ ret r
//@@ spec
    ensures *r == self.message.pool,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::parent_message
//@@ ret r
//@@ spec
    ensures *r == self.message,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::parent_file
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == (FileDescriptor { pool: self.message.pool, index: self.message.table().id.file }),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::inner
//@@ ret r
//@@ spec
    requires self.there(),
    ensures *r == self.table(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::name
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there() && self.table().id.well_formed(),
    ensures self.table().id.name_of(r@),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::full_name
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there(),
    ensures r@ == self.table().id.full_name@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::path
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there(),
    ensures r@ == self.table().id.path@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::number
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == self.table().number,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::json_name
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r@ == self.table().json_name@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::is_group
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == (self.table().kind is Group),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::is_packed
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == self.table().is_packed,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::cardinality
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == self.table().cardinality,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::kind
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == kind_of(self.message.pool, self.table().kind),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::is_map
//@@ ret r
//@@ spec
    requires self.kind_placed(),
    ensures r == self.s_map(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::is_list
//@@ ret r
//@@ spec
    requires self.kind_placed(),
    ensures r == (self.table().cardinality == Cardinality::Repeated && !self.s_map()),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::is_packable
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == packable(self.table().kind),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::default_value
//@@ ret r
//@@ subst? Vec :: default ( ) ==>> Vec::new()
//@@ subst? HashMap :: default ( ) ==>> empty_map()
//@@ subst? default_value . clone ( ) ==>> dup_value(default_value)
//@@ spec
    requires self.kind_placed(),
    ensures if self.table().cardinality == Cardinality::Repeated { if self.s_map() { r is Map && entries(r->Map_0).len() == 0 } else { r is List && r->List_0@.len() == 0 } } else if self.table().default is Some { r == self.table().default->0 } else { default_of(r, kind_of(self.message.pool, self.table().kind)) },
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::is_required
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == (self.table().cardinality == Cardinality::Required),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::supports_presence
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == self.table().supports_presence,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::containing_oneof
//@@ ret r
//@@ subst? self . inner ( ) . oneof . map ( | index | $x ) ==>> (match self.inner().oneof { Some(index) => Some($x), None => None })
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_message(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(),
    ensures r == (match self.table().oneof { Some(i) => Some(OneofDescriptor { message: self.message, index: i }), None => None }),
//@@ end
}
impl ExtensionDescriptor {
    pub open spec fn table(&self) -> ExtensionDescriptorInner { self.pool.inner.extensions@[self.index as int] }
    pub open spec fn there(&self) -> bool { self.index < self.pool.inner.extensions@.len() }
    pub open spec fn kind_placed(&self) -> bool { self.there() && index_placed(self.pool, self.table().kind) }
    pub open spec fn s_map(&self) -> bool { self.table().cardinality == Cardinality::Repeated && entry_kind(self.pool, self.table().kind) }
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::parent_pool
//@@ ret r
//@@ spec
    ensures *r == self.pool,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::parent_file
//@@ ret r
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_message(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(),
    ensures r == (FileDescriptor { pool: self.pool, index: self.table().id.file }),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::parent_message
//@@ ret r
//@@ subst? self . inner ( ) . parent . map ( | index | $x ) ==>> (match self.inner().parent { Some(index) => Some($x), None => None })
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_message(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(),
    ensures r == (match self.table().parent { Some(i) => Some(MessageDescriptor { pool: self.pool, index: i }), None => None }),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::inner
//@@ ret r
//@@ spec
    requires self.there(),
    ensures *r == self.table(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::name
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there() && self.table().id.well_formed(),
    ensures self.table().id.name_of(r@),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::full_name
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there(),
    ensures r@ == self.table().id.full_name@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::path
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there(),
    ensures r@ == self.table().id.path@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::number
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == self.table().number,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::json_name
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r@ == self.table().json_name@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::is_group
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == (self.table().kind is Group),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::is_packed
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == self.table().is_packed,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::cardinality
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == self.table().cardinality,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::kind
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == kind_of(self.pool, self.table().kind),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::is_map
//@@ ret r
//@@ spec
    requires self.kind_placed(),
    ensures r == self.s_map(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::is_list
//@@ ret r
//@@ spec
    requires self.kind_placed(),
    ensures r == (self.table().cardinality == Cardinality::Repeated && !self.s_map()),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::is_packable
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == packable(self.table().kind),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::default_value
//@@ ret r
//@@ subst? Vec :: default ( ) ==>> Vec::new()
//@@ subst? HashMap :: default ( ) ==>> empty_map()
//@@ subst? default_value . clone ( ) ==>> dup_value(default_value)
//@@ spec
    requires self.kind_placed(),
    ensures if self.table().cardinality == Cardinality::Repeated { if self.s_map() { r is Map && entries(r->Map_0).len() == 0 } else { r is List && r->List_0@.len() == 0 } } else if self.table().default is Some { r == self.table().default->0 } else { default_of(r, kind_of(self.pool, self.table().kind)) },
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::supports_presence
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == (self.table().cardinality != Cardinality::Repeated),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::containing_message
//@@ ret r
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_message(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(),
    ensures r == (MessageDescriptor { pool: self.pool, index: self.table().extendee }),
//@@ end
}
impl EnumDescriptor {
    pub open spec fn table(&self) -> EnumDescriptorInner { self.pool.inner.enums@[self.index as int] }
    pub open spec fn there(&self) -> bool { self.index < self.pool.inner.enums@.len() }
//@@ fn prost-reflect/src/descriptor/api.rs EnumDescriptor::inner
//@@ ret r
//@@ spec
    requires self.there(),
    ensures *r == self.table(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumDescriptor::parent_pool
//@@ ret r
//@@ spec
    ensures *r == self.pool,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumDescriptor::parent_file
//@@ ret r
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_message(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(),
    ensures r == (FileDescriptor { pool: self.pool, index: self.table().id.file }),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumDescriptor::parent_message
//@@ ret r
//@@ subst? self . inner ( ) . parent . map ( | index | $x ) ==>> (match self.inner().parent { Some(index) => Some($x), None => None })
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_message(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(),
    ensures r == (match self.table().parent { Some(i) => Some(MessageDescriptor { pool: self.pool, index: i }), None => None }),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumDescriptor::name
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there() && self.table().id.well_formed(),
    ensures self.table().id.name_of(r@),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumDescriptor::full_name
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there(),
    ensures r@ == self.table().id.full_name@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumDescriptor::path
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there(),
    ensures r@ == self.table().id.path@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumDescriptor::default_value
//@@ ret r
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_enum(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    ensures r == (EnumValueDescriptor { parent: *self, index: 0 }),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumDescriptor::get_value_by_name
//@@ ret r
//@@ subst? $x:e . get ( $k ) . map ( | & index | $y ) ==>> (match copied($x.get($k)) { Some(index) => Some($y), None => None })
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_enum(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(),
    ensures r == (match opt_get(self.table().value_names@, $p1@) { Some(i) => Some(EnumValueDescriptor { parent: *self, index: i }), None => None }),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumDescriptor::get_value
//@@ ret r
//@@ subst? $v:e . binary_search_by ( | ( $n:id , _ ) | $n:id . cmp ( & $x:e ) ) . ok ( ) . map ( | index | $y ) ==>> (match search(&$v, $x) { Ok(index) => Some($y), Err(_) => None })
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_enum(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(), sorted(self.table().value_numbers@),
    ensures match r { Some(v) => v.parent == *self && self.table().value_numbers@.contains(($p1, v.index)), None => !has_number(self.table().value_numbers@, $p1) },
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumDescriptor::values
//@@ sig pub fn values(&self) -> (r: Vec<EnumValueDescriptor>)
//@@ subst? $x:e . iter ( ) . map ( | & ( _ , index ) | $y ) ==>> each_second(&$x, |index: u32| -> (d: EnumValueDescriptor) ensures d == (EnumValueDescriptor { parent: *self, index }) { $y })
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_enum(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(),
    ensures lists(r@, |i: int| (EnumValueDescriptor { parent: *self, index: self.table().value_numbers@[i].1 }), self.table().value_numbers@.len() as int),
//@@ end
}
impl EnumValueDescriptor {
    pub open spec fn table(&self) -> EnumValueDescriptorInner { self.parent.table().values@[self.index as int] }
    pub open spec fn there(&self) -> bool { self.parent.there() && self.index < self.parent.table().values@.len() }
//@@ fn prost-reflect/src/descriptor/api.rs EnumValueDescriptor::inner
//@@ ret r
//@@ spec
    requires self.there(),
    ensures *r == self.table(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumValueDescriptor::parent_enum
//@@ ret r
//@@ spec
    ensures *r == self.parent,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumValueDescriptor::name
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there() && self.table().id.well_formed(),
    ensures self.table().id.name_of(r@),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumValueDescriptor::full_name
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there(),
    ensures r@ == self.table().id.full_name@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumValueDescriptor::path
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there(),
    ensures r@ == self.table().id.path@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumValueDescriptor::number
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == self.table().number,
//@@ end
}
impl OneofDescriptor {
    pub open spec fn table(&self) -> OneofDescriptorInner { self.message.table().oneofs@[self.index as int] }
    pub open spec fn there(&self) -> bool { self.message.there() && self.index < self.message.table().oneofs@.len() }
//@@ fn prost-reflect/src/descriptor/api.rs OneofDescriptor::inner
//@@ ret r
//@@ spec
    requires self.there(),
    ensures *r == self.table(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs OneofDescriptor::parent_message
//@@ ret r
//@@ spec
    ensures *r == self.message,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs OneofDescriptor::name
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there() && self.table().id.well_formed(),
    ensures self.table().id.name_of(r@),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs OneofDescriptor::full_name
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there(),
    ensures r@ == self.table().id.full_name@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs OneofDescriptor::path
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there(),
    ensures r@ == self.table().id.path@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs OneofDescriptor::fields
//@@ sig pub fn fields(&self) -> (r: Vec<FieldDescriptor>)
//@@ subst? $x:e . iter ( ) . map ( | & index | $y ) ==>> each(&$x, |index: u32| -> (d: FieldDescriptor) ensures d == (FieldDescriptor { message: self.message, index }) { $y })
//@@ subst? self . parent_message ( ) . clone ( ) ==>> same_message(self.parent_message())
//@@ spec
    requires self.there(),
    ensures lists(r@, |i: int| (FieldDescriptor { message: self.message, index: self.table().fields@[i] }), self.table().fields@.len() as int),
//@@ end
}
impl ServiceDescriptor {
    pub open spec fn table(&self) -> ServiceDescriptorInner { self.pool.inner.services@[self.index as int] }
    pub open spec fn there(&self) -> bool { self.index < self.pool.inner.services@.len() }
//@@ fn prost-reflect/src/descriptor/api.rs ServiceDescriptor::inner
//@@ ret r
//@@ spec
    requires self.there(),
    ensures *r == self.table(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ServiceDescriptor::parent_pool
//@@ ret r
//@@ spec
    ensures *r == self.pool,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ServiceDescriptor::index
//@@ ret r
//@@ spec
    ensures r == self.index,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ServiceDescriptor::name
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there() && self.table().id.well_formed(),
    ensures self.table().id.name_of(r@),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ServiceDescriptor::full_name
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there(),
    ensures r@ == self.table().id.full_name@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ServiceDescriptor::path
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there(),
    ensures r@ == self.table().id.path@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ServiceDescriptor::methods
//@@ sig pub fn methods(&self) -> (r: Vec<MethodDescriptor>)
//@@ subst? indices ( & self . inner ( ) . methods ) . map ( | index | $y ) ==>> each_index(&self.inner().methods, |index: u32| -> (d: MethodDescriptor) ensures d == (MethodDescriptor { service: *self, index }) { $y })
//@@ subst? self . clone ( ) ==>> same_service(self)
//@@ spec
    requires self.there(), self.table().methods@.len() <= u32::MAX,
    ensures lists(r@, |i: int| (MethodDescriptor { service: *self, index: i as u32 }), self.table().methods@.len() as int),
//@@ end
}
impl MethodDescriptor {
    pub open spec fn table(&self) -> MethodDescriptorInner { self.service.table().methods@[self.index as int] }
    pub open spec fn there(&self) -> bool { self.service.there() && self.index < self.service.table().methods@.len() }
//@@ fn prost-reflect/src/descriptor/api.rs MethodDescriptor::inner
//@@ ret r
//@@ spec
    requires self.there(),
    ensures *r == self.table(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MethodDescriptor::parent_service
//@@ ret r
//@@ spec
    ensures *r == self.service,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MethodDescriptor::parent_pool
//@@ ret r
//@@ spec
    ensures *r == self.service.pool,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MethodDescriptor::index
//@@ ret r
//@@ spec
    ensures r == self.index,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MethodDescriptor::name
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there() && self.table().id.well_formed(),
    ensures self.table().id.name_of(r@),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MethodDescriptor::full_name
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there(),
    ensures r@ == self.table().id.full_name@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MethodDescriptor::path
//@@ ret r
//@@ subst? & self . inner ( ) . id . path ==>> path_of(&self.inner().id.path)
//@@ spec
    requires self.there(),
    ensures r@ == self.table().id.path@,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MethodDescriptor::input
//@@ ret r
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_message(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(),
    ensures r == (MessageDescriptor { pool: self.service.pool, index: self.table().input }),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MethodDescriptor::output
//@@ ret r
//@@ subst? self . pool . clone ( ) ==>> same_pool(&self.pool)
//@@ subst? self . parent_pool ( ) . clone ( ) ==>> same_pool(self.parent_pool())
//@@ subst? self . clone ( ) ==>> same_message(self)
//@@ subst? self . message . clone ( ) ==>> same_message(&self.message)
//@@ spec
    requires self.there(),
    ensures r == (MessageDescriptor { pool: self.service.pool, index: self.table().output }),
//@@ end
}
// ---- what the tables guarantee, over the contracts above
/// P11: a field is found by a number exactly when one with that number is declared, and it is that field.
proof fn found_by_number(m: MessageDescriptor, n: u32)
    requires message_sound(m.table()),
    ensures
        match opt_get(m.table().field_numbers@, n) {
            Some(i) => i < m.table().fields@.len() && m.table().fields@[i as int].number == n && forall|j: int| 0 <= j < m.table().fields@.len() && (#[trigger] m.table().fields@[j]).number == n ==> j == i,
            None => forall|j: int| 0 <= j < m.table().fields@.len() ==> (#[trigger] m.table().fields@[j]).number != n,
        },
{}
proof fn found_by_json_name(m: MessageDescriptor, n: Seq<char>)
    requires message_sound(m.table()),
    ensures
        match opt_get(m.table().field_json_names@, n) {
            Some(i) => i < m.table().fields@.len() && m.table().fields@[i as int].json_name@ == n && forall|j: int| 0 <= j < m.table().fields@.len() && (#[trigger] m.table().fields@[j]).json_name@ == n ==> j == i,
            None => forall|j: int| 0 <= j < m.table().fields@.len() ==> (#[trigger] m.table().fields@[j]).json_name@ != n,
        },
{}
proof fn found_by_name(m: MessageDescriptor, n: Seq<char>)
    requires message_sound(m.table()),
    ensures
        match opt_get(m.table().field_names@, n) {
            Some(i) => i < m.table().fields@.len() && called(m.table().fields@[i as int], n) && forall|j: int| 0 <= j < m.table().fields@.len() && #[trigger] called(m.table().fields@[j], n) ==> j == i,
            None => forall|j: int| 0 <= j < m.table().fields@.len() ==> !#[trigger] called(m.table().fields@[j], n),
        },
{}
/// P11: iteration yields every field once, in ascending order of the numbers.
proof fn iterates(m: MessageDescriptor, r: Seq<FieldDescriptor>)
    requires message_sound(m.table()), by_number(m, r),
    ensures
        forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).message == m && r[i].index < m.table().fields@.len(),
        forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).table().number < (#[trigger] r[j]).table().number,
        forall|k: int| 0 <= k < m.table().fields@.len() ==> r.contains(#[trigger] field_of(m, k)),
{
    let (ks, v) = choose|ks: Seq<u32>, v: Seq<u32>| #[trigger] in_key_order(m.table().field_numbers@, ks, v) && lists(r, |i: int| (FieldDescriptor { message: m, index: v[i] }), ks.len() as int);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).message == m && r[i].index < m.table().fields@.len() && r[i].table().number == ks[i] by { assert(m.table().field_numbers@.contains_key(ks[i])); }
    assert forall|k: int| 0 <= k < m.table().fields@.len() implies r.contains(#[trigger] field_of(m, k)) by {
        let n = m.table().fields@[k].number;
        assert(opt_get(m.table().field_numbers@, n) == Some(k as u32));
        assert(m.table().field_numbers@.contains_key(n));
        assert(ks.contains(n));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == n;
        assert(r[i] == field_of(m, k));
    }
}
pub open spec fn field_of(m: MessageDescriptor, k: int) -> FieldDescriptor { FieldDescriptor { message: m, index: k as u32 } }
/// P11: a value is found by number or name exactly when one is declared; iteration yields each value once, in order of the numbers.
proof fn found_value(e: EnumDescriptor, n: i32, v: Option<EnumValueDescriptor>)
    requires
        enum_sound(e.table(), e.table().values@.len() as int),
        match v { Some(v) => v.parent == e && e.table().value_numbers@.contains((n, v.index)), None => !has_number(e.table().value_numbers@, n) },
    ensures
        match v {
            Some(v) => v.there_in(e) && v.table().number == n,
            None => forall|j: int| 0 <= j < e.table().values@.len() ==> (#[trigger] e.table().values@[j]).number != n,
        },
{
    let t = e.table().value_numbers@;
    match v {
        Some(v) => { let i = choose|i: int| 0 <= i < t.len() && t[i] == (n, v.index); assert(t[i].1 < e.table().values@.len()); }
        None => {
            assert forall|j: int| 0 <= j < e.table().values@.len() implies (#[trigger] e.table().values@[j]).number != n by {
                assert(t.contains((e.table().values@[j].number, j as u32)));
                let i = choose|i: int| 0 <= i < t.len() && t[i] == (e.table().values@[j].number, j as u32);
                assert(t[i].0 == e.table().values@[j].number);
            }
        }
    }
}
proof fn found_value_by_name(e: EnumDescriptor, n: Seq<char>)
    requires enum_sound(e.table(), e.table().values@.len() as int),
    ensures
        match opt_get(e.table().value_names@, n) {
            Some(i) => i < e.table().values@.len() && value_called(e.table().values@[i as int], n) && forall|j: int| 0 <= j < e.table().values@.len() && #[trigger] value_called(e.table().values@[j], n) ==> j == i,
            None => forall|j: int| 0 <= j < e.table().values@.len() ==> !#[trigger] value_called(e.table().values@[j], n),
        },
{}
impl EnumValueDescriptor { pub open spec fn there_in(&self, e: EnumDescriptor) -> bool { self.parent == e && self.index < e.table().values@.len() } }
//@@ include options_of.rs
}
fn main() {}
