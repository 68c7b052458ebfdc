//@@ props P21
//@@ include head.rs
use vstd::string::*;
pub mod descriptor_proto { pub use super::{ExtensionRange, ReservedRange}; }
pub mod enum_descriptor_proto { pub use super::EnumReservedRange; }
//@@ item prost-reflect/src/descriptor/types.rs struct FileDescriptorProto
//@@ item prost-reflect/src/descriptor/types.rs struct DescriptorProto
//@@ item prost-reflect/src/descriptor/types.rs struct FieldDescriptorProto
//@@ item prost-reflect/src/descriptor/types.rs struct OneofDescriptorProto
//@@ item prost-reflect/src/descriptor/types.rs struct ExtensionRange
//@@ item prost-reflect/src/descriptor/types.rs struct EnumDescriptorProto
//@@ item prost-reflect/src/descriptor/types.rs struct EnumValueDescriptorProto
//@@ item prost-reflect/src/descriptor/types.rs struct ServiceDescriptorProto
//@@ item prost-reflect/src/descriptor/types.rs struct MethodDescriptorProto
//@@ item prost-reflect/src/descriptor/types.rs struct Options
// ---- generated by prost: opaque
#[verifier::external_body] pub struct FileOptions { x: u8 }
#[verifier::external_body] pub struct MessageOptions { x: u8 }
#[verifier::external_body] pub struct FieldOptions { x: u8 }
#[verifier::external_body] pub struct OneofOptions { x: u8 }
#[verifier::external_body] pub struct EnumOptions { x: u8 }
#[verifier::external_body] pub struct EnumValueOptions { x: u8 }
#[verifier::external_body] pub struct ExtensionRangeOptions { x: u8 }
#[verifier::external_body] pub struct ServiceOptions { x: u8 }
#[verifier::external_body] pub struct MethodOptions { x: u8 }
#[verifier::external_body] pub struct SourceCodeInfo { x: u8 }
#[verifier::external_body] pub struct ReservedRange { x: u8 }
#[verifier::external_body] pub struct EnumReservedRange { x: u8 }
/// The declarations as prost-types declares them
pub mod prost_types { use super::*;
pub mod descriptor_proto { pub use super::ExtensionRange; pub use super::super::ReservedRange; }
pub mod enum_descriptor_proto { pub use super::super::EnumReservedRange; }
//@@ item-subst? :: prost :: alloc :: vec :: Vec ==>> Vec
//@@ item-subst? :: prost :: alloc :: string :: String ==>> String
//@@ item prost-types:src/protobuf.rs struct FileDescriptorProto
//@@ item-subst? :: prost :: alloc :: vec :: Vec ==>> Vec
//@@ item-subst? :: prost :: alloc :: string :: String ==>> String
//@@ item prost-types:src/protobuf.rs struct DescriptorProto
//@@ item-subst? :: prost :: alloc :: vec :: Vec ==>> Vec
//@@ item-subst? :: prost :: alloc :: string :: String ==>> String
//@@ item prost-types:src/protobuf.rs struct FieldDescriptorProto
//@@ item-subst? :: prost :: alloc :: vec :: Vec ==>> Vec
//@@ item-subst? :: prost :: alloc :: string :: String ==>> String
//@@ item prost-types:src/protobuf.rs struct OneofDescriptorProto
//@@ item-subst? :: prost :: alloc :: vec :: Vec ==>> Vec
//@@ item-subst? :: prost :: alloc :: string :: String ==>> String
//@@ item-subst super :: $t:id ==>> $t
//@@ item prost-types:src/protobuf.rs struct ExtensionRange
//@@ item-subst? :: prost :: alloc :: vec :: Vec ==>> Vec
//@@ item-subst? :: prost :: alloc :: string :: String ==>> String
//@@ item prost-types:src/protobuf.rs struct EnumDescriptorProto
//@@ item-subst? :: prost :: alloc :: vec :: Vec ==>> Vec
//@@ item-subst? :: prost :: alloc :: string :: String ==>> String
//@@ item prost-types:src/protobuf.rs struct EnumValueDescriptorProto
//@@ item-subst? :: prost :: alloc :: vec :: Vec ==>> Vec
//@@ item-subst? :: prost :: alloc :: string :: String ==>> String
//@@ item prost-types:src/protobuf.rs struct ServiceDescriptorProto
//@@ item-subst? :: prost :: alloc :: vec :: Vec ==>> Vec
//@@ item-subst? :: prost :: alloc :: string :: String ==>> String
//@@ item prost-types:src/protobuf.rs struct MethodDescriptorProto
}
// ---- assumed: prost encodes an option message, and `clone` (derived) copies
pub uninterp spec fn encoding<T>(t: T) -> Seq<u8>;
#[verifier::external_body]
fn encode_to_vec<T>(t: &T) -> (r: Vec<u8>) ensures r@ == encoding(*t) { unimplemented!() }
#[verifier::external_body]
fn copy_of<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
/// A list, each element turned by a function
#[verifier::external_body]
fn each<A, B, F: Fn(A) -> B>(v: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), #[trigger] r@[i]) { unimplemented!() }
#[verifier::external_body]
fn each_ref<A, B, F: Fn(&A) -> B>(v: &Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (&v@[i],), #[trigger] r@[i]) { unimplemented!() }
// ---- a declaration holds what the one of prost-types does; `e`: and its options are kept as prost encodes them
pub open spec fn like_options<T>(o: Option<Options<T>>, p: Option<T>, e: bool) -> bool {
    match (o, p) {
        (Some(o), Some(p)) => o.value == p && (e ==> o.encoded@ == encoding(p)),
        (None, None) => true,
        _ => false,
    }
}
pub open spec fn like_field_descriptor_proto(d: FieldDescriptorProto, p: prost_types::FieldDescriptorProto, e: bool) -> bool {
    &&& d.name == p.name
    &&& d.number == p.number
    &&& d.label == p.label
    &&& d.r#type == p.r#type
    &&& d.type_name == p.type_name
    &&& d.extendee == p.extendee
    &&& d.default_value == p.default_value
    &&& d.oneof_index == p.oneof_index
    &&& d.json_name == p.json_name
    &&& d.proto3_optional == p.proto3_optional
    &&& like_options(d.options, p.options, e)
}
pub open spec fn like_oneof_descriptor_proto(d: OneofDescriptorProto, p: prost_types::OneofDescriptorProto, e: bool) -> bool {
    &&& d.name == p.name
    &&& like_options(d.options, p.options, e)
}
pub open spec fn like_extension_range(d: ExtensionRange, p: prost_types::ExtensionRange, e: bool) -> bool {
    &&& d.start == p.start
    &&& d.end == p.end
    &&& like_options(d.options, p.options, e)
}
pub open spec fn like_enum_value_descriptor_proto(d: EnumValueDescriptorProto, p: prost_types::EnumValueDescriptorProto, e: bool) -> bool {
    &&& d.name == p.name
    &&& d.number == p.number
    &&& like_options(d.options, p.options, e)
}
pub open spec fn like_enum_descriptor_proto(d: EnumDescriptorProto, p: prost_types::EnumDescriptorProto, e: bool) -> bool {
    &&& d.name == p.name
    &&& d.reserved_range == p.reserved_range
    &&& d.reserved_name == p.reserved_name
    &&& like_options(d.options, p.options, e)
    &&& d.value@.len() == p.value@.len() && forall|i: int| #![trigger d.value@[i]] #![trigger p.value@[i]] 0 <= i < p.value@.len() ==> like_enum_value_descriptor_proto(d.value@[i], p.value@[i], e)
}
pub open spec fn like_method_descriptor_proto(d: MethodDescriptorProto, p: prost_types::MethodDescriptorProto, e: bool) -> bool {
    &&& d.name == p.name
    &&& d.input_type == p.input_type
    &&& d.output_type == p.output_type
    &&& d.client_streaming == p.client_streaming
    &&& d.server_streaming == p.server_streaming
    &&& like_options(d.options, p.options, e)
}
pub open spec fn like_service_descriptor_proto(d: ServiceDescriptorProto, p: prost_types::ServiceDescriptorProto, e: bool) -> bool {
    &&& d.name == p.name
    &&& like_options(d.options, p.options, e)
    &&& d.method@.len() == p.method@.len() && forall|i: int| #![trigger d.method@[i]] #![trigger p.method@[i]] 0 <= i < p.method@.len() ==> like_method_descriptor_proto(d.method@[i], p.method@[i], e)
}
pub open spec fn like_descriptor_proto(d: DescriptorProto, p: prost_types::DescriptorProto, e: bool) -> bool
    decreases p via nested_decreases
{
    &&& d.name == p.name
    &&& d.reserved_range == p.reserved_range
    &&& d.reserved_name == p.reserved_name
    &&& like_options(d.options, p.options, e)
    &&& d.field@.len() == p.field@.len() && forall|i: int| #![trigger d.field@[i]] #![trigger p.field@[i]] 0 <= i < p.field@.len() ==> like_field_descriptor_proto(d.field@[i], p.field@[i], e)
    &&& d.extension@.len() == p.extension@.len() && forall|i: int| #![trigger d.extension@[i]] #![trigger p.extension@[i]] 0 <= i < p.extension@.len() ==> like_field_descriptor_proto(d.extension@[i], p.extension@[i], e)
    &&& d.nested_type@.len() == p.nested_type@.len() && forall|i: int| #![trigger d.nested_type@[i]] #![trigger p.nested_type@[i]] 0 <= i < p.nested_type@.len() ==> like_descriptor_proto(d.nested_type@[i], p.nested_type@[i], e)
    &&& d.enum_type@.len() == p.enum_type@.len() && forall|i: int| #![trigger d.enum_type@[i]] #![trigger p.enum_type@[i]] 0 <= i < p.enum_type@.len() ==> like_enum_descriptor_proto(d.enum_type@[i], p.enum_type@[i], e)
    &&& d.extension_range@.len() == p.extension_range@.len() && forall|i: int| #![trigger d.extension_range@[i]] #![trigger p.extension_range@[i]] 0 <= i < p.extension_range@.len() ==> like_extension_range(d.extension_range@[i], p.extension_range@[i], e)
    &&& d.oneof_decl@.len() == p.oneof_decl@.len() && forall|i: int| #![trigger d.oneof_decl@[i]] #![trigger p.oneof_decl@[i]] 0 <= i < p.oneof_decl@.len() ==> like_oneof_descriptor_proto(d.oneof_decl@[i], p.oneof_decl@[i], e)
}
#[via_fn]
proof fn nested_decreases(d: DescriptorProto, p: prost_types::DescriptorProto, e: bool) {
    broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
    assert forall|i: int| 0 <= i < p.nested_type@.len() implies (decreases_to!(p => #[trigger] p.nested_type@[i])) by {
        assert(decreases_to!(p => p.nested_type));
        assert(decreases_to!(p.nested_type => p.nested_type[i]));
    }
}
pub open spec fn like_file_descriptor_proto(d: FileDescriptorProto, p: prost_types::FileDescriptorProto, e: bool) -> bool {
    &&& d.name == p.name
    &&& d.package == p.package
    &&& d.dependency == p.dependency
    &&& d.public_dependency == p.public_dependency
    &&& d.weak_dependency == p.weak_dependency
    &&& d.source_code_info == p.source_code_info
    &&& d.syntax == p.syntax
    &&& like_options(d.options, p.options, e)
    &&& d.message_type@.len() == p.message_type@.len() && forall|i: int| #![trigger d.message_type@[i]] #![trigger p.message_type@[i]] 0 <= i < p.message_type@.len() ==> like_descriptor_proto(d.message_type@[i], p.message_type@[i], e)
    &&& d.enum_type@.len() == p.enum_type@.len() && forall|i: int| #![trigger d.enum_type@[i]] #![trigger p.enum_type@[i]] 0 <= i < p.enum_type@.len() ==> like_enum_descriptor_proto(d.enum_type@[i], p.enum_type@[i], e)
    &&& d.service@.len() == p.service@.len() && forall|i: int| #![trigger d.service@[i]] #![trigger p.service@[i]] 0 <= i < p.service@.len() ==> like_service_descriptor_proto(d.service@[i], p.service@[i], e)
    &&& d.extension@.len() == p.extension@.len() && forall|i: int| #![trigger d.extension@[i]] #![trigger p.extension@[i]] 0 <= i < p.extension@.len() ==> like_field_descriptor_proto(d.extension@[i], p.extension@[i], e)
}
// ---- the code
impl<T> Options<T> {
//@@ fn prost-reflect/src/descriptor/types.rs Options::from_prost
//@@ ret r
//@@ subst? $o:id . encode_to_vec ( ) ==>> encode_to_vec(&$o)
//@@ subst? $o:id . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures r.value == $p0, r.encoded@ == encoding($p0),
//@@ end
//@@ fn prost-reflect/src/descriptor/types.rs Options::to_prost
//@@ ret r
//@@ subst? self . value . clone ( ) ==>> copy_of(&self.value)
//@@ spec
    ensures r == self.value,
//@@ end
}
impl FileDescriptorProto {
//@@ fn prost-reflect/src/descriptor/types.rs FileDescriptorProto::from_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: from_prost ( $x:id ) ) ==>> .map($t::from_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: from_prost ==>> ExtensionRange::from_prost
//@@ subst? $v:e . into_iter ( ) . map ( DescriptorProto :: from_prost ) . collect ( ) ==>> each($v, |x_: prost_types::DescriptorProto| -> (y_: DescriptorProto) ensures like_descriptor_proto(y_, x_, true) { DescriptorProto::from_prost(x_) })
//@@ subst? $v:e . into_iter ( ) . map ( EnumDescriptorProto :: from_prost ) . collect ( ) ==>> each($v, |x_: prost_types::EnumDescriptorProto| -> (y_: EnumDescriptorProto) ensures like_enum_descriptor_proto(y_, x_, true) { EnumDescriptorProto::from_prost(x_) })
//@@ subst? $v:e . into_iter ( ) . map ( ServiceDescriptorProto :: from_prost ) . collect ( ) ==>> each($v, |x_: prost_types::ServiceDescriptorProto| -> (y_: ServiceDescriptorProto) ensures like_service_descriptor_proto(y_, x_, true) { ServiceDescriptorProto::from_prost(x_) })
//@@ subst? $v:e . into_iter ( ) . map ( FieldDescriptorProto :: from_prost ) . collect ( ) ==>> each($v, |x_: prost_types::FieldDescriptorProto| -> (y_: FieldDescriptorProto) ensures like_field_descriptor_proto(y_, x_, true) { FieldDescriptorProto::from_prost(x_) })
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_file_descriptor_proto(r, $p0, true),
//@@ end
//@@ fn prost-reflect/src/descriptor/types.rs FileDescriptorProto::to_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: to_prost ( $x:id ) ) ==>> .map($t::to_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: to_prost ==>> ExtensionRange::to_prost
//@@ subst? $v:e . iter ( ) . map ( DescriptorProto :: to_prost ) . collect ( ) ==>> each_ref(&$v, |x_: &DescriptorProto| -> (y_: prost_types::DescriptorProto) ensures like_descriptor_proto(*x_, y_, false) { DescriptorProto::to_prost(x_) })
//@@ subst? $v:e . iter ( ) . map ( EnumDescriptorProto :: to_prost ) . collect ( ) ==>> each_ref(&$v, |x_: &EnumDescriptorProto| -> (y_: prost_types::EnumDescriptorProto) ensures like_enum_descriptor_proto(*x_, y_, false) { EnumDescriptorProto::to_prost(x_) })
//@@ subst? $v:e . iter ( ) . map ( ServiceDescriptorProto :: to_prost ) . collect ( ) ==>> each_ref(&$v, |x_: &ServiceDescriptorProto| -> (y_: prost_types::ServiceDescriptorProto) ensures like_service_descriptor_proto(*x_, y_, false) { ServiceDescriptorProto::to_prost(x_) })
//@@ subst? $v:e . iter ( ) . map ( FieldDescriptorProto :: to_prost ) . collect ( ) ==>> each_ref(&$v, |x_: &FieldDescriptorProto| -> (y_: prost_types::FieldDescriptorProto) ensures like_field_descriptor_proto(*x_, y_, false) { FieldDescriptorProto::to_prost(x_) })
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_file_descriptor_proto(*self, r, false),
//@@ end
}
impl DescriptorProto {
#[verifier::exec_allows_no_decreases_clause]
//@@ fn prost-reflect/src/descriptor/types.rs DescriptorProto::from_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: from_prost ( $x:id ) ) ==>> .map($t::from_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: from_prost ==>> ExtensionRange::from_prost
//@@ subst? $v:e . into_iter ( ) . map ( FieldDescriptorProto :: from_prost ) . collect ( ) ==>> each($v, |x_: prost_types::FieldDescriptorProto| -> (y_: FieldDescriptorProto) ensures like_field_descriptor_proto(y_, x_, true) { FieldDescriptorProto::from_prost(x_) })
//@@ subst? $v:e . into_iter ( ) . map ( DescriptorProto :: from_prost ) . collect ( ) ==>> each($v, |x_: prost_types::DescriptorProto| -> (y_: DescriptorProto) ensures like_descriptor_proto(y_, x_, true) { DescriptorProto::from_prost(x_) })
//@@ subst? $v:e . into_iter ( ) . map ( EnumDescriptorProto :: from_prost ) . collect ( ) ==>> each($v, |x_: prost_types::EnumDescriptorProto| -> (y_: EnumDescriptorProto) ensures like_enum_descriptor_proto(y_, x_, true) { EnumDescriptorProto::from_prost(x_) })
//@@ subst? $v:e . into_iter ( ) . map ( ExtensionRange :: from_prost ) . collect ( ) ==>> each($v, |x_: prost_types::ExtensionRange| -> (y_: ExtensionRange) ensures like_extension_range(y_, x_, true) { ExtensionRange::from_prost(x_) })
//@@ subst? $v:e . into_iter ( ) . map ( OneofDescriptorProto :: from_prost ) . collect ( ) ==>> each($v, |x_: prost_types::OneofDescriptorProto| -> (y_: OneofDescriptorProto) ensures like_oneof_descriptor_proto(y_, x_, true) { OneofDescriptorProto::from_prost(x_) })
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_descriptor_proto(r, $p0, true),
//@@ end
#[verifier::exec_allows_no_decreases_clause]
//@@ fn prost-reflect/src/descriptor/types.rs DescriptorProto::to_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: to_prost ( $x:id ) ) ==>> .map($t::to_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: to_prost ==>> ExtensionRange::to_prost
//@@ subst? $v:e . iter ( ) . map ( FieldDescriptorProto :: to_prost ) . collect ( ) ==>> each_ref(&$v, |x_: &FieldDescriptorProto| -> (y_: prost_types::FieldDescriptorProto) ensures like_field_descriptor_proto(*x_, y_, false) { FieldDescriptorProto::to_prost(x_) })
//@@ subst? $v:e . iter ( ) . map ( DescriptorProto :: to_prost ) . collect ( ) ==>> each_ref(&$v, |x_: &DescriptorProto| -> (y_: prost_types::DescriptorProto) ensures like_descriptor_proto(*x_, y_, false) { DescriptorProto::to_prost(x_) })
//@@ subst? $v:e . iter ( ) . map ( EnumDescriptorProto :: to_prost ) . collect ( ) ==>> each_ref(&$v, |x_: &EnumDescriptorProto| -> (y_: prost_types::EnumDescriptorProto) ensures like_enum_descriptor_proto(*x_, y_, false) { EnumDescriptorProto::to_prost(x_) })
//@@ subst? $v:e . iter ( ) . map ( ExtensionRange :: to_prost ) . collect ( ) ==>> each_ref(&$v, |x_: &ExtensionRange| -> (y_: prost_types::ExtensionRange) ensures like_extension_range(*x_, y_, false) { ExtensionRange::to_prost(x_) })
//@@ subst? $v:e . iter ( ) . map ( OneofDescriptorProto :: to_prost ) . collect ( ) ==>> each_ref(&$v, |x_: &OneofDescriptorProto| -> (y_: prost_types::OneofDescriptorProto) ensures like_oneof_descriptor_proto(*x_, y_, false) { OneofDescriptorProto::to_prost(x_) })
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_descriptor_proto(*self, r, false),
//@@ end
}
impl FieldDescriptorProto {
//@@ fn prost-reflect/src/descriptor/types.rs FieldDescriptorProto::from_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: from_prost ( $x:id ) ) ==>> .map($t::from_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: from_prost ==>> ExtensionRange::from_prost
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_field_descriptor_proto(r, $p0, true),
//@@ end
//@@ fn prost-reflect/src/descriptor/types.rs FieldDescriptorProto::to_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: to_prost ( $x:id ) ) ==>> .map($t::to_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: to_prost ==>> ExtensionRange::to_prost
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_field_descriptor_proto(*self, r, false),
//@@ end
}
impl OneofDescriptorProto {
//@@ fn prost-reflect/src/descriptor/types.rs OneofDescriptorProto::from_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: from_prost ( $x:id ) ) ==>> .map($t::from_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: from_prost ==>> ExtensionRange::from_prost
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_oneof_descriptor_proto(r, $p0, true),
//@@ end
//@@ fn prost-reflect/src/descriptor/types.rs OneofDescriptorProto::to_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: to_prost ( $x:id ) ) ==>> .map($t::to_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: to_prost ==>> ExtensionRange::to_prost
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_oneof_descriptor_proto(*self, r, false),
//@@ end
}
impl ExtensionRange {
//@@ fn prost-reflect/src/descriptor/types.rs ExtensionRange::from_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: from_prost ( $x:id ) ) ==>> .map($t::from_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: from_prost ==>> ExtensionRange::from_prost
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_extension_range(r, $p0, true),
//@@ end
//@@ fn prost-reflect/src/descriptor/types.rs ExtensionRange::to_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: to_prost ( $x:id ) ) ==>> .map($t::to_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: to_prost ==>> ExtensionRange::to_prost
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_extension_range(*self, r, false),
//@@ end
}
impl EnumDescriptorProto {
//@@ fn prost-reflect/src/descriptor/types.rs EnumDescriptorProto::from_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: from_prost ( $x:id ) ) ==>> .map($t::from_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: from_prost ==>> ExtensionRange::from_prost
//@@ subst? $v:e . into_iter ( ) . map ( EnumValueDescriptorProto :: from_prost ) . collect ( ) ==>> each($v, |x_: prost_types::EnumValueDescriptorProto| -> (y_: EnumValueDescriptorProto) ensures like_enum_value_descriptor_proto(y_, x_, true) { EnumValueDescriptorProto::from_prost(x_) })
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_enum_descriptor_proto(r, $p0, true),
//@@ end
//@@ fn prost-reflect/src/descriptor/types.rs EnumDescriptorProto::to_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: to_prost ( $x:id ) ) ==>> .map($t::to_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: to_prost ==>> ExtensionRange::to_prost
//@@ subst? $v:e . iter ( ) . map ( EnumValueDescriptorProto :: to_prost ) . collect ( ) ==>> each_ref(&$v, |x_: &EnumValueDescriptorProto| -> (y_: prost_types::EnumValueDescriptorProto) ensures like_enum_value_descriptor_proto(*x_, y_, false) { EnumValueDescriptorProto::to_prost(x_) })
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_enum_descriptor_proto(*self, r, false),
//@@ end
}
impl EnumValueDescriptorProto {
//@@ fn prost-reflect/src/descriptor/types.rs EnumValueDescriptorProto::from_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: from_prost ( $x:id ) ) ==>> .map($t::from_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: from_prost ==>> ExtensionRange::from_prost
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_enum_value_descriptor_proto(r, $p0, true),
//@@ end
//@@ fn prost-reflect/src/descriptor/types.rs EnumValueDescriptorProto::to_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: to_prost ( $x:id ) ) ==>> .map($t::to_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: to_prost ==>> ExtensionRange::to_prost
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_enum_value_descriptor_proto(*self, r, false),
//@@ end
}
impl ServiceDescriptorProto {
//@@ fn prost-reflect/src/descriptor/types.rs ServiceDescriptorProto::from_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: from_prost ( $x:id ) ) ==>> .map($t::from_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: from_prost ==>> ExtensionRange::from_prost
//@@ subst? $v:e . into_iter ( ) . map ( MethodDescriptorProto :: from_prost ) . collect ( ) ==>> each($v, |x_: prost_types::MethodDescriptorProto| -> (y_: MethodDescriptorProto) ensures like_method_descriptor_proto(y_, x_, true) { MethodDescriptorProto::from_prost(x_) })
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_service_descriptor_proto(r, $p0, true),
//@@ end
//@@ fn prost-reflect/src/descriptor/types.rs ServiceDescriptorProto::to_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: to_prost ( $x:id ) ) ==>> .map($t::to_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: to_prost ==>> ExtensionRange::to_prost
//@@ subst? $v:e . iter ( ) . map ( MethodDescriptorProto :: to_prost ) . collect ( ) ==>> each_ref(&$v, |x_: &MethodDescriptorProto| -> (y_: prost_types::MethodDescriptorProto) ensures like_method_descriptor_proto(*x_, y_, false) { MethodDescriptorProto::to_prost(x_) })
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_service_descriptor_proto(*self, r, false),
//@@ end
}
impl MethodDescriptorProto {
//@@ fn prost-reflect/src/descriptor/types.rs MethodDescriptorProto::from_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: from_prost ( $x:id ) ) ==>> .map($t::from_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: from_prost ==>> ExtensionRange::from_prost
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_method_descriptor_proto(r, $p0, true),
//@@ end
//@@ fn prost-reflect/src/descriptor/types.rs MethodDescriptorProto::to_prost
//@@ ret r
//@@ subst? . map ( | $x:id | $t:id :: to_prost ( $x:id ) ) ==>> .map($t::to_prost)
//@@ subst? descriptor_proto :: ExtensionRange :: to_prost ==>> ExtensionRange::to_prost
//@@ subst? . map ( | $x:id | Options :: from_prost ( $x:id ) ) ==>> .map(Options::from_prost)
//@@ subst? . map ( | $x:id | Options :: to_prost ( $x:id ) ) ==>> .map(Options::to_prost)
//@@ subst? $o:e . map ( Options :: from_prost ) ==>> match $o { Some(o_) => Some(Options::from_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( Options :: to_prost ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $x:id . to_prost ( ) ) ==>> match &$o { Some(o_) => Some(Options::to_prost(o_)), None => None }
//@@ subst? $o:e . clone ( ) ==>> copy_of(&$o)
//@@ spec
    ensures like_method_descriptor_proto(*self, r, false),
//@@ end
}
// ---- options keep the bytes they were decoded from, record by record
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct WireType { x: u8 }
#[verifier::external_body]
pub struct DecodeContext { x: u8 }
impl DecodeContext {
    #[verifier::external_body]
    fn clone(&self) -> Self { unimplemented!() }
}
#[verifier::external_body]
pub struct DecodeError { x: u8 }
/// impl Buf
#[verifier::external_body]
pub struct Src { x: u8 }
impl View for Src { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
// assumed of prost: the key of a record; how many bytes its payload takes; decoding one record of an option message
pub uninterp spec fn key(tag: u32, wt: WireType) -> Seq<u8>;
pub uninterp spec fn payload_len(tag: u32, wt: WireType, b: Seq<u8>) -> int;
pub uninterp spec fn merged<T>(a: T, tag: u32, wt: WireType, payload: Seq<u8>, b: T) -> bool;
pub uninterp spec fn cleared<T>(t: T) -> bool;
#[verifier::external_body]
fn encode_key(tag: u32, wt: WireType, buf: &mut Vec<u8>) ensures final(buf)@ == old(buf)@ + key(tag, wt) { unimplemented!() }
/// skip_field reads through the adapter only by `advance`, which is proved below to copy what it passes over
#[verifier::external_body]
fn skip_and_copy(wt: WireType, tag: u32, dest: &mut Vec<u8>, src: &mut Src, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures r is Ok ==> ({ let n = payload_len(tag, wt, old(src)@); 0 <= n <= old(src)@.len() && final(src)@ == old(src)@.skip(n) && final(dest)@ == old(dest)@ + old(src)@.take(n) }) { unimplemented!() }
#[verifier::external_body]
fn merge_value<T>(v: &mut T, tag: u32, wt: WireType, payload: &[u8], ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    ensures r is Ok ==> merged(*old(v), tag, wt, payload@, *final(v)) { unimplemented!() }
#[verifier::external_body]
fn clear_value<T>(v: &mut T) ensures cleared(*final(v)) { unimplemented!() }
#[verifier::external_body]
fn slice_from(v: &Vec<u8>, n: usize) -> (r: &[u8]) requires n <= v@.len() ensures r@ == v@.skip(n as int) { unimplemented!() }
#[verifier::external_body]
fn put(dest: &mut Vec<u8>, b: &[u8]) ensures final(dest)@ == old(dest)@ + b@ { unimplemented!() }
#[verifier::external_body]
fn put_taken(dest: &mut Vec<u8>, src: &mut Src, n: usize)
    requires n <= old(src)@.len() ensures final(dest)@ == old(dest)@ + old(src)@.take(n as int), final(src)@ == old(src)@.skip(n as int) { unimplemented!() }
fn same<A>(a: A) -> (r: A) ensures r == a { a }
//@@ fn prost-reflect/src/descriptor/types.rs Options::merge_field::advance
//@@ sig fn advance(dest: &mut Vec<u8>, src: &mut Src, cnt: usize)
//@@ subst self . dest . put ( ( & mut self . src ) . take ( $n ) ) ==>> put_taken(dest, src, same($n))
//@@ spec
    requires cnt <= old(src)@.len(),
    ensures final(dest)@ == old(dest)@ + old(src)@.take(cnt as int), final(src)@ == old(src)@.skip(cnt as int),
//@@ end
impl<T> Options<T> {
//@@ fn prost-reflect/src/descriptor/types.rs Options::encode_raw
//@@ sig fn encode_raw(&self, buf: &mut Vec<u8>)
//@@ subst? buf . put ( $x ) ==>> put(buf, same($x))
//@@ subst? buf . put_slice ( $x ) ==>> put(buf, same($x))
//@@ spec
    ensures final(buf)@ == old(buf)@ + self.encoded@,
//@@ end
//@@ fn prost-reflect/src/descriptor/types.rs Options::encoded_len
//@@ ret r
//@@ spec
    ensures r == self.encoded@.len(),
//@@ end
//@@ fn prost-reflect/src/descriptor/types.rs Options::clear
//@@ subst? self . value . clear ( ) ==>> clear_value(&mut self.value)
//@@ spec
    ensures final(self).encoded@ == Seq::<u8>::empty(), cleared(final(self).value),
//@@ end
//@@ fn prost-reflect/src/descriptor/types.rs Options::merge_field
//@@ sig fn merge_field(&mut self, tag: u32, wire_type: WireType, buf: &mut Src, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
//@@ drop-items
//@@ subst? src : $s:id , } ==>> src: $s }
//@@ subst skip_field ( $w , $t , & mut CopyBufAdapter { dest : $d , src : $s } , $c ) ==>> skip_and_copy($w, $t, $d, $s, $c)
//@@ subst? & mut & self . encoded [ $n .. ] ==>> slice_from(&self.encoded, $n)
//@@ subst self . value . merge_field ( $x ) ==>> merge_value(&mut self.value, $x)
//@@ before merge_value
    proof { assert(self.encoded@.skip(start as int) =~= old(buf)@.take(payload_len(tag, wire_type, old(buf)@))); }
//@@ spec
    ensures r is Ok ==> ({
        let n = payload_len(tag, wire_type, old(buf)@);
        &&& 0 <= n <= old(buf)@.len() && final(buf)@ == old(buf)@.skip(n)
        &&& final(self).encoded@ == old(self).encoded@ + key(tag, wire_type) + old(buf)@.take(n)
        &&& merged(old(self).value, tag, wire_type, old(buf)@.take(n), final(self).value)
    }),
//@@ end
}
} // verus!
fn main() {}
