// ---- the pool's tables, as declared in the source
//@@ item prost-reflect/src/descriptor/mod.rs type DescriptorIndex
//@@ item prost-reflect/src/descriptor/mod.rs type FileIndex
//@@ item prost-reflect/src/descriptor/mod.rs type ServiceIndex
//@@ item prost-reflect/src/descriptor/mod.rs type MethodIndex
//@@ item prost-reflect/src/descriptor/mod.rs type MessageIndex
//@@ item prost-reflect/src/descriptor/mod.rs type FieldIndex
//@@ item prost-reflect/src/descriptor/mod.rs type OneofIndex
//@@ item prost-reflect/src/descriptor/mod.rs type ExtensionIndex
//@@ item prost-reflect/src/descriptor/mod.rs type EnumIndex
//@@ item prost-reflect/src/descriptor/mod.rs type EnumValueIndex
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@@ item prost-reflect/src/descriptor/mod.rs enum Syntax
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@@ item prost-reflect/src/descriptor/mod.rs enum Cardinality
#[derive(Clone, Copy)]
//@@ item prost-reflect/src/descriptor/mod.rs enum KindIndex
#[derive(Clone, Copy)]
//@@ item prost-reflect/src/descriptor/mod.rs enum DefinitionKind
//@@ item-subst Box < [ i32 ] > ==>> Vec<i32>
//@@ item prost-reflect/src/descriptor/mod.rs struct Definition
//@@ item-subst Box < [ i32 ] > ==>> Vec<i32>
//@@ item-subst Box < str > ==>> String
//@@ item prost-reflect/src/descriptor/mod.rs struct Identity
//@@ item-subst HashMap < Box < str > , $v > ==>> NameMap<$v>
//@@ item prost-reflect/src/descriptor/mod.rs struct DescriptorPoolInner
//@@ item-subst HashSet < FileIndex > ==>> IndexSet
//@@ item-subst prost_types :: FileDescriptorProto ==>> ProstFile
//@@ item prost-reflect/src/descriptor/mod.rs struct FileDescriptorInner
//@@ item-subst HashMap < Box < str > , $v > ==>> NameMap<$v>
//@@ item prost-reflect/src/descriptor/mod.rs struct MessageDescriptorInner
//@@ item prost-reflect/src/descriptor/mod.rs struct OneofDescriptorInner
//@@ item-subst Box < str > ==>> String
//@@ item prost-reflect/src/descriptor/mod.rs struct FieldDescriptorInner
//@@ item-subst Box < str > ==>> String
//@@ item prost-reflect/src/descriptor/mod.rs struct ExtensionDescriptorInner
//@@ item-subst HashMap < Box < str > , $v > ==>> NameMap<$v>
//@@ item prost-reflect/src/descriptor/mod.rs struct EnumDescriptorInner
//@@ item prost-reflect/src/descriptor/mod.rs struct EnumValueDescriptorInner
//@@ item prost-reflect/src/descriptor/mod.rs struct ServiceDescriptorInner
//@@ item prost-reflect/src/descriptor/mod.rs struct MethodDescriptorInner
//@@ item prost-reflect/src/descriptor/types.rs struct FileDescriptorProto
//@@ item-subst descriptor_proto :: $t:id ==>> $t
//@@ item prost-reflect/src/descriptor/types.rs struct DescriptorProto
//@@ item prost-reflect/src/descriptor/types.rs struct ExtensionRange
//@@ item prost-reflect/src/descriptor/types.rs struct FieldDescriptorProto
//@@ item prost-reflect/src/descriptor/types.rs struct OneofDescriptorProto
//@@ item-subst enum_descriptor_proto :: $t:id ==>> $t
//@@ item prost-reflect/src/descriptor/types.rs struct EnumDescriptorProto
//@@ item prost-reflect/src/descriptor/types.rs struct EnumValueDescriptorProto
//@@ item prost-reflect/src/descriptor/types.rs struct ServiceDescriptorProto
//@@ item prost-reflect/src/descriptor/types.rs struct MethodDescriptorProto
//@@ item prost-reflect/src/descriptor/types.rs struct Options
// ---- generated by prost: the options are opaque, unset scalars read as their default
#[verifier::external_body] pub struct ProstFile { x: u8 }
#[verifier::external_body] pub struct FileOptions { x: u8 }
#[verifier::external_body] pub struct MessageOptions { x: u8 }
pub struct FieldOptions { pub packed: Option<bool> }
#[verifier::external_body] pub struct OneofOptions { x: u8 }
#[verifier::external_body] pub struct EnumValueOptions { x: u8 }
#[verifier::external_body] pub struct ExtensionRangeOptions { x: u8 }
#[verifier::external_body] pub struct ServiceOptions { x: u8 }
#[verifier::external_body] pub struct MethodOptions { x: u8 }
#[verifier::external_body] pub struct SourceCodeInfo { x: u8 }
#[verifier::external_body] pub struct EnumOptions { x: u8 }
pub struct ReservedRange { pub start: Option<i32>, pub end: Option<i32> }
pub struct EnumReservedRange { pub start: Option<i32>, pub end: Option<i32> }
pub open spec fn int_or_zero(v: Option<i32>) -> i32 { match v { Some(v) => v, None => 0 } }
pub open spec fn text_or_empty(v: Option<String>) -> Seq<char> { match v { Some(v) => v@, None => Seq::empty() } }
#[verifier::external_body]
fn text_ref(v: &Option<String>) -> (r: &str) ensures r@ == text_or_empty(*v) { unimplemented!() }
fn int_of(v: Option<i32>) -> (r: i32) ensures r == int_or_zero(v) { match v { Some(v) => v, None => 0 } }
impl ReservedRange {
    fn start(&self) -> (r: i32) ensures r == int_or_zero(self.start) { int_of(self.start) }
    fn end(&self) -> (r: i32) ensures r == int_or_zero(self.end) { int_of(self.end) }
}
impl EnumReservedRange {
    fn start(&self) -> (r: i32) ensures r == int_or_zero(self.start) { int_of(self.start) }
    fn end(&self) -> (r: i32) ensures r == int_or_zero(self.end) { int_of(self.end) }
}
impl ExtensionRange {
    fn start(&self) -> (r: i32) ensures r == int_or_zero(self.start) { int_of(self.start) }
    fn end(&self) -> (r: i32) ensures r == int_or_zero(self.end) { int_of(self.end) }
}
impl FileDescriptorProto {
    fn name(&self) -> (r: &str) ensures r@ == text_or_empty(self.name) { text_ref(&self.name) }
    fn package(&self) -> (r: &str) ensures r@ == text_or_empty(self.package) { text_ref(&self.package) }
}
impl DescriptorProto { fn name(&self) -> (r: &str) ensures r@ == text_or_empty(self.name) { text_ref(&self.name) } }
impl OneofDescriptorProto { fn name(&self) -> (r: &str) ensures r@ == text_or_empty(self.name) { text_ref(&self.name) } }
impl EnumDescriptorProto { fn name(&self) -> (r: &str) ensures r@ == text_or_empty(self.name) { text_ref(&self.name) } }
impl EnumValueDescriptorProto {
    fn name(&self) -> (r: &str) ensures r@ == text_or_empty(self.name) { text_ref(&self.name) }
    fn number(&self) -> (r: i32) ensures r == int_or_zero(self.number) { int_of(self.number) }
}
impl FieldDescriptorProto {
    fn name(&self) -> (r: &str) ensures r@ == text_or_empty(self.name) { text_ref(&self.name) }
    fn number(&self) -> (r: i32) ensures r == int_or_zero(self.number) { int_of(self.number) }
    fn type_name(&self) -> (r: &str) ensures r@ == text_or_empty(self.type_name) { text_ref(&self.type_name) }
    fn extendee(&self) -> (r: &str) ensures r@ == text_or_empty(self.extendee) { text_ref(&self.extendee) }
    fn json_name(&self) -> (r: &str) ensures r@ == text_or_empty(self.json_name) { text_ref(&self.json_name) }
    fn proto3_optional(&self) -> (r: bool) ensures r == (self.proto3_optional == Some(true)) { match self.proto3_optional { Some(v) => v, None => false } }
}
impl ServiceDescriptorProto { fn name(&self) -> (r: &str) ensures r@ == text_or_empty(self.name) { text_ref(&self.name) } }
impl MethodDescriptorProto {
    fn name(&self) -> (r: &str) ensures r@ == text_or_empty(self.name) { text_ref(&self.name) }
    fn input_type(&self) -> (r: &str) ensures r@ == text_or_empty(self.input_type) { text_ref(&self.input_type) }
    fn output_type(&self) -> (r: &str) ensures r@ == text_or_empty(self.output_type) { text_ref(&self.output_type) }
}
