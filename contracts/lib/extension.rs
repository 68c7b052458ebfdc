// ---- extensions
#[verifier::external_body]
pub struct ExtensionDescriptor { x: u8 }
impl FieldDescriptorLike for ExtensionDescriptor {
    uninterp spec fn s_number(&self) -> u32;
    uninterp spec fn s_kind(&self) -> Kind;
    uninterp spec fn s_group(&self) -> bool;
    uninterp spec fn s_list(&self) -> bool;
    uninterp spec fn s_map(&self) -> bool;
    uninterp spec fn s_packed(&self) -> bool;
    uninterp spec fn s_packable(&self) -> bool;
    uninterp spec fn s_presence(&self) -> bool;
    uninterp spec fn s_default(&self) -> Value;
    uninterp spec fn s_is_default(&self, value: Value) -> bool;
    uninterp spec fn s_valid(&self, value: Value) -> bool;
    open spec fn s_oneof(&self) -> Option<OneofDescriptor> { None }
    #[verifier::external_body] fn number(&self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn kind(&self) -> (r: Kind) { unimplemented!() }
    #[verifier::external_body] fn is_group(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_list(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_map(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_packed(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_packable(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn supports_presence(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn default_value(&self) -> (r: Value) { unimplemented!() }
    #[verifier::external_body] fn is_default_value(&self, value: &Value) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_valid(&self, value: &Value) -> (r: bool) { unimplemented!() }
//@@ fn prost-reflect/src/dynamic/fields.rs FieldDescriptorLike for ExtensionDescriptor::containing_oneof
//@@ ret r
//@@ end
}
impl MessageDescriptor {
    pub uninterp spec fn s_extension(&self, number: u32) -> Option<ExtensionDescriptor>;
    #[verifier::external_body]
    pub fn get_extension(&self, number: u32) -> (r: Option<ExtensionDescriptor>) ensures r == self.s_extension(number) { unimplemented!() }
}
