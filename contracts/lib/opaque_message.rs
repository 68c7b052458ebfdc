#[verifier::external_body]
pub struct DynamicMessage { x: u8 }
