use std::collections::HashMap;
#[verifier::external_body] pub struct DynamicMessage { x: u8 }
//@@ item prost-reflect/src/dynamic/mod.rs enum Value
//@@ item prost-reflect/src/dynamic/mod.rs enum MapKey
