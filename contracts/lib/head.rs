use vstd::prelude::*;
verus! {
#[verifier::external_body]
proof fn vac__() -> (b: bool) { unimplemented!() }
