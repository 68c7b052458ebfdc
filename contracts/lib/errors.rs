// ---- errors: the variants as declared; labels (positions in the source) are opaque
use std::ops::{Range, RangeInclusive};
#[verifier::external_body] pub struct Label { x: u8 }
#[verifier::external_body] pub struct ParseError { x: u8 }
#[verifier::external_body] pub struct DecodeError { x: u8 }
impl Label {
    /// reads `files[file]`
    #[verifier::external_body]
    pub fn new(files: &Vec<FileDescriptorInner>, message: &str, file: FileIndex, path: Vec<i32>) -> (r: Self) requires file < files@.len() { unimplemented!() }
}
//@@ item-subst crate :: text_format :: ParseError ==>> ParseError
//@@ item-subst prost :: DecodeError ==>> DecodeError
#[allow(inconsistent_fields)]
//@@ item prost-reflect/src/descriptor/error.rs enum DescriptorErrorKind
#[verifier::external_body]
fn join_path(path1: &[i32], path2: &[i32]) -> (r: Vec<i32>) ensures r@ == path1@ + path2@ { unimplemented!() }
/// any text (format!, to_string)
#[verifier::external_body]
fn some_text() -> String { unimplemented!() }
