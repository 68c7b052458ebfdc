pub mod tag {
//@@ item prost-reflect/src/descriptor/tag.rs mod file
//@@ item prost-reflect/src/descriptor/tag.rs mod message
//@@ item prost-reflect/src/descriptor/tag.rs mod field
//@@ item prost-reflect/src/descriptor/tag.rs mod oneof
//@@ item prost-reflect/src/descriptor/tag.rs mod enum_
//@@ item prost-reflect/src/descriptor/tag.rs mod enum_value
//@@ item prost-reflect/src/descriptor/tag.rs mod service
//@@ item prost-reflect/src/descriptor/tag.rs mod method
}
