//@@ props P08 P09 P10 P11
//@@ include head.rs
use vstd::string::*;
use vstd::utf8::*;
broadcast use {group_utf8_lib, vstd::std_specs::vec::axiom_vec_index_decreases};
//@@ include names.rs
#[verifier::external_body]
pub struct Value { x: u8 }
#[verifier::external_body]
fn unreached<A>() -> A requires false { unimplemented!() }
//@@ include btree.rs
//@@ include pool.rs
//@@ include identity.rs
//@@ include prefix.rs
//@@ include tag.rs
//@@ include protos.rs
#[derive(Clone, Copy)]
//@@ item prost-reflect/src/descriptor/build/mod.rs struct DescriptorPoolOffsets
//@@ include events.rs
pub open spec fn off_of(o: DescriptorPoolOffsets) -> Off { Off { file: o.file as int, message: o.message as int, enum_: o.enum_ as int, service: o.service as int, extension: o.extension as int } }
fn to_index(i: usize) -> (r: u32) requires i <= u32::MAX ensures r == i { i as u32 }
/// The trait as it is called: each method is one event of the trace.
pub trait Visitor {
    spec fn trace(&self) -> Seq<Event>;
    fn visit_file(&mut self, path: &[i32], index: FileIndex, file: &FileDescriptorProto)
        ensures final(self).trace() == old(self).trace().push(Event::File { path: path@, index, file: *file });
    fn visit_message(&mut self, path: &[i32], full_name: &str, file: FileIndex, parent_message: Option<MessageIndex>, index: MessageIndex, message: &DescriptorProto)
        ensures final(self).trace() == old(self).trace().push(Event::Message { path: path@, name: full_name@, file, parent: parent_message, index, message: *message });
    fn visit_field(&mut self, path: &[i32], full_name: &str, file: FileIndex, message: MessageIndex, index: FieldIndex, field: &FieldDescriptorProto)
        ensures final(self).trace() == old(self).trace().push(Event::Field { path: path@, name: full_name@, file, message, index, field: *field });
    fn visit_oneof(&mut self, path: &[i32], full_name: &str, file: FileIndex, message: MessageIndex, index: OneofIndex, oneof: &OneofDescriptorProto)
        ensures final(self).trace() == old(self).trace().push(Event::Oneof { path: path@, name: full_name@, file, message, index, oneof: *oneof });
    fn visit_service(&mut self, path: &[i32], full_name: &str, file: FileIndex, index: ServiceIndex, service: &ServiceDescriptorProto)
        ensures final(self).trace() == old(self).trace().push(Event::Service { path: path@, name: full_name@, file, index, service: *service });
    fn visit_method(&mut self, path: &[i32], full_name: &str, file: FileIndex, service: ServiceIndex, index: MethodIndex, method: &MethodDescriptorProto)
        ensures final(self).trace() == old(self).trace().push(Event::Method { path: path@, name: full_name@, file, service, index, method: *method });
    fn visit_enum(&mut self, path: &[i32], full_name: &str, file: FileIndex, parent_message: Option<MessageIndex>, index: EnumIndex, enum_: &EnumDescriptorProto)
        ensures final(self).trace() == old(self).trace().push(Event::Enum { path: path@, name: full_name@, file, parent: parent_message, index, enum_: *enum_ });
    fn visit_enum_value(&mut self, path: &[i32], full_name: &str, file: FileIndex, enum_: EnumIndex, index: EnumValueIndex, value: &EnumValueDescriptorProto)
        ensures final(self).trace() == old(self).trace().push(Event::EnumValue { path: path@, name: full_name@, file, enum_, index, value: *value });
    fn visit_extension(&mut self, path: &[i32], full_name: &str, file: FileIndex, parent_message: Option<MessageIndex>, index: ExtensionIndex, extension: &FieldDescriptorProto)
        ensures final(self).trace() == old(self).trace().push(Event::Extension { path: path@, name: full_name@, file, parent: parent_message, index, extension: *extension });
}
// ---- String (assumed contracts)
#[verifier::external_body] fn add_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body] fn add_text(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body] fn no_chars(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
fn no_text(s: &str) -> (r: bool) ensures r == (s@.len() == 0) {
    let n = byte_len(s);
    proof { if s@.len() > 0 { some_bytes(s@); } else { assert(s@ =~= Seq::<char>::empty()); } }
    n == 0
}
proof fn some_bytes(r: Seq<char>)
    requires r.len() > 0,
    ensures encode_utf8(r).len() > 0,
{
    if encode_utf8(r).len() == 0 {
        let e = Seq::<char>::empty();
        assert(encode_utf8(e) =~= Seq::<u8>::empty());
        assert(encode_utf8(r) =~= Seq::<u8>::empty());
        encode_utf8_decode_utf8(r);
        encode_utf8_decode_utf8(e);
    }
}
#[verifier::external_body] fn text_len(s: &String) -> (r: usize) ensures r == encode_utf8(s@).len() { s.len() }
/// `s.truncate(n)`
#[verifier::external_body]
fn cut(s: &mut String, n: usize)
    requires exists|p: Seq<char>| is_prefix_bytes(old(s)@, n as int, p),
    ensures forall|p: Seq<char>| #[trigger] is_prefix_bytes(old(s)@, n as int, p) ==> final(s)@ == p { unimplemented!() }
fn post_dec(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a - b } else { 0 }) { if a >= b { a - b } else { 0 } }
proof fn scope_bytes(o: Seq<char>, n: Seq<char>)
    ensures
        o.len() == 0 ==> encode_utf8(joined_name(o, n)).len() == encode_utf8(n).len(),
        o.len() > 0 ==> encode_utf8(joined_name(o, n)).len() == encode_utf8(o).len() + 1 + encode_utf8(n).len(),
{
    if o.len() > 0 {
        encode_utf8_concat(o + seq!['.'], n);
        encode_utf8_concat(o, seq!['.']);
        reveal_with_fuel(encode_utf8, 3);
        assert(encode_utf8(seq!['.']).len() == 1);
    }
}
//@@ fn prost-reflect/src/descriptor/build/visit.rs post_inc
//@@ ret r
//@@ spec
    requires *old($p0) < u32::MAX,
    ensures r == *old($p0), *final($p0) == *old($p0) + 1,
//@@ end
//@@ item prost-reflect/src/descriptor/build/visit.rs struct Context
impl Context {
//@@ fn prost-reflect/src/descriptor/build/visit.rs Context::push_path
//@@ spec
    ensures final(self).path@ == old(self).path@.push($p1), final(self).scope == old(self).scope, final(self).offsets == old(self).offsets,
//@@ end
//@@ fn prost-reflect/src/descriptor/build/visit.rs Context::pop_path
//@@ subst? self . path . pop ( ) . unwrap ( ) ==>> self.path.pop()
//@@ spec
    requires old(self).path@.len() > 0,
    ensures final(self).path@ == old(self).path@.drop_last(), final(self).scope == old(self).scope, final(self).offsets == old(self).offsets,
//@@ end
//@@ fn prost-reflect/src/descriptor/build/visit.rs Context::push_scope
//@@ subst? self . scope . is_empty ( ) ==>> no_chars(&self.scope)
//@@ subst? self . scope . push ( $c ) ==>> add_char(&mut self.scope, $c)
//@@ subst? self . scope . push_str ( $c ) ==>> add_text(&mut self.scope, $c)
//@@ spec
    ensures final(self).scope@ =~= joined_name(old(self).scope@, $p1@), final(self).path == old(self).path, final(self).offsets == old(self).offsets,
//@@ end
//@@ fn prost-reflect/src/descriptor/build/visit.rs Context::pop_scope
//@@ subst? debug_assert ! $a:tt ; ==>> 
//@@ subst? self . scope . truncate ( ( $e ) . saturating_sub ( $n ) ) ==>> { let n_ = post_dec($e, $n); cut(&mut self.scope, n_) }
//@@ subst? self . scope . len ( ) ==>> text_len(&self.scope)
//@@ subst? scope . len ( ) ==>> byte_len(scope)
//@@ spec
    requires exists|o: Seq<char>| old(self).scope@ == #[trigger] joined_name(o, $p1@),
    ensures
        forall|o: Seq<char>| old(self).scope@ == #[trigger] joined_name(o, $p1@) ==> final(self).scope@ == o,
        final(self).path == old(self).path, final(self).offsets == old(self).offsets,
//@@ start
    let ghost whole = self.scope@;
    proof {
        assert forall|o: Seq<char>| whole == #[trigger] joined_name(o, $p1@) implies is_prefix_bytes(whole, if encode_utf8(whole).len() > encode_utf8($p1@).len() { encode_utf8(whole).len() - encode_utf8($p1@).len() - 1 } else { 0 }, o) && encode_utf8(whole).len() >= encode_utf8($p1@).len() by {
            scope_bytes(o, $p1@);
            if o.len() == 0 { assert(o =~= Seq::<char>::empty()); assert(encode_utf8(o) =~= Seq::<u8>::empty()); }
            assert(o.is_prefix_of(whole));
        }
    }
//@@ end
//@@ fn prost-reflect/src/descriptor/build/visit.rs Context::visit_field
//@@ sig fn visit_field<V: Visitor>(&mut self, field: &FieldDescriptorProto, visitor: &mut V, file: FileIndex, message: MessageIndex, index: FieldIndex)
//@@ spec
    ensures
        final(self).path@ == old(self).path@, final(self).scope@ == old(self).scope@, final(self).offsets == old(self).offsets,
        final(visitor).trace() == old(visitor).trace().push(Event::Field { path: old(self).path@, name: joined_name(old(self).scope@, text_or_empty(field.name)), file, message, index, field: *field }),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/visit.rs Context::visit_oneof
//@@ sig fn visit_oneof<V: Visitor>(&mut self, oneof: &OneofDescriptorProto, visitor: &mut V, file: FileIndex, message: MessageIndex, index: OneofIndex)
//@@ spec
    ensures
        final(self).path@ == old(self).path@, final(self).scope@ == old(self).scope@, final(self).offsets == old(self).offsets,
        final(visitor).trace() == old(visitor).trace().push(Event::Oneof { path: old(self).path@, name: joined_name(old(self).scope@, text_or_empty(oneof.name)), file, message, index, oneof: *oneof }),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/visit.rs Context::visit_method
//@@ sig fn visit_method<V: Visitor>(&mut self, method: &MethodDescriptorProto, visitor: &mut V, file: FileIndex, service: ServiceIndex, index: MethodIndex)
//@@ spec
    ensures
        final(self).path@ == old(self).path@, final(self).scope@ == old(self).scope@, final(self).offsets == old(self).offsets,
        final(visitor).trace() == old(visitor).trace().push(Event::Method { path: old(self).path@, name: joined_name(old(self).scope@, text_or_empty(method.name)), file, service, index, method: *method }),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/visit.rs Context::visit_enum_value
//@@ sig fn visit_enum_value<V: Visitor>(&mut self, value: &EnumValueDescriptorProto, visitor: &mut V, file: FileIndex, enum_: EnumIndex, index: EnumValueIndex)
//@@ spec
    ensures
        final(self).path@ == old(self).path@, final(self).scope@ == old(self).scope@, final(self).offsets == old(self).offsets,
        final(visitor).trace() == old(visitor).trace().push(Event::EnumValue { path: old(self).path@, name: joined_name(old(self).scope@, text_or_empty(value.name)), file, enum_, index, value: *value }),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/visit.rs Context::visit_extension
//@@ sig fn visit_extension<V: Visitor>(&mut self, extension: &FieldDescriptorProto, visitor: &mut V, file: FileIndex, parent_message: Option<MessageIndex>)
//@@ spec
    requires old(self).offsets.extension < u32::MAX,
    ensures
        final(self).path@ == old(self).path@, final(self).scope@ == old(self).scope@, off_of(final(self).offsets) == (Off { extension: off_of(old(self).offsets).extension + 1, ..off_of(old(self).offsets) }),
        final(visitor).trace() == old(visitor).trace().push(Event::Extension { path: old(self).path@, name: joined_name(old(self).scope@, text_or_empty(extension.name)), file, parent: parent_message, index: old(self).offsets.extension, extension: *extension }),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/visit.rs Context::visit_enum
//@@ sig fn visit_enum<V: Visitor>(&mut self, enum_: &EnumDescriptorProto, visitor: &mut V, file: FileIndex, parent_message: Option<MessageIndex>)
//@@ subst? for ( $i:id , $d:id ) in $e:e . iter ( ) . enumerate ( ) $b:b ==>> { let mut k_: usize = 0; while k_ < $e.len() { let $i = k_; let $d = &$e[k_]; k_ += 1; $b } }
//@@ loop 0
    invariant
        0 <= k_ <= enum_.value@.len(), self.path@ == p0.push(2), self.scope@ == s0, off_of(self.offsets) == o1,
        visitor.trace() == t1 + value_events(enum_.value@, k_ as int, p0.push(2), s0, file, index), small(enum_.value@.len()),
    decreases enum_.value@.len() - k_,
//@@ after-loop 0
    proof { assert(visitor.trace() =~= t0 + enum_events(*enum_, p0, s0, file, parent_message, index)); }
//@@ spec
    requires old(self).offsets.enum_ < u32::MAX, small(enum_.value@.len()),
    ensures
        final(self).path@ == old(self).path@, final(self).scope@ == old(self).scope@, off_of(final(self).offsets) == (Off { enum_: off_of(old(self).offsets).enum_ + 1, ..off_of(old(self).offsets) }),
        final(visitor).trace() == old(visitor).trace() + enum_events(*enum_, old(self).path@, old(self).scope@, file, parent_message, old(self).offsets.enum_),
//@@ start
    let ghost p0 = self.path@; let ghost s0 = self.scope@; let ghost t0 = visitor.trace(); let ghost o0 = off_of(self.offsets);
    let ghost o1 = Off { enum_: o0.enum_ + 1, ..o0 };
    let ghost t1 = t0.push(Event::Enum { path: p0, name: joined_name(s0, text_or_empty(enum_.name)), file, parent: parent_message, index: self.offsets.enum_, enum_: *enum_ });
//@@ end
//@@ fn prost-reflect/src/descriptor/build/visit.rs Context::visit_service
//@@ sig fn visit_service<V: Visitor>(&mut self, service: &ServiceDescriptorProto, visitor: &mut V, file: FileIndex)
//@@ subst? for ( $i:id , $d:id ) in $e:e . iter ( ) . enumerate ( ) $b:b ==>> { let mut k_: usize = 0; while k_ < $e.len() { let $i = k_; let $d = &$e[k_]; k_ += 1; $b } }
//@@ loop 0
    invariant
        0 <= k_ <= service.method@.len(), self.path@ == p0.push(2), self.scope@ == sc0, off_of(self.offsets) == o1,
        visitor.trace() == t1 + method_events(service.method@, k_ as int, p0.push(2), sc0, file, index), small(service.method@.len()),
    decreases service.method@.len() - k_,
//@@ after-loop 0
    proof { assert(visitor.trace() =~= t0 + service_events(*service, p0, s0, file, index)); }
//@@ spec
    requires old(self).offsets.service < u32::MAX, small(service.method@.len()),
    ensures
        final(self).path@ == old(self).path@, final(self).scope@ == old(self).scope@, off_of(final(self).offsets) == (Off { service: off_of(old(self).offsets).service + 1, ..off_of(old(self).offsets) }),
        final(visitor).trace() == old(visitor).trace() + service_events(*service, old(self).path@, old(self).scope@, file, old(self).offsets.service),
//@@ start
    let ghost p0 = self.path@; let ghost s0 = self.scope@; let ghost t0 = visitor.trace(); let ghost o0 = off_of(self.offsets);
    let ghost o1 = Off { service: o0.service + 1, ..o0 };
    let ghost sc0 = joined_name(s0, text_or_empty(service.name));
    let ghost t1 = t0.push(Event::Service { path: p0, name: sc0, file, index: self.offsets.service, service: *service });
//@@ end
//@@ fn prost-reflect/src/descriptor/build/visit.rs Context::visit_message
//@@ sig fn visit_message<V: Visitor>(&mut self, message: &DescriptorProto, visitor: &mut V, file: FileIndex, parent_message: Option<MessageIndex>)
//@@ subst? for ( $i:id , $d:id ) in $e:e . iter ( ) . enumerate ( ) $b:b ==>> { let mut k_: usize = 0; while k_ < $e.len() { let $i = k_; let $d = &$e[k_]; k_ += 1; $b } }
//@@ loop 0
    invariant
        0 <= k_ <= message.oneof_decl@.len(), self.path@ == p0.push(8), self.scope@ == sc0, off_of(self.offsets) == o1,
        visitor.trace() == t1 + oneof_events(message.oneof_decl@, k_ as int, p0.push(8), sc0, file, index), fits(o4), fits(o1), o2 == after_messages(message.nested_type, message.nested_type@.len() as int, o1), o3 == (Off { enum_: o2.enum_ + message.enum_type@.len(), ..o2 }), o4 == (Off { extension: o3.extension + message.extension@.len(), ..o3 }), sized_message(*message), within(o1, o2),
    decreases message.oneof_decl@.len() - k_,
//@@ loop 1
    invariant
        0 <= k_ <= message.field@.len(), self.path@ == p0.push(2), self.scope@ == sc0, off_of(self.offsets) == o1,
        visitor.trace() == t2 + field_events(message.field@, k_ as int, p0.push(2), sc0, file, index), fits(o4), fits(o1), o2 == after_messages(message.nested_type, message.nested_type@.len() as int, o1), o3 == (Off { enum_: o2.enum_ + message.enum_type@.len(), ..o2 }), o4 == (Off { extension: o3.extension + message.extension@.len(), ..o3 }), sized_message(*message), within(o1, o2),
    decreases message.field@.len() - k_,
//@@ loop 2
    invariant
        0 <= k_ <= message.nested_type@.len(), self.path@ == p0.push(3), self.scope@ == sc0, off_of(self.offsets) == after_messages(message.nested_type, k_ as int, o1),
        visitor.trace() == t3 + messages_events(message.nested_type, k_ as int, p0.push(3), sc0, file, Some(index), o1), fits(o4), fits(o1), o2 == after_messages(message.nested_type, message.nested_type@.len() as int, o1), o3 == (Off { enum_: o2.enum_ + message.enum_type@.len(), ..o2 }), o4 == (Off { extension: o3.extension + message.extension@.len(), ..o3 }), sized_message(*message), within(o1, o2),
    decreases message.nested_type@.len() - k_,
//@@ in-loop 2
    proof { messages_grow(message.nested_type, k_ + 1, message.nested_type@.len() as int, o1); messages_grow(message.nested_type, 0, k_ + 1, o1); assert(after_messages(message.nested_type, k_ + 1, o1) == after_message(message.nested_type[k_ as int], after_messages(message.nested_type, k_ as int, o1))); all_sized(message.nested_type, message.nested_type@.len() as int, k_ as int); assert(decreases_to!(message.nested_type => message.nested_type[k_ as int])); }
//@@ loop 3
    invariant
        0 <= k_ <= message.enum_type@.len(), self.path@ == p0.push(4), self.scope@ == sc0, off_of(self.offsets) == (Off { enum_: o2.enum_ + k_, ..o2 }),
        visitor.trace() == t4 + enums_events(message.enum_type@, k_ as int, p0.push(4), sc0, file, Some(index), o2), fits(o4), fits(o1), o2 == after_messages(message.nested_type, message.nested_type@.len() as int, o1), o3 == (Off { enum_: o2.enum_ + message.enum_type@.len(), ..o2 }), o4 == (Off { extension: o3.extension + message.extension@.len(), ..o3 }), sized_message(*message), within(o1, o2),
    decreases message.enum_type@.len() - k_,
//@@ loop 4
    invariant
        0 <= k_ <= message.extension@.len(), self.path@ == p0.push(6), self.scope@ == sc0, off_of(self.offsets) == (Off { extension: o3.extension + k_, ..o3 }),
        visitor.trace() == t5 + extension_events(message.extension@, k_ as int, p0.push(6), sc0, file, Some(index), o2), fits(o4), fits(o1), o2 == after_messages(message.nested_type, message.nested_type@.len() as int, o1), o3 == (Off { enum_: o2.enum_ + message.enum_type@.len(), ..o2 }), o4 == (Off { extension: o3.extension + message.extension@.len(), ..o3 }), sized_message(*message), within(o1, o2),
    decreases message.extension@.len() - k_,
//@@ after-loop 4
    proof { assert(visitor.trace() =~= t0 + message_events(*message, p0, s0, file, parent_message, o0)); }
//@@ spec
    requires fits(after_message(*message, off_of(old(self).offsets))), sized_message(*message),
    ensures
        final(self).path@ == old(self).path@, final(self).scope@ == old(self).scope@, off_of(final(self).offsets) == after_message(*message, off_of(old(self).offsets)),
        final(visitor).trace() == old(visitor).trace() + message_events(*message, old(self).path@, old(self).scope@, file, parent_message, off_of(old(self).offsets)),
    decreases message,
//@@ start
    let ghost p0 = self.path@; let ghost s0 = self.scope@; let ghost t0 = visitor.trace(); let ghost o0 = off_of(self.offsets);
    let ghost sc0 = joined_name(s0, text_or_empty(message.name));
    let ghost o1 = Off { message: o0.message + 1, ..o0 };
    let ghost o2 = after_messages(message.nested_type, message.nested_type@.len() as int, o1);
    let ghost o3 = Off { enum_: o2.enum_ + message.enum_type@.len(), ..o2 };
    let ghost o4 = Off { extension: o3.extension + message.extension@.len(), ..o3 };
    proof { messages_grow(message.nested_type, 0, message.nested_type@.len() as int, o1); }
    let ghost i0 = self.offsets.message;
    let ghost t1 = t0.push(Event::Message { path: p0, name: sc0, file, parent: parent_message, index: i0, message: *message });
    let ghost t2 = t1 + oneof_events(message.oneof_decl@, message.oneof_decl@.len() as int, p0.push(8), sc0, file, i0);
    let ghost t3 = t2 + field_events(message.field@, message.field@.len() as int, p0.push(2), sc0, file, i0);
    let ghost t4 = t3 + messages_events(message.nested_type, message.nested_type@.len() as int, p0.push(3), sc0, file, Some(i0), o1);
    let ghost t5 = t4 + enums_events(message.enum_type@, message.enum_type@.len() as int, p0.push(4), sc0, file, Some(i0), o2);
//@@ end
//@@ fn prost-reflect/src/descriptor/build/visit.rs Context::visit_file
//@@ sig fn visit_file<V: Visitor>(&mut self, file: &FileDescriptorProto, visitor: &mut V)
//@@ subst? for ( $i:id , $d:id ) in $e:e . iter ( ) . enumerate ( ) $b:b ==>> { let mut k_: usize = 0; while k_ < $e.len() { let $i = k_; let $d = &$e[k_]; k_ += 1; $b } }
//@@ subst? $x:e . is_empty ( ) ==>> no_text($x)
//@@ loop 0
    invariant
        0 <= k_ <= file.message_type@.len(), self.path@ == p0.push(4), self.scope@ == sc0, off_of(self.offsets) == after_messages(file.message_type, k_ as int, o1),
        visitor.trace() == t1 + messages_events(file.message_type, k_ as int, p0.push(4), sc0, index, None, o1), fits(o5), fits(o1), o2 == after_messages(file.message_type, file.message_type@.len() as int, o1), o3 == (Off { enum_: o2.enum_ + file.enum_type@.len(), ..o2 }), o4 == (Off { service: o3.service + file.service@.len(), ..o3 }), o5 == (Off { extension: o4.extension + file.extension@.len(), ..o4 }), sized_file(*file), within(o1, o2),
    decreases file.message_type@.len() - k_,
//@@ in-loop 0
    proof { messages_grow(file.message_type, k_ + 1, file.message_type@.len() as int, o1); messages_grow(file.message_type, 0, k_ + 1, o1); assert(after_messages(file.message_type, k_ + 1, o1) == after_message(file.message_type[k_ as int], after_messages(file.message_type, k_ as int, o1))); all_sized(file.message_type, file.message_type@.len() as int, k_ as int); }
//@@ loop 1
    invariant
        0 <= k_ <= file.enum_type@.len(), self.path@ == p0.push(5), self.scope@ == sc0, off_of(self.offsets) == (Off { enum_: o2.enum_ + k_, ..o2 }),
        visitor.trace() == t2 + enums_events(file.enum_type@, k_ as int, p0.push(5), sc0, index, None, o2), fits(o5), fits(o1), o2 == after_messages(file.message_type, file.message_type@.len() as int, o1), o3 == (Off { enum_: o2.enum_ + file.enum_type@.len(), ..o2 }), o4 == (Off { service: o3.service + file.service@.len(), ..o3 }), o5 == (Off { extension: o4.extension + file.extension@.len(), ..o4 }), sized_file(*file), within(o1, o2),
    decreases file.enum_type@.len() - k_,
//@@ loop 2
    invariant
        0 <= k_ <= file.service@.len(), self.path@ == p0.push(6), self.scope@ == sc0, off_of(self.offsets) == (Off { service: o3.service + k_, ..o3 }),
        visitor.trace() == t3 + services_events(file.service@, k_ as int, p0.push(6), sc0, index, o2), fits(o5), fits(o1), o2 == after_messages(file.message_type, file.message_type@.len() as int, o1), o3 == (Off { enum_: o2.enum_ + file.enum_type@.len(), ..o2 }), o4 == (Off { service: o3.service + file.service@.len(), ..o3 }), o5 == (Off { extension: o4.extension + file.extension@.len(), ..o4 }), sized_file(*file), within(o1, o2),
    decreases file.service@.len() - k_,
//@@ loop 3
    invariant
        0 <= k_ <= file.extension@.len(), self.path@ == p0.push(7), self.scope@ == sc0, off_of(self.offsets) == (Off { extension: o4.extension + k_, ..o4 }),
        visitor.trace() == t4 + extension_events(file.extension@, k_ as int, p0.push(7), sc0, index, None, o2), fits(o5), fits(o1), o2 == after_messages(file.message_type, file.message_type@.len() as int, o1), o3 == (Off { enum_: o2.enum_ + file.enum_type@.len(), ..o2 }), o4 == (Off { service: o3.service + file.service@.len(), ..o3 }), o5 == (Off { extension: o4.extension + file.extension@.len(), ..o4 }), sized_file(*file), within(o1, o2),
    decreases file.extension@.len() - k_,
//@@ after-loop 3
    proof { assert(visitor.trace() =~= t0 + file_events(*file, o0)); }
//@@ spec
    requires fits(after_file(*file, off_of(old(self).offsets))), sized_file(*file), old(self).path@.len() == 0, old(self).scope@.len() == 0,
    ensures
        final(self).path@.len() == 0, final(self).scope@.len() == 0, off_of(final(self).offsets) == after_file(*file, off_of(old(self).offsets)),
        final(visitor).trace() == old(visitor).trace() + file_events(*file, off_of(old(self).offsets)),
//@@ start
    let ghost p0 = Seq::<i32>::empty(); let ghost t0 = visitor.trace(); let ghost o0 = off_of(self.offsets);
    let ghost sc0 = text_or_empty(file.package);
    let ghost o1 = Off { file: o0.file + 1, ..o0 };
    let ghost o2 = after_messages(file.message_type, file.message_type@.len() as int, o1);
    let ghost o3 = Off { enum_: o2.enum_ + file.enum_type@.len(), ..o2 };
    let ghost o4 = Off { service: o3.service + file.service@.len(), ..o3 };
    let ghost o5 = Off { extension: o4.extension + file.extension@.len(), ..o4 };
    proof {
        messages_grow(file.message_type, 0, file.message_type@.len() as int, o1);
        assert(self.path@ =~= p0); assert(self.scope@ =~= Seq::<char>::empty());
    }
    let ghost i0 = self.offsets.file;
    let ghost t1 = t0.push(Event::File { path: p0, index: i0, file: *file });
    let ghost t2 = t1 + messages_events(file.message_type, file.message_type@.len() as int, p0.push(4), sc0, i0, None, o1);
    let ghost t3 = t2 + enums_events(file.enum_type@, file.enum_type@.len() as int, p0.push(5), sc0, i0, None, o2);
    let ghost t4 = t3 + services_events(file.service@, file.service@.len() as int, p0.push(6), sc0, i0, o2);
//@@ end
}
//@@ fn prost-reflect/src/descriptor/build/visit.rs visit
//@@ sig fn visit<V: Visitor>(offsets: DescriptorPoolOffsets, files: &[FileDescriptorProto], visitor: &mut V)
//@@ subst? for $d:id in files $b:b ==>> { let mut k_: usize = 0; while k_ < files.len() { let $d = &files[k_]; k_ += 1; $b } }
//@@ loop 0
    invariant
        0 <= k_ <= files@.len(), context.path@.len() == 0, context.scope@.len() == 0, off_of(context.offsets) == after_files(files@, k_ as int, o0),
        visitor.trace() == t0 + files_events(files@, k_ as int, o0), fits(after_files(files@, files@.len() as int, o0)),
        forall|i: int| 0 <= i < files@.len() ==> sized_file(#[trigger] files@[i]),
    decreases files@.len() - k_,
//@@ in-loop 0
    proof { files_grow(files@, k_ + 1, files@.len() as int, o0); file_grows(files@[k_ as int], after_files(files@, k_ as int, o0)); }
//@@ end-loop 0
    proof { assert(visitor.trace() =~= t0 + files_events(files@, k_ as int, o0)); }
//@@ spec
    requires
        fits(after_files($p1@, $p1@.len() as int, off_of($p0))), forall|i: int| 0 <= i < $p1@.len() ==> sized_file(#[trigger] $p1@[i]), fits(off_of($p0)),
    ensures
        // P09, P11: everything declared is visited, once, with its name, its path and the next index
        final(visitor).trace() == old(visitor).trace() + files_events($p1@, $p1@.len() as int, off_of($p0)),
//@@ start
    let ghost o0 = off_of(offsets); let ghost t0 = visitor.trace();
    proof { assert(t0 + files_events(files@, 0, o0) =~= t0); }
//@@ end
}
fn main() {}
