// ---- options: the declared bytes, read as the message which the pool, or the global pool, calls google.protobuf.*Options
/// assumed: decoding (P02, P03); the bytes of accepted options decode (see DESIGN.md)
pub uninterp spec fn decoded(d: MessageDescriptor, b: Seq<u8>) -> DynamicMessage;
#[verifier::external_body]
fn decode_message(d: MessageDescriptor, b: &[u8]) -> (r: DynamicMessage) ensures r == decoded(d, b@) { unimplemented!() }
/// the global pool holds the well-known types (updates.rs)
pub uninterp spec fn global_message(name: Seq<char>) -> MessageDescriptor;
#[verifier::external_body]
fn from_global(name: &str) -> (r: MessageDescriptor) ensures r == global_message(name@) { unimplemented!() }
#[verifier::external_body]
fn no_bytes<'a>() -> (r: &'a [u8]) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
pub open spec fn named(p: DescriptorPool, name: Seq<char>) -> Option<MessageDescriptor> {
    match opt_get(p.inner.names@, undotted(name)) { Some(d) => if d.kind is Message { Some(MessageDescriptor { pool: p, index: d.kind->Message_0 }) } else { None }, None => None }
}
pub open spec fn options_type(p: DescriptorPool, name: Seq<char>) -> MessageDescriptor { match named(p, name) { Some(d) => d, None => global_message(name) } }
pub open spec fn kept_bytes<T>(o: Option<Options<T>>) -> Seq<u8> { match o { Some(o) => o.encoded@, None => Seq::<u8>::empty() } }
pub open spec fn options_shown<T>(p: DescriptorPool, name: Seq<char>, o: Option<Options<T>>) -> DynamicMessage { decoded(options_type(p, name), kept_bytes(o)) }
#[verifier::external_body]
fn slice_of(p: &[i32], n: usize) -> (r: &[i32]) requires n <= p@.len() ensures r@ == p@.take(n as int) { unimplemented!() }
//@@ fn prost-reflect/src/descriptor/api.rs decode_options
//@@ ret r
//@@ subst? $p:e . get_message_by_name ( $n ) . unwrap_or_else ( || $b:e ) ==>> (match $p.get_message_by_name($n) { Some(d_) => d_, None => $b })
//@@ subst? DescriptorPool :: global ( ) . get_message_by_name ( $n ) . unwrap ( ) ==>> from_global($n)
//@@ subst? $o:e . as_ref ( ) . map ( | $x:id | $y ) . unwrap_or_default ( ) ==>> (match &$o { Some($x) => $y, None => no_bytes() })
//@@ subst? DynamicMessage :: decode ( $x ) . unwrap ( ) ==>> decode_message($x)
//@@ spec
    ensures r == options_shown(*$p0, $p1@, *$p2),
//@@ end
impl FileDescriptor {
//@@ fn prost-reflect/src/descriptor/api.rs FileDescriptor::options
//@@ ret r
//@@ spec
    requires self.there(),
    ensures r == options_shown(self.pool, "google.protobuf.FileOptions"@, self.table().raw.options),
//@@ end
}
impl MessageDescriptor {
//@@ fn prost-reflect/src/descriptor/api.rs MessageDescriptor::options
//@@ ret r
//@@ spec
    requires self.placed(),
    ensures r == options_shown(self.pool, "google.protobuf.MessageOptions"@, declaration(*self.pool.inner, self.index).options),
//@@ end
}
impl FieldDescriptor {
    pub open spec fn declared(&self) -> FieldDescriptorProto { declaration(*self.message.pool.inner, self.message.index).field@[self.index as int] }
    pub open spec fn placed(&self) -> bool { self.message.placed() && self.index < declaration(*self.message.pool.inner, self.message.index).field@.len() }
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::raw
//@@ sig fn raw(&self) -> (r: &FieldDescriptorProto)
//@@ subst? debug_assert $a:tt ; ==>> 
//@@ subst? debug_assert_ne ! $a:tt ; ==>> 
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? debug_assert ! $a:tt ; ==>> 
//@@ subst? & $p:id [ .. $e ] ==>> slice_of($p, $e)
//@@ spec
    requires self.placed(),
    ensures *r == self.declared(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs FieldDescriptor::options
//@@ ret r
//@@ spec
    requires self.placed(),
    ensures r == options_shown(self.message.pool, "google.protobuf.FieldOptions"@, self.declared().options),
//@@ end
}
impl OneofDescriptor {
    pub open spec fn declared(&self) -> OneofDescriptorProto { declaration(*self.message.pool.inner, self.message.index).oneof_decl@[self.index as int] }
    pub open spec fn placed(&self) -> bool { self.message.placed() && self.index < declaration(*self.message.pool.inner, self.message.index).oneof_decl@.len() }
//@@ fn prost-reflect/src/descriptor/api.rs OneofDescriptor::parent_pool
//@@ sig fn parent_pool(&self) -> (r: &DescriptorPool)
//@@ subst? debug_assert $a:tt ; ==>> 
//@@ subst? debug_assert_ne ! $a:tt ; ==>> 
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? debug_assert ! $a:tt ; ==>> 
//@@ subst? & $p:id [ .. $e ] ==>> slice_of($p, $e)
//@@ spec
    ensures *r == self.message.pool,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs OneofDescriptor::raw
//@@ sig fn raw(&self) -> (r: &OneofDescriptorProto)
//@@ subst? debug_assert $a:tt ; ==>> 
//@@ subst? debug_assert_ne ! $a:tt ; ==>> 
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? debug_assert ! $a:tt ; ==>> 
//@@ subst? & $p:id [ .. $e ] ==>> slice_of($p, $e)
//@@ spec
    requires self.placed(),
    ensures *r == self.declared(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs OneofDescriptor::options
//@@ ret r
//@@ spec
    requires self.placed(),
    ensures r == options_shown(self.message.pool, "google.protobuf.OneofOptions"@, self.declared().options),
//@@ end
}
/// The extension a path leads to: in the file, or in a message.
pub open spec fn extension_at(f: FileDescriptorProto, p: Seq<i32>) -> Option<FieldDescriptorProto> {
    if p.len() < 2 || p.len() % 2 != 0 { None }
    else if p.len() == 2 { if p[0] == 7 && 0 <= p[1] < f.extension@.len() { Some(f.extension@[p[1] as int]) } else { None } }
    else {
        match message_at(f, p.take(p.len() - 2)) { Some(m) => if p[p.len() - 2] == 6 && 0 <= p.last() < m.extension@.len() { Some(m.extension@[p.last() as int]) } else { None }, None => None }
    }
}
impl ExtensionDescriptor {
    pub open spec fn file_of(&self) -> FileDescriptorProto { self.pool.inner.files@[self.table().id.file as int].raw }
    pub open spec fn placed(&self) -> bool { self.there() && self.table().id.file < self.pool.inner.files@.len() && extension_at(self.file_of(), self.table().id.path@) is Some }
    pub open spec fn declared(&self) -> FieldDescriptorProto { extension_at(self.file_of(), self.table().id.path@)->0 }
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::raw_file
//@@ sig fn raw_file(&self) -> (r: &FileDescriptorProto)
//@@ subst? debug_assert $a:tt ; ==>> 
//@@ subst? debug_assert_ne ! $a:tt ; ==>> 
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? debug_assert ! $a:tt ; ==>> 
//@@ subst? & $p:id [ .. $e ] ==>> slice_of($p, $e)
//@@ spec
    requires self.placed(),
    ensures *r == self.file_of(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::raw
//@@ sig fn raw(&self) -> (r: &FieldDescriptorProto)
//@@ subst? debug_assert $a:tt ; ==>> 
//@@ subst? debug_assert_ne ! $a:tt ; ==>> 
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? debug_assert ! $a:tt ; ==>> 
//@@ subst? & $p:id [ .. $e ] ==>> slice_of($p, $e)
//@@ spec
    requires self.placed(),
    ensures *r == self.declared(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ExtensionDescriptor::options
//@@ ret r
//@@ spec
    requires self.placed(),
    ensures r == options_shown(self.pool, "google.protobuf.FieldOptions"@, self.declared().options),
//@@ end
}
impl EnumDescriptor {
    pub open spec fn placed(&self) -> bool { self.there() && self.table().id.file < self.pool.inner.files@.len() && enum_at(self.pool.inner.files@[self.table().id.file as int].raw, self.table().id.path@) is Some }
    pub open spec fn declared(&self) -> EnumDescriptorProto { enum_declaration(*self.pool.inner, self.index) }
//@@ fn prost-reflect/src/descriptor/api.rs EnumDescriptor::raw_file
//@@ sig fn raw_file(&self) -> (r: &FileDescriptorProto)
//@@ subst? debug_assert $a:tt ; ==>> 
//@@ subst? debug_assert_ne ! $a:tt ; ==>> 
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? debug_assert ! $a:tt ; ==>> 
//@@ subst? & $p:id [ .. $e ] ==>> slice_of($p, $e)
//@@ spec
    requires self.placed(),
    ensures *r == self.pool.inner.files@[self.table().id.file as int].raw,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumDescriptor::raw
//@@ sig fn raw(&self) -> (r: &EnumDescriptorProto)
//@@ subst? debug_assert $a:tt ; ==>> 
//@@ subst? debug_assert_ne ! $a:tt ; ==>> 
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? debug_assert ! $a:tt ; ==>> 
//@@ subst? & $p:id [ .. $e ] ==>> slice_of($p, $e)
//@@ spec
    requires self.placed(),
    ensures *r == self.declared(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumDescriptor::options
//@@ ret r
//@@ spec
    requires self.placed(),
    ensures r == options_shown(self.pool, "google.protobuf.EnumOptions"@, self.declared().options),
//@@ end
}
impl EnumValueDescriptor {
    pub open spec fn placed(&self) -> bool { self.parent.placed() && self.index < self.parent.declared().value@.len() }
    pub open spec fn declared(&self) -> EnumValueDescriptorProto { self.parent.declared().value@[self.index as int] }
//@@ fn prost-reflect/src/descriptor/api.rs EnumValueDescriptor::parent_pool
//@@ sig fn parent_pool(&self) -> (r: &DescriptorPool)
//@@ subst? debug_assert $a:tt ; ==>> 
//@@ subst? debug_assert_ne ! $a:tt ; ==>> 
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? debug_assert ! $a:tt ; ==>> 
//@@ subst? & $p:id [ .. $e ] ==>> slice_of($p, $e)
//@@ spec
    ensures *r == self.parent.pool,
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumValueDescriptor::raw
//@@ sig fn raw(&self) -> (r: &EnumValueDescriptorProto)
//@@ subst? debug_assert $a:tt ; ==>> 
//@@ subst? debug_assert_ne ! $a:tt ; ==>> 
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? debug_assert ! $a:tt ; ==>> 
//@@ subst? & $p:id [ .. $e ] ==>> slice_of($p, $e)
//@@ spec
    requires self.placed(),
    ensures *r == self.declared(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs EnumValueDescriptor::options
//@@ ret r
//@@ spec
    requires self.placed(),
    ensures r == options_shown(self.parent.pool, "google.protobuf.EnumValueOptions"@, self.declared().options),
//@@ end
}
impl ServiceDescriptor {
    pub open spec fn file_of(&self) -> FileDescriptorProto { self.pool.inner.files@[self.table().id.file as int].raw }
    /// the path of a service is [6, its index]
    pub open spec fn placed(&self) -> bool { self.there() && self.table().id.file < self.pool.inner.files@.len() && self.table().id.path@.len() == 2 && 0 <= self.table().id.path@[1] < self.file_of().service@.len() }
    pub open spec fn declared(&self) -> ServiceDescriptorProto { self.file_of().service@[self.table().id.path@[1] as int] }
//@@ fn prost-reflect/src/descriptor/api.rs ServiceDescriptor::raw_file
//@@ sig fn raw_file(&self) -> (r: &FileDescriptorProto)
//@@ subst? debug_assert $a:tt ; ==>> 
//@@ subst? debug_assert_ne ! $a:tt ; ==>> 
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? debug_assert ! $a:tt ; ==>> 
//@@ subst? & $p:id [ .. $e ] ==>> slice_of($p, $e)
//@@ spec
    requires self.placed(),
    ensures *r == self.file_of(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ServiceDescriptor::raw
//@@ sig fn raw(&self) -> (r: &ServiceDescriptorProto)
//@@ subst? debug_assert $a:tt ; ==>> 
//@@ subst? debug_assert_ne ! $a:tt ; ==>> 
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? debug_assert ! $a:tt ; ==>> 
//@@ subst? & $p:id [ .. $e ] ==>> slice_of($p, $e)
//@@ subst? * $p:id . last ( ) . unwrap ( ) ==>> $p[$p.len() - 1]
//@@ spec
    requires self.placed(),
    ensures *r == self.declared(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs ServiceDescriptor::options
//@@ ret r
//@@ spec
    requires self.placed(),
    ensures r == options_shown(self.pool, "google.protobuf.ServiceOptions"@, self.declared().options),
//@@ end
}
impl MethodDescriptor {
    pub open spec fn placed(&self) -> bool { self.service.placed() && self.index < self.service.declared().method@.len() }
    pub open spec fn declared(&self) -> MethodDescriptorProto { self.service.declared().method@[self.index as int] }
//@@ fn prost-reflect/src/descriptor/api.rs MethodDescriptor::raw
//@@ sig fn raw(&self) -> (r: &MethodDescriptorProto)
//@@ subst? debug_assert $a:tt ; ==>> 
//@@ subst? debug_assert_ne ! $a:tt ; ==>> 
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? debug_assert ! $a:tt ; ==>> 
//@@ subst? & $p:id [ .. $e ] ==>> slice_of($p, $e)
//@@ spec
    requires self.placed(),
    ensures *r == self.declared(),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs MethodDescriptor::options
//@@ ret r
//@@ spec
    requires self.placed(),
    ensures r == options_shown(self.service.pool, "google.protobuf.MethodOptions"@, self.declared().options),
//@@ end
}
