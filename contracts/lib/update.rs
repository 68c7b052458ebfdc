// ---- updates of a pool: what stays, what is new, what taking an update back restores
#[derive(Clone, Copy)]
//@@ item prost-reflect/src/descriptor/build/mod.rs struct DescriptorPoolOffsets
pub uninterp spec fn prost_package(f: ProstFile) -> Seq<char>;
impl ProstFile { #[verifier::external_body] fn package(&self) -> (r: &str) ensures r@ == prost_package(*self) { unimplemented!() } }
pub open spec fn opens(p: Seq<char>, name: Seq<char>) -> bool { name.is_prefix_of(p) && (p.len() == name.len() || p[name.len() as int] == '.') }
pub open spec fn opened(files: Seq<FileDescriptorInner>, name: Seq<char>) -> bool { exists|i: int| 0 <= i < files.len() && opens(prost_package((#[trigger] files[i]).prost), name) }
/// Declared before the addition began.
pub open spec fn stays(o: DescriptorPoolOffsets, files: Seq<FileDescriptorInner>, name: Seq<char>, k: DefinitionKind) -> bool {
    match k {
        DefinitionKind::Package => opened(files, name),
        DefinitionKind::Message(m) | DefinitionKind::Field(m) | DefinitionKind::Oneof(m) => m < o.message,
        DefinitionKind::Service(s) | DefinitionKind::Method(s) => s < o.service,
        DefinitionKind::Enum(e) | DefinitionKind::EnumValue(e) => e < o.enum_,
        DefinitionKind::Extension(x) => x < o.extension,
    }
}
pub open spec fn sizes(o: DescriptorPoolOffsets, p: DescriptorPoolInner) -> bool {
    o.file == p.files@.len() && o.message == p.messages@.len() && o.enum_ == p.enums@.len() && o.service == p.services@.len() && o.extension == p.extensions@.len()
}
/// A pool between additions: every name belongs to something in it, and the packages declared are those of its files.
pub open spec fn settled(o: DescriptorPoolOffsets, b: DescriptorPoolInner) -> bool {
    &&& sizes(o, b)
    &&& forall|n: Seq<char>| #[trigger] b.names@.contains_key(n) ==> stays(o, b.files@, n, b.names@[n].kind)
    &&& forall|n: Seq<char>| #[trigger] opened(b.files@, n) ==> b.names@.contains_key(n)
    &&& forall|n: Seq<char>| #[trigger] b.file_names@.contains_key(n) ==> b.file_names@[n] < o.file
    &&& forall|m: int, i: int| 0 <= m < b.messages@.len() && 0 <= i < b.messages@[m].extensions@.len() ==> #[trigger] b.messages@[m].extensions@[i] < o.extension
}
pub open spec fn begins<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> b[i] == #[trigger] a[i] }
pub open spec fn old_extensions(o: DescriptorPoolOffsets, v: Seq<u32>) -> Seq<u32> { v.filter(|x: u32| x < o.extension) }
/// An addition in progress: what was there is as it was, but for extensions of its messages; what is new is numbered from the sizes on.
pub open spec fn adding(o: DescriptorPoolOffsets, b: DescriptorPoolInner, p: DescriptorPoolInner) -> bool {
    &&& begins(b.files@, p.files@) && begins(b.enums@, p.enums@) && begins(b.services@, p.services@) && begins(b.extensions@, p.extensions@)
    &&& b.messages@.len() <= p.messages@.len()
    &&& forall|i: int| 0 <= i < b.messages@.len() ==> extended(o, b.messages@[i], #[trigger] p.messages@[i])
    &&& forall|n: Seq<char>| #[trigger] b.names@.contains_key(n) ==> p.names@.contains_key(n) && p.names@[n] == b.names@[n]
    &&& forall|n: Seq<char>| #[trigger] p.names@.contains_key(n) && !b.names@.contains_key(n) ==> fresh(o, p.names@[n].kind)
    &&& forall|n: Seq<char>| #[trigger] b.file_names@.contains_key(n) ==> p.file_names@.contains_key(n) && p.file_names@[n] == b.file_names@[n]
    &&& forall|n: Seq<char>| #[trigger] p.file_names@.contains_key(n) && !b.file_names@.contains_key(n) ==> p.file_names@[n] >= o.file
}
pub open spec fn extended(o: DescriptorPoolOffsets, b: MessageDescriptorInner, p: MessageDescriptorInner) -> bool {
    p == (MessageDescriptorInner { extensions: p.extensions, ..b }) && old_extensions(o, p.extensions@) == b.extensions@
}
pub open spec fn fresh(o: DescriptorPoolOffsets, k: DefinitionKind) -> bool {
    match k {
        DefinitionKind::Package => true,
        DefinitionKind::Message(m) | DefinitionKind::Field(m) | DefinitionKind::Oneof(m) => m >= o.message,
        DefinitionKind::Service(s) | DefinitionKind::Method(s) => s >= o.service,
        DefinitionKind::Enum(e) | DefinitionKind::EnumValue(e) => e >= o.enum_,
        DefinitionKind::Extension(x) => x >= o.extension,
    }
}
/// Every table reads as in b.
pub open spec fn restored(b: DescriptorPoolInner, p: DescriptorPoolInner) -> bool {
    &&& p.files@ == b.files@ && p.enums@ == b.enums@ && p.services@ == b.services@ && p.extensions@ == b.extensions@
    &&& p.messages@.len() == b.messages@.len()
    &&& forall|i: int| 0 <= i < b.messages@.len() ==> same_message(b.messages@[i], #[trigger] p.messages@[i])
    &&& p.names@ == b.names@ && p.file_names@ == b.file_names@
}
pub open spec fn same_message(b: MessageDescriptorInner, p: MessageDescriptorInner) -> bool { p == (MessageDescriptorInner { extensions: p.extensions, ..b }) && p.extensions@ == b.extensions@ }
pub open spec fn small(p: DescriptorPoolInner) -> bool {
    p.files@.len() <= u32::MAX && p.messages@.len() <= u32::MAX && p.enums@.len() <= u32::MAX && p.services@.len() <= u32::MAX && p.extensions@.len() <= u32::MAX
}
// ---- Arc: one handle sees its own value (assumed contracts; sharing is copy-on-write)
pub struct Arc<T> { pub v: T }
impl<T> Arc<T> {
    fn make_mut(a: &mut Arc<T>) -> (r: &mut T) ensures *r == old(a).v, final(a).v == *final(r) { &mut a.v }
    fn get_mut(a: &mut Arc<T>) -> (r: Option<&mut T>) ensures r is Some, *r->0 == old(a).v, final(a).v == *final(r->0) { Some(&mut a.v) }
}
#[verifier::external_body] #[derive(Debug)] pub struct DescriptorError { x: u8 }
//@@ item prost-reflect/src/descriptor/mod.rs struct DescriptorPool
