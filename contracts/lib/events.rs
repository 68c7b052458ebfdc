// ---- what a visitor sees: one event for everything declared, in this order
pub type Path = Seq<i32>;
#[allow(inconsistent_fields)]
pub enum Event {
    File { path: Path, index: u32, file: FileDescriptorProto },
    Message { path: Path, name: Seq<char>, file: u32, parent: Option<u32>, index: u32, message: DescriptorProto },
    Field { path: Path, name: Seq<char>, file: u32, message: u32, index: u32, field: FieldDescriptorProto },
    Oneof { path: Path, name: Seq<char>, file: u32, message: u32, index: u32, oneof: OneofDescriptorProto },
    Service { path: Path, name: Seq<char>, file: u32, index: u32, service: ServiceDescriptorProto },
    Method { path: Path, name: Seq<char>, file: u32, service: u32, index: u32, method: MethodDescriptorProto },
    Enum { path: Path, name: Seq<char>, file: u32, parent: Option<u32>, index: u32, enum_: EnumDescriptorProto },
    EnumValue { path: Path, name: Seq<char>, file: u32, enum_: u32, index: u32, value: EnumValueDescriptorProto },
    Extension { path: Path, name: Seq<char>, file: u32, parent: Option<u32>, index: u32, extension: FieldDescriptorProto },
}
/// The next index of each table.
pub struct Off { pub file: int, pub message: int, pub enum_: int, pub service: int, pub extension: int }
pub open spec fn within(a: Off, b: Off) -> bool { a.file <= b.file && a.message <= b.message && a.enum_ <= b.enum_ && a.service <= b.service && a.extension <= b.extension }
pub open spec fn fits(o: Off) -> bool { 0 <= o.file <= u32::MAX && 0 <= o.message <= u32::MAX && 0 <= o.enum_ <= u32::MAX && 0 <= o.service <= u32::MAX && 0 <= o.extension <= u32::MAX }
pub open spec fn joined_name(s: Seq<char>, n: Seq<char>) -> Seq<char> { if s.len() == 0 { n } else { s + seq!['.'] + n } }
pub open spec fn after_message(m: DescriptorProto, o: Off) -> Off
    decreases m
{
    let o = after_messages(m.nested_type, m.nested_type@.len() as int, Off { message: o.message + 1, ..o });
    Off { enum_: o.enum_ + m.enum_type@.len(), extension: o.extension + m.extension@.len(), ..o }
}
pub open spec fn after_messages(v: Vec<DescriptorProto>, k: int, o: Off) -> Off
    decreases v, k
{
    if k <= 0 || k > v@.len() { o } else { after_message(v[k - 1], after_messages(v, k - 1, o)) }
}
pub open spec fn after_file(f: FileDescriptorProto, o: Off) -> Off {
    let o = after_messages(f.message_type, f.message_type@.len() as int, Off { file: o.file + 1, ..o });
    Off { enum_: o.enum_ + f.enum_type@.len(), service: o.service + f.service@.len(), extension: o.extension + f.extension@.len(), ..o }
}
pub open spec fn after_files(v: Seq<FileDescriptorProto>, k: int, o: Off) -> Off
    decreases k
{
    if k <= 0 { o } else { after_file(v[k - 1], after_files(v, k - 1, o)) }
}
pub open spec fn oneof_events(v: Seq<OneofDescriptorProto>, k: int, path: Path, scope: Seq<char>, file: u32, message: u32) -> Seq<Event>
    decreases k
{
    if k <= 0 { seq![] } else {
        oneof_events(v, k - 1, path, scope, file, message).push(Event::Oneof { path: path.push((k - 1) as i32), name: joined_name(scope, text_or_empty(v[k - 1].name)), file, message, index: (k - 1) as u32, oneof: v[k - 1] })
    }
}
pub open spec fn field_events(v: Seq<FieldDescriptorProto>, k: int, path: Path, scope: Seq<char>, file: u32, message: u32) -> Seq<Event>
    decreases k
{
    if k <= 0 { seq![] } else {
        field_events(v, k - 1, path, scope, file, message).push(Event::Field { path: path.push((k - 1) as i32), name: joined_name(scope, text_or_empty(v[k - 1].name)), file, message, index: (k - 1) as u32, field: v[k - 1] })
    }
}
pub open spec fn extension_events(v: Seq<FieldDescriptorProto>, k: int, path: Path, scope: Seq<char>, file: u32, parent: Option<u32>, o: Off) -> Seq<Event>
    decreases k
{
    if k <= 0 { seq![] } else {
        extension_events(v, k - 1, path, scope, file, parent, o).push(Event::Extension { path: path.push((k - 1) as i32), name: joined_name(scope, text_or_empty(v[k - 1].name)), file, parent, index: (o.extension + k - 1) as u32, extension: v[k - 1] })
    }
}
pub open spec fn value_events(v: Seq<EnumValueDescriptorProto>, k: int, path: Path, scope: Seq<char>, file: u32, enum_: u32) -> Seq<Event>
    decreases k
{
    if k <= 0 { seq![] } else {
        value_events(v, k - 1, path, scope, file, enum_).push(Event::EnumValue { path: path.push((k - 1) as i32), name: joined_name(scope, text_or_empty(v[k - 1].name)), file, enum_, index: (k - 1) as u32, value: v[k - 1] })
    }
}
/// The values of an enum are named in the scope around it.
pub open spec fn enum_events(e: EnumDescriptorProto, path: Path, scope: Seq<char>, file: u32, parent: Option<u32>, index: u32) -> Seq<Event> {
    seq![Event::Enum { path, name: joined_name(scope, text_or_empty(e.name)), file, parent, index, enum_: e }]
        + value_events(e.value@, e.value@.len() as int, path.push(2), scope, file, index)
}
pub open spec fn enums_events(v: Seq<EnumDescriptorProto>, k: int, path: Path, scope: Seq<char>, file: u32, parent: Option<u32>, o: Off) -> Seq<Event>
    decreases k
{
    if k <= 0 { seq![] } else { enums_events(v, k - 1, path, scope, file, parent, o) + enum_events(v[k - 1], path.push((k - 1) as i32), scope, file, parent, (o.enum_ + k - 1) as u32) }
}
pub open spec fn method_events(v: Seq<MethodDescriptorProto>, k: int, path: Path, scope: Seq<char>, file: u32, service: u32) -> Seq<Event>
    decreases k
{
    if k <= 0 { seq![] } else {
        method_events(v, k - 1, path, scope, file, service).push(Event::Method { path: path.push((k - 1) as i32), name: joined_name(scope, text_or_empty(v[k - 1].name)), file, service, index: (k - 1) as u32, method: v[k - 1] })
    }
}
pub open spec fn service_events(s: ServiceDescriptorProto, path: Path, scope: Seq<char>, file: u32, index: u32) -> Seq<Event> {
    let name = joined_name(scope, text_or_empty(s.name));
    seq![Event::Service { path, name, file, index, service: s }] + method_events(s.method@, s.method@.len() as int, path.push(2), name, file, index)
}
pub open spec fn services_events(v: Seq<ServiceDescriptorProto>, k: int, path: Path, scope: Seq<char>, file: u32, o: Off) -> Seq<Event>
    decreases k
{
    if k <= 0 { seq![] } else { services_events(v, k - 1, path, scope, file, o) + service_events(v[k - 1], path.push((k - 1) as i32), scope, file, (o.service + k - 1) as u32) }
}
pub open spec fn message_events(m: DescriptorProto, path: Path, scope: Seq<char>, file: u32, parent: Option<u32>, o: Off) -> Seq<Event>
    decreases m
{
    let name = joined_name(scope, text_or_empty(m.name));
    let index = o.message as u32;
    let o1 = Off { message: o.message + 1, ..o };
    let o2 = after_messages(m.nested_type, m.nested_type@.len() as int, o1);
    seq![Event::Message { path, name, file, parent, index, message: m }]
        + oneof_events(m.oneof_decl@, m.oneof_decl@.len() as int, path.push(8), name, file, index)
        + field_events(m.field@, m.field@.len() as int, path.push(2), name, file, index)
        + messages_events(m.nested_type, m.nested_type@.len() as int, path.push(3), name, file, Some(index), o1)
        + enums_events(m.enum_type@, m.enum_type@.len() as int, path.push(4), name, file, Some(index), o2)
        + extension_events(m.extension@, m.extension@.len() as int, path.push(6), name, file, Some(index), o2)
}
pub open spec fn messages_events(v: Vec<DescriptorProto>, k: int, path: Path, scope: Seq<char>, file: u32, parent: Option<u32>, o: Off) -> Seq<Event>
    decreases v, k
{
    if k <= 0 || k > v@.len() { seq![] } else {
        messages_events(v, k - 1, path, scope, file, parent, o) + message_events(v[k - 1], path.push((k - 1) as i32), scope, file, parent, after_messages(v, k - 1, o))
    }
}
pub open spec fn file_events(f: FileDescriptorProto, o: Off) -> Seq<Event> {
    let e = Seq::<i32>::empty();
    let name = text_or_empty(f.package);
    let index = o.file as u32;
    let o1 = Off { file: o.file + 1, ..o };
    let o2 = after_messages(f.message_type, f.message_type@.len() as int, o1);
    seq![Event::File { path: e, index, file: f }]
        + messages_events(f.message_type, f.message_type@.len() as int, e.push(4), name, index, None, o1)
        + enums_events(f.enum_type@, f.enum_type@.len() as int, e.push(5), name, index, None, o2)
        + services_events(f.service@, f.service@.len() as int, e.push(6), name, index, o2)
        + extension_events(f.extension@, f.extension@.len() as int, e.push(7), name, index, None, o2)
}
pub open spec fn files_events(v: Seq<FileDescriptorProto>, k: int, o: Off) -> Seq<Event>
    decreases k
{
    if k <= 0 { seq![] } else { files_events(v, k - 1, o) + file_events(v[k - 1], after_files(v, k - 1, o)) }
}
/// No list has 2^31 elements: its positions are numbered with i32.
pub open spec fn small(n: nat) -> bool { n <= i32::MAX }
pub open spec fn sized_message(m: DescriptorProto) -> bool
    decreases m
{
    small(m.field@.len()) && small(m.oneof_decl@.len()) && small(m.nested_type@.len()) && small(m.enum_type@.len()) && small(m.extension@.len())
        && (forall|i: int| 0 <= i < m.enum_type@.len() ==> small((#[trigger] m.enum_type@[i]).value@.len()))
        && sized_messages(m.nested_type, m.nested_type@.len() as int)
}
pub open spec fn sized_messages(v: Vec<DescriptorProto>, k: int) -> bool
    decreases v, k
{
    if k <= 0 || k > v@.len() { true } else { sized_messages(v, k - 1) && sized_message(v[k - 1]) }
}
pub open spec fn sized_file(f: FileDescriptorProto) -> bool {
    small(f.message_type@.len()) && small(f.enum_type@.len()) && small(f.service@.len()) && small(f.extension@.len())
        && (forall|i: int| 0 <= i < f.enum_type@.len() ==> small((#[trigger] f.enum_type@[i]).value@.len()))
        && (forall|i: int| 0 <= i < f.service@.len() ==> small((#[trigger] f.service@[i]).method@.len()))
        && sized_messages(f.message_type, f.message_type@.len() as int)
}
proof fn all_sized(v: Vec<DescriptorProto>, k: int, i: int)
    requires sized_messages(v, k), 0 <= i < k <= v@.len(),
    ensures sized_message(v[i]),
    decreases k
{
    if i < k - 1 { all_sized(v, k - 1, i); }
}
proof fn message_grows(m: DescriptorProto, o: Off)
    ensures within(o, after_message(m, o)), after_message(m, o).message > o.message, after_message(m, o).file == o.file, after_message(m, o).service == o.service,
    decreases m
{
    messages_grow(m.nested_type, 0, m.nested_type@.len() as int, Off { message: o.message + 1, ..o });
}
proof fn messages_grow(v: Vec<DescriptorProto>, j: int, k: int, o: Off)
    requires 0 <= j <= k <= v@.len(),
    ensures within(after_messages(v, j, o), after_messages(v, k, o)), within(o, after_messages(v, k, o)), after_messages(v, k, o).file == o.file, after_messages(v, k, o).service == o.service,
    decreases v, k
{
    if k > 0 {
        message_grows(v[k - 1], after_messages(v, k - 1, o));
        if j < k { messages_grow(v, j, k - 1, o); } else { messages_grow(v, 0, k - 1, o); }
    }
}
proof fn file_grows(f: FileDescriptorProto, o: Off)
    ensures within(o, after_file(f, o)), after_file(f, o).file == o.file + 1,
{
    messages_grow(f.message_type, 0, f.message_type@.len() as int, Off { file: o.file + 1, ..o });
}
proof fn files_grow(v: Seq<FileDescriptorProto>, j: int, k: int, o: Off)
    requires 0 <= j <= k <= v.len(),
    ensures within(after_files(v, j, o), after_files(v, k, o)), within(o, after_files(v, k, o)), after_files(v, k, o).file == o.file + k,
    decreases k
{
    if k > 0 {
        file_grows(v[k - 1], after_files(v, k - 1, o));
        if j < k { files_grow(v, j, k - 1, o); } else { files_grow(v, 0, k - 1, o); }
    }
}
