// ---- the field or method a path leads to (tags: file.extension = 7, file.service = 6, message.field = 2, message.extension = 6, service.method = 2)
pub open spec fn at<T>(v: Seq<T>, i: int) -> Option<T> { if 0 <= i < v.len() { Some(v[i]) } else { None } }
/// Within a message: the nested message a path leads to.
pub open spec fn nested_at(m: DescriptorProto, path: Seq<i32>) -> Option<DescriptorProto>
    decreases path.len()
{
    if path.len() == 0 { Some(m) } else if path.len() < 2 { None } else {
        match nested_at(m, path.take(path.len() - 2)) {
            Some(n) => if path[path.len() - 2] == 3 { at(n.nested_type@, path.last() as int) } else { None },
            None => None,
        }
    }
}
pub open spec fn own_field(m: DescriptorProto, tag: i32, i: i32) -> Option<FieldDescriptorProto> {
    if tag == 2 { at(m.field@, i as int) } else if tag == 6 { at(m.extension@, i as int) } else { None }
}
pub open spec fn field_in(m: DescriptorProto, path: Seq<i32>) -> Option<FieldDescriptorProto> {
    if path.len() < 2 || path.len() % 2 != 0 { None } else {
        match nested_at(m, path.take(path.len() - 2)) { Some(n) => own_field(n, path[path.len() - 2], path.last()), None => None }
    }
}
pub open spec fn field_at(f: FileDescriptorProto, path: Seq<i32>) -> Option<FieldDescriptorProto> {
    if path.len() < 2 || path.len() % 2 != 0 { None }
    else if path.len() == 2 { if path[0] == 7 { at(f.extension@, path[1] as int) } else { None } }
    else { match message_at(f, path.take(path.len() - 2)) { Some(m) => own_field(m, path[path.len() - 2], path.last()), None => None } }
}
pub open spec fn method_at(f: FileDescriptorProto, path: Seq<i32>) -> Option<MethodDescriptorProto> {
    if path.len() == 4 && path[0] == 6 && path[2] == 2 { match at(f.service@, path[1] as int) { Some(s) => at(s.method@, path[3] as int), None => None } } else { None }
}
// ---- what resolving may change of the declarations: types, extendees and JSON names of fields, types of methods
pub open spec fn alike(f: FieldDescriptorProto, g: FieldDescriptorProto) -> bool {
    g == (FieldDescriptorProto { r#type: g.r#type, type_name: g.type_name, extendee: g.extendee, json_name: g.json_name, ..f })
}
pub open spec fn all_alike(f: Seq<FieldDescriptorProto>, g: Seq<FieldDescriptorProto>) -> bool { g.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> alike(f[i], #[trigger] g[i]) }
pub open spec fn like(m: DescriptorProto, n: DescriptorProto) -> bool {
    &&& n == (DescriptorProto { field: n.field, extension: n.extension, nested_type: n.nested_type, ..m })
    &&& all_alike(m.field@, n.field@) && all_alike(m.extension@, n.extension@) && n.nested_type@.len() == m.nested_type@.len()
}
pub open spec fn method_like(m: MethodDescriptorProto, n: MethodDescriptorProto) -> bool { n == (MethodDescriptorProto { input_type: n.input_type, output_type: n.output_type, ..m }) }
pub open spec fn service_like(s: ServiceDescriptorProto, t: ServiceDescriptorProto) -> bool {
    t == (ServiceDescriptorProto { method: t.method, ..s }) && t.method@.len() == s.method@.len() && forall|i: int| 0 <= i < s.method@.len() ==> method_like(s.method@[i], #[trigger] t.method@[i])
}
pub open spec fn same_shape(a: FileDescriptorProto, b: FileDescriptorProto) -> bool {
    &&& b == (FileDescriptorProto { message_type: b.message_type, extension: b.extension, service: b.service, ..a })
    &&& b.message_type@.len() == a.message_type@.len() && b.service@.len() == a.service@.len() && all_alike(a.extension@, b.extension@)
    &&& forall|i: int| 0 <= i < a.service@.len() ==> service_like(a.service@[i], #[trigger] b.service@[i])
    &&& forall|p: Seq<i32>| (#[trigger] message_at(a, p)) is Some ==> message_at(b, p) is Some && like(message_at(a, p)->0, message_at(b, p)->0)
}
proof fn same_shape_refl(a: FileDescriptorProto) ensures same_shape(a, a) {
    assert forall|i: int| 0 <= i < a.service@.len() implies service_like(a.service@[i], #[trigger] a.service@[i]) by { }
}
proof fn same_shape_trans(a: FileDescriptorProto, b: FileDescriptorProto, c: FileDescriptorProto)
    requires same_shape(a, b), same_shape(b, c),
    ensures same_shape(a, c),
{
    assert forall|i: int| 0 <= i < a.service@.len() implies service_like(a.service@[i], #[trigger] c.service@[i]) by {
        assert(service_like(a.service@[i], b.service@[i]));
        assert forall|j: int| 0 <= j < a.service@[i].method@.len() implies method_like(a.service@[i].method@[j], #[trigger] c.service@[i].method@[j]) by { assert(method_like(a.service@[i].method@[j], b.service@[i].method@[j])); }
    }
    assert forall|i: int| 0 <= i < a.extension@.len() implies alike(a.extension@[i], #[trigger] c.extension@[i]) by { assert(alike(a.extension@[i], b.extension@[i])); }
    assert forall|p: Seq<i32>| (#[trigger] message_at(a, p)) is Some implies message_at(c, p) is Some && like(message_at(a, p)->0, message_at(c, p)->0) by {
        let (x, y, z) = (message_at(a, p)->0, message_at(b, p)->0, message_at(c, p)->0);
        assert(message_at(b, p) is Some);
        assert forall|i: int| 0 <= i < x.field@.len() implies alike(x.field@[i], #[trigger] z.field@[i]) by { assert(alike(x.field@[i], y.field@[i])); }
        assert forall|i: int| 0 <= i < x.extension@.len() implies alike(x.extension@[i], #[trigger] z.extension@[i]) by { assert(alike(x.extension@[i], y.extension@[i])); }
    }
}
/// Fields, methods and enums stay where they are.
proof fn same_places(a: FileDescriptorProto, b: FileDescriptorProto, p: Seq<i32>)
    requires same_shape(a, b),
    ensures
        field_at(a, p) is Some ==> field_at(b, p) is Some && alike(field_at(a, p)->0, field_at(b, p)->0),
        method_at(a, p) is Some ==> method_at(b, p) is Some && method_like(method_at(a, p)->0, method_at(b, p)->0),
        enum_at(b, p) == enum_at(a, p) || enum_at(a, p) is None,
{
    if field_at(a, p) is Some {
        if p.len() == 2 { assert(alike(a.extension@[p[1] as int], b.extension@[p[1] as int])); }
        else {
            let (x, y) = (message_at(a, p.take(p.len() - 2))->0, message_at(b, p.take(p.len() - 2))->0);
            if p[p.len() - 2] == 2 { assert(alike(x.field@[p.last() as int], y.field@[p.last() as int])); }
            else { assert(alike(x.extension@[p.last() as int], y.extension@[p.last() as int])); }
        }
    }
    if method_at(a, p) is Some {
        let (s, t) = (a.service@[p[1] as int], b.service@[p[1] as int]);
        assert(service_like(s, t));
        assert(method_like(s.method@[p[3] as int], t.method@[p[3] as int]));
    }
}
/// A field may be given a type (6) or an extendee (2), a method an input (2) or output type (3).
pub open spec fn place_ok(f: FileDescriptorProto, path: Seq<i32>, tag: i32) -> bool {
    (field_at(f, path) is Some && (tag == 6 || tag == 2)) || (method_at(f, path) is Some && (tag == 2 || tag == 3))
}
