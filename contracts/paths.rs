//@@ props P10 P20
//@@ include head.rs
use vstd::string::*;
use vstd::utf8::*;
//@@ include names.rs
#[verifier::external_body]
pub struct Value { x: u8 }
#[verifier::external_body]
fn unreached<A>() -> A requires false { unimplemented!() }
//@@ include btree.rs
//@@ include pool.rs
//@@ include errors.rs
//@@ include identity.rs
//@@ include tag.rs
broadcast use group_utf8_lib;
//@@ include protos.rs
//@@ include paths.rs
//@@ include chars.rs
//@@ include jsonname.rs
//@@ item prost-reflect/src/descriptor/build/resolve.rs struct ResolveVisitor
pub mod field_descriptor_proto {
use vstd::prelude::*;
#[derive(Clone, Copy)]
//@@ item prost-types:src/protobuf.rs enum Type
}
/// Accessors derived by prost.
pub uninterp spec fn type_of(f: FieldDescriptorProto) -> field_descriptor_proto::Type;
impl FieldDescriptorProto {
    #[verifier::external_body]
    fn r#type(&self) -> (r: field_descriptor_proto::Type) ensures r == type_of(*self) { unimplemented!() }
    #[verifier::external_body]
    fn set_type(&mut self, t: field_descriptor_proto::Type) ensures *final(self) == (FieldDescriptorProto { r#type: final(self).r#type, ..*old(self) }) { unimplemented!() }
}
fn is_group(t: field_descriptor_proto::Type) -> (r: bool) ensures r == (t is Group) { match t { field_descriptor_proto::Type::Group => true, _ => false } }
// ---- specification: writing a field in place
pub open spec fn wrote_in(m: DescriptorProto, path: Seq<i32>, n: DescriptorProto, x: FieldDescriptorProto) -> bool
    decreases path.len()
{
    if path.len() < 2 { false }
    else if path.len() == 2 {
        if path[0] == 2 { n == (DescriptorProto { field: n.field, ..m }) && n.field@ == m.field@.update(path[1] as int, x) }
        else { n == (DescriptorProto { extension: n.extension, ..m }) && n.extension@ == m.extension@.update(path[1] as int, x) }
    } else {
        &&& n == (DescriptorProto { nested_type: n.nested_type, ..m })
        &&& n.nested_type@ == m.nested_type@.update(path[1] as int, n.nested_type@[path[1] as int])
        &&& wrote_in(m.nested_type@[path[1] as int], path.skip(2), n.nested_type@[path[1] as int], x)
    }
}
pub open spec fn wrote(a: FileDescriptorProto, path: Seq<i32>, b: FileDescriptorProto, x: FieldDescriptorProto) -> bool {
    if path.len() == 2 { b == (FileDescriptorProto { extension: b.extension, ..a }) && b.extension@ == a.extension@.update(path[1] as int, x) }
    else {
        &&& b == (FileDescriptorProto { message_type: b.message_type, ..a })
        &&& b.message_type@ == a.message_type@.update(path[1] as int, b.message_type@[path[1] as int])
        &&& wrote_in(a.message_type@[path[1] as int], path.skip(2), b.message_type@[path[1] as int], x)
    }
}
/// The first step of a path.
proof fn nested_first(m: DescriptorProto, p: Seq<i32>)
    requires p.len() >= 2, p.len() % 2 == 0, nested_at(m, p) is Some,
    ensures p[0] == 3, 0 <= p[1] < m.nested_type@.len(), nested_at(m, p) == nested_at(m.nested_type@[p[1] as int], p.skip(2)),
    decreases p.len()
{
    let q = p.take(p.len() - 2);
    if q.len() == 0 { assert(p.skip(2) =~= Seq::empty()); assert(nested_at(m, q) == Some(m)); }
    else {
        nested_first(m, q);
        assert(q.skip(2) =~= p.skip(2).take(p.skip(2).len() - 2));
    }
}
proof fn field_first(m: DescriptorProto, p: Seq<i32>)
    requires field_in(m, p) is Some,
    ensures
        p.len() == 2 ==> own_field(m, p[0], p[1]) == field_in(m, p),
        p.len() > 2 ==> p.len() >= 4 && p[0] == 3 && 0 <= p[1] < m.nested_type@.len() && field_in(m.nested_type@[p[1] as int], p.skip(2)) == field_in(m, p),
{
    let q = p.take(p.len() - 2);
    if p.len() == 2 { assert(q =~= Seq::empty()); } else { nested_first(m, q); assert(q.skip(2) =~= p.skip(2).take(p.skip(2).len() - 2)); }
}
proof fn message_first(f: FileDescriptorProto, p: Seq<i32>)
    requires message_at(f, p) is Some,
    ensures p.len() >= 2, p.len() % 2 == 0, p[0] == 4, 0 <= p[1] < f.message_type@.len(), nested_at(f.message_type@[p[1] as int], p.skip(2)) == message_at(f, p),
    decreases p.len()
{
    if p.len() == 2 { assert(p.skip(2) =~= Seq::empty()); }
    else { let q = p.take(p.len() - 2); message_first(f, q); assert(q.skip(2) =~= p.skip(2).take(p.skip(2).len() - 2)); }
}
proof fn file_first(f: FileDescriptorProto, p: Seq<i32>)
    requires field_at(f, p) is Some,
    ensures
        p.len() == 2 ==> p[0] == 7 && 0 <= p[1] < f.extension@.len(),
        p.len() > 2 ==> p.len() >= 4 && p[0] == 4 && 0 <= p[1] < f.message_type@.len() && field_in(f.message_type@[p[1] as int], p.skip(2)) == field_at(f, p),
{
    if p.len() > 2 { let q = p.take(p.len() - 2); message_first(f, q); assert(q.skip(2) =~= p.skip(2).take(p.skip(2).len() - 2)); }
}
/// After writing: what is on the way was written into, the rest is as it was.
proof fn nested_wrote(m: DescriptorProto, path: Seq<i32>, n: DescriptorProto, x: FieldDescriptorProto, r: Seq<i32>)
    requires field_in(m, path) is Some, wrote_in(m, path, n, x), nested_at(m, r) is Some, r.len() % 2 == 0,
    ensures
        nested_at(n, r) is Some,
        r.len() <= path.len() - 2 && r == path.take(r.len() as int) ==> wrote_in(nested_at(m, r)->0, path.skip(r.len() as int), nested_at(n, r)->0, x) && field_in(nested_at(m, r)->0, path.skip(r.len() as int)) == field_in(m, path),
        !(r.len() <= path.len() - 2 && r == path.take(r.len() as int)) ==> nested_at(n, r) == nested_at(m, r),
    decreases r.len()
{
    if r.len() == 0 { assert(path.skip(0) =~= path); assert(r =~= path.take(0)); }
    else {
        let q = r.take(r.len() - 2);
        nested_wrote(m, path, n, x, q);
        let (a, b) = (nested_at(m, q)->0, nested_at(n, q)->0);
        if q.len() <= path.len() - 2 && q == path.take(q.len() as int) {
            let s = path.skip(q.len() as int);
            field_first(a, s);
            if s.len() > 2 {
                assert(s[0] == path[q.len() as int] && s[1] == path[q.len() as int + 1]);
                if r == path.take(r.len() as int) {
                    assert(s.skip(2) =~= path.skip(r.len() as int));
                    assert(r.last() == path[r.len() - 1]);
                } else if r.last() == s[1] {
                    assert(r =~= path.take(r.len() as int)) by {
                        assert forall|i: int| 0 <= i < r.len() implies r[i] == path[i] by { if i < q.len() { assert(r[i] == q[i]); assert(q[i] == path.take(q.len() as int)[i]); } }
                    }
                }
            } else {
                if r.len() <= path.len() - 2 { assert(false); }
            }
        } else if r.len() <= path.len() - 2 && r == path.take(r.len() as int) {
            assert(q =~= path.take(q.len() as int));
        }
    }
}
proof fn wrote_like(m: DescriptorProto, path: Seq<i32>, n: DescriptorProto, x: FieldDescriptorProto)
    requires field_in(m, path) is Some, wrote_in(m, path, n, x), alike(field_in(m, path)->0, x),
    ensures like(m, n),
{
    field_first(m, path);
}
proof fn wrote_same_shape(a: FileDescriptorProto, path: Seq<i32>, b: FileDescriptorProto, x: FieldDescriptorProto)
    requires field_at(a, path) is Some, wrote(a, path, b, x), alike(field_at(a, path)->0, x),
    ensures same_shape(a, b), field_at(b, path) == Some(x),
{
    file_first(a, path);
    if path.len() > 2 {
        let rest = path.skip(2);
        let (m, n) = (a.message_type@[path[1] as int], b.message_type@[path[1] as int]);
        assert forall|p: Seq<i32>| (#[trigger] message_at(a, p)) is Some implies message_at(b, p) is Some && like(message_at(a, p)->0, message_at(b, p)->0) by {
            message_wrote(a, path, b, x, p);
        }
        let q = path.take(path.len() - 2);
        let r = rest.take(rest.len() - 2);
        message_first(a, q);
        assert(q.skip(2) =~= r);
        nested_wrote(m, rest, n, x, r);
        assert(r =~= rest.take(r.len() as int));
        let s = rest.skip(r.len() as int);
        assert(s.len() == 2 && s[0] == path[path.len() - 2] && s[1] == path.last());
        same_message(b, q);
        assert(s =~= seq![path[path.len() - 2], path.last()]);
    } else {
        assert forall|p: Seq<i32>| (#[trigger] message_at(a, p)) is Some implies message_at(b, p) == message_at(a, p) by { only_messages(a, b, p); }
    }
}
proof fn message_wrote(a: FileDescriptorProto, path: Seq<i32>, b: FileDescriptorProto, x: FieldDescriptorProto, p: Seq<i32>)
    requires field_at(a, path) is Some, path.len() > 2, wrote(a, path, b, x), alike(field_at(a, path)->0, x), message_at(a, p) is Some,
    ensures message_at(b, p) is Some && like(message_at(a, p)->0, message_at(b, p)->0),
{
    file_first(a, path);
    message_first(a, p);
    let (m, n) = (a.message_type@[p[1] as int], b.message_type@[p[1] as int]);
    let r = p.skip(2);
    if p[1] == path[1] {
        nested_wrote(m, path.skip(2), n, x, r);
        let s = path.skip(2);
        if r.len() <= s.len() - 2 && r == s.take(r.len() as int) { wrote_like(nested_at(m, r)->0, s.skip(r.len() as int), nested_at(n, r)->0, x); }
    }
    back(b, p);
}
/// From the message on to the file: the inverse of message_first.
proof fn back(f: FileDescriptorProto, p: Seq<i32>)
    requires p.len() >= 2, p.len() % 2 == 0, p[0] == 4, 0 <= p[1] < f.message_type@.len(), nested_at(f.message_type@[p[1] as int], p.skip(2)) is Some,
    ensures message_at(f, p) == nested_at(f.message_type@[p[1] as int], p.skip(2)),
    decreases p.len()
{
    if p.len() == 2 { assert(p.skip(2) =~= Seq::empty()); }
    else { let q = p.take(p.len() - 2); assert(q.skip(2) =~= p.skip(2).take(p.skip(2).len() - 2)); back(f, q); }
}
proof fn same_message(f: FileDescriptorProto, p: Seq<i32>)
    requires p.len() >= 2, p.len() % 2 == 0, p[0] == 4, 0 <= p[1] < f.message_type@.len(), nested_at(f.message_type@[p[1] as int], p.skip(2)) is Some,
    ensures message_at(f, p) == nested_at(f.message_type@[p[1] as int], p.skip(2)),
{ back(f, p); }
proof fn only_messages(a: FileDescriptorProto, b: FileDescriptorProto, p: Seq<i32>)
    requires b.message_type == a.message_type,
    ensures message_at(b, p) == message_at(a, p),
    decreases p.len()
{ if p.len() > 2 && p.len() % 2 == 0 { only_messages(a, b, p.take(p.len() - 2)); } }
#[verifier::external_body]
fn slice_from(p: &[i32], n: usize) -> (r: &[i32]) requires n <= p@.len() ensures r@ == p@.skip(n as int) { unimplemented!() }
pub open spec fn method_wrote(a: FileDescriptorProto, path: Seq<i32>, b: FileDescriptorProto) -> bool {
    let (s, t) = (a.service@[path[1] as int], b.service@[path[1] as int]);
    &&& method_at(a, path) is Some
    &&& b == (FileDescriptorProto { service: b.service, ..a })
    &&& b.service@ == a.service@.update(path[1] as int, t)
    &&& t == (ServiceDescriptorProto { method: t.method, ..s })
    &&& t.method@ == s.method@.update(path[3] as int, t.method@[path[3] as int])
    &&& method_like(s.method@[path[3] as int], t.method@[path[3] as int])
}
proof fn method_same_shape(a: FileDescriptorProto, path: Seq<i32>, b: FileDescriptorProto)
    requires method_wrote(a, path, b),
    ensures same_shape(a, b),
{
    assert forall|p: Seq<i32>| (#[trigger] message_at(a, p)) is Some implies message_at(b, p) == message_at(a, p) by { only_messages(a, b, p); }
}
// ---- the code
//@@ fn prost-reflect/src/descriptor/build/resolve.rs find_message_field_proto
//@@ ret r
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? panic ! $a:tt ==>> unreached()
//@@ subst? & $p:id [ $e:e .. ] ==>> slice_from($p, $e)
//@@ spec
    requires field_in(*old($p0), $p1@) is Some,
    ensures *r == field_in(*old($p0), $p1@)->0, wrote_in(*old($p0), $p1@, *final($p0), *final(r)),
    decreases $p1@.len(),
//@@ start
    proof { field_first(*$p0, $p1@); }
//@@ end
//@@ fn prost-reflect/src/descriptor/build/resolve.rs find_file_field_proto_mut
//@@ ret r
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? panic ! $a:tt ==>> unreached()
//@@ subst? & $p:id [ $e:e .. ] ==>> slice_from($p, $e)
//@@ spec
    requires field_at(*old($p0), $p1@) is Some,
    ensures *r == field_at(*old($p0), $p1@)->0, wrote(*old($p0), $p1@, *final($p0), *final(r)),
//@@ start
    proof { file_first(*$p0, $p1@); }
//@@ end
//@@ fn prost-reflect/src/descriptor/build/resolve.rs set_type_name
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? panic ! $a:tt ==>> unreached()
//@@ subst? $a:e != field_descriptor_proto :: Type :: Group ==>> !is_group($a)
//@@ spec
    requires place_ok(*old($p0), $p1@, $p2),
    ensures same_shape(*old($p0), *final($p0)),
//@@ start
    let ghost a0 = *$p0;
    proof {
        if field_at(a0, $p1@) is Some {
            file_first(a0, $p1@);
            assert forall|b: FileDescriptorProto, x: FieldDescriptorProto| #[trigger] wrote(a0, $p1@, b, x) && alike(field_at(a0, $p1@)->0, x) implies same_shape(a0, b) by { wrote_same_shape(a0, $p1@, b, x); }
        }
        assert forall|b: FileDescriptorProto| method_wrote(a0, $p1@, b) implies #[trigger] same_shape(a0, b) by { method_same_shape(a0, $p1@, b); }
    }
//@@ end
/// The JSON name of a field: as declared, or derived from its name.
pub open spec fn json_name_of(f: FieldDescriptorProto) -> Seq<char> { match f.json_name { Some(s) => s@, None => json_name(text_or_empty(f.name)) } }
/// Under contract in json_name.rs.
#[verifier::external_body]
fn to_json_name(s: &str) -> (r: String) ensures r@ == json_name(s@) { unimplemented!() }
/// `Option::insert`
#[verifier::external_body]
fn put_text<'a>(v: &'a mut Option<String>, s: String) -> (r: &'a mut String) ensures *r == s, *final(v) == Some(*final(r)) { unimplemented!() }
pub open spec fn reshaped(a: DescriptorPoolInner, b: DescriptorPoolInner, file: u32) -> bool {
    &&& b == (DescriptorPoolInner { files: b.files, ..a })
    &&& b.files@ =~= a.files@.update(file as int, b.files@[file as int])
    &&& b.files@[file as int] == (FileDescriptorInner { raw: b.files@[file as int].raw, ..a.files@[file as int] })
    &&& same_shape(a.files@[file as int].raw, b.files@[file as int].raw)
}
impl ResolveVisitor<'_> {
//@@ fn prost-reflect/src/descriptor/build/resolve.rs ResolveVisitor::resolve_field_json_name
//@@ ret r
//@@ subst? $f:e . insert ( $x ) ==>> { let x_ = $x; put_text(&mut $f, x_) }
//@@ spec
    requires
        $p2 < old(self).pool.files@.len(),
        $p1.json_name is None ==> field_at(old(self).pool.files@[$p2 as int].raw, $p3@) is Some && text_or_empty(field_at(old(self).pool.files@[$p2 as int].raw, $p3@)->0.name) == text_or_empty($p1.name),
    ensures
        reshaped(*old(self).pool, *final(self).pool, $p2), final(self).errors == old(self).errors,
        // P20
        r@ == json_name_of(*$p1),
//@@ start
    let ghost a0 = self.pool.files@[$p2 as int].raw;
    proof {
        same_shape_refl(a0);
        if $p1.json_name is None {
            assert forall|b: FileDescriptorProto, x: FieldDescriptorProto| #[trigger] wrote(a0, $p3@, b, x) && alike(field_at(a0, $p3@)->0, x) implies same_shape(a0, b) by { wrote_same_shape(a0, $p3@, b, x); }
        }
    }
//@@ end
}
fn main() {}
}
