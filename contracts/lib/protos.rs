// ---- the declaration a path leads to (tags: file.message_type = 4, file.enum_type = 5, message.nested_type = 3, message.enum_type = 4)
pub open spec fn message_at(f: FileDescriptorProto, path: Seq<i32>) -> Option<DescriptorProto>
    decreases path.len()
{
    if path.len() < 2 || path.len() % 2 != 0 { None } else {
        let tag = path[path.len() - 2];
        let i = path[path.len() - 1];
        if path.len() == 2 { if tag == 4 && 0 <= i < f.message_type@.len() { Some(f.message_type@[i as int]) } else { None } }
        else {
            match message_at(f, path.take(path.len() - 2)) {
                Some(m) => if tag == 3 && 0 <= i < m.nested_type@.len() { Some(m.nested_type@[i as int]) } else { None },
                None => None,
            }
        }
    }
}
pub open spec fn enum_at(f: FileDescriptorProto, path: Seq<i32>) -> Option<EnumDescriptorProto> {
    if path.len() < 2 || path.len() % 2 != 0 { None } else {
        let tag = path[path.len() - 2];
        let i = path[path.len() - 1];
        if path.len() == 2 { if tag == 5 && 0 <= i < f.enum_type@.len() { Some(f.enum_type@[i as int]) } else { None } }
        else {
            match message_at(f, path.take(path.len() - 2)) {
                Some(m) => if tag == 4 && 0 <= i < m.enum_type@.len() { Some(m.enum_type@[i as int]) } else { None },
                None => None,
            }
        }
    }
}
proof fn prefixes_lead(f: FileDescriptorProto, path: Seq<i32>, n: int)
    requires message_at(f, path) is Some, 0 < n <= path.len(), n % 2 == 0,
    ensures message_at(f, path.take(n)) is Some, path.len() % 2 == 0,
    decreases path.len()
{
    if n < path.len() {
        prefixes_lead(f, path.take(path.len() - 2), n);
        assert(path.take(path.len() - 2).take(n) =~= path.take(n));
    } else { assert(path.take(n) =~= path); }
}
#[verifier::external_body]
fn slice_to(p: &[i32], n: usize) -> (r: &[i32]) requires n <= p@.len() ensures r@ == p@.take(n as int) { unimplemented!() }
//@@ fn prost-reflect/src/descriptor/mod.rs find_message_proto
//@@ ret r
//@@ subst? debug_assert_ne ! $a:tt ; ==>> 
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? & 'a types :: DescriptorProto ==>> &'a DescriptorProto
//@@ subst? panic ! $a:tt ==>> unreached()
//@@ subst for $q:id in path . chunks ( 2 ) $b:b ==>> { let mut k_: usize = 0; while k_ < path.len() { let $q = [path[k_], path[k_ + 1]]; k_ += 2; $b } }
//@@ loop 0
    invariant
        k_ <= path@.len(), k_ % 2 == 0, path@.len() % 2 == 0, message_at(*$p0, path@) is Some,
        k_ == 0 ==> message is None,
        k_ > 0 ==> message is Some && message_at(*$p0, path@.take(k_ as int)) == Some(*message->0),
    decreases path@.len() - k_,
//@@ in-loop 0
    proof {
        prefixes_lead(*$p0, path@, k_ + 2);
        assert(path@.take(k_ + 2).take(k_ as int) =~= path@.take(k_ as int));
    }
//@@ after-loop 0
    proof { assert(path@.take(k_ as int) =~= path@); }
//@@ spec
    requires message_at(*$p0, $p1@) is Some,
    ensures *r == message_at(*$p0, $p1@)->0,
//@@ start
    proof { prefixes_lead(*$p0, $p1@, 2); }
//@@ end
//@@ fn prost-reflect/src/descriptor/mod.rs find_enum_proto
//@@ ret r
//@@ subst? debug_assert_ne ! $a:tt ; ==>> 
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? & $p:id [ .. $e ] ==>> slice_to($p, $e)
//@@ spec
    requires enum_at(*$p0, $p1@) is Some,
    ensures *r == enum_at(*$p0, $p1@)->0,
//@@ end
