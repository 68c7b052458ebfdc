//@@ props P21
//@@ include head.rs
use vstd::string::*;
use vstd::utf8::*;
//@@ include names.rs
#[verifier::external_body]
pub struct Value { x: u8 }
#[verifier::external_body]
fn unreached<A>() -> A requires false { unimplemented!() }
//@@ include btree.rs
//@@ include pool.rs
//@@ include errors.rs
//@@ include tag.rs
fn same<A>(a: A) -> (r: A) ensures r == a { a }
pub mod joining { use super::*;
//@@ fn prost-reflect/src/descriptor/build/mod.rs join_path
//@@ sig fn join_path(path1: &[i32], path2: &[i32]) -> (r: Vec<i32>)
//@@ subst? $p:id . into_boxed_slice ( ) ==>> $p
//@@ subst? $p:id . into ( ) ==>> $p
//@@ subst? Vec :: with_capacity ( $x ) ==>> Vec::new()
//@@ spec
    ensures r@ == $p0@ + $p1@,
//@@ end
}
#[verifier::external_body]
fn slice_from(p: &[i32], n: usize) -> (r: &[i32]) requires n <= p@.len() ensures r@ == p@.skip(n as int) { unimplemented!() }
/// Decoding options keeps their bytes, record by record (Options::merge_field, proved in convert.rs). Assumed: what was just encoded decodes again.
#[verifier::external_body]
fn decode_options<T>(b: &[u8]) -> (r: Options<T>) ensures r.encoded@ == b@ { unimplemented!() }
pub open spec fn has<T>(o: Option<Options<T>>, enc: Seq<u8>) -> bool { o is Some && o->0.encoded@ == enc }
/// Only element i differs.
pub open spec fn only<T>(a: Seq<T>, b: Seq<T>, i: i32) -> bool { 0 <= i < a.len() && b.len() == a.len() && b =~= a.update(i as int, b[i as int]) }
// ---- where the options of a declaration are, by the numbers of descriptor.proto
pub open spec fn leads_in_enum(e: EnumDescriptorProto, p: Seq<i32>) -> bool {
    p == seq![3i32] || (p.len() == 3 && p[0] == 2 && 0 <= p[1] < e.value@.len() && p[2] == 3)
}
pub open spec fn leads_in(m: DescriptorProto, p: Seq<i32>) -> bool
    decreases p.len()
{
    ||| p == seq![7i32]
    ||| p.len() == 3 && p[0] == 5 && 0 <= p[1] < m.extension_range@.len() && p[2] == 3
    ||| p.len() == 3 && p[0] == 2 && 0 <= p[1] < m.field@.len() && p[2] == 8
    ||| p.len() == 3 && p[0] == 8 && 0 <= p[1] < m.oneof_decl@.len() && p[2] == 2
    ||| p.len() == 3 && p[0] == 6 && 0 <= p[1] < m.extension@.len() && p[2] == 8
    ||| p.len() > 2 && p[0] == 3 && 0 <= p[1] < m.nested_type@.len() && leads_in(m.nested_type@[p[1] as int], p.skip(2))
    ||| p.len() > 2 && p[0] == 4 && 0 <= p[1] < m.enum_type@.len() && leads_in_enum(m.enum_type@[p[1] as int], p.skip(2))
}
pub open spec fn leads(f: FileDescriptorProto, p: Seq<i32>) -> bool {
    ||| p == seq![8i32]
    ||| p.len() > 2 && p[0] == 4 && 0 <= p[1] < f.message_type@.len() && leads_in(f.message_type@[p[1] as int], p.skip(2))
    ||| p.len() > 2 && p[0] == 5 && 0 <= p[1] < f.enum_type@.len() && leads_in_enum(f.enum_type@[p[1] as int], p.skip(2))
    ||| p.len() == 3 && p[0] == 6 && 0 <= p[1] < f.service@.len() && p[2] == 3
    ||| p.len() == 5 && p[0] == 6 && 0 <= p[1] < f.service@.len() && p[2] == 2 && 0 <= p[3] < f.service@[p[1] as int].method@.len() && p[4] == 4
    ||| p.len() == 3 && p[0] == 7 && 0 <= p[1] < f.extension@.len() && p[2] == 8
}
// ---- the options at a path are replaced, and nothing else
pub open spec fn set_in_enum(e: EnumDescriptorProto, p: Seq<i32>, n: EnumDescriptorProto, enc: Seq<u8>) -> bool {
    if p[0] == 3 { n == (EnumDescriptorProto { options: n.options, ..e }) && has(n.options, enc) }
    else {
        let (x, y) = (e.value@[p[1] as int], n.value@[p[1] as int]);
        n == (EnumDescriptorProto { value: n.value, ..e }) && only(e.value@, n.value@, p[1]) && y == (EnumValueDescriptorProto { options: y.options, ..x }) && has(y.options, enc)
    }
}
pub open spec fn set_field(a: Seq<FieldDescriptorProto>, b: Seq<FieldDescriptorProto>, i: i32, enc: Seq<u8>) -> bool {
    only(a, b, i) && b[i as int] == (FieldDescriptorProto { options: b[i as int].options, ..a[i as int] }) && has(b[i as int].options, enc)
}
pub open spec fn set_in(m: DescriptorProto, p: Seq<i32>, n: DescriptorProto, enc: Seq<u8>) -> bool
    decreases p.len()
{
    let i = p[1] as int;
    if p[0] == 7 { n == (DescriptorProto { options: n.options, ..m }) && has(n.options, enc) }
    else if p[0] == 5 {
        n == (DescriptorProto { extension_range: n.extension_range, ..m }) && only(m.extension_range@, n.extension_range@, p[1])
            && n.extension_range@[i] == (ExtensionRange { options: n.extension_range@[i].options, ..m.extension_range@[i] }) && has(n.extension_range@[i].options, enc)
    }
    else if p[0] == 2 { n == (DescriptorProto { field: n.field, ..m }) && set_field(m.field@, n.field@, p[1], enc) }
    else if p[0] == 6 { n == (DescriptorProto { extension: n.extension, ..m }) && set_field(m.extension@, n.extension@, p[1], enc) }
    else if p[0] == 8 {
        n == (DescriptorProto { oneof_decl: n.oneof_decl, ..m }) && only(m.oneof_decl@, n.oneof_decl@, p[1])
            && n.oneof_decl@[i] == (OneofDescriptorProto { options: n.oneof_decl@[i].options, ..m.oneof_decl@[i] }) && has(n.oneof_decl@[i].options, enc)
    }
    else if p[0] == 3 { p.len() > 2 && n == (DescriptorProto { nested_type: n.nested_type, ..m }) && only(m.nested_type@, n.nested_type@, p[1]) && set_in(m.nested_type@[i], p.skip(2), n.nested_type@[i], enc) }
    else { n == (DescriptorProto { enum_type: n.enum_type, ..m }) && only(m.enum_type@, n.enum_type@, p[1]) && set_in_enum(m.enum_type@[i], p.skip(2), n.enum_type@[i], enc) }
}
pub open spec fn set(f: FileDescriptorProto, p: Seq<i32>, g: FileDescriptorProto, enc: Seq<u8>) -> bool {
    let i = p[1] as int;
    if p[0] == 8 { g == (FileDescriptorProto { options: g.options, ..f }) && has(g.options, enc) }
    else if p[0] == 4 { g == (FileDescriptorProto { message_type: g.message_type, ..f }) && only(f.message_type@, g.message_type@, p[1]) && set_in(f.message_type@[i], p.skip(2), g.message_type@[i], enc) }
    else if p[0] == 5 { g == (FileDescriptorProto { enum_type: g.enum_type, ..f }) && only(f.enum_type@, g.enum_type@, p[1]) && set_in_enum(f.enum_type@[i], p.skip(2), g.enum_type@[i], enc) }
    else if p[0] == 7 { g == (FileDescriptorProto { extension: g.extension, ..f }) && set_field(f.extension@, g.extension@, p[1], enc) }
    else {
        let (s, t) = (f.service@[i], g.service@[i]);
        &&& g == (FileDescriptorProto { service: g.service, ..f }) && only(f.service@, g.service@, p[1])
        &&& if p[2] == 3 { t == (ServiceDescriptorProto { options: t.options, ..s }) && has(t.options, enc) }
            else {
                let (x, y) = (s.method@[p[3] as int], t.method@[p[3] as int]);
                t == (ServiceDescriptorProto { method: t.method, ..s }) && only(s.method@, t.method@, p[3]) && y == (MethodDescriptorProto { options: y.options, ..x }) && has(y.options, enc)
            }
    }
}
//@@ fn prost-reflect/src/descriptor/build/options.rs set_enum_option
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? panic ! $a:tt ==>> unreached()
//@@ subst? Options :: decode ( $x ) . unwrap ( ) ==>> decode_options($x)
//@@ subst? & $p:id [ $e:e .. ] ==>> slice_from($p, $e)
//@@ spec
    requires leads_in_enum(*old($p0), $p1@),
    ensures set_in_enum(*old($p0), $p1@, *final($p0), $p2@),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/options.rs set_message_option
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? panic ! $a:tt ==>> unreached()
//@@ subst? Options :: decode ( $x ) . unwrap ( ) ==>> decode_options($x)
//@@ subst? & $p:id [ $e:e .. ] ==>> slice_from($p, $e)
//@@ spec
    requires leads_in(*old($p0), $p1@),
    ensures set_in(*old($p0), $p1@, *final($p0), $p2@),
    decreases $p1@.len(),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/options.rs set_file_option
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? panic ! $a:tt ==>> unreached()
//@@ subst? Options :: decode ( $x ) . unwrap ( ) ==>> decode_options($x)
//@@ subst? & $p:id [ $e:e .. ] ==>> slice_from($p, $e)
//@@ spec
    requires leads(*old($p0), $p1@),
    ensures set(*old($p0), $p1@, *final($p0), $p2@),
//@@ end
// ---- what the options of a declaration become: read as the options type, each uninterpreted option applied in order, and encoded again
#[verifier::external_body] pub struct MessageDescriptor { x: u8 }
#[verifier::external_body] pub struct DynamicMessage { x: u8 }
#[verifier::external_body] pub struct UninterpretedOption { x: u8 }
pub struct Arc { pub v: DescriptorPoolInner }
pub struct DescriptorPool { pub inner: Arc }
/// a pool looks types up by name (lookup.rs); the global pool holds the well-known types (updates.rs)
pub uninterp spec fn named(p: DescriptorPool, name: Seq<char>) -> Option<MessageDescriptor>;
pub uninterp spec fn global_message(name: Seq<char>) -> MessageDescriptor;
impl DescriptorPool {
    #[verifier::external_body]
    fn get_message_by_name(&self, name: &str) -> (r: Option<MessageDescriptor>) ensures r == named(*self, name@) { unimplemented!() }
}
#[verifier::external_body]
fn from_global(name: &str) -> (r: MessageDescriptor) ensures r == global_message(name@) { unimplemented!() }
pub open spec fn options_type(p: DescriptorPool, name: Seq<char>) -> MessageDescriptor { match named(p, name) { Some(d) => d, None => global_message(name) } }
/// decoding, encoding and clearing of messages (P02, P05)
pub uninterp spec fn decoded(d: MessageDescriptor, b: Seq<u8>) -> Option<DynamicMessage>;
pub uninterp spec fn encoding(m: DynamicMessage) -> Seq<u8>;
pub uninterp spec fn without(m: DynamicMessage, number: u32) -> DynamicMessage;
impl DynamicMessage {
    #[verifier::external_body]
    fn decode(d: MessageDescriptor, b: &[u8]) -> (r: Result<DynamicMessage, DecodeError>) ensures match r { Ok(m) => decoded(d, b@) == Some(m), Err(_) => decoded(d, b@) is None } { unimplemented!() }
    #[verifier::external_body]
    fn encode_to_vec(&self) -> (r: Vec<u8>) ensures r@ == encoding(*self) { unimplemented!() }
    #[verifier::external_body]
    fn clear_field_by_number(&mut self, number: u32) ensures *final(self) == without(*old(self), number) { unimplemented!() }
}
//@@ item prost-reflect/src/descriptor/tag.rs const UNINTERPRETED_OPTION
//@@ item-subst Box < [ i32 ] > ==>> Vec<i32>
//@@ item prost-reflect/src/descriptor/build/options.rs struct OptionsVisitor
/// Setting one option (set_option: not under contract, checked bounded): the message after it, and whether it is accepted.
pub uninterp spec fn option_set(p: DescriptorPool, m: DynamicMessage, o: UninterpretedOption, scope: Seq<char>, file: u32) -> DynamicMessage;
pub uninterp spec fn option_ok(p: DescriptorPool, m: DynamicMessage, o: UninterpretedOption, scope: Seq<char>, file: u32) -> bool;
pub type Location = (FileIndex, Vec<i32>, Vec<i32>);
/// Where an option was (the i-th uninterpreted option of these options) and where it is now: below the options it belongs to.
pub open spec fn moves(l: Location, file: u32, options: Seq<i32>) -> bool {
    &&& l.0 == file && l.1@.len() == options.len() + 2 && l.1@.take(options.len() as int) =~= options && l.1@[options.len() as int] == 999
    &&& l.2@.len() >= options.len() && l.2@.take(options.len() as int) =~= options
}
pub open spec fn moved(a: Seq<Location>, b: Seq<Location>, file: u32, options: Seq<i32>) -> bool {
    more(a, b) && forall|j: int| a.len() <= j < b.len() ==> moves(#[trigger] b[j], file, options)
}
pub open spec fn applied(p: DescriptorPool, m: DynamicMessage, u: Seq<UninterpretedOption>, n: int, scope: Seq<char>, file: u32) -> DynamicMessage
    decreases n
{ if n <= 0 { m } else { option_set(p, applied(p, m, u, n - 1, scope, file), u[n - 1], scope, file) } }
pub open spec fn all_ok(p: DescriptorPool, m: DynamicMessage, u: Seq<UninterpretedOption>, n: int, scope: Seq<char>, file: u32) -> bool {
    forall|i: int| 0 <= i < n ==> option_ok(p, #[trigger] applied(p, m, u, i, scope, file), u[i], scope, file)
}
pub open spec fn interpreted(p: DescriptorPool, name: Seq<char>, b: Seq<u8>, u: Seq<UninterpretedOption>, scope: Seq<char>, file: u32) -> Seq<u8> {
    match decoded(options_type(p, name), b) { Some(m) => encoding(without(applied(p, m, u, u.len() as int, scope, file), 999)), None => Seq::<u8>::empty() }
}
/// Every error adds one; what was there stays.
pub open spec fn more<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && b.take(a.len() as int) =~= a }
pub open spec fn file_ok(p: DescriptorPool, file: u32) -> bool { file < p.inner.v.files@.len() }
pub uninterp spec fn uninterpreted_of<T>(t: T) -> Seq<UninterpretedOption>;
/// the field `uninterpreted_option` of every options message
#[verifier::external_body]
fn uninterpreted<T>(t: &T) -> (r: &[UninterpretedOption]) ensures r@ == uninterpreted_of(*t) { unimplemented!() }
/// The options of one declaration are appended, interpreted.
pub open spec fn collected<T>(a: Seq<(FileIndex, Vec<i32>, Vec<u8>)>, b: Seq<(FileIndex, Vec<i32>, Vec<u8>)>, p: DescriptorPool, name: Seq<char>, o: Option<Options<T>>, scope: Seq<char>, file: u32, path: Seq<i32>) -> bool {
    match o {
        None => b == a,
        Some(o) => b.len() == a.len() + 1 && b.drop_last() =~= a && b.last().0 == file && b.last().1@ =~= path && b.last().2@ == interpreted(p, name, o.encoded@, uninterpreted_of(o.value), scope, file),
    }
}
pub open spec fn collected_range(a: Seq<(FileIndex, Vec<i32>, Vec<u8>)>, b: Seq<(FileIndex, Vec<i32>, Vec<u8>)>, p: DescriptorPool, r: Seq<ExtensionRange>, i: int, scope: Seq<char>, file: u32, path: Seq<i32>) -> bool {
    collected(a, b, p, "google.protobuf.ExtensionRangeOptions"@, r[i].options, scope, file, path + seq![5i32, i as i32, 3i32])
}
/// The options of the first n extension ranges are appended, interpreted.
pub open spec fn collected_ranges(a: Seq<(FileIndex, Vec<i32>, Vec<u8>)>, b: Seq<(FileIndex, Vec<i32>, Vec<u8>)>, p: DescriptorPool, r: Seq<ExtensionRange>, n: int, scope: Seq<char>, file: u32, path: Seq<i32>) -> bool
    decreases n
{
    if n <= 0 { b =~= a } else {
        exists|c: Seq<(FileIndex, Vec<i32>, Vec<u8>)>| collected_ranges(a, c, p, r, n - 1, scope, file, path)
            && #[trigger] collected_range(c, b, p, r, n - 1, scope, file, path)
    }
}
#[verifier::spinoff_prover]
proof fn one_more_range(a: Seq<(FileIndex, Vec<i32>, Vec<u8>)>, c: Seq<(FileIndex, Vec<i32>, Vec<u8>)>, b: Seq<(FileIndex, Vec<i32>, Vec<u8>)>, p: DescriptorPool, r: Seq<ExtensionRange>, n: int, scope: Seq<char>, file: u32, path: Seq<i32>)
    requires n > 0, collected_ranges(a, c, p, r, n - 1, scope, file, path), collected_range(c, b, p, r, n - 1, scope, file, path),
    ensures collected_ranges(a, b, p, r, n, scope, file, path),
{ }
pub open spec fn collected_message(a: Seq<(FileIndex, Vec<i32>, Vec<u8>)>, b: Seq<(FileIndex, Vec<i32>, Vec<u8>)>, p: DescriptorPool, m: DescriptorProto, scope: Seq<char>, file: u32, path: Seq<i32>) -> bool {
    exists|c: Seq<(FileIndex, Vec<i32>, Vec<u8>)>| collected(a, c, p, "google.protobuf.MessageOptions"@, m.options, scope, file, path + seq![7i32])
        && #[trigger] collected_ranges(c, b, p, m.extension_range@, m.extension_range@.len() as int, scope, file, path)
}
pub open spec fn moves_in_message(l: Location, file: u32, path: Seq<i32>) -> bool { moves(l, file, path + seq![7i32]) || exists|i: i32| moves(l, file, path + #[trigger] seq![5i32, i, 3i32]) }
pub open spec fn moved_in_message(a: Seq<Location>, b: Seq<Location>, file: u32, path: Seq<i32>) -> bool {
    more(a, b) && forall|j: int| a.len() <= j < b.len() ==> moves_in_message(#[trigger] b[j], file, path)
}
impl OptionsVisitor<'_> {
    #[verifier::external_body]
    fn set_option(&mut self, message: &mut DynamicMessage, option: &UninterpretedOption, scope: &str, file: FileIndex, path: Vec<i32>) -> (r: Result<(), DescriptorErrorKind>)
        requires file_ok(*old(self).pool, file), path@.len() >= 2,
        ensures
            *final(message) == option_set(*old(self).pool, *old(message), *option, scope@, file), r is Ok == option_ok(*old(self).pool, *old(message), *option, scope@, file),
            *final(self).pool == *old(self).pool, final(self).options == old(self).options, final(self).errors == old(self).errors,
            r is Err ==> final(self).locations == old(self).locations,
            r is Ok ==> final(self).locations@.len() == old(self).locations@.len() + 1 && final(self).locations@.drop_last() == old(self).locations@ && final(self).locations@.last().0 == file && final(self).locations@.last().1@ == path@
                && final(self).locations@.last().2@.len() >= path@.len() - 2 && final(self).locations@.last().2@.take(path@.len() - 2) == path@.take(path@.len() - 2) { unimplemented!() }
    pub open spec fn frame(&self, o: &Self) -> bool { *self.pool == *o.pool && more(o.errors@, self.errors@) }
//@@ fn prost-reflect/src/descriptor/build/options.rs OptionsVisitor::resolve_options
//@@ ret r
//@@ subst? $p:e . get_message_by_name ( $n ) . unwrap_or_else ( || $b:b ) ==>> (match $p.get_message_by_name($n) { Some(d_) => d_, None => $b })
//@@ subst? DescriptorPool :: global ( ) . get_message_by_name ( $n ) . unwrap ( ) ==>> from_global($n)
//@@ subst? tag :: UNINTERPRETED_OPTION ==>> UNINTERPRETED_OPTION
//@@ subst? for ( $i:id , $o:id ) in $u:e . iter ( ) . enumerate ( ) $b:b ==>> { let mut k_: usize = 0; while k_ < $u.len() { let $i = k_; let $o = &$u[k_]; k_ += 1; $b } }
//@@ subst? & mut message ==>> &mut message
//@@ loop 0
    invariant
        file_ok(*self.pool, $p5), *self.pool == *p0_, self.options == old(self).options, 0 <= k_ <= $p3@.len(),
        message == applied(*p0_, m0_, $p3@, k_ as int, $p4@, $p5),
        more(old(self).errors@, self.errors@), moved(old(self).locations@, self.locations@, $p5, $p6@),
        all_ok(*p0_, m0_, $p3@, k_ as int, $p4@, $p5) ==> self.errors == old(self).errors,
        !all_ok(*p0_, m0_, $p3@, k_ as int, $p4@, $p5) ==> self.errors@.len() > old(self).errors@.len(),
    decreases $p3@.len() - k_,
//@@ in-loop 0
    let ghost l0 = self.locations@;
//@@ end-loop 0
    proof {
        let l1 = self.locations@;
        let n = $p6@.len() as int;
        assert forall|j: int| old(self).locations@.len() <= j < l1.len() implies moves(#[trigger] l1[j], $p5, $p6@) by {
            if l1.len() > l0.len() && j == l1.len() - 1 {
                assert(l1[j] == l1.last());
                assert(l1[j].1@.take(n) =~= $p6@);
            } else {
                if l1.len() > l0.len() { assert(l1.drop_last()[j] == l1[j]); }
                assert(l1[j] == l0[j]);
            }
        }
        assert(more(l0, l1));
        assert(l1.take(old(self).locations@.len() as int) =~= l0.take(old(self).locations@.len() as int));
    }
//@@ spec
    requires file_ok(*old(self).pool, $p5),
    ensures
        final(self).frame(old(self)), final(self).options == old(self).options, moved(old(self).locations@, final(self).locations@, $p5, $p6@),
        r@ == interpreted(*old(self).pool, $p1@, $p2.encoded@, $p3@, $p4@, $p5),
        final(self).errors@ == old(self).errors@ <==> decoded(options_type(*old(self).pool, $p1@), $p2.encoded@) is Some && all_ok(*old(self).pool, decoded(options_type(*old(self).pool, $p1@), $p2.encoded@)->0, $p3@, $p3@.len() as int, $p4@, $p5),
//@@ start
    let ghost p0_ = self.pool;
//@@ before let mut k_
    let ghost m0_ = message;
//@@ end

//@@ fn prost-reflect/src/descriptor/build/options.rs OptionsVisitor::visit_file
//@@ subst? & $o:e . value . uninterpreted_option ==>> uninterpreted(&$o.value)
//@@ spec
    requires file_ok(*old(self).pool, $p2),
    ensures final(self).frame(old(self)), moved(old(self).locations@, final(self).locations@, $p2, $p1@ + seq![8i32]), collected(old(self).options@, final(self).options@, *old(self).pool, "google.protobuf.FileOptions"@, $p3.options, text_or_empty($p3.package), $p2, $p1@ + seq![8i32]),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/options.rs OptionsVisitor::visit_message
//@@ subst? & $o:e . value . uninterpreted_option ==>> uninterpreted(&$o.value)
//@@ subst? for ( $i:id , $o:id ) in $u:e . iter ( ) . enumerate ( ) $b:b ==>> { let ghost c0_ = self.options@; let mut k_: usize = 0; while k_ < $u.len() { let $i = k_; let $o = &$u[k_]; k_ += 1; $b } }
//@@ loop 0
    invariant
        file_ok(*self.pool, $p3), *self.pool == *old(self).pool, more(old(self).errors@, self.errors@), 0 <= k_ <= $p6.extension_range@.len() <= i32::MAX,
        moved_in_message(old(self).locations@, self.locations@, $p3, $p1@),
        collected_ranges(c0_, self.options@, *self.pool, $p6.extension_range@, k_ as int, $p2@, $p3, $p1@),
    decreases $p6.extension_range@.len() - k_,
//@@ in-loop 0
    let ghost (l0, o0) = (self.locations@, self.options@);
//@@ end-loop 0
    proof {
        let l1 = self.locations@;
        let path_ = $p1@ + seq![5i32, (k_ - 1) as i32, 3i32];
        assert(moved(l0, l1, $p3, path_));
        assert forall|j: int| old(self).locations@.len() <= j < l1.len() implies moves_in_message(#[trigger] l1[j], $p3, $p1@) by {
            if j >= l0.len() { assert(moves(l1[j], $p3, path_)); } else { assert(l1.take(l0.len() as int)[j] == l1[j]); assert(l1[j] == l0[j]); }
        }
        assert(l1.take(old(self).locations@.len() as int) =~= l0.take(old(self).locations@.len() as int));
        assert(collected(o0, self.options@, *self.pool, "google.protobuf.ExtensionRangeOptions"@, $p6.extension_range@[k_ - 1].options, $p2@, $p3, path_));
        one_more_range(c0_, o0, self.options@, *self.pool, $p6.extension_range@, k_ as int, $p2@, $p3, $p1@);
    }
//@@ spec
    requires file_ok(*old(self).pool, $p3), $p6.extension_range@.len() <= i32::MAX,
    ensures
        final(self).frame(old(self)), moved_in_message(old(self).locations@, final(self).locations@, $p3, $p1@),
        collected_message(old(self).options@, final(self).options@, *old(self).pool, *$p6, $p2@, $p3, $p1@),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/options.rs OptionsVisitor::visit_field
//@@ subst? & $o:e . value . uninterpreted_option ==>> uninterpreted(&$o.value)
//@@ spec
    requires file_ok(*old(self).pool, $p3),
    ensures final(self).frame(old(self)), moved(old(self).locations@, final(self).locations@, $p3, $p1@ + seq![8i32]), collected(old(self).options@, final(self).options@, *old(self).pool, "google.protobuf.FieldOptions"@, $p6.options, $p2@, $p3, $p1@ + seq![8i32]),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/options.rs OptionsVisitor::visit_oneof
//@@ subst? & $o:e . value . uninterpreted_option ==>> uninterpreted(&$o.value)
//@@ spec
    requires file_ok(*old(self).pool, $p3),
    ensures final(self).frame(old(self)), moved(old(self).locations@, final(self).locations@, $p3, $p1@ + seq![2i32]), collected(old(self).options@, final(self).options@, *old(self).pool, "google.protobuf.OneofOptions"@, $p6.options, $p2@, $p3, $p1@ + seq![2i32]),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/options.rs OptionsVisitor::visit_service
//@@ subst? & $o:e . value . uninterpreted_option ==>> uninterpreted(&$o.value)
//@@ spec
    requires file_ok(*old(self).pool, $p3),
    ensures final(self).frame(old(self)), moved(old(self).locations@, final(self).locations@, $p3, $p1@ + seq![3i32]), collected(old(self).options@, final(self).options@, *old(self).pool, "google.protobuf.ServiceOptions"@, $p5.options, $p2@, $p3, $p1@ + seq![3i32]),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/options.rs OptionsVisitor::visit_method
//@@ subst? & $o:e . value . uninterpreted_option ==>> uninterpreted(&$o.value)
//@@ spec
    requires file_ok(*old(self).pool, $p3),
    ensures final(self).frame(old(self)), moved(old(self).locations@, final(self).locations@, $p3, $p1@ + seq![4i32]), collected(old(self).options@, final(self).options@, *old(self).pool, "google.protobuf.MethodOptions"@, $p6.options, $p2@, $p3, $p1@ + seq![4i32]),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/options.rs OptionsVisitor::visit_enum
//@@ subst? & $o:e . value . uninterpreted_option ==>> uninterpreted(&$o.value)
//@@ spec
    requires file_ok(*old(self).pool, $p3),
    ensures final(self).frame(old(self)), moved(old(self).locations@, final(self).locations@, $p3, $p1@ + seq![3i32]), collected(old(self).options@, final(self).options@, *old(self).pool, "google.protobuf.EnumOptions"@, $p6.options, $p2@, $p3, $p1@ + seq![3i32]),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/options.rs OptionsVisitor::visit_enum_value
//@@ subst? & $o:e . value . uninterpreted_option ==>> uninterpreted(&$o.value)
//@@ spec
    requires file_ok(*old(self).pool, $p3),
    ensures final(self).frame(old(self)), moved(old(self).locations@, final(self).locations@, $p3, $p1@ + seq![3i32]), collected(old(self).options@, final(self).options@, *old(self).pool, "google.protobuf.EnumValueOptions"@, $p6.options, $p2@, $p3, $p1@ + seq![3i32]),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/options.rs OptionsVisitor::visit_extension
//@@ subst? & $o:e . value . uninterpreted_option ==>> uninterpreted(&$o.value)
//@@ spec
    requires file_ok(*old(self).pool, $p3),
    ensures final(self).frame(old(self)), moved(old(self).locations@, final(self).locations@, $p3, $p1@ + seq![8i32]), collected(old(self).options@, final(self).options@, *old(self).pool, "google.protobuf.FieldOptions"@, $p6.options, $p2@, $p3, $p1@ + seq![8i32]),
//@@ end
}
// ---- all options of the files that are added
/// Setting options moves nothing.
proof fn still_leads_in(m: DescriptorProto, p: Seq<i32>, n: DescriptorProto, enc: Seq<u8>, q: Seq<i32>)
    requires leads_in(m, p), set_in(m, p, n, enc), leads_in(m, q),
    ensures leads_in(n, q),
    decreases q.len()
{
    if q.len() > 2 && q[0] == 3 && 0 <= q[1] < m.nested_type@.len() && leads_in(m.nested_type@[q[1] as int], q.skip(2)) {
        if p[0] == 3 && p[1] == q[1] { still_leads_in(m.nested_type@[q[1] as int], p.skip(2), n.nested_type@[q[1] as int], enc, q.skip(2)); }
        else if p[0] == 3 { assert(n.nested_type@[q[1] as int] == m.nested_type@[q[1] as int]); }
    }
}
proof fn still_leads(f: FileDescriptorProto, p: Seq<i32>, g: FileDescriptorProto, enc: Seq<u8>, q: Seq<i32>)
    requires leads(f, p), set(f, p, g, enc), leads(f, q),
    ensures leads(g, q),
{
    if q.len() > 2 && q[0] == 4 {
        if p[0] == 4 && p[1] == q[1] { still_leads_in(f.message_type@[q[1] as int], p.skip(2), g.message_type@[q[1] as int], enc, q.skip(2)); }
    }
}
pub type OptionAt = (FileIndex, Vec<i32>, Vec<u8>);
/// One file has the options at one path replaced.
pub open spec fn set_one(a: Seq<FileDescriptorInner>, b: Seq<FileDescriptorInner>, o: OptionAt) -> bool {
    let i = o.0 as int;
    &&& i < a.len() && b.len() == a.len() && b =~= a.update(i, b[i]) && b[i] == (FileDescriptorInner { raw: b[i].raw, ..a[i] })
    &&& set(a[i].raw, o.1@, b[i].raw, o.2@)
}
pub open spec fn set_all(a: Seq<FileDescriptorInner>, b: Seq<FileDescriptorInner>, o: Seq<OptionAt>, n: int) -> bool
    decreases n
{ if n <= 0 { b =~= a } else { exists|c: Seq<FileDescriptorInner>| set_all(a, c, o, n - 1) && #[trigger] set_one(c, b, o[n - 1]) } }
#[verifier::spinoff_prover]
proof fn set_next(a: Seq<FileDescriptorInner>, c: Seq<FileDescriptorInner>, b: Seq<FileDescriptorInner>, o: Seq<OptionAt>, n: int)
    requires n > 0, set_all(a, c, o, n - 1), set_one(c, b, o[n - 1]), ensures set_all(a, b, o, n) { }
pub open spec fn leads_all(a: Seq<FileDescriptorInner>, o: Seq<OptionAt>) -> bool { forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).0 < a.len() && leads(a[o[i].0 as int].raw, o[i].1@) }
proof fn still_leads_all(a: Seq<FileDescriptorInner>, b: Seq<FileDescriptorInner>, o: Seq<OptionAt>, k: int)
    requires leads_all(a, o), 0 <= k < o.len(), set_one(a, b, o[k]), ensures leads_all(b, o)
{
    assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).0 < b.len() && leads(b[o[i].0 as int].raw, o[i].1@) by {
        if o[i].0 == o[k].0 { still_leads(a[o[k].0 as int].raw, o[k].1@, b[o[k].0 as int].raw, o[k].2@, o[i].1@); }
    }
}
// source locations: the paths, and everything else
pub uninterp spec fn paths(s: SourceCodeInfo) -> Seq<Seq<i32>>;
pub uninterp spec fn besides(s: SourceCodeInfo) -> int;
#[verifier::external_body]
fn locations_of(s: &SourceCodeInfo) -> (r: usize) ensures r == paths(*s).len() { unimplemented!() }
#[verifier::external_body]
fn location_at<'a>(s: &'a mut SourceCodeInfo, k: usize) -> (r: &'a mut Vec<i32>)
    requires k < paths(*old(s)).len(), ensures r@ == paths(*old(s))[k as int], paths(*final(s)) == paths(*old(s)).update(k as int, final(r)@), besides(*final(s)) == besides(*old(s)) { unimplemented!() }
#[verifier::external_body]
fn starts_with(p: &Vec<i32>, f: &Vec<i32>) -> (r: bool) ensures r == f@.is_prefix_of(p@) { unimplemented!() }
#[verifier::external_body]
fn splice_front(p: &mut Vec<i32>, n: usize, to: &Vec<i32>) requires n <= old(p)@.len() ensures final(p)@ == to@ + old(p)@.skip(n as int) { unimplemented!() }
pub open spec fn moved_path(p: Seq<i32>, from: Seq<i32>, to: Seq<i32>) -> Seq<i32> { if from.is_prefix_of(p) { to + p.skip(from.len() as int) } else { p } }
pub open spec fn info_moved(s: SourceCodeInfo, t: SourceCodeInfo, from: Seq<i32>, to: Seq<i32>) -> bool {
    besides(t) == besides(s) && paths(t).len() == paths(s).len() && forall|i: int| 0 <= i < paths(s).len() ==> #[trigger] paths(t)[i] == moved_path(paths(s)[i], from, to)
}
/// The locations of one option follow it.
pub open spec fn move_one(a: Seq<FileDescriptorInner>, b: Seq<FileDescriptorInner>, l: Location) -> bool {
    let i = l.0 as int;
    let (s, t) = (a[i].raw.source_code_info, b[i].raw.source_code_info);
    &&& i < a.len() && b.len() == a.len() && b =~= a.update(i, b[i])
    &&& b[i] == (FileDescriptorInner { raw: b[i].raw, ..a[i] }) && b[i].raw == (FileDescriptorProto { source_code_info: t, ..a[i].raw })
    &&& match (s, t) { (Some(s), Some(t)) => info_moved(s, t, l.1@, l.2@), (None, None) => true, _ => false }
}
pub open spec fn move_all(a: Seq<FileDescriptorInner>, b: Seq<FileDescriptorInner>, l: Seq<Location>, n: int) -> bool
    decreases n
{ if n <= 0 { b =~= a } else { exists|c: Seq<FileDescriptorInner>| move_all(a, c, l, n - 1) && #[trigger] move_one(c, b, l[n - 1]) } }
#[verifier::spinoff_prover]
proof fn move_next(a: Seq<FileDescriptorInner>, c: Seq<FileDescriptorInner>, b: Seq<FileDescriptorInner>, l: Seq<Location>, n: int)
    requires n > 0, move_all(a, c, l, n - 1), move_one(c, b, l[n - 1]), ensures move_all(a, b, l, n) { }
/// What the visits above (which leave the pool as it is) collect from all declarations of the files, in the order of visit.rs (traverse.rs); every path leads to options of its file.
pub uninterp spec fn walked(p: DescriptorPool, files: Seq<FileDescriptorProto>, o: Seq<OptionAt>, l: Seq<Location>) -> bool;
#[verifier::external_body] #[derive(Clone, Copy)] pub struct DescriptorPoolOffsets { x: u8 }
#[verifier::external_body]
fn visit_all(offsets: DescriptorPoolOffsets, files: &[FileDescriptorProto], pool: &DescriptorPool, errors: &mut Vec<DescriptorErrorKind>, options: &mut Vec<OptionAt>, locations: &mut Vec<Location>)
    ensures
        final(errors)@.len() == 0 ==> walked(*pool, files@, final(options)@, final(locations)@),
        leads_all(pool.inner.v.files@, final(options)@),
        forall|i: int| 0 <= i < final(locations)@.len() ==> (#[trigger] final(locations)@[i]).0 < pool.inner.v.files@.len() { unimplemented!() }
#[verifier::external_body] pub struct DescriptorError { x: u8 }
impl DescriptorError { #[verifier::external_body] fn new(e: Vec<DescriptorErrorKind>) -> DescriptorError { unimplemented!() } }
/// The options of all files are set, then their locations moved; nothing else changes.
pub open spec fn resolved(a: DescriptorPoolInner, b: DescriptorPoolInner, files: Seq<FileDescriptorProto>) -> bool {
    &&& b == (DescriptorPoolInner { files: b.files, ..a })
    &&& exists|o: Seq<OptionAt>, l: Seq<Location>, c: Seq<FileDescriptorInner>| #[trigger] walked(DescriptorPool { inner: Arc { v: a } }, files, o, l) && #[trigger] set_all(a.files@, c, o, o.len() as int) && move_all(c, b.files@, l, l.len() as int)
}
impl DescriptorPool {
#[verifier::loop_isolation(false)]
//@@ fn prost-reflect/src/descriptor/build/options.rs DescriptorPool::resolve_options
//@@ ret r
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? visit ( $o , $f , & mut visitor ) ==>> visit_all($o, $f, &*visitor.pool, &mut visitor.errors, &mut visitor.options, &mut visitor.locations)
//@@ subst? Arc :: get_mut ( & mut $p:e ) . unwrap ( ) ==>> &mut $p.v
//@@ subst for ( $f:id , $p:id , $e:id ) in visitor . options $b:b ==>> let list_ = visitor.options; let mut j_: usize = 0; while j_ < list_.len() { let $f = list_[j_].0; let $p = &list_[j_].1; let $e = &list_[j_].2; j_ += 1; $b }
//@@ subst for ( $f:id , $p:id , $e:id ) in visitor . locations $b:b ==>> let moves_ = visitor.locations; let mut j_: usize = 0; while j_ < moves_.len() { let $f = moves_[j_].0; let $p = &moves_[j_].1; let $e = &moves_[j_].2; j_ += 1; $b }
//@@ subst? set_file_option ( $f , & $p:id , & $e:id ) ==>> set_file_option($f, $p.as_slice(), $e.as_slice())
//@@ subst for $l:id in & mut $s:id . location $b:b ==>> { let mut k_: usize = 0; let n_ = locations_of($s); while k_ < n_ { let $l = location_at($s, k_); k_ += 1; $b } }
//@@ subst $l:id . path . starts_with ( & $f:id ) ==>> starts_with($l, $f)
//@@ subst $l:id . path . splice ( .. $n , $t:id . iter ( ) . copied ( ) ) ==>> splice_front($l, same($n), $t)
//@@ before let list_
    let ghost (opts, locs) = (visitor.options@, visitor.locations@);
    let ghost a0 = *inner;
//@@ loop 0
    invariant
        0 <= j_ <= opts.len(), list_@ == opts, *inner == (DescriptorPoolInner { files: inner.files, ..a0 }), inner.files@.len() == a0.files@.len(),
        set_all(a0.files@, inner.files@, opts, j_ as int), leads_all(inner.files@, opts),
    decreases opts.len() - j_,
//@@ in-loop 0
    let ghost c_ = inner.files@;
//@@ end-loop 0
    proof {
        assert(set_one(c_, inner.files@, opts[j_ - 1]));
        set_next(a0.files@, c_, inner.files@, opts, j_ as int);
        still_leads_all(c_, inner.files@, opts, j_ - 1);
    }
//@@ after-loop 0
    let ghost m0 = inner.files@;
//@@ loop 1
    invariant
        0 <= j_ <= locs.len(), moves_@ == locs, *inner == (DescriptorPoolInner { files: inner.files, ..a0 }), inner.files@.len() == a0.files@.len(),
        move_all(m0, inner.files@, locs, j_ as int),
    decreases locs.len() - j_,
//@@ in-loop 1
    let ghost c_ = inner.files@;
//@@ end-loop 1
    proof {
        assert(move_one(c_, inner.files@, locs[j_ - 1]));
        move_next(m0, c_, inner.files@, locs, j_ as int);
    }
//@@ before let mut k_
    let ghost s0 = *source_code_info;
//@@ loop 2
    invariant
        0 <= k_ <= n_ == paths(s0).len(), paths(*source_code_info).len() == n_, besides(*source_code_info) == besides(s0),
        forall|i: int| 0 <= i < k_ ==> #[trigger] paths(*source_code_info)[i] == moved_path(paths(s0)[i], from@, to@),
        forall|i: int| k_ <= i < n_ ==> #[trigger] paths(*source_code_info)[i] == paths(s0)[i],
    decreases n_ - k_,
//@@ spec
    ensures
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> resolved(old(self).inner.v, final(self).inner.v, $p2@),
//@@ end
}
// ---- encoding a pool: every file as the source gives it, with its options as kept
/// assumed of prost: the record of a file (the derived encoding; for options `Options::encode_raw`, proved in convert.rs) and its length
pub uninterp spec fn file_body(f: FileDescriptorProto) -> Seq<u8>;
pub uninterp spec fn s_key(tag: u32) -> Seq<u8>;
pub uninterp spec fn s_varint(n: u64) -> Seq<u8>;
pub open spec fn record(tag: u32, f: FileDescriptorProto) -> Seq<u8> { s_key(tag) + s_varint(file_body(f).len() as u64) + file_body(f) }
pub open spec fn records(f: Seq<FileDescriptorInner>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::<u8>::empty() } else { records(f, n - 1) + record(1, f[n - 1].raw) } }
pub mod encoding { use super::*;
    pub mod message { use super::super::*;
        #[verifier::external_body]
        pub fn encode(tag: u32, f: &FileDescriptorProto, buf: &mut Vec<u8>) ensures final(buf)@ == old(buf)@ + record(tag, *f) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn key_len(tag: u32) -> (r: usize) ensures r == s_key(tag).len() { unimplemented!() }
}
#[verifier::external_body]
fn encoded_len_varint(n: u64) -> (r: usize) ensures r == s_varint(n).len() { unimplemented!() }
#[verifier::external_body]
fn body_len(f: &FileDescriptorProto) -> (r: usize) ensures r == file_body(*f).len() { unimplemented!() }
proof fn records_grow(f: Seq<FileDescriptorInner>, i: int, n: int) requires 0 <= i <= n ensures records(f, i).len() <= records(f, n).len() decreases n - i { if i < n { records_grow(f, i, n - 1); } }
//@@ item prost-reflect/src/descriptor/tag.rs mod file_descriptor_set
pub mod tags { pub mod tag { pub use super::super::file_descriptor_set; }
use super::*;
pub struct FileSet<'a> { pub files: &'a [FileDescriptorInner] }
impl FileSet<'_> {
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::encode::encode_raw
//@@ sig fn encode_raw(&self, buf: &mut Vec<u8>)
//@@ subst for $f:id in self . files $b:b ==>> { let mut k_: usize = 0; while k_ < self.files.len() { let $f = &self.files[k_]; k_ += 1; $b } }
//@@ loop 0
    invariant 0 <= k_ <= self.files@.len(), $p1@ == old($p1)@ + records(self.files@, k_ as int),
    decreases self.files@.len() - k_,
//@@ end-loop 0
    proof { assert($p1@ =~= old($p1)@ + records(self.files@, k_ as int)); }
//@@ start
    proof { assert(old($p1)@ =~= old($p1)@ + records(self.files@, 0)); }
//@@ spec
    ensures final($p1)@ == old($p1)@ + records(self.files@, self.files@.len() as int),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::encode::encoded_len
//@@ ret r
//@@ subst? encoding :: key_len ( $t ) * self . files . len ( ) ==>> times(encoding::key_len($t), self.files.len())
//@@ subst self . files . iter ( ) . map ( | $f:id | & $f:id . raw ) . map ( Message :: encoded_len ) . map ( | $l:id | $e ) . sum :: < usize > ( ) ==>> { let mut s_: usize = 0; let mut k_: usize = 0; while k_ < self.files.len() { let $l = body_len(&self.files[k_].raw); s_ = s_ + ($e); k_ += 1; } s_ }
//@@ loop 0
    invariant
        0 <= k_ <= self.files@.len(), records(self.files@, self.files@.len() as int).len() <= usize::MAX,
        s_ + s_key(1).len() * k_ == records(self.files@, k_ as int).len(),
    decreases self.files@.len() - k_,
//@@ in-loop 0
    proof {
        records_grow(self.files@, k_ + 1, self.files@.len() as int);
        assert(s_key(1).len() * (k_ + 1) == s_key(1).len() * k_ + s_key(1).len()) by (nonlinear_arith);
        assert(s_key(1).len() * k_ >= 0) by (nonlinear_arith);
    }
//@@ spec
    requires records(self.files@, self.files@.len() as int).len() <= usize::MAX,
    ensures r == records(self.files@, self.files@.len() as int).len(),
//@@ start
    proof { keys_fit(self.files@, self.files@.len() as int); }
//@@ end
}
proof fn keys_fit(f: Seq<FileDescriptorInner>, n: int) requires n >= 0 ensures s_key(1).len() * n <= records(f, n).len() decreases n {
    if n > 0 { keys_fit(f, n - 1); assert(s_key(1).len() * n == s_key(1).len() * (n - 1) + s_key(1).len()) by (nonlinear_arith); }
}
fn times(a: usize, b: usize) -> (r: usize) requires a * b <= usize::MAX ensures r == a * b { a * b }
}
} // verus!
fn main() {}
