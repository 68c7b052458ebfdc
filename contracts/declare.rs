//@@ props P09 P08
//@@ include head.rs
use vstd::string::*;
use vstd::utf8::*;
//@@ include chars.rs
//@@ include names.rs
#[verifier::external_body]
pub struct Value { x: u8 }
#[verifier::external_body]
fn unreached<A>() -> A requires false { unimplemented!() }
//@@ include btree.rs
//@@ include pool.rs
//@@ include errors.rs
//@@ include identity.rs
//@@ include prefix.rs
//@@ include tag.rs
broadcast use group_utf8_lib;
pub mod hash_map { use super::*;
pub enum Entry<'a, V> { Occupied(OccupiedEntry<'a, V>), Vacant(VacantEntry<'a, V>) }
}
impl<'a, V> OccupiedEntry<'a, V> { fn get(&self) -> (r: &V) ensures *r == *old(self.v) { &*self.v } }
impl<V> NameMap<V> {
    #[verifier::external_body]
    fn slot(&mut self, k: String) -> (r: &mut Option<V>)
        ensures *r == opt_get(old(self)@, k@), final(self)@ == opt_put(old(self)@, k@, *final(r)) { unimplemented!() }
    fn entry(&mut self, k: String) -> (r: hash_map::Entry<'_, V>)
        ensures match r {
            hash_map::Entry::Occupied(e) => opt_get(old(self)@, k@) == Some(*e.v) && final(self)@ == old(self)@.insert(k@, *final(e.v)),
            hash_map::Entry::Vacant(e) => opt_get(old(self)@, k@) is None && *e.slot is None && final(self)@ == opt_put(old(self)@, k@, *final(e.slot)),
        }
    {
        let s = self.slot(k);
        match s { Some(v) => hash_map::Entry::Occupied(OccupiedEntry { v }), None => hash_map::Entry::Vacant(VacantEntry { slot: s }) }
    }
    #[verifier::external_body]
    fn at(&self, k: &str) -> (r: &V) requires self@.contains_key(k@) ensures *r == self@[k@] { unimplemented!() }
}
impl<K, V> BTreeMap<K, V> { #[verifier::external_body] fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() } }
//@@ item prost-reflect/src/descriptor/build/names.rs struct NameVisitor
// ---- specification
pub type Defs = Map<Seq<char>, Definition>;
pub open spec fn grows<T>(a: Seq<T>, b: Seq<T>) -> bool { b.len() > a.len() }
pub open spec fn more(a: NameVisitor, b: NameVisitor, e: bool) -> bool { a.errors@.is_prefix_of(b.errors@) && (grows(a.errors@, b.errors@) <==> e) }
/// P09: a name is declared twice, unless both are packages.
pub open spec fn conflict(names: Defs, n: Seq<char>, k: DefinitionKind) -> bool { names.contains_key(n) && !(k is Package && names[n].kind is Package) }
/// The first definition of a name stays.
pub open spec fn declared(a: Defs, b: Defs, n: Seq<char>, file: u32, k: DefinitionKind) -> bool {
    if a.contains_key(n) { b == a } else { b == a.insert(n, b[n]) && b[n].kind == k && b[n].file == file }
}
pub open spec fn placed(names: Defs, files: int) -> bool { forall|n: Seq<char>| #![trigger names[n]] names.contains_key(n) ==> names[n].file < files }
pub open spec fn ready(v: NameVisitor, file: u32) -> bool { file < v.pool.files@.len() && placed(v.pool.names@, v.pool.files@.len() as int) }
/// What each table holds besides the names.
pub open spec fn same_but_names(a: DescriptorPoolInner, b: DescriptorPoolInner) -> bool { b == (DescriptorPoolInner { names: b.names, ..a }) }
#[verifier::external_body]
fn files_of(v: &Vec<FileDescriptorInner>) -> (r: &Vec<FileDescriptorInner>) ensures r@ == v@ { unimplemented!() }
/// Lower case, underscores left out.
pub open spec fn folded(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else if s.last() == '_' { folded(s.drop_last()) } else { folded(s.drop_last()).push(to_lower(s.last())) }
}
pub open spec fn field_name(m: DescriptorProto, i: int) -> Seq<char> { text_or_empty(m.field@[i].name) }
pub open spec fn clash(m: DescriptorProto, i: int, j: int) -> bool { folded(field_name(m, i)) == folded(field_name(m, j)) }
pub open spec fn clashes(m: DescriptorProto, n: int) -> bool { exists|i: int, j: int| 0 <= i < j < n && #[trigger] clash(m, i, j) }
#[verifier::external_body]
fn chars_of(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
/// the same message, with `fields` counted as i32 (no message has 2^31 fields)
pub open spec fn countable(m: DescriptorProto) -> bool { m.field@.len() <= i32::MAX }
#[verifier::external_body]
fn allows_alias(o: &Option<Options<EnumOptions>>) -> bool { unimplemented!() }
#[verifier::external_body]
fn text_of(v: &Option<String>) -> (r: Option<&str>) ensures match r { Some(s) => *v is Some && v->0@ == s@, None => *v is None } { unimplemented!() }
pub open spec fn syntax_known(f: FileDescriptorProto) -> bool { f.syntax is None || f.syntax->0@ == "proto2"@ || f.syntax->0@ == "proto3"@ }
pub open spec fn syntax_of(f: FileDescriptorProto) -> Syntax { if f.syntax is Some && f.syntax->0@ == "proto3"@ { Syntax::Proto3 } else { Syntax::Proto2 } }
pub open spec fn package(f: FileDescriptorProto) -> Seq<char> { text_or_empty(f.package) }
/// The package and the packages around it.
pub open spec fn packages(p: Seq<char>) -> Seq<Seq<char>> { if p.len() == 0 { seq![] } else { outer(p, p.len() as int).reverse().push(p) } }
pub open spec fn packages_declared(a: Defs, b: Defs, ps: Seq<Seq<char>>, n: int, file: u32) -> bool {
    &&& forall|k: Seq<char>| #[trigger] a.contains_key(k) ==> b.contains_key(k) && b[k] == a[k]
    &&& forall|k: Seq<char>| #[trigger] b.contains_key(k) && !a.contains_key(k) ==> b[k].kind is Package && b[k].file == file && exists|i: int| 0 <= i < n && #[trigger] ps[i] == k
    &&& forall|i: int| 0 <= i < n ==> b.contains_key(#[trigger] ps[i])
}
pub open spec fn package_conflict(a: Defs, ps: Seq<Seq<char>>, n: int) -> bool { exists|i: int| 0 <= i < n && conflict(a, #[trigger] ps[i], DefinitionKind::Package) }
impl FileDescriptorProto { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl ProstFile { #[verifier::external_body] fn empty() -> Self { unimplemented!() } }
// ---- the code
//@@ fn prost-reflect/src/descriptor/build/names.rs to_lower_without_underscores
//@@ ret r
//@@ subst $n:id . chars ( ) . filter_map ( | $c:id | $b ) . collect ( ) ==>> { let cs_ = chars_of($n); let mut out_ = String::new(); let mut k_: usize = 0; while k_ < cs_.len() { let $c = cs_[k_]; k_ += 1; let kept_ = $b; match kept_ { Some(c) => out_.push(c), None => {} } } out_ }
//@@ loop 0
    invariant k_ <= cs_.len(), cs_@ == $p0@, out_@ == folded(cs_@.take(k_ as int)),
    decreases cs_.len() - k_,
//@@ end-loop 0
    proof { assert(cs_@.take(k_ as int).drop_last() =~= cs_@.take(k_ - 1)); }
//@@ spec
    ensures r@ == folded($p0@),
//@@ start
    proof { assert($p0@.take($p0@.len() as int) =~= $p0@); reveal_strlit(""); }
//@@ end
impl NameVisitor<'_> {
//@@ fn prost-reflect/src/descriptor/build/names.rs NameVisitor::add_name
//@@ subst? entry ( name . into ( ) ) ==>> entry(owned(name))
//@@ subst? name . to_owned ( ) ==>> owned(name)
//@@ subst? self . pool . names [ name ] ==>> *self.pool.names.at(name)
//@@ subst? hash_map :: Entry :: Occupied ( _ ) ==>> hash_map::Entry::Occupied(e_)
//@@ before? let entry = $x ;
    proof { let n = $p2@; assert(old(self).pool.names@.insert(n, old(self).pool.names@[n]) =~= old(self).pool.names@); assert(self.pool.names@ == old(self).pool.names@); }
//@@ spec
    requires ready(*old(self), $p1), 
    ensures
        declared(old(self).pool.names@, final(self).pool.names@, $p2@, $p1, $p5), same_but_names(*old(self).pool, *final(self).pool),
        more(*old(self), *final(self), conflict(old(self).pool.names@, $p2@, $p5)),
        ready(*final(self), $p1),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/names.rs NameVisitor::check_message_field_camel_case_names
//@@ subst HashMap < String , ( & str , i32 ) > = HashMap :: new ( ) ==>> NameMap<(&str, i32)> = NameMap::empty()
//@@ subst for ( $i:id , $f:id ) in $e:e . iter ( ) . enumerate ( ) $b:b ==>> { let mut k_: usize = 0; while k_ < $e.len() { let $i = k_; let $f = &$e[k_]; k_ += 1; $b } }
//@@ spec
    requires ready(*old(self), $p1), countable(*$p3),
    ensures
        *final(self).pool == *old(self).pool,
        // P09: unique field names, ignoring case and underscores
        more(*old(self), *final(self), clashes(*$p3, $p3.field@.len() as int)),
//@@ loop 0
    invariant
        0 <= k_ <= $p3.field@.len(), countable(*$p3), ready(*old(self), $p1), *self.pool == *old(self).pool,
        forall|s: Seq<char>| #[trigger] names@.contains_key(s) ==> exists|i: int| 0 <= i < k_ && #[trigger] folded(field_name(*$p3, i)) == s,
        forall|i: int| 0 <= i < k_ ==> names@.contains_key(#[trigger] folded(field_name(*$p3, i))),
        more(*old(self), *self, clashes(*$p3, k_ as int)),
    decreases $p3.field@.len() - k_,
//@@ in-loop 0
    let ghost i0 = k_ as int;
    let ghost before = names@;
//@@ end-loop 0
    proof {
        let s = folded(field_name(*$p3, i0));
        if before.contains_key(s) {
            let i = choose|i: int| 0 <= i < i0 && #[trigger] folded(field_name(*$p3, i)) == s;
            assert(clash(*$p3, i, i0));
        }
        if clashes(*$p3, k_ as int) && !clashes(*$p3, i0) {
            let (i, j) = choose|i: int, j: int| 0 <= i < j < k_ && #[trigger] clash(*$p3, i, j);
            assert(j == i0);
            assert(before.contains_key(folded(field_name(*$p3, i))));
        }
    }
//@@ end
//@@ fn prost-reflect/src/descriptor/build/names.rs Visitor for NameVisitor::visit_field
//@@ sig fn visit_field(&mut self, path: &[i32], full_name: &str, file: FileIndex, message: MessageIndex, field_index: FieldIndex, field: &FieldDescriptorProto)
//@@ spec
    requires ready(*old(self), $p3),
    ensures
        declared(old(self).pool.names@, final(self).pool.names@, $p2@, $p3, DefinitionKind::Field($p4)), same_but_names(*old(self).pool, *final(self).pool),
        more(*old(self), *final(self), old(self).pool.names@.contains_key($p2@)), ready(*final(self), $p3),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/names.rs Visitor for NameVisitor::visit_service
//@@ sig fn visit_service(&mut self, path: &[i32], full_name: &str, file: FileIndex, index: ServiceIndex, service: &ServiceDescriptorProto)
//@@ spec
    requires ready(*old(self), $p3),
    ensures
        declared(old(self).pool.names@, final(self).pool.names@, $p2@, $p3, DefinitionKind::Service($p4)), same_but_names(*old(self).pool, *final(self).pool),
        more(*old(self), *final(self), old(self).pool.names@.contains_key($p2@)), ready(*final(self), $p3),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/names.rs Visitor for NameVisitor::visit_method
//@@ sig fn visit_method(&mut self, path: &[i32], full_name: &str, file: FileIndex, service: ServiceIndex, index: MethodIndex, method: &MethodDescriptorProto)
//@@ spec
    requires ready(*old(self), $p3),
    ensures
        declared(old(self).pool.names@, final(self).pool.names@, $p2@, $p3, DefinitionKind::Method($p4)), same_but_names(*old(self).pool, *final(self).pool),
        more(*old(self), *final(self), old(self).pool.names@.contains_key($p2@)), ready(*final(self), $p3),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/names.rs Visitor for NameVisitor::visit_extension
//@@ sig fn visit_extension(&mut self, path: &[i32], full_name: &str, file: FileIndex, parent: Option<MessageIndex>, index: ExtensionIndex, extension: &FieldDescriptorProto)
//@@ spec
    requires ready(*old(self), $p3),
    ensures
        declared(old(self).pool.names@, final(self).pool.names@, $p2@, $p3, DefinitionKind::Extension($p5)), same_but_names(*old(self).pool, *final(self).pool),
        more(*old(self), *final(self), old(self).pool.names@.contains_key($p2@)), ready(*final(self), $p3),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/names.rs Visitor for NameVisitor::visit_oneof
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ spec
    requires ready(*old(self), $p3), $p4 < old(self).pool.messages@.len(), tail_of($p2@, text_or_empty($p6.name)),
    ensures
        declared(old(self).pool.names@, final(self).pool.names@, $p2@, $p3, DefinitionKind::Oneof($p4)),
        ({
            let m = old(self).pool.messages@[$p4 as int]; let n = final(self).pool.messages@[$p4 as int];
            &&& *final(self).pool == (DescriptorPoolInner { names: final(self).pool.names, messages: final(self).pool.messages, ..*old(self).pool })
            &&& final(self).pool.messages@ == old(self).pool.messages@.update($p4 as int, n)
            &&& n == (MessageDescriptorInner { oneofs: n.oneofs, ..m })
            &&& n.oneofs@ == m.oneofs@.push(n.oneofs@.last()) && n.oneofs@.last().fields@.len() == 0 && n.oneofs@.last().id.full_name@ == $p2@
        }),
        more(*old(self), *final(self), old(self).pool.names@.contains_key($p2@)), ready(*final(self), $p3),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/names.rs Visitor for NameVisitor::visit_enum_value
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ spec
    requires ready(*old(self), $p3), $p4 < old(self).pool.enums@.len(), tail_of($p2@, text_or_empty($p6.name)),
    ensures
        declared(old(self).pool.names@, final(self).pool.names@, $p2@, $p3, DefinitionKind::EnumValue($p4)),
        ({
            let m = old(self).pool.enums@[$p4 as int]; let n = final(self).pool.enums@[$p4 as int];
            &&& *final(self).pool == (DescriptorPoolInner { names: final(self).pool.names, enums: final(self).pool.enums, ..*old(self).pool })
            &&& final(self).pool.enums@ == old(self).pool.enums@.update($p4 as int, n)
            &&& n == (EnumDescriptorInner { values: n.values, ..m })
            &&& n.values@ == m.values@.push(n.values@.last()) && n.values@.last().number == int_or_zero($p6.number) && n.values@.last().id.full_name@ == $p2@
        }),
        more(*old(self), *final(self), old(self).pool.names@.contains_key($p2@)), ready(*final(self), $p3),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/names.rs Visitor for NameVisitor::visit_enum
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? path . into ( ) ==>> owned_path(path)
//@@ subst enum_ . options . as_ref ( ) . is_some_and ( $x ) ==>> allows_alias(&enum_.options)
//@@ subst? HashMap :: with_capacity ( $x ) ==>> NameMap::empty()
//@@ spec
    requires ready(*old(self), $p3), tail_of($p2@, text_or_empty($p6.name)),
    ensures
        declared(old(self).pool.names@, final(self).pool.names@, $p2@, $p3, DefinitionKind::Enum($p5)),
        ({
            let e = final(self).pool.enums@.last();
            &&& *final(self).pool == (DescriptorPoolInner { names: final(self).pool.names, enums: final(self).pool.enums, ..*old(self).pool })
            &&& final(self).pool.enums@ == old(self).pool.enums@.push(e)
            &&& e.id.full_name@ == $p2@ && e.id.file == $p3 && e.parent == $p4
            &&& e.values@.len() == 0 && e.value_numbers@.len() == 0 && e.value_names@ == Map::<Seq<char>, u32>::empty()
        }),
        // P09: an enum has values, and outside proto2 the first is zero
        more(*old(self), *final(self), old(self).pool.names@.contains_key($p2@) || $p6.value@.len() == 0
            || (old(self).pool.files@[$p3 as int].syntax != Syntax::Proto2 && int_or_zero($p6.value@[0].number) != 0)),
        ready(*final(self), $p3),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/names.rs Visitor for NameVisitor::visit_message
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? HashMap :: with_capacity ( $x ) ==>> NameMap::empty()
//@@ spec
    requires ready(*old(self), $p3), tail_of($p2@, text_or_empty($p6.name)), countable(*$p6),
    ensures
        declared(old(self).pool.names@, final(self).pool.names@, $p2@, $p3, DefinitionKind::Message($p5)),
        ({
            let m = final(self).pool.messages@.last();
            &&& *final(self).pool == (DescriptorPoolInner { names: final(self).pool.names, messages: final(self).pool.messages, ..*old(self).pool })
            &&& final(self).pool.messages@ == old(self).pool.messages@.push(m)
            &&& m.id.full_name@ == $p2@ && m.id.file == $p3 && m.id.path@ == $p1@ && m.parent == $p4
            &&& m.fields@.len() == 0 && m.oneofs@.len() == 0 && m.extensions@.len() == 0 && m.field_numbers@ == Map::<u32, u32>::empty()
            &&& m.field_names@ == Map::<Seq<char>, u32>::empty() && m.field_json_names@ == Map::<Seq<char>, u32>::empty()
        }),
        more(*old(self), *final(self), old(self).pool.names@.contains_key($p2@) || (old(self).pool.files@[$p3 as int].syntax != Syntax::Proto2 && clashes(*$p6, $p6.field@.len() as int))),
        ready(*final(self), $p3),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/names.rs Visitor for NameVisitor::visit_file
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst match file . syntax . as_deref ( ) { None | Some ( $l1:tt ) => $a , Some ( $l2:tt ) => $b , Some ( $s:id ) => $c , } ==>> match text_of(&file.syntax) { None => $a, Some($s) => if same_text($s, $l1) { $a } else if same_text($s, $l2) { $b } else { $c } }
//@@ subst? $f:id . name ( ) . into ( ) ==>> owned($f.name())
//@@ subst? $s:e . to_owned ( ) ==>> owned($s)
//@@ subst? Default :: default ( ) ==>> ProstFile::empty()
//@@ subst? HashSet :: default ( ) ==>> IndexSet::empty()
//@@ subst for ( $i:id , _ ) in $e . match_indices ( '.' ) $b:b ==>> { let v_ = dots_from_left($e); let mut k_: usize = 0; while k_ < v_.len() { let $i = v_[k_].0; k_ += 1; $b } }
//@@ subst? & $e:e [ .. $i:id ] ==>> prefix($e, $i)
//@@ spec
    requires placed(old(self).pool.names@, old(self).pool.files@.len() as int), $p2 == old(self).pool.files@.len(),
    ensures
        ({
            let f = final(self).pool.files@.last();
            &&& *final(self).pool == (DescriptorPoolInner { names: final(self).pool.names, files: final(self).pool.files, file_names: final(self).pool.file_names, ..*old(self).pool })
            &&& final(self).pool.files@ == old(self).pool.files@.push(f)
            &&& final(self).pool.file_names@ == old(self).pool.file_names@.insert(text_or_empty($p3.name), $p2)
            &&& f.raw == *$p3 && f.syntax == syntax_of(*$p3) && f.dependencies@.len() == 0
        }),
        packages_declared(old(self).pool.names@, final(self).pool.names@, packages(package(*$p3)), packages(package(*$p3)).len() as int, $p2),
        // P09: file names are unique, the syntax is known, and no package is named like something else
        more(*old(self), *final(self), old(self).pool.file_names@.contains_key(text_or_empty($p3.name)) || !syntax_known(*$p3)
            || package_conflict(old(self).pool.names@, packages(package(*$p3)), packages(package(*$p3)).len() as int)),
        ready(*final(self), $p2),
//@@ before? if ! file . package ( ) . is_empty ( ) $b
    let ghost mid = *self;
    let ghost bad = old(self).pool.file_names@.contains_key(text_or_empty($p3.name)) || !syntax_known(*$p3);
    let ghost ps = packages(package(*$p3));
    let ghost v_len = ps.len() - 1;
    proof { reveal_strlit("proto2"); reveal_strlit("proto3"); assert("proto2"@[5] != "proto3"@[5]);
        assert(mid.pool.files@.last().syntax == syntax_of(*$p3));
        assert(more(*old(self), mid, bad));
        assert(*mid.pool == (DescriptorPoolInner { names: old(self).pool.names, files: mid.pool.files, file_names: mid.pool.file_names, ..*old(self).pool }));
        assert(mid.pool.files@ == old(self).pool.files@.push(mid.pool.files@.last()));
    }
//@@ loop 0
    invariant
        k_ <= v_@.len(), v_@.len() == outer(package(*$p3), package(*$p3).len() as int).len(), ps == packages(package(*$p3)), package(*$p3).len() > 0, ps.len() == v_@.len() + 1,
        forall|k: int| 0 <= k < v_@.len() ==> is_prefix_bytes(package(*$p3), (#[trigger] v_@[k]).0 as int, ps[k]),
        same_but_names(*mid.pool, *self.pool), ready(*self, $p2),
        packages_declared(old(self).pool.names@, self.pool.names@, ps, k_ as int, $p2),
        more(*old(self), *self, bad || package_conflict(old(self).pool.names@, ps, k_ as int)),
    decreases v_@.len() - k_,
//@@ in-loop 0
    let ghost b0 = *self;
    let ghost i0 = k_ as int;
    proof { assert(is_prefix_bytes(package(*$p3), v_@[i0].0 as int, ps[i0])); }
//@@ end-loop 0
    proof { package_step(old(self).pool.names@, b0.pool.names@, self.pool.names@, ps, i0, $p2); }
//@@ before? self . add_name ( index , file . package ( ) , $x ) ;
    let ghost b1 = *self;
    proof { assert(same_but_names(*mid.pool, *b1.pool)); }
//@@ after? self . add_name ( index , file . package ( ) , $x ) ;
    proof { package_step(old(self).pool.names@, b1.pool.names@, self.pool.names@, ps, v_len, $p2); assert(same_but_names(*mid.pool, *self.pool));
        assert(self.pool.files == mid.pool.files && self.pool.file_names == mid.pool.file_names);
        assert(*self.pool == (DescriptorPoolInner { names: self.pool.names, files: self.pool.files, file_names: self.pool.file_names, ..*old(self).pool })); }
//@@ end
}
proof fn package_step(a: Defs, b: Defs, c: Defs, ps: Seq<Seq<char>>, n: int, file: u32)
    requires packages_declared(a, b, ps, n, file), 0 <= n < ps.len(), declared(b, c, ps[n], file, DefinitionKind::Package),
    ensures
        packages_declared(a, c, ps, n + 1, file),
        package_conflict(a, ps, n + 1) == (package_conflict(a, ps, n) || conflict(b, ps[n], DefinitionKind::Package)),
{
    assert forall|k: Seq<char>| #[trigger] c.contains_key(k) && !a.contains_key(k) implies c[k].kind is Package && c[k].file == file && exists|i: int| 0 <= i < n + 1 && #[trigger] ps[i] == k by {
        if b.contains_key(k) { let i = choose|i: int| 0 <= i < n && #[trigger] ps[i] == k; assert(ps[i] == k); } else { assert(ps[n] == k); }
    }
    assert forall|i: int| 0 <= i < n + 1 implies c.contains_key(#[trigger] ps[i]) by { if i < n { assert(b.contains_key(ps[i])); } }
}
// ---- P08: taking a failed addition back
//@@ include update.rs
// ---- retain and any (assumed contracts of std)
impl<V> NameMap<V> {
    #[verifier::external_body]
    fn retain<F: Fn(&String, &V) -> bool>(&mut self, f: F)
        requires forall|k: &String, v: &V| old(self)@.contains_key(k@) ==> #[trigger] call_requires(f, (k, v)),
        ensures
            forall|n: Seq<char>| #[trigger] final(self)@.contains_key(n) ==> old(self)@.contains_key(n) && final(self)@[n] == old(self)@[n] && exists|k: &String| k@ == n && #[trigger] call_ensures(f, (k, &old(self)@[n]), true),
            forall|n: Seq<char>| #[trigger] old(self)@.contains_key(n) && !final(self)@.contains_key(n) ==> exists|k: &String| k@ == n && #[trigger] call_ensures(f, (k, &old(self)@[n]), false),
    { unimplemented!() }
}
#[verifier::external_body]
fn retain_in<F: Fn(u32) -> bool>(v: &mut Vec<u32>, f: F)
    requires forall|x: u32| #[trigger] call_requires(f, (x,)),
    ensures exists|keep: spec_fn(u32) -> bool| (forall|x: u32| old(v)@.contains(x) ==> call_ensures(f, (x,), #[trigger] keep(x))) && final(v)@ == old(v)@.filter(keep) { unimplemented!() }
#[verifier::external_body]
fn any_of<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool)
    requires forall|x: &T| #[trigger] call_requires(f, (x,)),
    ensures
        r ==> exists|i: int| 0 <= i < v@.len() && call_ensures(f, (&#[trigger] v@[i],), true),
        !r ==> forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (&#[trigger] v@[i],), false) { unimplemented!() }
#[verifier::external_body]
fn starts_with(s: &str, t: &str) -> (r: bool) ensures r == t@.is_prefix_of(s@) { unimplemented!() }
#[verifier::external_body]
fn byte_at(s: &str, i: usize) -> (r: Option<u8>)
    ensures match r { Some(b) => i < encode_utf8(s@).len() && b == encode_utf8(s@)[i as int], None => i >= encode_utf8(s@).len() } { unimplemented!() }
fn to_index(i: usize) -> (r: u32) requires i <= u32::MAX ensures r == i { i as u32 }
//@@ include dots.rs
proof fn filter_same(v: Seq<u32>, p: spec_fn(u32) -> bool, q: spec_fn(u32) -> bool)
    requires forall|x: u32| v.contains(x) ==> p(x) == q(x),
    ensures v.filter(p) == v.filter(q),
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 {
        assert(v.contains(v.last()));
        assert forall|x: u32| v.drop_last().contains(x) implies p(x) == q(x) by { let i = choose|i: int| 0 <= i < v.len() - 1 && v.drop_last()[i] == x; assert(v[i] == x); assert(v.contains(x)); }
        filter_same(v.drop_last(), p, q);
    }
}
impl DescriptorPoolOffsets {
//@@ fn prost-reflect/src/descriptor/build/mod.rs DescriptorPoolOffsets::new
//@@ ret r
//@@ spec
    requires small(*$p0),
    ensures sizes(r, *$p0),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/mod.rs DescriptorPoolOffsets::rollback
//@@ sig fn rollback(&self, pool: &mut DescriptorPoolInner, Ghost(base): Ghost<DescriptorPoolInner>)
//@@ subst pool . names . retain ( | $n:id , $d:id | $b ) ; ==>> { let files_ = &pool.files; pool.names.retain(|$n: &String, $d: &Definition| -> (r: bool) ensures r == stays(*self, files_@, $n@, $d.kind) { $b }); }
//@@ subst pool . files . iter ( ) . any ( | $f:id | { $b } ) ==>> any_of(files_, |$f: &FileDescriptorInner| -> (r: bool) ensures r == opens(prost_package($f.prost), name@) { proof { if name@.is_prefix_of(prost_package($f.prost)) { byte_after(prost_package($f.prost), name@); } } $b })
//@@ subst $p:e . starts_with ( $n:id . as_ref ( ) ) && ==>> starts_with($p, $n.as_str()) &&
//@@ subst $p:e . as_bytes ( ) . get ( $n:id . len ( ) ) ==>> byte_at($p, byte_len($n.as_str()))
//@@ subst? Some ( & b'.' ) ==>> Some(0x2eu8)
//@@ subst pool . file_names . retain ( | _ , & mut $f:id | $b ) ; ==>> pool.file_names.retain(|_k: &String, f_: &u32| -> (r: bool) ensures r == (*f_ < self.file) { let $f = *f_; $b });
//@@ subst for $m:id in & mut pool . messages { $x . extensions . retain ( | & $e:id | $b ) ; } ==>> { let mut k_: usize = 0; while k_ < pool.messages.len() { let $m = &mut pool.messages[k_]; retain_in(&mut $x.extensions, |$e: u32| -> (r: bool) ensures r == ($e < self.extension) { $b }); k_ += 1; } }
//@@ loop 0
    invariant
        0 <= k_ <= pool.messages@.len(), settled(*self, base), pool.messages@.len() == base.messages@.len(),
        forall|i: int| k_ <= i < base.messages@.len() ==> extended(*self, base.messages@[i], #[trigger] pool.messages@[i]),
        forall|i: int| 0 <= i < k_ ==> same_message(base.messages@[i], #[trigger] pool.messages@[i]),
        pool.files@ == base.files@ && pool.enums@ == base.enums@ && pool.services@ == base.services@ && pool.extensions@ == base.extensions@,
        pool.names@ == base.names@ && pool.file_names@ == base.file_names@,
    decreases pool.messages@.len() - k_,
//@@ in-loop 0
    let ghost m0 = pool.messages@[k_ as int];
    let ghost all0 = pool.messages@;
//@@ end-loop 0
    proof {
        let i = k_ - 1;
        let now = pool.messages@[i].extensions@;
        let keep = choose|keep: spec_fn(u32) -> bool| (forall|x: u32| m0.extensions@.contains(x) ==> (#[trigger] keep(x)) == (x < self.extension)) && now == m0.extensions@.filter(keep);
        filter_same(m0.extensions@, keep, |x: u32| x < self.extension);
        assert(same_message(base.messages@[i], pool.messages@[i]));
        assert forall|j: int| 0 <= j < k_ implies same_message(base.messages@[j], #[trigger] pool.messages@[j]) by { if j < i { assert(pool.messages@[j] == all0[j]); } }
    }
//@@ before? { let mut k_ : usize = 0 ; $x }
    proof {
        assert(pool.files@ =~= base.files@);
        assert forall|n: Seq<char>| #[trigger] pool.names@.contains_key(n) <==> base.names@.contains_key(n) by {
            if pool.names@.contains_key(n) && !base.names@.contains_key(n) { assert(stays(*self, pool.files@, n, pool.names@[n].kind)); assert(fresh(*self, pool.names@[n].kind)); }
        }
        assert forall|n: Seq<char>| #[trigger] pool.file_names@.contains_key(n) <==> base.file_names@.contains_key(n) by { }
        assert(pool.names@ =~= base.names@);
        assert(pool.file_names@ =~= base.file_names@);
    }
//@@ spec
    requires settled(*self, base), adding(*self, base, *old($p1)),
    ensures restored(base, *final($p1)),
//@@ end
}
/// What a visit may change of a pool to which files are being added.
pub open spec fn step(o: DescriptorPoolOffsets, b: DescriptorPoolInner, p: DescriptorPoolInner, q: DescriptorPoolInner) -> bool {
    &&& begins(p.files@, q.files@) && begins(p.services@, q.services@) && begins(p.extensions@, q.extensions@)
    &&& p.enums@.len() <= q.enums@.len() && forall|i: int| 0 <= i < o.enum_ ==> q.enums@[i] == #[trigger] p.enums@[i]
    &&& p.messages@.len() <= q.messages@.len() && forall|i: int| 0 <= i < o.message ==> #[trigger] q.messages@[i] == p.messages@[i]
    &&& q.file_names@ == p.file_names@ || exists|n: Seq<char>, i: u32| !b.file_names@.contains_key(n) && i >= o.file && q.file_names@ == #[trigger] p.file_names@.insert(n, i)
}
/// P08: every visit leaves what was there before the addition untouched.
proof fn visits_add(o: DescriptorPoolOffsets, b: DescriptorPoolInner, p: DescriptorPoolInner, q: DescriptorPoolInner, n: Seq<char>, file: u32, k: DefinitionKind)
    requires sizes(o, b), adding(o, b, p), step(o, b, p, q), declared(p.names@, q.names@, n, file, k), fresh(o, k),
    ensures adding(o, b, q),
{
    assert forall|i: int| 0 <= i < b.enums@.len() implies q.enums@[i] == #[trigger] b.enums@[i] by { assert(p.enums@[i] == b.enums@[i]); }
    assert forall|i: int| 0 <= i < b.messages@.len() implies extended(o, b.messages@[i], #[trigger] q.messages@[i]) by { assert(q.messages@[i] == p.messages@[i]); }
    assert forall|i: int| 0 <= i < b.files@.len() implies q.files@[i] == #[trigger] b.files@[i] by { assert(p.files@[i] == b.files@[i]); }
    assert forall|i: int| 0 <= i < b.services@.len() implies q.services@[i] == #[trigger] b.services@[i] by { assert(p.services@[i] == b.services@[i]); }
    assert forall|i: int| 0 <= i < b.extensions@.len() implies q.extensions@[i] == #[trigger] b.extensions@[i] by { assert(p.extensions@[i] == b.extensions@[i]); }
}
proof fn files_add(o: DescriptorPoolOffsets, b: DescriptorPoolInner, p: DescriptorPoolInner, q: DescriptorPoolInner, ps: Seq<Seq<char>>, file: u32)
    requires sizes(o, b), adding(o, b, p), step(o, b, p, q), packages_declared(p.names@, q.names@, ps, ps.len() as int, file),
    ensures adding(o, b, q),
{
    assert forall|i: int| 0 <= i < b.enums@.len() implies q.enums@[i] == #[trigger] b.enums@[i] by { assert(p.enums@[i] == b.enums@[i]); }
    assert forall|i: int| 0 <= i < b.messages@.len() implies extended(o, b.messages@[i], #[trigger] q.messages@[i]) by { assert(q.messages@[i] == p.messages@[i]); }
    assert forall|i: int| 0 <= i < b.files@.len() implies q.files@[i] == #[trigger] b.files@[i] by { assert(p.files@[i] == b.files@[i]); }
    assert forall|i: int| 0 <= i < b.services@.len() implies q.services@[i] == #[trigger] b.services@[i] by { assert(p.services@[i] == b.services@[i]); }
    assert forall|i: int| 0 <= i < b.extensions@.len() implies q.extensions@[i] == #[trigger] b.extensions@[i] by { assert(p.extensions@[i] == b.extensions@[i]); }
    assert forall|n: Seq<char>| #[trigger] b.names@.contains_key(n) implies q.names@.contains_key(n) && q.names@[n] == b.names@[n] by { assert(p.names@.contains_key(n)); }
    assert forall|n: Seq<char>| #[trigger] q.names@.contains_key(n) && !b.names@.contains_key(n) implies fresh(o, q.names@[n].kind) by { if p.names@.contains_key(n) { } else { assert(q.names@[n].kind is Package); } }
}
proof fn nothing_added(o: DescriptorPoolOffsets, b: DescriptorPoolInner)
    requires settled(o, b),
    ensures adding(o, b, b),
{
    assert forall|i: int| 0 <= i < b.messages@.len() implies extended(o, b.messages@[i], #[trigger] b.messages@[i]) by {
        let v = b.messages@[i].extensions@;
        assert forall|x: u32| v.contains(x) implies x < o.extension by { let k = choose|k: int| 0 <= k < v.len() && v[k] == x; assert(b.messages@[i].extensions@[k] < o.extension); }
        filter_same(v, |x: u32| x < o.extension, |x: u32| true);
        filter_all(v);
    }
}
proof fn filter_all(v: Seq<u32>)
    ensures v.filter(|x: u32| true) == v,
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 { filter_all(v.drop_last()); assert(v.drop_last().push(v.last()) =~= v); }
}
pub open spec fn new_to(p: DescriptorPoolInner, files: Seq<FileDescriptorProto>) -> bool { forall|i: int| 0 <= i < files.len() ==> !p.file_names@.contains_key(text_or_empty((#[trigger] files[i]).name)) }
/// The files of an iterator (or of a set of files) that pass a test
#[verifier::external_body]
fn filtered<F: Fn(&FileDescriptorProto) -> bool>(files: Vec<FileDescriptorProto>, f: F) -> (r: Vec<FileDescriptorProto>)
    requires forall|x: &FileDescriptorProto| #[trigger] call_requires(f, (x,)),
    ensures forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (&#[trigger] r@[i],), true) && files@.contains(r@[i]) { unimplemented!() }
impl DescriptorPoolInner {
    /// The traversals call the visits under contract above (assumed: `visit` itself and the options are not under contract).
    #[verifier::external_body]
    fn collect_names(&mut self, o: DescriptorPoolOffsets, files: &[FileDescriptorProto]) -> (r: Result<(), DescriptorError>)
        requires exists|b: DescriptorPoolInner| settled(o, b) && #[trigger] adding(o, b, *old(self)) && new_to(b, files@),
        ensures forall|b: DescriptorPoolInner| settled(o, b) && #[trigger] adding(o, b, *old(self)) ==> adding(o, b, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn resolve_names(&mut self, o: DescriptorPoolOffsets, files: &[FileDescriptorProto]) -> (r: Result<(), DescriptorError>)
        ensures forall|b: DescriptorPoolInner| settled(o, b) && #[trigger] adding(o, b, *old(self)) ==> adding(o, b, *final(self)) { unimplemented!() }
}
impl DescriptorPool {
    #[verifier::external_body]
    fn resolve_options(&mut self, o: DescriptorPoolOffsets, files: &[FileDescriptorProto]) -> (r: Result<(), DescriptorError>)
        ensures forall|b: DescriptorPoolInner| settled(o, b) && #[trigger] adding(o, b, old(self).inner.v) ==> adding(o, b, final(self).inner.v) { unimplemented!() }
    /// the loop that sets `prost` of the new files
    #[verifier::external_body]
    fn to_prost(inner: &mut DescriptorPoolInner, from: usize)
        ensures forall|o: DescriptorPoolOffsets, b: DescriptorPoolInner| settled(o, b) && from >= o.file && #[trigger] adding(o, b, *old(inner)) ==> adding(o, b, *final(inner)) { unimplemented!() }
//@@ fn prost-reflect/src/descriptor/build/mod.rs DescriptorPool::build_files_deduped
//@@ ret r
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst for $f:id in & mut inner . files [ $i .. ] $b:b ==>> Self::to_prost(inner, $i);
//@@ spec
    requires settled($p1, old(self).inner.v), new_to(old(self).inner.v, $p2@),
    ensures
        adding($p1, old(self).inner.v, final(self).inner.v),
        $p2@.len() == 0 ==> r is Ok && *final(self) == *old(self),
//@@ start
    proof { nothing_added($p1, old(self).inner.v); }
//@@ before? self . resolve_options ( $x ) ?
    proof { assert(adding($p1, old(self).inner.v, self.inner.v)); }
//@@ after? self . resolve_options ( $x ) ? ;
    proof { assert(adding($p1, old(self).inner.v, self.inner.v)); }
//@@ end
//@@ fn prost-reflect/src/descriptor/build/mod.rs DescriptorPool::build_files
//@@ sig fn build_files(&mut self, files: Vec<FileDescriptorProto>, Ghost(offsets_): Ghost<DescriptorPoolOffsets>) -> (r: Result<(), DescriptorError>)
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst files . into_iter ( ) . filter ( | $f:id | $c ) . collect ( ) ==>> filtered(files, |$f: &FileDescriptorProto| -> (r: bool) ensures r == !self.inner.v.file_names@.contains_key(text_or_empty($f.name)) { $c })
//@@ subst? $o:id . rollback ( $x ) ==>> $o.rollback($x, Ghost(old(self).inner.v))
//@@ subst? self . inner . file_names ==>> self.inner.v.file_names
//@@ subst? DescriptorPoolOffsets :: new ( & self . inner ) ==>> DescriptorPoolOffsets::new(&self.inner.v)
//@@ subst? Vec < _ > ==>> Vec<FileDescriptorProto>
//@@ spec
    requires settled(offsets_, old(self).inner.v), small(old(self).inner.v),
    ensures
        // P08: a failed addition leaves no trace
        r is Err ==> restored(old(self).inner.v, final(self).inner.v),
        r is Ok ==> adding(offsets_, old(self).inner.v, final(self).inner.v),
//@@ end
}
fn main() {}
}
