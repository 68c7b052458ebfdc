//@@ props P10 P09 P21
//@@ include head.rs
use vstd::string::*;
use vstd::utf8::*;
//@@ include names.rs
#[verifier::external_body]
pub struct Value { x: u8 }
#[verifier::external_body]
fn unreached<A>() -> A requires false { unimplemented!() }
//@@ include btree.rs
//@@ include pool.rs
//@@ include errors.rs
//@@ include identity.rs
//@@ include prefix.rs
//@@ include tag.rs
#[derive(Clone, Copy)]
//@@ item prost-reflect/src/descriptor/build/mod.rs enum ResolveNameFilter
//@@ item-subst Cow < 'b , str > ==>> Cow<'b>
//@@ item prost-reflect/src/descriptor/build/mod.rs enum ResolveNameResult
/// std::borrow::Cow<str>
pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> View for Cow<'a> { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { match *self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } } }
impl<'a> Cow<'a> {
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn into_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
pub trait IntoCow<'b> { spec fn text(&self) -> Seq<char>; fn into(self) -> (r: Cow<'b>) where Self: Sized ensures r@ == self.text(); }
impl<'b> IntoCow<'b> for &'b str { open spec fn text(&self) -> Seq<char> { (*self)@ } fn into(self) -> (r: Cow<'b>) { Cow::Borrowed(self) } }
impl<'b> IntoCow<'b> for Cow<'b> { open spec fn text(&self) -> Seq<char> { self@ } fn into(self) -> (r: Cow<'b>) { self } }

broadcast use group_utf8_lib;
// ---- specification: scoping
//@@ include dots.rs
//@@ include protos.rs
//@@ include paths.rs
//@@ item prost-reflect/src/descriptor/build/resolve.rs struct ResolveVisitor
pub mod field_descriptor_proto {
use vstd::prelude::*;
#[derive(Clone, Copy)]
//@@ item prost-types:src/protobuf.rs enum Type
}
//@@ include scoping.rs
/// P10: a simple name denotes the fitting, visible definition in the innermost scope that has one.
pub proof fn innermost_simple(files: Seq<FileDescriptorInner>, deps: Set<u32>, names: Defs, ps: Seq<Seq<char>>, i: int, n: Seq<char>, f: ResolveNameFilter, err: Outcome)
    requires first_len(n) == n.len(), 0 <= i <= ps.len(), !(err is Found),
    ensures
        forall|k: int| i <= k < ps.len() && look(deps, names, #[trigger] within(ps[k], n), f) is Found
            && (forall|j: int| i <= j < k ==> !(look(deps, names, #[trigger] within(ps[j], n), f) is Found))
            ==> scan(files, deps, names, ps, i, n, f, err) == Outcome::Found(within(ps[k], n)),
        (forall|j: int| i <= j < ps.len() ==> !(look(deps, names, #[trigger] within(ps[j], n), f) is Found)) ==> !(scan(files, deps, names, ps, i, n, f, err) is Found),
    decreases ps.len() - i
{
    if i < ps.len() {
        let o = look(deps, names, within(ps[i], n), f);
        if !(o is Found) {
            innermost_simple(files, deps, names, ps, i + 1, n, f, or(err, o));
            assert forall|k: int| i <= k < ps.len() && look(deps, names, #[trigger] within(ps[k], n), f) is Found
                && (forall|j: int| i <= j < k ==> !(look(deps, names, #[trigger] within(ps[j], n), f) is Found))
                implies scan(files, deps, names, ps, i, n, f, err) == Outcome::Found(within(ps[k], n)) by { assert(k != i); }
        }
    }
}
/// P10: a dotted name is looked up in the innermost scope that visibly declares its first component, and nowhere else.
pub proof fn innermost_dotted(files: Seq<FileDescriptorInner>, deps: Set<u32>, names: Defs, ps: Seq<Seq<char>>, i: int, n: Seq<char>, f: ResolveNameFilter, err: Outcome)
    requires first_len(n) != n.len(), 0 <= i <= ps.len(), !(err is Found),
        forall|a: Seq<char>| #[trigger] within(a, n) == within(a, n),
    ensures
        forall|k: int| i <= k < ps.len() && is_scope(files, deps, names, #[trigger] within(ps[k], first(n)))
            && (forall|j: int| i <= j < k ==> !is_scope(files, deps, names, #[trigger] within(ps[j], first(n)))
                    && !(look(deps, names, within(ps[j], n), f) is Found))
            ==> scan(files, deps, names, ps, i, n, f, err) == (match look(deps, names, within(ps[k], n), f) { Outcome::Missing => Outcome::Shadowed(n, within(ps[k], n)), o => o }),
    decreases ps.len() - i
{
    if i < ps.len() {
        let o = look(deps, names, within(ps[i], n), f);
        let scope = within(ps[i], first(n));
        if !is_scope(files, deps, names, scope) && !(o is Found) {
            if names.contains_key(scope) && parent(names[scope].kind) { innermost_dotted(files, deps, names, ps, i + 1, n, f, or(err, o)); }
            else { innermost_dotted(files, deps, names, ps, i + 1, n, f, err); }
            assert forall|k: int| i <= k < ps.len() && is_scope(files, deps, names, #[trigger] within(ps[k], first(n)))
                && (forall|j: int| i <= j < k ==> !is_scope(files, deps, names, #[trigger] within(ps[j], first(n))) && !(look(deps, names, within(ps[j], n), f) is Found))
                implies scan(files, deps, names, ps, i, n, f, err) == (match look(deps, names, within(ps[k], n), f) { Outcome::Missing => Outcome::Shadowed(n, within(ps[k], n)), o => o }) by { assert(k != i); }
        }
    }
}
pub open spec fn sound(deps: Set<u32>, names: Defs, f: ResolveNameFilter, o: Outcome) -> bool {
    match o { Outcome::Found(m) => names.contains_key(m) && deps.contains(names[m].file) && fits(f, names[m].kind), _ => true }
}
/// What is found is declared, fits and is visible (P10: "the definition found must live in a visible file").
pub proof fn found_is_visible(files: Seq<FileDescriptorInner>, deps: Set<u32>, names: Defs, ps: Seq<Seq<char>>, i: int, n: Seq<char>, f: ResolveNameFilter, err: Outcome)
    requires sound(deps, names, f, err),
    ensures sound(deps, names, f, scan(files, deps, names, ps, i, n, f, err)),
    decreases ps.len() - i
{
    if 0 <= i < ps.len() {
        let o = look(deps, names, within(ps[i], n), f);
        found_is_visible(files, deps, names, ps, i + 1, n, f, err);
        found_is_visible(files, deps, names, ps, i + 1, n, f, or(err, o));
    }
}
/// The outcome a result stands for.
pub open spec fn outcome(r: ResolveNameResult) -> Outcome {
    match r {
        ResolveNameResult::Found { name, def } => Outcome::Found(name@),
        ResolveNameResult::InvalidType { name, def, filter } => Outcome::Wrong(name@),
        ResolveNameResult::NotImported { name, file } => Outcome::Hidden(name@),
        ResolveNameResult::Shadowed { name, shadowed_name } => Outcome::Shadowed(name@, shadowed_name@),
        ResolveNameResult::NotFound => Outcome::Missing,
    }
}
/// The definition it refers to is the one of that name.
pub open spec fn backed(r: ResolveNameResult, names: Defs, f: ResolveNameFilter) -> bool {
    match r {
        ResolveNameResult::Found { name, def } => names.contains_key(name@) && names[name@] == *def,
        ResolveNameResult::InvalidType { name, def, filter } => names.contains_key(name@) && names[name@] == *def && filter == f,
        ResolveNameResult::NotImported { name, file } => names.contains_key(name@) && names[name@].file == file,
        _ => true,
    }
}
pub open spec fn means(r: ResolveNameResult, names: Defs, f: ResolveNameFilter, o: Outcome) -> bool { outcome(r) == o && backed(r, names, f) }
// ---- strings (assumed contracts of core::str)
#[verifier::external_body]
fn strip_dot(s: &str) -> (r: Option<&str>) ensures match r { Some(t) => s@.len() > 0 && s@[0] == '.' && t@ == s@.skip(1), None => s@.len() == 0 || s@[0] != '.' } { unimplemented!() }
#[verifier::external_body]
fn first_part(s: &str) -> (r: &str) ensures r@ == first(s@) { unimplemented!() }
#[verifier::external_body]
fn joined(a: &str, b: &str) -> (r: String) ensures r@ == a@ + seq!['.'] + b@ { unimplemented!() }
#[verifier::external_body]
fn starts_with(s: &str, t: &str) -> (r: bool) ensures r == t@.is_prefix_of(s@) { unimplemented!() }
/// `s.as_bytes().get(i)`
#[verifier::external_body]
fn byte_at(s: &str, i: usize) -> (r: Option<u8>)
    ensures match r { Some(b) => i < encode_utf8(s@).len() && b == encode_utf8(s@)[i as int], None => i >= encode_utf8(s@).len() } { unimplemented!() }
/// The first n + 1 candidate scopes.
pub open spec fn candidates(v: Seq<&str>, s: Seq<char>, n: int) -> bool {
    v.len() == n + 1 && v[0]@ == s && forall|k: int| 0 < k <= n ==> (#[trigger] v[k])@ == outer(s, s.len() as int)[k - 1]
}
proof fn candidates_done(v: Seq<&str>, s: Seq<char>)
    requires v.len() == outer(s, s.len() as int).len() + 2, candidates(v.drop_last(), s, outer(s, s.len() as int).len() as int), v.last()@.len() == 0,
    ensures forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == scopes(s)[i], v.len() == scopes(s).len(),
{
    let n = outer(s, s.len() as int).len();
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i])@ == scopes(s)[i] by {
        if i < v.len() - 1 { assert(v.drop_last()[i] == v[i]); } else { assert(v[i]@ =~= Seq::<char>::empty()); }
    }
}
pub open spec fn opened(files: Seq<FileDescriptorInner>, deps: Set<u32>, name: Seq<char>) -> bool { exists|i: u32| #[trigger] deps.contains(i) && opens(package_of(files, i), name) }
pub open spec fn none_opens(files: Seq<FileDescriptorInner>, e: Seq<u32>, n: int, name: Seq<char>) -> bool { forall|k: int| 0 <= k < n ==> !opens(package_of(files, #[trigger] e[k]), name) }
proof fn none_opened(files: Seq<FileDescriptorInner>, deps: Set<u32>, e: Seq<u32>, name: Seq<char>)
    requires listing(e, deps), none_opens(files, e, e.len() as int, name),
    ensures !opened(files, deps, name),
{
    assert forall|i: u32| #[trigger] deps.contains(i) implies !opens(package_of(files, i), name) by { assert(e.contains(i)); }
}
// ---- the code
impl DefinitionKind {
//@@ fn prost-reflect/src/descriptor/mod.rs DefinitionKind::is_parent
//@@ ret r
//@@ spec
    ensures r == parent(*self),
//@@ end
}
impl ResolveNameFilter {
//@@ fn prost-reflect/src/descriptor/build/mod.rs ResolveNameFilter::is_match
//@@ ret r
//@@ spec
    ensures r == fits(*self, *def),
//@@ end
}
impl<'a, 'b> ResolveNameResult<'a, 'b> {
//@@ fn prost-reflect/src/descriptor/build/mod.rs ResolveNameResult::new
//@@ sig fn new(dependencies: &IndexSet, names: &'a NameMap<Definition>, name: impl IntoCow<'b>, filter: ResolveNameFilter) -> (r: Self)
//@@ spec
    ensures means(r, names@, $p3, look(dependencies@, names@, name.text(), $p3)),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/mod.rs ResolveNameResult::into_owned
//@@ ret r
//@@ spec
    ensures forall|names: Defs, f: ResolveNameFilter, o: Outcome| means(self, names, f, o) ==> #[trigger] means(r, names, f, o),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/mod.rs ResolveNameResult::into_result
//@@ sig fn into_result(self, orig_name: &str, files: &Vec<FileDescriptorInner>, found_file: FileIndex, found_path1: &[i32], found_path2: &[i32]) -> (r: Result<(Cow<'b>, &'a Definition), DescriptorErrorKind>)
//@@ subst? filter . to_string ( ) ==>> some_text()
//@@ subst? format ! $a:tt ==>> some_text()
//@@ subst? orig_name . into ( ) ==>> owned(orig_name)
//@@ spec
    requires $p2@.len() > $p3,
        match self { ResolveNameResult::InvalidType { name, def, filter } => def.file < $p2@.len(), ResolveNameResult::NotImported { name, file } => file < $p2@.len(), _ => true },
    ensures match r { Ok((n, d)) => self is Found && self->Found_name@ == n@ && self->Found_def == d, Err(e) => !(self is Found) },
//@@ end
//@@ fn prost-reflect/src/descriptor/build/mod.rs ResolveNameResult::is_found
//@@ ret r
//@@ spec
    ensures r == self is Found,
//@@ end
}
//@@ fn prost-reflect/src/descriptor/build/mod.rs resolve_relative_candidate_parents
//@@ sig fn resolve_relative_candidate_parents(scope: &str) -> (r: Vec<&str>)
//@@ subst iter :: once ( $a ) . chain ( $s:id . rmatch_indices ( '.' ) . map ( move | ( $i:id , _ ) | & $t:id [ .. $j:id ] ) ) . chain ( iter :: once ( $b ) ) ==>> { let mut v_ = Vec::new(); v_.push($a); let m_ = dots($s); let mut k_ = 0; while k_ < m_.len() invariant k_ <= m_.len(), dots_of(m_@, $s@), candidates(v_@, $s@, k_ as int), decreases m_.len() - k_ { let $i = m_[k_].0; assert(is_prefix_bytes($s@, $i as int, outer($s@, $s@.len() as int)[k_ as int])); v_.push(prefix($t, $j)); k_ += 1; } v_.push($b); proof { reveal_strlit(""); candidates_done(v_@, $s@); } v_ }
//@@ spec
    ensures r@.len() == scopes($p0@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == scopes($p0@)[i],
//@@ end
//@@ fn prost-reflect/src/descriptor/build/mod.rs is_visible_scope
//@@ sig fn is_visible_scope(files: &[FileDescriptorInner], dependencies: &IndexSet, name: &str, def: &Definition) -> (r: bool)
//@@ subst? $x:id . len ( ) ==>> byte_len($x)
//@@ subst? $d:id . iter ( ) . any ( | & $f:id | $b:tt ) ==>> { let e_ = $d.elements(); let mut k_ = 0; let mut any_ = false; while k_ < e_.len() && !any_ invariant k_ <= e_.len(), listing(e_@, $d@), in_range($d@, files@.len() as int), any_ ==> opened(files@, $d@, name@), !any_ ==> none_opens(files@, e_@, k_ as int, name@), decreases e_.len() - k_ { let $f = e_[k_]; assert(e_@.contains($f)); assert($d@.contains($f)); k_ += 1; if $b { any_ = true; assert(opens(package_of(files@, $f), name@)); } } proof { if !any_ { none_opened(files@, $d@, e_@, name@); } } any_ }
//@@ subst? $p:id . starts_with ( $n:id ) ==>> (starts_with($p, $n) && { proof { if $n@.is_prefix_of($p@) { byte_after($p@, $n@); } } true })
//@@ subst? $p:id . as_bytes ( ) . get ( $n ) ==>> byte_at($p, $n)
//@@ subst? Some ( & b'.' ) ==>> Some(0x2eu8)
//@@ spec
    requires in_range($p1@, $p0@.len() as int),
    ensures r == visible($p0@, $p1@, $p2@, *$p3),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/mod.rs resolve_relative_name
//@@ sig fn resolve_relative_name<'a, 'b>(files: &[FileDescriptorInner], dependencies: &IndexSet, names: &'a NameMap<Definition>, scope: &str, relative_name: &'b str, filter: ResolveNameFilter) -> (r: ResolveNameResult<'a, 'b>)
//@@ subst? $x:id . len ( ) ==>> byte_len($x)
//@@ subst $n:id . split ( '.' ) . next ( ) . unwrap_or_default ( ) ==>> first_part($n)
//@@ subst? format ! ( "{candidate_parent}.{relative_first_part}" ) ==>> joined(candidate_parent, relative_first_part)
//@@ subst? format ! ( "{candidate_parent}.{relative_name}" ) ==>> joined(candidate_parent, relative_name)
//@@ subst? match candidate_parent { "" => $a , _ => $b , } ==>> if candidate_parent.is_empty() { $a } else { $b }
//@@ subst? is_visible_scope ( $a , $b , & $c:id , $d ) ==>> is_visible_scope($a, $b, $c.as_ref(), $d)
//@@ subst for $x:id in $f:id $a:tt $b:b ==>> { let v_ = $f $a; let mut k_: usize = 0; while k_ < v_.len() { let $x = v_[k_]; k_ += 1; $b } }
//@@ loop 0
    invariant
        k_ <= v_.len(), v_@.len() == scopes(scope@).len(), forall|i: int| 0 <= i < v_@.len() ==> (#[trigger] v_@[i])@ == scopes(scope@)[i],
        in_range($p1@, $p0@.len() as int), relative_first_part@ == first($p4@), relative_first_part@.is_prefix_of($p4@),
        backed(err, $p2@, $p5),
        scan($p0@, $p1@, $p2@, scopes($p3@), 0, $p4@, $p5, Outcome::Missing) == scan($p0@, $p1@, $p2@, scopes($p3@), k_ as int, $p4@, $p5, outcome(err)),
    decreases v_.len() - k_,
//@@ in-loop 0
    proof {
        if encode_utf8(relative_first_part@).len() == encode_utf8($p4@).len() { prefix_of_same_length(relative_first_part@, $p4@); }
        first_len_bounds($p4@);
        if first_len($p4@) == $p4@.len() { assert(relative_first_part@ =~= $p4@); }
    }
//@@ spec
    requires in_range($p1@, $p0@.len() as int), $p3@.len() > 0, !($p4@.len() > 0 && $p4@[0] == '.'),
    ensures means(r, $p2@, $p5, scan($p0@, $p1@, $p2@, scopes($p3@), 0, $p4@, $p5, Outcome::Missing)),
//@@ start
    proof { first_len_bounds($p4@); }
//@@ end
//@@ fn prost-reflect/src/descriptor/build/mod.rs resolve_name
//@@ sig fn resolve_name<'a, 'b>(files: &[FileDescriptorInner], dependencies: &IndexSet, names: &'a NameMap<Definition>, scope: &str, name: &'b str, filter: ResolveNameFilter) -> (r: ResolveNameResult<'a, 'b>)
//@@ subst? $n:id . strip_prefix ( '.' ) ==>> strip_dot($n)
//@@ spec
    requires in_range($p1@, $p0@.len() as int),
    ensures means(r, $p2@, $p5, resolved($p0@, $p1@, $p2@, $p3@, $p4@, $p5)),
//@@ end
// ---- imports
pub open spec fn raws(files: Seq<FileDescriptorInner>) -> Seq<FileDescriptorProto> { files.map_values(|f: FileDescriptorInner| f.raw) }
/// File a imports file b publicly.
pub open spec fn public_edge(files: Seq<FileDescriptorProto>, index_of: Names<u32>, a: u32, b: u32) -> bool {
    exists|i: int| #[trigger] public_import(files[a as int], index_of, i, b)
}
pub open spec fn import(f: FileDescriptorProto, index_of: Names<u32>, i: int, b: u32) -> bool {
    0 <= i < f.dependency@.len() && index_of.contains_key(f.dependency@[i]@) && index_of[f.dependency@[i]@] == b
}
pub open spec fn public_import(f: FileDescriptorProto, index_of: Names<u32>, i: int, b: u32) -> bool { import(f, index_of, i, b) && f.public_dependency@.contains(i as i32) }
/// There is a chain of public imports from a to b.
pub open spec fn chain(files: Seq<FileDescriptorProto>, index_of: Names<u32>, a: u32, b: u32, n: nat) -> bool
    decreases n
{
    if n == 0 { a == b } else { exists|c: u32| #[trigger] public_edge(files, index_of, a, c) && chain(files, index_of, c, b, (n - 1) as nat) }
}
pub open spec fn reaches(files: Seq<FileDescriptorProto>, index_of: Names<u32>, a: u32, b: u32) -> bool { exists|n: nat| #[trigger] chain(files, index_of, a, b, n) }
/// The file table and its index agree in range (see add_file), and no file has 2^31 imports.
pub open spec fn indexed(files: Seq<FileDescriptorProto>, index_of: Names<u32>) -> bool {
    &&& forall|n: Seq<char>| #[trigger] index_of.contains_key(n) ==> index_of[n] < files.len()
    &&& forall|i: int| 0 <= i < files.len() ==> (#[trigger] files[i]).dependency@.len() <= i32::MAX
    &&& files.len() <= u32::MAX
}
pub open spec fn closed_from(files: Seq<FileDescriptorProto>, index_of: Names<u32>, s: Set<u32>, a: u32) -> bool { forall|b: u32| #[trigger] public_edge(files, index_of, a, b) ==> s.contains(b) }
/// Everything in new but not in old has its public imports in new.
pub open spec fn grown(files: Seq<FileDescriptorProto>, index_of: Names<u32>, old: Set<u32>, new: Set<u32>) -> bool {
    old.subset_of(new) && in_range(new, files.len() as int) && forall|a: u32| #[trigger] new.contains(a) && !old.contains(a) ==> closed_from(files, index_of, new, a)
}
pub open spec fn from_only(files: Seq<FileDescriptorProto>, index_of: Names<u32>, old: Set<u32>, new: Set<u32>, a: u32) -> bool {
    forall|b: u32| #[trigger] new.contains(b) && !old.contains(b) ==> reaches(files, index_of, a, b)
}
pub open spec fn done(files: Seq<FileDescriptorProto>, index_of: Names<u32>, s: Set<u32>, a: u32, n: int) -> bool {
    forall|i: int, b: u32| 0 <= i < n && #[trigger] public_import(files[a as int], index_of, i, b) ==> s.contains(b)
}
proof fn bounded_set(s: Set<u32>, n: nat)
    requires forall|i: u32| #[trigger] s.contains(i) ==> i < n, n <= u32::MAX,
    ensures s.len() <= n,
    decreases n
{
    if n == 0 { assert(s =~= Set::<u32>::empty()); }
    else {
        let m = (n - 1) as u32;
        bounded_set(s.remove(m), (n - 1) as nat);
    }
}
proof fn chain_first(files: Seq<FileDescriptorProto>, index_of: Names<u32>, a: u32, c: u32)
    requires public_edge(files, index_of, a, c),
    ensures forall|b: u32| reaches(files, index_of, c, b) ==> #[trigger] reaches(files, index_of, a, b), reaches(files, index_of, a, c),
{
    assert(chain(files, index_of, c, c, 0));
    assert forall|b: u32| reaches(files, index_of, c, b) implies #[trigger] reaches(files, index_of, a, b) by {
        let n = choose|n: nat| #[trigger] chain(files, index_of, c, b, n);
        assert(chain(files, index_of, a, b, n + 1));
    }
}
proof fn closed_is_closed(files: Seq<FileDescriptorProto>, index_of: Names<u32>, s: Set<u32>)
    requires forall|a: u32| #[trigger] s.contains(a) ==> closed_from(files, index_of, s, a),
    ensures forall|a: u32, b: u32| s.contains(a) && #[trigger] reaches(files, index_of, a, b) ==> s.contains(b),
{
    assert forall|a: u32, b: u32| s.contains(a) && #[trigger] reaches(files, index_of, a, b) implies s.contains(b) by {
        let n = choose|n: nat| #[trigger] chain(files, index_of, a, b, n);
        closed_chain(files, index_of, s, a, b, n);
    }
}
proof fn closed_chain(files: Seq<FileDescriptorProto>, index_of: Names<u32>, s: Set<u32>, a: u32, b: u32, n: nat)
    requires forall|a: u32| #[trigger] s.contains(a) ==> closed_from(files, index_of, s, a), s.contains(a), chain(files, index_of, a, b, n),
    ensures s.contains(b),
    decreases n
{
    if n > 0 {
        let c = choose|c: u32| #[trigger] public_edge(files, index_of, a, c) && chain(files, index_of, c, b, (n - 1) as nat);
        closed_chain(files, index_of, s, c, b, (n - 1) as nat);
    }
}
pub open spec fn grows<T>(a: Seq<T>, b: Seq<T>) -> bool { b.len() > a.len() }
/// File b is the file a itself, one of its imports, or publicly imported (through any number of files) by one of those.
pub open spec fn in_sight(files: Seq<FileDescriptorProto>, index_of: Names<u32>, a: u32, b: u32) -> bool {
    b == a || exists|i: int, d: u32| #[trigger] import(files[a as int], index_of, i, d) && reaches(files, index_of, d, b)
}
pub open spec fn sees(files: Seq<FileDescriptorProto>, index_of: Names<u32>, a: u32, s: Set<u32>) -> bool { forall|b: u32| #[trigger] s.contains(b) <==> in_sight(files, index_of, a, b) }
pub open spec fn missing_imports(f: FileDescriptorProto, index_of: Names<u32>, n: int) -> bool { exists|i: int| 0 <= i < n && !index_of.contains_key(#[trigger] f.dependency@[i]@) }
pub open spec fn bad_index(v: Seq<i32>, n: int, len: int) -> bool { exists|i: int| 0 <= i < n && !(0 <= #[trigger] v[i] < len) }
pub open spec fn bad_imports(f: FileDescriptorProto, index_of: Names<u32>) -> bool {
    missing_imports(f, index_of, f.dependency@.len() as int) || bad_index(f.public_dependency@, f.public_dependency@.len() as int, f.dependency@.len() as int)
        || bad_index(f.weak_dependency@, f.weak_dependency@.len() as int, f.dependency@.len() as int)
}
fn is_group(t: field_descriptor_proto::Type) -> (r: bool) ensures r == (t is Group) { match t { field_descriptor_proto::Type::Group => true, _ => false } }
pub open spec fn resolves_to_message(v: ResolveVisitor, file: u32, scope: Seq<char>, n: Seq<char>) -> bool { world_resolved(v, file, scope, n, ResolveNameFilter::Message) is Found }
pub open spec fn names_message(v: ResolveVisitor, file: u32, scope: Seq<char>, n: Seq<char>, m: u32) -> bool {
    match world_resolved(v, file, scope, n, ResolveNameFilter::Message) { Outcome::Found(n) => v.pool.names@.contains_key(n) && v.pool.names@[n].kind == DefinitionKind::Message(m), _ => false }
}
#[verifier::external_body]
fn dotted(n: Cow) -> (r: String) ensures r@ == seq!['.'] + n@ { unimplemented!() }
/// Writes the resolved name back into the field or method at the path (under contract in paths.rs).
#[verifier::external_body]
fn set_type_name(file: &mut FileDescriptorProto, path: &[i32], tag: i32, type_name: String, ty: field_descriptor_proto::Type) requires place_ok(*old(file), path@, tag) ensures same_shape(*old(file), *final(file)) { unimplemented!() }
fn as_index(x: i32) -> (r: Option<usize>) ensures r == (if x >= 0 { Some(x as usize) } else { None::<usize> }) { if x >= 0 { Some(x as usize) } else { None } }
fn copied(v: Option<&u32>) -> (r: Option<u32>) ensures r == (match v { Some(v) => Some(*v), None => None }) { match v { Some(v) => Some(*v), None => None } }
#[verifier::external_body]
fn has_i32(v: &Vec<i32>, x: i32) -> (r: bool) ensures r == v@.contains(x) { unimplemented!() }
impl ResolveVisitor<'_> {
//@@ fn prost-reflect/src/descriptor/build/resolve.rs ResolveVisitor::resolve_public_dependencies
//@@ sig fn resolve_public_dependencies(&self, dependencies: &mut IndexSet, index: FileIndex)
//@@ subst? $v:e . contains ( & ( $i:id as i32 ) ) ==>> has_i32(&$v, $i as i32)
//@@ subst for ( $i:id , $d:id ) in $e:e . iter ( ) . enumerate ( ) $b:b ==>> { let mut k_: usize = 0; while k_ < $e.len() { let $i = k_; let $d = &$e[k_]; k_ += 1; $b } }
//@@ subst? if let Some ( & $x:id ) = $m . get ( $n ) ==>> if let Some($x) = copied($m.get($n))
//@@ spec
    requires indexed(raws(old(self.pool).files@), old(self.pool).file_names@), $p2 < old(self.pool).files@.len(), in_range(old($p1)@, old(self.pool).files@.len() as int),
    ensures
        grown(raws(old(self.pool).files@), old(self.pool).file_names@, old($p1)@, final($p1)@),
        closed_from(raws(old(self.pool).files@), old(self.pool).file_names@, final($p1)@, $p2),
        from_only(raws(old(self.pool).files@), old(self.pool).file_names@, old($p1)@, final($p1)@, $p2),
    decreases old(self.pool).files@.len() - old($p1)@.len(),
//@@ loop 0
    invariant
        0 <= k_ <= file.raw.dependency@.len(), *file == self.pool.files@[$p2 as int], $p2 < self.pool.files@.len(),
        indexed(raws(self.pool.files@), self.pool.file_names@), in_range(old($p1)@, self.pool.files@.len() as int),
        grown(raws(self.pool.files@), self.pool.file_names@, old($p1)@, $p1@),
        from_only(raws(self.pool.files@), self.pool.file_names@, old($p1)@, $p1@, $p2),
        done(raws(self.pool.files@), self.pool.file_names@, $p1@, $p2, k_ as int),
    decreases file.raw.dependency@.len() - k_,
//@@ in-loop 0
    let ghost before = $p1@;
    let ghost i0 = k_ as int;
    proof { assert(i0 <= i32::MAX) by { assert(raws(self.pool.files@)[$p2 as int].dependency@.len() <= i32::MAX); } }
//@@ before? self . resolve_public_dependencies ( $a )
    proof {
        assert($p1@ == before.insert(dependency_index));
        bounded_set($p1@, self.pool.files@.len());
        assert(public_import(raws(self.pool.files@)[$p2 as int], self.pool.file_names@, i0, dependency_index));
        assert(public_edge(raws(self.pool.files@), self.pool.file_names@, $p2, dependency_index));
        chain_first(raws(self.pool.files@), self.pool.file_names@, $p2, dependency_index);
        assert(old($p1)@.len() <= before.len()) by { vstd::set_lib::lemma_len_subset(old($p1)@, before); }
    }
//@@ end-loop 0
    proof {
        assert forall|i: int, b: u32| 0 <= i < k_ && #[trigger] public_import(raws(self.pool.files@)[$p2 as int], self.pool.file_names@, i, b) implies $p1@.contains(b) by {
            if i < i0 { assert(before.contains(b)); }
        }
    }
//@@ end
//@@ fn prost-reflect/src/descriptor/build/resolve.rs Visitor for ResolveVisitor::visit_file
//@@ sig fn visit_file(&mut self, path: &[i32], index: FileIndex, file: &FileDescriptorProto)
//@@ subst? HashSet :: with_capacity ( $n ) ==>> IndexSet::empty()
//@@ subst? $n:id . clone ( ) ==>> owned($n)
//@@ subst? let Some ( & $x:id ) = $m . get ( $n ) ==>> let Some($x) = copied($m.get($n))
//@@ subst for ( $i:id , $d:id ) in $e:e . iter ( ) . enumerate ( ) $b:b ==>> { let mut k_: usize = 0; while k_ < $e.len() { let $i = k_; let $d = &$e[k_]; k_ += 1; $b } }
//@@ subst for & $x:id in & $e:e $b:b ==>> { let mut j_: usize = 0; while j_ < $e.len() { let $x = $e[j_]; j_ += 1; $b } }
//@@ subst? matches ! ( usize :: try_from ( $x ) , Ok ( $i:id ) if $g ) ==>> (match as_index($x) { Some($i) => $g, None => false })
//@@ spec
    requires
        old(self).pool.files@.len() > $p2, raws(old(self).pool.files@)[$p2 as int] == *$p3, indexed(raws(old(self).pool.files@), old(self).pool.file_names@),
    ensures
        // nothing else changes
        final(self).pool.file_names == old(self).pool.file_names, final(self).pool.names == old(self).pool.names,
        raws(final(self).pool.files@) == raws(old(self).pool.files@),
        // P10: the visible files
        sees(raws(final(self).pool.files@), final(self).pool.file_names@, $p2, final(self).pool.files@[$p2 as int].transitive_dependencies@),
        in_range(final(self).pool.files@[$p2 as int].transitive_dependencies@, final(self).pool.files@.len() as int),
        // an import that does not exist, or an index out of range, is an error
        grows(old(self).errors@, final(self).errors@) <==> bad_imports(*$p3, old(self).pool.file_names@),
        old(self).errors@.is_prefix_of(final(self).errors@),
//@@ loop 0
    invariant
        0 <= k_ <= $p3.dependency@.len(), $p2 < self.pool.files@.len(),
        raws(self.pool.files@) == raws(old(self).pool.files@), raws(self.pool.files@)[$p2 as int] == *$p3, indexed(raws(self.pool.files@), self.pool.file_names@),
        self.pool.file_names == old(self).pool.file_names, self.pool.names == old(self).pool.names,
        in_range(transitive_dependencies@, self.pool.files@.len() as int),
        transitive_dependencies@.contains($p2),
        forall|i: int, b: u32| 0 <= i < k_ && #[trigger] import(*$p3, self.pool.file_names@, i, b) ==> transitive_dependencies@.contains(b),
        forall|a: u32| #[trigger] transitive_dependencies@.contains(a) && a != $p2 ==> closed_from(raws(self.pool.files@), self.pool.file_names@, transitive_dependencies@, a),
        forall|b: u32| #[trigger] transitive_dependencies@.contains(b) ==> in_sight(raws(self.pool.files@), self.pool.file_names@, $p2, b),
        grows(old(self).errors@, self.errors@) <==> missing_imports(*$p3, self.pool.file_names@, k_ as int),
        old(self).errors@.is_prefix_of(self.errors@),
    decreases $p3.dependency@.len() - k_,
//@@ in-loop 0
    let ghost seen = transitive_dependencies@;
    let ghost i0 = k_ as int;
//@@ before? self . resolve_public_dependencies ( $a )
    let ghost mid = transitive_dependencies@;
    proof {
        assert(raws(self.pool.files@) =~= raws(old(self).pool.files@));
        assert(import(*$p3, self.pool.file_names@, i0, dependency_index));
    }
//@@ end-loop 0
    proof {
        let fs = raws(self.pool.files@);
        let ix = self.pool.file_names@;
        let key = $p3.dependency@[i0]@;
        assert(fs =~= raws(old(self).pool.files@));
        let now = transitive_dependencies@;
        if ix.contains_key(key) {
            let d = ix[key];
            assert(import(*$p3, ix, i0, d));
            assert(chain(fs, ix, d, d, 0));
            assert(reaches(fs, ix, d, d));
            let mid = seen.insert(d);
            assert forall|a: u32| #[trigger] now.contains(a) && a != $p2 implies closed_from(fs, ix, now, a) by {
                if seen.contains(a) { assert(closed_from(fs, ix, seen, a)); }
                else if a != d { assert(!mid.contains(a)); }
            }
            assert forall|b: u32| #[trigger] now.contains(b) implies in_sight(fs, ix, $p2, b) by {
                if seen.contains(b) { } else { assert(mid.contains(b) || reaches(fs, ix, d, b)); assert(import(fs[$p2 as int], ix, i0, d)); }
            }
        }
    }
//@@ loop 1
    invariant
        0 <= j_ <= $p3.public_dependency@.len(),
        *self.pool == pool1, old(self).errors@.is_prefix_of(self.errors@),
        grows(old(self).errors@, self.errors@) <==> missing_imports(*$p3, old(self).pool.file_names@, $p3.dependency@.len() as int) || bad_index($p3.public_dependency@, j_ as int, $p3.dependency@.len() as int),
    decreases $p3.public_dependency@.len() - j_,
//@@ loop 2
    invariant
        0 <= j_ <= $p3.weak_dependency@.len(),
        *self.pool == pool1, old(self).errors@.is_prefix_of(self.errors@),
        grows(old(self).errors@, self.errors@) <==> missing_imports(*$p3, old(self).pool.file_names@, $p3.dependency@.len() as int) || bad_index($p3.public_dependency@, $p3.public_dependency@.len() as int, $p3.dependency@.len() as int) || bad_index($p3.weak_dependency@, j_ as int, $p3.dependency@.len() as int),
    decreases $p3.weak_dependency@.len() - j_,
//@@ after? self . pool . files [ $i ] . transitive_dependencies = $x ;
    let ghost pool1 = *self.pool;
    proof {
        let fs = raws(old(self).pool.files@);
        let ix = self.pool.file_names@;
        assert(raws(self.pool.files@) =~= fs);
        let all = self.pool.files@[$p2 as int].transitive_dependencies@;
        assert forall|a: u32| #[trigger] all.contains(a) implies closed_from(fs, ix, all, a) by {
            if a == $p2 {
                assert forall|b: u32| #[trigger] public_edge(fs, ix, a, b) implies all.contains(b) by {
                    let i = choose|i: int| #[trigger] public_import(fs[a as int], ix, i, b);
                    assert(import(*$p3, ix, i, b));
                }
            }
        }
        closed_is_closed(fs, ix, all);
        assert forall|b: u32| #[trigger] all.contains(b) <==> in_sight(fs, ix, $p2, b) by {
            if in_sight(fs, ix, $p2, b) && b != $p2 {
                let (i, d) = choose|i: int, d: u32| #[trigger] import(fs[$p2 as int], ix, i, d) && reaches(fs, ix, d, b);
                assert(all.contains(d));
            }
        }
    }
//@@ end
//@@ fn prost-reflect/src/descriptor/build/resolve.rs ResolveVisitor::resolve_name
//@@ ret r
//@@ subst? format ! ( ".{type_name}" ) ==>> dotted(type_name)
//@@ spec
    requires lookup_ready(*old(self), $p3), place_ok(old(self).pool.files@[$p3 as int].raw, $p4@, $p5),
    ensures
        same_world(*old(self), *final(self)),
        match r {
            Some(d) => final(self).errors == old(self).errors
                && (match world_resolved(*old(self), $p3, $p1@, $p2@, $p6) { Outcome::Found(n) => old(self).pool.names@.contains_key(n) && *d == old(self).pool.names@[n], _ => false }),
            None => grows(old(self).errors@, final(self).errors@) && !(world_resolved(*old(self), $p3, $p1@, $p2@, $p6) is Found),
        },
        old(self).errors@.is_prefix_of(final(self).errors@),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/resolve.rs ResolveVisitor::find_message
//@@ ret r
//@@ spec
    requires lookup_ready(*old(self), $p3), place_ok(old(self).pool.files@[$p3 as int].raw, $p4@, $p5),
    ensures
        same_world(*old(self), *final(self)),
        match r {
            Some(m) => final(self).errors == old(self).errors
                && (match world_resolved(*old(self), $p3, $p1@, $p2@, ResolveNameFilter::Message) { Outcome::Found(n) => old(self).pool.names@.contains_key(n) && old(self).pool.names@[n].kind == DefinitionKind::Message(m), _ => false }),
            None => grows(old(self).errors@, final(self).errors@) && !(world_resolved(*old(self), $p3, $p1@, $p2@, ResolveNameFilter::Message) is Found),
        },
        old(self).errors@.is_prefix_of(final(self).errors@),
//@@ start
    proof { found_is_visible(self.pool.files@, self.pool.files@[$p3 as int].transitive_dependencies@, self.pool.names@, scopes($p1@), 0, $p2@, ResolveNameFilter::Message, Outcome::Missing); }
//@@ end
//@@ fn prost-reflect/src/descriptor/build/resolve.rs ResolveVisitor::add_missing_required_field_error
//@@ sig fn add_missing_required_field_error(&mut self, file: FileIndex, path: Vec<i32>)
//@@ spec
    requires old(self).pool.files@.len() > $p1,
    ensures same_world(*old(self), *final(self)), grows(old(self).errors@, final(self).errors@), old(self).errors@.is_prefix_of(final(self).errors@),
//@@ end
//@@ fn prost-reflect/src/descriptor/build/resolve.rs ResolveVisitor::resolve_field_type
//@@ ret r
//@@ subst? $t:id == field_descriptor_proto :: Type :: Group ==>> is_group($t)
//@@ spec
    requires lookup_ready(*old(self), $p4), field_at(old(self).pool.files@[$p4 as int].raw, $p5@) is Some,
    ensures
        same_world(*old(self), *final(self)),
        old(self).errors@.is_prefix_of(final(self).errors@),
        r is None <==> grows(old(self).errors@, final(self).errors@),
        r == field_kind($p1, $p2@, world_resolved(*old(self), $p4, $p3@, $p2@, ResolveNameFilter::FieldType), old(self).pool.names@),
        declared_kind(r, old(self).pool.names@),
//@@ start
    proof { found_is_visible(self.pool.files@, self.pool.files@[$p4 as int].transitive_dependencies@, self.pool.names@, scopes($p3@), 0, $p2@, ResolveNameFilter::FieldType, Outcome::Missing); }
//@@ end
//@@ fn prost-reflect/src/descriptor/build/resolve.rs Visitor for ResolveVisitor::visit_method
//@@ subst? debug_assert_eq ! ( to_index ( $a ) , $b ) ==>> assert(true)
//@@ spec
    requires method_at(old(self).pool.files@[$p3 as int].raw, $p1@) is Some, tail_of($p2@, text_or_empty($p6.name)), lookup_ready(*old(self), $p3), $p4 < old(self).pool.services@.len(), old(self).pool.services@[$p4 as int].methods@.len() == $p5,
    ensures
        old(self).errors@.is_prefix_of(final(self).errors@),
        final(self).pool.services@.len() == old(self).pool.services@.len(),
        final(self).pool.services@[$p4 as int].methods@.len() == $p5 + 1,
        final(self).pool.services@[$p4 as int].methods@.take($p5 as int) == old(self).pool.services@[$p4 as int].methods@,
        // P10: the input and output types are what the names resolve to, or there is an error
        grows(old(self).errors@, final(self).errors@) ||
            (names_message(*old(self), $p3, $p2@, text_or_empty($p6.input_type), final(self).pool.services@[$p4 as int].methods@[$p5 as int].input)
            && names_message(*old(self), $p3, $p2@, text_or_empty($p6.output_type), final(self).pool.services@[$p4 as int].methods@[$p5 as int].output)),
        !grows(old(self).errors@, final(self).errors@) <==> resolves_to_message(*old(self), $p3, $p2@, text_or_empty($p6.input_type)) && resolves_to_message(*old(self), $p3, $p2@, text_or_empty($p6.output_type)),
//@@ after? let input = $x ;
    let ghost mid = *self;
    proof { same_places(old(self).pool.files@[$p3 as int].raw, mid.pool.files@[$p3 as int].raw, $p1@); same_lookups(old(self).pool.files@, mid.pool.files@, old(self).pool.files@[$p3 as int].transitive_dependencies@, old(self).pool.names@, scopes($p2@), text_or_empty($p6.output_type), ResolveNameFilter::Message); }
//@@ end
}
// ---- P21: the extension an option names, from the scope of the declaration
pub mod option_names { use super::*;
pub struct Arc { pub v: DescriptorPoolInner }
pub struct DescriptorPool { pub inner: Arc }
impl DescriptorPool {
    #[verifier::external_body]
    fn clone(&self) -> (r: DescriptorPool) ensures r == *self { unimplemented!() }
}
pub type ExtensionIndex = u32;
#[verifier::external_body] pub struct MessageDescriptor { x: u8 }
pub struct ExtensionDescriptor { pub pool: DescriptorPool, pub index: ExtensionIndex }
/// lookup.rs
pub uninterp spec fn extendee_of(d: ExtensionDescriptor) -> MessageDescriptor;
impl ExtensionDescriptor {
    #[verifier::external_body]
    fn containing_message(&self) -> (r: MessageDescriptor) ensures r == extendee_of(*self) { unimplemented!() }
}
#[verifier::external_body]
fn same_message(a: MessageDescriptor, b: &MessageDescriptor) -> (r: bool) ensures r == (a == *b) { unimplemented!() }
#[verifier::external_body]
fn of_another(p: &DescriptorPool, file: u32) -> DescriptorErrorKind requires file < p.inner.v.files@.len() { unimplemented!() }
pub struct OptionsVisitor<'a> { pub pool: &'a DescriptorPool }
impl OptionsVisitor<'_> {
//@@ fn prost-reflect/src/descriptor/build/options.rs OptionsVisitor::find_extension
//@@ sig fn find_extension(&self, scope: &str, name: &str, file: FileIndex, path: &[i32], extendee: &MessageDescriptor) -> (r: Result<ExtensionDescriptor, DescriptorErrorKind>)
//@@ subst? & self . pool . inner . ==>> &self.pool.inner.v.
//@@ subst? let & $t:id $b:b = $d:id else ==>> let $t $b = *$d else
//@@ subst? unreachable ! ( ) ==>> unreached()
//@@ subst? $a:e == * extendee ==>> same_message($a, extendee)
//@@ subst? DescriptorErrorKind :: InvalidOptionExtendee $b:b ==>> of_another(self.pool, file)
//@@ spec
    requires ready_in(self.pool.inner.v, $p3),
    ensures ({
        let p = self.pool.inner.v;
        let o = resolved(p.files@, p.files@[$p3 as int].transitive_dependencies@, p.names@, $p1@, $p2@, ResolveNameFilter::Extension);
        match r {
            Ok(d) => o is Found && p.names@.contains_key(o->Found_0) && p.names@[o->Found_0].kind == DefinitionKind::Extension(d.index) && d.pool == *self.pool && extendee_of(d) == *$p5,
            Err(_) => !(o is Found) || exists|d: ExtensionDescriptor| d.pool == *self.pool && p.names@[o->Found_0].kind == DefinitionKind::Extension(d.index) && #[trigger] extendee_of(d) != *$p5,
        }
    }),
//@@ start
    proof { found_is_visible(self.pool.inner.v.files@, self.pool.inner.v.files@[$p3 as int].transitive_dependencies@, self.pool.inner.v.names@, scopes($p1@), 0, $p2@, ResolveNameFilter::Extension, Outcome::Missing); }
//@@ end
}
}
fn main() {}
}
