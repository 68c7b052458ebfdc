pub type Defs = Map<Seq<char>, Definition>;
pub enum Outcome { Found(Seq<char>), Wrong(Seq<char>), Hidden(Seq<char>), Shadowed(Seq<char>, Seq<char>), Missing }
/// The kinds of definition a reference may name.
pub open spec fn fits(f: ResolveNameFilter, k: DefinitionKind) -> bool {
    match f {
        ResolveNameFilter::Message => k is Message,
        ResolveNameFilter::Extension => k is Extension,
        ResolveNameFilter::FieldType => k is Message || k is Enum,
    }
}
/// A fully-qualified name: it must be declared, in a visible file, and be of a fitting kind.
pub open spec fn look(deps: Set<u32>, names: Defs, name: Seq<char>, f: ResolveNameFilter) -> Outcome {
    if !names.contains_key(name) { Outcome::Missing }
    else if !deps.contains(names[name].file) { Outcome::Hidden(name) }
    else if !fits(f, names[name].kind) { Outcome::Wrong(name) }
    else { Outcome::Found(name) }
}
pub open spec fn scopes(s: Seq<char>) -> Seq<Seq<char>> { seq![s] + outer(s, s.len() as int) + seq![Seq::<char>::empty()] }
pub open spec fn within(scope: Seq<char>, name: Seq<char>) -> Seq<char> { if scope.len() == 0 { name } else { scope + seq!['.'] + name } }
/// Length of the first component of a dotted name.
pub open spec fn first_len(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 || s[0] == '.' { 0 } else { 1 + first_len(s.skip(1)) }
}
pub open spec fn first(s: Seq<char>) -> Seq<char> { s.take(first_len(s)) }
pub proof fn first_len_bounds(s: Seq<char>)
    ensures 0 <= first_len(s) <= s.len(),
    decreases s.len()
{
    if s.len() > 0 && s[0] != '.' { first_len_bounds(s.skip(1)); }
}
/// The package p is the scope `name`, or lies within it.
pub open spec fn opens(p: Seq<char>, name: Seq<char>) -> bool {
    name.is_prefix_of(p) && (p.len() == name.len() || p[name.len() as int] == '.')
}
pub open spec fn package_of(files: Seq<FileDescriptorInner>, i: u32) -> Seq<char> { text_or_empty(files[i as int].raw.package) }
/// Definitions inside which others are declared.
pub open spec fn parent(k: DefinitionKind) -> bool { k is Package || k is Message || k is Service || k is Enum }
/// A scope counts if a visible file declares it; packages are declared by every file in them.
pub open spec fn visible(files: Seq<FileDescriptorInner>, deps: Set<u32>, name: Seq<char>, def: Definition) -> bool {
    if def.kind is Package { exists|i: u32| #[trigger] deps.contains(i) && opens(package_of(files, i), name) } else { deps.contains(def.file) }
}
pub open spec fn is_scope(files: Seq<FileDescriptorInner>, deps: Set<u32>, names: Defs, name: Seq<char>) -> bool {
    names.contains_key(name) && parent(names[name].kind) && visible(files, deps, name, names[name])
}
pub open spec fn or(a: Outcome, b: Outcome) -> Outcome { if a is Missing { b } else { a } }
/// A relative name, looked up from the i-th scope outwards.
pub open spec fn scan(files: Seq<FileDescriptorInner>, deps: Set<u32>, names: Defs, ps: Seq<Seq<char>>, i: int, n: Seq<char>, f: ResolveNameFilter, err: Outcome) -> Outcome
    decreases ps.len() - i
{
    if i < 0 || i >= ps.len() { err } else {
        let o = look(deps, names, within(ps[i], n), f);
        let scope = within(ps[i], first(n));
        if first_len(n) == n.len() {
            if o is Found { o } else { scan(files, deps, names, ps, i + 1, n, f, or(err, o)) }
        } else if !(names.contains_key(scope) && parent(names[scope].kind)) { scan(files, deps, names, ps, i + 1, n, f, err) }
        else if !visible(files, deps, scope, names[scope]) { scan(files, deps, names, ps, i + 1, n, f, or(err, o)) }
        else if o is Missing { Outcome::Shadowed(n, within(ps[i], n)) }
        else { o }
    }
}
pub open spec fn resolved(files: Seq<FileDescriptorInner>, deps: Set<u32>, names: Defs, scope: Seq<char>, n: Seq<char>, f: ResolveNameFilter) -> Outcome {
    if n.len() > 0 && n[0] == '.' { look(deps, names, n.skip(1), f) }
    else if scope.len() == 0 { look(deps, names, n, f) }
    else { scan(files, deps, names, scopes(scope), 0, n, f, Outcome::Missing) }
}
pub open spec fn in_range(deps: Set<u32>, n: int) -> bool { forall|i: u32| #[trigger] deps.contains(i) ==> i < n }
pub open spec fn world_resolved(v: ResolveVisitor, file: u32, scope: Seq<char>, n: Seq<char>, f: ResolveNameFilter) -> Outcome {
    resolved(v.pool.files@, v.pool.files@[file as int].transitive_dependencies@, v.pool.names@, scope, n, f)
}
pub open spec fn lookup_ready(v: ResolveVisitor, file: u32) -> bool { ready_in(*v.pool, file) }
pub open spec fn ready_in(p: DescriptorPoolInner, file: u32) -> bool {
    &&& file < p.files@.len()
    &&& in_range(p.files@[file as int].transitive_dependencies@, p.files@.len() as int)
    &&& forall|n: Seq<char>| p.names@.contains_key(n) ==> (#[trigger] p.names@[n]).file < p.files@.len()
}
/// What the lookup of names depends on.
pub open spec fn same_world(a: ResolveVisitor, b: ResolveVisitor) -> bool {
    &&& *b.pool == (DescriptorPoolInner { files: b.pool.files, ..*a.pool })
    &&& b.pool.files@.len() == a.pool.files@.len()
    &&& forall|i: int| 0 <= i < a.pool.files@.len() ==> same_file(a.pool.files@[i], #[trigger] b.pool.files@[i])
}
pub open spec fn same_file(a: FileDescriptorInner, b: FileDescriptorInner) -> bool { b == (FileDescriptorInner { raw: b.raw, ..a }) && same_shape(a.raw, b.raw) }
/// The kind of a field with the given declared type and type name.
pub open spec fn field_kind(ty: field_descriptor_proto::Type, name: Seq<char>, o: Outcome, names: Defs) -> Option<KindIndex> {
    if name.len() == 0 { scalar_kind(ty) } else {
        match o {
            Outcome::Found(n) => match names[n].kind {
                DefinitionKind::Message(m) => if ty is Group { Some(KindIndex::Group(m)) } else { Some(KindIndex::Message(m)) },
                DefinitionKind::Enum(e) => Some(KindIndex::Enum(e)),
                _ => None,
            },
            _ => None,
        }
    }
}
/// An enum or message type is one that is declared.
pub open spec fn declared_kind(k: Option<KindIndex>, names: Defs) -> bool {
    match k {
        Some(KindIndex::Enum(e)) => exists|n: Seq<char>| #[trigger] names.contains_key(n) && names[n].kind == DefinitionKind::Enum(e),
        Some(KindIndex::Message(m)) | Some(KindIndex::Group(m)) => exists|n: Seq<char>| #[trigger] names.contains_key(n) && names[n].kind == DefinitionKind::Message(m),
        _ => true,
    }
}
pub open spec fn scalar_kind(ty: field_descriptor_proto::Type) -> Option<KindIndex> {
    match ty {
        field_descriptor_proto::Type::Double => Some(KindIndex::Double), field_descriptor_proto::Type::Float => Some(KindIndex::Float),
        field_descriptor_proto::Type::Int64 => Some(KindIndex::Int64), field_descriptor_proto::Type::Uint64 => Some(KindIndex::Uint64),
        field_descriptor_proto::Type::Int32 => Some(KindIndex::Int32), field_descriptor_proto::Type::Uint32 => Some(KindIndex::Uint32),
        field_descriptor_proto::Type::Fixed64 => Some(KindIndex::Fixed64), field_descriptor_proto::Type::Fixed32 => Some(KindIndex::Fixed32),
        field_descriptor_proto::Type::Sfixed64 => Some(KindIndex::Sfixed64), field_descriptor_proto::Type::Sfixed32 => Some(KindIndex::Sfixed32),
        field_descriptor_proto::Type::Sint64 => Some(KindIndex::Sint64), field_descriptor_proto::Type::Sint32 => Some(KindIndex::Sint32),
        field_descriptor_proto::Type::Bool => Some(KindIndex::Bool), field_descriptor_proto::Type::String => Some(KindIndex::String),
        field_descriptor_proto::Type::Bytes => Some(KindIndex::Bytes),
        field_descriptor_proto::Type::Group | field_descriptor_proto::Type::Message | field_descriptor_proto::Type::Enum => None,
    }
}
/// Lookups depend on the packages of the files only.
proof fn same_lookups(a: Seq<FileDescriptorInner>, b: Seq<FileDescriptorInner>, deps: Set<u32>, names: Defs, ps: Seq<Seq<char>>, n: Seq<char>, f: ResolveNameFilter)
    requires a.len() == b.len(), in_range(deps, a.len() as int), forall|i: int| 0 <= i < a.len() ==> same_file(a[i], #[trigger] b[i]),
    ensures scan(a, deps, names, ps, 0, n, f, Outcome::Missing) == scan(b, deps, names, ps, 0, n, f, Outcome::Missing),
{
    assert forall|name: Seq<char>, def: Definition| #[trigger] visible(a, deps, name, def) == visible(b, deps, name, def) by {
        if def.kind is Package {
            if visible(a, deps, name, def) { let i = choose|i: u32| #[trigger] deps.contains(i) && opens(package_of(a, i), name); assert(same_file(a[i as int], b[i as int])); assert(opens(package_of(b, i), name)); }
            if visible(b, deps, name, def) { let i = choose|i: u32| #[trigger] deps.contains(i) && opens(package_of(b, i), name); assert(same_file(a[i as int], b[i as int])); assert(opens(package_of(a, i), name)); }
        }
    }
    same_scans(a, b, deps, names, ps, 0, n, f, Outcome::Missing);
}
proof fn same_scans(a: Seq<FileDescriptorInner>, b: Seq<FileDescriptorInner>, deps: Set<u32>, names: Defs, ps: Seq<Seq<char>>, i: int, n: Seq<char>, f: ResolveNameFilter, err: Outcome)
    requires forall|name: Seq<char>, def: Definition| #[trigger] visible(a, deps, name, def) == visible(b, deps, name, def),
    ensures scan(a, deps, names, ps, i, n, f, err) == scan(b, deps, names, ps, i, n, f, err),
    decreases ps.len() - i
{
    if 0 <= i < ps.len() {
        let o = look(deps, names, within(ps[i], n), f);
        same_scans(a, b, deps, names, ps, i + 1, n, f, err);
        same_scans(a, b, deps, names, ps, i + 1, n, f, or(err, o));
    }
}
