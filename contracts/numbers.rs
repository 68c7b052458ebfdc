//@@ props P09 P11 P19 P20
//@@ include head.rs
use vstd::string::*;
use vstd::utf8::*;
//@@ include names.rs
//@@ include bytes.rs
//@@ include own_value.rs
#[verifier::external_body]
fn unreached<A>() -> A requires false { unimplemented!() }
//@@ include btree.rs
//@@ include pool.rs
//@@ include errors.rs
//@@ include identity.rs
//@@ include tag.rs
broadcast use group_utf8_lib;
//@@ item prost-reflect/src/descriptor/build/resolve.rs struct ResolveVisitor
//@@ item-subst : Range < i32 > = $a .. $b ; ==>> : (i32, i32) = ($a, $b);
//@@ item prost-reflect/src/descriptor/mod.rs const RESERVED_MESSAGE_FIELD_NUMBERS
//@@ item-subst : Range < i32 > = $a .. $b ; ==>> : (i32, i32) = ($a, $b);
//@@ item prost-reflect/src/descriptor/mod.rs const VALID_MESSAGE_FIELD_NUMBERS
//@@ include protos.rs
//@@ include tables.rs
//@@ include prefix.rs
//@@ include dots.rs
//@@ include paths.rs
#[derive(Clone, Copy)]
//@@ item prost-reflect/src/descriptor/build/mod.rs enum ResolveNameFilter
//@@ include scoping.rs
//@@ include decimal.rs
//@@ include escape.rs
//@@ include default.rs
//@@ include chars.rs
//@@ include jsonname.rs
// ---- specification
pub open spec fn grows<T>(a: Seq<T>, b: Seq<T>) -> bool { b.len() > a.len() }
pub open spec fn more(a: ResolveVisitor, b: ResolveVisitor, e: bool) -> bool { a.errors@.is_prefix_of(b.errors@) && (grows(a.errors@, b.errors@) <==> e) }
/// P09: 1..2^29-1 without 19000..19999
pub open spec fn usable(n: int) -> bool { 1 <= n < 0x2000_0000 && !(19000 <= n < 20000) }
pub open spec fn reserved(m: DescriptorProto, n: int, k: int) -> bool { exists|i: int| 0 <= i < k && in_reserved(#[trigger] m.reserved_range@[i], n) }
pub open spec fn in_reserved(r: ReservedRange, n: int) -> bool { int_or_zero(r.start) <= n < int_or_zero(r.end) }
pub open spec fn in_extensions(r: ExtensionRange, n: int) -> bool { int_or_zero(r.start) <= n < int_or_zero(r.end) }
pub open spec fn for_extensions(m: DescriptorProto, n: int, k: int) -> bool { exists|i: int| 0 <= i < k && in_extensions(#[trigger] m.extension_range@[i], n) }
/// P09: the number of a field or extension of message m breaks a rule.
pub open spec fn bad_number(m: DescriptorProto, f: FieldDescriptorProto) -> bool {
    let n = int_or_zero(f.number) as int;
    !usable(n) || reserved(m, n, m.reserved_range@.len() as int) || (f.extendee is Some) != for_extensions(m, n, m.extension_range@.len() as int)
}
pub open spec fn in_enum_reserved(r: EnumReservedRange, n: int) -> bool { int_or_zero(r.start) <= n <= int_or_zero(r.end) }
pub open spec fn enum_reserved(e: EnumDescriptorProto, n: int, k: int) -> bool { exists|i: int| 0 <= i < k && in_enum_reserved(#[trigger] e.reserved_range@[i], n) }
fn between(r: (i32, i32), n: i32) -> (b: bool) ensures b == (r.0 <= n < r.1) { r.0 <= n && n < r.1 }
#[verifier::external_body]
fn closed_range(a: i32, b: i32) -> RangeInclusive<i32> { unimplemented!() }
pub mod field_descriptor_proto { use super::*;
#[derive(Clone, Copy)]
//@@ item prost-types:src/protobuf.rs enum Type
#[derive(Clone, Copy)]
//@@ item prost-types:src/protobuf.rs enum Label
}
/// The enumerations as prost reads them: unset or unknown is the first one.
pub open spec fn cardinality_of(f: FieldDescriptorProto) -> Cardinality { if f.label == Some(2i32) { Cardinality::Required } else if f.label == Some(3i32) { Cardinality::Repeated } else { Cardinality::Optional } }
pub uninterp spec fn type_of(f: FieldDescriptorProto) -> field_descriptor_proto::Type;
impl FieldDescriptorProto {
    #[verifier::external_body]
    fn label(&self) -> (r: field_descriptor_proto::Label)
        ensures match cardinality_of(*self) { Cardinality::Optional => r is Optional, Cardinality::Required => r is Required, Cardinality::Repeated => r is Repeated } { unimplemented!() }
    #[verifier::external_body]
    fn r#type(&self) -> (r: field_descriptor_proto::Type) ensures r == type_of(*self) { unimplemented!() }
}
#[verifier::external_body]
fn text_of(v: &Option<String>) -> (r: Option<&str>) ensures match r { Some(s) => *v is Some && v->0@ == s@, None => *v is None } { unimplemented!() }
/// The JSON name of a field: as declared, or derived from its name (see json_name.rs).
pub open spec fn json_name_of(f: FieldDescriptorProto) -> Seq<char> { match f.json_name { Some(s) => s@, None => json_name(text_or_empty(f.name)) } }
/// Which declared type a field gets, and which message a name refers to.
pub open spec fn resolved_in(p: DescriptorPoolInner, file: u32, scope: Seq<char>, name: Seq<char>, f: ResolveNameFilter) -> Outcome { resolved(p.files@, p.files@[file as int].transitive_dependencies@, p.names@, scope, name, f) }
pub open spec fn kind_in(p: DescriptorPoolInner, file: u32, scope: Seq<char>, ty: field_descriptor_proto::Type, name: Seq<char>) -> Option<KindIndex> {
    field_kind(ty, name, resolved_in(p, file, scope, name, ResolveNameFilter::FieldType), p.names@)
}
pub open spec fn message_in(p: DescriptorPoolInner, file: u32, scope: Seq<char>, name: Seq<char>) -> Option<u32> {
    match resolved_in(p, file, scope, name, ResolveNameFilter::Message) {
        Outcome::Found(n) => match p.names@[n].kind { DefinitionKind::Message(m) => Some(m), _ => None },
        _ => None,
    }
}
/// Names of messages and enums lead to messages and enums that are declared where they say, with named values.
pub open spec fn names_lead(p: DescriptorPoolInner) -> bool {
    forall|n: Seq<char>| #[trigger] p.names@.contains_key(n) ==> match p.names@[n].kind {
        DefinitionKind::Message(m) => message_placed(p, m),
        DefinitionKind::Enum(e) => e < p.enums@.len() && enum_named(p.enums@[e as int]),
        _ => true,
    }
}
pub open spec fn raw_of(p: DescriptorPoolInner, file: u32) -> FileDescriptorProto { p.files@[file as int].raw }
/// The path leads to the field as declared.
pub open spec fn field_placed(p: DescriptorPoolInner, file: u32, path: Seq<i32>, f: FieldDescriptorProto) -> bool {
    field_at(raw_of(p, file), path) is Some && text_or_empty(field_at(raw_of(p, file), path)->0.name) == text_or_empty(f.name)
}
/// Only declarations changed, and what messages hold.
pub open spec fn near(a: DescriptorPoolInner, b: DescriptorPoolInner) -> bool {
    &&& b == (DescriptorPoolInner { files: b.files, messages: b.messages, ..a })
    &&& b.files@.len() == a.files@.len() && forall|i: int| 0 <= i < a.files@.len() ==> same_file(a.files@[i], #[trigger] b.files@[i])
    &&& b.messages@.len() == a.messages@.len() && forall|i: int| 0 <= i < a.messages@.len() ==> (#[trigger] b.messages@[i]).id == a.messages@[i].id
}
proof fn near_trans(a: DescriptorPoolInner, b: DescriptorPoolInner, c: DescriptorPoolInner)
    requires near(a, b), near(b, c),
    ensures near(a, c),
{
    assert forall|i: int| 0 <= i < a.files@.len() implies same_file(a.files@[i], #[trigger] c.files@[i]) by {
        assert(same_file(a.files@[i], b.files@[i]));
        same_shape_trans(a.files@[i].raw, b.files@[i].raw, c.files@[i].raw);
    }
    assert forall|i: int| 0 <= i < a.messages@.len() implies (#[trigger] c.messages@[i]).id == a.messages@[i].id by { assert(b.messages@[i].id == a.messages@[i].id); }
}
/// Resolving leaves lookups and places as they are.
#[verifier::spinoff_prover]
proof fn steady(a: DescriptorPoolInner, b: DescriptorPoolInner, file: u32, path: Seq<i32>, f: FieldDescriptorProto)
    requires near(a, b), ready_in(a, file), field_placed(a, file, path, f), names_lead(a),
    ensures
        ready_in(b, file), field_placed(b, file, path, f), names_lead(b),
        forall|s: Seq<char>, n: Seq<char>, t: ResolveNameFilter| #[trigger] resolved_in(b, file, s, n, t) == resolved_in(a, file, s, n, t),
        forall|m: u32| #[trigger] message_placed(a, m) ==> message_placed(b, m) && like(declaration(a, m), declaration(b, m)),
        forall|k: KindIndex, t: Seq<char>, u: Seq<u8>, r: Option<Value>| #[trigger] default_means(b, k, t, u, r) == default_means(a, k, t, u, r),
        forall|k: KindIndex| declared_kind(Some(k), a.names@) ==> #[trigger] kind_named(b, k),
{
    same_places(raw_of(a, file), raw_of(b, file), path);
    assert(same_file(a.files@[file as int], b.files@[file as int]));
    assert forall|s: Seq<char>, n: Seq<char>, t: ResolveNameFilter| #[trigger] resolved_in(b, file, s, n, t) == resolved_in(a, file, s, n, t) by {
        same_lookups(a.files@, b.files@, a.files@[file as int].transitive_dependencies@, a.names@, scopes(s), n, t);
    }
    assert forall|m: u32| #[trigger] message_placed(a, m) implies message_placed(b, m) && like(declaration(a, m), declaration(b, m)) by {
        let f = a.messages@[m as int].id.file as int;
        assert(b.messages@[m as int].id == a.messages@[m as int].id);
        assert(same_file(a.files@[f], b.files@[f]));
        assert(message_at(a.files@[f].raw, a.messages@[m as int].id.path@) is Some);
    }
    assert forall|n: Seq<char>| #[trigger] b.names@.contains_key(n) implies (match b.names@[n].kind { DefinitionKind::Message(m) => message_placed(b, m), _ => true }) by {
        assert(a.names@.contains_key(n));
        match a.names@[n].kind { DefinitionKind::Message(m) => { assert(message_placed(a, m)); }, _ => {} }
    }
}
#[verifier::external_body]
fn bracketed(s: &str) -> (r: String) ensures r@ == seq!['['] + s@ + seq![']'] { unimplemented!() }
pub open spec fn packed_option(f: FieldDescriptorProto) -> Option<bool> { match f.options { Some(o) => o.value.packed, None => None } }
/// P11: the rules for packedness and presence
pub open spec fn packed_of(f: FieldDescriptorProto, k: Option<KindIndex>, s: Syntax) -> bool {
    cardinality_of(f) == Cardinality::Repeated && k is Some && packable(k->0) && (match packed_option(f) { Some(b) => b, None => s == Syntax::Proto3 })
}
pub open spec fn presence_of(f: FieldDescriptorProto, k: Option<KindIndex>, s: Syntax) -> bool {
    f.proto3_optional == Some(true) || f.oneof_index is Some || (cardinality_of(f) != Cardinality::Repeated && ((k is Some && (k->0 is Message || k->0 is Group)) || s == Syntax::Proto2))
}
pub open spec fn oneof_of(f: FieldDescriptorProto, m: MessageDescriptorInner) -> Option<u32> {
    match f.oneof_index { Some(i) => if 0 <= i < m.oneofs@.len() { Some(i as u32) } else { None }, None => None }
}
pub open spec fn bad_oneof(f: FieldDescriptorProto, m: MessageDescriptorInner) -> bool { f.oneof_index is Some && oneof_of(f, m) is None }
pub open spec fn field_number(f: FieldDescriptorProto) -> u32 { int_or_zero(f.number) as u32 }
/// What the visit of a field changes outside the message.
pub open spec fn same_but_raw(a: DescriptorPoolInner, b: DescriptorPoolInner) -> bool {
    &&& b == (DescriptorPoolInner { files: b.files, messages: b.messages, ..a })
    &&& b.files@.len() == a.files@.len() && forall|i: int| 0 <= i < a.files@.len() ==> same_file(a.files@[i], #[trigger] b.files@[i])
}
/// P19: the default of a field of kind k.
pub open spec fn default_of(p: DescriptorPoolInner, f: FieldDescriptorProto, k: Option<KindIndex>, d: Option<Value>) -> bool {
    match (k, f.default_value) { (Some(k), Some(t)) => default_means(p, k, t@, encode_utf8(t@), d), _ => d is None }
}
// ---- the code
impl KindIndex {
//@@ fn prost-reflect/src/descriptor/mod.rs KindIndex::is_packable
//@@ ret r
//@@ spec
    ensures r == packable(*self),
//@@ end
//@@ fn prost-reflect/src/descriptor/mod.rs KindIndex::is_message
//@@ ret r
//@@ spec
    ensures r == (*self is Message || *self is Group),
//@@ end
}
impl ResolveVisitor<'_> {
//@@ fn prost-reflect/src/descriptor/build/resolve.rs ResolveVisitor::check_field_number
//@@ subst? $c:id . contains ( & $n:e ) ==>> between($c, $n)
//@@ subst? for ( $i:id , $d:id ) in $e:e . iter ( ) . enumerate ( ) $b:b ==>> { let mut k_: usize = 0; while k_ < $e.len() { let $i = k_; let $d = &$e[k_]; k_ += 1; $b } }
//@@ subst? $e:e . iter ( ) . enumerate ( ) . find ( | ( _ , $r:id ) | $c ) ==>> { let mut k_: usize = 0; let mut f_: Option<(usize, &ExtensionRange)> = None; while k_ < $e.len() && f_.is_none() { let $r = &$e[k_]; if $c { f_ = Some((k_, $r)); } k_ += 1; } f_ }
//@@ subst? message . id . full_name ( ) . to_owned ( ) ==>> owned(message.id.full_name())
//@@ loop 0
    invariant
        0 <= k_ <= message_proto.reserved_range@.len(), *self.pool == *old(self).pool, *message_proto == decl0,
        message.id.file < self.pool.files@.len(), $p3 < self.pool.files@.len(),
        more(*old(self), *self, !usable(int_or_zero($p2.number) as int) || reserved(*message_proto, int_or_zero($p2.number) as int, k_ as int)),
    decreases message_proto.reserved_range@.len() - k_,
//@@ loop 1
    invariant
        0 <= k_ <= message_proto.extension_range@.len(), *self.pool == *old(self).pool, *message_proto == decl0,
        f_ is None ==> !for_extensions(*message_proto, int_or_zero($p2.number) as int, k_ as int),
        f_ is Some ==> for_extensions(*message_proto, int_or_zero($p2.number) as int, message_proto.extension_range@.len() as int),
    decreases message_proto.extension_range@.len() - k_,
//@@ spec
    requires message_placed(*old(self).pool, $p1), $p3 < old(self).pool.files@.len(),
    ensures
        *final(self).pool == *old(self).pool,
        more(*old(self), *final(self), bad_number(declaration(*old(self).pool, $p1), *$p2)),
//@@ start
    let ghost decl0 = declaration(*self.pool, $p1);
//@@ end
//@@ fn prost-reflect/src/descriptor/build/resolve.rs ResolveVisitor::check_enum_number
//@@ subst? for ( $i:id , $d:id ) in $e:e . iter ( ) . enumerate ( ) $b:b ==>> { let mut k_: usize = 0; while k_ < $e.len() { let $i = k_; let $d = &$e[k_]; k_ += 1; $b } }
//@@ subst? range . start ( ) ..= range . end ( ) ==>> closed_range(range.start(), range.end())
//@@ loop 0
    invariant
        0 <= k_ <= enum_proto.reserved_range@.len(), *self.pool == *old(self).pool, *enum_proto == decl0,
        enum_.id.file < self.pool.files@.len(), $p3 < self.pool.files@.len(),
        more(*old(self), *self, enum_reserved(*enum_proto, int_or_zero($p2.number) as int, k_ as int)),
    decreases enum_proto.reserved_range@.len() - k_,
//@@ spec
    requires enum_placed(*old(self).pool, $p1), $p3 < old(self).pool.files@.len(),
    ensures
        *final(self).pool == *old(self).pool,
        more(*old(self), *final(self), enum_reserved(enum_declaration(*old(self).pool, $p1), int_or_zero($p2.number) as int, enum_declaration(*old(self).pool, $p1).reserved_range@.len() as int)),
//@@ start
    let ghost decl0 = enum_declaration(*self.pool, $p1);
//@@ end
//@@ fn prost-reflect/src/descriptor/build/resolve.rs Visitor for ResolveVisitor::visit_enum_value
//@@ subst $v:e . binary_search_by ( | ( $n:id , _ ) | $n:id . cmp ( & $x:e ) ) ==>> search(&$v, $x)
//@@ subst? $f:id . name ( ) . into ( ) ==>> owned($f.name())
//@@ subst? full_name . to_owned ( ) ==>> owned(full_name)
//@@ spec
    requires
        enum_placed(*old(self).pool, $p4), $p3 < old(self).pool.files@.len(), enum_tables(old(self).pool.enums@[$p4 as int]), $p5 < old(self).pool.enums@[$p4 as int].values@.len(),
    ensures
        ({
            let e = old(self).pool.enums@[$p4 as int]; let f = final(self).pool.enums@[$p4 as int];
            &&& *final(self).pool == (DescriptorPoolInner { enums: final(self).pool.enums, ..*old(self).pool })
            &&& final(self).pool.enums@ == old(self).pool.enums@.update($p4 as int, f)
            &&& f == (EnumDescriptorInner { value_numbers: f.value_numbers, value_names: f.value_names, ..e })
            // P11: the tables find the new value under its number and name, and stay as they were otherwise
            &&& enum_tables(f)
            &&& exists|i: int| 0 <= i <= e.value_numbers@.len() && f.value_numbers@ == #[trigger] e.value_numbers@.insert(i, (int_or_zero($p6.number), $p5))
            &&& f.value_names@ == e.value_names@.insert(text_or_empty($p6.name), $p5)
            // P09: numbers are unique unless aliased, and not reserved
            &&& more(*old(self), *final(self), (!e.allow_alias && has_number(e.value_numbers@, int_or_zero($p6.number))) || e.value_names@.contains_key(text_or_empty($p6.name))
                || enum_reserved(enum_declaration(*old(self).pool, $p4), int_or_zero($p6.number) as int, enum_declaration(*old(self).pool, $p4).reserved_range@.len() as int))
        }),
//@@ end
    /// Under contract in resolve.rs.
    #[verifier::external_body]
    fn resolve_field_type(&mut self, ty: field_descriptor_proto::Type, ty_name: &str, scope: &str, file: FileIndex, path: &[i32]) -> (r: Option<KindIndex>)
        requires lookup_ready(*old(self), file), field_at(raw_of(*old(self).pool, file), path@) is Some,
        ensures
            same_world(*old(self), *final(self)), old(self).errors@.is_prefix_of(final(self).errors@), r is None <==> grows(old(self).errors@, final(self).errors@),
            r == field_kind(ty, ty_name@, world_resolved(*old(self), file, scope@, ty_name@, ResolveNameFilter::FieldType), old(self).pool.names@), declared_kind(r, old(self).pool.names@) { unimplemented!() }
    /// Under contract in paths.rs.
    #[verifier::external_body]
    fn resolve_field_json_name<'b>(&'b mut self, field: &'b FieldDescriptorProto, file: FileIndex, path: &[i32]) -> (r: &'b str)
        requires file < old(self).pool.files@.len(), field.json_name is None ==> field_placed(*old(self).pool, file, path@, *field),
        ensures same_world(*old(self), *final(self)), final(self).errors == old(self).errors, r@ == json_name_of(*field) { unimplemented!() }
    /// Under contract in defaults.rs.
    #[verifier::external_body]
    fn parse_field_default_value(&mut self, kind: KindIndex, default_value: Option<&str>, file: FileIndex, path: &[i32]) -> (r: Option<Value>)
        requires file < old(self).pool.files@.len(), kind_named(*old(self).pool, kind),
        ensures *final(self).pool == *old(self).pool, more(*old(self), *final(self), default_value is Some && r is None),
            match default_value { Some(t) => default_means(*old(self).pool, kind, t@, encode_utf8(t@), r), None => r is None } { unimplemented!() }
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
//@@ fn prost-reflect/src/descriptor/build/resolve.rs Visitor for ResolveVisitor::visit_field
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? let json_name : Box < str > = $x . into ( ) ; ==>> let json_name: String = owned($x);
//@@ subst? $x:e . is_some_and ( | $k:id | $c ) ==>> (match $x { Some($k) => $c, None => false })
//@@ subst? field . options . as_ref ( ) . and_then ( | $o:id | $c ) . unwrap_or ( $d ) ==>> (match (match &field.options { Some($o) => $c, None => None }) { Some(v_) => v_, None => $d })
//@@ subst? $x:e . and_then ( | $k:id | $b:b ) ==>> (match $x { Some($k) => $b, None => None })
//@@ subst? $f:e . as_deref ( ) ==>> text_of(&$f)
//@@ subst? $f:id . name ( ) . into ( ) ==>> owned($f.name())
//@@ subst? full_name . to_owned ( ) ==>> owned(full_name)
//@@ subst? $f:id . json_name ( ) . to_owned ( ) ==>> owned($f.json_name())
//@@ subst? json_name . clone ( ) ==>> owned(json_name.as_str())
//@@ spec
    requires
        lookup_ready(*old(self), $p3), field_placed(*old(self).pool, $p3, $p1@, *$p6), names_lead(*old(self).pool),
        message_placed(*old(self).pool, $p4), $p3 < old(self).pool.files@.len(), message_tables(old(self).pool.messages@[$p4 as int]),
        $p5 == old(self).pool.messages@[$p4 as int].fields@.len(), tail_of($p2@, text_or_empty($p6.name)),
    ensures
        ({ let k = kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name)); let s = old(self).pool.files@[$p3 as int].syntax; let m = old(self).pool.messages@[$p4 as int]; let n = final(self).pool.messages@[$p4 as int]; let f = n.fields@.last();
            same_but_raw(*old(self).pool, *final(self).pool) }),
        ({ let k = kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name)); let s = old(self).pool.files@[$p3 as int].syntax; let m = old(self).pool.messages@[$p4 as int]; let n = final(self).pool.messages@[$p4 as int]; let f = n.fields@.last();
            final(self).pool.messages@ == old(self).pool.messages@.update($p4 as int, n) }),
        ({ let k = kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name)); let s = old(self).pool.files@[$p3 as int].syntax; let m = old(self).pool.messages@[$p4 as int]; let n = final(self).pool.messages@[$p4 as int]; let f = n.fields@.last();
            n == (MessageDescriptorInner { fields: n.fields, field_numbers: n.field_numbers, field_names: n.field_names, field_json_names: n.field_json_names, oneofs: n.oneofs, ..m }) }),
        // P11: the field as declared, found under its number and names
        ({ let k = kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name)); let s = old(self).pool.files@[$p3 as int].syntax; let m = old(self).pool.messages@[$p4 as int]; let n = final(self).pool.messages@[$p4 as int]; let f = n.fields@.last();
            n.fields@ == m.fields@.push(f) }),
        ({ let k = kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name)); let s = old(self).pool.files@[$p3 as int].syntax; let m = old(self).pool.messages@[$p4 as int]; let n = final(self).pool.messages@[$p4 as int]; let f = n.fields@.last();
            f.number == field_number(*$p6) && f.id.full_name@ == $p2@ && f.id.name_of(text_or_empty($p6.name)) && f.json_name@ == json_name_of(*$p6) && f.cardinality == cardinality_of(*$p6) }),
        ({ let k = kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name)); let s = old(self).pool.files@[$p3 as int].syntax; let m = old(self).pool.messages@[$p4 as int]; let n = final(self).pool.messages@[$p4 as int]; let f = n.fields@.last();
            f.is_packed == packed_of(*$p6, k, s) && f.supports_presence == presence_of(*$p6, k, s) && f.oneof == oneof_of(*$p6, m) && (k is Some ==> f.kind == k->0) }),
        ({ let k = kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name)); let s = old(self).pool.files@[$p3 as int].syntax; let m = old(self).pool.messages@[$p4 as int]; let n = final(self).pool.messages@[$p4 as int]; let f = n.fields@.last();
            n.field_numbers@ == m.field_numbers@.insert(field_number(*$p6), $p5) }),
        ({ let k = kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name)); let s = old(self).pool.files@[$p3 as int].syntax; let m = old(self).pool.messages@[$p4 as int]; let n = final(self).pool.messages@[$p4 as int]; let f = n.fields@.last();
            n.field_names@ == m.field_names@.insert(text_or_empty($p6.name), $p5) }),
        ({ let k = kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name)); let s = old(self).pool.files@[$p3 as int].syntax; let m = old(self).pool.messages@[$p4 as int]; let n = final(self).pool.messages@[$p4 as int]; let f = n.fields@.last();
            n.field_json_names@ == m.field_json_names@.insert(json_name_of(*$p6), $p5) }),
        ({ let k = kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name)); let s = old(self).pool.files@[$p3 as int].syntax; let m = old(self).pool.messages@[$p4 as int]; let n = final(self).pool.messages@[$p4 as int]; let f = n.fields@.last();
            n.oneofs@.len() == m.oneofs@.len() }),
        ({ let k = kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name)); let s = old(self).pool.files@[$p3 as int].syntax; let m = old(self).pool.messages@[$p4 as int]; let n = final(self).pool.messages@[$p4 as int]; let f = n.fields@.last();
            forall|i: int| 0 <= i < m.oneofs@.len() ==> (if oneof_of(*$p6, m) is Some && oneof_of(*$p6, m)->0 == i { (#[trigger] n.oneofs@[i]).fields@ == m.oneofs@[i].fields@.push($p5) && n.oneofs@[i].id == m.oneofs@[i].id } else { n.oneofs@[i] == m.oneofs@[i] }) }),
        ({ let k = kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name)); let s = old(self).pool.files@[$p3 as int].syntax; let m = old(self).pool.messages@[$p4 as int]; let n = final(self).pool.messages@[$p4 as int]; let f = n.fields@.last();
            message_tables(n) }),
        // P09: what is wrong with it is reported
        ({ let k = kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name)); let s = old(self).pool.files@[$p3 as int].syntax; let m = old(self).pool.messages@[$p4 as int]; let n = final(self).pool.messages@[$p4 as int]; let f = n.fields@.last();
            old(self).errors@.is_prefix_of(final(self).errors@) }),
        ({ let k = kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name)); let s = old(self).pool.files@[$p3 as int].syntax; let m = old(self).pool.messages@[$p4 as int]; let n = final(self).pool.messages@[$p4 as int]; let f = n.fields@.last();
            (bad_number(declaration(*old(self).pool, $p4), *$p6) || k is None || bad_oneof(*$p6, m) || m.field_numbers@.contains_key(field_number(*$p6))
                || m.field_names@.contains_key(text_or_empty($p6.name)) || m.field_json_names@.contains_key(json_name_of(*$p6))) ==> grows(old(self).errors@, final(self).errors@) }),
        ({ let k = kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name)); let s = old(self).pool.files@[$p3 as int].syntax; let m = old(self).pool.messages@[$p4 as int]; let n = final(self).pool.messages@[$p4 as int]; let f = n.fields@.last();
            grows(old(self).errors@, final(self).errors@) ==> (bad_number(declaration(*old(self).pool, $p4), *$p6) || k is None || bad_oneof(*$p6, m) || m.field_numbers@.contains_key(field_number(*$p6))
                || m.field_names@.contains_key(text_or_empty($p6.name)) || m.field_json_names@.contains_key(json_name_of(*$p6)) || ($p6.default_value is Some && f.default is None)) }),
        // P19: the default is what its text denotes
        ({ let k = kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name)); let n = final(self).pool.messages@[$p4 as int]; let f = n.fields@.last();
            default_of(*old(self).pool, *$p6, k, f.default) && (k is Some && $p6.default_value is Some && f.default is None ==> grows(old(self).errors@, final(self).errors@)) }),
//@@ before? let is_packed = $x ;
    proof { near_trans(p0, p1, *self.pool); steady(p0, *self.pool, $p3, $p1@, *$p6); }
//@@ after? let kind = $x ;
    let ghost p1 = *self.pool;
    proof { steady(p0, p1, $p3, $p1@, *$p6); assert(resolved_in(p0, $p3, $p2@, text_or_empty($p6.type_name), ResolveNameFilter::FieldType) == resolved_in(p1, $p3, $p2@, text_or_empty($p6.type_name), ResolveNameFilter::FieldType)); assert(kind == kind_in(p0, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name))); }
//@@ start
    hide(same_shape); hide(names_lead); hide(default_means); hide(field_at); hide(resolved); hide(like); hide(message_at); hide(field_kind); hide(scan); hide(kind_named); hide(bad_number); hide(json_name); hide(scalar_means);
    let ghost p0 = *self.pool;
//@@ end
    /// Under contract in resolve.rs.
    #[verifier::external_body]
    fn find_message(&mut self, scope: &str, name: &str, file: FileIndex, path1: &[i32], path2: i32) -> (r: Option<MessageIndex>)
        requires lookup_ready(*old(self), file), place_ok(raw_of(*old(self).pool, file), path1@, path2),
        ensures
            same_world(*old(self), *final(self)), old(self).errors@.is_prefix_of(final(self).errors@),
            match r {
                Some(m) => final(self).errors == old(self).errors
                    && (match world_resolved(*old(self), file, scope@, name@, ResolveNameFilter::Message) { Outcome::Found(n) => old(self).pool.names@.contains_key(n) && old(self).pool.names@[n].kind == DefinitionKind::Message(m), _ => false }),
                None => grows(old(self).errors@, final(self).errors@) && !(world_resolved(*old(self), file, scope@, name@, ResolveNameFilter::Message) is Found),
            } { unimplemented!() }
//@@ fn prost-reflect/src/descriptor/build/resolve.rs Visitor for ResolveVisitor::visit_service
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ spec
    requires tail_of($p2@, text_or_empty($p5.name)),
    ensures
        final(self).errors == old(self).errors, *final(self).pool == (DescriptorPoolInner { services: final(self).pool.services, ..*old(self).pool }),
        final(self).pool.services@ == old(self).pool.services@.push(final(self).pool.services@.last()),
        final(self).pool.services@.last().id.full_name@ == $p2@ && final(self).pool.services@.last().methods@.len() == 0,
//@@ end
//@@ fn prost-reflect/src/descriptor/build/resolve.rs Visitor for ResolveVisitor::visit_extension
//@@ subst? debug_assert_eq ! $a:tt ; ==>> 
//@@ subst? $x:e . is_some_and ( | $k:id | $c ) ==>> (match $x { Some($k) => $c, None => false })
//@@ subst? extension . options . as_ref ( ) . and_then ( | $o:id | $c ) . unwrap_or ( $d ) ==>> (match (match &extension.options { Some($o) => $c, None => None }) { Some(v_) => v_, None => $d })
//@@ subst? $x:e . and_then ( | $k:id | $b:b ) ==>> (match $x { Some($k) => $b, None => None })
//@@ subst? $f:e . as_deref ( ) ==>> text_of(&$f)
//@@ subst? format ! ( "[{full_name}]" ) . into ( ) ==>> bracketed(full_name)
//@@ spec
    requires ready_in(*old(self).pool, $p3), field_placed(*old(self).pool, $p3, $p1@, *$p6), names_lead(*old(self).pool), tail_of($p2@, text_or_empty($p6.name)),
    ensures
        final(self).pool.extensions@ == old(self).pool.extensions@.push(final(self).pool.extensions@.last()),
        // P11: the extension as declared
        ({ let f = final(self).pool.extensions@.last(); let e = message_in(*old(self).pool, $p3, $p2@, text_or_empty($p6.extendee));
            f.number == field_number(*$p6) && f.id.full_name@ == $p2@ && f.json_name@ == seq!['['] + $p2@ + seq![']'] && f.cardinality == cardinality_of(*$p6) && f.parent == $p4
            && (e is Some ==> f.extendee == e->0) }),
        ({ let f = final(self).pool.extensions@.last(); let s = old(self).pool.files@[$p3 as int].syntax;
            !grows(old(self).errors@, final(self).errors@) ==> f.is_packed == packed_of(*$p6, Some(f.kind), s) }),
        ({ let e = message_in(*old(self).pool, $p3, $p2@, text_or_empty($p6.extendee)); 
            match e {
                Some(e) => final(self).pool.messages@.len() == old(self).pool.messages@.len()
                    && forall|i: int| 0 <= i < old(self).pool.messages@.len() ==> (if i == e { (#[trigger] final(self).pool.messages@[i]) == (MessageDescriptorInner { extensions: final(self).pool.messages@[i].extensions, ..old(self).pool.messages@[i] })
                        && final(self).pool.messages@[i].extensions@ == old(self).pool.messages@[i].extensions@.push($p5) } else { final(self).pool.messages@[i] == old(self).pool.messages@[i] }),
                None => final(self).pool.messages@ == old(self).pool.messages@,
            } }),
        // P09: an extension of nothing, or with a number not open to extensions, is reported
        old(self).errors@.is_prefix_of(final(self).errors@),
        ({ let e = message_in(*old(self).pool, $p3, $p2@, text_or_empty($p6.extendee));
            e is None || bad_number(declaration(*old(self).pool, e->0), *$p6) ==> grows(old(self).errors@, final(self).errors@) }),
        // P11: its type, or there is an error
        ({ let f = final(self).pool.extensions@.last(); match kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name)) {
            Some(k) => f.kind == k, None => grows(old(self).errors@, final(self).errors@) } }),
        // P19: the default is what its text denotes
        ({ let f = final(self).pool.extensions@.last(); let k = kind_in(*old(self).pool, $p3, $p2@, type_of(*$p6), text_or_empty($p6.type_name));
            default_of(*old(self).pool, *$p6, k, f.default) && (k is Some && $p6.default_value is Some && f.default is None ==> grows(old(self).errors@, final(self).errors@)) }),
//@@ after? let extendee = $x ;
    proof { steady(p0, *self.pool, $p3, $p1@, *$p6); }
//@@ after? let syntax = $x ;
    proof { steady(p0, *self.pool, $p3, $p1@, *$p6); assert(syntax == p0.files@[$p3 as int].syntax); assert(resolved_in(*self.pool, $p3, $p2@, text_or_empty($p6.type_name), ResolveNameFilter::FieldType) == resolved_in(p0, $p3, $p2@, text_or_empty($p6.type_name), ResolveNameFilter::FieldType)); }
//@@ after? let kind = $x ;
    proof { steady(p0, *self.pool, $p3, $p1@, *$p6); }
//@@ start
    let ghost p0 = *self.pool;
//@@ end
    // ---- what the visits keep: the tables hold exactly what was visited (P11), while nothing is reported
    fn visited_field(&mut self, path: &[i32], full_name: &str, file: FileIndex, message: MessageIndex, index: FieldIndex, field: &FieldDescriptorProto)
        requires
            lookup_ready(*old(self), file), field_placed(*old(self).pool, file, path@, *field), names_lead(*old(self).pool),
            message_placed(*old(self).pool, message), file < old(self).pool.files@.len(), message_sound(old(self).pool.messages@[message as int]),
            index == old(self).pool.messages@[message as int].fields@.len(), index < u32::MAX, tail_of(full_name@, text_or_empty(field.name)),
        ensures
            final(self).errors@ == old(self).errors@ ==> message_sound(final(self).pool.messages@[message as int]),
    {
        let ghost m = self.pool.messages@[message as int];
        self.visit_field(path, full_name, file, message, index, field);
        proof {
            let n = self.pool.messages@[message as int];
            if self.errors@ == old(self).errors@ {
                assert(!grows(old(self).errors@, self.errors@));
                field_added(m, n, text_or_empty(field.name));
            }
        }
    }
    fn visited_enum_value(&mut self, path: &[i32], full_name: &str, file: FileIndex, enum_: EnumIndex, index: EnumValueIndex, value: &EnumValueDescriptorProto)
        requires
            enum_placed(*old(self).pool, enum_), file < old(self).pool.files@.len(), enum_sound(old(self).pool.enums@[enum_ as int], index as int),
            index < old(self).pool.enums@[enum_ as int].values@.len(),
            // the value as NameVisitor declared it
            old(self).pool.enums@[enum_ as int].values@[index as int].number == int_or_zero(value.number),
            value_called(old(self).pool.enums@[enum_ as int].values@[index as int], text_or_empty(value.name)),
        ensures
            final(self).errors@ == old(self).errors@ ==> enum_sound(final(self).pool.enums@[enum_ as int], index + 1),
    {
        let ghost e = self.pool.enums@[enum_ as int];
        self.visit_enum_value(path, full_name, file, enum_, index, value);
        proof {
            let f = self.pool.enums@[enum_ as int];
            if self.errors@ == old(self).errors@ {
                assert(!grows(old(self).errors@, self.errors@));
                let i = choose|i: int| 0 <= i <= e.value_numbers@.len() && f.value_numbers@ == #[trigger] e.value_numbers@.insert(i, (int_or_zero(value.number), index));
                value_added(e, f, index, i, text_or_empty(value.name));
            }
        }
    }
}
proof fn field_added(m: MessageDescriptorInner, n: MessageDescriptorInner, name: Seq<char>)
    requires
        message_sound(m), m.fields@.len() < u32::MAX, n.fields@.len() == m.fields@.len() + 1, n.fields@ == m.fields@.push(n.fields@.last()),
        called(n.fields@.last(), name),
        !m.field_numbers@.contains_key(n.fields@.last().number), !m.field_names@.contains_key(name), !m.field_json_names@.contains_key(n.fields@.last().json_name@),
        n.field_numbers@ == m.field_numbers@.insert(n.fields@.last().number, m.fields@.len() as u32),
        n.field_names@ == m.field_names@.insert(name, m.fields@.len() as u32),
        n.field_json_names@ == m.field_json_names@.insert(n.fields@.last().json_name@, m.fields@.len() as u32),
    ensures message_sound(n),
{
    let k = m.fields@.len() as int;
    let l = n.fields@.last();
    assert forall|i: int| 0 <= i < n.fields@.len() implies opt_get(n.field_numbers@, (#[trigger] n.fields@[i]).number) == Some(i as u32) by { if i < k { assert(n.fields@[i] == m.fields@[i]); } }
    assert forall|i: int| 0 <= i < n.fields@.len() implies opt_get(n.field_json_names@, (#[trigger] n.fields@[i]).json_name@) == Some(i as u32) by { if i < k { assert(n.fields@[i] == m.fields@[i]); } }
    assert forall|i: int, s: Seq<char>| 0 <= i < n.fields@.len() && #[trigger] called(n.fields@[i], s) implies opt_get(n.field_names@, s) == Some(i as u32) by {
        if i < k { assert(n.fields@[i] == m.fields@[i]); assert(called(m.fields@[i], s)); } else { one_name(l.id, s, name); }
    }
    assert forall|s: Seq<char>| #[trigger] n.field_names@.contains_key(s) implies n.field_names@[s] < n.fields@.len() && called(n.fields@[n.field_names@[s] as int], s) by {
        if s != name { assert(m.field_names@.contains_key(s)); }
    }
    assert forall|s: Seq<char>| #[trigger] n.field_json_names@.contains_key(s) implies n.field_json_names@[s] < n.fields@.len() && n.fields@[n.field_json_names@[s] as int].json_name@ == s by {
        if s != l.json_name@ { assert(m.field_json_names@.contains_key(s)); }
    }
    assert forall|s: u32| #[trigger] n.field_numbers@.contains_key(s) implies n.field_numbers@[s] < n.fields@.len() && n.fields@[n.field_numbers@[s] as int].number == s by {
        if s != l.number { assert(m.field_numbers@.contains_key(s)); }
    }
}
proof fn value_added(e: EnumDescriptorInner, f: EnumDescriptorInner, index: u32, at: int, name: Seq<char>)
    requires
        enum_sound(e, index as int), index < e.values@.len(), f.values == e.values, sorted(f.value_numbers@), 0 <= at <= e.value_numbers@.len(),
        f.value_numbers@ == e.value_numbers@.insert(at, (e.values@[index as int].number, index)), value_called(e.values@[index as int], name),
        !e.value_names@.contains_key(name), f.value_names@ == e.value_names@.insert(name, index),
    ensures enum_sound(f, index + 1),
{
    let x = (e.values@[index as int].number, index);
    let o = e.value_numbers@; let n = f.value_numbers@;
    assert forall|j: int| 0 <= j < n.len() implies (#[trigger] n[j]).1 < index + 1 && f.values@[n[j].1 as int].number == n[j].0 by {
        if j < at { assert(n[j] == o[j]); } else if j == at { assert(n[j] == x); } else { assert(n[j] == o[j - 1]); }
    }
    assert forall|i: int| 0 <= i < index + 1 implies n.contains(((#[trigger] f.values@[i]).number, i as u32)) by {
        if i == index { assert(n[at] == x); } else {
            assert(o.contains((e.values@[i].number, i as u32)));
            let j = choose|j: int| 0 <= j < o.len() && o[j] == (e.values@[i].number, i as u32);
            if j < at { assert(n[j] == o[j]); } else { assert(n[j + 1] == o[j]); }
        }
    }
    assert forall|i: int, s: Seq<char>| 0 <= i < index + 1 && #[trigger] value_called(f.values@[i], s) implies opt_get(f.value_names@, s) == Some(i as u32) by {
        if i == index { one_name(f.values@[i].id, s, name); } else { assert(value_called(e.values@[i], s)); assert(opt_get(e.value_names@, s) == Some(i as u32)); }
    }
    assert forall|s: Seq<char>| #[trigger] f.value_names@.contains_key(s) implies f.value_names@[s] < index + 1 && value_called(f.values@[f.value_names@[s] as int], s) by {
        if s != name { assert(e.value_names@.contains_key(s)); }
    }
}
fn main() {}
}
