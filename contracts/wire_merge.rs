//@@ props P03 P02
//@@ include head.rs
//@@ include wire.rs
//@@ include prost.rs
//@@ include value.rs
//@@ include opaque_message.rs
//@@ include nested.rs
//@@ include payload.rs
//@@ include merge.rs
//@@ include one.rs
//@@ include readback.rs
/// A panic that is never reached.
#[verifier::external_body]
fn unreached<A>() -> A requires false { unimplemented!() }
#[verifier::external_body]
fn bad() -> DecodeError { unimplemented!() }

// ---- prost's loop over a length-delimited payload
//@@ fn prost:src/encoding.rs merge_loop
//@@ sig fn merge_loop<V, T, M: Fn(&mut T, &mut B, DecodeContext) -> Result<(), DecodeError>, B: Buf>(Ghost(abs): Ghost<spec_fn(T) -> V>, Ghost(step): Ghost<Step<V>>, Ghost(inv): Ghost<spec_fn(V) -> bool>, value: &mut T, buf: &mut B, ctx: DecodeContext, merge: M) -> (r: Result<(), DecodeError>)
//@@ subst? decode_varint ( ==>> prost::encoding::decode_varint(
//@@ subst? DecodeErrorKind :: $x:id . into ( ) ==>> bad()
//@@ loop 0
        invariant
            v0 == abs(*old(value)), s0 == old(buf).rest(), limit as int == t0.len() - len, 0 <= len <= t0.len(), inv(abs(*value)),
            dec_loop(step, v0, t0, limit as int) == dec_loop(step, abs(*value), buf.rest(), limit as int),
            steps(step, inv), forall|v: &mut T, b: &mut B| inv(abs(*v)) ==> #[trigger] call_requires(merge, (v, b, ctx)),
            forall|v: &mut T, b: &mut B, r: Result<(), DecodeError>| #[trigger] call_ensures(merge, (v, b, ctx), r) ==> match step(abs(*v), b.rest()) { Some((w, t)) => r is Ok && abs(*final(v)) == w && final(b).rest() == t, None => r is Err },
            match dec_delimited_loop(step, v0, s0) { Some(x) => dec_loop(step, v0, t0, limit as int) == Some(x), None => dec_loop(step, v0, t0, limit as int) is None },
        decreases buf.rest().len()
//@@ in-loop 0
        proof {
            let s1 = buf.rest(); let v1 = abs(*value);
            assert(dec_loop(step, v1, s1, limit as int) == match step(v1, s1) { Some((w, t)) => if t.len() < s1.len() { dec_loop(step, w, t, limit as int) } else { None }, None => None });
        }
//@@ after? let remaining = buf . remaining ( ) ;
    let ghost t0 = buf.rest();
//@@ spec
    requires
        steps(step, inv), inv(abs(*old(value))),
        forall|v: &mut T, b: &mut B| inv(abs(*v)) ==> #[trigger] call_requires(merge, (v, b, ctx)),
        forall|v: &mut T, b: &mut B, r: Result<(), DecodeError>| #[trigger] call_ensures(merge, (v, b, ctx), r) ==> match step(abs(*v), b.rest()) { Some((w, t)) => r is Ok && abs(*final(v)) == w && final(b).rest() == t, None => r is Err },
    ensures match dec_delimited_loop(step, abs(*old(value)), old(buf).rest()) { Some((v, t)) => r is Ok && abs(*final(value)) == v && final(buf).rest() == t && inv(v), None => r is Err },
//@@ start
    let ghost v0 = abs(*value); let ghost s0 = buf.rest();
//@@ end

impl DynamicMessage {
    /// proved in fields.rs
    #[verifier::external_body]
    pub fn new(desc: MessageDescriptor) -> (r: Self) ensures r == fresh(desc) { unimplemented!() }
}
impl Value {
    /// the default of a type (proved in valid.rs up to the new message)
    #[verifier::external_body]
    pub fn default_value(kind: &Kind) -> (r: Value) ensures gv(r) == zero(*kind), scalar_ok(r, *kind) { unimplemented!() }
//@@ fn prost-reflect/src/dynamic/mod.rs Value::default_value_for_field
//@@ ret r
//@@ spec
    ensures r == field_desc.s_default(),
//@@ end
}
impl Kind {
//@@ fn prost-reflect/src/descriptor/api.rs Kind::wire_type
//@@ ret r
//@@ spec
    ensures r == wt(*self),
//@@ end
}
impl MapKey {
//@@ fn prost-reflect/src/dynamic/mod.rs MapKey::default_value
//@@ subst panic ! $m:tt ==>> unreached()
//@@ subst? String :: default ( ) ==>> String::new()
//@@ ret r
//@@ spec
    requires key_kind(*kind),
    ensures key_ok(r, *kind), gk(r) == zero_key(*kind),
//@@ start
    proof { reveal_strlit(""); assert(Seq::<char>::empty() =~= ""@); }
//@@ end
//@@ fn prost-reflect/src/dynamic/message.rs MapKey::merge_field
//@@ subst? prost :: encoding :: $t:id :: merge $m:tt } ==>> return of(Ghost(field_desc.s_kind()), Ghost(None)).$t $m; }
//@@ subst? prost :: encoding :: $t:id :: merge $m:tt ==>> of(Ghost(field_desc.s_kind()), Ghost(None)).$t $m
//@@ subst panic ! $m:tt ==>> unreached()
//@@ ret r
//@@ spec
    requires key_ok(*old(self), field_desc.s_kind()),
    ensures
        match dec_scalar(field_desc.s_kind(), gk(*old(self)), None, wire_type, old(buf).rest(), ctx) {
            Some((g, t)) => r is Ok && gk(*final(self)) == g && key_ok(*final(self), field_desc.s_kind()) && final(buf).rest() == t,
            None => r is Err,
        },
//@@ end
}
impl Value {
#[verifier::exec_allows_no_decreases_clause]
#[verifier::spinoff_prover]
#[verifier::rlimit(50)]
//@@ fn prost-reflect/src/dynamic/message.rs Value::merge_field
//@@ subst? prost :: encoding :: $t:id :: merge $m:tt } ==>> return of(Ghost(field_desc.s_kind()), Ghost(group_of(field_desc))).$t $m; }
//@@ subst? prost :: encoding :: $t:id :: merge $m:tt ==>> of(Ghost(field_desc.s_kind()), Ghost(group_of(field_desc))).$t $m
//@@ subst panic ! $m:tt ==>> unreached()
//@@ subst? ( $p:e , $q:e ) if $g:e => $b:b ==>> ($p, $q) => if $g $b else { unreached() }
//@@ subst? prost :: encoding :: merge_loop ( values , buf , ctx , | values , buf , ctx | $b:tt ) ==>> { proof { packed_steps(field_desc.s_kind(), group_of(field_desc), ctx); } merge_loop::<Seq<G>, Vec<Value>, _, B>(Ghost(|vs: Vec<Value>| gvs(vs@)), Ghost(packed_step(field_desc.s_kind(), group_of(field_desc), ctx)), Ghost(list_inv(field_desc.s_kind())), values, buf, ctx, |values: &mut Vec<Value>, buf: &mut B, ctx: DecodeContext| -> (r: Result<(), DecodeError>) requires desc_ok(field_desc), packable(field_kind), field_kind == field_desc.s_kind(), field_desc.s_list() ensures match dec_scalar(field_kind, zero(field_kind), group_of(field_desc), wt(field_kind), old(buf).rest(), ctx) { Some((g, t)) => r is Ok && gvs(final(values)@) == gvs(old(values)@).push(g) && final(buf).rest() == t, None => r is Err } $b) }
//@@ subst? prost :: encoding :: merge_loop ( & mut ( & mut key , & mut value ) , buf , ctx , | ( key , value ) , buf , ctx | $b:tt , ) ? ; ==>> let mut kv_ = (key, value); proof { entry_steps(map_entry, ctx); } merge_loop::<(G, G), (MapKey, Value), _, B>(Ghost(|kv: (MapKey, Value)| (gk(kv.0), gv(kv.1))), Ghost(entry_step(map_entry, ctx)), Ghost(entry_inv(map_entry)), &mut kv_, buf, ctx, |kv_: &mut (MapKey, Value), buf: &mut B, ctx: DecodeContext| -> (r: Result<(), DecodeError>) requires entry_desc(map_entry), key_desc == map_entry.key_field(), value_desc == map_entry.value_field(), key_ok(old(kv_).0, key_desc.s_kind()), scalar_ok(old(kv_).1, value_desc.s_kind()) ensures match entry_step(map_entry, ctx)((gk(old(kv_).0), gv(old(kv_).1)), old(buf).rest()) { Some((kv, t)) => r is Ok && (gk(final(kv_).0), gv(final(kv_).1)) == kv && final(buf).rest() == t, None => r is Err } { let key = &mut kv_.0; let value = &mut kv_.1; $b })?; let (key, value) = kv_;
//@@ subst? Ok ( ( ) ) } ==>> return Ok(()); }
//@@ subst? values . push ( $v ) ==>> add_value(values, $v)
//@@ subst? values . insert ( $k , $v ) ==>> map_put(values, $k, $v)
//@@ ret r
//@@ spec
    requires desc_ok(field_desc), f_ok(fv(*old(self)), field_desc),
    ensures
        // P03: the value becomes what the record of the field prescribes
        match dec_field(fv(*old(self)), field_desc, wire_type, old(buf).rest(), ctx) {
            Some((f, t)) => r is Ok && fv(*final(self)) == f && final(buf).rest() == t,
            None => r is Err,
        },
//@@ start
    hide(dec_scalar);
//@@ end
}
} // verus!
fn main() {}
