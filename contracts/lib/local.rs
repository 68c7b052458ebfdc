// ---- P03: decoding looks only at what it reads

/// Nested messages and skipped fields are read front to back (assumed of prost; for nested messages it is the induction hypothesis of what follows).
pub broadcast axiom fn merged_local(m: DynamicMessage, s: Seq<u8>, limit: int, more: Seq<u8>, c: DecodeContext)
    ensures match m.merged(s, limit, c) { Some((n, t)) => #[trigger] m.merged(s + more, limit + more.len(), c) == Some((n, t + more)), None => true };
pub broadcast axiom fn group_local(m: DynamicMessage, number: u32, s: Seq<u8>, more: Seq<u8>, c: DecodeContext)
    ensures match m.merged_group(number, s, c) { Some((n, t)) => #[trigger] m.merged_group(number, s + more, c) == Some((n, t + more)), None => true };
pub broadcast axiom fn skipped_local(w: WireType, tag: u32, s: Seq<u8>, more: Seq<u8>, c: DecodeContext)
    ensures match encoding::skipped(w, tag, s, c) { Some(t) => #[trigger] encoding::skipped(w, tag, s + more, c) == Some(t + more), None => true };

proof fn varint_local(s: Seq<u8>, more: Seq<u8>, n: nat)
    ensures match dec_varint_at(s, n) { Some((v, t)) => dec_varint_at(s + more, n) == Some((v, t + more)), None => true },
    decreases s.len()
{
    if s.len() > 0 && n < 10 {
        assert((s + more).skip(1) =~= s.skip(1) + more);
        assert((s + more)[0] == s[0]);
        varint_local(s.skip(1), more, n + 1);
    }
}
proof fn key_local(s: Seq<u8>, more: Seq<u8>)
    ensures match dec_key(s) { Some((n, w, t)) => dec_key(s + more) == Some((n, w, t + more)), None => true },
{
    varint_local(s, more, 0);
}
proof fn unle_local(s: Seq<u8>, more: Seq<u8>, n: nat)
    requires n <= s.len(),
    ensures unle(s + more, n) == unle(s, n), (s + more).skip(n as int) == s.skip(n as int) + more, (s + more).take(n as int) == s.take(n as int),
    decreases n
{
    assert((s + more).skip(n as int) =~= s.skip(n as int) + more);
    assert((s + more).take(n as int) =~= s.take(n as int));
    if n > 0 {
        assert((s + more).skip(1) =~= s.skip(1) + more);
        unle_local(s.skip(1), more, (n - 1) as nat);
    }
}
proof fn delimited_local(s: Seq<u8>, more: Seq<u8>)
    ensures match dec_delimited(s) { Some((b, t)) => dec_delimited(s + more) == Some((b, t + more)), None => true },
{
    varint_local(s, more, 0);
    match dec_varint(s) { Some((n, r)) => { if n <= r.len() { unle_local(r, more, n as nat); } }, None => {} }
}
#[verifier::spinoff_prover]
proof fn plain_local(k: Kind, s: Seq<u8>, more: Seq<u8>)
    ensures match dec_plain(k, s) { Some((g, t)) => dec_plain(k, s + more) == Some((g, t + more)), None => true },
{
    hide(dec_varint_at); hide(unle); hide(dec_delimited); hide(signed32); hide(signed64); hide(low32); hide(unzigzag);
    varint_local(s, more, 0);
    delimited_local(s, more);
    if s.len() >= 4 { unle_local(s, more, 4); }
    if s.len() >= 8 { unle_local(s, more, 8); }
}
#[verifier::spinoff_prover]
proof fn scalar_local(k: Kind, g: G, group: Option<u32>, w: WireType, s: Seq<u8>, more: Seq<u8>, c: DecodeContext)
    ensures match dec_scalar(k, g, group, w, s, c) { Some((h, t)) => dec_scalar(k, g, group, w, s + more, c) == Some((h, t + more)), None => true },
{
    hide(dec_plain); hide(dec_delimited);
    plain_local(k, s, more);
    delimited_local(s, more);
    if k is Message {
        match group {
            Some(n) => { group_local(g->Message_0, n, s, more, inner_ctx(c)); }
            None => {
                match dec_delimited(s) { Some((b, t)) => {
                    merged_local(g->Message_0, b + t, t.len() as int, more, inner_ctx(c));
                    assert((b + t) + more =~= b + (t + more));
                    assert(t.len() + more.len() == (t + more).len());
                }, None => {} }
            }
        }
    }
}
proof fn delimited_loop_local<V>(step: Step<V>, v: V, s: Seq<u8>, more: Seq<u8>)
    requires local(step),
    ensures match dec_delimited_loop(step, v, s) { Some((w, t)) => dec_delimited_loop(step, v, s + more) == Some((w, t + more)), None => true },
{
    varint_local(s, more, 0);
    match dec_varint(s) { Some((n, t)) => { if n <= t.len() { loop_local(step, v, t, t.len() - n, more); assert((t + more).len() - n == t.len() - n + more.len()); } }, None => {} }
}
#[verifier::spinoff_prover]
proof fn packed_local(k: Kind, group: Option<u32>, c: DecodeContext)
    ensures local(packed_step(k, group, c)),
{
    hide(dec_scalar);
    let step = packed_step(k, group, c);
    assert forall|v: Seq<G>, s: Seq<u8>, more: Seq<u8>| match step(v, s) { Some((w, t)) => #[trigger] step(v, s + more) == Some((w, t + more)), None => true } by {
        scalar_local(k, zero(k), group, wt(k), s, more, c);
    }
}
#[verifier::spinoff_prover]
proof fn entry_local(m: MessageDescriptor, c: DecodeContext)
    ensures local(entry_step(m, c)),
{
    hide(dec_scalar); hide(dec_key);
    let step = entry_step(m, c);
    assert forall|v: (G, G), s: Seq<u8>, more: Seq<u8>| match step(v, s) { Some((w, t)) => #[trigger] step(v, s + more) == Some((w, t + more)), None => true } by {
        key_local(s, more);
        match dec_key(s) { Some((n, w, t)) => {
            scalar_local(m.key_field().s_kind(), v.0, None, w, t, more, c);
            scalar_local(m.value_field().s_kind(), v.1, group_of(&m.value_field()), w, t, more, c);
            skipped_local(w, n, t, more, c);
        }, None => {} }
    }
}
#[verifier::spinoff_prover]
proof fn field_local<D: FieldDescriptorLike + ?Sized>(f: F, d: &D, w: WireType, s: Seq<u8>, more: Seq<u8>, c: DecodeContext)
    ensures match dec_field(f, d, w, s, c) { Some((g, t)) => dec_field(f, d, w, s + more, c) == Some((g, t + more)), None => true },
{
    hide(dec_scalar); hide(dec_delimited_loop); hide(packed_step); hide(entry_step); hide(local);
    let k = d.s_kind();
    match f {
        F::One(g) => { scalar_local(k, g, group_of(d), w, s, more, c); }
        F::List(vs) => { scalar_local(k, zero(k), group_of(d), w, s, more, c); packed_local(k, group_of(d), c); delimited_loop_local(packed_step(k, group_of(d), c), vs, s, more); }
        F::Map(es) => { let m = k->Message_0; entry_local(m, c); delimited_loop_local(entry_step(m, c), (zero_key(m.key_field().s_kind()), gv(m.value_field().s_default())), s, more); }
    }
}
