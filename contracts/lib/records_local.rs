proof fn body_local(n: u32, w: WireType, s: Seq<u8>, more: Seq<u8>, d: nat)
    ensures match dec_body(n, w, s, d) { Some((u, t)) => dec_body(n, w, s + more, d) == Some((u, t + more)), None => true },
    decreases d, s.len(), 0nat
{
    varint_local(s, more, 0);
    delimited_local(s, more);
    if s.len() >= 4 { unle_local(s, more, 4); }
    if s.len() >= 8 { unle_local(s, more, 8); }
    if w == WireType::StartGroup && d > 0 { rest_local(Seq::empty(), n, s, more, (d - 1) as nat); }
}
proof fn rest_local(us: Seq<Rec>, n: u32, s: Seq<u8>, more: Seq<u8>, d: nat)
    ensures match dec_group_rest(us, n, s, d) { Some((vs, t)) => dec_group_rest(us, n, s + more, d) == Some((vs, t + more)), None => true },
    decreases d, s.len(), 1nat
{
    key_local(s, more);
    if let Some((m, w, t)) = dec_key(s) {
        if w != WireType::EndGroup && t.len() < s.len() {
            body_local(m, w, t, more, d);
            if let Some((u, r)) = dec_body(m, w, t, d) {
                if r.len() < s.len() { rest_local(us.push(u), n, r, more, d); }
            }
        }
    }
}
/// P03: the records of a message are read one after another.
pub proof fn message_local(desc: MessageDescriptor, c: DecodeContext)
    ensures local(message_step(desc, c)),
{
    hide(dec_field); hide(dec_body); hide(dec_key);
    let step = message_step(desc, c);
    assert forall|st: State, s: Seq<u8>, more: Seq<u8>| match step(st, s) { Some((w, t)) => #[trigger] step(st, s + more) == Some((w, t + more)), None => true } by {
        key_local(s, more);
        match dec_key(s) { Some((n, w, t)) => {
            match desc.s_field(n) { Some(d) => { field_local(held(st, &d), &d, w, t, more, c); }, None => {} }
            match desc.s_extension(n) { Some(d) => { field_local(held(st, &d), &d, w, t, more, c); }, None => {} }
            body_local(n, w, t, more, c.depth());
        }, None => {} }
    }
}
/// P03: decoding a concatenation is decoding the first part and merging the second into the result.
pub proof fn message_concatenation(desc: MessageDescriptor, st: State, a: Seq<u8>, b: Seq<u8>, c: DecodeContext)
    ensures match dec_loop(message_step(desc, c), st, a, 0) { Some((s1, _)) => dec_loop(message_step(desc, c), st, a + b, 0) == dec_loop(message_step(desc, c), s1, b, 0), None => true },
{
    message_local(desc, c);
    concatenation(message_step(desc, c), st, a, b);
}
