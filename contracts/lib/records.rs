// ---- records of the wire format

/// A record of the wire format, as a mathematical value.
pub ghost enum Rec { Varint(u32, u64), Fixed64(u32, Seq<u8>), Fixed32(u32, Seq<u8>), Bytes(u32, Seq<u8>), Group(u32, Seq<Rec>) }

pub open spec fn rec_number(u: Rec) -> u32 { match u { Rec::Varint(n, _) => n, Rec::Fixed64(n, _) => n, Rec::Fixed32(n, _) => n, Rec::Bytes(n, _) => n, Rec::Group(n, _) => n } }
pub open spec fn rec_type(u: Rec) -> WireType {
    match u { Rec::Varint(..) => WireType::Varint, Rec::Fixed64(..) => WireType::SixtyFourBit, Rec::Fixed32(..) => WireType::ThirtyTwoBit, Rec::Bytes(..) => WireType::LengthDelimited, Rec::Group(..) => WireType::StartGroup }
}
/// What follows the key of a record.
pub open spec fn rec_body(u: Rec) -> Seq<u8>
    decreases u, 0nat
{
    match u {
        Rec::Varint(_, v) => varint(v),
        Rec::Fixed64(_, b) => b,
        Rec::Fixed32(_, b) => b,
        Rec::Bytes(_, b) => delimited(b),
        Rec::Group(n, us) => recs(us) + key(n, WireType::EndGroup),
    }
}
pub open spec fn rec_bytes(u: Rec) -> Seq<u8>
    decreases u, 1nat
{
    key(rec_number(u), rec_type(u)) + rec_body(u)
}
pub open spec fn recs(us: Seq<Rec>) -> Seq<u8>
    decreases us, 0nat
{
    if us.len() == 0 { Seq::empty() } else { recs(us.drop_last()) + rec_bytes(us.last()) }
}
/// Reads what follows a key, at most d groups deep.
pub open spec fn dec_body(number: u32, w: WireType, s: Seq<u8>, d: nat) -> Option<(Rec, Seq<u8>)>
    decreases d, s.len(), 0nat
{
    match w {
        WireType::Varint => match dec_varint(s) { Some((v, t)) => Some((Rec::Varint(number, v), t)), None => None },
        WireType::SixtyFourBit => if s.len() >= 8 { Some((Rec::Fixed64(number, s.take(8)), s.skip(8))) } else { None },
        WireType::ThirtyTwoBit => if s.len() >= 4 { Some((Rec::Fixed32(number, s.take(4)), s.skip(4))) } else { None },
        WireType::LengthDelimited => match dec_delimited(s) { Some((b, t)) => Some((Rec::Bytes(number, b), t)), None => None },
        WireType::StartGroup => if d == 0 { None } else { match dec_group_rest(Seq::empty(), number, s, (d - 1) as nat) { Some((us, t)) => Some((Rec::Group(number, us), t)), None => None } },
        WireType::EndGroup => None,
    }
}
/// Reads records up to the end of group `number`, after those in us.
pub open spec fn dec_group_rest(us: Seq<Rec>, number: u32, s: Seq<u8>, d: nat) -> Option<(Seq<Rec>, Seq<u8>)>
    decreases d, s.len(), 1nat
{
    match dec_key(s) {
        Some((n, w, t)) =>
            if w == WireType::EndGroup { if n == number { Some((us, t)) } else { None } }
            else if t.len() >= s.len() { None }
            else { match dec_body(n, w, t, d) { Some((u, r)) => if r.len() >= s.len() { None } else { dec_group_rest(us.push(u), number, r, d) }, None => None } },
        None => None,
    }
}
pub open spec fn rec_ok(u: Rec) -> bool
    decreases u
{
    field_number(rec_number(u)) && match u {
        Rec::Varint(..) => true,
        Rec::Fixed64(_, b) => b.len() == 8,
        Rec::Fixed32(_, b) => b.len() == 4,
        Rec::Bytes(_, b) => b.len() <= u64::MAX,
        Rec::Group(_, us) => forall|i: int| 0 <= i < us.len() ==> rec_ok(#[trigger] us[i]),
    }
}
/// How deep the groups in a record nest.
pub open spec fn depth_within(u: Rec, d: nat) -> bool
    decreases u
{
    match u { Rec::Group(_, us) => d > 0 && forall|i: int| 0 <= i < us.len() ==> depth_within(#[trigger] us[i], (d - 1) as nat), _ => true }
}

proof fn recs_front(us: Seq<Rec>)
    requires us.len() > 0,
    ensures recs(us) == rec_bytes(us[0]) + recs(us.skip(1)),
    decreases us.len()
{
    reveal_with_fuel(recs, 2);
    if us.len() == 1 {
        assert(us.drop_last() =~= Seq::<Rec>::empty());
        assert(us.skip(1) =~= Seq::<Rec>::empty());
        assert(recs(us) =~= rec_bytes(us[0]) + recs(us.skip(1)));
    } else {
        recs_front(us.drop_last());
        assert(us.drop_last().skip(1) =~= us.skip(1).drop_last());
        assert(recs(us) =~= rec_bytes(us[0]) + recs(us.skip(1)));
    }
}
/// P04, P02: a record that was written is read back as it is.
pub proof fn rec_read(u: Rec, rest: Seq<u8>, d: nat)
    requires rec_ok(u), depth_within(u, d),
    ensures dec_body(rec_number(u), rec_type(u), rec_body(u) + rest, d) == Some((u, rest)),
    decreases u
{
    match u {
        Rec::Varint(_, v) => { varint_read(v, rest); }
        Rec::Fixed64(_, b) => { assert((b + rest).take(8) =~= b); assert((b + rest).skip(8) =~= rest); }
        Rec::Fixed32(_, b) => { assert((b + rest).take(4) =~= b); assert((b + rest).skip(4) =~= rest); }
        Rec::Bytes(_, b) => { delimited_read(b, rest); }
        Rec::Group(n, us) => {
            rec_group_read(Seq::empty(), us, n, rest, (d - 1) as nat);
            assert(Seq::<Rec>::empty() + us =~= us);
            assert(rec_body(u) + rest =~= recs(us) + (key(n, WireType::EndGroup) + rest));
        }
    }
}
proof fn rec_group_read(done: Seq<Rec>, us: Seq<Rec>, number: u32, rest: Seq<u8>, d: nat)
    requires forall|i: int| 0 <= i < us.len() ==> rec_ok(#[trigger] us[i]) && depth_within(us[i], d), field_number(number),
    ensures dec_group_rest(done, number, recs(us) + (key(number, WireType::EndGroup) + rest), d) == Some((done + us, rest)),
    decreases us
{
    let s = recs(us) + (key(number, WireType::EndGroup) + rest);
    if us.len() == 0 {
        assert(s =~= key(number, WireType::EndGroup) + rest);
        key_read(number, WireType::EndGroup, rest);
        assert(done + us =~= done);
    } else {
        let u = us[0];
        recs_front(us);
        let after = recs(us.skip(1)) + (key(number, WireType::EndGroup) + rest);
        let body = rec_body(u) + after;
        assert(s =~= key(rec_number(u), rec_type(u)) + body);
        key_read(rec_number(u), rec_type(u), body);
        varint_len((rec_number(u) * 8 + wire_num(rec_type(u))) as u64);
        rec_read(u, after, d);
        assert(done.push(u) + us.skip(1) =~= done + us);
        assert(us.skip(1) == us.subrange(1, us.len() as int));
        rec_group_read(done.push(u), us.skip(1), number, rest, d);
    }
}
/// Reading consumes what it reads and leaves the rest alone.
proof fn body_shorter(n: u32, w: WireType, s: Seq<u8>, d: nat)
    ensures match dec_body(n, w, s, d) { Some((u, t)) => t.len() <= s.len() && rec_number(u) == n && rec_type(u) == w, None => true },
    decreases d, s.len(), 0nat
{
    varint_shorter(s, 0);
    if w == WireType::StartGroup && d > 0 { rest_shorter(Seq::empty(), n, s, (d - 1) as nat); }
}
proof fn rest_shorter(us: Seq<Rec>, n: u32, s: Seq<u8>, d: nat)
    ensures match dec_group_rest(us, n, s, d) { Some((vs, t)) => t.len() < s.len(), None => true },
    decreases d, s.len(), 1nat
{
    varint_shorter(s, 0);
    if let Some((m, w, t)) = dec_key(s) {
        if w != WireType::EndGroup {
            body_shorter(m, w, t, d);
            if let Some((u, r)) = dec_body(m, w, t, d) {
                if r.len() < s.len() { rest_shorter(us.push(u), n, r, d); }
            }
        }
    }
}
/// le undoes unle.
proof fn le_of_unle(s: Seq<u8>, n: nat)
    requires s.len() >= n,
    ensures le(unle(s, n), n) == s.take(n as int), 0 <= unle(s, n) < cap256(n),
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        le_of_unle(s.skip(1), m);
        let v = unle(s.skip(1), m);
        assert((s[0] as int + 256 * v) % 256 == s[0] as int && (s[0] as int + 256 * v) / 256 == v) by (nonlinear_arith) requires 0 <= v, 0 <= s[0] < 256;
        assert(seq![s[0]] + s.skip(1).take(m as int) =~= s.take(n as int));
    } else {
        assert(s.take(0) =~= Seq::<u8>::empty());
    }
}

proof fn le_of_fixed64(s: Seq<u8>)
    requires s.len() >= 8,
    ensures le(unle(s, 8) as u64 as int, 8) == s.take(8),
{
    le_of_unle(s, 8);
    assert(cap256(8) == 0x1_0000_0000_0000_0000int) by (compute);
}
proof fn le_of_fixed32(s: Seq<u8>)
    requires s.len() >= 4,
    ensures le(unle(s, 4) as u32 as int, 4) == s.take(4),
{
    le_of_unle(s, 4);
    assert(cap256(4) == 0x1_0000_0000int) by (compute);
}
pub open spec fn of_field(u: UnknownField) -> Rec
    decreases u
{
    match u.value {
        UnknownFieldValue::Varint(v) => Rec::Varint(u.number, v),
        UnknownFieldValue::SixtyFourBit(b) => Rec::Fixed64(u.number, b@),
        UnknownFieldValue::LengthDelimited(b) => Rec::Bytes(u.number, b@),
        UnknownFieldValue::Group(set) => Rec::Group(u.number, of_fields(set.fields@)),
        UnknownFieldValue::ThirtyTwoBit(b) => Rec::Fixed32(u.number, b@),
    }
}
pub open spec fn of_fields(us: Seq<UnknownField>) -> Seq<Rec>
    decreases us
{
    if us.len() == 0 { Seq::empty() } else { of_fields(us.drop_last()).push(of_field(us.last())) }
}
pub open spec fn of_set(s: UnknownFieldSet) -> Seq<Rec> { of_fields(s.fields@) }
proof fn of_fields_len(us: Seq<UnknownField>)
    ensures of_fields(us).len() == us.len(), forall|i: int| 0 <= i < us.len() ==> #[trigger] of_fields(us)[i] == of_field(us[i]),
    decreases us.len()
{
    if us.len() > 0 { of_fields_len(us.drop_last()); }
}
proof fn of_fields_step(us: Seq<UnknownField>, i: int)
    requires 0 <= i < us.len(),
    ensures
        of_fields(us.take(i + 1)) == of_fields(us.take(i)).push(of_field(us[i])),
        recs(of_fields(us.take(i + 1))) == recs(of_fields(us.take(i))) + rec_bytes(of_field(us[i])),
{
    assert(us.take(i + 1).drop_last() =~= us.take(i));
    assert(us.take(i + 1).last() == us[i]);
    let a = of_fields(us.take(i)).push(of_field(us[i]));
    assert(a.drop_last() =~= of_fields(us.take(i)));
}
proof fn of_fields_mono(us: Seq<UnknownField>, i: int)
    requires 0 <= i <= us.len(),
    ensures recs(of_fields(us.take(i))).len() <= recs(of_fields(us)).len(),
    decreases us.len() - i
{
    if i < us.len() { of_fields_mono(us, i + 1); of_fields_step(us, i); } else { assert(us.take(i) =~= us); }
}
proof fn of_fields_push(us: Seq<UnknownField>, u: UnknownField)
    ensures of_fields(us.push(u)) == of_fields(us).push(of_field(u)),
{
    assert(us.push(u).drop_last() =~= us);
}
