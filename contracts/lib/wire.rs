// ---- the protobuf wire format

pub open spec fn varint(v: u64) -> Seq<u8>
    decreases v
{
    if v < 128 { seq![v as u8] } else { seq![(v % 128 + 128) as u8] + varint(v / 128) }
}
/// The varint at the start of s as its value and the rest, after n bytes of it were already read.
pub open spec fn dec_varint_at(s: Seq<u8>, n: nat) -> Option<(int, Seq<u8>)>
    decreases s.len()
{
    if s.len() == 0 || n >= 10 { None }
    else if s[0] < 128 { if n == 9 && s[0] > 1 { None } else { Some((s[0] as int, s.skip(1))) } }
    else { match dec_varint_at(s.skip(1), n + 1) { Some((v, r)) => Some((s[0] - 128 + 128 * v, r)), None => None } }
}
pub open spec fn dec_varint(s: Seq<u8>) -> Option<(u64, Seq<u8>)> {
    match dec_varint_at(s, 0) { Some((v, r)) => Some((v as u64, r)), None => None }
}
pub open spec fn varint_cap(n: nat) -> int
    decreases 9 - n
{
    if n >= 9 { 2 } else { 128 * varint_cap(n + 1) }
}
proof fn varint_at(v: u64, n: nat, rest: Seq<u8>)
    requires n <= 9, v < varint_cap(n),
    ensures dec_varint_at(varint(v) + rest, n) == Some((v as int, rest)),
    decreases v
{
    let s = varint(v) + rest;
    if v < 128 {
        assert(s[0] == v as u8);
        assert(s.skip(1) =~= rest);
        assert(n == 9 ==> varint_cap(n) == 2);
    } else {
        assert(n < 9);
        assert(s[0] == (v % 128 + 128) as u8);
        assert(s.skip(1) =~= varint(v / 128) + rest);
        varint_at(v / 128, n + 1, rest);
    }
}
pub broadcast proof fn varint_read(v: u64, rest: Seq<u8>)
    ensures #[trigger] dec_varint(varint(v) + rest) == Some((v, rest)),
{
    reveal_with_fuel(varint_cap, 12);
    assert(varint_cap(0) == 0x1_0000_0000_0000_0000int) by (compute);
    varint_at(v, 0, rest);
}
proof fn varint_shorter(s: Seq<u8>, n: nat)
    ensures match dec_varint_at(s, n) { Some((v, r)) => r.len() < s.len() && 0 <= v, None => true },
    decreases s.len()
{
    if s.len() > 0 && n < 10 && s[0] >= 128 { varint_shorter(s.skip(1), n + 1); }
}
proof fn varint_len(v: u64)
    ensures 1 <= varint(v).len() <= 10,
{
    reveal_with_fuel(varint, 11);
}
pub proof fn varint_small(v: u64)
    requires v < 0x1_0000_0000,
    ensures 1 <= varint(v).len() <= 5,
{
    reveal_with_fuel(varint, 6);
}

// ---- integers as the wire sees them (two's complement, zigzag, little endian)

pub open spec fn wrap64(i: int) -> u64 { if i >= 0 { i as u64 } else { (i + 0x1_0000_0000_0000_0000) as u64 } }
pub open spec fn wrap32(i: int) -> u32 { if i >= 0 { i as u32 } else { (i + 0x1_0000_0000) as u32 } }
pub open spec fn low32(v: u64) -> u32 { (v as int % 0x1_0000_0000) as u32 }
pub open spec fn signed32(v: u32) -> i32 { if v < 0x8000_0000 { v as i32 } else { (v - 0x1_0000_0000) as i32 } }
pub open spec fn signed64(v: u64) -> i64 { if v < 0x8000_0000_0000_0000 { v as i64 } else { (v - 0x1_0000_0000_0000_0000) as i64 } }
pub open spec fn zigzag(i: int) -> int { if i >= 0 { 2 * i } else { -2 * i - 1 } }
pub open spec fn unzigzag(z: int) -> int { if z % 2 == 0 { z / 2 } else { -(z / 2) - 1 } }
pub open spec fn le(v: int, n: nat) -> Seq<u8>
    decreases n
{
    if n == 0 { Seq::empty() } else { seq![(v % 256) as u8] + le(v / 256, (n - 1) as nat) }
}
pub open spec fn unle(s: Seq<u8>, n: nat) -> int
    decreases n
{
    if n == 0 { 0 } else { s[0] as int + 256 * unle(s.skip(1), (n - 1) as nat) }
}
pub broadcast proof fn le_len(v: int, n: nat)
    ensures #[trigger] le(v, n).len() == n,
    decreases n
{
    if n > 0 { le_len(v / 256, (n - 1) as nat); }
}
pub open spec fn cap256(n: nat) -> int
    decreases n
{
    if n == 0 { 1 } else { 256 * cap256((n - 1) as nat) }
}
proof fn le_read(v: int, n: nat, rest: Seq<u8>)
    requires 0 <= v < cap256(n),
    ensures unle(le(v, n) + rest, n) == v, (le(v, n) + rest).skip(n as int) == rest,
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        le_read(v / 256, m, rest);
        le_len(v / 256, m);
        assert((le(v, n) + rest).skip(1) =~= le(v / 256, m) + rest);
        assert((le(v, n) + rest).skip(n as int) =~= (le(v / 256, m) + rest).skip(m as int));
    } else {
        assert((le(v, n) + rest).skip(0) =~= rest);
    }
}
pub uninterp spec fn f32_bits(v: f32) -> u32;
pub uninterp spec fn f32_of(b: u32) -> f32;
pub uninterp spec fn f64_bits(v: f64) -> u64;
pub uninterp spec fn f64_of(b: u64) -> f64;
/// A float is its bits.
pub broadcast axiom fn f32_is_bits(v: f32) ensures f32_of(#[trigger] f32_bits(v)) == v;
pub broadcast axiom fn f64_is_bits(v: f64) ensures f64_of(#[trigger] f64_bits(v)) == v;

// ---- keys, and joining parts

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum WireType { Varint, SixtyFourBit, LengthDelimited, StartGroup, EndGroup, ThirtyTwoBit }
pub open spec fn wire_num(w: WireType) -> int {
    match w { WireType::Varint => 0, WireType::SixtyFourBit => 1, WireType::LengthDelimited => 2, WireType::StartGroup => 3, WireType::EndGroup => 4, WireType::ThirtyTwoBit => 5 }
}
pub open spec fn wire_type_of(n: int) -> Option<WireType> {
    if n == 0 { Some(WireType::Varint) } else if n == 1 { Some(WireType::SixtyFourBit) } else if n == 2 { Some(WireType::LengthDelimited) }
    else if n == 3 { Some(WireType::StartGroup) } else if n == 4 { Some(WireType::EndGroup) } else if n == 5 { Some(WireType::ThirtyTwoBit) } else { None }
}
pub open spec fn field_number(n: u32) -> bool { 1 <= n < 0x2000_0000 }
pub open spec fn key(number: u32, w: WireType) -> Seq<u8> { varint((number * 8 + wire_num(w)) as u64) }
pub open spec fn dec_key(s: Seq<u8>) -> Option<(u32, WireType, Seq<u8>)> {
    match dec_varint(s) {
        Some((k, r)) => if 8 <= k < 0x1_0000_0000 { match wire_type_of(k as int % 8) { Some(w) => Some(((k / 8) as u32, w, r)), None => None } } else { None },
        None => None,
    }
}
pub broadcast proof fn key_read(number: u32, w: WireType, rest: Seq<u8>)
    requires field_number(number),
    ensures #[trigger] dec_key(key(number, w) + rest) == Some((number, w, rest)),
{
    varint_read((number * 8 + wire_num(w)) as u64, rest);
}
/// A payload behind its length.
pub open spec fn delimited(b: Seq<u8>) -> Seq<u8> { varint(b.len() as u64) + b }
pub open spec fn dec_delimited(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match dec_varint(s) { Some((n, r)) => if n <= r.len() { Some((r.take(n as int), r.skip(n as int))) } else { None }, None => None }
}
pub broadcast proof fn delimited_read(b: Seq<u8>, rest: Seq<u8>)
    requires b.len() <= u64::MAX,
    ensures #[trigger] dec_delimited(delimited(b) + rest) == Some((b, rest)),
{
    assert(delimited(b) + rest =~= varint(b.len() as u64) + (b + rest));
    varint_read(b.len() as u64, b + rest);
    assert((b + rest).take(b.len() as int) =~= b);
    assert((b + rest).skip(b.len() as int) =~= rest);
}
pub open spec fn cat(p: Seq<Seq<u8>>) -> Seq<u8>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() } else { cat(p.drop_last()) + p.last() }
}
pub proof fn cat_none()
    ensures cat(Seq::empty()) == Seq::<u8>::empty(),
{}
/// cat as a loop builds it.
pub broadcast proof fn cat_step(p: Seq<Seq<u8>>, i: int)
    requires 0 <= i < p.len(),
    ensures #[trigger] cat(p.take(i + 1)) == cat(p.take(i)) + p[i],
{
    assert(p.take(i + 1).drop_last() =~= p.take(i));
}
proof fn cat_mono(p: Seq<Seq<u8>>, i: int)
    requires 0 <= i <= p.len(),
    ensures cat(p.take(i)).len() <= cat(p).len(),
    decreases p.len() - i
{
    if i < p.len() { cat_mono(p, i + 1); cat_step(p, i); } else { assert(p.take(i) =~= p); }
}
proof fn cat_part(p: Seq<Seq<u8>>, i: int)
    requires 0 <= i < p.len(),
    ensures p[i].len() <= cat(p).len(), cat(p.take(i)).len() + p[i].len() <= cat(p).len(),
{
    cat_step(p, i);
    cat_mono(p, i + 1);
}
proof fn cat_front(p: Seq<Seq<u8>>)
    requires p.len() > 0,
    ensures cat(p) == p[0] + cat(p.skip(1)),
    decreases p.len()
{
    if p.len() == 1 {
        assert(p.drop_last() =~= Seq::<Seq<u8>>::empty());
        assert(p.skip(1) =~= Seq::<Seq<u8>>::empty());
        assert(cat(p) =~= p[0] + cat(p.skip(1)));
    } else {
        cat_front(p.drop_last());
        assert(p.drop_last().skip(1) =~= p.skip(1).drop_last());
        assert(cat(p) =~= p[0] + cat(p.skip(1)));
    }
}
proof fn add3(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures (a + b) + c == a + (b + c),
{
    assert((a + b) + c =~= a + (b + c));
}
