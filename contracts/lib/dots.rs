// ---- prefixes and dots in UTF-8
proof fn prefix_of_same_length(a: Seq<char>, b: Seq<char>)
    requires a.is_prefix_of(b), encode_utf8(a).len() == encode_utf8(b).len(),
    ensures a == b,
{
    let r = b.skip(a.len() as int);
    assert(b =~= a + r);
    encode_utf8_concat(a, r);
    if r.len() > 0 { reveal_with_fuel(encode_utf8, 1); }
    else { assert(a =~= b); }
}
/// The byte after a prefix is a dot exactly if the next character is.
proof fn byte_after(p: Seq<char>, n: Seq<char>)
    requires n.is_prefix_of(p),
    ensures encode_utf8(n).len() >= encode_utf8(p).len() ==> n == p,
        encode_utf8(n).len() < encode_utf8(p).len() ==> n.len() < p.len() && ((encode_utf8(p)[encode_utf8(n).len() as int] == 0x2eu8) <==> p[n.len() as int] == '.'),
{
    let r = p.skip(n.len() as int);
    assert(p =~= n + r);
    encode_utf8_concat(n, r);
    if r.len() == 0 { assert(n =~= p); }
    else {
        reveal_with_fuel(encode_utf8, 1);
        let c = r[0];
        assert(c == p[n.len() as int]);
        assert(encode_utf8(p)[encode_utf8(n).len() as int] == encode_scalar(c as u32)[0]);
        dot_byte(c);
    }
}
proof fn dot_byte(c: char)
    ensures (encode_scalar(c as u32)[0] == 0x2eu8) <==> c == '.',
{
    let v = c as u32;
    if v < 0x80 {
        assert(has_width_1_encoding(v));
        assert(encode_scalar(v)[0] == leading_byte_width_1(v));
        assert(v < 0x80 ==> (v & 0x7F) as u8 == v) by (bit_vector);
    } else {
        assert(!has_width_1_encoding(v));
        assert(encode_scalar(v)[0] == leading_byte_width_2(v) || encode_scalar(v)[0] == leading_byte_width_3(v) || encode_scalar(v)[0] == leading_byte_width_4(v));
        assert forall|b: u8| #![trigger 0xC0u8 | b] (0xC0u8 | b) >= 0x80 by { assert((0xC0u8 | b) >= 0x80) by (bit_vector); }
        assert forall|b: u8| #![trigger 0xE0u8 | b] (0xE0u8 | b) >= 0x80 by { assert((0xE0u8 | b) >= 0x80) by (bit_vector); }
        assert forall|b: u8| #![trigger 0xF0u8 | b] (0xF0u8 | b) >= 0x80 by { assert((0xF0u8 | b) >= 0x80) by (bit_vector); }
        assert(leading_byte_width_2(v) >= 0x80 && leading_byte_width_3(v) >= 0x80 && leading_byte_width_4(v) >= 0x80);
    }
}
