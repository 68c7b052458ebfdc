// Digits and the numbers they write.
pub open spec fn hex(c: char) -> Option<int> {
    if '0' <= c <= '9' { Some(c as int - '0' as int) } else if 'a' <= c <= 'f' { Some(c as int - 'a' as int + 10) }
    else if 'A' <= c <= 'F' { Some(c as int - 'A' as int + 10) } else { None }
}
pub open spec fn digit(c: char, radix: int) -> Option<int> {
    match hex(c) { Some(d) => if d < radix { Some(d) } else { None }, None => None }
}
pub open spec fn all_digits(s: Seq<char>, radix: int) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i], radix) is Some }
/// The number written by a digit string.
pub open spec fn value(s: Seq<char>, radix: int) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { value(s.drop_last(), radix) * radix + digit(s.last(), radix).unwrap() }
}
/// Digit strings of at most eight digits do not overflow.
proof fn value_bound(s: Seq<char>, radix: int)
    requires s.len() <= 8, all_digits(s, radix), 2 <= radix <= 16,
    ensures 0 <= value(s, radix),
        s.len() == 1 ==> value(s, radix) < 16, s.len() == 2 ==> value(s, radix) < 256, s.len() == 3 ==> value(s, radix) < 4096,
        s.len() <= 8 ==> value(s, radix) < 0x1_0000_0000,
        s.len() == 4 ==> value(s, radix) < 0x1_0000, s.len() == 5 ==> value(s, radix) < 0x10_0000,
        s.len() == 6 ==> value(s, radix) < 0x100_0000, s.len() == 7 ==> value(s, radix) < 0x1000_0000,
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies digit(#[trigger] p[i], radix) is Some by { assert(p[i] == s[i]); }
        value_bound(p, radix);
        assert(digit(s[s.len() - 1], radix) is Some);
        let v = value(p, radix);
        let d = digit(s.last(), radix).unwrap();
        assert(0 <= v * radix <= v * 16) by (nonlinear_arith) requires 0 <= v, 2 <= radix <= 16;
        assert(value(s, radix) <= v * 16 + 15);
    }
}
