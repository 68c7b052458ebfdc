pub open spec fn dec_digit(c: char) -> bool { '0' <= c <= '9' }
/// The number a string of decimal digits writes.
pub open spec fn dec_value(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { dec_value(s.drop_last()) * 10 + (s.last() as int - '0' as int) }
}
pub open spec fn dec_digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> dec_digit(#[trigger] s[i]) }
/// The integer that a decimal literal with an optional sign denotes, as the integer parsers of core read it.
pub open spec fn dec_int(s: Seq<char>) -> Option<int> {
    if dec_digits(s) { Some(dec_value(s)) }
    else if s.len() > 1 && s[0] == '+' && dec_digits(s.skip(1)) { Some(dec_value(s.skip(1))) }
    else if s.len() > 1 && s[0] == '-' && dec_digits(s.skip(1)) { Some(-dec_value(s.skip(1))) }
    else { None }
}
/// A minus is only read for signed types (so that "-0" is rejected for unsigned ones).
pub open spec fn dec_uint(s: Seq<char>) -> Option<int> { if s.len() > 0 && s[0] == '-' { None } else { dec_int(s) } }
