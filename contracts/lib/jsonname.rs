// ---- specification: protoc's ToJsonName
/// Whether the character at `i` follows an underscore and possibly more underscores.
pub open spec fn json_name(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if s.last() == '_' { json_name(s.drop_last()) }
    else if s.len() > 1 && s[s.len() - 2] == '_' { json_name(s.drop_last()).push(to_upper(s.last())) }
    else { json_name(s.drop_last()).push(s.last()) }
}
