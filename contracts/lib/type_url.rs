// ---- type URLs
/// What precedes and what follows the last slash.
pub open spec fn split_url(u: Seq<char>) -> Option<(Seq<char>, Seq<char>)>
    decreases u.len()
{
    if u.len() == 0 { None }
    else if u.last() == '/' { Some((u.drop_last(), Seq::empty())) }
    else { match split_url(u.drop_last()) { Some((d, n)) => Some((d, n.push(u.last()))), None => None } }
}
proof fn split_url_is(u: Seq<char>)
    ensures split_url(u) is Some ==> u == split_url(u)->Some_0.0 + seq!['/'] + split_url(u)->Some_0.1,
    decreases u.len(),
{
    if u.len() > 0 {
        if u.last() == '/' { assert(u =~= u.drop_last() + seq!['/'] + Seq::<char>::empty()); }
        else {
            split_url_is(u.drop_last());
            if split_url(u.drop_last()) is Some {
                let (d, n) = split_url(u.drop_last())->Some_0;
                assert(u =~= u.drop_last().push(u.last()));
                assert(u =~= d + seq!['/'] + n.push(u.last()));
            }
        }
    }
}
pub open spec fn dot_at(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 || s[0] == '.' { 0 } else { 1 + dot_at(s.skip(1)) }
}
/// What is between the dots.
pub open spec fn pieces(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    let d = dot_at(s);
    if 0 <= d < s.len() { seq![s.take(d)] + pieces(s.skip(d + 1)) } else { seq![s] }
}
/// A domain that the expanded syntax can name.
pub open spec fn domain_ok(s: Seq<char>) -> bool { forall|i: int| 0 <= i < pieces(s).len() ==> ident(#[trigger] pieces(s)[i]) }
proof fn dot_at_is(s: Seq<char>)
    ensures 0 <= dot_at(s) <= s.len(), dot_at(s) < s.len() ==> s[dot_at(s)] == '.', forall|i: int| 0 <= i < dot_at(s) ==> s[i] != '.',
    decreases s.len(),
{
    if s.len() > 0 && s[0] != '.' {
        dot_at_is(s.skip(1));
        assert forall|i: int| 0 <= i < dot_at(s) implies s[i] != '.' by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
    }
}
/// Such a domain is written as identifiers with dots between them.
proof fn domain_is_name(s: Seq<char>)
    requires domain_ok(s),
    ensures name_ok(s),
    decreases s.len(),
{
    dot_at_is(s);
    let d = dot_at(s);
    let ps = pieces(s);
    if d < s.len() {
        let w = s.take(d); let r = s.skip(d); let rest = s.skip(d + 1);
        assert(ps[0] == w);
        assert(ident(w));
        assert forall|i: int| 0 <= i < pieces(rest).len() implies ident(#[trigger] pieces(rest)[i]) by { assert(ps[i + 1] == pieces(rest)[i]); }
        domain_is_name(rest);
        assert(r[0] == '.');
        assert(r.skip(1) =~= rest);
        assert(s =~= w + r);
        word_before(w, r);
        assert(scan(r) == seq![Tok::Dot] + scan(rest));
        assert(scan(s) == seq![Tok::Ident(w)] + (seq![Tok::Dot] + scan(rest)));
        assert(scan(s).skip(2) =~= scan(rest));
        assert forall|i: int| 0 <= i < s.len() implies word_char(#[trigger] s[i]) || s[i] == '.' by {
            if i < d { assert(w[i] == s[i]); } else if i > d { assert(rest[i - d - 1] == s[i]); }
        }
    } else {
        assert(ps[0] == s);
        word_is(s);
    }
}
/// The contents of a message of type google.protobuf.Any, and the message which bytes encode
pub uninterp spec fn s_any(m: DynamicMessage) -> Option<(Seq<char>, Seq<u8>)>;
pub uninterp spec fn s_decoded(d: MessageDescriptor, b: Seq<u8>) -> Option<DynamicMessage>;
/// The type URL and the value of an Any that is written expanded.
pub open spec fn any_of(m: DynamicMessage) -> Option<(Seq<char>, DynamicMessage)> {
    if m.desc.s_full_name() != "google.protobuf.Any"@ || s_any(m) is None { None } else {
        let (url, b) = s_any(m)->Some_0;
        if split_url(url) is None { None } else {
            let (domain, name) = split_url(url)->Some_0;
            if !domain_ok(domain) || m.desc.s_pool().s_message(name) is None || s_decoded(m.desc.s_pool().s_message(name)->Some_0, b) is None { None }
            else { Some((url, s_decoded(m.desc.s_pool().s_message(name)->Some_0, b)->Some_0)) }
        }
    }
}
