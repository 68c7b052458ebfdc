// ---- specification: the two conversions, character by character

/// snake_case to camelCase: the text so far, and whether an underscore is pending; None is a failure.
pub open spec fn s2c(s: Seq<char>) -> Option<(Seq<char>, bool)>
    decreases s.len()
{
    if s.len() == 0 { Some((Seq::empty(), false)) } else {
        let c = s.last();
        match s2c(s.drop_last()) {
            None => None,
            Some((t, pending)) =>
                if is_upper(c) { None }
                else if pending { if to_upper(c) == c { None } else { Some((t.push(to_upper(c)), false)) } }
                else if c == '_' { Some((t, true)) }
                else { Some((t.push(c), false)) },
        }
    }
}
/// camelCase to snake_case
pub open spec fn c2s(s: Seq<char>) -> Option<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Some(Seq::empty()) } else {
        let c = s.last();
        match c2s(s.drop_last()) {
            None => None,
            Some(t) => if is_upper(c) { Some(t.push('_').push(to_lower(c))) } else if c == '_' { None } else { Some(t.push(c)) },
        }
    }
}
pub proof fn s2c_none(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), s2c(s.take(n)) is None,
    ensures s2c(s) is None,
    decreases s.len() - n
{
    if n < s.len() {
        assert(s.take(n + 1).drop_last() =~= s.take(n));
        s2c_none(s, n + 1);
    } else { assert(s.take(n) =~= s); }
}
pub proof fn c2s_none(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), c2s(s.take(n)) is None,
    ensures c2s(s) is None,
    decreases s.len() - n
{
    if n < s.len() {
        assert(s.take(n + 1).drop_last() =~= s.take(n));
        c2s_none(s, n + 1);
    } else { assert(s.take(n) =~= s); }
}
pub proof fn step(s: Seq<char>, n: int)
    requires 0 <= n < s.len(),
    ensures s.take(n + 1).drop_last() == s.take(n), s.take(n + 1).last() == s[n],
{
    assert(s.take(n + 1).drop_last() =~= s.take(n));
}
pub proof fn to_upper_lower(c: char)
    ensures to_upper(c) != c ==> is_upper(to_upper(c)) && to_lower(to_upper(c)) == c,
            is_upper(c) ==> !is_upper(to_lower(c)) && to_upper(to_lower(c)) == c && to_lower(c) != '_' && to_upper(to_lower(c)) != to_lower(c),
            to_upper('_') == '_',
{
}
/// P14, one direction: what camel case is made of s converts back to s (an underscore still pending is not in it).
pub proof fn s2c_inverse(s: Seq<char>)
    requires s2c(s) is Some,
    ensures
        c2s(s2c(s).unwrap().0) == Some(if s2c(s).unwrap().1 { s.drop_last() } else { s }),
        s2c(s).unwrap().1 ==> s.len() > 0 && s.last() == '_',
    decreases s.len()
{
    if s.len() > 0 {
        let c = s.last();
        s2c_inverse(s.drop_last());
        let (t, pending) = s2c(s.drop_last()).unwrap();
        to_upper_lower(c);
        assert(s.drop_last().push(c) =~= s);
        if pending {
            let u = t.push(to_upper(c));
            assert(u.drop_last() =~= t);
            assert(s.drop_last().drop_last().push('_') =~= s.drop_last());
        } else if c == '_' {
        } else {
            assert(t.push(c).drop_last() =~= t);
        }
    }
}
/// P14, the other direction.
pub proof fn c2s_inverse(s: Seq<char>)
    requires c2s(s) is Some,
    ensures s2c(c2s(s).unwrap()) == Some((s, false)),
    decreases s.len()
{
    if s.len() > 0 {
        let c = s.last();
        c2s_inverse(s.drop_last());
        let t = c2s(s.drop_last()).unwrap();
        to_upper_lower(c);
        assert(s.drop_last().push(c) =~= s);
        if is_upper(c) {
            let u = t.push('_');
            assert(u.drop_last() =~= t);
            assert(s2c(u) == Some((s.drop_last(), true)));
            assert(u.push(to_lower(c)).drop_last() =~= u);
        } else if c != '_' {
            assert(t.push(c).drop_last() =~= t);
        }
    } else {
        assert(s =~= Seq::empty());
    }
}
/// Ordinary lower_snake_case paths convert: lower-case words (dots and digits allowed) joined by single
/// underscores, each followed by a lower-case letter.
pub open spec fn ordinary_snake(s: Seq<char>) -> bool {
    &&& s.len() > 0 ==> s.last() != '_'
    &&& forall|i: int| 0 <= i < s.len() ==> !is_upper(#[trigger] s[i])
    &&& forall|i: int| 0 <= i < s.len() - 1 && s[i] == '_' ==> is_lower(#[trigger] s[i + 1])
}
pub open spec fn snake_prefix(s: Seq<char>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> !is_upper(#[trigger] s[i])
    &&& forall|i: int| 0 < i < s.len() && s[i - 1] == '_' ==> is_lower(#[trigger] s[i])
}
pub proof fn ordinary_snake_converts(s: Seq<char>)
    requires snake_prefix(s),
    ensures s2c(s) is Some, s2c(s).unwrap().1 == (s.len() > 0 && s.last() == '_'),
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies !is_upper(#[trigger] p[i]) by { assert(p[i] == s[i]); }
        assert forall|i: int| 0 < i < p.len() && p[i - 1] == '_' implies is_lower(#[trigger] p[i]) by { assert(p[i] == s[i]); }
        ordinary_snake_converts(p);
        assert(!is_upper(s[s.len() - 1]));
        if p.len() > 0 && p.last() == '_' { assert(is_lower(s[s.len() - 1])); }
    }
}
/// A camelCase path without underscores always converts.
pub proof fn camel_converts(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != '_',
    ensures c2s(s) is Some,
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies s.drop_last()[i] != '_' by { assert(s.drop_last()[i] == s[i]); }
        camel_converts(s.drop_last());
        assert(s[s.len() - 1] != '_');
    }
}

