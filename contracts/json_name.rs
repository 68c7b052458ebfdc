//@@ props P20
//@@ include head.rs
//@@ include chars.rs
//@@ include string.rs

//@@ include jsonname.rs
pub open spec fn no_underscore(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != '_' }
/// "All underscores removed, everything else unchanged up to case."
pub proof fn json_name_facts(s: Seq<char>)
    ensures no_underscore(json_name(s)), no_underscore(s) ==> json_name(s) == s,
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        json_name_facts(p);
        assert(p.push(s.last()) =~= s);
        if no_underscore(s) { assert forall|i: int| 0 <= i < p.len() implies p[i] != '_' by { assert(p[i] == s[i]); } }
    } else { assert(s =~= Seq::empty()); }
}
pub proof fn step(s: Seq<char>, n: int)
    requires 0 <= n < s.len(),
    ensures s.take(n + 1).drop_last() == s.take(n), s.take(n + 1).last() == s[n],
            n > 0 ==> s.take(n + 1)[n - 1] == s[n - 1],
{
    assert(s.take(n + 1).drop_last() =~= s.take(n));
}

// ---- the code

//@@ fn prost-reflect/src/descriptor/build/mod.rs to_json_name
//@@ ret r
//@@ bind result let mut $result:id = String
//@@ bind next let mut $next:id = false
//@@ bind c for $c:id in
//@@ spec
    ensures
        r@ == json_name($p0@),
        no_underscore(r@),
//@@ loop 0 iter it
    invariant
        it.seq() == $p0@,
        $result@ == json_name($p0@.take(it.index@ as int)),
        $next == (it.index@ > 0 && $p0@[it.index@ as int - 1] == '_'),
//@@ in-loop 0
        proof { step($p0@, it.index@ as int); }
//@@ after-loop 0
    proof {
        assert($p0@.take($p0@.len() as int) =~= $p0@);
        json_name_facts($p0@);
    }
//@@ end

} // verus!
fn main() {}
