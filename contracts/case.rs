//@@ props P14
//@@ include head.rs
//@@ include chars.rs

//@@ include camel.rs
// ---- the code

//@@ fn prost-reflect/src/dynamic/serde/case.rs snake_case_to_camel_case
//@@ ret r
//@@ bind pending let mut $pending:id = false
//@@ bind c for $c:id in
//@@ spec
    ensures
        r is Ok <==> (s2c($p1@) is Some && !s2c($p1@).unwrap().1),
        r is Ok ==> final($p0)@ == old($p0)@ + s2c($p1@).unwrap().0,
        // the property: what was appended converts back to the argument
        r is Ok ==> c2s(final($p0)@.skip(old($p0)@.len() as int)) == Some($p1@),
        snake_prefix($p1@) && ($p1@.len() > 0 ==> $p1@.last() != '_') ==> r is Ok,
//@@ start
    let ghost dst0 = $p0@;
    proof {
        assert($p1@.take(0) =~= Seq::empty());
        if snake_prefix($p1@) { ordinary_snake_converts($p1@); }
    }
//@@ loop 0 iter it
    invariant
        it.seq() == $p1@,
        snake_prefix($p1@) ==> s2c($p1@) is Some,
        snake_prefix($p1@) ==> s2c($p1@).unwrap().1 == ($p1@.len() > 0 && $p1@.last() == '_'),
        dst0 == old($p0)@,
        s2c($p1@.take(it.index@ as int)) is Some,
        $p0@ == dst0 + s2c($p1@.take(it.index@ as int)).unwrap().0,
        $pending == s2c($p1@.take(it.index@ as int)).unwrap().1,
//@@ in-loop 0
        proof {
            step($p1@, it.index@ as int);
            if s2c($p1@.take(it.index@ as int + 1)) is None { s2c_none($p1@, it.index@ as int + 1); }
            let t = s2c($p1@.take(it.index@ as int)).unwrap().0;
            assert((dst0 + t).push($c) =~= dst0 + t.push($c));
            assert((dst0 + t).push(to_upper($c)) =~= dst0 + t.push(to_upper($c)));
        }
//@@ after-loop 0
    proof {
        assert($p1@.take($p1@.len() as int) =~= $p1@);
        s2c_inverse($p1@);
        assert($p0@.skip(dst0.len() as int) =~= s2c($p1@).unwrap().0);
    }
//@@ end

//@@ fn prost-reflect/src/dynamic/serde/case.rs camel_case_to_snake_case
//@@ ret r
//@@ bind c for $c:id in
//@@ spec
    ensures
        r is Ok <==> c2s($p1@) is Some,
        r is Ok ==> final($p0)@ == old($p0)@ + c2s($p1@).unwrap(),
        // the property: what was appended converts back to the argument
        r is Ok ==> s2c(final($p0)@.skip(old($p0)@.len() as int)) == Some(($p1@, false)),
        (forall|i: int| 0 <= i < $p1@.len() ==> $p1@[i] != '_') ==> r is Ok,
//@@ start
    let ghost dst0 = $p0@;
    proof {
        assert($p1@.take(0) =~= Seq::empty());
        if forall|i: int| 0 <= i < $p1@.len() ==> $p1@[i] != '_' { camel_converts($p1@); }
    }
//@@ loop 0 iter it
    invariant
        it.seq() == $p1@,
        (forall|i: int| 0 <= i < $p1@.len() ==> $p1@[i] != '_') ==> c2s($p1@) is Some,
        dst0 == old($p0)@,
        c2s($p1@.take(it.index@ as int)) is Some,
        $p0@ == dst0 + c2s($p1@.take(it.index@ as int)).unwrap(),
//@@ in-loop 0
        proof {
            step($p1@, it.index@ as int);
            if c2s($p1@.take(it.index@ as int + 1)) is None { c2s_none($p1@, it.index@ as int + 1); }
            let t = c2s($p1@.take(it.index@ as int)).unwrap();
            assert((dst0 + t).push($c) =~= dst0 + t.push($c));
            assert((dst0 + t).push('_').push(to_lower($c)) =~= dst0 + t.push('_').push(to_lower($c)));
        }
//@@ after-loop 0
    proof {
        assert($p1@.take($p1@.len() as int) =~= $p1@);
        c2s_inverse($p1@);
        assert($p0@.skip(dst0.len() as int) =~= c2s($p1@).unwrap());
    }
//@@ end

} // verus!
fn main() {}
