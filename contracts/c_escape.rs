//@@ props P19
//@@ include head.rs
use vstd::string::*;

//@@ include escape.rs
// Text as protoc writes it (CEscape): what it denotes is what was escaped.
pub open spec fn protoc_escape(b: u8) -> Seq<u8> {
    if b == 10 { seq![0x5c, 0x6e] } else if b == 13 { seq![0x5c, 0x72] } else if b == 9 { seq![0x5c, 0x74] }
    else if b == 0x22 || b == 0x27 || b == 0x5c { seq![0x5c, b] }
    else if 0x20 <= b < 0x7f { seq![b] }
    else { seq![0x5c, (0x30 + b / 64) as u8, (0x30 + (b / 8) % 8) as u8, (0x30 + b % 8) as u8] }
}
pub open spec fn protoc_text(b: Seq<u8>) -> Seq<u8>
    decreases b.len()
{
    if b.len() == 0 { Seq::empty() } else { protoc_escape(b[0]) + protoc_text(b.skip(1)) }
}
pub proof fn element_of_escape(s: Seq<u8>, p: int, b: u8)
    requires 0 <= p, p + protoc_escape(b).len() <= s.len(), s.subrange(p, p + protoc_escape(b).len()) == protoc_escape(b),
    ensures element(s, p) == Some((b, p + protoc_escape(b).len())),
{
    let e = protoc_escape(b);
    assert forall|i: int| 0 <= i < e.len() implies s[p + i] == e[i] by { assert(s.subrange(p, p + e.len())[i] == s[p + i]); }
    assert(s[p] == e[0]);
    if e.len() > 1 { assert(s[p + 1] == e[1]); }
    if e.len() == 4 {
        assert(s[p + 2] == e[2]);
        assert(s[p + 3] == e[3]);
    }
}
/// P19: reading protoc's escaped form of any bytes gives these bytes.
pub proof fn protoc_roundtrip(pre: Seq<u8>, b: Seq<u8>)
    ensures unescaped(pre + protoc_text(b), pre.len() as int) == Some(b),
    decreases b.len()
{
    let s = pre + protoc_text(b);
    if b.len() == 0 {
        assert(b =~= Seq::empty());
        assert(s.len() == pre.len());
        unfold(s, pre.len() as int);
    } else {
        let e = protoc_escape(b[0]);
        assert(s =~= (pre + e) + protoc_text(b.skip(1)));
        assert(s.subrange(pre.len() as int, pre.len() as int + e.len() as int) =~= e);
        element_of_escape(s, pre.len() as int, b[0]);
        unfold(s, pre.len() as int);
        protoc_roundtrip(pre + e, b.skip(1));
        assert(seq![b[0]] + b.skip(1) =~= b);
    }
}

// No allocation is larger than isize::MAX bytes (a guarantee of Rust).
#[verifier::external_body]
proof fn bytes_fit(s: &str) ensures s.spec_bytes().len() <= isize::MAX { }
/// P19 over the contract of the real function below: a default written by protoc is accepted and exact.
fn bytes_default_is_exact(text: &str, Ghost(b): Ghost<Seq<u8>>) -> (r: Result<Bytes, &'static str>)
    requires text.spec_bytes() == protoc_text(b),
    ensures r is Ok && r.unwrap()@ == b,
{
    proof {
        protoc_roundtrip(Seq::empty(), b);
        assert(Seq::<u8>::empty() + protoc_text(b) =~= protoc_text(b));
    }
    unescape_c_escape_string(text)
}

//@@ include bytes.rs
#[verifier::external_body]
fn vec_into_bytes(v: Vec<u8>) -> (r: Bytes)
    ensures r@ == v@,
{ unimplemented!() }

// ---- the code

//@@ fn prost-reflect/src/descriptor/build/resolve.rs hex_digit
//@@ ret r
//@@ spec
    ensures
        r is Some == hex_byte($p0) is Some,
        r is Some ==> r.unwrap() as int == hex_byte($p0).unwrap() && r.unwrap() < 16,
//@@ end

//@@ fn prost-reflect/src/descriptor/build/resolve.rs unescape_c_escape_string
//@@ ret r
//@@ bind src let $src:id = $p0:id . as_bytes
//@@ bind len let $len:id = $src2:id . len
//@@ bind dst let mut $dst:id = Vec
//@@ bind p let mut $p:id = 0 ;
//@@ bind octal let mut $octal:id = 0u16
//@@ subst Ok ( $d:id . into ( ) ) ==>> Ok(vec_into_bytes($d))
//@@ spec
    ensures
        r is Ok <==> unescaped($p0.spec_bytes(), 0) is Some,
        r is Ok ==> r.unwrap()@ == unescaped($p0.spec_bytes(), 0).unwrap(),
//@@ start
    proof {
        bytes_fit($p0);
    }
//@@ loop 0
    invariant
        $src@ == $p0.spec_bytes(),
        $len == $src@.len(),
        $len <= isize::MAX,
        $p <= $len,
        add($dst@, unescaped($src@, $p as int)) == unescaped($src@, 0),
    decreases $len - $p
//@@ in-loop 0
        let ghost p0 = $p as int;
        let ghost dst0 = $dst@;
        proof {
            unfold($src@, p0);
            if element($src@, p0) is Some {
                let (b, q) = element($src@, p0).unwrap();
                add_assoc(dst0, b, unescaped($src@, q));
            }
        }
//@@ after-loop 0
    proof {
        unfold($src@, $p as int);
        assert($dst@ + Seq::<u8>::empty() =~= $dst@);
        assert(Seq::<u8>::empty() + unescaped($src@, 0).unwrap() =~= unescaped($src@, 0).unwrap());
    }
//@@ loop 1 iter oit
    invariant_except_break
        $p == p0 + 1 + oit.index@,
    invariant
        $src@ == $p0.spec_bytes(),
        $len == $src@.len(),
        $len <= isize::MAX,
        $p <= $len,
        p0 + 1 <= $p <= p0 + 4,
        forall|i: int| p0 + 1 <= i < $p ==> is_oct($src@[i]),
        $octal == oct_val($src@, p0 + 1, $p - (p0 + 1)),
        0 <= $octal < 512,
        $p - (p0 + 1) <= 2 ==> $octal < 64,
        $p - (p0 + 1) <= 1 ==> $octal < 8,
        $p == p0 + 1 ==> $octal == 0,
    ensures
        $p == p0 + 4 || $p == $len || !is_oct($src@[$p as int]),
//@@ in-loop 1
                        let ghost ap = $p as int;
//@@ after-loop 1
                    proof { assert($p - (p0 + 1) == oct_len($src@, p0 + 1)); }
//@@ end

} // verus!
fn main() {}
