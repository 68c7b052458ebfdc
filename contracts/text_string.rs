//@@ props P16 P18
//@@ include head.rs
use vstd::string::*;
use vstd::utf8::*;

// ---- specification: string literals of the text format

/// How the formatter writes one byte.
pub open spec fn escape(b: u8) -> Seq<char> {
    if b == 9 { seq!['\\', 't'] } else if b == 13 { seq!['\\', 'r'] } else if b == 10 { seq!['\\', 'n'] }
    else if b == 0x5c { seq!['\\', '\\'] } else if b == 0x27 { seq!['\\', '\''] } else if b == 0x22 { seq!['\\', '"'] }
    else if 0x20 <= b <= 0x7e { seq![b as char] }
    else { seq!['\\', oct_digit((b / 64) as int), oct_digit(((b / 8) % 8) as int), oct_digit((b % 8) as int)] }
}
pub open spec fn oct_digit(d: int) -> char { (0x30 + d) as u8 as char }
pub open spec fn escaped(b: Seq<u8>) -> Seq<char>
    decreases b.len()
{
    if b.len() == 0 { Seq::empty() } else { escaped(b.drop_last()) + escape(b.last()) }
}
pub open spec fn literal(b: Seq<u8>) -> Seq<char> { seq!['"'] + escaped(b) + seq!['"'] }

pub open spec fn printable(c: char) -> bool { ' ' <= c && c <= '~' }
/// P16: the literal is printable ASCII.
pub proof fn literal_is_printable(b: Seq<u8>)
    ensures forall|i: int| 0 <= i < escaped(b).len() ==> printable(#[trigger] escaped(b)[i]),
    decreases b.len()
{
    if b.len() > 0 {
        literal_is_printable(b.drop_last());
        let e = escape(b.last());
        assert forall|i: int| 0 <= i < escaped(b).len() implies printable(#[trigger] escaped(b)[i]) by {
            let n = escaped(b.drop_last()).len();
            if i < n { assert(escaped(b)[i] == escaped(b.drop_last())[i]); }
            else { assert(escaped(b)[i] == e[i - n]); }
        }
    }
}

// ---- output (assumed contracts of core::fmt)

#[verifier::external_body]
pub struct Out { x: u8 }
impl View for Out { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub struct FmtError;
pub type FmtResult = Result<(), FmtError>;
impl Out {
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: FmtResult)
        ensures r is Ok ==> final(self)@ == old(self)@.push(c),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: FmtResult)
        ensures r is Ok ==> final(self)@ == old(self)@ + s@,
    { unimplemented!() }
}
fn w_ok() -> (r: FmtResult) ensures r is Ok { Ok(()) }
fn w_lit(f: &mut Out, s: &str) -> (r: FmtResult)
    ensures r is Ok ==> final(f)@ == old(f)@ + s@,
{ f.write_str(s) }
/// `{:03o}` of a byte (assumed contract of core::fmt)
#[verifier::external_body]
fn w_oct3(f: &mut Out, b: u8) -> (r: FmtResult)
    ensures r is Ok ==> final(f)@ == old(f)@ + seq![oct_digit((b / 64) as int), oct_digit(((b / 8) % 8) as int), oct_digit((b % 8) as int)],
{ unimplemented!() }

proof fn strings()
    ensures "\\t"@ == seq!['\\', 't'], "\\r"@ == seq!['\\', 'r'], "\\n"@ == seq!['\\', 'n'], "\\\\"@ == seq!['\\', '\\'],
            "\\'"@ == seq!['\\', '\''], "\\\""@ == seq!['\\', '"'], "\\"@ == seq!['\\'],
{
    reveal_strlit("\\t"); reveal_strlit("\\r"); reveal_strlit("\\n"); reveal_strlit("\\\\");
    reveal_strlit("\\'"); reveal_strlit("\\\""); reveal_strlit("\\");
    assert("\\t"@ =~= seq!['\\', 't']); assert("\\r"@ =~= seq!['\\', 'r']); assert("\\n"@ =~= seq!['\\', 'n']);
    assert("\\\\"@ =~= seq!['\\', '\\']); assert("\\'"@ =~= seq!['\\', '\'']); assert("\\\""@ =~= seq!['\\', '"']); assert("\\"@ =~= seq!['\\']);
}

//@@ fn prost-reflect/src/dynamic/mod.rs fmt_string
//@@ expand-write
//@@ subst impl fmt :: Write => Out
//@@ subst fmt :: Result => FmtResult
//@@ subst? for & $c:id in $b:id { ==>> for byref__ in $b { let $c = *byref__;
//@@ bind? c let $c:id = * byref__
//@@ ret r
//@@ spec
    ensures
        r is Ok ==> final($p0)@ == old($p0)@ + literal($p1@),
//@@ start
    let ghost out0 = $p0@;
    proof {
        assert($p1@.take(0) =~= Seq::empty());
        assert(out0.push('"') =~= out0 + seq!['"'] + escaped($p1@.take(0)));
    }
//@@ loop 0 iter it
    invariant
        it.seq().len() == $p1@.len(),
        forall|i: int| 0 <= i < $p1@.len() ==> *it.seq()[i] == $p1@[i],
        $p0@ == out0 + seq!['"'] + escaped($p1@.take(it.index@ as int)),
//@@ in-loop 0
        let ghost at = $p0@;
        proof {
            strings();
            let i = it.index@ as int;
            let b = $p1@[i];
            assert($p1@.take(i + 1).drop_last() =~= $p1@.take(i));
            assert(at + escape(b) =~= out0 + seq!['"'] + escaped($p1@.take(i + 1)));
            assert(at + seq!['\\'] + seq![oct_digit((b / 64) as int), oct_digit(((b / 8) % 8) as int), oct_digit((b % 8) as int)]
                =~= at + seq!['\\', oct_digit((b / 64) as int), oct_digit(((b / 8) % 8) as int), oct_digit((b % 8) as int)]);
            assert(at.push(b as char) =~= at + seq![b as char]);
        }
//@@ after-loop 0
    proof {
        assert($p1@.take($p1@.len() as int) =~= $p1@);
        assert($p0@.push('"') =~= out0 + literal($p1@));
    }
//@@ end

//@@ include digits.rs
// ---- specification: reading a literal

pub open spec fn is_hex(c: char) -> bool { hex(c) is Some }
pub open spec fn is_oct(c: char) -> bool { '0' <= c <= '7' }
pub open spec fn simple(c: char) -> Option<u8> {
    if c == 'a' { Some(7u8) } else if c == 'b' { Some(8u8) } else if c == 'f' { Some(12u8) } else if c == 'n' { Some(10u8) }
    else if c == 'r' { Some(13u8) } else if c == 't' { Some(9u8) } else if c == 'v' { Some(11u8) }
    else if c == '?' { Some(0x3fu8) } else if c == '\\' { Some(0x5cu8) } else if c == '\'' { Some(0x27u8) } else if c == '"' { Some(0x22u8) }
    else { None }
}
pub open spec fn plain(c: char) -> bool { c != '\0' && c != '\n' && c != '\\' && c != '\'' && c != '"' }
/// Length of the longest prefix of at most `max` octal or hexadecimal digits from `p` on.
pub open spec fn run_of(s: Seq<char>, p: int, max: int, oct: bool) -> int
    decreases max
{
    if max > 0 && 0 <= p < s.len() && (if oct { is_oct(s[p]) } else { is_hex(s[p]) }) { 1 + run_of(s, p + 1, max - 1, oct) } else { 0 }
}
pub open spec fn scalar(v: int) -> bool { 0 <= v < 0xD800 || 0xE000 <= v < 0x110000 }
/// What an escape at the start of `s` denotes, and its length; None if there is no such escape.
pub open spec fn escape_at(s: Seq<char>) -> Option<(Seq<u8>, int)> {
    if s.len() < 2 || s[0] != '\\' { None }
    else if simple(s[1]) is Some { Some((seq![simple(s[1]).unwrap()], 2)) }
    else if is_oct(s[1]) {
        let n = run_of(s, 1, 3, true);
        let v = value(s.subrange(1, 1 + n), 8);
        if v <= 255 { Some((seq![v as u8], 1 + n)) } else { None }
    } else if s[1] == 'x' || s[1] == 'X' {
        let n = run_of(s, 2, 2, false);
        if n >= 1 { Some((seq![value(s.subrange(2, 2 + n), 16) as u8], 2 + n)) } else { None }
    } else if s[1] == 'u' || s[1] == 'U' {
        let n: int = if s[1] == 'u' { 4 } else { 8 };
        if run_of(s, 2, n, false) == n && scalar(value(s.subrange(2, 2 + n), 16)) {
            Some((encode_utf8(seq![value(s.subrange(2, 2 + n), 16) as u32 as char]), 2 + n))
        } else { None }
    } else { None }
}
#[verifier::opaque]
pub open spec fn element(s: Seq<char>) -> Option<(Seq<u8>, int)> {
    if s.len() == 0 { None }
    else if s[0] == '\\' { escape_at(s) }
    else if plain(s[0]) { Some((encode_utf8(seq![s[0]]), 1)) }
    else if s[0] == '\'' { Some((seq![0x27u8], 1)) }
    else if s[0] == '"' { Some((seq![0x22u8], 1)) }
    else { None }
}
/// The bytes and the text after the terminator `q`; None if the literal is ill-formed.
#[verifier::opaque]
pub open spec fn read(s: Seq<char>, q: char) -> Option<(Seq<u8>, Seq<char>)>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if s[0] == q { Some((Seq::empty(), s.skip(1))) }
    else {
        match element(s) {
            None => None,
            Some((b, n)) => if n < 1 || n > s.len() { None } else { add(b, read(s.skip(n), q)) },
        }
    }
}
#[verifier::opaque]
pub open spec fn add(b: Seq<u8>, r: Option<(Seq<u8>, Seq<char>)>) -> Option<(Seq<u8>, Seq<char>)> {
    match r { None => None, Some((t, rest)) => Some((b + t, rest)) }
}
proof fn run_of_bound(s: Seq<char>, p: int, max: int, oct: bool)
    requires 0 <= p <= s.len(), 0 <= max,
    ensures 0 <= run_of(s, p, max, oct) <= max, p + run_of(s, p, max, oct) <= s.len(),
            forall|i: int| p <= i < p + run_of(s, p, max, oct) ==> if oct { is_oct(#[trigger] s[i]) } else { is_hex(s[i]) },
    decreases max
{
    if max > 0 && p < s.len() { run_of_bound(s, p + 1, max - 1, oct); }
}
proof fn run_one(s: Seq<char>, p: int, max: int, oct: bool)
    requires max > 0, 0 <= p < s.len(), if oct { is_oct(s[p]) } else { is_hex(s[p]) },
    ensures run_of(s, p, max, oct) >= 1,
{
    run_of_bound(s, p + 1, max - 1, oct);
}
proof fn unfold(s: Seq<char>, q: char)
    requires q == '"' || q == '\'',
    ensures
        s.len() == 0 ==> read(s, q) is None,
        s.len() > 0 && s[0] == q ==> read(s, q) == Some((Seq::<u8>::empty(), s.skip(1))),
        s.len() > 0 && s[0] != q && element(s) is None ==> read(s, q) is None,
        s.len() > 0 && s[0] != q && element(s) is Some ==> 1 <= element(s).unwrap().1 <= s.len() && read(s, q) == add(element(s).unwrap().0, read(s.skip(element(s).unwrap().1), q)),
{
    reveal(read); reveal(element);
    if s.len() >= 2 {
        run_of_bound(s, 1, 3, true);
        run_of_bound(s, 2, 2, false); run_of_bound(s, 2, 4, false); run_of_bound(s, 2, 8, false);
    }
}
proof fn add_add(a: Seq<u8>, b: Seq<u8>, r: Option<(Seq<u8>, Seq<char>)>)
    ensures add(a, add(b, r)) == add(a + b, r), add(Seq::empty(), r) == r,
{
    reveal(add);
    match r { None => {}, Some((t, rest)) => { assert(a + (b + t) =~= (a + b) + t); assert(Seq::<u8>::empty() + t =~= t); } }
}
#[verifier::opaque]
pub open spec fn plain_run(s: Seq<char>, n: int) -> bool { 0 <= n <= s.len() && forall|i: int| 0 <= i < n ==> plain(#[trigger] s[i]) }
/// A run of plain characters stands for its UTF-8 encoding.
proof fn read_run(s: Seq<char>, n: int, q: char)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> plain(#[trigger] s[i]), q == '"' || q == '\'',
    ensures read(s, q) == add(encode_utf8(s.take(n)), read(s.skip(n), q)),
    decreases n
{
    broadcast use group_utf8_lib;
    reveal(element);
    if n == 0 {
        assert(s.take(0) =~= Seq::empty());
        assert(s.skip(0) =~= s);
        reveal_with_fuel(encode_utf8, 1);
        add_add(Seq::empty(), Seq::empty(), read(s, q));
    } else {
        unfold(s, q);
        assert(plain(s[0]));
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < n - 1 implies plain(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); }
        read_run(t, n - 1, q);
        assert(t.skip(n - 1) =~= s.skip(n));
        assert(s.take(n) =~= seq![s[0]] + t.take(n - 1));
        encode_utf8_concat(seq![s[0]], t.take(n - 1));
        add_add(encode_utf8(seq![s[0]]), encode_utf8(t.take(n - 1)), read(s.skip(n), q));
    }
}
proof fn escaped_cons(b: Seq<u8>)
    requires b.len() > 0,
    ensures escaped(b) == escape(b[0]) + escaped(b.skip(1)),
    decreases b.len()
{
    if b.len() == 1 {
        assert(b.drop_last() =~= Seq::empty());
        assert(b.skip(1) =~= Seq::empty());
        assert(escaped(b) =~= escape(b[0]) + escaped(b.skip(1)));
    } else {
        escaped_cons(b.drop_last());
        assert(b.drop_last().skip(1) =~= b.skip(1).drop_last());
        assert(b.skip(1).last() == b.last());
        assert(escaped(b) =~= escape(b[0]) + escaped(b.skip(1)));
    }
}
proof fn ascii_utf8(c: char)
    requires (c as u32) < 128,
    ensures encode_utf8(seq![c]) == seq![c as u8],
{
    broadcast use group_utf8_lib;
    assert(is_ascii_chars(seq![c]));
    is_ascii_chars_encode_utf8(seq![c]);
    assert(encode_utf8(seq![c]) =~= seq![c as u8]);
}
proof fn element_of_escape(b: u8, rest: Seq<char>)
    ensures element(escape(b) + rest) == Some((seq![b], escape(b).len() as int)),
{
    reveal(element);
    let s = escape(b) + rest;
    let e = escape(b);
    assert forall|i: int| 0 <= i < e.len() implies s[i] == e[i] by {}
    assert(s[0] == e[0]);
    if e.len() == 1 {
        ascii_utf8(b as char);
    } else if e.len() == 2 {
        assert(s[1] == e[1]);
    } else {
        assert(s[1] == e[1] && s[2] == e[2] && s[3] == e[3]);
        assert(is_oct(e[1]) && is_oct(e[2]) && is_oct(e[3]));
        reveal_with_fuel(run_of, 4);
        assert(run_of(s, 1, 3, true) == 3);
        let d = s.subrange(1, 4);
        assert(d =~= seq![e[1], e[2], e[3]]);
        reveal_with_fuel(value, 4);
        assert(d.drop_last() =~= seq![e[1], e[2]]);
        assert(d.drop_last().drop_last() =~= seq![e[1]]);
        assert(digit(e[1], 8) == Some((b / 64) as int));
        assert(digit(e[2], 8) == Some(((b / 8) % 8) as int));
        assert(digit(e[3], 8) == Some((b % 8) as int));
        assert(value(seq![e[1]], 8) == (b / 64) as int) by { assert(seq![e[1]].drop_last() =~= Seq::empty()); }
        assert(value(d, 8) == ((b / 64) * 8 + (b / 8) % 8) * 8 + b % 8);
        assert(((b / 64) * 8 + (b / 8) % 8) * 8 + b % 8 == b) by (nonlinear_arith);
    }
}
/// P16: what the formatter writes for any bytes reads back as these bytes, whatever follows.
pub proof fn literal_roundtrip(b: Seq<u8>, rest: Seq<char>)
    ensures read(escaped(b) + seq!['"'] + rest, '"') == Some((b, rest)),
    decreases b.len()
{
    reveal(add);
    let s = escaped(b) + seq!['"'] + rest;
    unfold(s, '"');
    if b.len() == 0 {
        assert(s.skip(1) =~= rest);
        assert(b =~= Seq::empty());
    } else {
        escaped_cons(b);
        let tail = escaped(b.skip(1)) + seq!['"'] + rest;
        assert(s =~= escape(b[0]) + tail);
        element_of_escape(b[0], tail);
        assert(s[0] == escape(b[0])[0]);
        assert(s.skip(escape(b[0]).len() as int) =~= tail);
        literal_roundtrip(b.skip(1), rest);
        assert(seq![b[0]] + b.skip(1) =~= b);
    }
}

// ---- the generated lexers (assumed contracts of logos: the longest match of the patterns required below)

//@@ require prost-reflect/src/dynamic/text_format/parse/lex.rs # [ regex ( r#"[^\x00\n\\'"]+"# ) ] Unescaped
//@@ require prost-reflect/src/dynamic/text_format/parse/lex.rs # [ regex ( r#"['"]"# , terminator ) ] Terminator
//@@ require prost-reflect/src/dynamic/text_format/parse/lex.rs # [ regex ( r#"\\[xX](?&hex)(?&hex)?"# , hex_escape ) ] # [ regex ( r#"\\[0-7][0-7]?[0-7]?"# , oct_escape ) ] # [ regex ( r#"\\[abfnrtv?\\'"]"# , char_escape ) ] Byte
//@@ require prost-reflect/src/dynamic/text_format/parse/lex.rs # [ regex ( r#"\\u(?&hex)(?&hex)(?&hex)(?&hex)"# , unicode_escape ) ] # [ regex ( r#"\\U(?&hex)(?&hex)(?&hex)(?&hex)(?&hex)(?&hex)(?&hex)(?&hex)"# , unicode_escape ) ] Char
//@@ require prost-reflect/src/dynamic/text_format/parse/lex.rs # [ logos ( subpattern hex = r"[0-9A-Fa-f]" ) ] enum Component

/// The lexer of a string's components: the text it was made for, how far it has come, and what it matched last.
#[verifier::external_body]
pub struct Lx<'a> { s: &'a str }
impl<'a> Lx<'a> {
    pub uninterp spec fn src(&self) -> Seq<char>;
    pub uninterp spec fn pos(&self) -> int;
    pub uninterp spec fn matched(&self) -> Seq<char>;
    pub open spec fn rest(&self) -> Seq<char> { self.src().skip(self.pos()) }
    #[verifier::external_body]
    pub fn slice(&self) -> (r: &'a str) ensures r@ == self.matched() { unimplemented!() }
    #[verifier::external_body]
    pub fn span(&self) -> (r: Range)
        ensures r.start <= r.end <= isize::MAX,
            0 <= self.pos() <= self.src().len() ==> r.end == encode_utf8(self.src().take(self.pos())).len(),
    { unimplemented!() }
}
pub struct Range { pub start: usize, pub end: usize }
pub assume_specification [ char::from_u32 ] (v: u32) -> (r: Option<char>)
    ensures r is Some <==> scalar(v as int), r is Some ==> r.unwrap() == v as char && r.unwrap() as u32 == v;
/// `&s[n..]` where the first n characters are ASCII (assumed contract of core::str)
#[verifier::external_body]
fn str_from(s: &str, n: usize) -> (r: &str)
    requires n <= s@.len(), is_ascii_chars(s@.take(n as int)),
    ensures r@ == s@.skip(n as int),
{ unimplemented!() }
/// `u32::from_str_radix` (assumed contract of core::num)
#[verifier::external_body]
fn parse_radix(s: &str, radix: u32) -> (r: Result<u32, ParseIntError>)
    requires 2 <= radix <= 16,
    ensures
        s@.len() > 0 && all_digits(s@, radix as int) && value(s@, radix as int) <= u32::MAX ==> r is Ok && r.unwrap() as int == value(s@, radix as int),
        s@.len() > 0 && all_digits(s@, radix as int) && value(s@, radix as int) > u32::MAX ==> r is Err,
        s@.len() == 0 || (!all_digits(s@, radix as int) && s@[0] != '+') ==> r is Err,
{ unimplemented!() }
#[verifier::external_body]
#[derive(Debug)]
pub struct ParseIntError;
proof fn ascii_take(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (s[i] as u32) < 128,
    ensures is_ascii_chars(s.take(n)),
{ }
//@@ fn prost-reflect/src/dynamic/text_format/parse/lex.rs string::hex_escape
//@@ subst Lexer < 'a , Component < 'a > > => Lx<'a>
//@@ subst & $e:e [ $n .. ] => str_from($e, $n)
//@@ subst u32 :: from_str_radix => parse_radix
//@@ ret r
//@@ spec
    requires
        3 <= old($p0).matched().len() <= 4, old($p0).matched()[0] == '\\', old($p0).matched()[1] == 'x' || old($p0).matched()[1] == 'X',
        forall|i: int| 2 <= i < old($p0).matched().len() ==> is_hex(#[trigger] old($p0).matched()[i]),
    ensures
        *final($p0) == *old($p0),
        r as int == value(old($p0).matched().skip(2), 16),
//@@ start
    proof {
        let m = $p0.matched();
        ascii_take(m, 2);
        assert forall|i: int| 0 <= i < m.skip(2).len() implies digit(#[trigger] m.skip(2)[i], 16) is Some by { assert(m.skip(2)[i] == m[i + 2]); }
        value_bound(m.skip(2), 16);
    }
//@@ end

//@@ fn prost-reflect/src/dynamic/text_format/parse/lex.rs string::oct_escape
//@@ subst Lexer < 'a , Component < 'a > > => Lx<'a>
//@@ subst & $e:e [ $n .. ] => str_from($e, $n)
//@@ subst u32 :: from_str_radix => parse_radix
//@@ subst? map_err ( drop ) ==>> map_err(|_e| ())
//@@ ret r
//@@ spec
    requires
        2 <= old($p0).matched().len() <= 4, old($p0).matched()[0] == '\\',
        forall|i: int| 1 <= i < old($p0).matched().len() ==> is_oct(#[trigger] old($p0).matched()[i]),
    ensures
        *final($p0) == *old($p0),
        r is Ok <==> value(old($p0).matched().skip(1), 8) <= 255,
        r is Ok ==> r.unwrap() as int == value(old($p0).matched().skip(1), 8),
//@@ start
    proof {
        let m = $p0.matched();
        ascii_take(m, 1);
        assert forall|i: int| 0 <= i < m.skip(1).len() implies digit(#[trigger] m.skip(1)[i], 8) is Some by { assert(m.skip(1)[i] == m[i + 1]); }
        value_bound(m.skip(1), 8);
    }
//@@ end

//@@ fn prost-reflect/src/dynamic/text_format/parse/lex.rs string::char_escape
//@@ subst Lexer < 'a , Component < 'a > > => Lx<'a>
//@@ subst? panic ! ( $m ) ==>> { assert(false); 0 }
//@@ ret r
//@@ spec
    requires
        old($p0).matched().len() == 2, old($p0).matched()[0] == '\\', simple(old($p0).matched()[1]) is Some,
    ensures
        *final($p0) == *old($p0),
        r == simple(old($p0).matched()[1]).unwrap(),
//@@ start
    proof {
        broadcast use group_utf8_lib;
        let m = $p0.matched();
        assert(m =~= m.take(2));
        ascii_take(m, 2);
        is_ascii_chars_encode_utf8(m);
    }
//@@ end

//@@ fn prost-reflect/src/dynamic/text_format/parse/lex.rs string::unicode_escape
//@@ subst Lexer < 'a , Component < 'a > > => Lx<'a>
//@@ subst & $e:e [ $n .. ] => str_from($e, $n)
//@@ subst u32 :: from_str_radix => parse_radix
//@@ ret r
//@@ spec
    requires
        old($p0).matched().len() == 6 || old($p0).matched().len() == 10, old($p0).matched()[0] == '\\', old($p0).matched()[1] == 'u' || old($p0).matched()[1] == 'U',
        forall|i: int| 2 <= i < old($p0).matched().len() ==> is_hex(#[trigger] old($p0).matched()[i]),
    ensures
        *final($p0) == *old($p0),
        r is Some <==> scalar(value(old($p0).matched().skip(2), 16)),
        r is Some ==> r.unwrap() == value(old($p0).matched().skip(2), 16) as u32 as char,
//@@ start
    proof {
        let m = $p0.matched();
        ascii_take(m, 2);
        assert forall|i: int| 0 <= i < m.skip(2).len() implies digit(#[trigger] m.skip(2)[i], 16) is Some by { assert(m.skip(2)[i] == m[i + 2]); }
        value_bound(m.skip(2), 16);
    }
//@@ end

//@@ fn prost-reflect/src/dynamic/text_format/parse/lex.rs string::terminator
//@@ subst Lexer < 'a , Component < 'a > > => Lx<'a>
//@@ subst? debug_assert_eq ! ( $m ) ; =>
//@@ subst? $e:e . bytes ( ) . next ( ) ==>> first_byte($e)
//@@ ret r
//@@ spec
    requires
        old($p0).matched().len() == 1, old($p0).matched()[0] == '\'' || old($p0).matched()[0] == '"',
    ensures
        *final($p0) == *old($p0),
        r == old($p0).matched()[0] as u8,
//@@ start
    proof {
        broadcast use group_utf8_lib;
        let m = $p0.matched();
        assert(m =~= m.take(1));
        ascii_take(m, 1);
        is_ascii_chars_encode_utf8(m);
    }
//@@ end
/// `s.bytes().next()` (assumed contract of core::str)
#[verifier::external_body]
fn first_byte(s: &str) -> (r: Option<u8>)
    ensures s.spec_bytes().len() > 0 ==> r == Some(s.spec_bytes()[0]), s.spec_bytes().len() == 0 ==> r is None,
{ unimplemented!() }

//@@ require prost-reflect/src/dynamic/text_format/parse/lex.rs enum Component < 'a > { # [ regex ( r#"[^\x00\n\\'"]+"# ) ] Unescaped ( & 'a str ) ,
pub enum Component<'a> { Unescaped(&'a str), Terminator(u8), Byte(u8), Char(char) }
/// Which of the patterns matched.
pub enum Pat { End, Bad, Unescaped, Quote, Hex, Oct, Simple, Unicode }
impl<'a> Component<'a> {
    #[verifier::external_body]
    pub fn lexer(s: &'a str) -> (r: Lx<'a>) ensures r.src() == s@, r.pos() == 0 { unimplemented!() }
}
impl<'a> Lx<'a> {
    /// The longest match at the current position (assumed contract of logos).
    #[verifier::external_body]
    pub fn match_next(&mut self) -> (r: Pat)
        requires 0 <= old(self).pos() <= old(self).src().len(),
        ensures
            final(self).src() == old(self).src(),
            ({
                let s = old(self).rest();
                let m = final(self).matched();
                let n = m.len() as int;
                match r {
                    Pat::End => s.len() == 0,
                    Pat::Bad => s.len() > 0 && element_pattern(s) is None,
                    _ => 0 < n <= s.len() && m == s.take(n) && final(self).pos() == old(self).pos() + n && (match r {
                        Pat::Unescaped => (forall|i: int| 0 <= i < n ==> plain(#[trigger] s[i])) && (n < s.len() ==> !plain(s[n])),
                        _ => element_pattern(s) == Some((r, n)),
                    }),
                }
            }),
    { unimplemented!() }
    pub fn next(&mut self) -> (r: Option<Result<Component<'a>, ()>>)
        requires 0 <= old(self).pos() <= old(self).src().len(),
        ensures
            final(self).src() == old(self).src(),
            ({
                let s = old(self).rest();
                let n = final(self).pos() - old(self).pos();
                match r {
                    None => s.len() == 0,
                    Some(Err(_)) => s.len() > 0 && s[0] != '"' && s[0] != '\'' && element(s) is None,
                    Some(Ok(Component::Unescaped(t))) => 0 < n && t@ == s.take(n) && plain_run(s, n),
                    Some(Ok(Component::Terminator(q))) => s.len() > 0 && n == 1 && (s[0] == '"' || s[0] == '\'') && q == s[0] as u8 && element(s) == Some((seq![q], 1int)),
                    Some(Ok(Component::Byte(b))) => s.len() > 0 && s[0] == '\\' && element(s) == Some((seq![b], n)),
                    Some(Ok(Component::Char(c))) => s.len() > 0 && s[0] == '\\' && element(s) == Some((encode_utf8(seq![c]), n)),
                }
            }),
    {
        let p = self.match_next();
        let ghost s = old(self).rest();
        let ghost m = self.matched();
        proof {
            reveal(element); reveal(plain_run);
            if s.len() >= 2 {
                run_of_bound(s, 1, 3, true); if is_oct(s[1]) { run_one(s, 1, 3, true); }
                run_of_bound(s, 2, 2, false); run_of_bound(s, 2, 4, false); run_of_bound(s, 2, 8, false);
            }
            if !(p is End) && !(p is Bad) {
                assert forall|i: int| 0 <= i < m.len() implies m[i] == s[i] by {}
                if p is Hex || p is Unicode { assert(m.skip(2) =~= s.subrange(2, m.len() as int)); }
                if p is Oct {
                    assert(m.skip(1) =~= s.subrange(1, m.len() as int));
                    assert forall|i: int| 0 <= i < m.skip(1).len() implies digit(#[trigger] m.skip(1)[i], 8) is Some by { assert(m.skip(1)[i] == m[i + 1]); }
                    value_bound(m.skip(1), 8);
                }
            }
        }
        match p {
            Pat::End => None,
            Pat::Bad => Some(Err(())),
            Pat::Unescaped => Some(Ok(Component::Unescaped(self.slice()))),
            Pat::Quote => Some(Ok(Component::Terminator(terminator(self)))),
            Pat::Hex => Some(Ok(Component::Byte(hex_escape(self)))),
            Pat::Oct => match oct_escape(self) { Ok(b) => Some(Ok(Component::Byte(b))), Err(_) => Some(Err(())) },
            Pat::Simple => Some(Ok(Component::Byte(char_escape(self)))),
            Pat::Unicode => match unicode_escape(self) { Some(c) => Some(Ok(Component::Char(c))), None => Some(Err(())) },
        }
    }
}
/// The pattern, other than a run of plain characters, that matches at the start, and the length of its longest match.
pub open spec fn element_pattern(s: Seq<char>) -> Option<(Pat, int)> {
    if s.len() == 0 { None }
    else if s[0] == '"' || s[0] == '\'' { Some((Pat::Quote, 1)) }
    else if plain(s[0]) { Some((Pat::Unescaped, 1)) }
    else if s[0] != '\\' || s.len() < 2 { None }
    else if simple(s[1]) is Some { Some((Pat::Simple, 2)) }
    else if is_oct(s[1]) { Some((Pat::Oct, 1 + run_of(s, 1, 3, true))) }
    else if s[1] == 'x' || s[1] == 'X' { if run_of(s, 2, 2, false) >= 1 { Some((Pat::Hex, 2 + run_of(s, 2, 2, false))) } else { None } }
    else if s[1] == 'u' { if run_of(s, 2, 4, false) == 4 { Some((Pat::Unicode, 6)) } else { None } }
    else if s[1] == 'U' { if run_of(s, 2, 8, false) == 8 { Some((Pat::Unicode, 10)) } else { None } }
    else { None }
}

/// What one component adds to what was read before it.
proof fn step(s0: Seq<char>, at: int, acc: Seq<u8>, q: char)
    requires 0 <= at <= s0.len(), q == '"' || q == '\'', read(s0, q) == add(acc, read(s0.skip(at), q)),
    ensures
        s0.skip(at).len() == 0 ==> read(s0, q) is None,
        s0.skip(at).len() > 0 && s0.skip(at)[0] == q ==> at + 1 <= s0.len() && read(s0, q) == Some((acc, s0.skip(at + 1))),
        s0.skip(at).len() > 0 && s0.skip(at)[0] != q && element(s0.skip(at)) is None ==> read(s0, q) is None,
        s0.skip(at).len() > 0 && s0.skip(at)[0] != q && element(s0.skip(at)) is Some ==> ({
            let (b, n) = element(s0.skip(at)).unwrap();
            1 <= n && at + n <= s0.len() && read(s0, q) == add(acc + b, read(s0.skip(at + n), q))
        }),
        forall|n: int| #[trigger] plain_run(s0.skip(at), n) ==> 0 <= n && at + n <= s0.len()
            && read(s0, q) == add(acc + encode_utf8(s0.skip(at).take(n)), read(s0.skip(at + n), q)),
        forall|b: u8| #[trigger] acc.push(b) == acc + seq![b],
{
    let rem = s0.skip(at);
    unfold(rem, q);
    assert(forall|n: int| 0 <= n <= rem.len() ==> #[trigger] rem.skip(n) =~= s0.skip(at + n));
    assert forall|n: int| #[trigger] plain_run(rem, n) implies 0 <= n && at + n <= s0.len()
            && read(s0, q) == add(acc + encode_utf8(rem.take(n)), read(s0.skip(at + n), q)) by {
        reveal(plain_run); read_run(rem, n, q);
        assert(rem.skip(n) =~= s0.skip(at + n));
        add_add(acc, encode_utf8(rem.take(n)), read(rem.skip(n), q));
    }
    if rem.len() > 0 && rem[0] != q && element(rem) is Some {
        add_add(acc, element(rem).unwrap().0, read(rem.skip(element(rem).unwrap().1), q));
    }
    assert forall|b: u8| #[trigger] acc.push(b) == acc + seq![b] by { assert(acc.push(b) =~= acc + seq![b]); }
    assert(acc + Seq::<u8>::empty() =~= acc);
    reveal(add);
}

/// The lexer of the whole text, having just matched a quote (assumed contract of logos).
#[verifier::external_body]
pub struct OuterPos<'a> { s: &'a str }
pub struct Outer<'a> { pub extras: TokenExtras, pub at: OuterPos<'a> }
pub struct TokenExtras { pub error: Option<ParseErrorKind> }
pub enum ParseErrorKind { InvalidStringEscape { span: Range }, InvalidStringCharacters { span: Range }, UnexpectedEof { expected: String } }
impl<'a> OuterPos<'a> { pub uninterp spec fn matched(&self) -> Seq<char>; pub uninterp spec fn rest(&self) -> Seq<char>; }
impl<'a> Outer<'a> {
    #[verifier::external_body]
    pub fn slice(&self) -> (r: &'a str) ensures r@ == self.at.matched() { unimplemented!() }
    #[verifier::external_body]
    pub fn remainder(&self) -> (r: &'a str) ensures r@ == self.at.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn span(&self) -> (r: Range) ensures r.start <= r.end <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn bump(&mut self, n: usize)
        requires exists|k: int| 0 <= k <= old(self).at.rest().len() && encode_utf8(#[trigger] old(self).at.rest().take(k)).len() == n,
        ensures forall|k: int| 0 <= k <= old(self).at.rest().len() && encode_utf8(#[trigger] old(self).at.rest().take(k)).len() == n
            ==> final(self).at.rest() == old(self).at.rest().skip(k),
    { unimplemented!() }
}
/// `s.starts_with(c)` (assumed contract of core::str)
#[verifier::external_body]
fn starts_with_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
/// `c.encode_utf8(buf).as_bytes()` (assumed contract of core::char)
#[verifier::external_body]
fn char_bytes<'b>(c: char, buf: &'b mut [u8; 4]) -> (r: &'b [u8]) ensures r@ == encode_utf8(seq![c]) { unimplemented!() }
fn str_bytes(s: &str) -> (r: &[u8]) ensures r@ == encode_utf8(s@) { proof { broadcast use group_utf8_lib; } s.as_bytes() }
fn extend(v: &mut Vec<u8>, s: &[u8]) ensures final(v)@ == old(v)@ + s@ { v.extend_from_slice(s); proof { assert(v@ =~= old(v)@ + s@); } }
fn range(start: usize, end: usize) -> Range { Range { start, end } }

//@@ fn prost-reflect/src/dynamic/text_format/parse/lex.rs string
//@@ drop-items
//@@ subst Lexer < 'a , Token < 'a > > => Outer<'a>
//@@ subst? $e:e . starts_with ( $c ) ==>> starts_with_char($e, $c)
//@@ subst? $c:e . encode_utf8 ( $b ) . as_bytes ( ) ==>> char_bytes($c, $b)
//@@ subst? span : start .. end ==>> span: range(start, end)
//@@ subst? $s:id . as_bytes ( ) ==>> str_bytes($s)
//@@ subst? $v:id . extend_from_slice ( $s ) ==>> extend(&mut $v, $s)
//@@ bind result let mut $result:id = Vec
//@@ bind inner let mut $inner:id = Component
//@@ ret r
//@@ spec
    requires
        old($p0).at.matched().len() == 1, old($p0).at.matched()[0] == '\'' || old($p0).at.matched()[0] == '"',
    ensures
        r is Ok <==> read(old($p0).at.rest(), old($p0).at.matched()[0]) is Some,
        r is Ok ==> read(old($p0).at.rest(), old($p0).at.matched()[0]) == Some((r.unwrap()@, final($p0).at.rest())),
//@@ start
    let ghost s0 = $p0.at.rest();
    let ghost q = $p0.at.matched()[0];
    proof {
        broadcast use group_utf8_lib;
        let m = $p0.at.matched();
        assert(m =~= m.take(1));
        ascii_take(m, 1);
        is_ascii_chars_encode_utf8(m);
        assert(s0.skip(0) =~= s0);
        add_add(Seq::empty(), Seq::empty(), read(s0, q));
    }
//@@ loop 0
    invariant_except_break
        read(s0, q) == add($result@, read(s0.skip($inner.pos()), q)),
    invariant
        $p0.at.rest() == s0, s0 == old($p0).at.rest(), q == old($p0).at.matched()[0], $inner.src() == s0, 0 <= $inner.pos() <= s0.len(),
        q == '"' || q == '\'', terminator == q as u8,
    ensures
        read(s0, q) == Some(($result@, s0.skip($inner.pos()))),
    decreases s0.len() - $inner.pos(),
//@@ in-loop 0
        let ghost at = $inner.pos();
        let ghost rem = s0.skip(at);
        let ghost acc = $result@;
        proof { step(s0, at, acc, q); }
//@@ after-loop 0
    proof {
        let k = $inner.pos();
        assert(encode_utf8(s0.take(k)).len() == encode_utf8($p0.at.rest().take(k)).len());
    }
//@@ end

} // verus!
fn main() {}
