//@@ props P17 P18
//@@ include head.rs
//@@ include digits.rs
use vstd::string::*;
pub type Span = core::ops::Range<usize>;

// ---- specification

/// The lexer only makes integer literals of digits of their radix (see `int` below).
pub open spec fn int_ok(i: Int) -> bool {
    (i.radix == 8 || i.radix == 10 || i.radix == 16) && i.value@.len() > 0 && all_digits(i.value@, i.radix as int)
}
pub open spec fn tok_ok(t: Result<(Token, Span), ParseErrorKind>) -> bool {
    match t { Ok((Token::IntLiteral(i), _)) => int_ok(i), _ => true }
}
pub open spec fn all_ok(s: Seq<Result<(Token, Span), ParseErrorKind>>) -> bool { forall|i: int| 0 <= i < s.len() ==> tok_ok(#[trigger] s[i]) }
/// An integer literal with an optional minus at the start of the input: its value and number of tokens.
pub open spec fn int_at(s: Seq<Result<(Token, Span), ParseErrorKind>>) -> Option<(int, int)> {
    if s.len() >= 1 && is_int(s[0]) { Some((int_of(s[0]), 1)) }
    else if s.len() >= 2 && is_minus(s[0]) && is_int(s[1]) { Some((-int_of(s[1]), 2)) }
    else { None }
}
pub open spec fn is_minus(t: Result<(Token, Span), ParseErrorKind>) -> bool { match t { Ok((Token::Minus, _)) => true, _ => false } }
pub open spec fn is_int(t: Result<(Token, Span), ParseErrorKind>) -> bool { match t { Ok((Token::IntLiteral(_), _)) => true, _ => false } }
pub open spec fn int_of(t: Result<(Token, Span), ParseErrorKind>) -> int { match t { Ok((Token::IntLiteral(i), _)) => value(i.value@, i.radix as int), _ => 0 } }

// ---- the environment

//@@ item prost-reflect/src/dynamic/text_format/parse/lex.rs struct Int
//@@ item prost-reflect/src/dynamic/text_format/parse/lex.rs enum Token
#[derive(Debug)]
pub enum ParseErrorKind {
    InvalidToken { span: Span },
    UnexpectedToken { expected: String, found: String, span: Span },
    UnexpectedEof { expected: String },
    IntegerValueOutOfRange { expected: String, actual: String, min: String, max: String, span: Span },
}
/// Some text: the texts inside errors are not specified.
#[verifier::external_body]
fn any_string() -> String { unimplemented!() }

/// The rest of the tokens (assumed contract of logos).
#[verifier::external_body]
pub struct Tokens<'a> { s: &'a str }
pub struct Extras { pub error: Option<ParseErrorKind> }
impl<'a> Tokens<'a> { pub uninterp spec fn rest(&self) -> Seq<Result<(Token<'a>, Span), ParseErrorKind>>; }
pub struct Parser<'a> { pub lexer: Tokens<'a>, pub peek: Option<Result<(Token<'a>, Span), ParseErrorKind>> }
impl<'a> Parser<'a> {
    pub open spec fn stream(&self) -> Seq<Result<(Token<'a>, Span), ParseErrorKind>> {
        match self.peek { Some(t) => seq![t] + self.lexer.rest(), None => self.lexer.rest() }
    }
    pub open spec fn ok(&self) -> bool { all_ok(self.stream()) }
}
/// `next` of the parser: the lexer's next token or its error.
impl<'a> Parser<'a> {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Result<(Token<'a>, Span), ParseErrorKind>>)
        requires old(self).peek is None,
        ensures
            final(self).peek is None,
            old(self).lexer.rest().len() == 0 ==> r is None && final(self).lexer.rest() == old(self).lexer.rest(),
            old(self).lexer.rest().len() > 0 ==> r == Some(old(self).lexer.rest()[0]) && final(self).lexer.rest() == old(self).lexer.rest().skip(1),
    { unimplemented!() }
}
/// `self.peek.clone().transpose()` (assumed contracts of core and of the derived Clone)
#[verifier::external_body]
fn clone_transpose<'a>(p: &Option<Result<(Token<'a>, Span), ParseErrorKind>>) -> (r: Result<Option<(Token<'a>, Span)>, ParseErrorKind>)
    ensures match *p { None => r == Ok::<Option<(Token<'a>, Span)>, ParseErrorKind>(None), Some(Ok(t)) => r == Ok::<Option<(Token<'a>, Span)>, ParseErrorKind>(Some(t)), Some(Err(e)) => r is Err },
{ unimplemented!() }
/// `i32::from_str_radix` (assumed contract of core::num)
#[verifier::external_body]
fn i32_from_str_radix(s: &str, radix: u32) -> (r: Result<i32, ParseIntError>)
    requires 2 <= radix <= 16,
    ensures
        s@.len() > 0 && all_digits(s@, radix as int) ==> (r is Ok <==> value(s@, radix as int) <= i32::MAX),
        s@.len() > 0 && all_digits(s@, radix as int) && r is Ok ==> r.unwrap() as int == value(s@, radix as int),
{ unimplemented!() }
/// `i64::from_str_radix` (assumed contract of core::num)
#[verifier::external_body]
fn i64_from_str_radix(s: &str, radix: u32) -> (r: Result<i64, ParseIntError>)
    requires 2 <= radix <= 16,
    ensures
        s@.len() > 0 && all_digits(s@, radix as int) ==> (r is Ok <==> value(s@, radix as int) <= i64::MAX),
        s@.len() > 0 && all_digits(s@, radix as int) && r is Ok ==> r.unwrap() as int == value(s@, radix as int),
{ unimplemented!() }
/// `u32::from_str_radix` (assumed contract of core::num)
#[verifier::external_body]
fn u32_from_str_radix(s: &str, radix: u32) -> (r: Result<u32, ParseIntError>)
    requires 2 <= radix <= 16,
    ensures
        s@.len() > 0 && all_digits(s@, radix as int) ==> (r is Ok <==> value(s@, radix as int) <= u32::MAX),
        s@.len() > 0 && all_digits(s@, radix as int) && r is Ok ==> r.unwrap() as int == value(s@, radix as int),
{ unimplemented!() }
/// `u64::from_str_radix` (assumed contract of core::num)
#[verifier::external_body]
fn u64_from_str_radix(s: &str, radix: u32) -> (r: Result<u64, ParseIntError>)
    requires 2 <= radix <= 16,
    ensures
        s@.len() > 0 && all_digits(s@, radix as int) ==> (r is Ok <==> value(s@, radix as int) <= u64::MAX),
        s@.len() > 0 && all_digits(s@, radix as int) && r is Ok ==> r.unwrap() as int == value(s@, radix as int),
{ unimplemented!() }
#[verifier::external_body]
#[derive(Debug)]
pub struct ParseIntError;

/// `i32::try_from(u32)` (assumed contract of core)
#[verifier::external_body]
fn i32_try_from(v: u32) -> (r: Result<i32, ParseIntError>)
    ensures r is Ok <==> v <= i32::MAX, r is Ok ==> r.unwrap() as int == v as int,
{ unimplemented!() }

/// `i64::try_from(u64)` (assumed contract of core)
#[verifier::external_body]
fn i64_try_from(v: u64) -> (r: Result<i64, ParseIntError>)
    ensures r is Ok <==> v <= i64::MAX, r is Ok ==> r.unwrap() as int == v as int,
{ unimplemented!() }

// ---- the code

//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs join_span
//@@ ret r
//@@ end

impl<'a> Parser<'a> {

//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::peek
//@@ subst? self . peek . clone ( ) . transpose ( ) ==>> clone_transpose(&self.peek)
//@@ ret r
//@@ spec
    ensures
        final(self).stream() == old(self).stream(),
        old(self).ok() ==> final(self).ok(),
        r is Ok && r.unwrap() is None ==> final(self).stream().len() == 0,
        r is Ok && r.unwrap() is Some ==> final(self).stream().len() > 0 && final(self).peek == Some(Ok::<(Token<'a>, Span), ParseErrorKind>(r.unwrap().unwrap())),
        r is Err ==> final(self).stream().len() > 0 && final(self).stream()[0] is Err,
        final(self).peek is Some ==> final(self).stream()[0] == final(self).peek.unwrap(),
        final(self).peek is Some ==> final(self).stream().skip(1) == final(self).lexer.rest(),
//@@ start
    proof {
        assert forall|t: Result<(Token<'a>, Span), ParseErrorKind>, s: Seq<Result<(Token<'a>, Span), ParseErrorKind>>| #[trigger] (seq![t] + s).skip(1) =~= s by {}
        if self.peek is None && self.lexer.rest().len() > 0 { assert(seq![self.lexer.rest()[0]] + self.lexer.rest().skip(1) =~= self.lexer.rest()); }
    }
//@@ end

//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::bump
//@@ ret r
//@@ spec
    requires
        old(self).peek is Some && old(self).peek.unwrap() is Ok,
    ensures
        final(self).peek is None,
        final(self).stream() == old(self).stream().skip(1),
        old(self).ok() ==> final(self).ok(),
        r == old(self).peek.unwrap().unwrap().1,
//@@ start
    proof {
        assert((seq![self.peek.unwrap()] + self.lexer.rest()).skip(1) =~= self.lexer.rest());
    }
//@@ end

//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::unexpected_token
//@@ subst impl ToString => &str
//@@ subst? $e:e . to_string ( ) ==>> any_string()
//@@ ret r
//@@ spec
    ensures
        r is Err,
//@@ end

//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_int
//@@ ret r
//@@ spec
    requires
        old(self).ok(),
    ensures
        final(self).ok() || r is Err,
        r is Ok <==> int_at(old(self).stream()) is Some,
        r is Ok ==> int_ok(r.unwrap().1) && ({
            let (v, n) = int_at(old(self).stream()).unwrap();
            v == (if r.unwrap().0 { -value(r.unwrap().1.value@, r.unwrap().1.radix as int) } else { value(r.unwrap().1.value@, r.unwrap().1.radix as int) })
            && (r.unwrap().0 <==> is_minus(old(self).stream()[0]))
            && final(self).stream() == old(self).stream().skip(n)
        }),
//@@ start
    let ghost s0 = self.stream();
    proof {
        assert(s0.len() >= 1 ==> s0.skip(1).skip(1) =~= s0.skip(2) || s0.len() < 2);
        assert(forall|i: int| 0 <= i < s0.len() ==> tok_ok(#[trigger] s0[i]));
    }
//@@ end

//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_i32
//@@ subst? i32 :: try_from => i32_try_from
//@@ subst? int ==>> int_
//@@ subst? $e:e . to_string ( ) ==>> any_string()
//@@ subst? $e:e . to_owned ( ) ==>> any_string()
//@@ subst? format ! $e:tt ==>> any_string()
//@@ subst? i32 :: from_str_radix => i32_from_str_radix
//@@ subst? i64 :: from_str_radix => i64_from_str_radix
//@@ subst? u32 :: from_str_radix => u32_from_str_radix
//@@ subst? u64 :: from_str_radix => u64_from_str_radix
//@@ subst . and_then ( | $v:id | $b:tt ) ==>> .and_then(|$v: u32| -> (o: Option<i32>) ensures o is Some <==> $v as int <= -(i32::MIN as int), o is Some ==> o.unwrap() as int == -($v as int) $b)
//@@ subst? . map ( | $v:id | - $w:id ) ==>> .map(|$v: i32| -> (o: i32) requires $v > i32::MIN ensures o == -$v { -$w })
//@@ ret r
//@@ spec
    requires
        old(self).ok(),
    ensures
        r is Ok <==> int_at(old(self).stream()) is Some && i32::MIN as int <= int_at(old(self).stream()).unwrap().0 <= i32::MAX as int,
        r is Ok ==> r.unwrap().0 as int == int_at(old(self).stream()).unwrap().0 && final(self).stream() == old(self).stream().skip(int_at(old(self).stream()).unwrap().1),
//@@ start
    proof { value_nonneg_all(); }
//@@ end

//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_i64
//@@ subst? i64 :: try_from => i64_try_from
//@@ subst? int ==>> int_
//@@ subst? $e:e . to_string ( ) ==>> any_string()
//@@ subst? $e:e . to_owned ( ) ==>> any_string()
//@@ subst? format ! $e:tt ==>> any_string()
//@@ subst? i32 :: from_str_radix => i32_from_str_radix
//@@ subst? i64 :: from_str_radix => i64_from_str_radix
//@@ subst? u32 :: from_str_radix => u32_from_str_radix
//@@ subst? u64 :: from_str_radix => u64_from_str_radix
//@@ subst . and_then ( | $v:id | $b:tt ) ==>> .and_then(|$v: u64| -> (o: Option<i64>) ensures o is Some <==> $v as int <= -(i64::MIN as int), o is Some ==> o.unwrap() as int == -($v as int) $b)
//@@ subst? . map ( | $v:id | - $w:id ) ==>> .map(|$v: i64| -> (o: i64) requires $v > i64::MIN ensures o == -$v { -$w })
//@@ ret r
//@@ spec
    requires
        old(self).ok(),
    ensures
        r is Ok <==> int_at(old(self).stream()) is Some && i64::MIN as int <= int_at(old(self).stream()).unwrap().0 <= i64::MAX as int,
        r is Ok ==> r.unwrap().0 as int == int_at(old(self).stream()).unwrap().0 && final(self).stream() == old(self).stream().skip(int_at(old(self).stream()).unwrap().1),
//@@ start
    proof { value_nonneg_all(); }
//@@ end

//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_u32
//@@ subst? int ==>> int_
//@@ subst? $e:e . to_string ( ) ==>> any_string()
//@@ subst? $e:e . to_owned ( ) ==>> any_string()
//@@ subst? format ! $e:tt ==>> any_string()
//@@ subst? i32 :: from_str_radix => i32_from_str_radix
//@@ subst? i64 :: from_str_radix => i64_from_str_radix
//@@ subst? u32 :: from_str_radix => u32_from_str_radix
//@@ subst? u64 :: from_str_radix => u64_from_str_radix
//@@ ret r
//@@ spec
    requires
        old(self).ok(),
    ensures
        r is Ok <==> int_at(old(self).stream()) is Some && u32::MIN as int <= int_at(old(self).stream()).unwrap().0 <= u32::MAX as int && !is_minus(old(self).stream()[0]),
        r is Ok ==> r.unwrap().0 as int == int_at(old(self).stream()).unwrap().0 && final(self).stream() == old(self).stream().skip(int_at(old(self).stream()).unwrap().1),
//@@ start
    proof { value_nonneg_all(); }
//@@ end

//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_u64
//@@ subst? int ==>> int_
//@@ subst? $e:e . to_string ( ) ==>> any_string()
//@@ subst? $e:e . to_owned ( ) ==>> any_string()
//@@ subst? format ! $e:tt ==>> any_string()
//@@ subst? i32 :: from_str_radix => i32_from_str_radix
//@@ subst? i64 :: from_str_radix => i64_from_str_radix
//@@ subst? u32 :: from_str_radix => u32_from_str_radix
//@@ subst? u64 :: from_str_radix => u64_from_str_radix
//@@ ret r
//@@ spec
    requires
        old(self).ok(),
    ensures
        r is Ok <==> int_at(old(self).stream()) is Some && u64::MIN as int <= int_at(old(self).stream()).unwrap().0 <= u64::MAX as int && !is_minus(old(self).stream()[0]),
        r is Ok ==> r.unwrap().0 as int == int_at(old(self).stream()).unwrap().0 && final(self).stream() == old(self).stream().skip(int_at(old(self).stream()).unwrap().1),
//@@ start
    proof { value_nonneg_all(); }
//@@ end

}
proof fn value_nonneg(s: Seq<char>, radix: int)
    requires all_digits(s, radix), radix >= 2,
    ensures value(s, radix) >= 0,
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies digit(#[trigger] p[i], radix) is Some by { assert(p[i] == s[i]); }
        value_nonneg(p, radix);
        assert(digit(s[s.len() - 1], radix) is Some);
        assert(value(p, radix) * radix >= 0) by (nonlinear_arith) requires value(p, radix) >= 0, radix >= 2;
    }
}
proof fn value_nonneg_all()
    ensures forall|s: Seq<char>, radix: int| radix >= 2 && all_digits(s, radix) ==> #[trigger] value(s, radix) >= 0,
{
    assert forall|s: Seq<char>, radix: int| radix >= 2 && all_digits(s, radix) implies #[trigger] value(s, radix) >= 0 by { value_nonneg(s, radix); }
}

// ---- how integer literals are made

//@@ require prost-reflect/src/dynamic/text_format/parse/lex.rs # [ regex ( "0" , | lex | int ( lex , 10 , 0 ) ) ] # [ regex ( "[1-9][0-9]*" , | lex | int ( lex , 10 , 0 ) ) ] # [ regex ( "0[0-7]+" , | lex | int ( lex , 8 , 1 ) ) ] # [ regex ( "0[xX][0-9A-Fa-f]+" , | lex | int ( lex , 16 , 2 ) ) ] IntLiteral ( Int < 'a > )

/// The lexer inside a callback (assumed contract of logos).
#[verifier::external_body]
pub struct LexPos<'a> { s: &'a str }
pub struct Lx<'a> { pub extras: LxExtras, pub at: LexPos<'a> }
pub struct LxExtras { pub error: Option<LxError> }
pub enum LxError { NoSpaceBetweenIntAndIdent { span: Span } }
impl<'a> LexPos<'a> {
    pub uninterp spec fn source(&self) -> Seq<u8>;
    pub uninterp spec fn span(&self) -> Span;
    pub uninterp spec fn matched(&self) -> Seq<char>;
    /// Whether a letter or underscore follows.
    pub uninterp spec fn ident_follows(&self) -> bool;
}
impl<'a> Lx<'a> {
    pub open spec fn wf(&self) -> bool {
        let p = self.at.span();
        p.start < p.end && p.end <= self.at.source().len() && self.at.source().len() <= isize::MAX
        && self.at.matched().len() == p.end - p.start && (forall|i: int| 0 <= i < self.at.matched().len() ==> (#[trigger] self.at.matched()[i] as u32) < 128)
        && (self.at.ident_follows() ==> p.end < self.at.source().len())
    }
    #[verifier::external_body]
    pub fn slice(&self) -> (r: &'a str) ensures r@ == self.at.matched(), self.wf() ==> r.spec_bytes().len() == r@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) ensures r == self.at.span() { unimplemented!() }
    #[verifier::external_body]
    pub fn source_len(&self) -> (r: usize) ensures r == self.at.source().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn source_byte(&self, i: usize) -> (r: u8) requires i < self.at.source().len() ensures r == self.at.source()[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn source_slice(&self, p: Span) -> (r: &'a str)
        requires self.wf(), self.at.span().start <= p.start <= p.end == self.at.span().end,
        ensures r@ == self.at.matched().skip(p.start - self.at.span().start),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ident_follows(&self) -> (r: bool) ensures r == self.at.ident_follows() { unimplemented!() }
}
#[verifier::external_body]
fn starts_with_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
pub assume_specification [ u8::is_ascii_alphabetic ] (b: &u8) -> (r: bool)
    returns 0x41 <= *b <= 0x5a || 0x61 <= *b <= 0x7a;
/// `s.len()` (assumed contract of core::str)
#[verifier::external_body]
fn byte_len(s: &str) -> (r: usize) ensures r == s.spec_bytes().len() { s.len() }
/// What the patterns that call `int` match.
pub open spec fn int_pattern(m: Seq<char>, radix: int, prefix: int) -> bool {
    (radix == 10 && prefix == 0 || radix == 8 && prefix == 1 || radix == 16 && prefix == 2)
    && m.len() > prefix && (forall|i: int| prefix <= i < m.len() ==> digit(#[trigger] m[i], radix) is Some)
}

//@@ fn prost-reflect/src/dynamic/text_format/parse/lex.rs int
//@@ subst Lexer < 'a , Token < 'a > > => Lx<'a>
//@@ subst? debug_assert ! ( $m ) ; =>
//@@ subst? matches ! ( lex . remainder ( ) . chars ( ) . next ( ) , Some ( ch ) if ch . is_ascii_alphabetic ( ) || ch == '_' ) ==>> lex.ident_follows()
//@@ subst? lex . source ( ) . as_bytes ( ) [ $i ] ==>> lex.source_byte($i)
//@@ subst? & lex . source ( ) [ $i ] ==>> lex.source_slice($i)
//@@ subst? lex . source ( ) . len ( ) ==>> lex.source_len()
//@@ subst? $e:e . starts_with ( $c ) ==>> starts_with_char($e, $c)
//@@ subst? lex . slice ( ) . len ( ) ==>> byte_len(lex.slice())
//@@ subst? ParseErrorKind => LxError
//@@ bind? end let mut $end:id = span . end + 1
//@@ ret r
//@@ spec
    requires
        old($p0).wf(), int_pattern(old($p0).at.matched(), $p1 as int, $p2 as int),
    ensures
        r is Ok ==> int_ok(r.unwrap()) && r.unwrap().radix == $p1 && r.unwrap().value@ == old($p0).at.matched().skip($p2 as int),
        // a decimal literal has no leading zeros
        r is Ok && $p1 == 10 && r.unwrap().value@.len() > 1 ==> r.unwrap().value@[0] != '0',
//@@ loop 0
    invariant
        old($p0).at == $p0.at, $p0.wf(), $end <= $p0.at.source().len(),
    decreases $p0.at.source().len() - $end
//@@ start
    proof {
        let m = $p0.at.matched();
        assert forall|i: int| 0 <= i < m.skip($p2 as int).len() implies digit(#[trigger] m.skip($p2 as int)[i], $p1 as int) is Some by { assert(m.skip($p2 as int)[i] == m[i + $p2 as int]); }
    }
//@@ end

} // verus!
fn main() {}
