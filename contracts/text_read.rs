//@@ props P18
//@@ include head.rs
//@@ include text_model.rs
//@@ include type_url.rs
pub type Span = core::ops::Range<usize>;

// ---- the tokens (the parser's peek, bump and integers are shown in unit text_int, its literals in unit text_string)
//@@ item prost-reflect/src/dynamic/text_format/parse/lex.rs struct Int
//@@ item prost-reflect/src/dynamic/text_format/parse/lex.rs enum Token
//@@ item prost-reflect/src/dynamic/text_format/parse/error.rs enum ParseErrorKind
//@@ item prost-reflect/src/dynamic/text_format/parse/mod.rs enum FieldName
/// Some text: the texts inside errors are not specified.
#[verifier::external_body]
fn any_string() -> String { unimplemented!() }
pub uninterp spec fn int_value(i: Int<'_>) -> int;
/// The text at a place of the input
pub uninterp spec fn source_at(s: Span) -> Seq<char>;
pub open spec fn tok<'a>(t: Token<'a>, s: Span) -> Tok {
    match t {
        Token::Ident(i) => Tok::Ident(i@), Token::IntLiteral(i) => Tok::Int(int_value(i)), Token::FloatLiteral(_) => Tok::Float(source_at(s)), Token::StringLiteral(b) => Tok::Str(b@),
        Token::Dot => Tok::Dot, Token::Minus => Tok::Minus, Token::LeftBrace => Tok::LeftBrace, Token::RightBrace => Tok::RightBrace,
        Token::LeftBracket => Tok::LeftBracket, Token::RightBracket => Tok::RightBracket, Token::LeftAngleBracket => Tok::LeftAngle, Token::RightAngleBracket => Tok::RightAngle,
        Token::Comma => Tok::Comma, Token::Colon => Tok::Colon, Token::Semicolon => Tok::Semicolon, Token::ForwardSlash => Tok::Slash,
    }
}
/// The parser: the tokens it has still to read; what is not a token is an Other.
#[verifier::external_body]
pub struct Parser<'a> { x: &'a str }
impl<'a> Parser<'a> {
    pub uninterp spec fn toks(&self) -> Seq<Tok>;
    pub uninterp spec fn peeked(&self) -> bool;
    #[verifier::external_body]
    fn peek(&mut self) -> (r: Result<Option<(Token<'a>, Span)>, ParseErrorKind>)
        ensures
            final(self).toks() == old(self).toks(),
            match r {
                Ok(Some((t, s))) => old(self).toks().len() > 0 && old(self).toks()[0] == tok(t, s) && final(self).peeked(),
                Ok(None) => old(self).toks().len() == 0,
                Err(_) => old(self).toks().len() > 0 && old(self).toks()[0] is Other,
            },
    { unimplemented!() }
    #[verifier::external_body]
    fn bump(&mut self) -> (r: Span)
        requires old(self).peeked(),
        ensures final(self).toks() == old(self).toks().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    fn unexpected_token<T, S>(&mut self, expected: S) -> (r: Result<T, ParseErrorKind>) ensures r is Err { unimplemented!() }
    #[verifier::external_body]
    fn parse_i32(&mut self) -> (r: Result<(i32, Span), ParseErrorKind>)
        ensures r is Ok <==> int_at(old(self).toks()) is Some && i32::MIN <= int_at(old(self).toks())->Some_0.0 <= i32::MAX,
            r is Ok ==> r->Ok_0.0 == int_at(old(self).toks())->Some_0.0 && final(self).toks() == old(self).toks().skip(int_at(old(self).toks())->Some_0.1),
    { unimplemented!() }
    #[verifier::external_body]
    fn parse_i64(&mut self) -> (r: Result<(i64, Span), ParseErrorKind>)
        ensures r is Ok <==> int_at(old(self).toks()) is Some && i64::MIN <= int_at(old(self).toks())->Some_0.0 <= i64::MAX,
            r is Ok ==> r->Ok_0.0 == int_at(old(self).toks())->Some_0.0 && final(self).toks() == old(self).toks().skip(int_at(old(self).toks())->Some_0.1),
    { unimplemented!() }
    #[verifier::external_body]
    fn parse_u32(&mut self) -> (r: Result<(u32, Span), ParseErrorKind>)
        ensures r is Ok <==> int_at(old(self).toks()) is Some && !(old(self).toks()[0] is Minus) && int_at(old(self).toks())->Some_0.0 <= u32::MAX,
            r is Ok ==> r->Ok_0.0 == int_at(old(self).toks())->Some_0.0 && final(self).toks() == old(self).toks().skip(int_at(old(self).toks())->Some_0.1),
    { unimplemented!() }
    #[verifier::external_body]
    fn parse_u64(&mut self) -> (r: Result<(u64, Span), ParseErrorKind>)
        ensures r is Ok <==> int_at(old(self).toks()) is Some && !(old(self).toks()[0] is Minus) && int_at(old(self).toks())->Some_0.0 <= u64::MAX,
            r is Ok ==> r->Ok_0.0 == int_at(old(self).toks())->Some_0.0 && final(self).toks() == old(self).toks().skip(int_at(old(self).toks())->Some_0.1),
    { unimplemented!() }
}
/// An integer literal with an optional minus: its value and number of tokens.
pub open spec fn int_at(s: Seq<Tok>) -> Option<(int, int)> {
    if s.len() >= 1 && s[0] is Int { Some((s[0]->Int_0, 1)) } else if s.len() >= 2 && s[0] is Minus && s[1] is Int { Some((-s[1]->Int_0, 2)) } else { None }
}
#[verifier::external_body]
fn join_span(a: Span, b: Span) -> Span { unimplemented!() }
#[verifier::external_body]
fn text_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub open spec fn lower(c: char) -> char { if 'A' <= c <= 'Z' { (c as u32 + 32) as char } else { c } }
pub open spec fn lowered(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower(c)) }
#[verifier::external_body]
fn same_letters(a: &str, b: &str) -> (r: bool) ensures r == (lowered(a@) == lowered(b@)) { unimplemented!() }
#[verifier::external_body]
fn to_ascii_lowercase(s: &str) -> (r: String) ensures r@ == lowered(s@) { unimplemented!() }
/// The derived comparison of tokens; of tokens which carry no value it is exact.
#[verifier::external_body]
fn token_eq<'a>(a: &Token<'a>, b: &Token<'a>) -> (r: bool)
    ensures forall|s: Span, t: Span| is_mark(#[trigger] tok(*b, t)) ==> r == (#[trigger] tok(*a, s) == tok(*b, t))
{ unimplemented!() }
pub open spec fn is_mark(t: Tok) -> bool { !(t is Ident || t is Int || t is Float || t is Str || t is Other) }
#[verifier::external_body]
fn has_token<'a>(ts: &[Token<'a>], t: &Token<'a>) -> (r: bool)
    requires marks(ts@),
    ensures forall|s: Span| #![trigger tok(*t, s)] r == among(ts@, tok(*t, s))
{ unimplemented!() }
pub open spec fn no_place() -> Span { arbitrary() }
pub open spec fn marks<'a>(ts: Seq<Token<'a>>) -> bool { forall|i: int| 0 <= i < ts.len() ==> is_mark(tok(#[trigger] ts[i], no_place())) }
pub open spec fn among<'a>(ts: Seq<Token<'a>>, t: Tok) -> bool { exists|i: int| 0 <= i < ts.len() && tok(#[trigger] ts[i], no_place()) == t }

// ---- names
/// Identifiers with dots between them at the start of the tokens: their text and number of tokens.
pub open spec fn full(ts: Seq<Tok>) -> Option<(Seq<char>, int)>
    decreases ts.len(), 1int
{
    if ts.len() > 0 && ts[0] is Ident {
        match dots(ts.skip(1)) { Some((s, n)) => Some((ts[0]->Ident_0 + s, n + 1)), None => None }
    } else { None }
}
pub open spec fn dots(ts: Seq<Tok>) -> Option<(Seq<char>, int)>
    decreases ts.len(), 0int
{
    if ts.len() > 0 && ts[0] is Dot {
        match full(ts.skip(1)) { Some((s, n)) => Some((seq!['.'] + s, n + 1)), None => None }
    } else { Some((Seq::empty(), 0)) }
}
proof fn full_counts(ts: Seq<Tok>)
    ensures full(ts) is Some ==> 0 < full(ts)->Some_0.1 <= ts.len(), dots(ts) is Some ==> 0 <= dots(ts)->Some_0.1 <= ts.len(),
    decreases ts.len(),
{
    if ts.len() > 0 { full_counts(ts.skip(1)); }
}
/// A text that is built up (Cow<str>)
#[verifier::external_body]
pub struct Name<'a> { x: &'a str }
impl<'a> View for Name<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> Name<'a> {
    #[verifier::external_body]
    fn of(s: &'a str) -> (r: Name<'a>) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body]
    fn push_str(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    fn into_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub open spec fn field_name_at(ts: Seq<Tok>) -> Option<(FieldNameIs, int)> {
    if ts.len() > 0 && ts[0] is Ident { Some((FieldNameIs::Ident(ts[0]->Ident_0), 1)) }
    else if ts.len() > 0 && ts[0] is LeftBracket {
        match full(ts.skip(1)) {
            None => None,
            Some((s, n)) => if ts.len() <= n + 1 { None } else if ts[n + 1] is RightBracket { Some((FieldNameIs::Extension(s), n + 2)) }
                else if ts[n + 1] is Slash {
                    match full(ts.skip(n + 2)) {
                        None => None,
                        Some((t, m)) => if ts.len() > n + m + 2 && ts[n + m + 2] is RightBracket { Some((FieldNameIs::Any(s, t), n + m + 3)) } else { None },
                    }
                } else { None },
        }
    } else { None }
}
pub enum FieldNameIs { Ident(Seq<char>), Extension(Seq<char>), Any(Seq<char>, Seq<char>) }
pub open spec fn name_is(n: FieldName) -> FieldNameIs {
    match n { FieldName::Ident(s) => FieldNameIs::Ident(s@), FieldName::Extension(s) => FieldNameIs::Extension(s@), FieldName::Any(d, s) => FieldNameIs::Any(d@, s@) }
}

impl<'a> Parser<'a> {
//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::expect
//@@ subst? tok == expected ==>> token_eq(&tok, &expected)
//@@ ret r
//@@ spec
    requires is_mark(tok(expected, no_place())),
    ensures r is Ok <==> old(self).toks().len() > 0 && old(self).toks()[0] == tok(expected, no_place()), r is Ok ==> final(self).toks() == old(self).toks().skip(1),
//@@ end
#[verifier::exec_allows_no_decreases_clause]
//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_full_ident
//@@ subst? Cow < 'a , str > ==>> Name<'a>
//@@ subst? Cow :: Borrowed ( ==>> Name::of(
//@@ subst? let result = result . to_mut ( ) ; ==>> 
//@@ subst? terminators . contains ( & tok ) ==>> has_token(terminators, &tok)
//@@ subst? fmt_expected ( $x ) ==>> any_string()
//@@ ret r
//@@ spec
    requires marks($p1@), !among($p1@, Tok::Dot),
    ensures
        match full(old(self).toks()) {
            Some((s, n)) => if old(self).toks().len() > n && among($p1@, old(self).toks()[n]) { r is Ok && r->Ok_0@ == s && final(self).toks() == old(self).toks().skip(n) } else { r is Err },
            None => r is Err,
        },
//@@ start
    let ghost t0 = self.toks();
    let ghost mut used: int = 1;
    proof { full_counts(t0); }
//@@ before? loop
    proof { }
//@@ loop 0
        invariant
            t0 == old(self).toks(), marks($p1@), !among($p1@, Tok::Dot), 0 < used <= t0.len(), self.toks() == t0.skip(used),
            full(t0) == (match dots(self.toks()) { Some((s, n)) => Some((result@ + s, used + n)), None => None }),
//@@ in-loop 0
        let ghost t1 = self.toks();
        let ghost r1 = result@;
        proof {
            full_counts(t1);
            if t1.len() > 0 { full_counts(t1.skip(1)); assert(t1[0] == t0[used]); }
            if t1.len() > 1 { full_counts(t1.skip(2)); assert(t1.skip(1).skip(1) =~= t1.skip(2)); assert(t0.skip(used).skip(2) =~= t0.skip(used + 2)); }
            assert(t1 =~= t0.skip(used));
            if t1.len() > 1 && t1[1] is Ident { assert(t1.skip(1)[0] == t1[1]);
                assert forall|s: Seq<char>| r1 + (seq!['.'] + (t1[1]->Ident_0 + s)) == #[trigger] (r1.push('.') + t1[1]->Ident_0 + s) by { assert(r1 + (seq!['.'] + (t1[1]->Ident_0 + s)) =~= r1.push('.') + t1[1]->Ident_0 + s); }
                used = used + 2;
            }
            assert(r1 + Seq::empty() =~= r1);
        }
//@@ end
//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_field_name
//@@ subst? ident . to_owned ( ) ==>> owned(ident)
//@@ ret r
//@@ spec
    ensures
        match field_name_at(old(self).toks()) { Some((n, k)) => r is Ok && name_is(r->Ok_0.0) == n && final(self).toks() == old(self).toks().skip(k), None => r is Err },
//@@ start
    let ghost t0 = self.toks();
    proof {
        if t0.len() > 0 && full(t0.skip(1)) is Some {
            let n = full(t0.skip(1))->Some_0.1;
            full_counts(t0.skip(1));
            assert(t0.skip(1).skip(n) =~= t0.skip(n + 1));
            if t0.len() > n + 1 {
                assert(t0.skip(1)[n] == t0[n + 1]);
                assert(t0.skip(n + 1)[0] == t0[n + 1]);
                assert(t0.skip(n + 1).skip(1) =~= t0.skip(n + 2));
                full_counts(t0.skip(n + 2));
                if full(t0.skip(n + 2)) is Some {
                    let m = full(t0.skip(n + 2))->Some_0.1;
                    assert(t0.skip(n + 2).skip(m) =~= t0.skip(n + m + 2));
                    if t0.len() > n + m + 2 { assert(t0.skip(n + 2)[m] == t0[n + m + 2]); assert(t0.skip(n + m + 2)[0] == t0[n + m + 2]); assert(t0.skip(n + m + 2).skip(1) =~= t0.skip(n + m + 3)); }
                }
            }
        }
    }
//@@ end
//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_bool
//@@ subst? Some ( ( Token :: Ident ( $a ) , _ ) ) | Some ( ( Token :: Ident ( $b ) , _ ) ) | Some ( ( Token :: Ident ( $c ) , _ ) ) => ==>> Some((Token::Ident(w__), _)) if text_is(w__, $a) || text_is(w__, $b) || text_is(w__, $c) =>
//@@ subst? u8 :: from_str_radix ( v . value , v . radix ) ==>> small(v)
//@@ ret r
//@@ spec
    ensures
        forall|b: bool| #[trigger] starts(old(self).toks(), bool_toks(b)) ==> r is Ok && r->Ok_0.0 == b && final(self).toks() == old(self).toks().skip(1),
//@@ start
    proof { words(); }
//@@ end
}
#[verifier::external_body]
fn owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn small(i: Int<'_>) -> (r: Result<u8, ()>) { unimplemented!() }
/// These tokens are next.
pub open spec fn starts(ts: Seq<Tok>, p: Seq<Tok>) -> bool { p.len() <= ts.len() && ts.take(p.len() as int) == p }
proof fn words()
    ensures
        "true"@ != "false"@, "true"@ != "False"@, "true"@ != "f"@, "false"@ != "true"@, "false"@ != "True"@, "false"@ != "t"@,
        forall|b: bool, ts: Seq<Tok>| #[trigger] starts(ts, bool_toks(b)) ==> ts.len() > 0 && ts[0] == bool_toks(b)[0],
{
    reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("True"); reveal_strlit("False"); reveal_strlit("t"); reveal_strlit("f");
    assert("true"@.len() == 4); assert("false"@.len() == 5); assert("True"@.len() == 4); assert("True"@[0] == 'T');
    assert("true"@[0] == 't'); assert("False"@[0] == 'F'); assert("false"@[0] == 'f'); assert("t"@.len() == 1); assert("f"@.len() == 1); assert("False"@.len() == 5);
    assert forall|b: bool, ts: Seq<Tok>| #[trigger] starts(ts, bool_toks(b)) implies ts.len() > 0 && ts[0] == bool_toks(b)[0] by { assert(ts.take(1)[0] == ts[0]); }
}

// ---- numbers, strings, enums
/// What core does with a floating point type.
pub trait RealX: Real {
    fn negate(self) -> (r: Self) ensures r == self.negated();
    fn infinity() -> (r: Self) ensures r == Self::inf();
    fn not_a_number() -> (r: Self) ensures r.nan();
    fn from_text(s: &str) -> (r: Result<Self, ()>) ensures match Self::read(s@) { Some(v) => r == Ok::<Self, ()>(v), None => r is Err };
}
impl RealX for f32 {
    #[verifier::external_body] fn negate(self) -> f32 { unimplemented!() }
    #[verifier::external_body] fn infinity() -> f32 { unimplemented!() }
    #[verifier::external_body] fn not_a_number() -> f32 { unimplemented!() }
    #[verifier::external_body] fn from_text(s: &str) -> Result<f32, ()> { unimplemented!() }
}
impl RealX for f64 {
    #[verifier::external_body] fn negate(self) -> f64 { unimplemented!() }
    #[verifier::external_body] fn infinity() -> f64 { unimplemented!() }
    #[verifier::external_body] fn not_a_number() -> f64 { unimplemented!() }
    #[verifier::external_body] fn from_text(s: &str) -> Result<f64, ()> { unimplemented!() }
}
/// `self.lexer.source()[span].trim_end_matches(['f', 'F'])`
#[verifier::external_body]
fn unsuffixed_source(s: Span) -> (r: &'static str) ensures r@ == unsuffixed(source_at(s)) { unimplemented!() }
pub open spec fn same_real<T: Real>(a: T, b: T) -> bool { b == a || a.nan() && b.nan() }
/// What follows is neither a string, which would be joined to one before it, nor something that is not a token.
pub open spec fn clean(ts: Seq<Tok>, n: int) -> bool { ts.len() > n ==> !(ts[n] is Str || ts[n] is Other) }
proof fn special()
    ensures
        lowered("NaN"@) != lowered("inf"@), lowered("NaN"@) != lowered("infinity"@), lowered("NaN"@) == lowered("nan"@),
{
    reveal_strlit("NaN"); reveal_strlit("nan"); reveal_strlit("inf"); reveal_strlit("infinity");
    assert(lowered("NaN"@)[0] == 'n'); assert(lowered("inf"@)[0] == 'i'); assert(lowered("infinity"@)[0] == 'i');
    assert(lowered("NaN"@) =~= lowered("nan"@));
}
#[verifier::external_body]
fn text_of(b: Vec<u8>) -> (r: Result<String, ()>) ensures forall|s: Seq<char>| b@ == #[trigger] encode_utf8(s) ==> r is Ok && r->Ok_0@ == s { unimplemented!() }
#[verifier::external_body]
fn to_bytes(b: Vec<u8>) -> (r: Bytes) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body]
fn any_error() -> ParseErrorKind { unimplemented!() }
#[verifier::external_body]
fn append(a: &mut Vec<u8>, b: &Vec<u8>) { unimplemented!() }
pub open spec fn found(d: MessageDescriptor, n: Seq<char>) -> Option<FieldDescriptor> {
    if d.s_by_name(n) is Some && !d.s_by_name(n)->Some_0.s_group() { d.s_by_name(n) }
    else {
        match d.s_by_name(lowered(n)) { Some(f) => if f.s_group() && n == f.s_kind()->Message_0.s_name() { Some(f) } else { None }, None => None }
    }
}
//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs find_field
//@@ subst? & name . to_ascii_lowercase ( ) ==>> to_ascii_lowercase(name).as_str()
//@@ subst? name == $e { return ==>> text_is(name, $e) { return
//@@ ret r
//@@ spec
    ensures r == found(*$p0, $p1@), r is Some ==> field_ok(&r->0),
//@@ end
impl<'a> Parser<'a> {
//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_float
//@@ sig fn parse_float<T: RealX>(&mut self) -> (r: Result<(T, Span), ParseErrorKind>)
//@@ subst? self . lexer . source ( ) [ span ] . trim_end_matches ( [ 'f' , 'F' ] ) ==>> unsuffixed_source(span)
//@@ subst? literal . parse ( ) ==>> T::from_text(literal)
//@@ subst? T :: from ( f32 :: INFINITY ) ==>> T::infinity()
//@@ subst? T :: from ( f32 :: NAN ) ==>> T::not_a_number()
//@@ subst? $v:id . eq_ignore_ascii_case ( $s ) ==>> same_letters($v, $s)
//@@ subst? - value ==>> value.negate()
//@@ spec
    ensures
        forall|v: T| starts(old(self).toks(), #[trigger] real_toks(v)) ==> r is Ok && same_real(v, r->Ok_0.0) && final(self).toks() == old(self).toks().skip(real_toks(v).len() as int),
//@@ start
    let ghost t0 = self.toks();
    proof {
        special();
        broadcast use real_text;
        assert forall|v: T| starts(t0, #[trigger] real_toks(v)) implies real_at(t0, v) by { real_parts(t0, v); }
        if t0.len() > 1 { assert(t0.skip(1).skip(1) =~= t0.skip(2)); }
    }
//@@ end
#[verifier::exec_allows_no_decreases_clause]
//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_bytes
//@@ subst? result . extend_from_slice ( & value ) ==>> append(&mut result, &value)
//@@ ret r
//@@ spec
    ensures
        old(self).toks().len() > 0 && old(self).toks()[0] is Str && clean(old(self).toks(), 1) ==> r is Ok && r->Ok_0.0@ == old(self).toks()[0]->Str_0 && final(self).toks() == old(self).toks().skip(1),
//@@ start
    let ghost t0 = self.toks();
    let ghost given = t0.len() > 0 && t0[0] is Str && clean(t0, 1);
//@@ loop 0
        invariant t0 == old(self).toks(), given == (t0.len() > 0 && t0[0] is Str && clean(t0, 1)), given ==> result@ == t0[0]->Str_0 && self.toks() == t0.skip(1),
//@@ end
//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_enum
//@@ subst? $e:e . to_owned ( ) ==>> any_string()
//@@ ret r
//@@ spec
    ensures
        old(self).toks().len() > 0 && old(self).toks()[0] is Ident && $p1.s_named(old(self).toks()[0]->Ident_0) is Some
            ==> r is Ok && r->Ok_0.0 == $p1.s_named(old(self).toks()[0]->Ident_0)->Some_0.s_number() && final(self).toks() == old(self).toks().skip(1),
        int_at(old(self).toks()) is Some && i32::MIN <= int_at(old(self).toks())->Some_0.0 <= i32::MAX
            ==> r is Ok && r->Ok_0.0 == int_at(old(self).toks())->Some_0.0 && final(self).toks() == old(self).toks().skip(int_at(old(self).toks())->Some_0.1),
//@@ end
}
/// The parts of the text of a number at the start of the tokens.
pub open spec fn real_at<T: Real>(ts: Seq<Tok>, v: T) -> bool {
    if v.nan() { ts.len() > 0 && ts[0] == Tok::Ident("NaN"@) && real_toks(v).len() == 1 }
    else if v.minus() { ts.len() > 1 && ts[0] is Minus && (if v.infinite() { ts[1] == Tok::Ident("inf"@) && v == T::inf().negated() } else { ts[1] is Float && T::read(unsuffixed(ts[1]->Float_0)) is Some && v == T::read(unsuffixed(ts[1]->Float_0))->Some_0.negated() }) && real_toks(v).len() == 2 }
    else { ts.len() > 0 && (if v.infinite() { ts[0] == Tok::Ident("inf"@) && v == T::inf() } else { ts[0] is Float && T::read(unsuffixed(ts[0]->Float_0)) is Some && v == T::read(unsuffixed(ts[0]->Float_0))->Some_0 }) && real_toks(v).len() == 1 }
}
proof fn real_parts<T: Real>(ts: Seq<Tok>, v: T)
    requires starts(ts, real_toks(v)),
    ensures real_at(ts, v),
{
    broadcast use real_text;
    let t = real_toks(v);
    assert(forall|i: int| 0 <= i < t.len() ==> ts[i] == #[trigger] t[i]) by { assert forall|i: int| 0 <= i < t.len() implies ts[i] == #[trigger] t[i] by { assert(ts.take(t.len() as int)[i] == ts[i]); } }
    if v.nan() { assert(t[0] == Tok::Ident("NaN"@)); }
    else if v.infinite() {
        if v.minus() { assert(t =~= seq![Tok::Minus, Tok::Ident("inf"@)]); assert(t[0] == ts[0] && t[1] == ts[1]); } else { assert(t =~= seq![Tok::Ident("inf"@)]); assert(t[0] == ts[0]); }
    } else if v.minus() { assert(t.len() == 2); assert(t.take(1)[0] == t[0]); assert(t[0] == ts[0] && t[1] == ts[1]); }
    else { assert(t.len() == 1); assert(t[0] == ts[0]); }
}

// ---- stored values
pub enum GKey { Bool(bool), I32(i32), I64(i64), U32(u32), U64(u64), String(Seq<char>) }
pub open spec fn gk(k: MapKey) -> GKey {
    match k {
        MapKey::Bool(b) => GKey::Bool(b), MapKey::I32(i) => GKey::I32(i), MapKey::I64(i) => GKey::I64(i),
        MapKey::U32(i) => GKey::U32(i), MapKey::U64(i) => GKey::U64(i), MapKey::String(s) => GKey::String(s@),
    }
}
/// The contents of a map: values by keys, which are compared by what is in them.
pub uninterp spec fn contents(m: HashMap<MapKey, Value>) -> Map<GKey, Value>;
/// A map iterates over its contents, each key once (assumed contract of std).
pub broadcast axiom fn entries_contents(m: HashMap<MapKey, Value>)
    ensures
        #![trigger entries(m)]
        #![trigger contents(m)]
        forall|i: int| 0 <= i < entries(m).len() ==> contents(m).contains_key(gk((#[trigger] entries(m)[i]).0)) && contents(m)[gk(entries(m)[i].0)] == entries(m)[i].1,
        forall|g: GKey| #[trigger] contents(m).contains_key(g) ==> exists|i: int| 0 <= i < entries(m).len() && gk((#[trigger] entries(m)[i]).0) == g,
        forall|i: int, j: int| 0 <= i < j < entries(m).len() ==> gk((#[trigger] entries(m)[i]).0) != gk((#[trigger] entries(m)[j]).0);
/// Equal values; NaN payloads are not kept, strings, bytes and maps are compared by content.
pub uninterp spec fn same_message(a: DynamicMessage, b: DynamicMessage) -> bool;
/// The options the text was written with: any.
pub uninterp spec fn opts() -> FormatOptions;
/// Defined by recursion over the messages in a: b holds what is written of a, and nothing else.
pub axiom fn same_message_is(a: DynamicMessage, b: DynamicMessage)
    ensures same_message(a, b) == (a.desc == b.desc && reached(expect_of(a, opts()), b.fields@, count(expect_of(a, opts()))));
pub open spec fn same_scalar(a: Value, b: Value) -> bool {
    match a {
        Value::F32(x) => b is F32 && same_real(x, b->F32_0),
        Value::F64(x) => b is F64 && same_real(x, b->F64_0),
        Value::String(x) => b is String && b->String_0@ == x@,
        Value::Bytes(x) => b is Bytes && b->Bytes_0@ == x@,
        Value::Message(x) => b is Message && same_message(x, b->Message_0),
        Value::List(_) | Value::Map(_) => false,
        _ => a == b,
    }
}
pub open spec fn same_map(a: Map<GKey, Value>, b: Map<GKey, Value>) -> bool {
    (forall|g: GKey| #[trigger] a.contains_key(g) <==> b.contains_key(g)) && forall|g: GKey| #[trigger] a.contains_key(g) ==> same_scalar(a[g], b[g])
}
pub open spec fn same_list(a: Seq<Value>, b: Seq<Value>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_scalar(#[trigger] a[i], b[i]) }
pub open spec fn same_value(a: Value, b: Value) -> bool {
    match a {
        Value::List(x) => b is List && same_list(x@, b->List_0@),
        Value::Map(x) => b is Map && same_map(contents(x), contents(b->Map_0)),
        _ => same_scalar(a, b),
    }
}
pub open spec fn present<D: FieldDescriptorLike + ?Sized>(s: Slots, f: &D) -> bool { s.contains_key(f.s_number()) && (f.s_presence() || !f.s_is_default(s[f.s_number()])) }
pub open spec fn member(o: OneofDescriptor, n: u32) -> bool { exists|i: int| 0 <= i < o.s_fields().len() && (#[trigger] o.s_fields()[i]).s_number() == n }
pub open spec fn sibling<D: FieldDescriptorLike + ?Sized>(d: &D, n: u32) -> bool { n != d.s_number() && d.s_oneof() is Some && member(d.s_oneof()->Some_0, n) }
pub open spec fn stores<D: FieldDescriptorLike + ?Sized>(s: Slots, d: &D, v: Value, r: Slots) -> bool {
    &&& forall|n: u32| #[trigger] r.contains_key(n) <==> n == d.s_number() || s.contains_key(n) && !sibling(d, n)
    &&& r[d.s_number()] == v
    &&& forall|n: u32| n != d.s_number() && #[trigger] r.contains_key(n) ==> r[n] == s[n]
}
/// The default of a list or map is empty.
pub broadcast axiom fn default_empty<D: FieldDescriptorLike + ?Sized>(d: &D)
    ensures #![trigger d.s_default()] d.s_list() ==> d.s_default() is List && d.s_default()->List_0@.len() == 0, d.s_map() ==> d.s_default() is Map && contents(d.s_default()->Map_0) == Map::<GKey, Value>::empty();
/// (contracts shown in unit fields)
impl FieldSet {
    #[verifier::external_body]
    fn has<D: FieldDescriptorLike>(&self, d: &D) -> (r: bool) ensures r == present(self@, d) { unimplemented!() }
    #[verifier::external_body]
    fn set<D: FieldDescriptorLike>(&mut self, d: &D, v: Value) ensures stores(old(self)@, d, v, final(self)@) { unimplemented!() }
    #[verifier::external_body]
    fn get_mut<D: FieldDescriptorLike>(&mut self, d: &D) -> (r: &mut Value)
        ensures *r == (if old(self)@.contains_key(d.s_number()) { old(self)@[d.s_number()] } else { d.s_default() }), stores(old(self)@, d, *final(r), final(self)@),
            // what is stored is valid (P07)
            d.s_list() ==> *r is List, d.s_map() ==> *r is Map,
    { unimplemented!() }
}
impl DynamicMessage {
    #[verifier::external_body]
    fn new(d: MessageDescriptor) -> (r: DynamicMessage) ensures r.desc == d, r.fields@ == Map::<u32, Value>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn has_field(&self, f: &FieldDescriptor) -> (r: bool) ensures r == present(self.fields@, f) { unimplemented!() }
    #[verifier::external_body]
    fn get_field_by_number(&self, n: u32) -> (r: Option<Cow<'_, Value>>)
        ensures match self.desc.s_field(n) {
            Some(f) => r is Some && cow(r->0) == (if self.fields@.contains_key(f.s_number()) { self.fields@[f.s_number()] } else { f.s_default() }),
            None => true,
        } { unimplemented!() }
    /// (contracts shown in unit message)
    #[verifier::external_body]
    fn try_set_field_by_number(&mut self, n: u32, v: Value) -> (r: Result<(), SetFieldError>)
        ensures final(self).desc == old(self).desc, plain_field(old(self).desc, n, v) ==> r is Ok && stores(old(self).fields@, &old(self).desc.s_field(n)->Some_0, v, final(self).fields@) { unimplemented!() }
    #[verifier::external_body]
    fn encode_to_vec(&self) -> (r: Vec<u8>) ensures r@ == encoded(*self) { unimplemented!() }
}
pub struct SetFieldError;
pub uninterp spec fn encoded(m: DynamicMessage) -> Seq<u8>;
/// A field which takes this value.
pub open spec fn plain_field(d: MessageDescriptor, n: u32, v: Value) -> bool {
    d.s_field(n) is Some && ({ let f = d.s_field(n)->Some_0; !f.s_list() && !f.s_map() && scalar_ok(v, f.s_kind()) && f.s_number() == n && f.s_oneof() is None })
}
impl<'a> Cow<'a, Value> {
    #[verifier::external_body]
    fn into_owned(self) -> (r: Value) ensures r == cow(self) { unimplemented!() }
}
#[verifier::external_body]
fn extend_all(a: &mut Vec<Value>, b: Vec<Value>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
#[verifier::external_body]
fn map_insert(m: &mut HashMap<MapKey, Value>, key: MapKey, value: Value) ensures contents(*final(m)) == contents(*old(m)).insert(gk(key), value) { unimplemented!() }
#[verifier::external_body]
fn drained<T>(v: Vec<T>) -> (r: Items<T>) ensures r.items() == v@ { unimplemented!() }
impl Value {
//@@ fn prost-reflect/src/dynamic/mod.rs Value::as_list_mut
//@@ ret r
//@@ spec
    ensures match *old(self) { Value::List(l) => r is Some && *r->0 == l && *final(self) == Value::List(*final(r->0)), _ => r is None },
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs Value::as_map_mut
//@@ ret r
//@@ spec
    ensures match *old(self) { Value::Map(l) => r is Some && *r->0 == l && *final(self) == Value::Map(*final(r->0)), _ => r is None },
//@@ end
//@@ fn prost-reflect/src/dynamic/mod.rs Value::into_map_key
//@@ ret r
//@@ spec
    ensures forall|k: MapKey| same_scalar(#[trigger] key_value(k), self) ==> r is Some && gk(r->0) == gk(k),
//@@ end
}
/// A key as the value of the key field of an entry
pub open spec fn key_value(k: MapKey) -> Value {
    match k {
        MapKey::Bool(b) => Value::Bool(b), MapKey::I32(i) => Value::I32(i), MapKey::I64(i) => Value::I64(i), MapKey::U32(i) => Value::U32(i), MapKey::U64(i) => Value::U64(i), MapKey::String(s) => Value::String(s),
    }
}

// ---- what is written, and what is to be read from it
/// A message is read from its members one after the other, or from an Any written expanded.
pub enum Expect { Members(Seq<ValueAndDescriptor<'static>>), Any(Seq<char>, DynamicMessage) }
/// An element of a list: a value, or an entry of a map.
pub enum Elem { Scalar(Value), Entry((MapKey, Value)) }
pub open spec fn expect_of(m: DynamicMessage, o: FormatOptions) -> Expect {
    if o.expand_any && any_of(m) is Some { Expect::Any(any_of(m)->Some_0.0, any_of(m)->Some_0.1) } else { Expect::Members(members(m, o)) }
}
pub open spec fn name_of<'a>(m: ValueAndDescriptor<'a>) -> Seq<char> {
    match m {
        ValueAndDescriptor::Field(_, d) => if d.s_group() { d.s_kind()->Message_0.s_name() } else { d.s_name() },
        ValueAndDescriptor::Extension(_, d) => d.s_full_name(),
        ValueAndDescriptor::Unknown(_) => Seq::empty(),
    }
}
pub open spec fn vd_number<'a>(m: ValueAndDescriptor<'a>) -> u32 {
    match m { ValueAndDescriptor::Field(_, d) => d.s_number(), ValueAndDescriptor::Extension(_, d) => d.s_number(), ValueAndDescriptor::Unknown(_) => 0 }
}
/// What an accepted descriptor and a message of it promise, and the descriptors and messages in it, defined by recursion over them (readable_is).
pub uninterp spec fn readable(m: DynamicMessage, o: FormatOptions) -> bool;
pub axiom fn readable_is(m: DynamicMessage, o: FormatOptions)
    ensures readable(m, o) == (fits(expect_of(m, o), m.desc, o) && (o.expand_any && any_of(m) is Some ==> members(m, o).len() > 0));
pub open spec fn scalar_rep(v: Value, k: Kind, o: FormatOptions) -> bool {
    scalar_ok(v, k) && match v {
        Value::Message(m) => readable(m, o),
        Value::EnumNumber(n) => match k->Enum_0.s_value(n) { Some(e) => ident(e.s_name()) && k->Enum_0.s_named(e.s_name()) is Some && k->Enum_0.s_named(e.s_name())->Some_0.s_number() == n, None => true },
        _ => true,
    }
}
pub open spec fn elem_rep(x: Elem, k: Kind, o: FormatOptions) -> bool {
    match x {
        Elem::Scalar(v) => scalar_rep(v, k, o),
        Elem::Entry(e) => entry_kind(k) && key_ok(e.0, k->Message_0.key_field().s_kind()) && scalar_rep(e.1, k->Message_0.value_field().s_kind(), o),
    }
}
pub open spec fn elem_toks(x: Elem, k: Kind, o: FormatOptions) -> Seq<Tok> {
    match x { Elem::Scalar(v) => scalar_toks(v, Some(k), o), Elem::Entry(e) => entry_toks(e, k->Message_0.value_field().s_kind(), o) }
}
pub open spec fn elem_fn(k: Kind, o: FormatOptions) -> spec_fn(Elem) -> Seq<Tok> { |x: Elem| elem_toks(x, k, o) }
pub open spec fn entry_members(e: (MapKey, Value), k: Kind) -> Seq<ValueAndDescriptor<'static>> {
    seq![ValueAndDescriptor::Field(Cow::Owned(key_value(e.0)), k->Message_0.key_field()), ValueAndDescriptor::Field(Cow::Owned(e.1), k->Message_0.value_field())]
}
pub open spec fn elem_same(x: Elem, k: Kind, w: Value) -> bool {
    match x { Elem::Scalar(v) => same_scalar(v, w), Elem::Entry(e) => w is Message && w->Message_0.desc == k->Message_0 && holds(w->Message_0.fields@, entry_members(e, k), 2) }
}
pub open spec fn rep<D: FieldDescriptorLike + ?Sized>(v: Value, d: &D, o: FormatOptions) -> bool {
    if d.s_list() { v is List && forall|i: int| 0 <= i < v->List_0@.len() ==> scalar_rep(#[trigger] v->List_0@[i], d.s_kind(), o) }
    else if d.s_map() { v is Map && forall|i: int| 0 <= i < entries(v->Map_0).len() ==> elem_rep(Elem::Entry(#[trigger] entries(v->Map_0)[i]), d.s_kind(), o) }
    else { scalar_rep(v, d.s_kind(), o) }
}
/// A member of the message, found again by the name it is written with.
pub open spec fn member_rep<'a>(m: ValueAndDescriptor<'a>, d: MessageDescriptor, o: FormatOptions) -> bool {
    match m {
        ValueAndDescriptor::Field(v, f) => field_ok(&f) && rep(cow(v), &f, o) && ident(name_of(m)) && found(d, name_of(m)) == Some(f),
        ValueAndDescriptor::Extension(v, x) => field_ok(&x) && rep(cow(v), &x, o) && name_ok(name_of(m)) && d.s_extension(name_of(m)) == Some(x),
        ValueAndDescriptor::Unknown(_) => false,
    }
}
/// The members of a message: no number twice, and one member of a oneof at most (P04, P06).
pub open spec fn members_ok<'a>(ms: Seq<ValueAndDescriptor<'a>>, d: MessageDescriptor, o: FormatOptions) -> bool {
    &&& forall|i: int| 0 <= i < ms.len() ==> member_rep(#[trigger] ms[i], d, o)
    &&& forall|i: int, j: int| #![trigger ms[i], ms[j]] 0 <= i < j < ms.len() ==> vd_number(ms[i]) != vd_number(ms[j])
    &&& forall|i: int, j: int| #![trigger ms[i], ms[j]] 0 <= i < j < ms.len() ==> match ms[j] {
            ValueAndDescriptor::Field(_, f) => f.s_oneof() is Some ==> !member(f.s_oneof()->Some_0, vd_number(ms[i])),
            _ => true,
        }
}
pub open spec fn fits(x: Expect, d: MessageDescriptor, o: FormatOptions) -> bool {
    match x {
        Expect::Members(ms) => members_ok(ms, d, o),
        Expect::Any(url, body) => d.s_full_name() == "google.protobuf.Any"@ && split_url(url) is Some && domain_ok(split_url(url)->Some_0.0) && name_ok(split_url(url)->Some_0.1)
            && d.s_pool().s_message(split_url(url)->Some_0.1) == Some(body.desc) && readable(body, o)
            && (forall|s: String| #[trigger] plain_field(d, 1, Value::String(s))) && forall|b: Bytes| #[trigger] plain_field(d, 2, Value::Bytes(b)),
    }
}
/// The values of the first `k` members are stored, and nothing else.
pub open spec fn holds<'a>(s: Slots, ms: Seq<ValueAndDescriptor<'a>>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < k ==> s.contains_key(vd_number(#[trigger] ms[i])) && same_value(vd_value(ms[i]), s[vd_number(ms[i])])
    &&& forall|n: u32| #[trigger] s.contains_key(n) ==> exists|i: int| 0 <= i < k && vd_number(#[trigger] ms[i]) == n
}
/// The type URL and an encoding of an equal payload are stored, and nothing else.
pub open spec fn holds_any(s: Slots, url: Seq<char>, body: DynamicMessage) -> bool {
    &&& forall|n: u32| #[trigger] s.contains_key(n) <==> n == 1 || n == 2
    &&& s[1] is String && s[1]->String_0@ == url
    &&& s[2] is Bytes && exists|b: DynamicMessage| s[2]->Bytes_0@ == #[trigger] encoded(b) && same_message(body, b)
}
pub open spec fn count(x: Expect) -> int { match x { Expect::Members(ms) => ms.len() as int, Expect::Any(_, _) => 1 } }
pub open spec fn piece(x: Expect, o: FormatOptions, k: int) -> Seq<Tok> {
    match x { Expect::Members(ms) => member_toks(ms[k], o), Expect::Any(url, body) => seq![Tok::LeftBracket] + scan(url) + seq![Tok::RightBracket] + message_value_toks(body, o) }
}
/// The tokens from the k-th piece on.
pub open spec fn rest(x: Expect, o: FormatOptions, k: int) -> Seq<Tok>
    decreases count(x) - k
{
    if k < 0 || k >= count(x) { Seq::empty() } else if k + 1 == count(x) { piece(x, o, k) } else { piece(x, o, k) + separator(o) + rest(x, o, k + 1) }
}
pub open spec fn reached(x: Expect, s: Slots, k: int) -> bool {
    match x { Expect::Members(ms) => holds(s, ms, k), Expect::Any(url, body) => if k == 0 { s =~= Map::<u32, Value>::empty() } else { holds_any(s, url, body) } }
}
pub open spec fn after_sep(ts: Seq<Tok>) -> Seq<Tok> { if ts.len() > 0 && (ts[0] is Comma || ts[0] is Semicolon) { ts.skip(1) } else { ts } }

// ---- tokens
proof fn split(ts: Seq<Tok>, a: Seq<Tok>, b: Seq<Tok>)
    requires starts(ts, a + b),
    ensures
        starts(ts, a), starts(ts.skip(a.len() as int), b), a.len() + b.len() <= ts.len(), ts.skip(a.len() as int).skip(b.len() as int) == ts.skip((a.len() + b.len()) as int),
        a.len() > 0 ==> ts[0] == a[0], b.len() > 0 ==> ts[a.len() as int] == b[0] && ts.skip(a.len() as int)[0] == b[0],
{
    let p = ts.take((a.len() + b.len()) as int);
    assert(p == a + b);
    assert(ts.take(a.len() as int) =~= a) by { assert forall|i: int| 0 <= i < a.len() implies ts[i] == a[i] by { assert(p[i] == (a + b)[i]); } }
    assert(ts.skip(a.len() as int).take(b.len() as int) =~= b) by { assert forall|i: int| 0 <= i < b.len() implies ts[a.len() as int + i] == b[i] by { assert(p[a.len() as int + i] == (a + b)[a.len() as int + i]); } }
    assert(ts.skip(a.len() as int).skip(b.len() as int) =~= ts.skip((a.len() + b.len()) as int));
    if a.len() > 0 { assert(p[0] == (a + b)[0]); }
    if b.len() > 0 { assert(p[a.len() as int] == (a + b)[a.len() as int]); }
}
proof fn starts_at(ts: Seq<Tok>, a: Seq<Tok>)
    requires starts(ts, a),
    ensures forall|i: int| 0 <= i < a.len() ==> ts[i] == #[trigger] a[i],
{
    assert forall|i: int| 0 <= i < a.len() implies ts[i] == #[trigger] a[i] by { assert(ts.take(a.len() as int)[i] == a[i]); }
}
/// The tokens of a name are read back as it.
proof fn name_read(s: Seq<char>, ts: Seq<Tok>)
    requires name_ok(s), starts(ts, scan(s)), ts.len() > scan(s).len(), !(ts[scan(s).len() as int] is Dot),
    ensures full(ts) == Some((s, scan(s).len() as int)),
    decreases s.len(),
{
    assert(scan(s)[0] is Ident);
    starts_at(ts, scan(s));
    let e = word_end(s);
    word_end_in(s);
    assert(word_char(s[0])) by { if s[0] == '.' { assert(scan(s) == mark('.') + scan(s.skip(1))); assert(scan(s)[0] is Dot); } }
    let w = s.take(e); let r = s.skip(e);
    assert(scan(s) == seq![Tok::Ident(w)] + scan(r));
    assert(scan(s)[0] == Tok::Ident(w));
    if r.len() == 0 {
        assert(scan(s).len() == 1);
        assert(ts.skip(1)[0] == ts[1]);
        assert(w + Seq::<char>::empty() =~= s);
    } else {
        assert(r[0] == s[e]);
        assert(!word_char(r[0]));
        assert(r[0] == '.');
        let t = r.skip(1);
        assert(scan(r) == seq![Tok::Dot] + scan(t));
        assert(scan(s) =~= seq![Tok::Ident(w), Tok::Dot] + scan(t));
        assert(scan(s).skip(2) =~= scan(t));
        assert forall|i: int| 0 <= i < t.len() implies word_char(#[trigger] t[i]) || t[i] == '.' by { assert(t[i] == s[e + 1 + i]); }
        split(ts, seq![Tok::Ident(w), Tok::Dot], scan(t));
        let u = ts.skip(2);
        assert(scan(s).len() == 2 + scan(t).len());
        assert(u[scan(t).len() as int] == ts[scan(s).len() as int]);
        assert(dotted(scan(t)));
        name_read(t, u);
        assert(ts[0] == Tok::Ident(w)); assert(ts[1] == scan(s)[1]); assert(ts[1] is Dot);
        assert(ts.skip(1).skip(1) =~= u);
        assert(ts.skip(1)[0] == ts[1]);
        assert(dots(ts.skip(1)) == Some((seq!['.'] + t, scan(t).len() as int + 1)));
        assert(w + (seq!['.'] + t) =~= s);
    }
}
proof fn word_end_in(s: Seq<char>)
    ensures 0 <= word_end(s) <= s.len(), forall|i: int| 0 <= i < word_end(s) ==> word_char(#[trigger] s[i]), word_end(s) < s.len() ==> !word_char(s[word_end(s)]), s.len() > 0 && word_char(s[0]) ==> word_end(s) > 0,
    decreases s.len(),
{
    if s.len() > 0 && word_char(s[0]) {
        word_end_in(s.skip(1));
        let e = word_end(s.skip(1));
        assert forall|i: int| 0 <= i < word_end(s) implies word_char(#[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
        if word_end(s) < s.len() { assert(s.skip(1)[e] == s[e + 1]); }
    }
}
/// A mark separates words.
proof fn scan_around(a: Seq<char>, c: char, b: Seq<char>)
    requires !word_char(c),
    ensures scan(a + seq![c] + b) == scan(a) + mark(c) + scan(b),
    decreases a.len(),
{
    let s = a + seq![c] + b;
    if a.len() == 0 {
        assert(s[0] == c);
        assert(s.skip(1) =~= b);
        assert(scan(a) + mark(c) + scan(b) =~= mark(c) + scan(b));
    } else {
        assert(s[0] == a[0]);
        if word_char(a[0]) {
            word_end_in(a);
            let e = word_end(a);
            let w = a.take(e); let r = a.skip(e) + seq![c] + b;
            assert(s =~= w + r);
            assert(r[0] == (if e < a.len() { a[e] } else { c }));
            word_before(w, r);
            scan_around(a.skip(e), c, b);
            assert(scan(a) == seq![Tok::Ident(w)] + scan(a.skip(e)));
            assert(seq![Tok::Ident(w)] + (scan(a.skip(e)) + mark(c) + scan(b)) =~= seq![Tok::Ident(w)] + scan(a.skip(e)) + mark(c) + scan(b));
        } else {
            assert(s.skip(1) =~= a.skip(1) + seq![c] + b);
            scan_around(a.skip(1), c, b);
            assert(mark(a[0]) + (scan(a.skip(1)) + mark(c) + scan(b)) =~= mark(a[0]) + scan(a.skip(1)) + mark(c) + scan(b));
        }
    }
}
/// The name of a field is read from its tokens.
proof fn field_named<'a>(m: ValueAndDescriptor<'a>, d: MessageDescriptor, o: FormatOptions, ts: Seq<Tok>)
    requires member_rep(m, d, o), starts(ts, name_toks(m)),
    ensures
        name_toks(m).len() > 0, ts[0] is Ident || ts[0] is LeftBracket,
        field_name_at(ts) == Some((if m is Field { FieldNameIs::Ident(name_of(m)) } else { FieldNameIs::Extension(name_of(m)) }, name_toks(m).len() as int)),
{
    starts_at(ts, name_toks(m));
    if m is Field {
        word_is(name_of(m));
        assert(name_toks(m)[0] == Tok::Ident(name_of(m)));
    } else {
        let n = name_of(m);
        let t = name_toks(m);
        assert(t[0] is LeftBracket);
        assert(t =~= seq![Tok::LeftBracket] + (scan(n) + seq![Tok::RightBracket]));
        split(ts, seq![Tok::LeftBracket], scan(n) + seq![Tok::RightBracket]);
        split(ts.skip(1), scan(n), seq![Tok::RightBracket]);
        name_read(n, ts.skip(1));
        assert(ts.skip(1)[scan(n).len() as int] == ts[scan(n).len() as int + 1]);
    }
}
proof fn any_named(url: Seq<char>, ts: Seq<Tok>)
    requires split_url(url) is Some, domain_ok(split_url(url)->Some_0.0), name_ok(split_url(url)->Some_0.1), starts(ts, seq![Tok::LeftBracket] + scan(url) + seq![Tok::RightBracket]),
    ensures ts[0] is LeftBracket, field_name_at(ts) == Some((FieldNameIs::Any(split_url(url)->Some_0.0, split_url(url)->Some_0.1), scan(url).len() as int + 2)),
{
    let (d, n) = split_url(url)->Some_0;
    split_url_is(url);
    scan_around(d, '/', n);
    domain_is_name(d);
    let k = seq![Tok::LeftBracket];
    assert(k + scan(url) + seq![Tok::RightBracket] =~= k + (scan(d) + (seq![Tok::Slash] + (scan(n) + seq![Tok::RightBracket]))));
    split(ts, k, scan(d) + (seq![Tok::Slash] + (scan(n) + seq![Tok::RightBracket])));
    let t1 = ts.skip(1);
    split(t1, scan(d), seq![Tok::Slash] + (scan(n) + seq![Tok::RightBracket]));
    let t2 = t1.skip(scan(d).len() as int);
    split(t2, seq![Tok::Slash], scan(n) + seq![Tok::RightBracket]);
    let t3 = t2.skip(1);
    split(t3, scan(n), seq![Tok::RightBracket]);
    name_read(d, t1);
    name_read(n, t3);
    assert(t3 =~= ts.skip(scan(d).len() as int + 2));
    assert(t1[scan(d).len() as int] == ts[scan(d).len() as int + 1]);
    assert(t3[scan(n).len() as int] == ts[scan(d).len() as int + scan(n).len() as int + 2]);
}

// ---- what a parse is wanted to read
pub open spec fn reads(ts: Seq<Tok>, p: Seq<Tok>) -> bool { starts(ts, p) && clean(ts, p.len() as int) }
pub open spec fn elem_wanted(g: Option<Elem>, k: Kind, ts: Seq<Tok>) -> bool { g is Some && elem_rep(g->0, k, opts()) && reads(ts, elem_toks(g->0, k, opts())) }
pub open spec fn elems_rep(xs: Seq<Elem>, k: Kind) -> bool { forall|i: int| 0 <= i < xs.len() ==> elem_rep(#[trigger] xs[i], k, opts()) }
pub open spec fn elems_toks(xs: Seq<Elem>, k: Kind) -> Seq<Tok> { seq![Tok::LeftBracket] + listed(xs.map_values(elem_fn(k, opts()))) + seq![Tok::RightBracket] }
pub open spec fn elems_wanted(g: Option<Seq<Elem>>, k: Kind, ts: Seq<Tok>) -> bool { g is Some && elems_rep(g->0, k) && starts(ts, elems_toks(g->0, k)) }
pub open spec fn elems_same(xs: Seq<Elem>, k: Kind, ws: Seq<Value>) -> bool { ws.len() == xs.len() && forall|i: int| 0 <= i < xs.len() ==> elem_same(#[trigger] xs[i], k, ws[i]) }
pub open spec fn all_ok(v: Value, k: Kind) -> bool { if v is List { forall|i: int| 0 <= i < v->List_0@.len() ==> scalar_ok(#[trigger] v->List_0@[i], k) } else { scalar_ok(v, k) } }
pub open spec fn value_wanted<D: FieldDescriptorLike + ?Sized>(g: Option<Value>, d: &D, s: Slots, ts: Seq<Tok>) -> bool {
    g is Some && rep(g->0, d, opts()) && reads(ts, value_toks(g->0, Some(d.s_kind()), opts())) && !s.contains_key(d.s_number()) && forall|n: u32| #[trigger] s.contains_key(n) ==> !sibling(d, n)
}
pub open spec fn field_wanted(g: Option<(Expect, int)>, d: MessageDescriptor, s: Slots, ts: Seq<Tok>) -> bool {
    g is Some && fits((g->0).0, d, opts()) && 0 <= (g->0).1 < count((g->0).0) && reached((g->0).0, s, (g->0).1) && reads(ts, piece((g->0).0, opts(), (g->0).1))
}
pub open spec fn braced(x: Expect) -> Seq<Tok> { seq![Tok::LeftBrace] + rest(x, opts(), 0) + seq![Tok::RightBrace] }
pub open spec fn message_wanted(g: Option<Expect>, d: MessageDescriptor, s: Slots, ts: Seq<Tok>) -> bool {
    g is Some && fits(g->0, d, opts()) && s =~= Map::<u32, Value>::empty() && starts(ts, braced(g->0))
}
pub open spec fn elem_expect(x: Elem, k: Kind) -> Expect {
    match x { Elem::Scalar(v) => expect_of(v->Message_0, opts()), Elem::Entry(e) => Expect::Members(entry_members(e, k)) }
}
// ---- the tokens of elements
proof fn int_starts(ts: Seq<Tok>, i: int)
    requires starts(ts, int_toks(i)),
    ensures int_at(ts) == Some((i, int_toks(i).len() as int)), i >= 0 ==> !(ts[0] is Minus), ts.len() > 0, ts[0] is Minus || ts[0] is Int,
{
    starts_at(ts, int_toks(i));
    assert(ts[0] == int_toks(i)[0]);
    if i < 0 { assert(ts[1] == int_toks(i)[1]); }
}
proof fn scalar_starts(v: Value, k: Kind, ts: Seq<Tok>)
    requires scalar_rep(v, k, opts()), reads(ts, scalar_toks(v, Some(k), opts())),
    ensures
        v is I32 ==> int_at(ts) == Some((v->I32_0 as int, int_toks(v->I32_0 as int).len() as int)),
        v is I64 ==> int_at(ts) == Some((v->I64_0 as int, int_toks(v->I64_0 as int).len() as int)),
        v is U32 ==> int_at(ts) == Some((v->U32_0 as int, int_toks(v->U32_0 as int).len() as int)) && !(ts[0] is Minus),
        v is U64 ==> int_at(ts) == Some((v->U64_0 as int, int_toks(v->U64_0 as int).len() as int)) && !(ts[0] is Minus),
        v is String ==> ts.len() > 0 && ts[0] == Tok::Str(encode_utf8(v->String_0@)) && clean(ts, 1) && scalar_toks(v, Some(k), opts()).len() == 1,
        v is Bytes ==> ts.len() > 0 && ts[0] == Tok::Str(v->Bytes_0@) && clean(ts, 1) && scalar_toks(v, Some(k), opts()).len() == 1,
        v is Bool ==> starts(ts, bool_toks(v->Bool_0)) && scalar_toks(v, Some(k), opts()).len() == 1,
        v is F32 ==> starts(ts, real_toks(v->F32_0)),
        v is F64 ==> starts(ts, real_toks(v->F64_0)),
        v is EnumNumber ==> match k->Enum_0.s_value(v->EnumNumber_0) {
            Some(e) => ts.len() > 0 && ts[0] == Tok::Ident(e.s_name()) && scalar_toks(v, Some(k), opts()).len() == 1,
            None => int_at(ts) == Some((v->EnumNumber_0 as int, int_toks(v->EnumNumber_0 as int).len() as int)),
        },
{
    let p = scalar_toks(v, Some(k), opts());
    starts_at(ts, p);
    match v {
        Value::I32(i) => int_starts(ts, i as int),
        Value::I64(i) => int_starts(ts, i as int),
        Value::U32(i) => int_starts(ts, i as int),
        Value::U64(i) => int_starts(ts, i as int),
        Value::String(s) => { assert(ts[0] == p[0]); },
        Value::Bytes(s) => { assert(ts[0] == p[0]); },
        Value::EnumNumber(n) => match k->Enum_0.s_value(n) {
            Some(e) => { word_is(e.s_name()); assert(ts[0] == p[0]); },
            None => int_starts(ts, n as int),
        },
        _ => {},
    }
}
proof fn delimited_front(ts: Seq<Seq<Tok>>, o: FormatOptions)
    requires ts.len() >= 2,
    ensures delimited(ts, o) == ts[0] + separator(o) + delimited(ts.skip(1), o),
    decreases ts.len(),
{
    let r = ts.drop_last();
    if ts.len() == 2 { assert(delimited(r, o) == ts[0]); assert(delimited(ts.skip(1), o) == ts[1]); }
    else {
        delimited_front(r, o);
        assert(r.skip(1) =~= ts.skip(1).drop_last());
        assert(ts[0] + separator(o) + delimited(r.skip(1), o) + separator(o) + ts.last() =~= ts[0] + separator(o) + (delimited(r.skip(1), o) + separator(o) + ts.last()));
    }
}
proof fn listed_front(ts: Seq<Seq<Tok>>)
    requires ts.len() >= 2,
    ensures listed(ts) == ts[0] + seq![Tok::Comma] + listed(ts.skip(1)),
    decreases ts.len(),
{
    let r = ts.drop_last();
    if ts.len() == 2 { assert(listed(r) == ts[0]); assert(listed(ts.skip(1)) == ts[1]); }
    else {
        listed_front(r);
        assert(r.skip(1) =~= ts.skip(1).drop_last());
        assert(ts[0] + seq![Tok::Comma] + listed(r.skip(1)) + seq![Tok::Comma] + ts.last() =~= ts[0] + seq![Tok::Comma] + (listed(r.skip(1)) + seq![Tok::Comma] + ts.last()));
    }
}
proof fn rest_is<'a>(ms: Seq<ValueAndDescriptor<'static>>, o: FormatOptions, k: int)
    requires 0 <= k <= ms.len(),
    ensures rest(Expect::Members(ms), o, k) == delimited(ms.map_values(member_fn(o)).skip(k), o),
    decreases ms.len() - k,
{
    let ts = ms.map_values(member_fn(o)).skip(k);
    if k < ms.len() {
        assert(ts[0] == member_toks(ms[k], o));
        assert(ts.skip(1) =~= ms.map_values(member_fn(o)).skip(k + 1));
        if k + 1 < ms.len() { delimited_front(ts, o); rest_is(ms, o, k + 1); }
    }
}
/// The text of a message is its pieces in braces.
proof fn braced_is(m: DynamicMessage)
    requires readable(m, opts()),
    ensures message_value_toks(m, opts()) == braced(expect_of(m, opts())), fits(expect_of(m, opts()), m.desc, opts()),
{
    let o = opts();
    readable_is(m, o);
    message_text(m, o);
    if !(o.expand_any && any_of(m) is Some) {
        let ms = members::<'static>(m, o);
        rest_is(ms, o, 0);
        assert(ms.map_values(member_fn(o)).skip(0) =~= ms.map_values(member_fn(o)));
        if ms.len() == 0 { assert(braced(expect_of(m, o)) =~= seq![Tok::LeftBrace, Tok::RightBrace]); }
    }
}
proof fn entry_is(e: (MapKey, Value), k: Kind)
    requires elem_rep(Elem::Entry(e), k, opts()),
    ensures entry_toks(e, k->Message_0.value_field().s_kind(), opts()) == braced(Expect::Members(entry_members(e, k))), fits(Expect::Members(entry_members(e, k)), k->Message_0, opts()),
{
    let o = opts();
    let ms = entry_members(e, k);
    let x = Expect::Members(ms);
    reveal_strlit("key"); reveal_strlit("value");
    assert(ident("key"@)); assert(ident("value"@));
    word_is("key"@); word_is("value"@);
    assert(rest(x, o, 1) == piece(x, o, 1));
    assert(rest(x, o, 0) == piece(x, o, 0) + separator(o) + piece(x, o, 1));
    assert(piece(x, o, 0) == seq![Tok::Ident("key"@)] + seq![Tok::Colon] + key_toks(e.0));
    assert(piece(x, o, 1) == seq![Tok::Ident("value"@)] + colon(e.1) + scalar_toks(e.1, Some(k->Message_0.value_field().s_kind()), o));
    assert(braced(x) =~= entry_toks(e, k->Message_0.value_field().s_kind(), o));
    assert(members_ok(ms, k->Message_0, o)) by {
        assert(member_rep(ms[0], k->Message_0, o));
        assert(member_rep(ms[1], k->Message_0, o));
    }
}
/// What is left of a message before its k-th piece, up to what follows the message.
pub open spec fn left(x: Expect, k: int, end: Seq<Tok>, ts: Seq<Tok>) -> bool {
    starts(ts, rest(x, opts(), k) + end) && (if end.len() == 0 { ts.len() == rest(x, opts(), k).len() } else { end[0] is RightBrace })
}
proof fn piece_starts(x: Expect, d: MessageDescriptor, k: int, ts: Seq<Tok>)
    requires fits(x, d, opts()), 0 <= k < count(x), starts(ts, piece(x, opts(), k)),
    ensures piece(x, opts(), k).len() > 0, ts.len() > 0, ts[0] is Ident || ts[0] is LeftBracket,
{
    let p = piece(x, opts(), k);
    match x {
        Expect::Members(ms) => {
            let m = ms[k];
            assert(member_rep(m, d, opts()));
            assert(p =~= name_toks(m) + (colon(vd_value(m)) + value_toks(vd_value(m), Some(vd_kind(m)), opts())));
            split(ts, name_toks(m), colon(vd_value(m)) + value_toks(vd_value(m), Some(vd_kind(m)), opts()));
            field_named(m, d, opts(), ts);
        },
        Expect::Any(url, body) => { starts_at(ts, p); assert(p[0] is LeftBracket); assert(ts[0] == p[0]); },
    }
}
proof fn next_piece(x: Expect, d: MessageDescriptor, k: int, end: Seq<Tok>, ts: Seq<Tok>)
    requires fits(x, d, opts()), 0 <= k < count(x), left(x, k, end, ts),
    ensures
        reads(ts, piece(x, opts(), k)), ts.len() > 0, ts[0] is Ident || ts[0] is LeftBracket,
        rest(x, opts(), k).len() >= rest(x, opts(), k + 1).len(),
        after_sep(ts.skip(piece(x, opts(), k).len() as int)) == ts.skip(rest(x, opts(), k).len() - rest(x, opts(), k + 1).len()),
        left(x, k + 1, end, after_sep(ts.skip(piece(x, opts(), k).len() as int))),
{
    let o = opts();
    let p = piece(x, o, k); let r = rest(x, o, k + 1);
    let u = ts.skip(p.len() as int);
    if k + 1 == count(x) {
        assert(r =~= Seq::empty());
        assert(rest(x, o, k) == p);
        split(ts, p, end);
        assert(r + end =~= end);
        if end.len() == 0 { assert(u.len() == 0); } else { assert(ts[p.len() as int] == end[0]); }
        piece_starts(x, d, k, ts);
    } else {
        let sep = separator(o);
        assert(rest(x, o, k) == p + sep + r);
        assert(p + sep + r + end =~= p + (sep + (r + end)));
        split(ts, p, sep + (r + end));
        split(u, sep, r + end);
        let w = u.skip(sep.len() as int);
        let p1 = piece(x, o, k + 1);
        if k + 2 == count(x) { split(w, p1, end); }
        else { assert(r + end =~= p1 + (sep + rest(x, o, k + 2) + end)); split(w, p1, sep + rest(x, o, k + 2) + end); }
        piece_starts(x, d, k + 1, w);
        piece_starts(x, d, k, ts);
        assert(rest(x, o, k).len() - r.len() == p.len() + sep.len());
        if o.pretty { assert(w =~= u); assert(u[0] == ts[p.len() as int]); assert(after_sep(u) == u); }
        else { assert(sep[0] is Comma); assert(u[0] == sep[0]); assert(after_sep(u) == u.skip(1)); assert(u.skip(1) =~= ts.skip(p.len() as int + 1)); }
    }
}
impl<'a> Parser<'a> {
#[verifier::exec_allows_no_decreases_clause]
#[verifier::spinoff_prover]
//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_message_value
//@@ sig fn parse_message_value(&mut self, message: &mut DynamicMessage, Ghost(g): Ghost<Option<Expect>>) -> (r: Result<Span, ParseErrorKind>)
//@@ subst? self . parse_field ( message ) ==>> self.parse_field(message, Ghost(if wanted { Some((g->0, k)) } else { None }))
//@@ subst? tok == terminator ==>> token_eq(&tok, &terminator)
//@@ subst? format ! ( $x ) ==>> any_string()
//@@ spec
    ensures
        final(message).desc == old(message).desc,
        message_wanted(g, old(message).desc, old(message).fields@, old(self).toks()) ==> r is Ok && reached(g->0, final(message).fields@, count(g->0)) && final(self).toks() == old(self).toks().skip(braced(g->0).len() as int),
//@@ start
    let ghost t0 = self.toks();
    let ghost d0 = message.desc;
    let ghost wanted = message_wanted(g, message.desc, message.fields@, t0);
    let ghost mut k: int = 0;
    let ghost mut used: int = 1;
    proof {
        if wanted {
            starts_at(t0, braced(g->0));
            assert(t0[0] == braced(g->0)[0]);
            let e = seq![Tok::RightBrace];
            assert(braced(g->0) =~= seq![Tok::LeftBrace] + (rest(g->0, opts(), 0) + e));
            split(t0, seq![Tok::LeftBrace], rest(g->0, opts(), 0) + e);
            assert(message.fields@ =~= Map::<u32, Value>::empty());
            assert(reached(g->0, message.fields@, 0));
        }
    }
//@@ loop 0
        invariant
            t0 == old(self).toks(), d0 == old(message).desc, message.desc == d0, wanted == message_wanted(g, old(message).desc, old(message).fields@, t0),
            wanted ==> {
                &&& 0 <= k <= count(g->0) && reached(g->0, message.fields@, k) && is_mark(tok(terminator, no_place())) && terminator is RightBrace
                &&& left(g->0, k, seq![Tok::RightBrace], self.toks())
                &&& self.toks() == t0.skip(used) && used + rest(g->0, opts(), k).len() + 1 == braced(g->0).len() && used >= 1
            },
            is_mark(tok(terminator, no_place())),
//@@ in-loop 0
        let ghost t1 = self.toks();
        proof {
            if wanted {
                if k < count(g->0) {
                    next_piece(g->0, d0, k, seq![Tok::RightBrace], t1);
                    let n = rest(g->0, opts(), k).len() - rest(g->0, opts(), k + 1).len();
                    assert(t0.skip(used).skip(n) =~= t0.skip(used + n));
                    assert(t1.skip(n) == t0.skip(used + n));
                } else {
                    assert(rest(g->0, opts(), k) + seq![Tok::RightBrace] =~= seq![Tok::RightBrace]);
                    starts_at(t1, seq![Tok::RightBrace]);
                    assert(t1[0] == seq![Tok::RightBrace][0]);
                    assert(t0.skip(used).skip(1) =~= t0.skip(used + 1));
                }
            }
        }
//@@ end-loop 0
        proof {
            if wanted {
                used = used + rest(g->0, opts(), k).len() - rest(g->0, opts(), k + 1).len();
                k = k + 1;
            }
        }
//@@ end
#[verifier::exec_allows_no_decreases_clause]
//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_message
//@@ sig pub fn parse_message(&mut self, message: &mut DynamicMessage, Ghost(g): Ghost<Option<Expect>>) -> (r: Result<(), ParseErrorKind>)
//@@ subst? self . parse_field ( message ) ==>> self.parse_field(message, Ghost(if wanted { Some((g->0, k)) } else { None }))
//@@ spec
    ensures
        final(message).desc == old(message).desc,
        text_wanted(g, old(message).desc, old(message).fields@, old(self).toks()) ==> r is Ok && reached(g->0, final(message).fields@, count(g->0)),
//@@ start
    let ghost t0 = self.toks();
    let ghost d0 = message.desc;
    let ghost wanted = text_wanted(g, message.desc, message.fields@, t0);
    let ghost mut k: int = 0;
    proof {
        if wanted {
            assert(rest(g->0, opts(), 0) + Seq::<Tok>::empty() =~= rest(g->0, opts(), 0));
            assert(t0.take(t0.len() as int) =~= t0);
            assert(message.fields@ =~= Map::<u32, Value>::empty());
            assert(reached(g->0, message.fields@, 0));
            if count(g->0) > 0 { next_piece(g->0, d0, 0, Seq::empty(), t0); }
        }
    }
//@@ loop 0
        invariant
            t0 == old(self).toks(), d0 == old(message).desc, message.desc == d0, wanted == text_wanted(g, old(message).desc, old(message).fields@, t0),
            wanted ==> 0 <= k <= count(g->0) && reached(g->0, message.fields@, k) && left(g->0, k, Seq::empty(), self.toks()) && (k < count(g->0) ==> self.toks().len() > 0 && (self.toks()[0] is Ident || self.toks()[0] is LeftBracket)),
        ensures wanted ==> k == count(g->0),
//@@ in-loop 0
        proof {
            if wanted {
                if k < count(g->0) { next_piece(g->0, d0, k, Seq::empty(), self.toks()); }
            }
        }
//@@ end-loop 0
        proof {
            if wanted {
                k = k + 1;
                if k < count(g->0) { next_piece(g->0, d0, k, Seq::empty(), self.toks()); }
            }
        }
//@@ end
}
pub open spec fn text_wanted(g: Option<Expect>, d: MessageDescriptor, s: Slots, ts: Seq<Tok>) -> bool {
    g is Some && fits(g->0, d, opts()) && s =~= Map::<u32, Value>::empty() && ts == rest(g->0, opts(), 0)
}
impl<'a> Parser<'a> {
#[verifier::exec_allows_no_decreases_clause]
#[verifier::spinoff_prover]
//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_value
//@@ sig fn parse_value(&mut self, kind: &Kind, Ghost(g): Ghost<Option<Elem>>) -> (r: Result<(Value, Span), ParseErrorKind>)
//@@ subst? String :: from_utf8 ( $x ) ==>> text_of($x)
//@@ subst? Value :: Bytes ( value . into ( ) ) ==>> Value::Bytes(to_bytes(value))
//@@ subst? self . parse_message_value ( & mut message ) ==>> self.parse_message_value(&mut message, Ghost(if wanted { Some(elem_expect(g->0, *kind)) } else { None }))
//@@ spec
    ensures
        r is Ok ==> scalar_ok(r->Ok_0.0, *kind),
        elem_wanted(g, *kind, old(self).toks()) ==> r is Ok && elem_same(g->0, *kind, r->Ok_0.0) && final(self).toks() == old(self).toks().skip(elem_toks(g->0, *kind, opts()).len() as int),
//@@ start
    let ghost t0 = self.toks();
    let ghost wanted = elem_wanted(g, *kind, t0);
    let ghost x = g->0;
    proof {
        if wanted {
            match x {
                Elem::Scalar(v) => { scalar_starts(v, *kind, t0); if v is Message { braced_is(v->Message_0); } },
                Elem::Entry(e) => { entry_is(e, *kind); },
            }
        }
        assert forall|a: DynamicMessage, b: DynamicMessage| #[trigger] same_message(a, b) == (a.desc == b.desc && reached(expect_of(a, opts()), b.fields@, count(expect_of(a, opts())))) by { same_message_is(a, b); }
    }
//@@ end
#[verifier::exec_allows_no_decreases_clause]
//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_repeated_value
//@@ sig fn parse_repeated_value(&mut self, kind: &Kind, Ghost(g): Ghost<Option<Seq<Elem>>>) -> (r: Result<(Value, Span), ParseErrorKind>)
//@@ subst? self . parse_value ( kind ) ==>> self.parse_value(kind, Ghost(if wanted { Some(xs[k]) } else { None }))
//@@ spec
    ensures
        r is Ok ==> all_ok(r->Ok_0.0, *kind),
        elems_wanted(g, *kind, old(self).toks()) ==> r is Ok && r->Ok_0.0 is List && elems_same(g->0, *kind, r->Ok_0.0->List_0@) && final(self).toks() == old(self).toks().skip(elems_toks(g->0, *kind).len() as int),
//@@ start
    let ghost t0 = self.toks();
    let ghost wanted = elems_wanted(g, *kind, t0);
    let ghost xs = g->0;
    let ghost mut k: int = 0;
    let ghost mut used: int = 1;
    proof {
        if wanted {
            let ts = xs.map_values(elem_fn(*kind, opts()));
            let e = seq![Tok::RightBracket];
            assert(elems_toks(xs, *kind) =~= seq![Tok::LeftBracket] + (listed(ts) + e));
            split(t0, seq![Tok::LeftBracket], listed(ts) + e);
            assert(t0[0] is LeftBracket);
            if xs.len() > 0 { assert(ts.skip(0) =~= ts); list_step(xs, 0, *kind, t0.skip(1)); }
            else { assert(listed(ts) + e =~= e); assert(t0.skip(1)[0] == e[0]); assert(t0.skip(1).skip(1) =~= t0.skip(2)); assert(elems_toks(xs, *kind).len() == 2); }
        }
    }
//@@ before? loop
                proof {
                    if wanted {
                        let n = elem_toks(xs[0], *kind, opts()).len() as int;
                        assert(t0.skip(1).skip(n) =~= t0.skip(1 + n));
                        used = 1 + n;
                        k = 1;
                    }
                }
//@@ loop 0
        invariant
            t0 == old(self).toks(), wanted == elems_wanted(g, *kind, t0), xs == g->0, forall|i: int| 0 <= i < result@.len() ==> scalar_ok(#[trigger] result@[i], *kind),
            wanted ==> {
                &&& 1 <= k <= xs.len() && result@.len() == k && forall|i: int| 0 <= i < k ==> elem_same(#[trigger] xs[i], *kind, result@[i])
                &&& self.toks() == t0.skip(used) && starts(self.toks(), list_tail(xs, k, *kind) + seq![Tok::RightBracket]) && used >= 1
                &&& used + list_tail(xs, k, *kind).len() + 1 == elems_toks(xs, *kind).len() && elems_toks(xs, *kind).len() <= t0.len()
            },
//@@ in-loop 0
        let ghost t1 = self.toks();
        proof {
            if wanted {
                let e = seq![Tok::RightBracket];
                if k < xs.len() {
                    let ts = xs.map_values(elem_fn(*kind, opts())).skip(k);
                    assert(list_tail(xs, k, *kind) + e =~= seq![Tok::Comma] + (listed(ts) + e));
                    split(t1, seq![Tok::Comma], listed(ts) + e);
                    list_step(xs, k, *kind, t1.skip(1));
                    let n = elem_toks(xs[k], *kind, opts()).len() as int;
                    assert(t0.skip(used).skip(1).skip(n) =~= t0.skip(used + 1 + n));
                } else {
                    assert(list_tail(xs, k, *kind) + e =~= e);
                    starts_at(t1, e);
                    assert(t1[0] == e[0]);
                    assert(t0.skip(used).skip(1) =~= t0.skip(used + 1));
                }
            }
        }
//@@ end-loop 0
        proof { if wanted { used = used + 1 + elem_toks(xs[k], *kind, opts()).len(); k = k + 1; } }
//@@ end
}
/// What follows the first k elements of a list.
pub open spec fn list_tail(xs: Seq<Elem>, k: int, kind: Kind) -> Seq<Tok> {
    if k < xs.len() { seq![Tok::Comma] + listed(xs.map_values(elem_fn(kind, opts())).skip(k)) } else { Seq::empty() }
}
proof fn list_step(xs: Seq<Elem>, k: int, kind: Kind, ts: Seq<Tok>)
    requires elems_rep(xs, kind), 0 <= k < xs.len(), starts(ts, listed(xs.map_values(elem_fn(kind, opts())).skip(k)) + seq![Tok::RightBracket]),
    ensures
        elem_wanted(Some(xs[k]), kind, ts), ts.len() > 0, !(ts[0] is RightBracket || ts[0] is Other),
        starts(ts.skip(elem_toks(xs[k], kind, opts()).len() as int), list_tail(xs, k + 1, kind) + seq![Tok::RightBracket]),
        listed(xs.map_values(elem_fn(kind, opts())).skip(k)).len() == elem_toks(xs[k], kind, opts()).len() + list_tail(xs, k + 1, kind).len(),
        listed(xs.map_values(elem_fn(kind, opts())).skip(k)).len() + 1 <= ts.len(),
{
    let all = xs.map_values(elem_fn(kind, opts()));
    let us = all.skip(k);
    let t = elem_toks(xs[k], kind, opts());
    let e = seq![Tok::RightBracket];
    let m = list_tail(xs, k + 1, kind);
    assert(us[0] == t);
    assert(us.skip(1) =~= all.skip(k + 1));
    if k + 1 < xs.len() { listed_front(us); assert(listed(us) =~= t + m); } else { assert(listed(us) =~= t + m); }
    assert(listed(us) + e =~= t + (m + e));
    split(ts, t, m + e);
    assert((m + e)[0] is Comma || (m + e)[0] is RightBracket);
    assert(elem_rep(xs[k], kind, opts()));
    elem_starts(xs[k], kind, ts);
}
proof fn elem_starts(x: Elem, k: Kind, ts: Seq<Tok>)
    requires elem_wanted(Some(x), k, ts),
    ensures ts.len() > 0, !(ts[0] is RightBracket || ts[0] is Other), elem_toks(x, k, opts()).len() > 0,
{
    let p = elem_toks(x, k, opts());
    match x {
        Elem::Scalar(v) => {
            scalar_starts(v, k, ts);
            match v {
                Value::F32(f) => real_parts(ts, f),
                Value::F64(f) => real_parts(ts, f),
                Value::Bool(b) => words(),
                Value::Message(m) => { starts_at(ts, p); assert(p[0] is LeftBrace); assert(ts[0] == p[0]); },
                Value::I32(i) => int_starts(ts, i as int), Value::I64(i) => int_starts(ts, i as int), Value::U32(i) => int_starts(ts, i as int), Value::U64(i) => int_starts(ts, i as int),
                Value::EnumNumber(n) => { if k->Enum_0.s_value(n) is None { int_starts(ts, n as int); } },
                _ => {},
            }
        },
        Elem::Entry(e) => { starts_at(ts, p); assert(p[0] is LeftBrace); assert(ts[0] == p[0]); },
    }
}
//@@ item prost-reflect/src/descriptor/mod.rs const MAP_ENTRY_KEY_NUMBER
//@@ item prost-reflect/src/descriptor/mod.rs const MAP_ENTRY_VALUE_NUMBER
pub open spec fn entry_wanted(g: Option<(MapKey, Value)>, k: Kind, v: Value) -> bool { g is Some && elem_rep(Elem::Entry(g->0), k, opts()) && elem_same(Elem::Entry(g->0), k, v) }
//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_field_value::unpack
//@@ sig fn unpack(value: Value, Ghost(k): Ghost<Kind>, Ghost(g): Ghost<Option<(MapKey, Value)>>) -> (r: Result<(MapKey, Value), ParseErrorKind>)
//@@ spec
    requires scalar_ok(value, k), entry_kind(k),
    ensures entry_wanted(g, k, value) ==> r is Ok && gk(r->Ok_0.0) == gk((g->0).0) && same_scalar((g->0).1, r->Ok_0.1),
//@@ start
    proof {
        if entry_wanted(g, k, value) {
            let ms = entry_members(g->0, k);
            assert(vd_number(ms[0]) == 1 && vd_number(ms[1]) == 2);
            assert(same_scalar(vd_value(ms[0]), value->Message_0.fields@[1]));
            assert(same_value(vd_value(ms[1]), value->Message_0.fields@[2]));
            assert(vd_value(ms[0]) == key_value((g->0).0));
        }
    }
//@@ end
/// The first k entries are in the map, and nothing else.
pub open spec fn gathered(es: Seq<(MapKey, Value)>, k: int, m: Map<GKey, Value>) -> bool {
    &&& forall|i: int| 0 <= i < k ==> m.contains_key(gk((#[trigger] es[i]).0)) && same_scalar(es[i].1, m[gk(es[i].0)])
    &&& forall|x: GKey| #[trigger] m.contains_key(x) ==> exists|i: int| 0 <= i < k && gk((#[trigger] es[i]).0) == x
}
proof fn gather(es: Seq<(MapKey, Value)>, k: int, m: Map<GKey, Value>, key: MapKey, v: Value)
    requires
        0 <= k < es.len(), gathered(es, k, m), gk(key) == gk(es[k].0), same_scalar(es[k].1, v),
        forall|i: int, j: int| 0 <= i < j < es.len() ==> gk((#[trigger] es[i]).0) != gk((#[trigger] es[j]).0),
    ensures gathered(es, k + 1, m.insert(gk(key), v)),
{
    let r = m.insert(gk(key), v);
    assert forall|i: int| 0 <= i < k + 1 implies r.contains_key(gk((#[trigger] es[i]).0)) && same_scalar(es[i].1, r[gk(es[i].0)]) by {
        if i < k { assert(gk(es[i].0) != gk(es[k].0)); }
    }
    assert forall|x: GKey| #[trigger] r.contains_key(x) implies exists|i: int| 0 <= i < k + 1 && gk((#[trigger] es[i]).0) == x by {
        if x == gk(key) { assert(gk(es[k].0) == x); } else { let i = choose|i: int| 0 <= i < k && gk((#[trigger] es[i]).0) == x; assert(gk(es[i].0) == x); }
    }
}
proof fn gathered_all(a: HashMap<MapKey, Value>, m: Map<GKey, Value>)
    requires gathered(entries(a), entries(a).len() as int, m),
    ensures same_map(contents(a), m),
{
    broadcast use entries_contents;
    let es = entries(a);
    assert forall|x: GKey| #[trigger] contents(a).contains_key(x) <==> m.contains_key(x) by {
        if contents(a).contains_key(x) { let i = choose|i: int| 0 <= i < es.len() && gk((#[trigger] es[i]).0) == x; assert(gk(es[i].0) == x); }
        if m.contains_key(x) { let i = choose|i: int| 0 <= i < es.len() && gk((#[trigger] es[i]).0) == x; assert(gk(es[i].0) == x); }
    }
    assert forall|x: GKey| #[trigger] contents(a).contains_key(x) implies same_scalar(contents(a)[x], m[x]) by {
        let i = choose|i: int| 0 <= i < es.len() && gk((#[trigger] es[i]).0) == x; assert(gk(es[i].0) == x);
    }
}
/// The elements of a list or map.
pub open spec fn elems_of(v: Value) -> Seq<Elem> {
    match v { Value::List(vs) => vs@.map_values(|v: Value| Elem::Scalar(v)), Value::Map(m) => entries(m).map_values(|e: (MapKey, Value)| Elem::Entry(e)), _ => Seq::empty() }
}
proof fn elems_are<D: FieldDescriptorLike + ?Sized>(v: Value, d: &D)
    requires rep(v, d, opts()), d.s_list() || d.s_map(), field_ok(d),
    ensures value_toks(v, Some(d.s_kind()), opts()) == elems_toks(elems_of(v), d.s_kind()), elems_rep(elems_of(v), d.s_kind()),
{
    let xs = elems_of(v);
    let k = d.s_kind();
    let o = opts();
    if d.s_list() { assert(list_toks(v->List_0@, Some(k), o) =~= xs.map_values(elem_fn(k, o))); }
    else { assert(map_toks(entries(v->Map_0), k->Message_0.value_field().s_kind(), o) =~= xs.map_values(elem_fn(k, o))); }
    assert forall|i: int| 0 <= i < xs.len() implies elem_rep(#[trigger] xs[i], k, o) by {
        if d.s_list() { assert(scalar_rep(v->List_0@[i], k, o)); } else { assert(elem_rep(Elem::Entry(entries(v->Map_0)[i]), k, o)); }
    }
}
proof fn lists_same(v: Value, k: Kind, ws: Seq<Value>, old: Seq<Value>)
    requires v is List, elems_same(elems_of(v), k, ws), old.len() == 0,
    ensures same_list(v->List_0@, old + ws),
{
    assert(old + ws =~= ws);
    assert forall|i: int| 0 <= i < v->List_0@.len() implies same_scalar(#[trigger] v->List_0@[i], ws[i]) by { assert(elems_of(v)[i] == Elem::Scalar(v->List_0@[i])); }
}
impl<'a> Parser<'a> {
#[verifier::exec_allows_no_decreases_clause]
#[verifier::spinoff_prover]
#[verifier::loop_isolation(false)]
//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_field_value
//@@ drop-items
//@@ sig fn parse_field_value<D: FieldDescriptorLike>(&mut self, message: &mut DynamicMessage, field: &D, Ghost(g): Ghost<Option<Value>>) -> (r: Result<(), ParseErrorKind>)
//@@ subst? self . parse_repeated_value ( $k ) ==>> self.parse_repeated_value($k, Ghost(if wanted { Some(elems_of(g->0)) } else { None }))
//@@ subst? self . parse_value ( $k ) ==>> self.parse_value($k, Ghost(if wanted { Some(Elem::Scalar(g->0)) } else { None }))
//@@ subst? unpack ( $v ) ==>> unpack($v, Ghost(field.s_kind()), Ghost(if wanted { Some(es[n]) } else { None }))
//@@ subst? result . extend ( $v ) ==>> { proof { if wanted { lists_same(g->0, field.s_kind(), $v@, result@); } } extend_all(result, $v) }
//@@ subst? result . insert ( $k , $v ) ==>> map_insert(result, $k, $v)
//@@ subst? for value in values { ==>> let mut it__ = drained(values); proof { if wanted { assert(contents(*result) =~= Map::empty()); assert forall|j: int| 0 <= j < it__.items().len() implies elem_same(Elem::Entry(es[n + j]), field.s_kind(), #[trigger] it__.items()[j]) by { assert(elems_of(g->0)[j] == Elem::Entry(es[j])); } } } while let Some(value) = it__.next() {
//@@ subst? for oneof_field in oneof . fields ( ) { ==>> let mut it__ = drained(oneof.fields()); while let Some(oneof_field) = it__.next() {
//@@ subst? $e:e . to_owned ( ) ==>> any_string()
//@@ spec
    requires field_ok(field),
    ensures
        final(message).desc == old(message).desc,
        value_wanted(g, field, old(message).fields@, old(self).toks()) ==> r is Ok && same_value(g->0, final(message).fields@[field.s_number()]) && stores(old(message).fields@, field, final(message).fields@[field.s_number()], final(message).fields@)
            && final(self).toks() == old(self).toks().skip(value_toks(g->0, Some(field.s_kind()), opts()).len() as int),
//@@ start
    let ghost t0 = self.toks();
    let ghost s0 = message.fields@;
    let ghost d0 = message.desc;
    let ghost wanted = value_wanted(g, field, s0, t0);
    let ghost es = if wanted && field.s_map() { entries(g->0->Map_0) } else { Seq::empty() };
    let ghost mut n: int = 0;
    proof {
        default_empty(field);
        if wanted && field.s_map() { entries_contents(g->0->Map_0); }
        if wanted && (field.s_list() || field.s_map()) { elems_are(g->0, field); }
    }
//@@ loop 0
        invariant
            entry_kind(field.s_kind()), forall|j: int| 0 <= j < it__.items().len() ==> scalar_ok(#[trigger] it__.items()[j], field.s_kind()),
            wanted ==> {
                &&& 0 <= n && n + it__.items().len() == es.len() && gathered(es, n, contents(*result))
                &&& forall|j: int| 0 <= j < es.len() ==> elem_rep(Elem::Entry(#[trigger] es[j]), field.s_kind(), opts())
                &&& forall|j: int| 0 <= j < it__.items().len() ==> elem_same(Elem::Entry(es[n + j]), field.s_kind(), #[trigger] it__.items()[j])
                &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> gk((#[trigger] es[i]).0) != gk((#[trigger] es[j]).0)
            },

//@@ after-loop 0
                proof { if wanted { gathered_all(g->0->Map_0, contents(*result)); } }
//@@ in-loop 0
                    let ghost m1 = contents(*result);
                    proof { if wanted { assert(elem_rep(Elem::Entry(es[n]), field.s_kind(), opts())); } }
//@@ end-loop 0
                    proof { if wanted { gather(es, n, m1, key, value); n = n + 1; } }
//@@ loop 1
        invariant
            wanted ==> message.fields@ == s0 && forall|j: int| 0 <= j < it__.items().len() ==> !present(s0, &(#[trigger] it__.items()[j])),
            message.desc == d0, message.fields@ == s0,
//@@ end
}
proof fn stored<'a, D: FieldDescriptorLike + ?Sized>(s: Slots, d: &D, v: Value, w: Value, r: Slots, ms: Seq<ValueAndDescriptor<'a>>, k: int)
    requires
        0 <= k < ms.len(), holds(s, ms, k), !s.contains_key(d.s_number()), stores(s, d, w, r), same_value(v, w),
        vd_number(ms[k]) == d.s_number(), vd_value(ms[k]) == v, forall|x: u32| #[trigger] s.contains_key(x) ==> !sibling(d, x),
    ensures holds(r, ms, k + 1),
{
    hide(same_value);
    assert forall|i: int| 0 <= i < k + 1 implies r.contains_key(vd_number(#[trigger] ms[i])) && same_value(vd_value(ms[i]), r[vd_number(ms[i])]) by {
        if i < k { let n = vd_number(ms[i]); assert(s.contains_key(n)); assert(n != d.s_number()); assert(!sibling(d, n)); assert(r.contains_key(n)); assert(r[n] == s[n]); }
        else { assert(i == k); assert(r.contains_key(d.s_number())); }
    }
    assert forall|n: u32| #[trigger] r.contains_key(n) implies exists|i: int| 0 <= i < k + 1 && vd_number(#[trigger] ms[i]) == n by {
        if n == d.s_number() { assert(vd_number(ms[k]) == n); }
        else { assert(s.contains_key(n)); let i = choose|i: int| 0 <= i < k && vd_number(#[trigger] ms[i]) == n; assert(vd_number(ms[i]) == n); }
    }
}
/// The next member is not stored yet, and no other member of its oneof.
proof fn absent<'a>(ms: Seq<ValueAndDescriptor<'a>>, d: MessageDescriptor, s: Slots, k: int)
    requires members_ok(ms, d, opts()), 0 <= k < ms.len(), holds(s, ms, k),
    ensures
        !s.contains_key(vd_number(ms[k])),
        ms[k] is Field ==> forall|x: u32| #[trigger] s.contains_key(x) ==> !sibling(&ms[k]->Field_1, x),
        ms[k] is Extension ==> forall|x: u32| #[trigger] s.contains_key(x) ==> !sibling(&ms[k]->Extension_1, x),
{
    let n = vd_number(ms[k]);
    if s.contains_key(n) { let i = choose|i: int| 0 <= i < k && vd_number(#[trigger] ms[i]) == n; assert(vd_number(ms[i]) != vd_number(ms[k])); }
    if ms[k] is Field {
        assert forall|x: u32| #[trigger] s.contains_key(x) implies !sibling(&ms[k]->Field_1, x) by {
            let i = choose|i: int| 0 <= i < k && vd_number(#[trigger] ms[i]) == x;
            assert(vd_number(ms[i]) != vd_number(ms[k]));
        }
    }
}
pub open spec fn after_name(v: Value, ts: Seq<Tok>) -> Seq<Tok> { if v is Message { ts } else { ts.skip(1) } }
proof fn member_parts<'a>(m: ValueAndDescriptor<'a>, d: MessageDescriptor, ts: Seq<Tok>)
    requires member_rep(m, d, opts()), reads(ts, member_toks(m, opts())),
    ensures ({
        let t1 = ts.skip(name_toks(m).len() as int);
        let v = vd_value(m);
        let p = value_toks(v, Some(vd_kind(m)), opts());
        &&& starts(ts, name_toks(m)) && t1.len() > 0 && (if v is Message { t1[0] is LeftBrace } else { t1[0] is Colon })
        &&& reads(after_name(v, t1), p) && after_name(v, t1).skip(p.len() as int) == ts.skip(member_toks(m, opts()).len() as int)
    }),
{
    let n = name_toks(m); let v = vd_value(m); let c = colon(v); let p = value_toks(v, Some(vd_kind(m)), opts());
    let all = member_toks(m, opts());
    assert(all =~= n + (c + p));
    split(ts, n, c + p);
    let t1 = ts.skip(n.len() as int);
    split(t1, c, p);
    if v is Message {
        assert(t1.skip(0) =~= t1);
        starts_at(t1, p);
        assert(p[0] is LeftBrace);
        assert(t1[0] == p[0]);
    }
    assert(after_name(v, t1) == t1.skip(c.len() as int));
    assert(after_name(v, t1).skip(p.len() as int) =~= ts.skip(all.len() as int));
    if ts.len() > all.len() { assert(after_name(v, t1)[p.len() as int] == ts[all.len() as int]); }
}
proof fn any_parts(url: Seq<char>, body: DynamicMessage, ts: Seq<Tok>)
    requires readable(body, opts()), split_url(url) is Some, domain_ok(split_url(url)->Some_0.0), name_ok(split_url(url)->Some_0.1), reads(ts, piece(Expect::Any(url, body), opts(), 0)),
    ensures ({
        let n = scan(url).len() as int + 2;
        let p = braced(expect_of(body, opts()));
        &&& field_name_at(ts) == Some((FieldNameIs::Any(split_url(url)->Some_0.0, split_url(url)->Some_0.1), n)) && fits(expect_of(body, opts()), body.desc, opts())
        &&& ts.skip(n).len() > 0 && ts.skip(n)[0] is LeftBrace && starts(ts.skip(n), p) && ts.skip(n).skip(p.len() as int) == ts.skip(piece(Expect::Any(url, body), opts(), 0).len() as int)
    }),
{
    braced_is(body);
    let a = seq![Tok::LeftBracket] + scan(url) + seq![Tok::RightBracket];
    let p = braced(expect_of(body, opts()));
    assert(piece(Expect::Any(url, body), opts(), 0) =~= a + p);
    split(ts, a, p);
    any_named(url, ts);
    assert(p[0] is LeftBrace);
    assert(ts.skip(a.len() as int)[0] == p[0]);
}
#[verifier::external_body]
fn join_url(a: &str, b: &str) -> (r: String) ensures r@ == a@ + seq!['/'] + b@ { unimplemented!() }
impl<'a> Parser<'a> {
#[verifier::exec_allows_no_decreases_clause]
#[verifier::spinoff_prover]
//@@ fn prost-reflect/src/dynamic/text_format/parse/mod.rs Parser::parse_field
//@@ sig fn parse_field(&mut self, message: &mut DynamicMessage, Ghost(g): Ghost<Option<(Expect, int)>>) -> (r: Result<(), ParseErrorKind>)
//@@ subst? self . parse_field_value ( message , $f ) ==>> self.parse_field_value(message, $f, Ghost(if wanted { Some(vd_value(ms[k])) } else { None }))
//@@ subst? self . parse_message_value ( & mut value ) ==>> self.parse_message_value(&mut value, Ghost(if wanted { Some(expect_of(body, opts())) } else { None }))
//@@ subst? . ok_or_else ( $x ) ==>> .ok_or(any_error())
//@@ subst? format ! ( "{domain}/{message_name}" ) ==>> join_url(&domain, &message_name)
//@@ subst? message . desc . full_name ( ) == "google.protobuf.Any" ==>> text_is(message.desc.full_name(), "google.protobuf.Any")
//@@ subst? value . into ( ) ==>> to_bytes(value)
//@@ spec
    ensures
        final(message).desc == old(message).desc,
        field_wanted(g, old(message).desc, old(message).fields@, old(self).toks()) ==> r is Ok && reached((g->0).0, final(message).fields@, (g->0).1 + 1)
            && final(self).toks() == after_sep(old(self).toks().skip(piece((g->0).0, opts(), (g->0).1).len() as int)),
//@@ start
    let ghost t0 = self.toks();
    let ghost s0 = message.fields@;
    let ghost d0 = message.desc;
    let ghost wanted = field_wanted(g, d0, s0, t0);
    let ghost x = (g->0).0;
    let ghost k = (g->0).1;
    let ghost ms = x->Members_0;
    let ghost url = x->Any_0;
    let ghost body = x->Any_1;
    proof {
        if wanted {
            match x {
                Expect::Members(ms) => { assert(member_rep(ms[k], d0, opts())); member_parts(ms[k], d0, t0); field_named(ms[k], d0, opts(), t0); absent(ms, d0, s0, k); },
                Expect::Any(url, body) => { any_parts(url, body, t0); split_url_is(url); },
            }
        }
        assert forall|a: DynamicMessage, b: DynamicMessage| #[trigger] same_message(a, b) == (a.desc == b.desc && reached(expect_of(a, opts()), b.fields@, count(expect_of(a, opts())))) by { same_message_is(a, b); }
    }
//@@ before? if matches
        proof {
            if wanted {
                match x {
                    Expect::Members(ms) => {
                        match ms[k] {
                            ValueAndDescriptor::Field(v, f) => stored(s0, &f, vd_value(ms[k]), message.fields@[f.s_number()], message.fields@, ms, k),
                            ValueAndDescriptor::Extension(v, f) => stored(s0, &f, vd_value(ms[k]), message.fields@[f.s_number()], message.fields@, ms, k),
                            _ => {},
                        }
                    },
                    Expect::Any(url, body) => {
                        let s = message.fields@;
                        assert(plain_field(d0, 1, Value::String(arbitrary()))); assert(plain_field(d0, 2, Value::Bytes(arbitrary())));
                        let f1 = d0.s_field(1)->0; let f2 = d0.s_field(2)->0;
                        assert(f1.s_number() == 1 && f2.s_number() == 2 && f1.s_oneof() is None && f2.s_oneof() is None);
                        assert(s.contains_key(f2.s_number())); assert(s.contains_key(f1.s_number()));
                        assert(s.contains_key(1)); assert(s.contains_key(2));
                        assert forall|n: u32| #[trigger] s.contains_key(n) <==> n == 1 || n == 2 by { }
                        assert(s[1] is String && s[1]->String_0@ == url);
                        assert(s[2] is Bytes);
                        assert(exists|b: DynamicMessage| s[2]->Bytes_0@ == #[trigger] encoded(b) && same_message(body, b));
                        assert(holds_any(message.fields@, url, body)); },
                }
                assert(self.toks() == t0.skip(piece(x, opts(), k).len() as int));
            }
        }
//@@ end
}
/// P18: the text of a message, with any options, is accepted, and what is read from it holds what was written of the message and nothing else.
proof fn text_round(m: DynamicMessage)
    requires readable(m, opts()),
    ensures text_wanted(Some(expect_of(m, opts())), m.desc, Map::<u32, Value>::empty(), message_toks(m, opts())),
{
    let o = opts();
    braced_is(m);
    message_text(m, o);
    if !(o.expand_any && any_of(m) is Some) {
        let ms = members::<'static>(m, o);
        rest_is(ms, o, 0);
        assert(ms.map_values(member_fn(o)).skip(0) =~= ms.map_values(member_fn(o)));
    }
}
proof fn text_round_message(m: DynamicMessage, n: DynamicMessage)
    requires readable(m, opts()), n.desc == m.desc, reached(expect_of(m, opts()), n.fields@, count(expect_of(m, opts()))),
    ensures same_message(m, n),
{ same_message_is(m, n); }
pub uninterp spec fn lexed(s: Seq<char>) -> Seq<Tok>;
impl<'a> Parser<'a> {
    /// (as lexed by logos)
    #[verifier::external_body]
    fn new(input: &'a str) -> (r: Parser<'a>) ensures r.toks() == lexed(input@) { unimplemented!() }
}
pub struct ParseError;
impl ParseError {
    #[verifier::external_body]
    fn new(kind: ParseErrorKind, input: &str) -> ParseError { unimplemented!() }
}
impl DynamicMessage {
//@@ fn prost-reflect/src/dynamic/text_format/mod.rs DynamicMessage::merge_text_format
//@@ sig pub fn merge_text_format(&mut self, input: &str, Ghost(g): Ghost<Option<Expect>>) -> (r: Result<(), ParseError>)
//@@ subst? parse :: Parser :: new ==>> Parser::new
//@@ subst? . parse_message ( self ) ==>> .parse_message(self, Ghost(g))
//@@ subst? . map_err ( | kind | $x:e ) ==>> .map_err(|kind| -> (e: ParseError) { $x })
//@@ spec
    ensures
        final(self).desc == old(self).desc,
        text_wanted(g, old(self).desc, old(self).fields@, lexed(input@)) ==> r is Ok && reached(g->0, final(self).fields@, count(g->0)),
//@@ end
//@@ fn prost-reflect/src/dynamic/text_format/mod.rs DynamicMessage::parse_text_format
//@@ sig pub fn parse_text_format(desc: MessageDescriptor, input: &str, Ghost(m): Ghost<DynamicMessage>) -> (r: Result<DynamicMessage, ParseError>)
//@@ subst? . merge_text_format ( input ) ==>> .merge_text_format(input, Ghost(Some(expect_of(m, opts()))))
//@@ spec
    ensures readable(m, opts()) && desc == m.desc && lexed(input@) == message_toks(m, opts()) ==> r is Ok && same_message(m, r->Ok_0),
//@@ start
    proof {
        if readable(m, opts()) { text_round(m); }
        assert forall|b: DynamicMessage| #[trigger] same_message(m, b) == (m.desc == b.desc && reached(expect_of(m, opts()), b.fields@, count(expect_of(m, opts())))) by { same_message_is(m, b); }
    }
//@@ end
}
} // verus!
fn main() {}
