//@@ props P18
//@@ include head.rs
//@@ include text_model.rs
//@@ include prefix.rs
//@@ include type_url.rs

// ---- what is written
pub struct FmtError;
pub type Res = Result<(), FmtError>;
/// The text written so far, by its tokens (assumed: the lexer made by logos splits it at marks and white space,
/// and takes the longest word, number or string in between; what is proved of literals is in units text_int and text_string).
#[verifier::external_body]
pub struct Text { x: u8 }
pub trait Shown { spec fn shown(&self) -> Seq<Tok>; }
impl Shown for bool { open spec fn shown(&self) -> Seq<Tok> { bool_toks(*self) } }
impl Shown for i32 { open spec fn shown(&self) -> Seq<Tok> { int_toks(*self as int) } }
impl Shown for i64 { open spec fn shown(&self) -> Seq<Tok> { int_toks(*self as int) } }
impl Shown for u32 { open spec fn shown(&self) -> Seq<Tok> { int_toks(*self as int) } }
impl Shown for u64 { open spec fn shown(&self) -> Seq<Tok> { int_toks(*self as int) } }
impl Shown for f32 { open spec fn shown(&self) -> Seq<Tok> { self.plain() } }
impl Shown for f64 { open spec fn shown(&self) -> Seq<Tok> { self.plain() } }
impl Text {
    pub uninterp spec fn toks(&self) -> Seq<Tok>;
    /// Nothing is written yet, or a mark or white space last.
    pub uninterp spec fn apart(&self) -> bool;
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: Res)
        requires !word_char(c),
        ensures r is Ok ==> final(self).toks() == old(self).toks() + mark(c) && final(self).apart(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Res)
        requires old(self).apart() || s@.len() > 0 && !word_char(s@[0]),
        ensures r is Ok ==> final(self).toks() == old(self).toks() + scan(s@) && (ends_apart(s@) ==> final(self).apart()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn show<T: Shown>(&mut self, v: &T) -> (r: Res)
        requires old(self).apart(),
        ensures r is Ok ==> final(self).toks() == old(self).toks() + v.shown(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn show_one_place<T: Real>(&mut self, v: &T) -> (r: Res)
        requires old(self).apart(),
        ensures r is Ok ==> final(self).toks() == old(self).toks() + v.one_place(),
    { unimplemented!() }
    /// (fmt_string, shown in unit text_string to write a literal of these bytes)
    #[verifier::external_body]
    pub fn show_string(&mut self, b: &[u8]) -> (r: Res)
        requires old(self).apart(),
        ensures r is Ok ==> final(self).toks() == old(self).toks().push(Tok::Str(b@)),
    { unimplemented!() }
}
/// `{}` of a text
fn write_text(f: &mut Text, s: &str) -> (r: Res)
    requires old(f).apart() || s@.len() > 0 && !word_char(s@[0]),
    ensures r is Ok ==> final(f).toks() == old(f).toks() + scan(s@) && (ends_apart(s@) ==> final(f).apart()),
{ f.write_str(s) }
/// `[{}]` of a text
fn write_bracketed(f: &mut Text, s: &str) -> (r: Res)
    ensures r is Ok ==> final(f).toks() == old(f).toks() + (seq![Tok::LeftBracket] + scan(s@) + seq![Tok::RightBracket]) && final(f).apart(),
{
    f.write_char('[')?;
    f.write_str(s)?;
    f.write_char(']')?;
    proof { assert(old(f).toks() + mark('[') + scan(s@) + mark(']') =~= old(f).toks() + (seq![Tok::LeftBracket] + scan(s@) + seq![Tok::RightBracket])); }
    Ok(())
}
/// `fract() == 0.0`
#[verifier::external_body]
fn integral<T: Real>(v: &T) -> (r: bool) ensures r == v.s_integral() { unimplemented!() }
/// Nesting is less than 2^31 deep.
#[verifier::external_body]
fn deeper(n: u32, by: u32) -> (r: u32) ensures r == n + by { unimplemented!() }
#[verifier::external_body]
fn bytes_of(s: &String) -> (r: &[u8]) ensures r@ == encode_utf8(s@) { unimplemented!() }
#[verifier::external_body]
fn unreached<T>() -> (r: T) requires false { unimplemented!() }

impl<T> Items<T> {
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Items<T>)
        requires forall|x: &T| #[trigger] call_requires(f, (x,)),
        ensures forall|p: spec_fn(T) -> bool| (forall|x: T, b: bool| #[trigger] call_ensures(f, (&x,), b) ==> b == p(x)) ==> r.items() == #[trigger] self.items().filter(p),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|x: T| #[trigger] call_requires(f, (x,)),
        ensures
            r ==> forall|i: int| 0 <= i < old(self).items().len() ==> call_ensures(f, (#[trigger] old(self).items()[i],), true),
            !r ==> exists|i: int| 0 <= i < old(self).items().len() && call_ensures(f, (#[trigger] old(self).items()[i],), false),
    { unimplemented!() }
}
impl DynamicMessage {
    /// `self.fields.iter(&self.desc, all, index_order)`
    #[verifier::external_body]
    pub fn members<'a>(&'a self, all: bool, index_order: bool) -> (r: Items<ValueAndDescriptor<'a>>) ensures r.items() == s_members(*self, all, index_order) { unimplemented!() }
}
/// `values.iter()`
#[verifier::external_body]
fn each<'a>(v: &'a Vec<Value>) -> (r: Items<&'a Value>) ensures r.items() == refs(v@) { unimplemented!() }
pub open spec fn refs<'a>(vs: Seq<Value>) -> Seq<&'a Value> { vs.map_values(|v: Value| &v) }
pub open spec fn entry_refs<'a>(es: Seq<(MapKey, Value)>) -> Seq<(&'a MapKey, &'a Value)> { es.map_values(|e: (MapKey, Value)| (&e.0, &e.1)) }
pub open spec fn element_fn<'a>(k: Option<Kind>, o: FormatOptions) -> spec_fn(&'a Value) -> Seq<Tok> { |v: &'a Value| scalar_toks(*v, k, o) }
pub open spec fn entry_fn<'a>(k: Kind, o: FormatOptions) -> spec_fn((&'a MapKey, &'a Value)) -> Seq<Tok> { |e: (&'a MapKey, &'a Value)| entry_toks((*e.0, *e.1), k, o) }
pub open spec fn unknown_fn<'a>(o: FormatOptions) -> spec_fn(&'a UnknownField) -> Seq<Tok> { |u: &'a UnknownField| unknown_field_toks(*u, o) }
/// `map.iter()`
#[verifier::external_body]
fn each_entry<'a>(m: &'a HashMap<MapKey, Value>) -> (r: Items<(&'a MapKey, &'a Value)>) ensures r.items() == entry_refs(entries(*m)) { unimplemented!() }
impl UnknownFieldSet {
    pub uninterp spec fn s_items<'a>(&'a self) -> Seq<&'a UnknownField>;
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: Items<&'a UnknownField>) ensures r.items() == self.s_items() { unimplemented!() }
}
pub uninterp spec fn unknown_field_toks(u: UnknownField, o: FormatOptions) -> Seq<Tok>;
pub axiom fn unknown_is(u: UnknownFieldSet, o: FormatOptions) ensures unknown_toks(u, o) == delimited(u.s_items().map_values(unknown_fn(o)), o);

// ---- the texts that are written literally
proof fn literals()
    ensures
        scan("]"@) == seq![Tok::RightBracket], scan("{}"@) == seq![Tok::LeftBrace, Tok::RightBrace], scan("{"@) == seq![Tok::LeftBrace],
        scan("key: "@) == seq![Tok::Ident("key"@), Tok::Colon], scan("value"@) == seq![Tok::Ident("value"@)],
        scan("{key:"@) == seq![Tok::LeftBrace, Tok::Ident("key"@), Tok::Colon], scan(",value"@) == seq![Tok::Comma, Tok::Ident("value"@)],
        !word_char("]"@[0]), !word_char("{}"@[0]), !word_char("{"@[0]), !word_char("{key:"@[0]), !word_char(",value"@[0]),
        "]"@.len() > 0, "{}"@.len() > 0, "{"@.len() > 0, "{key:"@.len() > 0, ",value"@.len() > 0,
        ends_apart("]"@), ends_apart("{"@), ends_apart("key: "@), ends_apart("{key:"@),
{
    reveal_strlit("]"); reveal_strlit("{}"); reveal_strlit("{"); reveal_strlit("key: "); reveal_strlit("value"); reveal_strlit("{key:"); reveal_strlit(",value"); reveal_strlit("key");
    reveal_with_fuel(scan, 6); reveal_with_fuel(word_end, 6);
    let v = "value"@;
    let k = "key: "@;
    scan_nothing();
    assert("]"@.skip(1) =~= Seq::empty());
    assert(scan("]"@) =~= seq![Tok::RightBracket]);
    assert("{"@.skip(1) =~= Seq::empty());
    assert(scan("{"@) =~= seq![Tok::LeftBrace]);
    assert("{}"@.skip(1) =~= "}"@) by { reveal_strlit("}"); }
    assert("}"@.skip(1) =~= Seq::empty()) by { reveal_strlit("}"); }
    assert(scan("}"@) =~= seq![Tok::RightBrace]) by { reveal_strlit("}"); }
    assert(scan("{}"@) =~= seq![Tok::LeftBrace, Tok::RightBrace]);
    word_is(v);
    assert(",value"@.skip(1) =~= v);
    assert(scan(",value"@) =~= seq![Tok::Comma, Tok::Ident(v)]);
    reveal_strlit(": "); reveal_strlit(" "); reveal_strlit(":"); reveal_strlit("}");
    word_before("key"@, ": "@);
    assert(k =~= "key"@ + ": "@) by { reveal_strlit(": "); }
    assert(": "@.skip(1) =~= " "@) by { reveal_strlit(": "); reveal_strlit(" "); }
    assert(" "@.skip(1) =~= Seq::empty()) by { reveal_strlit(" "); }
    assert(scan(" "@) =~= Seq::empty()) by { reveal_strlit(" "); }
    assert(scan(": "@) =~= seq![Tok::Colon]) by { reveal_strlit(": "); }
    assert(scan(k) =~= seq![Tok::Ident("key"@), Tok::Colon]);
    let c = ":"@;
    assert("{key:"@.skip(1) =~= "key"@ + c) by { reveal_strlit(":"); }
    word_before("key"@, c);
    assert(c.skip(1) =~= Seq::empty()) by { reveal_strlit(":"); }
    assert(scan(c) =~= seq![Tok::Colon]) by { reveal_strlit(":"); }
    assert(scan("{key:"@) =~= seq![Tok::LeftBrace, Tok::Ident("key"@), Tok::Colon]);
}

// ---- the code
//@@ item-subst Writer < 'a , W > ==>> Writer
//@@ item-subst & 'a mut W ==>> Text
//@@ item prost-reflect/src/dynamic/text_format/format.rs struct Writer
pub open spec fn wrote(a: Writer, b: Writer, t: Seq<Tok>) -> bool { b.f.toks() == a.f.toks() + t && b.options == a.options && b.indent_level == a.indent_level }
pub open spec fn ready(v: Value, k: Option<Kind>, o: FormatOptions) -> bool {
    match k { Some(k) => typed(v, k) && value_writable(v, k, o), None => v is Message && writable(v->Message_0, o) }
}
pub open spec fn opt<T>(k: Option<&T>) -> Option<T> { match k { Some(k) => Some(*k), None => None } }
pub open spec fn member_ready<'a>(m: ValueAndDescriptor<'a>, o: FormatOptions) -> bool { member_typed(m) && (!(m is Unknown) ==> value_writable(vd_value(m), vd_kind(m), o)) }
proof fn delimited_step(ts: Seq<Seq<Tok>>, i: int, o: FormatOptions)
    requires 0 <= i < ts.len(),
    ensures delimited(ts.take(i + 1), o) == (if i == 0 { ts[0] } else { delimited(ts.take(i), o) + separator(o) + ts[i] }),
{
    assert(ts.take(i + 1).drop_last() =~= ts.take(i));
}
proof fn listed_step(ts: Seq<Seq<Tok>>, i: int)
    requires 0 <= i < ts.len(),
    ensures listed(ts.take(i + 1)) == (if i == 0 { ts[0] } else { listed(ts.take(i)) + seq![Tok::Comma] + ts[i] }),
{
    assert(ts.take(i + 1).drop_last() =~= ts.take(i));
}
pub open spec fn nothing() -> Seq<Tok> { Seq::empty() }
impl Writer {
//@@ fn prost-reflect/src/dynamic/text_format/format.rs Writer::fmt_padding
//@@ subst? fmt :: Result ==>> Res
//@@ ret r
//@@ spec
    ensures r is Ok ==> wrote(*old(self), *final(self), nothing()) && (old(self).f.apart() ==> final(self).f.apart()),
//@@ start
    proof { assert(self.f.toks() + nothing() =~= self.f.toks()); }
//@@ end
//@@ fn prost-reflect/src/dynamic/text_format/format.rs Writer::fmt_newline
//@@ subst? fmt :: Result ==>> Res
//@@ ret r
//@@ spec
    ensures r is Ok ==> wrote(*old(self), *final(self), nothing()) && final(self).f.apart(),
//@@ start
    let ghost w0 = *self;
    proof { assert(self.f.toks() + nothing() =~= self.f.toks()); }
//@@ loop 0
        invariant self.f.toks() == w0.f.toks(), self.f.apart(), self.options == w0.options, self.indent_level == w0.indent_level,
//@@ in-loop 0
        proof { assert(self.f.toks() + nothing() =~= self.f.toks()); }
//@@ end
//@@ fn prost-reflect/src/dynamic/text_format/format.rs Writer::fmt_string
//@@ subst? fmt :: Result ==>> Res
//@@ subst? fmt_string ( & mut self . f , bytes ) ==>> self.f.show_string(bytes)
//@@ ret r
//@@ spec
    requires old(self).f.apart(),
    ensures r is Ok ==> wrote(*old(self), *final(self), seq![Tok::Str($p1@)]),
//@@ start
    proof { assert(self.f.toks().push(Tok::Str($p1@)) =~= self.f.toks() + seq![Tok::Str($p1@)]); }
//@@ end
//@@ fn prost-reflect/src/dynamic/text_format/format.rs Writer::fmt_delimited
//@@ sig fn fmt_delimited<T>(&mut self, mut iter: Items<T>, f: impl Fn(&mut Self, T) -> Res, Ghost(t): Ghost<spec_fn(T) -> Seq<Tok>>) -> (r: Res)
//@@ subst? for item in iter { ==>> while let Some(item) = iter.next() {
//@@ spec
    requires
        old(self).f.apart() || iter.items().len() == 0,
        forall|s: &mut Self, i: int| 0 <= i < iter.items().len() && s.f.apart() && s.options == old(self).options ==> #[trigger] call_requires(f, (s, iter.items()[i])),
        forall|s: &mut Self, i: int, r: Res| 0 <= i < iter.items().len() && s.f.apart() && s.options == old(self).options && #[trigger] call_ensures(f, (s, iter.items()[i]), r) && r is Ok ==> wrote(*s, *final(s), t(iter.items()[i])),
    ensures r is Ok ==> wrote(*old(self), *final(self), delimited(iter.items().map_values(t), old(self).options)),
//@@ start
    let ghost w0 = *self;
    let ghost all = iter.items();
    let ghost ts = all.map_values(t);
    let ghost mut k: int = 0;
    proof { assert(ts.take(0) =~= Seq::empty()); assert(w0.f.toks() + nothing() =~= w0.f.toks()); assert(all.skip(0) =~= all); }
//@@ before? if let Some ( first )
    let ghost mut k: int = if all.len() == 0 { 0 } else { 1 };
    proof { if all.len() > 0 { delimited_step(ts, 0, w0.options); assert(ts[0] == t(all[0])); } }
//@@ loop 0
        invariant
            0 <= k <= all.len(), iter.items() == all.skip(k), k > 0 || all.len() == 0, ts == all.map_values(t),
            forall|s: &mut Self, i: int| 0 <= i < all.len() && s.f.apart() && s.options == w0.options ==> #[trigger] call_requires(f, (s, all[i])),
            forall|s: &mut Self, i: int, r: Res| 0 <= i < all.len() && s.f.apart() && s.options == w0.options && #[trigger] call_ensures(f, (s, all[i]), r) && r is Ok ==> wrote(*s, *final(s), t(all[i])),
            wrote(w0, *self, delimited(ts.take(k), w0.options)),
        ensures
            k == all.len(),
        decreases all.len() - k,
//@@ in-loop 0
        let ghost w1 = *self;
        proof {
            assert(item == all[k]); assert(all.skip(k).skip(1) =~= all.skip(k + 1));
            delimited_step(ts, k, w0.options); assert(ts[k] == t(all[k]));
            assert(w1.f.toks() + nothing() =~= w1.f.toks());
            assert(w0.f.toks() + delimited(ts.take(k), w0.options) + separator(w0.options) + ts[k] =~= w0.f.toks() + (delimited(ts.take(k), w0.options) + separator(w0.options) + ts[k]));
            k = k + 1;
        }
//@@ after-loop 0
        proof { assert(ts.take(k) =~= ts); }
//@@ end
//@@ fn prost-reflect/src/dynamic/text_format/format.rs Writer::fmt_list
//@@ sig fn fmt_list<I>(&mut self, mut iter: Items<I>, f: impl Fn(&mut Self, I) -> Res, Ghost(t): Ghost<spec_fn(I) -> Seq<Tok>>) -> (r: Res)
//@@ subst? for item in iter { ==>> while let Some(item) = iter.next() {
//@@ spec
    requires
        forall|s: &mut Self, i: int| 0 <= i < iter.items().len() && s.f.apart() && s.options == old(self).options ==> #[trigger] call_requires(f, (s, iter.items()[i])),
        forall|s: &mut Self, i: int, r: Res| 0 <= i < iter.items().len() && s.f.apart() && s.options == old(self).options && #[trigger] call_ensures(f, (s, iter.items()[i]), r) && r is Ok ==> wrote(*s, *final(s), t(iter.items()[i])),
    ensures r is Ok ==> wrote(*old(self), *final(self), seq![Tok::LeftBracket] + listed(iter.items().map_values(t)) + seq![Tok::RightBracket]) && final(self).f.apart(),
//@@ start
    let ghost w0 = *self;
    let ghost all = iter.items();
    let ghost ts = all.map_values(t);
    proof { assert(ts.take(0) =~= Seq::empty()); assert(all.skip(0) =~= all); }
//@@ before? if let Some ( first )
    let ghost mut k: int = if all.len() == 0 { 0 } else { 1 };
    proof {
        if all.len() > 0 { listed_step(ts, 0); assert(ts[0] == t(all[0])); }
        assert(w0.f.toks() + mark('[') + nothing() =~= w0.f.toks() + mark('['));
    }
//@@ loop 0
        invariant
            0 <= k <= all.len(), iter.items() == all.skip(k), k > 0 || all.len() == 0, ts == all.map_values(t),
            forall|s: &mut Self, i: int| 0 <= i < all.len() && s.f.apart() && s.options == w0.options ==> #[trigger] call_requires(f, (s, all[i])),
            forall|s: &mut Self, i: int, r: Res| 0 <= i < all.len() && s.f.apart() && s.options == w0.options && #[trigger] call_ensures(f, (s, all[i]), r) && r is Ok ==> wrote(*s, *final(s), t(all[i])),
            self.f.toks() == w0.f.toks() + mark('[') + listed(ts.take(k)), self.options == w0.options, self.indent_level == w0.indent_level,
        ensures
            k == all.len(),
        decreases all.len() - k,
//@@ in-loop 0
        let ghost w1 = *self;
        proof {
            assert(item == all[k]); assert(all.skip(k).skip(1) =~= all.skip(k + 1));
            listed_step(ts, k); assert(ts[k] == t(all[k]));
            assert(w1.f.toks() + mark(',') + nothing() =~= w1.f.toks() + mark(','));
            assert(w0.f.toks() + mark('[') + listed(ts.take(k)) + mark(',') + ts[k] =~= w0.f.toks() + mark('[') + (listed(ts.take(k)) + seq![Tok::Comma] + ts[k]));
            k = k + 1;
        }
//@@ after-loop 0
        proof {
            assert(ts.take(k) =~= ts);
            assert(w0.f.toks() + mark('[') + listed(ts) + mark(']') =~= w0.f.toks() + (seq![Tok::LeftBracket] + listed(ts) + seq![Tok::RightBracket]));
        }
//@@ end
//@@ fn prost-reflect/src/dynamic/text_format/format.rs Writer::fmt_map_key
//@@ subst? fmt :: Result ==>> Res
//@@ subst? write ! ( self . f , "{value}" ) ==>> self.f.show(value)
//@@ subst? $s:id . as_bytes ( ) ==>> bytes_of($s)
//@@ ret r
//@@ spec
    requires old(self).f.apart(),
    ensures r is Ok ==> wrote(*old(self), *final(self), key_toks(*$p1)),
//@@ end
#[verifier::exec_allows_no_decreases_clause]
//@@ fn prost-reflect/src/dynamic/text_format/format.rs Writer::fmt_field_value
//@@ subst? fmt :: Result ==>> Res
//@@ ret r
//@@ spec
    requires ready(*$p1, opt($p2), old(self).options),
    ensures r is Ok ==> wrote(*old(self), *final(self), colon(*$p1) + value_toks(*$p1, opt($p2), old(self).options)),
//@@ start
    let ghost w0 = *self;
    proof {
        let v = value_toks(*$p1, opt($p2), w0.options);
        assert(w0.f.toks() + nothing() =~= w0.f.toks());
        assert(w0.f.toks() + mark(':') + nothing() =~= w0.f.toks() + mark(':'));
        assert(w0.f.toks() + mark(':') + v =~= w0.f.toks() + (seq![Tok::Colon] + v));
        assert(nothing() + v =~= v);
    }
//@@ end
#[verifier::exec_allows_no_decreases_clause]
//@@ fn prost-reflect/src/dynamic/text_format/format.rs Writer::fmt_value
//@@ subst? fmt :: Result ==>> Res
//@@ subst? write ! ( self . f , "{value}" ) ==>> self.f.show(value)
//@@ subst? write ! ( self . f , "{value:.1}" ) ==>> self.f.show_one_place(value)
//@@ subst? $v:id . fract ( ) == 0.0 ==>> integral($v)
//@@ subst? $s:id . as_bytes ( ) ==>> bytes_of($s)
//@@ subst? message . fields . iter ( & message . desc , $a , $b ) ==>> message.members($a, $b)
//@@ subst? self . options . skip_unknown_fields && matches ! ( f , $x ) ==>> skip__ && matches!(f, $x)
//@@ subst? fields . all ( | f | $b:b ) ==>> fields.all(|f: ValueAndDescriptor| -> (o: bool) ensures o == (skip__ && f is Unknown) $b)
//@@ subst? self . indent_level += $n ; ==>> self.indent_level = deeper(self.indent_level, $n);
//@@ subst? this . indent_level += $n ; ==>> this.indent_level = deeper(this.indent_level, $n);
//@@ subst? . and_then ( | k | $b:e ) ==>> .and_then(|k: &Kind| -> (o: Option<&MessageDescriptor>) ensures *k is Message ==> o == Some(&k->Message_0) { $b })
//@@ subst? . map ( | m | $b:e ) ==>> .map(|m: &MessageDescriptor| -> (o: Kind) requires m.s_entry() ensures o == m.value_field().s_kind() { $b })
//@@ subst? list . iter ( ) , | this , value | $b:e ) ==>> each(list), |this: &mut Writer, value: &Value| -> (r__: Res) requires this.f.apart(), this.options == o0, ready(*value, k0, o0), !(*value is List || *value is Map) ensures r__ is Ok ==> wrote(*old(this), *final(this), scalar_toks(*value, k0, o0)) { $b }, Ghost(element_fn(k0, o0)))
//@@ subst? map . iter ( ) , | this , ( key , value ) | $b:b ) ==>> each_entry(map), |this: &mut Writer, e__: (&MapKey, &Value)| -> (r__: Res) requires this.f.apart(), this.options == o0, k1 == k0->Some_0->Message_0.value_field().s_kind(), value_kind == Some(k1), ready(*e__.1, Some(k1), o0), !(*e__.1 is List || *e__.1 is Map) ensures r__ is Ok ==> wrote(*old(this), *final(this), entry_toks((*e__.0, *e__.1), k1, o0)) { let (key, value) = e__; proof { literals(); entry_text(this.f.toks(), *key, *value, k1, o0); } $b }, Ghost(entry_fn(k1, o0)))
//@@ ret r
//@@ spec
    requires ready(*$p1, opt($p2), old(self).options), old(self).f.apart() || *$p1 is Message,
    ensures r is Ok ==> wrote(*old(self), *final(self), value_toks(*$p1, opt($p2), old(self).options)),
//@@ start
    let ghost w0 = *self;
    let ghost o0 = self.options;
    let ghost v0 = *$p1;
    let ghost k0 = opt(kind);
    let ghost k1 = k0->Some_0->Message_0.value_field().s_kind();
    let skip__ = self.options.skip_unknown_fields;
    proof {
        literals();
        let t = self.f.toks();
        match v0 {
            Value::List(vs) => {
                assert(refs(vs@).map_values(element_fn(k0, o0)) =~= list_toks(vs@, k0, o0));
                assert forall|i: int| 0 <= i < refs(vs@).len() implies ready(*#[trigger] refs(vs@)[i], k0, o0) && !(*refs(vs@)[i] is List || *refs(vs@)[i] is Map) by { assert(scalar_ok(vs@[i], k0->Some_0)); assert(scalar_writable(vs@[i], k0->Some_0, o0)); }
            },
            Value::Map(m) => {
                let es = entries(m);
                assert(entry_refs(es).map_values(entry_fn(k1, o0)) =~= map_toks(es, k1, o0));
                assert forall|i: int| 0 <= i < es.len() implies ready(*(#[trigger] entry_refs(es)[i]).1, Some(k1), o0) && !(*entry_refs(es)[i].1 is List || *entry_refs(es)[i].1 is Map) by { assert(key_ok(es[i].0, k0->Some_0->Message_0.key_field().s_kind())); assert(scalar_writable(es[i].1, k1, o0)); }
            },
            Value::Message(m) => {
                message_text(m, o0); writable_is(m, o0);
                let b = message_toks(m, o0);
                let ms = s_members(m, !o0.skip_default_fields, o0.print_message_fields_in_index_order);
                assert(t + mark('{') + nothing() + b + nothing() + mark('}') =~= t + (seq![Tok::LeftBrace] + b + seq![Tok::RightBrace]));
                assert(t + mark('{') + b + mark('}') =~= t + (seq![Tok::LeftBrace] + b + seq![Tok::RightBrace]));
                known_fields(ms);
            },
            _ => {},
        }
    }
//@@ end
#[verifier::exec_allows_no_decreases_clause]
//@@ fn prost-reflect/src/dynamic/text_format/format.rs Writer::fmt_message_field
//@@ subst? fmt :: Result ==>> Res
//@@ subst? write ! ( self . f , "{}" , $x:e ) ==>> write_text(&mut self.f, $x)
//@@ subst? write ! ( self . f , "[{}]" , $x:e ) ==>> write_bracketed(&mut self.f, $x)
//@@ subst? & value , ==>> value.get(),
//@@ subst? values . iter ( ) , Writer :: fmt_unknown_field ==>> values.iter(), |s__: &mut Writer, x__: &UnknownField| -> (r__: Res) ensures r__ is Ok ==> wrote(*old(s__), *final(s__), unknown_field_toks(*x__, old(s__).options)) { s__.fmt_unknown_field(x__) }, Ghost(unknown_fn(o0))
//@@ ret r
//@@ spec
    requires member_ready($p1, old(self).options), old(self).f.apart(),
    ensures r is Ok ==> wrote(*old(self), *final(self), member_toks($p1, old(self).options)),
//@@ start
    let ghost o0 = self.options;
    let ghost m = $p1;
    proof {
        let t = self.f.toks();
        match m {
            ValueAndDescriptor::Unknown(u) => { unknown_is(*u, o0); },
            _ => { let v = colon(vd_value(m)) + value_toks(vd_value(m), Some(vd_kind(m)), o0); assert(t + name_toks(m) + v =~= t + (name_toks(m) + colon(vd_value(m)) + value_toks(vd_value(m), Some(vd_kind(m)), o0))); },
        }
    }
//@@ end
#[verifier::exec_allows_no_decreases_clause]
//@@ fn prost-reflect/src/dynamic/text_format/format.rs Writer::fmt_message
//@@ subst? fmt :: Result ==>> Res
//@@ subst? message . fields . iter ( & message . desc , $a , $b ) ==>> message.members($a, $b)
//@@ subst? , Writer :: fmt_message_field ==>> , |s__: &mut Writer, x__: ValueAndDescriptor| -> (r__: Res) requires s__.f.apart(), s__.options == o0, member_ready(x__, o0) ensures r__ is Ok ==> wrote(*old(s__), *final(s__), member_toks(x__, o0)) { s__.fmt_message_field(x__) }, Ghost(member_fn(o0))
//@@ subst? | f | ! matches ! ( f , $x ) ==>> |f: &ValueAndDescriptor| -> (o: bool) ensures o == !(*f is Unknown) { !matches!(f, $x) }
//@@ ret r
//@@ spec
    requires writable(*message, old(self).options), old(self).f.apart(),
    ensures r is Ok ==> wrote(*old(self), *final(self), message_toks(*message, old(self).options)),
//@@ start
    let ghost o0 = self.options;
    proof {
        message_text(*message, o0); writable_is(*message, o0); literals();
        if any_of(*message) is Some {
            let (u, b) = any_of(*message)->Some_0;
            let t = self.f.toks();
            let v = value_toks(Value::Message(b), None, o0);
            assert(t + mark('[') + scan(u) + scan("]"@) + (Seq::empty() + v) =~= t + (seq![Tok::LeftBracket] + scan(u) + seq![Tok::RightBracket] + v));
        }
    }
//@@ end
/// not part of P18: unknown fields are left out of the round trip
#[verifier::external_body]
fn fmt_unknown_field(&mut self, field: &UnknownField) -> (r: Res)
    ensures r is Ok ==> wrote(*old(self), *final(self), unknown_field_toks(*field, old(self).options)),
{ unimplemented!() }
}
/// Nothing is left of the fields exactly if all are unknown.
proof fn known_fields<'a>(ms: Seq<ValueAndDescriptor<'a>>)
    ensures
        ({ let p = |v: ValueAndDescriptor| !(v is Unknown);
        &&& (forall|i: int| 0 <= i < ms.len() ==> #[trigger] ms[i] is Unknown) ==> ms.filter(p).len() == 0
        &&& ms.filter(p).len() == 0 ==> forall|i: int| 0 <= i < ms.len() ==> #[trigger] ms[i] is Unknown }),
{
    let p = |v: ValueAndDescriptor| !(v is Unknown);
    if ms.filter(p).len() == 0 {
        assert forall|i: int| 0 <= i < ms.len() implies #[trigger] ms[i] is Unknown by {
            broadcast use vstd::seq_lib::group_seq_properties;
            broadcast use vstd::seq_lib::group_filter_ensures;
            assert(ms.filter(p).len() <= ms.len());
            if !(ms[i] is Unknown) { assert(p(ms[i])); assert(ms.contains(ms[i])); assert(ms.filter(p).contains(ms[i])); }
        }
    }
    if forall|i: int| 0 <= i < ms.len() ==> #[trigger] ms[i] is Unknown {
        broadcast use vstd::seq_lib::group_filter_ensures;
        assert(ms.filter(p).len() <= ms.len());
        if ms.filter(p).len() > 0 {
            let x = ms.filter(p)[0];
            assert(p(x));
            assert(ms.filter(p).contains(x));
            lemma_filter_in(ms, x);
        }
    }
}
proof fn lemma_filter_in<'a>(ms: Seq<ValueAndDescriptor<'a>>, x: ValueAndDescriptor<'a>)
    requires ({ let p = |v: ValueAndDescriptor| !(v is Unknown); ms.filter(p).contains(x) }),
    ensures ms.contains(x),
    decreases ms.len(),
{
    let p = |v: ValueAndDescriptor| !(v is Unknown);
    reveal(Seq::filter);
    if ms.len() > 0 {
        if ms.drop_last().filter(p).contains(x) { lemma_filter_in(ms.drop_last(), x); let i = ms.drop_last().index_of(x); assert(ms[i] == x); }
        else {
            let f = ms.filter(p); let g = ms.drop_last().filter(p);
            let i = f.index_of(x);
            if i < g.len() { assert(g[i] == x); }
            assert(ms.last() == x); assert(ms[ms.len() - 1] == x);
        }
    }
}
/// One entry of a map is written as a message of its key and value.
#[verifier::spinoff_prover]
#[verifier::rlimit(100)]
proof fn entry_text(t: Seq<Tok>, k: MapKey, v: Value, kind: Kind, o: FormatOptions)
    requires !(v is List || v is Map),
    ensures ({
        let vt = colon(v) + value_toks(v, Some(kind), o);
        &&& o.pretty ==> t + scan("{"@) + nothing() + scan("key: "@) + key_toks(k) + nothing() + scan("value"@) + vt + nothing() + mark('}') == t + entry_toks((k, v), kind, o)
        &&& !o.pretty ==> t + scan("{key:"@) + key_toks(k) + scan(",value"@) + vt + mark('}') == t + entry_toks((k, v), kind, o)
    }),
{
    literals();
    let vt = colon(v) + value_toks(v, Some(kind), o);
    if o.pretty { assert(t + scan("{"@) + nothing() + scan("key: "@) + key_toks(k) + nothing() + scan("value"@) + vt + nothing() + mark('}') =~= t + entry_toks((k, v), kind, o)); }
    else { assert(t + scan("{key:"@) + key_toks(k) + scan(",value"@) + vt + mark('}') =~= t + entry_toks((k, v), kind, o)); }
}
// ---- Any, written expanded
/// `message.transcode_to::<prost_types::Any>()`
pub struct AnyContent { pub type_url: String, pub value: Vec<u8> }
pub struct DecodeError;
#[verifier::external_body]
fn any_content(m: &DynamicMessage) -> (r: Result<AnyContent, DecodeError>)
    ensures match r { Ok(a) => s_any(*m) == Some((a.type_url@, a.value@)), Err(_) => s_any(*m) is None },
{ unimplemented!() }
/// `DynamicMessage::decode`
#[verifier::external_body]
fn decoded(d: MessageDescriptor, b: &[u8]) -> (r: Result<DynamicMessage, DecodeError>)
    ensures match r { Ok(m) => s_decoded(d, b@) == Some(m), Err(_) => s_decoded(d, b@) is None },
{ unimplemented!() }
/// `len()` of a text, in bytes
#[verifier::external_body]
fn text_len(s: &str) -> (r: usize) ensures r == encode_utf8(s@).len() { unimplemented!() }
/// `s.split('.')`
#[verifier::external_body]
fn split_at_dots<'a>(s: &'a str) -> (r: Items<&'a str>) ensures r.items().len() == pieces(s@).len(), forall|i: int| #![trigger r.items()[i]] #![trigger pieces(s@)[i]] 0 <= i < r.items().len() ==> r.items()[i]@ == pieces(s@)[i] { unimplemented!() }
#[verifier::external_body]
fn text_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
fn no_text(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
/// `starts_with` and `chars().all` of core, for a condition on a character
#[verifier::external_body]
fn starts_with<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| #[trigger] call_requires(f, (c,)),
    ensures s@.len() == 0 ==> !r, s@.len() > 0 ==> call_ensures(f, (s@[0],), r),
{ unimplemented!() }
#[verifier::external_body]
fn all_chars<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| #[trigger] call_requires(f, (c,)),
    ensures
        r ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (#[trigger] s@[i],), true),
        !r ==> exists|i: int| 0 <= i < s@.len() && call_ensures(f, (#[trigger] s@[i],), false),
{ unimplemented!() }
#[verifier::external_body]
fn ascii_digit(c: char) -> (r: bool) ensures r == ('0' <= c <= '9') { unimplemented!() }
#[verifier::external_body]
fn ascii_alphanumeric(c: char) -> (r: bool) ensures r == ('0' <= c <= '9' || 'a' <= c <= 'z' || 'A' <= c <= 'Z') { unimplemented!() }
//@@ fn prost-reflect/src/dynamic/text_format/format.rs is_identifier
//@@ subst? s . is_empty ( ) ==>> no_text(s)
//@@ subst? s . starts_with ( | ch : char | $b:e ) ==>> starts_with(s, |ch: char| -> (o: bool) ensures o == ('0' <= ch <= '9') { $b })
//@@ subst? s . chars ( ) . all ( | ch | $b ) ==>> all_chars(s, |ch: char| -> (o: bool) ensures o == word_char(ch) { $b })
//@@ subst? $c:id . is_ascii_digit ( ) ==>> ascii_digit($c)
//@@ subst? $c:id . is_ascii_alphanumeric ( ) ==>> ascii_alphanumeric($c)
//@@ ret r
//@@ spec
    ensures r == ident($p0@),
//@@ end
//@@ fn prost-reflect/src/dynamic/text_format/format.rs as_any
//@@ subst? message . desc . full_name ( ) != $s ==>> !text_eq(message.desc.full_name(), $s)
//@@ subst? message . transcode_to :: < prost_types :: Any > ( ) ==>> any_content(message)
//@@ subst? DynamicMessage :: decode ( ==>> decoded(
//@@ subst? $a:id . type_url . len ( ) ==>> text_len($a.type_url.as_str())
//@@ subst? message_name . len ( ) ==>> text_len(message_name)
//@@ subst? get_type_url_message_name ( & $a:id . type_url ) ==>> get_type_url_message_name($a.type_url.as_str())
//@@ subst? & any . type_url [ .. $n ] ==>> prefix(any.type_url.as_str(), $n)
//@@ subst? $d:id . split ( '.' ) ==>> split_at_dots($d)
//@@ ret r
//@@ spec
    ensures match r { Some((u, b)) => any_of(*$p0) == Some((u@, b)), None => any_of(*$p0) is None },
//@@ before? let domain
    proof { url_lengths(any.type_url@); }
//@@ before? let desc
    proof { assert(domain@ == split_url(any.type_url@)->Some_0.0); assert(domain_ok(domain@)); }
//@@ before? let body
    proof { assert(s_any(*message) == Some((any.type_url@, any.value@))); }
//@@ end
proof fn url_lengths(u: Seq<char>)
    ensures split_url(u) is Some ==> ({
        let (d, n) = split_url(u)->Some_0;
        &&& encode_utf8(u).len() == encode_utf8(d).len() + 1 + encode_utf8(n).len()
        &&& is_prefix_bytes(u, encode_utf8(d).len() as int, d)
    }),
{
    if split_url(u) is Some {
        let (d, n) = split_url(u)->Some_0;
        split_url_is(u);
        encode_utf8_concat(d + seq!['/'], n);
        encode_utf8_concat(d, seq!['/']);
        reveal_with_fuel(encode_utf8, 2);
        assert(has_width_1_encoding('/' as u32));
        assert(encode_utf8(seq!['/']).len() == 1);
    }
}
/// Some text: the texts inside errors are not specified.
#[verifier::external_body]
fn any_string() -> String { unimplemented!() }
/// `s.rsplit_once('/')`
#[verifier::external_body]
fn rsplit_at_slash<'a>(s: &'a str) -> (r: Option<(&'a str, &'a str)>)
    ensures match r { Some((d, n)) => split_url(s@) == Some((d@, n@)), None => split_url(s@) is None },
{ unimplemented!() }
//@@ fn prost-reflect/src/dynamic/mod.rs get_type_url_message_name
//@@ subst? $t:id . rsplit_once ( '/' ) ==>> rsplit_at_slash($t)
//@@ subst? . ok_or_else ( | | $x ) ==>> .ok_or(any_string())
//@@ ret r
//@@ spec
    ensures match r { Ok(n) => split_url($p0@) is Some && split_url($p0@)->Some_0.1 == n@, Err(_) => split_url($p0@) is None },
//@@ end
} // verus!
fn main() {}
