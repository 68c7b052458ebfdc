//@@ props P14 P13
//@@ include head.rs
use vstd::string::*;
//@@ include chars.rs
//@@ include camel.rs
//@@ include json.rs

// ---- splitting at a character and joining
pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![Seq::empty()] } else {
        let p = split(s.drop_last(), c);
        if s.last() == c { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
pub open spec fn join(ps: Seq<Seq<char>>, c: char) -> Seq<char>
    decreases ps.len()
{
    if ps.len() == 0 { Seq::empty() } else if ps.len() == 1 { ps[0] } else { join(ps.drop_last(), c).push(c) + ps.last() }
}
pub open spec fn without(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
proof fn split_some(s: Seq<char>, c: char)
    ensures split(s, c).len() > 0, forall|i: int| 0 <= i < split(s, c).len() ==> without(#[trigger] split(s, c)[i], c),
    decreases s.len(),
{
    if s.len() > 0 { split_some(s.drop_last(), c); let p = split(s.drop_last(), c); assert(without(p[p.len() - 1], c)); }
}
proof fn split_at_end(a: Seq<char>, t: Seq<char>, c: char)
    requires without(t, c),
    ensures split(a.push(c) + t, c) == split(a, c).push(t),
    decreases t.len(),
{
    let s = a.push(c) + t;
    if t.len() == 0 {
        assert(s =~= a.push(c)); assert(s.drop_last() =~= a); assert(t =~= Seq::empty());
    } else {
        assert(s.drop_last() =~= a.push(c) + t.drop_last());
        assert(forall|i: int| 0 <= i < t.drop_last().len() ==> t.drop_last()[i] == t[i]);
        split_at_end(a, t.drop_last(), c);
        assert(t[t.len() - 1] != c);
        assert(split(a, c).push(t.drop_last()).drop_last() =~= split(a, c));
        assert(t.drop_last().push(t.last()) =~= t);
    }
}
proof fn split_one(t: Seq<char>, c: char)
    requires without(t, c),
    ensures split(t, c) == seq![t],
    decreases t.len(),
{
    if t.len() == 0 { assert(t =~= Seq::empty()); } else {
        assert(forall|i: int| 0 <= i < t.drop_last().len() ==> t.drop_last()[i] == t[i]);
        split_one(t.drop_last(), c);
        assert(t[t.len() - 1] != c);
        assert(seq![t.drop_last()].drop_last() =~= Seq::empty());
        assert(t.drop_last().push(t.last()) =~= t);
        assert(split(t, c) =~= seq![t]);
    }
}
proof fn split_join(ps: Seq<Seq<char>>, c: char)
    requires ps.len() > 0, forall|i: int| 0 <= i < ps.len() ==> without(#[trigger] ps[i], c),
    ensures split(join(ps, c), c) == ps,
    decreases ps.len(),
{
    if ps.len() == 1 { split_one(ps[0], c); assert(seq![ps[0]] =~= ps); }
    else {
        assert forall|i: int| 0 <= i < ps.drop_last().len() implies without(#[trigger] ps.drop_last()[i], c) by { assert(ps.drop_last()[i] == ps[i]); }
        split_join(ps.drop_last(), c);
        assert(without(ps[ps.len() - 1], c));
        split_at_end(join(ps.drop_last(), c), ps.last(), c);
        assert(ps.drop_last().push(ps.last()) =~= ps);
    }
}
proof fn join_split(s: Seq<char>, c: char)
    ensures join(split(s, c), c) == s,
    decreases s.len(),
{
    if s.len() == 0 { assert(s =~= Seq::empty()); } else {
        let d = s.drop_last();
        join_split(d, c); split_some(d, c);
        let p = split(d, c);
        assert(d.push(s.last()) =~= s);
        if s.last() == c {
            assert(p.push(Seq::empty()).drop_last() =~= p);
            assert(join(p, c).push(c) + Seq::<char>::empty() =~= s);
        } else {
            let q = p.drop_last().push(p.last().push(s.last()));
            assert(q.drop_last() =~= p.drop_last());
            if p.len() == 1 { assert(q[0] == p[0].push(s.last())); assert(q =~= seq![p[0].push(s.last())]); }
            else { assert(join(p.drop_last(), c).push(c) + p.last().push(s.last()) =~= (join(p.drop_last(), c).push(c) + p.last()).push(s.last())); }
        }
    }
}

// ---- the JSON form of a path and of a mask
/// Every part of the path in camelCase.
pub open spec fn camels(ps: Seq<Seq<char>>) -> Option<Seq<Seq<char>>>
    decreases ps.len()
{
    if ps.len() == 0 { Some(Seq::empty()) } else {
        match (camels(ps.drop_last()), s2c(ps.last())) { (Some(ts), Some((t, false))) => Some(ts.push(t)), _ => None }
    }
}
pub open spec fn snakes(ps: Seq<Seq<char>>) -> Option<Seq<Seq<char>>>
    decreases ps.len()
{
    if ps.len() == 0 { Some(Seq::empty()) } else {
        match (snakes(ps.drop_last()), c2s(ps.last())) { (Some(ts), Some(t)) => Some(ts.push(t)), _ => None }
    }
}
pub open spec fn path_text(p: Seq<char>) -> Option<Seq<char>> {
    if p.len() == 0 || !without(p, ',') { None } else { match camels(split(p, '.')) { Some(ts) => Some(join(ts, '.')), None => None } }
}
pub open spec fn path_of(t: Seq<char>) -> Option<Seq<char>> { match snakes(split(t, '.')) { Some(ts) => Some(join(ts, '.')), None => None } }
pub open spec fn texts(ps: Seq<Seq<char>>) -> Option<Seq<Seq<char>>>
    decreases ps.len()
{
    if ps.len() == 0 { Some(Seq::empty()) } else {
        match (texts(ps.drop_last()), path_text(ps.last())) { (Some(ts), Some(t)) => Some(ts.push(t)), _ => None }
    }
}
/// The text of a mask, and the paths which a text denotes; empty parts denote nothing.
pub open spec fn mask_text(ps: Seq<Seq<char>>) -> Option<Seq<char>> { match texts(ps) { Some(ts) => Some(join(ts, ',')), None => None } }
pub open spec fn paths_of(ts: Seq<Seq<char>>) -> Option<Seq<Seq<char>>>
    decreases ts.len()
{
    if ts.len() == 0 { Some(Seq::empty()) } else {
        match paths_of(ts.drop_last()) {
            None => None,
            Some(ps) => if ts.last().len() == 0 { Some(ps) } else { match path_of(ts.last()) { Some(p) => Some(ps.push(p)), None => None } },
        }
    }
}
pub open spec fn mask_of(t: Seq<char>) -> Option<Seq<Seq<char>>> { paths_of(split(t, ',')) }

// ---- the round trip
/// What is neither upper case nor an underscore stays.
proof fn c2s_keeps(s: Seq<char>, x: char)
    requires c2s(s) is Some, !is_upper(x), x != '_', !without(s, x),
    ensures !without(c2s(s)->Some_0, x),
    decreases s.len(),
{
    let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == x;
    let r = c2s(s)->Some_0;
    let t = c2s(s.drop_last())->Some_0;
    if i == s.len() - 1 { assert(r[r.len() - 1] == x); }
    else {
        assert(s.drop_last()[i] == x);
        c2s_keeps(s.drop_last(), x);
        let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == x;
        assert(r[j] == x);
    }
}
/// One part: its text reads back as it, is not longer empty than it, and has no separator it has not.
proof fn part_round(p: Seq<char>)
    requires s2c(p) is Some, !s2c(p)->Some_0.1,
    ensures c2s(s2c(p)->Some_0.0) == Some(p), forall|x: char| !is_upper(x) && x != '_' && #[trigger] without(p, x) ==> without(s2c(p)->Some_0.0, x),
{
    s2c_inverse(p);
    let t = s2c(p)->Some_0.0;
    assert forall|x: char| !is_upper(x) && x != '_' && #[trigger] without(p, x) implies without(t, x) by { if !without(t, x) { c2s_keeps(t, x); } }
}
proof fn parts_round(ps: Seq<Seq<char>>)
    requires camels(ps) is Some,
    ensures camels(ps)->Some_0.len() == ps.len(), snakes(camels(ps)->Some_0) == Some(ps),
    decreases ps.len(),
{
    if ps.len() > 0 {
        parts_round(ps.drop_last()); part_round(ps.last());
        let ts = camels(ps)->Some_0;
        assert(ts.drop_last() =~= camels(ps.drop_last())->Some_0);
        assert(ps.drop_last().push(ps.last()) =~= ps);
    } else { assert(ps =~= Seq::empty()); }
}
proof fn parts_without(ps: Seq<Seq<char>>, x: char)
    requires camels(ps) is Some, !is_upper(x), x != '_', forall|i: int| 0 <= i < ps.len() ==> without(#[trigger] ps[i], x),
    ensures camels(ps)->Some_0.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> without(#[trigger] camels(ps)->Some_0[i], x),
    decreases ps.len(),
{
    if ps.len() > 0 {
        let d = ps.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies without(#[trigger] d[i], x) by { assert(d[i] == ps[i]); }
        parts_without(d, x); part_round(ps.last());
        assert(without(ps[ps.len() - 1], x));
        let ts = camels(ps)->Some_0;
        assert(ts.drop_last() =~= camels(d)->Some_0);
        assert forall|i: int| 0 <= i < ps.len() implies without(#[trigger] ts[i], x) by { if i < d.len() { assert(ts.drop_last()[i] == ts[i]); assert(without(camels(d)->Some_0[i], x)); } }
    }
}
proof fn join_without(ps: Seq<Seq<char>>, c: char, x: char)
    requires c != x, forall|i: int| 0 <= i < ps.len() ==> without(#[trigger] ps[i], x),
    ensures without(join(ps, c), x),
    decreases ps.len(),
{
    if ps.len() > 1 {
        assert forall|i: int| 0 <= i < ps.drop_last().len() implies without(#[trigger] ps.drop_last()[i], x) by { assert(ps.drop_last()[i] == ps[i]); }
        join_without(ps.drop_last(), c, x);
        assert(without(ps[ps.len() - 1], x));
    } else if ps.len() == 1 { assert(without(ps[0], x)); }
}
proof fn split_without(s: Seq<char>, c: char, x: char)
    requires without(s, x),
    ensures forall|i: int| 0 <= i < split(s, c).len() ==> without(#[trigger] split(s, c)[i], x),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(forall|i: int| 0 <= i < s.drop_last().len() ==> s.drop_last()[i] == s[i]);
        split_without(s.drop_last(), c, x);
        split_some(s.drop_last(), c);
        let p = split(s.drop_last(), c);
        assert(without(p[p.len() - 1], x));
        assert(s[s.len() - 1] != x);
    }
}
/// P14 for a path: its text is not empty, has no comma and reads back as it.
proof fn path_round(p: Seq<char>)
    requires path_text(p) is Some,
    ensures path_of(path_text(p)->Some_0) == Some(p), path_text(p)->Some_0.len() > 0, without(path_text(p)->Some_0, ','),
{
    let ps = split(p, '.');
    let ts = camels(ps)->Some_0;
    split_some(p, '.'); split_without(p, '.', ',');
    parts_round(ps); parts_without(ps, '.'); parts_without(ps, ',');
    split_join(ts, '.'); join_without(ts, '.', ',');
    join_split(p, '.');
    let t = join(ts, '.');
    if t.len() == 0 {
        assert(t =~= Seq::empty());
        assert(snakes(split(t, '.')) == Some(ps));
        assert(split(t, '.') =~= seq![Seq::<char>::empty()]);
        assert(ts =~= seq![Seq::<char>::empty()]);
        assert(ts.drop_last() =~= Seq::empty());
        assert(ps =~= seq![Seq::<char>::empty()]);
        assert(false);
    }
}
proof fn texts_round(ps: Seq<Seq<char>>)
    requires texts(ps) is Some,
    ensures
        texts(ps)->Some_0.len() == ps.len(), paths_of(texts(ps)->Some_0) == Some(ps),
        forall|i: int| 0 <= i < ps.len() ==> #[trigger] texts(ps)->Some_0[i].len() > 0 && without(texts(ps)->Some_0[i], ','),
    decreases ps.len(),
{
    if ps.len() > 0 {
        texts_round(ps.drop_last()); path_round(ps.last());
        let ts = texts(ps)->Some_0;
        assert(ts.drop_last() =~= texts(ps.drop_last())->Some_0);
        assert(ps.drop_last().push(ps.last()) =~= ps);
        assert forall|i: int| 0 <= i < ps.len() implies #[trigger] ts[i].len() > 0 && without(ts[i], ',') by { if i < ps.len() - 1 { assert(ts.drop_last()[i] == ts[i]); assert(ts.drop_last()[i].len() > 0); } }
    } else { assert(ps =~= Seq::empty()); }
}
/// P14 for a mask: the text of a mask reads back as the mask.
proof fn mask_round(ps: Seq<Seq<char>>)
    requires mask_text(ps) is Some,
    ensures mask_of(mask_text(ps)->Some_0) == Some(ps),
{
    texts_round(ps);
    let ts = texts(ps)->Some_0;
    if ps.len() > 0 {
        assert forall|i: int| 0 <= i < ts.len() implies without(#[trigger] ts[i], ',') by { assert(ts[i].len() > 0); }
        split_join(ts, ',');
    } else {
        let s = split(Seq::<char>::empty(), ',');
        assert(s.drop_last() =~= Seq::empty());
        assert(s.last().len() == 0);
        assert(ps =~= Seq::empty());
    }
}
proof fn camels_none(ps: Seq<Seq<char>>, n: int)
    requires 0 <= n <= ps.len(), camels(ps.take(n)) is None,
    ensures camels(ps) is None,
    decreases ps.len() - n
{
    if n < ps.len() { assert(ps.take(n + 1).drop_last() =~= ps.take(n)); camels_none(ps, n + 1); } else { assert(ps.take(n) =~= ps); }
}
proof fn snakes_none(ps: Seq<Seq<char>>, n: int)
    requires 0 <= n <= ps.len(), snakes(ps.take(n)) is None,
    ensures snakes(ps) is None,
    decreases ps.len() - n
{
    if n < ps.len() { assert(ps.take(n + 1).drop_last() =~= ps.take(n)); snakes_none(ps, n + 1); } else { assert(ps.take(n) =~= ps); }
}
proof fn texts_none(ps: Seq<Seq<char>>, n: int)
    requires 0 <= n <= ps.len(), texts(ps.take(n)) is None,
    ensures texts(ps) is None,
    decreases ps.len() - n
{
    if n < ps.len() { assert(ps.take(n + 1).drop_last() =~= ps.take(n)); texts_none(ps, n + 1); } else { assert(ps.take(n) =~= ps); }
}
proof fn paths_none(ps: Seq<Seq<char>>, n: int)
    requires 0 <= n <= ps.len(), paths_of(ps.take(n)) is None,
    ensures paths_of(ps) is None,
    decreases ps.len() - n
{
    if n < ps.len() { assert(ps.take(n + 1).drop_last() =~= ps.take(n)); paths_none(ps, n + 1); } else { assert(ps.take(n) =~= ps); }
}
proof fn take_step(ps: Seq<Seq<char>>, n: int)
    requires 0 <= n < ps.len(),
    ensures ps.take(n + 1).drop_last() == ps.take(n), ps.take(n + 1).last() == ps[n],
{
    assert(ps.take(n + 1).drop_last() =~= ps.take(n));
}

// ---- the code
pub struct Error_;
impl Error_ {
}
/// (unit case)
#[verifier::external_body]
fn snake_case_to_camel_case(dst: &mut String, src: &str) -> (r: Result<(), ()>)
    ensures r is Ok <==> (s2c(src@) is Some && !s2c(src@)->Some_0.1), r is Ok ==> final(dst)@ == old(dst)@ + s2c(src@)->Some_0.0,
{ unimplemented!() }
#[verifier::external_body]
fn camel_case_to_snake_case(dst: &mut String, src: &str) -> (r: Result<(), ()>)
    ensures r is Ok <==> c2s(src@) is Some, r is Ok ==> final(dst)@ == old(dst)@ + c2s(src@)->Some_0,
{ unimplemented!() }
/// `str::split` at a character (assumed contract of std)
#[verifier::external_body]
fn split_vec<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures views(r@) == split(s@, c), r@.len() == split(s@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split(s@, c)[i],
{ unimplemented!() }
#[verifier::external_body]
pub struct Parts<'a> { x: &'a u8 }
impl<'a> Parts<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && r->Some_0@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
}
#[verifier::external_body]
fn split_parts<'a>(s: &'a str, c: char) -> (r: Parts<'a>) ensures r.rest() == split(s@, c) { unimplemented!() }
#[verifier::external_body]
fn has_char(s: &String, c: char) -> (r: bool) ensures r == !without(s@, c) { unimplemented!() }
#[verifier::external_body]
fn str_ref(s: &String) -> (r: &str) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn string_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
fn str_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub struct DynamicMessage { x: u8 }
#[verifier::external_body]
pub struct SerializeOptions { x: u8 }
#[verifier::external_body]
pub struct DeError { x: u8 }
impl DeError { #[verifier::external_body] fn custom<T>(m: T) -> DeError { unimplemented!() } }
impl SerError { #[verifier::external_body] fn custom<T>(m: T) -> SerError { unimplemented!() } }
pub mod prost_types { use super::*; pub struct FieldMask { pub paths: Vec<String> } }
pub open spec fn strings(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
impl DynamicMessage {
    pub uninterp spec fn mask(&self) -> Option<Seq<Seq<char>>>;
    #[verifier::external_body]
    pub fn transcode_to(&self) -> (r: Result<prost_types::FieldMask, SerError>) ensures match r { Ok(m) => self.mask() == Some(strings(m.paths@)), Err(_) => self.mask() is None } { unimplemented!() }
}
//@@ fn prost-reflect/src/dynamic/serde/ser/wkt.rs serialize_field_mask
//@@ sig fn serialize_field_mask(msg: &DynamicMessage, serializer: Ser, _options: &SerializeOptions) -> (r: Result<Out, SerError>)
//@@ subst? . map_err ( decode_to_ser_err ) ==>> 
//@@ subst? . map_err ( | ( ) | $x ) ==>> .map_err(|e__: ()| -> (o__: SerError) { $x })
//@@ subst? $x:id . contains ( $c ) ==>> has_char(&$x, $c)
//@@ subst? path . is_empty ( ) ==>> string_empty(&path)
//@@ subst? result . is_empty ( ) ==>> string_empty(&result)
//@@ subst? path . split ( $c ) ==>> split_vec(str_ref(&path), $c)
//@@ subst? Error :: custom ==>> SerError::custom
//@@ spec
    ensures match msg.mask() {
        Some(m) => match mask_text(m) { Some(t) => r is Ok && r->Ok_0.json() == Json::Str(t), None => r is Err },
        None => r is Err,
    },
//@@ loop 0 iter it
        invariant
            msg.mask() == Some(strings(it.seq())),
            texts(strings(it.seq()).take(it.index@ as int)) is Some,
            result@ == join(texts(strings(it.seq()).take(it.index@ as int))->Some_0, ','),
            texts(strings(it.seq()).take(it.index@ as int))->Some_0.len() == it.index@,
            (result@.len() == 0) == (it.index@ == 0),
//@@ in-loop 0
        let ghost ps = strings(it.seq());
        let ghost n = it.index@ as int;
        let ghost ts = texts(ps.take(n))->Some_0;
        let ghost p = path@;
        proof { take_step(ps, n); assert(ps[n] == p); if path_text(p) is None { texts_none(ps, n + 1); } }
//@@ before? let mut first = true
        let ghost r0 = result@;
        let ghost parts = split(p, '.');
        proof { split_some(p, '.'); assert(parts.take(0) =~= Seq::empty()); }
//@@ loop 1 iter ip
        invariant
            ip.seq().len() == parts.len(), forall|i: int| 0 <= i < parts.len() ==> (#[trigger] ip.seq()[i])@ == parts[i],
            parts == split(p, '.'), msg.mask() == Some(ps), 0 <= n < ps.len(), ps[n] == p, p.len() > 0, without(p, ','),
            ps.take(n + 1).drop_last() == ps.take(n), ps.take(n + 1).last() == p,
            path_text(p) is None ==> mask_text(ps) is None,
            camels(parts.take(ip.index@ as int)) is Some,
            camels(parts.take(ip.index@ as int))->Some_0.len() == ip.index@,
            result@ == r0 + join(camels(parts.take(ip.index@ as int))->Some_0, '.'),
            first == (ip.index@ == 0),
//@@ in-loop 1
            let ghost k = ip.index@ as int;
            proof { take_step(parts, k); if camels(parts.take(k + 1)) is None { camels_none(parts, k + 1); } }
//@@ end-loop 1
            proof {
                let cs = camels(parts.take(k))->Some_0;
                let ds = camels(parts.take(k + 1))->Some_0;
                assert(ds.drop_last() =~= cs);
                if k == 0 { assert(cs =~= Seq::empty()); assert(result@ =~= r0 + ds[0]); }
                else { assert(result@ =~= r0 + (join(cs, '.').push('.') + ds.last())); }
            }
//@@ after-loop 1
        proof {
            assert(parts.take(parts.len() as int) =~= parts);
            let t = path_text(p)->Some_0;
            path_round(p);
            let us = texts(ps.take(n + 1))->Some_0;
            assert(us == ts.push(t));
            assert(us.drop_last() =~= ts);
            if n == 0 { assert(r0 =~= Seq::empty()); assert(us[0] == t); assert(result@ =~= t); }
            else { assert(r0 == join(ts, ',').push(',')); assert(result@ =~= join(ts, ',').push(',') + t); }
        }
//@@ after-loop 0
    proof { let ps = msg.mask()->Some_0; assert(ps.take(ps.len() as int) =~= ps); }
//@@ end
/// filter, map and collect
fn collect_paths<'a, F: Fn(&&'a str) -> bool, G: Fn(&'a str) -> Result<String, ()>>(v: Vec<&'a str>, keep: F, f: G) -> (r: Result<Vec<String>, ()>)
    requires
        forall|x: &'a str| keep.requires((&x,)) && f.requires((x,)),
        forall|x: &'a str, b: bool| keep.ensures((&x,), b) ==> b == (x@.len() > 0),
        forall|x: &'a str, s: Result<String, ()>| f.ensures((x,), s) ==> (match s { Ok(s) => path_of(x@) == Some(s@), Err(_) => path_of(x@) is None }),
    ensures match r { Ok(ps) => paths_of(views(v@)) == Some(strings(ps@)), Err(_) => paths_of(views(v@)) is None },
{
    let mut out: Vec<String> = Vec::new();
    let ghost vs = views(v@);
    proof { assert(vs.take(0) =~= Seq::empty()); assert(strings(out@) =~= Seq::empty()); }
    for x in it: v
        invariant
            vs == views(it.seq()), paths_of(vs.take(it.index@ as int)) == Some(strings(out@)),
            forall|x: &'a str| keep.requires((&x,)) && f.requires((x,)),
            forall|x: &'a str, b: bool| keep.ensures((&x,), b) ==> b == (x@.len() > 0),
            forall|x: &'a str, s: Result<String, ()>| f.ensures((x,), s) ==> (match s { Ok(s) => path_of(x@) == Some(s@), Err(_) => path_of(x@) is None }),
    {
        proof { take_step(vs, it.index@ as int); assert(vs[it.index@ as int] == x@); if paths_of(vs.take(it.index@ as int + 1)) is None { paths_none(vs, it.index@ as int + 1); } }
        if keep(&x) {
            match f(x) {
                Ok(s) => { let ghost o = out@; out.push(s); proof { assert(strings(out@) =~= strings(o).push(s@)); } }
                Err(e) => { return Err(e); }
            }
        }
    }
    proof { assert(vs.take(vs.len() as int) =~= vs); }
    Ok(out)
}
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }
//@@ item prost-reflect/src/dynamic/serde/de/wkt.rs struct GoogleProtobufFieldMaskVisitor
impl GoogleProtobufFieldMaskVisitor {
//@@ fn prost-reflect/src/dynamic/serde/de/wkt.rs Visitor for GoogleProtobufFieldMaskVisitor::visit_str
//@@ sig fn visit_str(self, v: &str) -> (r: Result<prost_types::FieldMask, DeError>)
//@@ subst? $v:id . split ( $c ) . filter ( | $p:id | $cond ) . map ( | $q:id | $body:tt ) . collect :: < Result < _ , ( ) > > ( ) ==>> collect_paths(split_vec($v, $c), |$p: &&str| -> (k__: bool) ensures k__ == ($p@.len() > 0) { $cond }, |$q: &str| -> (s__: Result<String, ()>) ensures match s__ { Ok(s) => path_of($q@) == Some(s@), Err(_) => path_of($q@) is None } $body)
//@@ subst? . map_err ( | ( ) | $x ) ==>> .map_err(|e__: ()| -> (o__: DeError) { $x })
//@@ subst? path . is_empty ( ) ==>> str_empty(path)
//@@ subst? path . split ( $c ) ==>> split_parts(path, $c)
//@@ subst? for $p:id in parts ==>> while let Some($p) = parts.next()
//@@ subst? Error :: custom ==>> DeError::custom
//@@ spec
    ensures match r { Ok(m) => mask_of(v@) == Some(strings(m.paths@)), Err(_) => mask_of(v@) is None },
//@@ before? let mut parts =
                let ghost ps = split(path@, '.');
                proof { split_some(path@, '.'); assert(ps.skip(0) =~= ps); assert(ps.take(0) =~= Seq::empty()); take_step(ps, 0); assert(ps.skip(0).skip(1) =~= ps.skip(1)); if snakes(ps.take(1)) is None { snakes_none(ps, 1); } }
                let ghost mut n: int = 1;
//@@ after? if let Some ( $p:id ) = parts . next ( ) $b:tt
                proof {
                    assert(snakes(Seq::<Seq<char>>::empty()) == Some(Seq::<Seq<char>>::empty()));
                    let t = c2s(ps[0])->Some_0;
                    assert(snakes(ps.take(1)) == Some(Seq::<Seq<char>>::empty().push(t)));
                    assert(result@ =~= t);
                }
//@@ loop 0
                    invariant
                        1 <= n <= ps.len(), ps == split(path@, '.'), parts.rest() == ps.skip(n), snakes(ps.take(n)) is Some, snakes(ps.take(n))->Some_0.len() == n,
                        result@ == join(snakes(ps.take(n))->Some_0, '.'),
                    ensures n == ps.len(),
                    decreases ps.len() - n,
//@@ in-loop 0
                    proof { take_step(ps, n); assert(ps.skip(n)[0] == ps[n]); assert(ps.skip(n).skip(1) =~= ps.skip(n + 1)); if snakes(ps.take(n + 1)) is None { snakes_none(ps, n + 1); } }
                    let ghost r0 = result@;
//@@ end-loop 0
                    proof {
                        let a = snakes(ps.take(n))->Some_0;
                        let b = snakes(ps.take(n + 1))->Some_0;
                        assert(b.drop_last() =~= a);
                        assert(result@ =~= r0.push('.') + b.last());
                        n = n + 1;
                    }
//@@ after-loop 0
                proof { assert(ps.take(n) =~= ps); }
//@@ end
}

} // verus!
fn main() {}
