//! P12-P15: the JSON mapping.
use crate::{core::*, cx::*, model::*, rng::Rng};
use prost::Message as _;
use prost_reflect::*;
use prost_types::{field_descriptor_proto::Type as T, DescriptorProto, FileDescriptorProto, FileDescriptorSet, MessageOptions};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

fn de(d: &MessageDescriptor, text: &str) -> Result<DynamicMessage, String> {
    let mut x = serde_json::Deserializer::from_str(text);
    let m = DynamicMessage::deserialize(d.clone(), &mut x).map_err(|e| e.to_string())?;
    x.end().map_err(|e| e.to_string())?;
    Ok(m)
}
fn ser(m: &DynamicMessage, o: &SerializeOptions) -> Result<String, String> {
    let mut x = serde_json::Serializer::new(vec![]);
    m.serialize_with_options(&mut x, o).map_err(|e| e.to_string())?;
    String::from_utf8(x.into_inner()).map_err(|e| e.to_string())
}
/// Does the shortest decimal form of the value, read as a double and then rounded, give another value?
pub fn f32_double_rounds(v: f32) -> bool {
    v.is_finite() && (format!("{v:?}").parse::<f64>().unwrap() as f32).to_bits() != v.to_bits()
}

// ------------------------------------------------------------------------------------------- P12

const INTS: [K; 10] = [K::Int32, K::Int64, K::Uint32, K::Uint64, K::Sint32, K::Sint64, K::Fixed32, K::Fixed64, K::Sfixed32, K::Sfixed64];
fn range(k: K) -> (i128, i128) {
    match k {
        K::Int32 | K::Sint32 | K::Sfixed32 | K::Enum(_) => (i32::MIN as i128, i32::MAX as i128),
        K::Int64 | K::Sint64 | K::Sfixed64 => (i64::MIN as i128, i64::MAX as i128),
        K::Uint32 | K::Fixed32 => (0, u32::MAX as i128),
        _ => (0, u64::MAX as i128),
    }
}
fn int_of(v: &Value) -> Option<i128> {
    Some(match v {
        Value::I32(x) => *x as i128,
        Value::I64(x) => *x as i128,
        Value::U32(x) => *x as i128,
        Value::U64(x) => *x as i128,
        Value::EnumNumber(x) => *x as i128,
        _ => return None,
    })
}
/// The exact value of a decimal literal [+-]d+[.d+][e[+-]d+], if it is an integer (None: not an integer or not a literal).
fn exact_int(s: &str) -> Option<i128> {
    let (neg, s) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    let (mant, exp) = match s.find(['e', 'E']) {
        Some(i) => {
            let e = &s[i + 1..];
            let d = e.strip_prefix(['+', '-']).unwrap_or(e);
            if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) { return None }
            (&s[..i], e.parse::<i64>().ok()?)
        }
        None => (s, 0),
    };
    let (int, frac) = match mant.split_once('.') {
        Some((a, b)) => (a, b),
        None => (mant, ""),
    };
    if int.is_empty() || !int.bytes().all(|c| c.is_ascii_digit()) || !frac.bytes().all(|c| c.is_ascii_digit()) || (mant.contains('.') && frac.is_empty()) {
        return None;
    }
    let mut digits: Vec<u8> = int.bytes().chain(frac.bytes()).collect();
    let mut scale = exp - frac.len() as i64;
    while scale < 0 && digits.last() == Some(&b'0') {
        digits.pop();
        scale += 1;
    }
    while digits.first() == Some(&b'0') { digits.remove(0); }
    if digits.is_empty() { return Some(0) }
    if scale < 0 || digits.len() as i64 + scale > 36 { return None }
    let v: i128 = String::from_utf8(digits).unwrap().parse().ok()?;
    let v = v * 10i128.pow(scale as u32);
    Some(if neg { -v } else { v })
}
/// What an unquoted JSON number is worth: Ok(Some(v)) an integer, Ok(None) not an integer, Err not JSON.
fn json_number(s: &str) -> Result<Option<i128>, ()> {
    let body = s.strip_prefix('-').unwrap_or(s);
    let int_len = body.bytes().take_while(|c| c.is_ascii_digit()).count();
    if int_len == 0 || (int_len > 1 && body.starts_with('0')) { return Err(()) }
    let rest = &body[int_len..];
    if rest.is_empty() {
        if let Ok(v) = s.parse::<i128>() {
            // The JSON reader keeps integers of 64 bits exact.
            if v <= u64::MAX as i128 && v >= i64::MIN as i128 { return Ok(Some(v)) }
        }
    }
    let f: f64 = s.parse().map_err(|_| ())?;
    if !f.is_finite() { return Err(()) }
    if f.fract() != 0.0 { return Ok(None) }
    if f.abs() > 1e38 { return Ok(Some(if f > 0.0 { i128::MAX } else { i128::MIN })) }
    Ok(Some(f as i128))
}
struct Ints {
    pool: DescriptorPool,
    s: Schema,
}
fn ints_schema() -> Ints {
    let mut fields = vec![];
    let mk = |name: String, num: u32, kind, card| Fld { name, num, kind, card, oneof: None, synth: false, ext: false, default: None, other_options: false };
    for (i, k) in INTS.iter().enumerate() {
        let i = i as u32;
        fields.push(mk(format!("s{i}"), 1 + i, *k, Card::Implicit));
        fields.push(mk(format!("o{i}"), 101 + i, *k, Card::Rep(None)));
        fields.push(mk(format!("v{i}"), 201 + i, *k, Card::Map(K::Str)));
        fields.push(mk(format!("k{i}"), 301 + i, K::Bool, Card::Map(*k)));
    }
    fields.push(mk("e".into(), 400, K::Enum(0), Card::Implicit));
    let s = Schema {
        pkg: "t",
        proto3: true,
        msgs: vec![Msg { name: "M0".into(), fields, oneofs: vec![] }],
        enums: vec![En { name: "E0".into(), values: vec![("Z".into(), 0), ("MX".into(), i32::MAX)] }],
    };
    Ints { pool: s.pool(), s }
}
fn num_literal(r: &mut Rng) -> String {
    let base: i128 = match r.below(12) {
        0 => 0,
        1 => 1i128 << 31,
        2 => -(1i128 << 31),
        3 => 1i128 << 32,
        4 => 1i128 << 63,
        5 => -(1i128 << 63),
        6 => 1i128 << 64,
        7 => 1i128 << 53,
        8 => gen_i32(r) as i128,
        9 => gen_i64(r) as i128,
        10 => (r.next() as i128) << r.below(12),
        _ => (1i128 << r.below(70)) * if r.chance(1, 2) { 1 } else { -1 },
    };
    let v = base + r.below(7) as i128 - 3 + if r.chance(1, 8) { 1024 } else { 0 };
    match r.below(14) {
        0..=4 => v.to_string(),
        5 => format!("{v}.0"),
        6 => format!("{v}.000"),
        7 => format!("{v}.5"),
        8 => format!("{v}{}0", ["e", "E", "e+", "e-"][r.below(4)]),
        9 => {
            // scientific form with an exact value
            let s = v.abs().to_string();
            let (a, b) = s.split_at(1);
            let e = b.len();
            let b = if b.is_empty() { "0" } else { b };
            format!("{}{a}.{b}{}{e}", if v < 0 { "-" } else { "" }, ["e", "E+", "e+0"][r.below(3)])
        }
        10 => format!("{v}0e-1"),
        11 => format!("{}{}e{}", if r.chance(1, 2) { "-" } else { "" }, 1 + r.below(30), r.below(22)),
        12 => format!("{}{}e-{}", if r.chance(1, 2) { "-" } else { "" }, r.below(2000), r.below(5)),
        _ => ["-0", "-0.0", "0e5", "1e308", "1.0E2", "0.1e1", "123456789012345678901234567890", "-1e-3", "5e-324"][r.below(9)].to_string(),
    }
}
pub fn p12(cx: &mut Cx) -> &'static str {
    let t = ints_schema();
    let d = t.pool.get_message_by_name("t.M0").unwrap();
    let wrap = DescriptorPool::global();
    for _ in 0..cx.n(60000, 600000) {
        if cx.stop() { break }
        cx.case("int", |r| {
            let ki = r.below(11);
            let k = if ki == 10 { K::Enum(0) } else { INTS[ki] };
            let (lo, hi) = range(k);
            let mut lit = num_literal(r);
            let quoted = r.chance(2, 5) && ki < 10;
            if quoted && r.chance(1, 6) {
                lit = match r.below(8) {
                    0 => format!(" {lit}"),
                    1 => format!("{lit} "),
                    2 => format!("+{lit}"),
                    3 => format!("0{lit}"),
                    4 => "0x10".into(),
                    5 => String::new(),
                    6 => format!("{lit}x"),
                    _ => "NaN".into(),
                };
            }
            let form = r.below(if ki == 10 { 1 } else { 5 });
            let key = form == 3;
            let quoted = quoted || key;
            let tok = if quoted { J::String(lit.clone()).to_string() } else { lit.clone() };
            let wrapper = match k {
                K::Int32 => "Int32Value",
                K::Int64 => "Int64Value",
                K::Uint32 => "UInt32Value",
                K::Uint64 => "UInt64Value",
                _ => "",
            };
            let (text, desc) = match form {
                _ if ki == 10 => (format!("{{\"e\": {tok}}}"), d.clone()),
                0 => (format!("{{\"s{ki}\": {tok}}}"), d.clone()),
                1 => (format!("{{\"o{ki}\": [{tok}]}}"), d.clone()),
                2 => (format!("{{\"v{ki}\": {{\"a\": {tok}}}}}"), d.clone()),
                3 => (format!("{{\"k{ki}\": {{{tok}: true}}}}"), d.clone()),
                _ if wrapper.is_empty() => (format!("{{\"s{ki}\": {tok}}}"), d.clone()),
                _ => (tok.clone(), wrap.get_message_by_name(&format!("google.protobuf.{wrapper}")).unwrap()),
            };
            let got = match de(&desc, &text) {
                Ok(m) => {
                    let v = if desc == d {
                        let f = d.get_field_by_name(&match form { _ if ki == 10 => "e".to_string(), 1 => format!("o{ki}"), 2 => format!("v{ki}"), 3 => format!("k{ki}"), _ => format!("s{ki}") }).unwrap();
                        match m.get_field(&f).into_owned() {
                            Value::List(l) if l.len() == 1 => int_of(&l[0]),
                            Value::Map(x) if x.len() == 1 && key => int_of(&Value::from(x.keys().next().unwrap().clone())),
                            Value::Map(x) if x.len() == 1 => int_of(x.values().next().unwrap()),
                            v => int_of(&v),
                        }
                    } else {
                        int_of(&m.get_field_by_name("value").unwrap())
                    };
                    Some(v.ok_or_else(|| format!("{text} does not decode to one integer"))?)
                }
                Err(_) => None,
            };
            // Can it be accepted, and must it be?
            let (value, must) = if quoted {
                let plain = {
                    let b = lit.strip_prefix('-').unwrap_or(&lit);
                    !b.is_empty() && b.bytes().all(|c| c.is_ascii_digit()) && (b == "0" || !b.starts_with('0')) && lit != "-0"
                };
                (exact_int(&lit), plain)
            } else {
                match json_number(&lit) {
                    Ok(v) => (v, ki < 10 || !lit.contains(['.', 'e', 'E'])),
                    Err(()) => (None, false),
                }
            };
            let value = value.filter(|v| *v >= lo && *v <= hi);
            let must = must && !(lit == "-0" && ki == 10);
            match (got, value) {
                (Some(g), Some(v)) if g != v => return Err(format!("{text} for {k:?} is read as {g}, not {v}")),
                (Some(g), None) => return Err(format!("{text} for {k:?} is read as {g} but denotes no value of the type")),
                (None, Some(v)) if must => return Err(format!("{text} for {k:?} is rejected but denotes {v}")),
                _ => {}
            }
            note(|| format!("{k:?}: {text} -> {got:?}"));
            Ok(if value.is_some() || got.is_none() { h((ki, form, lit)) } else { 0 })
        });
    }
    let _ = &t.s;
    "integer literals (plain, fraction, exponent, quoted, malformed) around every range limit and 2^53, for all ten integer kinds, enums, list elements, map values, map keys and wrapper messages; compared with exact decimal arithmetic"
}

// ------------------------------------------------------------------------------------------- P13

#[derive(Clone, Copy)]
pub struct O {
    pub str64: bool,
    pub enum_num: bool,
    pub proto_name: bool,
    pub skip: bool,
}
impl O {
    fn nth(i: usize) -> O {
        O { str64: i & 1 == 0, enum_num: i & 2 != 0, proto_name: i & 4 != 0, skip: i & 8 == 0 }
    }
    fn opts(&self) -> SerializeOptions {
        SerializeOptions::new().stringify_64_bit_integers(self.str64).use_enum_numbers(self.enum_num).use_proto_field_name(self.proto_name).skip_default_fields(self.skip)
    }
}
fn jf64(v: f64) -> J {
    if v.is_nan() { json!("NaN") } else if v == f64::INFINITY { json!("Infinity") } else if v == f64::NEG_INFINITY { json!("-Infinity") } else { json!(v) }
}
fn jf32(v: f32) -> J {
    if v.is_finite() { json!(format!("{v:?}").parse::<f64>().unwrap()) } else { jf64(v as f64) }
}
pub fn b64(b: &[u8], url: bool, pad: bool) -> String {
    let abc: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').chain(b'0'..=b'9').chain(if url { *b"-_" } else { *b"+/" }).collect();
    let mut out = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                out.push(abc[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else if pad {
                out.push('=');
            }
        }
    }
    out
}
pub fn json_name(name: &str) -> String {
    let mut out = String::new();
    let mut it = name.chars();
    while let Some(c) = it.next() {
        if c != '_' { out.push(c); continue }
        let mut n = it.next();
        while n == Some('_') { n = it.next() }
        if let Some(c) = n { out.push(if c.is_ascii_lowercase() { (c as u8 - 32) as char } else { c }) }
    }
    out
}
fn scalar_json(s: &Schema, k: K, v: &Value, o: O) -> J {
    match v {
        Value::Bool(b) => json!(b),
        Value::I32(x) => json!(x),
        Value::U32(x) => json!(x),
        Value::I64(x) => if o.str64 { json!(x.to_string()) } else { json!(x) },
        Value::U64(x) => if o.str64 { json!(x.to_string()) } else { json!(x) },
        Value::F32(x) => jf32(*x),
        Value::F64(x) => jf64(*x),
        Value::String(x) => json!(x),
        Value::Bytes(x) => json!(b64(x, false, true)),
        Value::EnumNumber(n) => {
            let K::Enum(e) = k else { panic!() };
            match s.enums[e].values.iter().find(|v| v.1 == *n) {
                Some(_) if !o.enum_num => json!({ "enum": n, "of": e }),
                _ => json!(n),
            }
        }
        _ => panic!(),
    }
}
fn v_json(s: &Schema, k: K, v: &V, o: O) -> J {
    match v {
        V::S(x) => scalar_json(s, k, x, o),
        V::M(m) => msg_json(s, m, o),
        V::L(l) => J::Array(l.iter().map(|x| v_json(s, k, x, o)).collect()),
        V::Mp(l) => J::Object(l.iter().map(|(key, x)| (key_text(key), v_json(s, k, x, o))).collect()),
    }
}
fn key_text(k: &MapKey) -> String {
    match k {
        MapKey::Bool(x) => x.to_string(),
        MapKey::I32(x) => x.to_string(),
        MapKey::I64(x) => x.to_string(),
        MapKey::U32(x) => x.to_string(),
        MapKey::U64(x) => x.to_string(),
        MapKey::String(x) => x.clone(),
    }
}
fn msg_json(s: &Schema, m: &MM, o: O) -> J {
    let mut out = serde_json::Map::new();
    for f in &s.msgs[m.ty].fields {
        let v = match m.f.get(&f.num) {
            Some(v) => v.clone(),
            None if !o.skip && !s.presence(f) && !f.ext => s.field_default(f),
            None => continue,
        };
        let name = if f.ext { format!("[{}.{}]", s.pkg, f.name) } else if o.proto_name { f.name.clone() } else { json_name(&f.name) };
        out.insert(name, v_json(s, f.kind, &v, o));
    }
    J::Object(out)
}
/// Compare, an expected enum value standing for any of the names declared for the number.
fn json_eq(s: &Schema, want: &J, got: &J) -> bool {
    if let Some((n, e)) = want.get("enum").zip(want.get("of")).filter(|_| want.as_object().unwrap().len() == 2) {
        let (n, e) = (n.as_i64().unwrap() as i32, e.as_u64().unwrap() as usize);
        return got.as_str().is_some_and(|g| s.enums[e].values.iter().any(|v| v.1 == n && v.0 == g));
    }
    match (want, got) {
        (J::Array(a), J::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| json_eq(s, x, y)),
        (J::Object(a), J::Object(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).is_some_and(|y| json_eq(s, x, y))),
        (J::Number(_), J::Number(_)) => num_eq(want, got),
        (a, b) => a == b,
    }
}
/// Equal JSON; a number which is the shortest text of a 32-bit float may be any other text for that float.
fn num_eq(want: &J, got: &J) -> bool {
    match (want, got) {
        (J::Array(a), J::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| num_eq(x, y)),
        (J::Object(a), J::Object(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).is_some_and(|y| num_eq(x, y))),
        (J::Number(a), J::Number(b)) => {
            if a == b { return true }
            let (Some(x), Some(y)) = (a.as_f64(), b.as_f64()) else { return false };
            if !a.is_f64() { return false }
            x.to_bits() == y.to_bits() || (x as f32 == y as f32 && format!("{:?}", x as f32).parse::<f64>() == Ok(x))
        }
        (a, b) => a == b,
    }
}
/// Values that cannot come back through JSON: NaN payloads are normalised, floats that round twice replaced.
pub fn jsonable(m: &mut MM) {
    m.unk.clear();
    fn go(v: &mut V) {
        match v {
            V::S(Value::F32(x)) => {
                if x.is_nan() { *x = f32::NAN }
                if f32_double_rounds(*x) { *x = 1.5 }
            }
            V::S(Value::F64(x)) => if x.is_nan() { *x = f64::NAN },
            V::M(m) => jsonable(m),
            V::L(l) => l.iter_mut().for_each(go),
            V::Mp(l) => l.iter_mut().for_each(|x| go(&mut x.1)),
            _ => {}
        }
    }
    m.f.values_mut().for_each(go);
}
fn p13_one(s: &Schema, pool: &DescriptorPool, m: &MM, o: O) -> Result<(), String> {
    let mut m = m.clone();
    jsonable(&mut m);
    canon_deep(s, &mut m);
    let dm = build(s, pool, &m);
    let text = ser(&dm, &o.opts()).map_err(|e| format!("does not serialize: {e}"))?;
    let got: J = serde_json::from_str(&text).map_err(|e| format!("not JSON: {e}\n{text}"))?;
    let want = msg_json(s, &m, o);
    if !json_eq(s, &want, &got) {
        return Err(format!("serialized as {text}\nexpected {want}"));
    }
    let d = desc(s, pool, 0);
    let back = de(&d, &text).map_err(|e| format!("own JSON is rejected: {e}\n{text}"))?;
    let b = observe(s, 0, &back)?;
    if b != m {
        return Err(format!("round trip gives {b:?}\n{text}"));
    }
    let v: J = serde_json::from_str(&text).unwrap();
    let back = DynamicMessage::deserialize(d, v).map_err(|e| format!("own JSON (as a value) is rejected: {e}\n{text}"))?;
    if observe(s, 0, &back)? != m {
        return Err(format!("round trip through a JSON value differs\n{text}"));
    }
    Ok(())
}
pub fn p13(cx: &mut Cx) -> &'static str {
    for_messages(cx, 16, 200, false, |s, pool, m, r| {
        let i = r.below(16);
        for j in [i, (i + 5) % 16] {
            p13_one(s, pool, m, O::nth(j)).map_err(|e| format!("{e}\noptions {j} (bits: 64-bit as number, enum numbers, proto names, emit defaults)"))?;
        }
        Ok(())
    });
    // bytes in every alphabet
    let s = full_schema(true);
    let pool = s.pool();
    let d = desc(&s, &pool, 0);
    let bf = s.msgs[0].fields.iter().find(|f| f.kind == K::Bytes && f.card == Card::Implicit).unwrap().clone();
    for i in 0..cx.n(1500, 10000) {
        if cx.stop() { break }
        cx.case("base64", |r| {
            let b: Vec<u8> = if i < 256 { vec![i as u8, 0xFF, 0xFB] } else { (0..1 + r.below(9)).map(|_| if r.chance(1, 2) { r.next() as u8 } else { 0xFB | r.next() as u8 }).collect() };
            for (url, pad) in [(false, true), (false, false), (true, true), (true, false)] {
                let t = b64(&b, url, pad);
                let m = de(&d, &format!("{{\"{}\": \"{t}\"}}", bf.name)).map_err(|e| format!("base64 '{t}' is rejected: {e}"))?;
                let f = d.get_field(bf.num).unwrap();
                if m.get_field(&f).as_bytes().map(|x| x.as_ref()) != Some(&b[..]) {
                    return Err(format!("base64 '{t}' is read as other bytes than {}", hex(&b)));
                }
            }
            Ok(h(b))
        });
    }
    // well-known types
    let w = wkt_pool();
    for i in 0..cx.n(4000, 40000) {
        if cx.stop() { break }
        cx.case("wkt", |r| {
            let o = O::nth(i % 16);
            let m = gen_w(r, &w, 2);
            let dm = w_build(&w, &m);
            let text = ser(&dm, &o.opts()).map_err(|e| format!("does not serialize: {e}\n{m:?}"))?;
            let got: J = serde_json::from_str(&text).map_err(|e| format!("not JSON: {e}\n{text}"))?;
            let want = w_json(&m, o);
            if !num_eq(&want, &got) {
                return Err(format!("serialized as {text}\nexpected {want}\n{m:?}"));
            }
            let back = de(&dm.descriptor(), &text).map_err(|e| format!("own JSON is rejected: {e}\n{text}"))?;
            same(&dm, &back).map_err(|e| format!("round trip differs: {e}\n{text}"))?;
            note(|| text.clone());
            Ok(h(text))
        });
    }
    // null leaves a field unset, unless null is a value of its type
    for f in w.get_message_by_name("w.W").unwrap().fields() {
        cx.case(&format!("null/{}", f.name()), |_| {
            let is_value = match f.kind() {
                prost_reflect::Kind::Message(m) => m.full_name() == "google.protobuf.Value",
                prost_reflect::Kind::Enum(e) => e.full_name() == "google.protobuf.NullValue",
                _ => false,
            };
            let m = de(&w.get_message_by_name("w.W").unwrap(), &format!("{{\"{}\": null}}", f.json_name())).map_err(|e| format!("null is rejected: {e}"))?;
            let unset = f.is_list() || f.is_map() || !is_value;
            if unset && m.fields().next().is_some() || !unset && f.supports_presence() && !m.has_field(&f) {
                return Err(format!("null makes the message {m}"));
            }
            Ok(1)
        });
    }
    // The recorded finding: the reader hands over doubles, so an f32 can be rounded twice.
    for bits in [0x15ae43fdu32, 0x95ae43fd] {
        cx.case(&format!("f32-double-rounding/{bits:08x}"), |_| {
            let f = s.msgs[0].fields.iter().find(|f| f.kind == K::Float && f.card == Card::Implicit).unwrap();
            let mut m = MM::new(0);
            m.f.insert(f.num, V::S(Value::F32(f32::from_bits(bits))));
            let text = ser(&build(&s, &pool, &m), &SerializeOptions::new())?;
            let back = de(&d, &text)?;
            if observe(&s, 0, &back)? != m { return Err(format!("{text} is read back as another float")) }
            Ok(1)
        });
    }
    "messages over generated schemas (every kind x cardinality, extensions, groups, oneofs) under the 16 option combinations, compared with an independent JSON encoder and read back; all base64 alphabets; generated well-known types alone, in lists, maps, oneofs and inside Any"
}

// ------------------------------------------------------------------- well-known types

/// A JSON-like value: google.protobuf.Value.
#[derive(Clone, Debug)]
pub enum Jv {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    List(Vec<Jv>),
    Struct(BTreeMap<String, Jv>),
}
#[derive(Clone, Debug)]
pub enum Wk {
    Ts(i64, i32),
    Dur(i64, i32),
    Struct(BTreeMap<String, Jv>),
    Val(Jv),
    List(Vec<Jv>),
    F32(f32),
    F64(f64),
    I32(i32),
    I64(i64),
    U32(u32),
    U64(u64),
    Bool(bool),
    Str(String),
    Bytes(Vec<u8>),
    Mask(Vec<String>),
    Empty,
    /// The domain and the payload.
    Any(String, Box<Wk>),
    /// w.Inner { int32 a = 1; string b_c = 2; Timestamp t = 3; repeated uint64 l = 4 }
    Inner(i32, String, Option<(i64, i32)>, Vec<u64>),
}
pub const WKS: [&str; 17] = ["Timestamp", "Duration", "Struct", "Value", "ListValue", "FloatValue", "DoubleValue", "Int32Value", "Int64Value", "UInt32Value", "UInt64Value", "BoolValue", "StringValue", "BytesValue", "FieldMask", "Empty", "Any"];
/// w.W: field i+1 singular, 101+i repeated, 201+i map<string, _>, 301+i in a oneof; 50/150/250/350 NullValue.
#[derive(Clone, Debug)]
pub struct Wm {
    pub single: BTreeMap<usize, Wk>,
    pub rep: BTreeMap<usize, Vec<Wk>>,
    pub map: BTreeMap<usize, BTreeMap<String, Wk>>,
    pub one: Option<(usize, Wk)>,
    pub nulls: (usize, Vec<String>, bool),
}
pub fn wkt_pool() -> DescriptorPool {
    use crate::pools::fld;
    let mut f = FileDescriptorProto { name: Some("w.proto".into()), package: Some("w".into()), syntax: Some("proto3".into()), ..Default::default() };
    let mut pool = DescriptorPool::global();
    f.dependency = ["any", "timestamp", "duration", "struct", "wrappers", "field_mask", "empty"].iter().map(|x| format!("google/protobuf/{x}.proto")).collect();
    let mut d = DescriptorProto { name: Some("W".into()), oneof_decl: vec![prost_types::OneofDescriptorProto { name: Some("one".into()), options: None }], ..Default::default() };
    let mut add = |i: i32, n: &str, ty: T, tn: String| {
        d.field.push(fld(&format!("s_{n}"), i + 1, ty, Some(&tn)));
        let mut x = fld(&format!("r_{n}"), i + 101, ty, Some(&tn));
        x.label = Some(3);
        d.field.push(x);
        let en = format!("M{}Entry", json_name(&format!("_{n}")));
        let mut x = fld(&format!("m_{n}"), i + 201, T::Message, Some(&format!(".w.W.{en}")));
        x.label = Some(3);
        d.field.push(x);
        d.nested_type.push(DescriptorProto {
            name: Some(en),
            field: vec![fld("key", 1, T::String, None), fld("value", 2, ty, Some(&tn))],
            options: Some(MessageOptions { map_entry: Some(true), ..Default::default() }),
            ..Default::default()
        });
        let mut x = fld(&format!("o_{n}"), i + 301, ty, Some(&tn));
        x.oneof_index = Some(0);
        d.field.push(x);
    };
    for (i, n) in WKS.iter().enumerate() {
        add(i as i32, &n.to_lowercase(), T::Message, format!(".google.protobuf.{n}"));
    }
    add(49, "null", T::Enum, ".google.protobuf.NullValue".into());
    f.message_type.push(d);
    let mut l = fld("l", 4, T::Uint64, None);
    l.label = Some(3);
    f.message_type.push(DescriptorProto {
        name: Some("Inner".into()),
        field: vec![fld("a", 1, T::Int32, None), fld("b_c", 2, T::String, None), fld("t", 3, T::Message, Some(".google.protobuf.Timestamp")), l],
        ..Default::default()
    });
    pool.add_file_descriptor_set(FileDescriptorSet { file: vec![f] }).expect("w.proto is valid");
    pool
}
pub fn gen_ts(r: &mut Rng) -> (i64, i32) {
    let s = match r.below(6) {
        0 => -62135596800 + r.below(3) as i64,
        1 => 253402300799 - r.below(3) as i64,
        2 => r.below(5) as i64 - 2,
        3 => 951782400 + 86400 * (r.below(5) as i64 - 2),
        _ => -62135596800 + (r.next() % (253402300799 + 62135596800 + 1)) as i64,
    };
    (s, gen_nanos(r))
}
fn gen_nanos(r: &mut Rng) -> i32 {
    match r.below(6) {
        0 => 0,
        1 => 999_999_999,
        2 => 1,
        3 => (r.below(999) as i32 + 1) * 1_000_000,
        4 => (r.below(999_999) as i32 + 1) * 1000,
        _ => (r.next() % 1_000_000_000) as i32,
    }
}
pub fn gen_dur(r: &mut Rng) -> (i64, i32) {
    let s = match r.below(4) {
        0 => 315_576_000_000,
        1 => 0,
        2 => 1 + r.below(100) as i64,
        _ => (r.next() % 315_576_000_001) as i64,
    };
    let n = gen_nanos(r);
    if r.chance(1, 2) { (-s, -n) } else { (s, n) }
}
fn gen_jv(r: &mut Rng, depth: usize) -> Jv {
    match r.below(if depth == 0 { 4 } else { 6 }) {
        0 => Jv::Null,
        1 => Jv::Bool(r.chance(1, 2)),
        2 => Jv::Num({ let f = gen_f64(r); if f.is_finite() { f } else { 2.5 } }),
        3 => Jv::Str(gen_string(r)),
        4 => Jv::List((0..r.below(3)).map(|_| gen_jv(r, depth - 1)).collect()),
        _ => Jv::Struct((0..r.below(3)).map(|_| (gen_string(r), gen_jv(r, depth - 1))).collect()),
    }
}
pub fn gen_wk(r: &mut Rng, which: usize, depth: usize) -> Wk {
    let f32v = |r: &mut Rng| { let f = gen_f32(r); if f.is_nan() { f32::NAN } else if f32_double_rounds(f) { 0.5 } else { f } };
    match which {
        0 => { let (a, b) = gen_ts(r); Wk::Ts(a, b) }
        1 => { let (a, b) = gen_dur(r); Wk::Dur(a, b) }
        2 => Wk::Struct((0..r.below(3)).map(|_| (gen_string(r), gen_jv(r, 2))).collect()),
        3 => Wk::Val(gen_jv(r, 2)),
        4 => Wk::List((0..r.below(3)).map(|_| gen_jv(r, 2)).collect()),
        5 => Wk::F32(f32v(r)),
        6 => Wk::F64({ let f = gen_f64(r); if f.is_nan() { f64::NAN } else { f } }),
        7 => Wk::I32(gen_i32(r)),
        8 => Wk::I64(gen_i64(r)),
        9 => Wk::U32(gen_i32(r) as u32),
        10 => Wk::U64(gen_i64(r) as u64),
        11 => Wk::Bool(r.chance(1, 2)),
        12 => Wk::Str(gen_string(r)),
        13 => Wk::Bytes(gen_bytes(r)),
        14 => Wk::Mask((0..r.below(3)).map(|_| ["foo", "foo_bar", "a.b_c.d", "x_y_z", "q1"][r.below(5)].to_string()).collect()),
        15 => Wk::Empty,
        _ => {
            let k = if depth == 0 { 17 } else { r.below(18) };
            let dom = ["type.googleapis.com", "example.com", "a", "http://x.y/z", "", "foo-bar.com"][r.below(6)];
            let p = if k == 17 {
                Wk::Inner(gen_i32(r), gen_string(r), r.chance(1, 2).then(|| gen_ts(r)), (0..r.below(3)).map(|_| gen_i64(r) as u64).collect())
            } else {
                gen_wk(r, k, depth - 1)
            };
            Wk::Any(dom.to_string(), Box::new(p))
        }
    }
}
pub fn gen_w(r: &mut Rng, _: &DescriptorPool, depth: usize) -> Wm {
    let mut m = Wm { single: BTreeMap::new(), rep: BTreeMap::new(), map: BTreeMap::new(), one: None, nulls: (0, vec![], false) };
    for _ in 0..1 + r.below(3) {
        let k = r.below(17);
        m.single.insert(k, gen_wk(r, k, depth));
    }
    for _ in 0..r.below(2) {
        let k = r.below(17);
        m.rep.insert(k, (0..r.below(3)).map(|_| gen_wk(r, k, depth)).collect());
        let k = r.below(17);
        m.map.insert(k, (0..r.below(3)).map(|_| (gen_string(r), gen_wk(r, k, depth))).collect());
    }
    match r.below(3) {
        0 => { let k = r.below(17); m.one = Some((k, gen_wk(r, k, depth))) }
        1 => m.nulls.2 = true,
        _ => {}
    }
    if r.chance(1, 4) {
        m.nulls.0 = r.below(3);
        m.nulls.1 = (0..r.below(2)).map(|_| gen_string(r)).collect();
    }
    m
}
fn jv_prost(v: &Jv) -> prost_types::Value {
    use prost_types::value::Kind::*;
    prost_types::Value {
        kind: Some(match v {
            Jv::Null => NullValue(0),
            Jv::Bool(b) => BoolValue(*b),
            Jv::Num(n) => NumberValue(*n),
            Jv::Str(s) => StringValue(s.clone()),
            Jv::List(l) => ListValue(prost_types::ListValue { values: l.iter().map(jv_prost).collect() }),
            Jv::Struct(m) => StructValue(prost_types::Struct { fields: m.iter().map(|(k, v)| (k.clone(), jv_prost(v))).collect() }),
        }),
    }
}
fn jv_json(v: &Jv) -> J {
    match v {
        Jv::Null => J::Null,
        Jv::Bool(b) => json!(b),
        Jv::Num(n) => json!(n),
        Jv::Str(s) => json!(s),
        Jv::List(l) => J::Array(l.iter().map(jv_json).collect()),
        Jv::Struct(m) => J::Object(m.iter().map(|(k, v)| (k.clone(), jv_json(v))).collect()),
    }
}
fn wk_name(w: &Wk) -> String {
    let n = match w {
        Wk::Ts(..) => "Timestamp",
        Wk::Dur(..) => "Duration",
        Wk::Struct(_) => "Struct",
        Wk::Val(_) => "Value",
        Wk::List(_) => "ListValue",
        Wk::F32(_) => "FloatValue",
        Wk::F64(_) => "DoubleValue",
        Wk::I32(_) => "Int32Value",
        Wk::I64(_) => "Int64Value",
        Wk::U32(_) => "UInt32Value",
        Wk::U64(_) => "UInt64Value",
        Wk::Bool(_) => "BoolValue",
        Wk::Str(_) => "StringValue",
        Wk::Bytes(_) => "BytesValue",
        Wk::Mask(_) => "FieldMask",
        Wk::Empty => "Empty",
        Wk::Any(..) => "Any",
        Wk::Inner(..) => return "w.Inner".into(),
    };
    format!("google.protobuf.{n}")
}
/// The canonical encoding.
pub fn wk_bytes(w: &Wk) -> Vec<u8> {
    match w {
        Wk::Ts(a, b) => prost_types::Timestamp { seconds: *a, nanos: *b }.encode_to_vec(),
        Wk::Dur(a, b) => prost_types::Duration { seconds: *a, nanos: *b }.encode_to_vec(),
        Wk::Struct(m) => prost_types::Struct { fields: m.iter().map(|(k, v)| (k.clone(), jv_prost(v))).collect() }.encode_to_vec(),
        Wk::Val(v) => jv_prost(v).encode_to_vec(),
        Wk::List(l) => prost_types::ListValue { values: l.iter().map(jv_prost).collect() }.encode_to_vec(),
        Wk::F32(x) => x.encode_to_vec(),
        Wk::F64(x) => x.encode_to_vec(),
        Wk::I32(x) => x.encode_to_vec(),
        Wk::I64(x) => x.encode_to_vec(),
        Wk::U32(x) => x.encode_to_vec(),
        Wk::U64(x) => x.encode_to_vec(),
        Wk::Bool(x) => x.encode_to_vec(),
        Wk::Str(x) => x.encode_to_vec(),
        Wk::Bytes(x) => x.encode_to_vec(),
        Wk::Mask(p) => prost_types::FieldMask { paths: p.clone() }.encode_to_vec(),
        Wk::Empty => vec![],
        Wk::Any(dom, p) => prost_types::Any { type_url: format!("{dom}/{}", wk_name(p)), value: wk_bytes(p) }.encode_to_vec(),
        Wk::Inner(a, b, t, l) => {
            let mut o = vec![];
            if *a != 0 { key(&mut o, 1, 0); varint(&mut o, *a as i64 as u64) }
            if !b.is_empty() { key(&mut o, 2, 2); varint(&mut o, b.len() as u64); o.extend(b.as_bytes()) }
            if let Some((s, n)) = t {
                let x = wk_bytes(&Wk::Ts(*s, *n));
                key(&mut o, 3, 2);
                varint(&mut o, x.len() as u64);
                o.extend(x)
            }
            if !l.is_empty() {
                let mut x = vec![];
                for v in l { varint(&mut x, *v) }
                key(&mut o, 4, 2);
                varint(&mut o, x.len() as u64);
                o.extend(x)
            }
            o
        }
    }
}
fn frac(n: u32) -> String {
    if n == 0 { String::new() } else if n % 1_000_000 == 0 { format!(".{:03}", n / 1_000_000) } else if n % 1000 == 0 { format!(".{:06}", n / 1000) } else { format!(".{n:09}") }
}
/// Proleptic Gregorian date of a day number (days since 1970-01-01).
fn civil(days: i64) -> (i64, i64, i64) {
    let (mut y, mut d) = (1i64, days + 719162);
    let n400 = d.div_euclid(146097);
    y += 400 * n400;
    d -= 146097 * n400;
    let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if d < n { break }
        d -= n;
        y += 1;
    }
    let ml = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while d >= ml[m] { d -= ml[m]; m += 1 }
    (y, m as i64 + 1, d + 1)
}
pub fn ts_text(s: i64, n: i32) -> String {
    let (y, mo, d) = civil(s.div_euclid(86400));
    let t = s.rem_euclid(86400);
    format!("{y:04}-{mo:02}-{d:02}T{:02}:{:02}:{:02}{}Z", t / 3600, t / 60 % 60, t % 60, frac(n as u32))
}
pub fn dur_text(s: i64, n: i32) -> String {
    format!("{}{}{}s", if s < 0 || n < 0 { "-" } else { "" }, s.abs(), frac(n.unsigned_abs()))
}
fn wk_json(w: &Wk, o: O) -> J {
    match w {
        Wk::Ts(a, b) => json!(ts_text(*a, *b)),
        Wk::Dur(a, b) => json!(dur_text(*a, *b)),
        Wk::Struct(m) => J::Object(m.iter().map(|(k, v)| (k.clone(), jv_json(v))).collect()),
        Wk::Val(v) => jv_json(v),
        Wk::List(l) => J::Array(l.iter().map(jv_json).collect()),
        Wk::F32(x) => jf32(*x),
        Wk::F64(x) => jf64(*x),
        Wk::I32(x) => json!(x),
        Wk::U32(x) => json!(x),
        Wk::I64(x) => if o.str64 { json!(x.to_string()) } else { json!(x) },
        Wk::U64(x) => if o.str64 { json!(x.to_string()) } else { json!(x) },
        Wk::Bool(x) => json!(x),
        Wk::Str(x) => json!(x),
        Wk::Bytes(x) => json!(b64(x, false, true)),
        Wk::Mask(p) => json!(p.iter().map(|x| x.split('.').map(json_name).collect::<Vec<_>>().join(".")).collect::<Vec<_>>().join(",")),
        Wk::Empty => json!({}),
        Wk::Any(dom, p) => {
            let url = format!("{dom}/{}", wk_name(p));
            match wk_json(p, o) {
                J::Object(mut m) if matches!(**p, Wk::Inner(..)) => {
                    m.insert("@type".into(), json!(url));
                    J::Object(m)
                }
                v => json!({"@type": url, "value": v}),
            }
        }
        Wk::Inner(a, b, t, l) => {
            let mut m = serde_json::Map::new();
            if *a != 0 || !o.skip { m.insert("a".into(), json!(a)); }
            if !b.is_empty() || !o.skip { m.insert(if o.proto_name { "b_c" } else { "bC" }.into(), json!(b)); }
            if let Some((s, n)) = t { m.insert("t".into(), json!(ts_text(*s, *n))); }
            if !l.is_empty() || !o.skip { m.insert("l".into(), J::Array(l.iter().map(|x| if o.str64 { json!(x.to_string()) } else { json!(x) }).collect())); }
            J::Object(m)
        }
    }
}
fn w_json(m: &Wm, o: O) -> J {
    let mut out = serde_json::Map::new();
    let name = |p: &str, n: &str| { let x = format!("{p}_{}", n.to_lowercase()); if o.proto_name { x } else { json_name(&x) } };
    for (i, n) in WKS.iter().enumerate() {
        if let Some(w) = m.single.get(&i) { out.insert(name("s", n), wk_json(w, o)); }
        let e = vec![];
        let l = m.rep.get(&i).unwrap_or(&e);
        if !l.is_empty() || !o.skip { out.insert(name("r", n), J::Array(l.iter().map(|w| wk_json(w, o)).collect())); }
        let e = BTreeMap::new();
        let l = m.map.get(&i).unwrap_or(&e);
        if !l.is_empty() || !o.skip { out.insert(name("m", n), J::Object(l.iter().map(|(k, w)| (k.clone(), wk_json(w, o))).collect())); }
        if let Some((k, w)) = &m.one { if *k == i { out.insert(name("o", n), wk_json(w, o)); } }
    }
    if !o.skip { out.insert(name("s", "null"), J::Null); }
    if m.nulls.0 > 0 || !o.skip { out.insert(name("r", "null"), J::Array(vec![J::Null; m.nulls.0])); }
    if !m.nulls.1.is_empty() || !o.skip { out.insert(name("m", "null"), J::Object(m.nulls.1.iter().map(|k| (k.clone(), J::Null)).collect())); }
    if m.nulls.2 { out.insert(name("o", "null"), J::Null); }
    J::Object(out)
}
pub fn w_build(pool: &DescriptorPool, m: &Wm) -> DynamicMessage {
    let d = pool.get_message_by_name("w.W").unwrap();
    let mut dm = DynamicMessage::new(d.clone());
    let val = |w: &Wk| {
        let md = pool.get_message_by_name(&wk_name(w)).unwrap();
        Value::Message(DynamicMessage::decode(md, wk_bytes(w).as_slice()).unwrap())
    };
    for (i, w) in &m.single { dm.set_field_by_number(*i as u32 + 1, val(w)); }
    for (i, l) in &m.rep { dm.set_field_by_number(*i as u32 + 101, Value::List(l.iter().map(val).collect())); }
    for (i, l) in &m.map { dm.set_field_by_number(*i as u32 + 201, Value::Map(l.iter().map(|(k, w)| (MapKey::String(k.clone()), val(w))).collect())); }
    if let Some((i, w)) = &m.one { dm.set_field_by_number(*i as u32 + 301, val(w)); }
    if m.nulls.0 > 0 { dm.set_field_by_number(150, Value::List(vec![Value::EnumNumber(0); m.nulls.0])); }
    if !m.nulls.1.is_empty() { dm.set_field_by_number(250, Value::Map(m.nulls.1.iter().map(|k| (MapKey::String(k.clone()), Value::EnumNumber(0))).collect())); }
    if m.nulls.2 { dm.set_field_by_number(350, Value::EnumNumber(0)); }
    dm
}
/// Equality of what is present in two messages of the same type.
pub fn same(a: &DynamicMessage, b: &DynamicMessage) -> Result<(), String> {
    if a.descriptor() != b.descriptor() { return Err("message types differ".into()) }
    let mut x: Vec<_> = a.fields().collect();
    let mut y: Vec<_> = b.fields().collect();
    x.sort_by_key(|f| f.0.number());
    y.sort_by_key(|f| f.0.number());
    let nums = |v: &[(FieldDescriptor, &Value)]| v.iter().map(|f| f.0.number()).collect::<Vec<_>>();
    if nums(&x) != nums(&y) {
        return Err(format!("{}: present fields {:?} and {:?}", a.descriptor().name(), nums(&x), nums(&y)));
    }
    if a.descriptor().full_name() == "google.protobuf.Any" {
        // The payloads are compared as messages: the order of map entries is not determined.
        let part = |m: &DynamicMessage| (m.get_field_by_number(1).unwrap().as_str().unwrap().to_string(), m.get_field_by_number(2).unwrap().as_bytes().unwrap().clone());
        let ((ua, va), (ub, vb)) = (part(a), part(b));
        if ua != ub { return Err(format!("type URLs {ua} and {ub}")) }
        let t = ua.rsplit_once('/').and_then(|u| a.descriptor().parent_pool().get_message_by_name(u.1));
        return match t {
            Some(t) if va != vb => same(&DynamicMessage::decode(t.clone(), va).map_err(|e| e.to_string())?, &DynamicMessage::decode(t, vb).map_err(|e| e.to_string())?),
            None if va != vb => Err("payloads differ".into()),
            _ => Ok(()),
        };
    }
    for ((f, v), (_, w)) in x.iter().zip(&y) {
        same_v(v, w).map_err(|e| format!("{}: {e}", f.name()))?;
    }
    Ok(())
}
fn same_v(a: &Value, b: &Value) -> Result<(), String> {
    match (a, b) {
        (Value::Message(a), Value::Message(b)) => same(a, b),
        (Value::List(a), Value::List(b)) if a.len() == b.len() => a.iter().zip(b).try_for_each(|(x, y)| same_v(x, y)),
        (Value::Map(a), Value::Map(b)) if a.len() == b.len() => a.iter().try_for_each(|(k, x)| same_v(x, b.get(k).ok_or_else(|| format!("key {k:?} is lost"))?)),
        (Value::Message(_) | Value::List(_) | Value::Map(_), _) => Err("shapes differ".into()),
        (Value::F32(a), Value::F32(b)) if a.is_nan() && b.is_nan() => Ok(()),
        (Value::F64(a), Value::F64(b)) if a.is_nan() && b.is_nan() => Ok(()),
        (a, b) if scalar_eq(a, b) => Ok(()),
        (a, b) => Err(format!("{a} and {b}")),
    }
}

// ------------------------------------------------------------------------------------------- P14

fn good_snake(p: &str) -> bool {
    p.split('.').all(|seg| {
        !seg.is_empty() && seg.split('_').enumerate().all(|(i, w)| {
            !w.is_empty() && w.as_bytes()[0].is_ascii_lowercase() && w.bytes().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit()) && (i == 0 || !w.is_empty())
        })
    })
}
fn good_camel(p: &str) -> bool {
    p.split('.').all(|seg| !seg.is_empty() && seg.as_bytes()[0].is_ascii_lowercase() && seg.bytes().all(|c| c.is_ascii_alphanumeric()))
}
fn mask_ser(d: &MessageDescriptor, paths: &[String]) -> Option<String> {
    let b = prost_types::FieldMask { paths: paths.to_vec() }.encode_to_vec();
    let m = DynamicMessage::decode(d.clone(), b.as_slice()).unwrap();
    ser(&m, &SerializeOptions::new()).ok().map(|t| serde_json::from_str::<String>(&t).unwrap())
}
fn mask_de(d: &MessageDescriptor, text: &str) -> Option<Vec<String>> {
    let m = de(d, &J::String(text.into()).to_string()).ok()?;
    Some(m.transcode_to::<prost_types::FieldMask>().unwrap().paths)
}
fn mask_check(d: &MessageDescriptor, p: &[String]) -> Result<bool, String> {
    let out = mask_ser(d, p);
    if let Some(j) = &out {
        if mask_de(d, j).as_deref() != Some(p) {
            return Err(format!("paths {p:?} are written as {j:?}, which reads back as {:?}", mask_de(d, j)));
        }
    }
    if p.iter().all(|x| good_snake(x)) {
        let want = p.iter().map(|x| x.split('.').map(json_name).collect::<Vec<_>>().join(".")).collect::<Vec<_>>().join(",");
        if out.as_deref() != Some(want.as_str()) {
            return Err(format!("paths {p:?} are written as {out:?}, not {want:?}"));
        }
    }
    Ok(out.is_some())
}
fn camel_check(d: &MessageDescriptor, j: &str) -> Result<bool, String> {
    let out = mask_de(d, j);
    if let Some(p) = &out {
        // Empty paths between commas are skipped.
        let want = j.split(',').filter(|x| !x.is_empty()).collect::<Vec<_>>().join(",");
        if mask_ser(d, p) != Some(want) {
            return Err(format!("{j:?} is read as {p:?}, which is written as {:?}", mask_ser(d, p)));
        }
    }
    if good_camel(j) {
        let mut want = String::new();
        for c in j.chars() {
            if c.is_ascii_uppercase() { want.push('_') }
            want.push(c.to_ascii_lowercase());
        }
        if out != Some(vec![want.clone()]) {
            return Err(format!("{j:?} is read as {out:?}, not {want:?}"));
        }
    }
    Ok(out.is_some())
}
pub fn p14(cx: &mut Cx) -> &'static str {
    let d = DescriptorPool::global().get_message_by_name("google.protobuf.FieldMask").unwrap();
    let abc: Vec<char> = "abzAZ_0.,-é".chars().collect();
    let max = cx.n(4, 5);
    let mut all = vec![String::new()];
    let mut i = 0;
    while i < all.len() {
        if all[i].chars().count() < max {
            for c in &abc {
                let mut x = all[i].clone();
                x.push(*c);
                all.push(x);
            }
        }
        i += 1;
    }
    for chunk in all.chunks(64) {
        if cx.stop() { break }
        for x in chunk {
            cx.case("exhaustive", |_| {
                let a = mask_check(&d, std::slice::from_ref(x))?;
                let b = camel_check(&d, x)?;
                Ok(if a || b { h(x) } else { 0 })
            });
        }
    }
    for i in 0..cx.n(10000, 100000) {
        if cx.stop() { break }
        cx.case("random", |r| {
            let abc: Vec<char> = if i % 3 == 0 { "ab_Z9.".chars().collect() } else { "abcxyzABCXYZ_09.,@[`{ßéİıſK𝒜 ".chars().collect() };
            let mut gen = |r: &mut Rng| (0..r.below(14)).map(|_| *r.pick(&abc)).collect::<String>();
            let p: Vec<String> = (0..r.below(4)).map(|_| gen(r)).collect();
            let j = gen(r);
            let a = mask_check(&d, &p)?;
            let b = camel_check(&d, &j)?;
            note(|| format!("{p:?} {a}; {j:?} {b}"));
            Ok(if a || b { h((p, j)) } else { 0 })
        });
    }
    // every ASCII character next to an underscore or alone
    for c in 0..128u8 {
        for t in ["a_@", "a@", "@", "@_a", "a_@b", "a.@", "a@@b"] {
            cx.case("ascii", |_| {
                let x = t.replace('@', &(c as char).to_string());
                mask_check(&d, &[x.clone()])?;
                camel_check(&d, &x)?;
                Ok(h(x))
            });
        }
    }
    "all strings up to a length over an 11-character alphabet, every ASCII character in several contexts and random longer strings (Unicode included), converted in both directions through FieldMask; also masks of several paths; lower_snake_case and lowerCamelCase paths must convert"
}

// ------------------------------------------------------------------------------------------- P15

fn days_of(y: i64, m: i64, d: i64) -> Option<i64> {
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let ml = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if !(1..=12).contains(&m) || d < 1 || d > ml[m as usize - 1] { return None }
    let yp = y - 1;
    let mut n = 365 * yp + yp.div_euclid(4) - yp.div_euclid(100) + yp.div_euclid(400);
    n += ml[..m as usize - 1].iter().sum::<i64>() + d - 1;
    Some(n - 719162)
}
/// Independent reader. None: not claimed (leap seconds). Some(None): to be rejected.
fn ts_parse(s: &str) -> Option<Option<(i64, i32)>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut num = |n: usize| -> Option<i64> {
        let t = b.get(i..i + n)?;
        if !t.iter().all(|c| c.is_ascii_digit()) { return None }
        i += n;
        std::str::from_utf8(t).unwrap().parse().ok()
    };
    // fixed part
    let parts = (|| {
        let y = num(4)?;
        Some(y)
    })();
    let Some(y) = parts else { return Some(None) };
    let fixed = |at: usize, c: u8| b.get(at) == Some(&c);
    let two = |at: usize| -> Option<i64> {
        let t = b.get(at..at + 2)?;
        if t.iter().all(|c| c.is_ascii_digit()) { Some((t[0] - b'0') as i64 * 10 + (t[1] - b'0') as i64) } else { None }
    };
    if !(fixed(4, b'-') && fixed(7, b'-') && fixed(10, b'T') && fixed(13, b':') && fixed(16, b':')) { return Some(None) }
    let (Some(mo), Some(d), Some(h), Some(mi), Some(se)) = (two(5), two(8), two(11), two(14), two(17)) else { return Some(None) };
    let mut at = 19;
    let mut nanos = 0i64;
    if fixed(at, b'.') {
        at += 1;
        let st = at;
        let mut scale = 100_000_000;
        while b.get(at).is_some_and(|c| c.is_ascii_digit()) {
            nanos += (b[at] - b'0') as i64 * scale;
            scale /= 10;
            at += 1;
        }
        if at == st { return Some(None) }
    }
    let off = match b.get(at) {
        Some(b'Z') => { at += 1; 0 }
        Some(c @ (b'+' | b'-')) => {
            let (Some(oh), Some(om)) = (two(at + 1), two(at + 4)) else { return Some(None) };
            if !fixed(at + 3, b':') { return Some(None) }
            if oh > 23 || om > 59 { return Some(None) }
            at += 6;
            (oh * 3600 + om * 60) * if *c == b'+' { 1 } else { -1 }
        }
        _ => return Some(None),
    };
    if at != b.len() { return Some(None) }
    if se == 60 { return None }
    let Some(days) = days_of(y, mo, d) else { return Some(None) };
    if h > 23 || mi > 59 || se > 59 { return Some(None) }
    let t = days * 86400 + h * 3600 + mi * 60 + se - off;
    Some(if (-62135596800..=253402300799).contains(&t) { Some((t, nanos as i32)) } else { None })
}
/// None: not claimed (more than nine fractional digits).
fn dur_parse(s: &str) -> Option<Option<(i64, i32)>> {
    let (neg, t) = match s.strip_prefix('-') { Some(t) => (true, t), None => (false, s) };
    let Some(t) = t.strip_suffix('s') else { return Some(None) };
    let (i, f) = match t.split_once('.') { Some((i, f)) => (i, Some(f)), None => (t, None) };
    let digits = |x: &str| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit());
    if !digits(i) || f.is_some_and(|f| !digits(f)) { return Some(None) }
    if f.is_some_and(|f| f.len() > 9) { return None }
    let Ok(sec) = i.parse::<i64>() else { return Some(None) };
    if sec > 315_576_000_000 { return Some(None) }
    let n: i32 = format!("{:0<9}", f.unwrap_or("")).parse().unwrap();
    Some(Some(if neg { (-sec, -n) } else { (sec, n) }))
}
fn mutate(r: &mut Rng, s: &str) -> String {
    let mut b: Vec<char> = s.chars().collect();
    let abc: Vec<char> = "0123456789-+:.TZtzs ,é".chars().collect();
    for _ in 0..1 + r.below(2) {
        let i = r.below(b.len() + 1);
        match r.below(4) {
            0 if i < b.len() => { b.remove(i); }
            1 => b.insert(i, *r.pick(&abc)),
            2 if i < b.len() => b[i] = *r.pick(&abc),
            _ if i < b.len() && b[i].is_ascii_digit() => b[i] = (b'0' + r.below(10) as u8) as char,
            _ => {}
        }
    }
    b.into_iter().collect()
}
pub fn p15(cx: &mut Cx) -> &'static str {
    let pool = DescriptorPool::global();
    let td = pool.get_message_by_name("google.protobuf.Timestamp").unwrap();
    let dd = pool.get_message_by_name("google.protobuf.Duration").unwrap();
    let pair = |m: &DynamicMessage| (m.get_field_by_number(1).unwrap().as_i64().unwrap(), m.get_field_by_number(2).unwrap().as_i32().unwrap());
    let mk = |d: &MessageDescriptor, s: i64, n: i32| {
        let mut m = DynamicMessage::new(d.clone());
        m.set_field_by_number(1, Value::I64(s));
        m.set_field_by_number(2, Value::I32(n));
        m
    };
    for _ in 0..cx.n(40000, 400000) {
        if cx.stop() { break }
        cx.case("write", |r| {
            let ts = r.chance(1, 2);
            let (mut s, mut n) = if ts { gen_ts(r) } else { gen_dur(r) };
            match r.below(6) {
                0 => s = [-62135596801, 253402300800, -62135596800, 253402300799, i64::MIN, i64::MAX, 0, 315_576_000_001, -315_576_000_001, 315_576_000_000, -315_576_000_000, 315_575_999_999][r.below(12)],
                1 => n = [-1, 1_000_000_000, -999_999_999, 999_999_999, i32::MIN, i32::MAX, -1_000_000_000, 0][r.below(8)],
                2 => { s = r.below(3) as i64 - 1; n = [-1, 0, 1, -999_999_999, 999_999_999][r.below(5)] }
                3 => s = r.next() as i64,
                _ => {}
            }
            let ok = if ts {
                (-62135596800..=253402300799).contains(&s) && (0..=999_999_999).contains(&n)
            } else {
                s.unsigned_abs() <= 315_576_000_000 && n.unsigned_abs() <= 999_999_999 && (s <= 0 || n >= 0) && (s >= 0 || n <= 0)
            };
            let d = if ts { &td } else { &dd };
            let got = ser(&mk(d, s, n), &SerializeOptions::new()).ok().map(|t| serde_json::from_str::<String>(&t).unwrap());
            let want = ok.then(|| if ts { ts_text(s, n) } else { dur_text(s, n) });
            let nm = d.name();
            if got != want { return Err(format!("{nm} {s} s {n} ns is written as {got:?}, expected {want:?}")) }
            if let Some(t) = got {
                let m = de(d, &json!(t).to_string()).map_err(|e| format!("own text {t} is rejected: {e}"))?;
                if pair(&m) != (s, n) { return Err(format!("{nm} {s} s {n} ns is written as {t}, which reads back as {:?}", pair(&m))) }
                note(|| t);
            }
            Ok(h((ts, s, n)))
        });
    }
    for _ in 0..cx.n(40000, 400000) {
        if cx.stop() { break }
        cx.case("read", |r| {
            let ts = r.chance(3, 5);
            let mut t = if ts {
                let (s, n) = gen_ts(r);
                let mut t = ts_text(s, n);
                if r.chance(1, 3) {
                    t.pop();
                    t += ["+00:00", "-00:00", "+01:00", "-08:30", "+23:59", "-23:59", "+24:00", "+00:60", "z", "+0100", "+01", "", " +01:00", "Z "][r.below(14)];
                }
                if r.chance(1, 10) { t = t.replace('T', [" ", "t", "_", ""][r.below(4)]) }
                if r.chance(1, 10) { t.replace_range(5..10, ["02-29", "02-30", "04-31", "13-01", "00-10", "12-00", "01-32", "06-31"][r.below(8)]) }
                if t.len() >= 19 && r.chance(1, 10) { t.replace_range(11..19, ["24:00:00", "23:60:00", "23:59:59", "00:00:00", "23:59:61", "23:59:99"][r.below(6)]) }
                t
            } else {
                let (s, n) = gen_dur(r);
                let mut t = dur_text(s, n);
                if r.chance(1, 4) {
                    t = ["0s", "-0s", "1.s", ".5s", "1", "s", "-s", "+1s", "1.5", "315576000000s", "315576000001s", "-315576000000.999999999s", "315576000000.999999999s", "1e3s", "0x1s", "1 s", " 1s", "1s ", "1.0000000001s", "--1s", "-0.5s", "0.1s", "00001s", "9223372036854775808s", "-9223372036854775808s", "1.-5s", "1.5S", ""][r.below(28)].to_string();
                }
                t
            };
            if r.chance(2, 5) { t = mutate(r, &t) }
            let d = if ts { &td } else { &dd };
            let got = de(d, &json!(t).to_string()).ok().map(|m| pair(&m));
            let Some(want) = (if ts { ts_parse(&t) } else { dur_parse(&t) }) else { return Ok(0) };
            if got != want { return Err(format!("{} {t:?} is read as {got:?}, expected {want:?}", d.name())) }
            Ok(h((ts, t)))
        });
    }
    "(seconds, nanos) pairs at and around every limit and random ones, written and read back; valid texts with every offset form, impossible dates and times, and mutated texts, read; compared with independent calendar arithmetic and grammars"
}
