//! P16-P18: the text format.
use crate::{core::*, cx::*, json, model::*, rng::Rng};
use prost::Message as _;
use prost_reflect::{text_format::FormatOptions, *};

fn lit_schema() -> Schema {
    let mk = |name: &str, num: u32, kind, card| Fld { name: name.into(), num, kind, card, oneof: None, synth: false, ext: false, default: None, other_options: false };
    let mut fields = vec![mk("b", 1, K::Bytes, Card::Implicit), mk("s", 2, K::Str, Card::Implicit), mk("mb", 3, K::Bytes, Card::Map(K::Str)), mk("rb", 4, K::Bytes, Card::Rep(None)), mk("e", 5, K::Enum(0), Card::Implicit)];
    for (i, k) in [K::Int32, K::Int64, K::Uint32, K::Uint64, K::Sint32, K::Sint64, K::Fixed32, K::Fixed64, K::Sfixed32, K::Sfixed64].into_iter().enumerate() {
        let i = i as u32;
        fields.push(mk(&format!("i{i}"), 10 + i, k, Card::Implicit));
        fields.push(mk(&format!("r{i}"), 30 + i, k, Card::Rep(None)));
        fields.push(mk(&format!("k{i}"), 50 + i, K::Bool, Card::Map(k)));
        fields.push(mk(&format!("v{i}"), 70 + i, k, Card::Map(K::Str)));
    }
    Schema { pkg: "t", proto3: true, msgs: vec![Msg { name: "M0".into(), fields, oneofs: vec![] }], enums: vec![En { name: "E0".into(), values: vec![("Z".into(), 0), ("X".into(), 7)] }] }
}

// ------------------------------------------------------------------------------------------- P16

/// Independent reader of one quoted literal at the start of the text: the bytes and the rest.
fn literal(t: &str) -> Option<(Vec<u8>, &str)> {
    let q = t.chars().next().filter(|c| *c == '"' || *c == '\'')?;
    let cs: Vec<(usize, char)> = t.char_indices().collect();
    let mut i = 1;
    let mut out = vec![];
    let digs = |i: usize, radix: u32, max: usize| cs[i..].iter().take(max).take_while(|c| c.1.is_digit(radix)).map(|c| c.1).collect::<String>();
    loop {
        let &(at, c) = cs.get(i)?;
        i += 1;
        match c {
            '\0' | '\n' => return None,
            c if c == q => return Some((out, &t[at + 1..])),
            '\\' => {
                let &(_, e) = cs.get(i)?;
                i += 1;
                match e {
                    'a' => out.push(7),
                    'b' => out.push(8),
                    'f' => out.push(12),
                    'n' => out.push(10),
                    'r' => out.push(13),
                    't' => out.push(9),
                    'v' => out.push(11),
                    '?' | '\\' | '\'' | '"' => out.push(e as u8),
                    '0'..='7' => {
                        let d = digs(i - 1, 8, 3);
                        i += d.len() - 1;
                        out.push(u8::try_from(u32::from_str_radix(&d, 8).unwrap()).ok()?);
                    }
                    'x' | 'X' => {
                        let d = digs(i, 16, 2);
                        if d.is_empty() { return None }
                        i += d.len();
                        out.push(u8::from_str_radix(&d, 16).unwrap());
                    }
                    'u' | 'U' => {
                        let n = if e == 'u' { 4 } else { 8 };
                        let d = digs(i, 16, n);
                        if d.len() != n { return None }
                        i += n;
                        let ch = char::from_u32(u32::from_str_radix(&d, 16).unwrap())?;
                        out.extend(ch.to_string().as_bytes());
                    }
                    _ => return None,
                }
            }
            c => out.extend(c.to_string().as_bytes()),
        }
    }
}
fn literals(t: &str) -> Option<Vec<u8>> {
    let (mut out, mut rest) = literal(t)?;
    loop {
        rest = rest.trim_start_matches([' ', '\n', '\t']);
        if rest.is_empty() { return Some(out) }
        let (x, r) = literal(rest)?;
        out.extend(x);
        rest = r;
    }
}
fn bytes_field(d: &MessageDescriptor, name: &str, text: &str) -> Option<Vec<u8>> {
    let m = DynamicMessage::parse_text_format(d.clone(), text).ok()?;
    match m.get_field_by_name(name)?.into_owned() {
        Value::Bytes(b) => Some(b.to_vec()),
        Value::String(s) => Some(s.into_bytes()),
        _ => None,
    }
}
fn write_check(d: &MessageDescriptor, b: &[u8]) -> Result<(), String> {
    let mut m = DynamicMessage::new(d.clone());
    m.set_field_by_name("b", Value::Bytes(b.to_vec().into()));
    if let Ok(s) = std::str::from_utf8(b) {
        m.set_field_by_name("s", Value::String(s.into()));
        m.set_field_by_name("mb", Value::Map([(MapKey::String(s.into()), Value::Bytes(b.to_vec().into()))].into()));
    }
    m.set_field_by_name("rb", Value::List(vec![Value::Bytes(b.to_vec().into()), Value::Bytes(b.to_vec().into())]));
    for t in [m.to_text_format(), format!("{m:#}")] {
        if !t.bytes().all(|c| (0x20..0x7f).contains(&c) || c == b'\n') {
            return Err(format!("{} is written as {t:?}, which is not printable ASCII", hex(b)));
        }
        if !t.starts_with("mb") && !b.is_empty() {
            // the literal itself, read by an independent reader
            let (_, lit) = t.split_once(':').ok_or("no literal")?;
            match literal(lit.trim_start()) {
                Some((x, _)) if x == b => {}
                x => return Err(format!("{} is written as {t:?}, a literal denoting {:?}", hex(b), x.map(|x| hex(&x.0)))),
            }
        }
        let back = DynamicMessage::parse_text_format(d.clone(), &t).map_err(|e| format!("own text is rejected: {e}\n{t}"))?;
        json::same(&m, &back).map_err(|e| format!("{} is written as {t:?}, which reads back differently: {e}", hex(b)))?;
    }
    Ok(())
}
pub fn p16(cx: &mut Cx) -> &'static str {
    let s = lit_schema();
    let pool = s.pool();
    let d = desc(&s, &pool, 0);
    for a in 0..=255u8 {
        if cx.stop() { break }
        cx.case("pairs", |r| {
            write_check(&d, &[a])?;
            let some: Vec<u8> = if r.chance(1, 1) { (0..=255u8).collect() } else { vec![] };
            for b in some { write_check(&d, &[a, b])? }
            Ok(h(a))
        });
    }
    for i in 0..cx.n(6000, 60000) {
        if cx.stop() { break }
        cx.case("bytes", |r| {
            let b: Vec<u8> = match i % 4 {
                0 => gen_string(r).into_bytes(),
                1 => (0..r.below(12)).map(|_| *r.pick(b"\\\"'0189abfnxXu?\n\t\r\x00\x7f\xff")).collect(),
                _ => (0..r.below(20)).map(|_| r.next() as u8).collect(),
            };
            write_check(&d, &b)?;
            note(|| hex(&b));
            Ok(h(b))
        });
    }
    // every one-character escape and every short escape body
    let body: Vec<char> = "0178aAfFxXuUgn\\\"'? _é\n".chars().collect();
    let mut esc: Vec<String> = (0..128u8).map(|c| (c as char).to_string()).collect();
    for a in &body { for b in &body { for c in &body {
        esc.push(format!("{a}{b}"));
        esc.push(format!("{a}{b}{c}"));
    } } }
    for n in 0..512 { esc.push(format!("{n:o}")); esc.push(format!("{n:03o}")); esc.push(format!("{n:03o}7")) }
    for n in 0..256 { esc.push(format!("x{n:x}")); esc.push(format!("X{n:02X}0")) }
    for n in [0u32, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0xffffffff] {
        esc.push(format!("u{n:04x}"));
        esc.push(format!("U{n:08x}"));
        esc.push(format!("U{n:07x}"));
    }
    let read = |d: &MessageDescriptor, lit: &str| -> Result<bool, String> {
        let want = literals(lit);
        let got = bytes_field(d, "b", &format!("b: {lit}"));
        if got != want { return Err(format!("the literal {lit:?} is read as {:?}, expected {:?}", got.map(|x| hex(&x)), want.map(|x| hex(&x)))) }
        let want = want.and_then(|x| String::from_utf8(x).ok()).map(|x| x.into_bytes());
        let got = bytes_field(d, "s", &format!("s: {lit}"));
        if got != want { return Err(format!("the string literal {lit:?} is read as {:?}, expected {:?}", got.map(|x| hex(&x)), want.map(|x| hex(&x)))) }
        Ok(want.is_some())
    };
    for e in &esc {
        cx.case("escape", |_| {
            read(&d, &format!("\"\\{e}\""))?;
            read(&d, &format!("'p\\{e}q'"))?;
            Ok(h(e))
        });
    }
    for _ in 0..cx.n(30000, 300000) {
        if cx.stop() { break }
        cx.case("literal", |r| {
            let parts = ["\\", "\\", "n", "x", "0", "3", "7", "8", "f", "\\x4", "\\101", "\\u00e9", "\\U0001F600", "u", "é", "\"", "'", " ", "\\'", "\\\"", "\\\\", "#", "\t", "\\?", "\\1234", "{", "\\ud83d\\ude00"];
            let mut lit = String::new();
            for _ in 0..1 + r.below(2) {
                let q = ['"', '\''][r.below(2)];
                lit.push(q);
                for _ in 0..r.below(7) {
                    let p = parts[r.below(parts.len())];
                    if p == "\"" || p == "'" { if r.chance(1, 4) || !p.starts_with(q) { lit += p } } else { lit += p }
                }
                if r.chance(19, 20) { lit.push(q) }
                if r.chance(1, 3) { lit.push(' ') }
            }
            // A '#' after the literal would be a comment: only whole literals are claimed.
            if literals(&lit).is_none() && (lit.contains('#') || lit.matches(['"', '\'']).count() % 2 == 1 && lit.contains('{')) { return Ok(0) }
            let ok = read(&d, &lit)?;
            note(|| lit.clone());
            Ok(if ok { h(lit) } else { h(("bad", lit)) })
        });
    }
    "every byte, every pair of bytes and random byte strings as bytes, string, list elements, map keys and values: written, read by an independent reader and by the parser; every escape (128 characters, all octal and hex values, code points at the UTF-8 limits) and random literals, read and compared with an independent reader"
}

// ------------------------------------------------------------------------------------------- P17

pub fn p17(cx: &mut Cx) -> &'static str {
    let s = lit_schema();
    let pool = s.pool();
    let d = desc(&s, &pool, 0);
    for _ in 0..cx.n(60000, 600000) {
        if cx.stop() { break }
        cx.case("int", |r| {
            let ki = r.below(11);
            let (lo, hi): (i128, i128) = match ki {
                0 | 4 | 8 | 10 => (i32::MIN as i128, i32::MAX as i128),
                1 | 5 | 9 => (i64::MIN as i128, i64::MAX as i128),
                2 | 6 => (0, u32::MAX as i128),
                _ => (0, u64::MAX as i128),
            };
            let mag: i128 = match r.below(9) {
                0 => 0,
                1 => 1i128 << 31,
                2 => 1i128 << 32,
                3 => 1i128 << 63,
                4 => 1i128 << 64,
                5 => r.next() as i128,
                6 => (r.next() as i128) << r.below(40),
                7 => r.below(300) as i128,
                _ => 1i128 << r.below(100),
            };
            let mag = (mag + r.below(5) as i128 - 2).max(0);
            let neg = r.chance(2, 5);
            let (mut lit, mut val) = match r.below(5) {
                0 | 1 => (format!("{mag}"), Some(mag)),
                2 => (format!("0{mag:o}"), Some(mag)),
                3 => (format!("0x{mag:x}"), Some(mag)),
                _ => (format!("0X{mag:X}"), Some(mag)),
            };
            // malformed
            if r.chance(1, 8) {
                val = None;
                lit = match r.below(9) {
                    0 => format!("{mag}.0"),
                    1 => format!("{mag}e1"),
                    2 => format!("{mag}f"),
                    3 => "08".into(),
                    4 => "0x".into(),
                    5 => format!("{lit}g"),
                    6 => format!("+{lit}"),
                    7 => format!("{lit}_"),
                    _ => format!("\"{lit}\""),
                };
            }
            if neg { lit = format!("-{}{lit}", ["", "", " "][r.below(3)]); val = val.map(|v| -v) }
            let form = if ki == 10 { 0 } else { r.below(4) };
            // The negative zero of unsigned types is not claimed.
            if neg && val == Some(0) && lo == 0 { return Ok(0) }
            let (name, text) = match form {
                _ if ki == 10 => ("e".to_string(), format!("e: {lit}")),
                0 => (format!("i{ki}"), format!("i{ki}: {lit}")),
                1 => (format!("r{ki}"), format!("r{ki}: [{lit}]")),
                2 => (format!("k{ki}"), format!("k{ki} {{ key: {lit} value: true }}")),
                _ => (format!("v{ki}"), format!("v{ki} {{ key: \"a\" value: {lit} }}")),
            };
            let got = match DynamicMessage::parse_text_format(d.clone(), &text) {
                Err(_) => None,
                Ok(m) => {
                    let v = m.get_field_by_name(&name).unwrap().into_owned();
                    let one = match v {
                        Value::List(l) if l.len() == 1 => l[0].clone(),
                        Value::Map(x) if x.len() == 1 && form == 2 => Value::from(x.keys().next().unwrap().clone()),
                        Value::Map(x) if x.len() == 1 => x.values().next().unwrap().clone(),
                        v => v,
                    };
                    Some(match one {
                        Value::I32(x) => x as i128,
                        Value::I64(x) => x as i128,
                        Value::U32(x) => x as i128,
                        Value::U64(x) => x as i128,
                        Value::EnumNumber(x) => x as i128,
                        v => return Err(format!("{text} is read as {v}")),
                    })
                }
            };
            let want = val.filter(|v| *v >= lo && *v <= hi);
            if got != want { return Err(format!("{text} is read as {got:?}, expected {want:?}")) }
            note(|| format!("{text} -> {got:?}"));
            Ok(h(text))
        });
    }
    "decimal, octal and hexadecimal literals with and without minus around every range limit, and malformed ones, for the ten integer kinds as fields, list elements, map keys and values, and for enums; compared with exact values"
}

// ------------------------------------------------------------------------------------------- P18

fn opts(i: usize) -> FormatOptions {
    FormatOptions::new().pretty(i & 1 != 0).skip_default_fields(i & 2 == 0).expand_any(i & 4 != 0).print_message_fields_in_index_order(i & 8 != 0).skip_unknown_fields(true)
}
pub fn nan_norm(m: &mut MM) {
    m.unk.clear();
    fn go(v: &mut V) {
        match v {
            V::S(Value::F32(x)) if x.is_nan() => *x = f32::NAN,
            V::S(Value::F64(x)) if x.is_nan() => *x = f64::NAN,
            V::M(m) => nan_norm(m),
            V::L(l) => l.iter_mut().for_each(go),
            V::Mp(l) => l.iter_mut().for_each(|x| go(&mut x.1)),
            _ => {}
        }
    }
    m.f.values_mut().for_each(go);
}
pub fn p18(cx: &mut Cx) -> &'static str {
    for_messages(cx, 16, 200, false, |s, pool, m, r| {
        let mut m = m.clone();
        nan_norm(&mut m);
        canon_deep(s, &mut m);
        let dm = build(s, pool, &m);
        let d = desc(s, pool, 0);
        let i = r.below(16);
        for t in [dm.to_text_format_with_options(&opts(i)), dm.to_text_format_with_options(&opts((i + 5) % 16)), format!("{dm}"), format!("{dm:#}")] {
            let back = DynamicMessage::parse_text_format(d.clone(), &t).map_err(|e| format!("own text is rejected: {e}\n{t}"))?;
            let b = observe(s, 0, &back)?;
            if b != m { return Err(format!("round trip gives {b:?}\n{t}")) }
            // `==` does not tell -0.0 from 0.0; map entries come in any order
            let bytes = |m: &DynamicMessage| { let mut b = m.encode_to_vec(); b.sort_unstable(); b };
            if bytes(&back) != bytes(&dm) { return Err(format!("round trip gives a message of other bytes\n{t}")) }
        }
        Ok(())
    });
    // Unknown fields are skipped when asked to.
    for_messages(cx, 2, 20, true, |s, pool, m, r| {
        let mut m = m.clone();
        let dm = build(s, pool, &m);
        fn strip(m: &mut MM) {
            m.unk.clear();
            fn go(v: &mut V) {
                match v {
                    V::M(m) => strip(m),
                    V::L(l) => l.iter_mut().for_each(go),
                    V::Mp(l) => l.iter_mut().for_each(|x| go(&mut x.1)),
                    _ => {}
                }
            }
            m.f.values_mut().for_each(go);
        }
        strip(&mut m);
        nan_norm(&mut m);
        canon_deep(s, &mut m);
        let t = dm.to_text_format_with_options(&opts(r.below(16)));
        let back = DynamicMessage::parse_text_format(desc(s, pool, 0), &t).map_err(|e| format!("own text is rejected: {e}\n{t}"))?;
        let b = observe(s, 0, &back)?;
        if b != m { return Err(format!("round trip without the unknown fields gives {b:?}\n{t}")) }
        Ok(())
    });
    let w = json::wkt_pool();
    for i in 0..cx.n(4000, 40000) {
        if cx.stop() { break }
        cx.case("wkt", |r| {
            let m = json::gen_w(r, &w, 2);
            let dm = json::w_build(&w, &m);
            let t = dm.to_text_format_with_options(&opts(i % 16));
            let back = DynamicMessage::parse_text_format(dm.descriptor(), &t).map_err(|e| format!("own text is rejected: {e}\n{t}"))?;
            json::same(&dm, &back).map_err(|e| format!("round trip differs: {e}\n{t}"))?;
            note(|| t.clone());
            Ok(h(t))
        });
    }
    // floats whose shortest decimal form is not exactly a double
    for bits in [0x15ae43fdu32, 0x95ae43fd, 1, 0x7f7fffff, 0x00800000, 0x80000001, 0x4b7fffff, 0x3f7fffff, 0x80000000, 0x7f800000, 0xff800000] {
        cx.case("f32", |_| {
            let s = full_schema(bits << 1 != 0);
            let pool = s.pool();
            let f = s.msgs[0].fields.iter().find(|f| f.kind == K::Float && f.card == if bits << 1 == 0 { Card::Explicit } else { Card::Implicit }).unwrap();
            let mut m = MM::new(0);
            m.f.insert(f.num, V::S(Value::F32(f32::from_bits(bits))));
            let t = build(&s, &pool, &m).to_text_format();
            let back = DynamicMessage::parse_text_format(desc(&s, &pool, 0), &t).map_err(|e| e.to_string())?;
            if observe(&s, 0, &back)? != m || back.encode_to_vec() != build(&s, &pool, &m).encode_to_vec() { return Err(format!("{t} is read back as another float")) }
            Ok(h(bits))
        });
    }
    let _ = Rng::new(0);
    "messages over generated schemas (every kind x cardinality, groups, extensions, oneofs) and generated well-known types (Any payloads with every kind of type URL), formatted under the option combinations and Display, and parsed back"
}
