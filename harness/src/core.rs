//! P01-P04: wire format.
use crate::{cx::*, model::*, rng::Rng};
use prost::Message as _;
use prost_reflect::*;

pub fn schemas(cx: &Cx, quick: usize, thorough: usize, o: GenOpts) -> Vec<Schema> {
    let mut r = Rng::new(cx.seed ^ 0xABCD);
    let mut v = vec![full_schema(true), full_schema(false)];
    for _ in 0..cx.n(quick, thorough) {
        v.push(gen_schema(&mut r, o));
    }
    v
}
pub const ALL: GenOpts = GenOpts { groups: true, exts: true };

/// All messages of the case set: one per field with extreme values, then random ones.
pub fn single_field(r: &mut Rng, s: &Schema, fi: usize) -> MM {
    let f = &s.msgs[0].fields[fi];
    let mut m = MM::new(0);
    let v = gen_field(r, s, f, 2, false);
    m.f.insert(f.num, v);
    m
}
pub fn for_messages(cx: &mut Cx, quick: usize, thorough: usize, unknown: bool, mut check: impl FnMut(&Schema, &DescriptorPool, &MM, &mut Rng) -> Result<(), String>) {
    let ss = schemas(cx, quick, thorough, ALL);
    for s in &ss {
        let pool = s.pool();
        let reps = cx.n(12, 60);
        for fi in 0..s.msgs[0].fields.len() {
            for _ in 0..reps {
                if cx.stop() { return }
                let key = format!("field:{:?}/{:?}", s.msgs[0].fields[fi].kind, s.msgs[0].fields[fi].card);
                cx.case(&key, |r| {
                    let m = single_field(r, s, fi);
                    check(s, &pool, &m, r).map_err(|e| format!("{e}\nmessage {m:?}\nschema {}", schema_json(s)))?;
                    Ok(h(format!("{m:?}")))
                });
            }
        }
        for i in 0..cx.n(60, 300) {
            if cx.stop() { return }
            let mut smp = None;
            cx.case("message", |r| {
                let m = gen_message(r, s, 0, 3, unknown);
                smp = Some(format!("{m:?}"));
                check(s, &pool, &m, r).map_err(|e| format!("{e}\nmessage {m:?}\nschema {}", schema_json(s)))?;
                Ok(if m.f.is_empty() && m.unk.is_empty() { 0 } else { h(format!("{m:?}")) })
            });
            if let (Some(x), 0) = (smp, i % 50) { cx.sample(|| x) }
        }
    }
}
fn lens(dm: &DynamicMessage) -> Result<(), String> {
    let n = dm.encoded_len();
    let b = dm.encode_to_vec();
    if b.len() != n {
        return Err(format!("encoded_len is {n} but {} bytes are written for {}", b.len(), dm.descriptor().name()));
    }
    let mut buf = vec![0xAAu8; n];
    let mut sl = &mut buf[..];
    dm.encode(&mut sl).map_err(|e| format!("encoding into a buffer of encoded_len bytes fails: {e}"))?;
    if !sl.is_empty() || buf != b {
        return Err("encoding into an exact buffer differs from encode_to_vec".into());
    }
    for u in dm.unknown_fields() {
        let mut b = vec![];
        u.encode(&mut b);
        if b.len() != u.encoded_len() {
            return Err(format!("unknown field {}: encoded_len {} but {} bytes", u.number(), u.encoded_len(), b.len()));
        }
    }
    for v in dm.fields().map(|x| x.1).chain(dm.extensions().map(|x| x.1)) {
        lens_v(v)?;
    }
    Ok(())
}
fn lens_v(v: &Value) -> Result<(), String> {
    match v {
        Value::Message(m) => lens(m),
        Value::List(l) => l.iter().try_for_each(lens_v),
        Value::Map(m) => m.values().try_for_each(lens_v),
        _ => Ok(()),
    }
}
pub fn p01(cx: &mut Cx) -> &'static str {
    for_messages(cx, 40, 400, true, |s, pool, m, _| {
        let dm = build(s, pool, m);
        lens(&dm)?;
        // The bytes are a well-formed encoding with exactly the length prefixes the wire format asks for.
        let mut c = m.clone();
        canon_deep(s, &mut c);
        let got = dec_ref(s, 0, &dm.encode_to_vec()).map_err(|e| format!("the written bytes are not a valid encoding: {e}"))?;
        if got != c {
            return Err(format!("the written bytes read back as {got:?}"));
        }
        Ok(())
    });
    "messages over generated schemas (every kind x cardinality, groups, extensions, unknown fields, tags of every width); non-trivial: at least one field or unknown record, counted by distinct content"
}
pub fn p02(cx: &mut Cx) -> &'static str {
    for_messages(cx, 40, 400, true, |s, pool, m, _| {
        let dm = build(s, pool, m);
        let mut c = m.clone();
        canon_deep(s, &mut c);
        let bytes = dm.encode_to_vec();
        let want = enc_ref(s, &c);
        let single = c.f.len() == 1 && c.unk.is_empty() && !contains_map(c.f.values().next().unwrap());
        if single && want != bytes {
            return Err(format!("encodes as {} but the specification prescribes {}", hex(&bytes), hex(&want)));
        }
        let d = desc(s, pool, 0);
        let back = DynamicMessage::decode(d.clone(), bytes.as_slice()).map_err(|e| format!("own encoding is rejected: {e}"))?;
        let got = observe(s, 0, &back)?;
        if got != c {
            return Err(format!("round trip gives {got:?}\nbytes {}", hex(&bytes)));
        }
        let back = DynamicMessage::decode(d, want.as_slice()).map_err(|e| format!("reference encoding is rejected: {e}"))?;
        let got = observe(s, 0, &back)?;
        if got != c {
            return Err(format!("the reference encoding decodes as {got:?}\nbytes {}", hex(&want)));
        }
        let got = dec_ref(s, 0, &bytes).map_err(|e| format!("the written bytes are not a valid encoding: {e}"))?;
        if got != c {
            return Err(format!("a reference decoder reads the written bytes as {got:?}\nbytes {}", hex(&bytes)));
        }
        Ok(())
    });
    "messages over generated schemas (every kind x cardinality, groups, extensions, unknown fields); each is encoded, compared byte for byte (single-field messages without maps) with an independent encoder, and decoded by both decoders"
}
fn contains_map(v: &V) -> bool {
    match v {
        V::Mp(_) => true,
        V::M(m) => m.f.values().any(contains_map) || m.f.len() > 1 || !m.unk.is_empty(),
        V::L(l) => l.iter().any(contains_map),
        V::S(_) => false,
    }
}
/// A random sequence of records for fields of the message type: split, repeated, packed or unpacked.
fn gen_records(r: &mut Rng, s: &Schema, ty: usize, depth: usize) -> Vec<u8> {
    let mut recs: Vec<Vec<u8>> = vec![];
    let n = 1 + r.below(8);
    let nf = s.msgs[ty].fields.len();
    let focus: Vec<usize> = (0..1 + r.below(3)).map(|_| r.below(nf)).collect();
    for _ in 0..n {
        let f = &s.msgs[ty].fields[if r.chance(2, 3) { *r.pick(&focus) } else { r.below(nf) }];
        let v = gen_field(r, s, f, depth, false);
        let mut b = vec![];
        match (&f.card, v) {
            (Card::Rep(_), V::L(l)) => {
                if packable(f.kind) && r.chance(1, 2) {
                    enc_packed(&mut b, f.num, f.kind, &l);
                } else {
                    for x in &l { enc_elem(s, &mut b, f.num, f.kind, x) }
                }
            }
            (Card::Map(kk), V::Mp(l)) => {
                for (k, x) in &l {
                    let mut e = vec![];
                    let kv = V::S(Value::from(k.clone()));
                    match r.below(8) {
                        0 => enc_elem(s, &mut e, 1, *kk, &kv),
                        1 => enc_elem(s, &mut e, 2, f.kind, x),
                        2 => {}
                        3 => {
                            enc_elem(s, &mut e, 2, f.kind, x);
                            e.extend([0x18, 0x05]);
                            enc_elem(s, &mut e, 1, *kk, &kv);
                        }
                        4 => {
                            enc_elem(s, &mut e, 1, *kk, &kv);
                            enc_elem(s, &mut e, 2, f.kind, x);
                            let y = gen_value(r, s, f.kind, 1, false);
                            enc_elem(s, &mut e, 2, f.kind, &y);
                        }
                        _ => {
                            enc_elem(s, &mut e, 1, *kk, &kv);
                            enc_elem(s, &mut e, 2, f.kind, x);
                        }
                    }
                    key(&mut b, f.num, 2);
                    varint(&mut b, e.len() as u64);
                    b.extend(e);
                }
            }
            (_, v) => enc_elem(s, &mut b, f.num, f.kind, &v),
        }
        recs.push(b);
        if r.chance(1, 8) {
            recs.push(gen_unknown(r, s, ty, 1).1);
        }
    }
    r.shuffle(&mut recs);
    recs.concat()
}
fn dec_both(s: &Schema, pool: &DescriptorPool, bytes: &[u8], strict: bool) -> Result<bool, String> {
    let want = dec_ref(s, 0, bytes);
    let got = DynamicMessage::decode(desc(s, pool, 0), bytes);
    match (want, got) {
        (Ok(w), Ok(g)) => {
            let g = observe(s, 0, &g)?;
            if g != w {
                return Err(format!("decodes as {g:?}\nbut the wire format says {w:?}\nbytes {}", hex(bytes)));
            }
            Ok(true)
        }
        (Ok(w), Err(e)) => Err(format!("valid input rejected: {e}\nmeaning {w:?}\nbytes {}", hex(bytes))),
        (Err(e), Ok(g)) if strict => Err(format!("invalid input accepted ({e}) as {:?}\nbytes {}", observe(s, 0, &g)?, hex(bytes))),
        _ => Ok(false),
    }
}
pub fn p03(cx: &mut Cx) -> &'static str {
    let ss = schemas(cx, 40, 400, ALL);
    for s in &ss {
        let pool = s.pool();
        for i in 0..cx.n(350, 2000) {
            if cx.stop() { break }
            let mut smp = None;
            cx.case("records", |r| {
                let a = gen_records(r, s, 0, 2);
                smp = Some(hex(&a));
                dec_both(s, &pool, &a, true).map_err(|e| format!("{e}\nschema {}", schema_json(s)))?;
                // concatenation is merging
                let b = gen_records(r, s, 0, 2);
                let d = desc(s, &pool, 0);
                let mut m = DynamicMessage::decode(d.clone(), a.as_slice()).map_err(|e| e.to_string())?;
                m.merge(b.as_slice()).map_err(|e| format!("merge rejects valid input: {e}"))?;
                let c = DynamicMessage::decode(d, [a.clone(), b.clone()].concat().as_slice()).map_err(|e| e.to_string())?;
                let (x, y) = (observe(s, 0, &m)?, observe(s, 0, &c)?);
                if x != y {
                    return Err(format!("merging gives {x:?} but decoding the concatenation {y:?}\nbytes {} {}\nschema {}", hex(&a), hex(&b), schema_json(s)));
                }
                Ok(h(a))
            });
            if let (Some(x), 0) = (smp, i % 100) { cx.sample(|| x) }
            // damaged input
            cx.case("damaged", |r| {
                let mut a = gen_records(r, s, 0, 1);
                match r.below(4) {
                    0 if !a.is_empty() => { a.truncate(r.below(a.len())) }
                    1 if !a.is_empty() => { let i = r.below(a.len()); a[i] = r.next() as u8 }
                    2 if !a.is_empty() => { let i = r.below(a.len()); a[i] ^= 1 << r.below(3) }
                    _ => { let i = r.below(a.len() + 1); a.insert(i, r.next() as u8) }
                }
                dec_both(s, &pool, &a, true).map_err(|e| format!("{e}\nschema {}", schema_json(s)))?;
                Ok(h(a))
            });
        }
        // every pair of records of one field, in particular packed/unpacked mixtures
        for f in &s.msgs[0].fields {
            for _ in 0..cx.n(3, 10) {
                cx.case(&format!("pair:{:?}/{:?}", f.kind, f.card), |r| {
                    let mut b = vec![];
                    for _ in 0..3 {
                        match (&f.card, gen_field(r, s, f, 1, false)) {
                            (Card::Rep(_), V::L(l)) if packable(f.kind) && r.chance(1, 2) => enc_packed(&mut b, f.num, f.kind, &l),
                            (Card::Rep(_), V::L(l)) => l.iter().for_each(|x| enc_elem(s, &mut b, f.num, f.kind, x)),
                            (_, v) => enc_field(s, &mut b, f, &v),
                        }
                    }
                    dec_both(s, &pool, &b, true).map_err(|e| format!("{e}\nschema {}", schema_json(s)))?;
                    // the wrong wire type is an error
                    for wt in [0u32, 1, 2, 5] {
                        let mut b = vec![];
                        key(&mut b, f.num, wt);
                        b.extend([0u8; 8].iter().take(match wt { 0 | 2 => 1, 1 => 8, _ => 4 }));
                        dec_both(s, &pool, &b, true).map_err(|e| format!("{e}\nschema {}", schema_json(s)))?;
                    }
                    Ok(h(b))
                });
            }
        }
    }
    "random record sequences of declared fields (split, repeated, mixed packed/unpacked, incomplete map entries, shuffled) and damaged ones, decoded by prost-reflect and by an independent decoder of the wire format, plus merge versus concatenation"
}
pub fn p04(cx: &mut Cx) -> &'static str {
    let ss = schemas(cx, 30, 300, ALL);
    for s in &ss {
        let pool = s.pool();
        for i in 0..cx.n(500, 3000) {
            if cx.stop() { break }
            let mut smp = None;
            cx.case("unknown", |r| {
                let mut m = gen_message(r, s, 0, 1, false);
                canon_deep(s, &mut m);
                let mut recs: Vec<(u32, Vec<u8>)> = vec![];
                for _ in 0..1 + r.below(6) {
                    let x = if !recs.is_empty() && r.chance(1, 2) {
                        let n = r.pick(&recs).0;
                        (n, gen_unknown_record(r, n, 2))
                    } else {
                        gen_unknown(r, s, 0, 3)
                    };
                    recs.push(x);
                }
                // interleave with the known fields
                let mut parts: Vec<Vec<u8>> = recs.iter().map(|x| x.1.clone()).collect();
                for (num, v) in &m.f {
                    let mut b = vec![];
                    enc_field(s, &mut b, s.msgs[0].field(*num).unwrap(), v);
                    parts.insert(r.below(parts.len() + 1), b);
                }
                let bytes = parts.concat();
                smp = Some(hex(&bytes));
                let ctx = |e: String| format!("{e}\nbytes {}\nschema {}", hex(&bytes), schema_json(s));
                let mut want: std::collections::BTreeMap<u32, Vec<u8>> = Default::default();
                for (n, b) in parts_of(&bytes, s)? { want.entry(n).or_default().extend(b) }
                for (n, b) in &recs {
                    if !want.get(n).is_some_and(|w| w.windows(b.len()).any(|x| x == &b[..])) { return Err("internal: bad case".into()) }
                }
                let mut dm = DynamicMessage::decode(desc(s, &pool, 0), bytes.as_slice()).map_err(|e| ctx(e.to_string()))?;
                let got = observe(s, 0, &dm).map_err(ctx)?;
                let mut exp = m.clone();
                exp.unk = want.clone();
                if got != exp { return Err(ctx(format!("decoded {got:?}\nexpected {exp:?}"))) }
                // re-encoding keeps the records of each number in order
                let out = dm.encode_to_vec();
                let again = dec_ref(s, 0, &out).map_err(|e| ctx(format!("re-encoding is malformed: {e}")))?;
                if again != exp { return Err(ctx(format!("re-encoded as {}", hex(&out)))) }
                if out.len() != dm.encoded_len() { return Err(ctx("wrong encoded_len".into())) }
                // taking yields exactly the records
                let mut taken: std::collections::BTreeMap<u32, Vec<u8>> = Default::default();
                let cnt = dm.unknown_fields().count();
                let partial = r.chance(1, 3);
                let k = if partial { r.below(cnt + 1) } else { cnt };
                let mut tk = 0;
                if k < cnt {
                    // a partially consumed drain does not touch the known fields
                    for u in dm.take_unknown_fields().take(k) { let _ = u; tk += 1; }
                    let o = observe(s, 0, &dm).map_err(ctx)?;
                    if o.f != exp.f { return Err(ctx(format!("taking {tk} unknown fields changes the known ones: {o:?}"))) }
                } else {
                    for u in dm.take_unknown_fields() {
                        let mut b = vec![];
                        u.encode(&mut b);
                        taken.entry(u.number()).or_default().extend(b);
                    }
                    if taken != want { return Err(ctx(format!("taken {taken:?}"))) }
                    if dm.unknown_fields().count() != 0 { return Err(ctx("unknown fields remain after taking them".into())) }
                    let o = observe(s, 0, &dm).map_err(ctx)?;
                    if o.f != exp.f || !o.unk.is_empty() { return Err(ctx(format!("after taking: {o:?}"))) }
                    // fields can be unknown again afterwards
                    dm.merge(recs[0].1.as_slice()).map_err(|e| ctx(e.to_string()))?;
                    let o = observe(s, 0, &dm).map_err(ctx)?;
                    if o.unk.get(&recs[0].0) != Some(&recs[0].1) { return Err(ctx(format!("merging after taking: {o:?}"))) }
                }
                Ok(h(bytes.clone()))
            });
            if let (Some(x), 0) = (smp, i % 200) { cx.sample(|| x) }
            cx.case("malformed", |r| {
                let (n, mut b) = gen_unknown(r, s, 0, 3);
                match r.below(3) {
                    0 => { b.pop(); }
                    1 => { let i = r.below(b.len()); b[i] = r.next() as u8; }
                    _ => { key(&mut b, n, 4); }
                }
                let want = dec_ref(s, 0, &b);
                let got = DynamicMessage::decode(desc(s, &pool, 0), b.as_slice());
                match (want, got) {
                    (Ok(w), Ok(g)) => {
                        let g = observe(s, 0, &g)?;
                        // Non-canonical varints are kept by value, so compare only the canonical case.
                        if g != w && reencode_canonical(&b) { return Err(format!("decodes as {g:?} expected {w:?}\nbytes {}", hex(&b))) }
                    }
                    (Ok(w), Err(e)) => return Err(format!("valid input rejected: {e}\nmeaning {w:?}\nbytes {}", hex(&b))),
                    (Err(e), Ok(g)) => return Err(format!("invalid input accepted ({e}) as {:?}\nbytes {}", observe(s, 0, &g)?, hex(&b))),
                    _ => {}
                }
                Ok(h(b))
            });
        }
    }
    "unknown records of every wire type (nested groups, repeated numbers) interleaved with known fields; decode, re-encode, iterate, take; and malformed records"
}
fn reencode_canonical(b: &[u8]) -> bool {
    // no varint byte sequence ending in a zero continuation
    !b.windows(2).any(|w| w[0] & 0x80 != 0 && w[1] == 0)
}
fn parts_of(bytes: &[u8], s: &Schema) -> Result<Vec<(u32, Vec<u8>)>, String> {
    let mut c = Cur(bytes);
    let mut out = vec![];
    while !c.0.is_empty() {
        let (n, wt) = c.key()?;
        let rec = c.skip(n, wt)?;
        if s.msgs[0].field(n).is_none() { out.push((n, rec)) }
    }
    Ok(out)
}
