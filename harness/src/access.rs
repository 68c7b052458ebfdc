//! P05-P07: field access, oneofs, checked setters.
use crate::{core::{schemas, ALL}, cx::*, model::*, rng::Rng};
use prost::Message as _;
use prost_reflect::*;

#[derive(Clone, Copy, Debug)]
enum By { Desc, Num, Name }

struct Obj {
    dm: DynamicMessage,
    d: MessageDescriptor,
}
impl Obj {
    fn has(&self, f: &Fld, by: By) -> bool {
        if f.ext { return self.dm.has_extension(&self.d.get_extension(f.num).unwrap()) }
        match by {
            By::Desc => self.dm.has_field(&self.d.get_field(f.num).unwrap()),
            By::Num => self.dm.has_field_by_number(f.num),
            By::Name => self.dm.has_field_by_name(&f.name),
        }
    }
    fn get(&self, f: &Fld, by: By) -> Value {
        if f.ext { return self.dm.get_extension(&self.d.get_extension(f.num).unwrap()).into_owned() }
        match by {
            By::Desc => self.dm.get_field(&self.d.get_field(f.num).unwrap()).into_owned(),
            By::Num => self.dm.get_field_by_number(f.num).unwrap().into_owned(),
            By::Name => self.dm.get_field_by_name(&f.name).unwrap().into_owned(),
        }
    }
    fn get_mut(&mut self, f: &Fld, by: By) -> &mut Value {
        if f.ext { return self.dm.get_extension_mut(&self.d.get_extension(f.num).unwrap()) }
        match by {
            By::Desc => self.dm.get_field_mut(&self.d.get_field(f.num).unwrap()),
            By::Num => self.dm.get_field_by_number_mut(f.num).unwrap(),
            By::Name => self.dm.get_field_by_name_mut(&f.name).unwrap(),
        }
    }
    fn set(&mut self, f: &Fld, by: By, v: Value, checked: bool) -> Result<(), String> {
        if f.ext {
            self.dm.set_extension(&self.d.get_extension(f.num).unwrap(), v);
            return Ok(());
        }
        match (by, checked) {
            (By::Desc, true) => self.dm.try_set_field(&self.d.get_field(f.num).unwrap(), v).map_err(|e| e.to_string())?,
            (By::Num, true) => self.dm.try_set_field_by_number(f.num, v).map_err(|e| e.to_string())?,
            (By::Name, true) => self.dm.try_set_field_by_name(&f.name, v).map_err(|e| e.to_string())?,
            (By::Desc, false) => self.dm.set_field(&self.d.get_field(f.num).unwrap(), v),
            (By::Num, false) => self.dm.set_field_by_number(f.num, v),
            (By::Name, false) => self.dm.set_field_by_name(&f.name, v),
        }
        Ok(())
    }
    fn clear(&mut self, f: &Fld, by: By) {
        if f.ext { return self.dm.clear_extension(&self.d.get_extension(f.num).unwrap()) }
        match by {
            By::Desc => self.dm.clear_field(&self.d.get_field(f.num).unwrap()),
            By::Num => self.dm.clear_field_by_number(f.num),
            By::Name => self.dm.clear_field_by_name(&f.name),
        }
    }
    fn take(&mut self, f: &Fld, by: By) -> Option<Value> {
        if f.ext { return self.dm.take_extension(&self.d.get_extension(f.num).unwrap()) }
        match by {
            By::Desc => self.dm.take_field(&self.d.get_field(f.num).unwrap()),
            By::Num => self.dm.take_field_by_number(f.num),
            By::Name => self.dm.take_field_by_name(&f.name),
        }
    }
}
/// `has` in the model: a value is stored and (presence or not the default).
fn m_has(s: &Schema, m: &MM, f: &Fld) -> bool {
    m.f.get(&f.num).is_some_and(|v| s.presence(f) || !is_default(s, f, v))
}
fn visible(s: &Schema, m: &MM) -> MM {
    let mut m = m.clone();
    canon_deep(s, &mut m);
    m
}
/// Values a history may set: sometimes exactly the default.
fn op_value(r: &mut Rng, s: &Schema, f: &Fld) -> V {
    if r.chance(1, 4) { s.field_default(f) } else { gen_field(r, s, f, 2, false) }
}
fn history(r: &mut Rng, s: &Schema, pool: &DescriptorPool, oneof_heavy: bool, steps: usize) -> R {
    let d = desc(s, pool, 0);
    let mut o = Obj { dm: DynamicMessage::new(d.clone()), d };
    let mut m = MM::new(0);
    let mut log: Vec<String> = vec![];
    let nf = s.msgs[0].fields.len();
    let focus: Vec<usize> = if oneof_heavy {
        (0..nf).filter(|&i| s.msgs[0].fields[i].oneof.is_some()).collect()
    } else {
        (0..2 + r.below(4)).map(|_| r.below(nf)).collect()
    };
    if focus.is_empty() { return Ok(0) }
    for _ in 0..steps {
        let f = &s.msgs[0].fields[if r.chance(4, 5) { *r.pick(&focus) } else { r.below(nf) }];
        let by = [By::Desc, By::Num, By::Name][r.below(3)];
        let res = step(r, s, f, by, &mut o, &mut m, &mut log);
        let ctx = |e: String| format!("{e}\nafter {}\nschema {}", log.join("; "), schema_json(s));
        res.map_err(ctx)?;
        let got = observe(s, 0, &o.dm).map_err(ctx)?;
        let want = visible(s, &m);
        if got != want { return Err(ctx(format!("the message is {got:?}\nbut should be {want:?}"))) }
    }
    note(|| log.join("; "));
    Ok(h(log.join(";")))
}
fn step(r: &mut Rng, s: &Schema, f: &Fld, by: By, o: &mut Obj, m: &mut MM, log: &mut Vec<String>) -> Result<(), String> {
    match r.below(13) {
        0..=3 => {
            let v = op_value(r, s, f);
            let checked = r.chance(1, 2);
            log.push(format!("set {} by {by:?} {v:?}", f.name));
            let val = to_value(s, o.d.parent_pool(), &v);
            o.set(f, by, val, checked)?;
            set_model(s, m, f, v);
        }
        4 | 5 => {
            log.push(format!("clear {} by {by:?}", f.name));
            o.clear(f, by);
            m.f.remove(&f.num);
        }
        6 => {
            log.push(format!("take {} by {by:?}", f.name));
            let had = m_has(s, m, f);
            let was = m.f.remove(&f.num);
            let got = o.take(f, by);
            match (had, got) {
                (true, Some(v)) => {
                    let v = from_field_value(s, f, &v)?;
                    let mut a = MM::new(0);
                    a.f.insert(f.num, was.unwrap());
                    let mut b = MM::new(0);
                    b.f.insert(f.num, v);
                    if visible(s, &a) != visible(s, &b) { return Err(format!("take returned {b:?} but {a:?} was stored")) }
                }
                (false, None) => {}
                (h, g) => return Err(format!("take of a field with presence {h} returned {:?}", g.map(|v| v.to_string()))),
            }
        }
        7 | 8 => {
            log.push(format!("get_mut {} by {by:?}", f.name));
            clear_oneof(s, m, f);
            let cur = m.f.entry(f.num).or_insert_with(|| s.field_default(f)).clone();
            let modify = r.chance(2, 3);
            let new = op_value(r, s, f);
            let nv = to_value(s, o.d.parent_pool(), &new);
            let p = o.get_mut(f, by);
            let seen = from_field_value(s, f, p)?;
            if modify { *p = nv }
            let (mut a, mut b) = (MM::new(0), MM::new(0));
            a.f.insert(f.num, cur);
            b.f.insert(f.num, seen);
            if visible(s, &a) != visible(s, &b) { return Err(format!("get_mut shows {b:?} but {a:?} is stored")) }
            if modify {
                log.push(format!("store {new:?}"));
                m.f.insert(f.num, new);
            }
        }
        9 => {
            // reading does not change anything and agrees for every way of addressing the field
            for by in [By::Desc, By::Num, By::Name] {
                if o.has(f, by) != m_has(s, m, f) { return Err(format!("has {} by {by:?} is wrong", f.name)) }
                let v = from_field_value(s, f, &o.get(f, by))?;
                let want = m.f.get(&f.num).cloned().unwrap_or_else(|| s.field_default(f));
                let (mut a, mut b) = (MM::new(0), MM::new(0));
                a.f.insert(f.num, want);
                b.f.insert(f.num, v);
                if visible(s, &a) != visible(s, &b) { return Err(format!("get {} by {by:?} returns {b:?}", f.name)) }
            }
        }
        10 => {
            // merge from the wire
            let (num, rec) = if r.chance(1, 3) { gen_unknown(r, s, 0, 2) } else {
                let v = gen_field(r, s, f, 2, false);
                let mut b = vec![];
                enc_field(s, &mut b, f, &v);
                (f.num, b)
            };
            log.push(format!("merge {num} {}", hex(&rec)));
            o.dm.merge(rec.as_slice()).map_err(|e| e.to_string())?;
            merge_ref_raw(s, m, &rec)?;
        }
        11 => {
            // drains; sometimes only partly consumed
            let all = r.chance(1, 2);
            let k = if all { usize::MAX } else { r.below(4) };
            match r.below(3) {
                0 => {
                    let got: Vec<(u32, V)> = o.dm.take_fields().take(k).map(|(d, v)| (d.number(), v)).collect::<Vec<_>>().into_iter()
                        .map(|(n, v)| Ok((n, from_field_value(s, s.msgs[0].field(n).ok_or("unknown field yielded")?, &v)?))).collect::<Result<_, String>>()?;
                    log.push(format!("take_fields {k}"));
                    drained(s, m, got, k, |f| !f.ext)?;
                }
                1 => {
                    let got: Vec<(u32, V)> = o.dm.take_extensions().take(k).map(|(d, v)| (d.number(), v)).collect::<Vec<_>>().into_iter()
                        .map(|(n, v)| Ok((n, from_field_value(s, s.msgs[0].field(n).ok_or("unknown field yielded")?, &v)?))).collect::<Result<_, String>>()?;
                    log.push(format!("take_extensions {k}"));
                    drained(s, m, got, k, |f| f.ext)?;
                }
                _ => {
                    log.push("take_unknown_fields".into());
                    let mut got: std::collections::BTreeMap<u32, Vec<u8>> = Default::default();
                    for u in o.dm.take_unknown_fields() { let mut b = vec![]; u.encode(&mut b); got.entry(u.number()).or_default().extend(b); }
                    if got != m.unk { return Err(format!("took unknown fields {got:?} but {:?} were there", m.unk)) }
                    m.unk.clear();
                }
            }
        }
        _ => {
            if r.chance(1, 3) {
                log.push("Message::clear".into());
                o.dm.clear();
                m.f.clear();
                m.unk.clear();
            } else {
                // modify through the mutable iterators
                log.push("fields_mut".into());
                let mut new: Vec<(u32, V)> = vec![];
                for (n, v) in m.f.iter() {
                    let f = s.msgs[0].field(*n).unwrap();
                    if s.presence(f) || !is_default(s, f, v) {
                        let mut nv = gen_field(r, s, f, 1, false);
                        if is_default(s, f, &nv) { nv = v.clone() }
                        new.push((*n, nv));
                    }
                }
                let pool = o.d.parent_pool().clone();
                let mut seen = vec![];
                for (d, v) in o.dm.fields_mut() {
                    seen.push(d.number());
                    let nv = new.iter().find(|x| x.0 == d.number()).ok_or("fields_mut yields an absent field")?;
                    *v = to_value(s, &pool, &nv.1);
                }
                for (d, v) in o.dm.extensions_mut() {
                    seen.push(d.number());
                    let nv = new.iter().find(|x| x.0 == d.number()).ok_or("extensions_mut yields an absent extension")?;
                    *v = to_value(s, &pool, &nv.1);
                }
                seen.sort();
                if seen != new.iter().map(|x| x.0).collect::<Vec<_>>() { return Err(format!("mutable iteration yields {seen:?}")) }
                for (n, v) in new { m.f.insert(n, v); }
            }
        }
    }
    Ok(())
}
fn merge_ref_raw(s: &Schema, m: &mut MM, rec: &[u8]) -> Result<(), String> {
    merge_ref_nocanon(s, m, rec)
}
fn drained(s: &Schema, m: &mut MM, got: Vec<(u32, V)>, k: usize, sel: impl Fn(&Fld) -> bool) -> Result<(), String> {
    let avail: Vec<u32> = m.f.keys().copied().filter(|n| { let f = s.msgs[0].field(*n).unwrap(); sel(f) && m_has(s, m, f) }).collect();
    if got.len() != avail.len().min(k) { return Err(format!("drain yielded {} of {avail:?}", got.len())) }
    for (n, v) in got {
        if !avail.contains(&n) { return Err(format!("drain yielded absent field {n}")) }
        let was = m.f.remove(&n).ok_or("field drained twice")?;
        let (mut a, mut b) = (MM::new(0), MM::new(0));
        a.f.insert(n, was);
        b.f.insert(n, v);
        if visible(s, &a) != visible(s, &b) { return Err(format!("drain yielded {b:?} but {a:?} was stored")) }
    }
    Ok(())
}
pub fn p05(cx: &mut Cx) -> &'static str {
    let ss = schemas(cx, 60, 600, ALL);
    for s in &ss {
        let pool = s.pool();
        for _ in 0..cx.n(300, 1500) {
            if cx.stop() { break }
            cx.case("history", |r| { let n = 4 + r.below(14); history(r, s, &pool, false, n) });
        }
    }
    "random operation histories (4 to 17 steps) over generated schemas against a reference state machine, the whole message being compared after every step; counted by distinct history"
}
pub fn p06(cx: &mut Cx) -> &'static str {
    let ss = schemas(cx, 60, 600, ALL);
    for s in &ss {
        let pool = s.pool();
        for _ in 0..cx.n(250, 1500) {
            if cx.stop() { break }
            cx.case("history", |r| { let n = 4 + r.below(16); history(r, s, &pool, true, n) });
            cx.case("json-text", |r| oneof_text(r, s, &pool));
        }
    }
    "random operation histories over the oneof members of generated schemas (declared and synthetic oneofs), and JSON / text-format input naming members; the invariant and the frame are compared with a reference after every step"
}
/// JSON and text input that names several members of a oneof.
fn oneof_text(r: &mut Rng, s: &Schema, pool: &DescriptorPool) -> R {
    let members: Vec<&Fld> = s.msgs[0].fields.iter().filter(|f| f.oneof.is_some()).collect();
    if members.is_empty() { return Ok(0) }
    let d = desc(s, pool, 0);
    let a = *r.pick(&members);
    let b = *r.pick(&members);
    let text = |f: &Fld| match f.kind {
        K::Msg(_) => format!("{} {{}}", f.name),
        K::Group(_) => String::new(),
        K::Bool => format!("{}: true", f.name),
        K::Str | K::Bytes => format!("{}: 'x'", f.name),
        K::Enum(_) => format!("{}: 0", f.name),
        _ => format!("{}: 1", f.name),
    };
    let json = |f: &Fld| match f.kind {
        K::Msg(_) | K::Group(_) => format!("\"{}\": {{}}", f.name),
        K::Bool => format!("\"{}\": true", f.name),
        K::Str | K::Bytes => format!("\"{}\": \"YWJj\"", f.name),
        _ => format!("\"{}\": 0", f.name),
    };
    let t = format!("{}\n{}", text(a), text(b));
    if let Ok(dm) = DynamicMessage::parse_text_format(d.clone(), &t) {
        observe(s, 0, &dm).map_err(|e| format!("{e}\ntext {t}"))?;
    }
    let j = format!("{{{}, {}}}", json(a), json(b));
    let mut de = serde_json::Deserializer::from_str(&j);
    if let Ok(dm) = DynamicMessage::deserialize(d.clone(), &mut de) {
        observe(s, 0, &dm).map_err(|e| format!("{e}\njson {j}"))?;
    }
    // merging text into a message in which another member is set
    let mut dm = DynamicMessage::new(d);
    let o = *r.pick(&members);
    if o.ext { return Ok(0) }
    dm.set_field_by_number(o.num, to_value(s, pool, &gen_field(r, s, o, 1, false)));
    if dm.merge_text_format(&text(a)).is_ok() {
        observe(s, 0, &dm).map_err(|e| format!("{e}\nmerged text {t}"))?;
    }
    Ok(h((t, j)))
}

// ------------------------------------------------------------------------------------------- P07

fn msg_is(v: &Value, name: &str) -> bool {
    matches!(v, Value::Message(m) if m.descriptor().full_name() == name)
}
fn elem_ok(s: &Schema, k: K, v: &Value) -> bool {
    match k {
        K::Double => matches!(v, Value::F64(_)),
        K::Float => matches!(v, Value::F32(_)),
        K::Int32 | K::Sint32 | K::Sfixed32 => matches!(v, Value::I32(_)),
        K::Int64 | K::Sint64 | K::Sfixed64 => matches!(v, Value::I64(_)),
        K::Uint32 | K::Fixed32 => matches!(v, Value::U32(_)),
        K::Uint64 | K::Fixed64 => matches!(v, Value::U64(_)),
        K::Bool => matches!(v, Value::Bool(_)),
        K::Str => matches!(v, Value::String(_)),
        K::Bytes => matches!(v, Value::Bytes(_)),
        K::Enum(_) => matches!(v, Value::EnumNumber(_)),
        K::Msg(t) | K::Group(t) => msg_is(v, &format!("{}.{}", s.pkg, s.msgs[t].name)),
    }
}
fn key_ok(k: K, v: &MapKey) -> bool {
    match k {
        K::Int32 | K::Sint32 | K::Sfixed32 => matches!(v, MapKey::I32(_)),
        K::Int64 | K::Sint64 | K::Sfixed64 => matches!(v, MapKey::I64(_)),
        K::Uint32 | K::Fixed32 => matches!(v, MapKey::U32(_)),
        K::Uint64 | K::Fixed64 => matches!(v, MapKey::U64(_)),
        K::Bool => matches!(v, MapKey::Bool(_)),
        K::Str => matches!(v, MapKey::String(_)),
        _ => false,
    }
}
fn field_ok(s: &Schema, f: &Fld, v: &Value) -> bool {
    match f.card {
        Card::Rep(_) => matches!(v, Value::List(l) if l.iter().all(|x| elem_ok(s, f.kind, x))),
        Card::Map(k) => matches!(v, Value::Map(m) if m.iter().all(|(a, b)| key_ok(k, a) && elem_ok(s, f.kind, b))),
        _ => elem_ok(s, f.kind, v),
    }
}
/// Any value of any shape. Messages are always of the type the field declares when it is a message
/// field (whether a message of another type is valid is left open), else of type M1.
fn any_value(r: &mut Rng, s: &Schema, pool: &DescriptorPool, f: &Fld, depth: usize) -> Value {
    let scalar = |r: &mut Rng| { let k = match r.below(16) { 15 => K::Enum(0), i => SCALARS[i] }; gen_scalar(r, s, k, false) };
    let key = |r: &mut Rng| { let k = KEYS[r.below(12)]; gen_key(r, s, k) };
    if r.chance(1, 3) {
        // near miss: a valid value with one thing changed
        let mut v = to_value(s, pool, &gen_field(r, s, f, 1, false));
        match &mut v {
            Value::List(l) if !l.is_empty() => { let i = r.below(l.len()); if r.chance(2, 3) { l[i] = scalar(r) } }
            Value::Map(m) => {
                if r.chance(1, 2) { m.insert(key(r), scalar(r)); }
                else if let Some(k) = m.keys().next().cloned() { m.insert(k, scalar(r)); }
            }
            v => if r.chance(1, 2) { *v = scalar(r) },
        }
        return v;
    }
    match r.below(if depth > 0 { 8 } else { 5 }) {
        0..=3 => scalar(r),
        4 => {
            let t = match f.kind { K::Msg(t) | K::Group(t) => t, _ => 1 };
            Value::Message(DynamicMessage::new(desc(s, pool, t)))
        }
        5 => { let one = any_value(r, s, pool, f, depth - 1); Value::List((0..r.below(4)).map(|_| if r.chance(3, 4) { one.clone() } else { any_value(r, s, pool, f, depth - 1) }).collect()) }
        _ => { let kk = key(r); let one = any_value(r, s, pool, f, depth - 1); Value::Map((0..r.below(3)).map(|i| (if i == 0 { kk.clone() } else { key(r) }, if r.chance(3, 4) { one.clone() } else { any_value(r, s, pool, f, depth - 1) })).collect()) }
    }
}
pub fn p07(cx: &mut Cx) -> &'static str {
    let ss = schemas(cx, 30, 300, ALL);
    for s in &ss {
        let pool = s.pool();
        let d = desc(s, &pool, 0);
        for f in &s.msgs[0].fields {
            let key = format!("{:?}/{:?}{}", f.kind, f.card, if f.ext { "/ext" } else { "" });
            for _ in 0..cx.n(60, 300) {
                if cx.stop() { break }
                cx.case(&key, |r| {
                    let v = any_value(r, s, &pool, f, 2);
                    let want = field_ok(s, f, &v);
                    let ctx = |e: &str| format!("{e}\nvalue {v}\nfield {} ({key})\nschema {}", f.name, schema_json(s));
                    if f.ext {
                        let x = d.get_extension(f.num).ok_or("no extension")?;
                        if v.is_valid_for_extension(&x) != want { return Err(ctx(&format!("is_valid_for_extension is {}", !want))) }
                        if !Value::default_value_for_extension(&x).is_valid_for_extension(&x) { return Err(ctx("the default is not valid")) }
                        return Ok(h(v.to_string()));
                    }
                    let x = d.get_field(f.num).ok_or("no field")?;
                    if v.is_valid_for_field(&x) != want { return Err(ctx(&format!("is_valid_for_field is {}", !want))) }
                    if !Value::default_value_for_field(&x).is_valid_for_field(&x) { return Err(ctx("the default is not valid")) }
                    if matches!(f.card, Card::Implicit | Card::Explicit | Card::Required) && v.is_valid(&x.kind()) != want {
                        return Err(ctx(&format!("is_valid is {}", !want)));
                    }
                    let mut m = gen_message(r, s, 0, 1, true);
                    m.f.retain(|_, v| !has_nan(v));
                    let before = build(s, &pool, &m);
                    let mut dm = before.clone();
                    let by = r.below(3);
                    let res = match by {
                        0 => dm.try_set_field(&x, v.clone()),
                        1 => dm.try_set_field_by_number(f.num, v.clone()),
                        _ => dm.try_set_field_by_name(&f.name, v.clone()),
                    };
                    match res {
                        Ok(()) if want => {
                            let got = from_field_value(s, f, &dm.get_field(&x))?;
                            let exp = from_field_value(s, f, &v)?;
                            if got != exp { return Err(ctx(&format!("stored {got:?}"))) }
                            let b = dm.encode_to_vec();
                            if b.len() != dm.encoded_len() { return Err(ctx("encoded_len is wrong")) }
                        }
                        Ok(()) => return Err(ctx("accepted")),
                        Err(_) if want => return Err(ctx("rejected")),
                        Err(SetFieldError::InvalidType { value, .. }) => {
                            if observe(s, 0, &dm)? != observe(s, 0, &before)? { return Err(ctx("a rejected value changes the message")) }
                            if value.to_string() != v.to_string() { return Err(ctx(&format!("the error hands back {value}"))) }
                        }
                        Err(e) => return Err(ctx(&format!("unexpected error {e}"))),
                    }
                    // unknown fields cannot be set
                    if by == 1 && d.get_field(777).is_none() && !matches!(dm.try_set_field_by_number(777, v.clone()), Err(SetFieldError::NotFound)) {
                        return Err(ctx("setting an undeclared number is not reported"));
                    }
                    if by == 2 && !matches!(dm.try_set_field_by_name("nope", v.clone()), Err(SetFieldError::NotFound)) {
                        return Err(ctx("setting an undeclared name is not reported"));
                    }
                    note(|| format!("{key}: {v} {}", if want { "accepted" } else { "rejected" }));
                    Ok(h((key.clone(), v.to_string())))
                });
            }
        }
    }
    "value shapes of all kinds (scalars, messages, lists, maps, nested, near misses of valid values) against every kind and cardinality; acceptance compared with an independent type checker; counted by (field shape, value)"
}
fn has_nan(v: &V) -> bool {
    match v {
        V::S(Value::F32(x)) => x.is_nan(),
        V::S(Value::F64(x)) => x.is_nan(),
        V::S(_) => false,
        V::M(m) => m.f.values().any(has_nan),
        V::L(l) => l.iter().any(has_nan),
        V::Mp(l) => l.iter().any(|x| has_nan(&x.1)),
    }
}
