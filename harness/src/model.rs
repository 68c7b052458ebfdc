//! The reference model: schemas, message values and the protobuf wire format, written from the
//! protobuf specification and independently of prost-reflect (which is only used for the leaf
//! `Value`/`MapKey` data types and as the system under test).
use crate::rng::Rng;
use prost::Message as _;
use prost_reflect::{bytes::Bytes, *};
use prost_types::{
    descriptor_proto, field_descriptor_proto, DescriptorProto, EnumDescriptorProto, EnumOptions,
    EnumValueDescriptorProto, FieldDescriptorProto, FieldOptions, FileDescriptorProto,
    FileDescriptorSet, MessageOptions, OneofDescriptorProto,
};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Double,
    Float,
    Int32,
    Int64,
    Uint32,
    Uint64,
    Sint32,
    Sint64,
    Fixed32,
    Fixed64,
    Sfixed32,
    Sfixed64,
    Bool,
    Str,
    Bytes,
    Enum(usize),
    Msg(usize),
    Group(usize),
}
pub const SCALARS: [K; 15] = [
    K::Double, K::Float, K::Int32, K::Int64, K::Uint32, K::Uint64, K::Sint32, K::Sint64,
    K::Fixed32, K::Fixed64, K::Sfixed32, K::Sfixed64, K::Bool, K::Str, K::Bytes,
];
pub const KEYS: [K; 12] = [
    K::Int32, K::Int64, K::Uint32, K::Uint64, K::Sint32, K::Sint64, K::Fixed32, K::Fixed64,
    K::Sfixed32, K::Sfixed64, K::Bool, K::Str,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Card {
    Implicit,
    Explicit,
    Required,
    Rep(Option<bool>),
    Map(K),
}
#[derive(Clone, Debug)]
pub struct Fld {
    pub name: String,
    pub num: u32,
    pub kind: K,
    pub card: Card,
    pub oneof: Option<usize>,
    pub synth: bool,
    pub ext: bool,
    pub default: Option<Value>,
    pub other_options: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Msg {
    pub name: String,
    pub fields: Vec<Fld>,
    pub oneofs: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct En {
    pub name: String,
    pub values: Vec<(String, i32)>,
}
#[derive(Clone, Debug)]
pub struct Schema {
    pub pkg: &'static str,
    pub proto3: bool,
    pub msgs: Vec<Msg>,
    pub enums: Vec<En>,
}

pub const EXT_LO: i32 = 1000;
pub const EXT_HI: i32 = 1100;

impl Msg {
    pub fn field(&self, num: u32) -> Option<&Fld> {
        self.fields.iter().find(|f| f.num == num)
    }
}

impl Schema {
    pub fn packed(&self, f: &Fld) -> bool {
        match f.card {
            Card::Rep(p) => packable(f.kind) && p.unwrap_or(self.proto3),
            _ => false,
        }
    }
    pub fn presence(&self, f: &Fld) -> bool {
        match f.card {
            Card::Implicit => matches!(f.kind, K::Msg(_) | K::Group(_)) || f.oneof.is_some(),
            Card::Explicit | Card::Required => true,
            Card::Rep(_) | Card::Map(_) => false,
        }
    }
    /// The default of a singular field or list element of the kind.
    pub fn kind_default(&self, k: K) -> V {
        match k {
            K::Double => V::S(Value::F64(0.0)),
            K::Float => V::S(Value::F32(0.0)),
            K::Int32 | K::Sint32 | K::Sfixed32 => V::S(Value::I32(0)),
            K::Int64 | K::Sint64 | K::Sfixed64 => V::S(Value::I64(0)),
            K::Uint32 | K::Fixed32 => V::S(Value::U32(0)),
            K::Uint64 | K::Fixed64 => V::S(Value::U64(0)),
            K::Bool => V::S(Value::Bool(false)),
            K::Str => V::S(Value::String(String::new())),
            K::Bytes => V::S(Value::Bytes(Bytes::new())),
            K::Enum(e) => V::S(Value::EnumNumber(self.enums[e].values[0].1)),
            K::Msg(m) | K::Group(m) => V::M(MM::new(m)),
        }
    }
    pub fn field_default(&self, f: &Fld) -> V {
        match f.card {
            Card::Rep(_) => V::L(vec![]),
            Card::Map(_) => V::Mp(vec![]),
            _ => match &f.default {
                Some(d) => V::S(d.clone()),
                None => self.kind_default(f.kind),
            },
        }
    }
}

pub fn packable(k: K) -> bool {
    !matches!(k, K::Str | K::Bytes | K::Msg(_) | K::Group(_))
}

/// A model value.
#[derive(Clone, Debug)]
pub enum V {
    S(Value),
    M(MM),
    L(Vec<V>),
    Mp(Vec<(MapKey, V)>),
}
/// A model message: present fields and the raw unknown records per number.
#[derive(Clone, Debug, PartialEq)]
pub struct MM {
    pub ty: usize,
    pub f: BTreeMap<u32, V>,
    pub unk: BTreeMap<u32, Vec<u8>>,
}
impl MM {
    pub fn new(ty: usize) -> MM {
        MM { ty, f: BTreeMap::new(), unk: BTreeMap::new() }
    }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::S(a), V::S(b)) => scalar_eq(a, b),
            (V::M(a), V::M(b)) => a == b,
            (V::L(a), V::L(b)) => a == b,
            (V::Mp(a), V::Mp(b)) => {
                let mut a = a.clone();
                let mut b = b.clone();
                a.sort_by(|x, y| x.0.cmp(&y.0));
                b.sort_by(|x, y| x.0.cmp(&y.0));
                a == b
            }
            _ => false,
        }
    }
}
/// Bitwise for floats, so NaN equals itself and -0.0 differs from 0.0.
pub fn scalar_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::F32(a), Value::F32(b)) => a.to_bits() == b.to_bits(),
        (Value::F64(a), Value::F64(b)) => a.to_bits() == b.to_bits(),
        (Value::Message(_) | Value::List(_) | Value::Map(_), _) => false,
        _ => a == b,
    }
}

// ---------------------------------------------------------------- descriptors

fn proto_type(k: K) -> field_descriptor_proto::Type {
    use field_descriptor_proto::Type as T;
    match k {
        K::Double => T::Double,
        K::Float => T::Float,
        K::Int32 => T::Int32,
        K::Int64 => T::Int64,
        K::Uint32 => T::Uint32,
        K::Uint64 => T::Uint64,
        K::Sint32 => T::Sint32,
        K::Sint64 => T::Sint64,
        K::Fixed32 => T::Fixed32,
        K::Fixed64 => T::Fixed64,
        K::Sfixed32 => T::Sfixed32,
        K::Sfixed64 => T::Sfixed64,
        K::Bool => T::Bool,
        K::Str => T::String,
        K::Bytes => T::Bytes,
        K::Enum(_) => T::Enum,
        K::Msg(_) => T::Message,
        K::Group(_) => T::Group,
    }
}
pub fn default_text(v: &Value) -> String {
    match v {
        Value::Bool(b) => b.to_string(),
        Value::I32(x) => x.to_string(),
        Value::I64(x) => x.to_string(),
        Value::U32(x) => x.to_string(),
        Value::U64(x) => x.to_string(),
        Value::F32(x) => format!("{x:?}"),
        Value::F64(x) => format!("{x:?}"),
        Value::String(s) => s.clone(),
        Value::Bytes(b) => b.iter().map(|c| format!("\\{c:03o}")).collect(),
        _ => unreachable!(),
    }
}
impl Schema {
    fn type_name(&self, k: K) -> Option<String> {
        match k {
            K::Enum(e) => Some(format!(".{}.{}", self.pkg, self.enums[e].name)),
            K::Msg(m) | K::Group(m) => Some(format!(".{}.{}", self.pkg, self.msgs[m].name)),
            _ => None,
        }
    }
    fn simple_field(&self, name: &str, num: u32, k: K) -> FieldDescriptorProto {
        FieldDescriptorProto {
            name: Some(name.into()),
            number: Some(num as i32),
            label: Some(1),
            r#type: Some(proto_type(k) as i32),
            type_name: self.type_name(k),
            ..Default::default()
        }
    }
    fn field_proto(&self, owner: &Msg, f: &Fld, nested: &mut Vec<DescriptorProto>) -> FieldDescriptorProto {
        let mut p = self.simple_field(&f.name, f.num, f.kind);
        match f.card {
            Card::Implicit => {}
            Card::Explicit => {
                if self.proto3 && !f.ext && f.oneof.is_some() && f.synth {
                    p.proto3_optional = Some(true);
                }
            }
            Card::Required => p.label = Some(2),
            Card::Rep(pk) => {
                p.label = Some(3);
                if pk.is_some() || f.other_options {
                    p.options = Some(FieldOptions {
                        packed: pk,
                        deprecated: if f.other_options { Some(true) } else { None },
                        ..Default::default()
                    });
                }
            }
            Card::Map(key) => {
                let entry = format!("{}Entry", upper_camel(&f.name));
                p.label = Some(3);
                p.r#type = Some(field_descriptor_proto::Type::Message as i32);
                p.type_name = Some(format!(".{}.{}.{}", self.pkg, owner.name, entry));
                nested.push(DescriptorProto {
                    name: Some(entry),
                    field: vec![self.simple_field("key", 1, key), self.simple_field("value", 2, f.kind)],
                    options: Some(MessageOptions { map_entry: Some(true), ..Default::default() }),
                    ..Default::default()
                });
            }
        }
        p.oneof_index = f.oneof.map(|i| i as i32);
        p.default_value = f.default.as_ref().map(|d| match (d, f.kind) {
            (Value::EnumNumber(n), K::Enum(e)) => {
                self.enums[e].values.iter().find(|v| v.1 == *n).unwrap().0.clone()
            }
            _ => default_text(d),
        });
        p
    }
    pub fn to_file(&self) -> FileDescriptorProto {
        let mut file = FileDescriptorProto {
            name: Some("t.proto".into()),
            package: Some(self.pkg.into()),
            syntax: Some(if self.proto3 { "proto3" } else { "proto2" }.into()),
            ..Default::default()
        };
        for m in &self.msgs {
            let mut d = DescriptorProto { name: Some(m.name.clone()), ..Default::default() };
            for o in &m.oneofs {
                d.oneof_decl.push(OneofDescriptorProto { name: Some(o.clone()), options: None });
            }
            let mut nested = vec![];
            for f in &m.fields {
                let p = self.field_proto(m, f, &mut nested);
                if f.ext {
                    file.extension.push(FieldDescriptorProto {
                        extendee: Some(format!(".{}.{}", self.pkg, m.name)),
                        ..p
                    });
                } else {
                    d.field.push(p);
                }
            }
            d.nested_type = nested;
            if !self.proto3 {
                d.extension_range.push(descriptor_proto::ExtensionRange {
                    start: Some(EXT_LO),
                    end: Some(EXT_HI),
                    options: None,
                });
            }
            file.message_type.push(d);
        }
        for e in &self.enums {
            let mut d = EnumDescriptorProto { name: Some(e.name.clone()), ..Default::default() };
            let mut nums: Vec<i32> = e.values.iter().map(|v| v.1).collect();
            nums.sort();
            let n = nums.len();
            nums.dedup();
            if nums.len() != n {
                d.options = Some(EnumOptions { allow_alias: Some(true), ..Default::default() });
            }
            for (name, num) in &e.values {
                d.value.push(EnumValueDescriptorProto {
                    name: Some(name.clone()),
                    number: Some(*num),
                    options: None,
                });
            }
            file.enum_type.push(d);
        }
        file
    }
    pub fn pool(&self) -> DescriptorPool {
        DescriptorPool::from_file_descriptor_set(FileDescriptorSet { file: vec![self.to_file()] })
            .map_err(|e| e.to_string())
            .expect("the generated schema is valid")
    }
}
fn upper_camel(s: &str) -> String {
    let mut out = String::new();
    let mut up = true;
    for c in s.chars() {
        if c == '_' {
            up = true
        } else if up {
            out.push(c.to_ascii_uppercase());
            up = false
        } else {
            out.push(c)
        }
    }
    out
}

// ---------------------------------------------------------------- generation

const NUMBERS: [u32; 16] = [
    1, 2, 3, 15, 16, 17, 127, 128, 2047, 2048, 18999, 20000, 262143, 262144, 33554432, 536870911,
];

#[derive(Clone, Copy)]
pub struct GenOpts {
    pub groups: bool,
    pub exts: bool,
}

pub fn gen_schema(r: &mut Rng, opts: GenOpts) -> Schema {
    let proto3 = r.chance(1, 2);
    let nm = 2 + r.below(3);
    let mut s = Schema { pkg: "t", proto3, msgs: vec![], enums: vec![] };
    let mut e0 = vec![("A_ZERO".to_string(), 0), ("A_ONE".into(), 1), ("A_NEG".into(), -1), ("A_BIG".into(), i32::MAX), ("A_MIN".into(), i32::MIN)];
    if !proto3 && r.chance(1, 2) {
        e0.swap(0, 1);
    }
    s.enums.push(En { name: "E0".into(), values: e0 });
    s.enums.push(En {
        name: "E1".into(),
        values: vec![("B_ZERO".into(), 0), ("B_A".into(), 5), ("B_B".into(), 5), ("B_C".into(), 300)],
    });
    for mi in 0..nm {
        let mut m = Msg { name: format!("M{mi}"), ..Default::default() };
        let mut nums = NUMBERS.to_vec();
        r.shuffle(&mut nums);
        let nf = if mi == 0 { 6 + r.below(7) } else { 2 + r.below(4) };
        let oneof0: Option<usize> = if r.chance(2, 3) {
            m.oneofs.push(format!("o{mi}_a"));
            Some(0)
        } else {
            None
        };
        let oneof1: Option<usize> = if oneof0.is_some() && r.chance(1, 3) {
            m.oneofs.push(format!("o{mi}_b"));
            Some(1)
        } else {
            None
        };
        let mut synth: Vec<usize> = vec![];
        for fi in 0..nf {
            let mut kind = match r.below(20) {
                0..=13 => *r.pick(&SCALARS),
                14 | 15 => K::Enum(r.below(2)),
                _ => K::Msg(r.below(nm)),
            };
            let card = match r.below(10) {
                0..=2 => Card::Rep(match r.below(4) {
                    0 => Some(true),
                    1 => Some(false),
                    _ => None,
                }),
                3 | 4 => Card::Map(*r.pick(&KEYS)),
                5 if proto3 => Card::Explicit,
                5 if r.chance(1, 4) => Card::Required,
                _ if proto3 => Card::Implicit,
                _ => Card::Explicit,
            };
            let card = match card {
                Card::Rep(Some(_)) if !packable(kind) => Card::Rep(None),
                c => c,
            };
            let singular = matches!(card, Card::Implicit | Card::Explicit);
            let mut oneof = None;
            if singular && card != Card::Explicit || (singular && !proto3) {
                if let (Some(o), true) = (oneof0, r.chance(1, 2)) {
                    oneof = Some(o);
                } else if let (Some(o), true) = (oneof1, r.chance(1, 2)) {
                    oneof = Some(o);
                }
            }
            let mut name = format!("f{}_{}", fi, ["a", "b_c", "D", "x_1"][r.below(4)]);
            if opts.groups && !proto3 && matches!(kind, K::Msg(_)) && !matches!(card, Card::Map(_)) && mi == 0 && r.chance(1, 2) {
                // A group has its own message type, added below.
                kind = K::Group(usize::MAX);
                name = format!("grp{fi}");
            }
            let default = if !proto3 && card == Card::Explicit && !matches!(kind, K::Msg(_) | K::Group(_)) && r.chance(1, 3) {
                Some(gen_scalar(r, &s, kind, true))
            } else {
                None
            };
            m.fields.push(Fld {
                name,
                num: nums[fi],
                kind,
                card,
                oneof,
                synth: false,
                ext: false,
                default,
                other_options: matches!(card, Card::Rep(_)) && r.chance(1, 4),
            });
            if proto3 && card == Card::Explicit {
                synth.push(m.fields.len() - 1);
            }
        }
        // A oneof must have at least one member.
        for o in (0..m.oneofs.len()).rev() {
            if !m.fields.iter().any(|f| f.oneof == Some(o)) {
                m.oneofs.remove(o);
                for f in &mut m.fields {
                    if let Some(x) = f.oneof.as_mut() {
                        if *x > o {
                            *x -= 1
                        }
                    }
                }
            }
        }
        for i in synth {
            m.oneofs.push(format!("_{}", m.fields[i].name));
            m.fields[i].oneof = Some(m.oneofs.len() - 1);
            m.fields[i].synth = true;
        }
        if opts.exts && !proto3 {
            for xi in 0..r.below(4) {
                let kind = match r.below(10) {
                    0..=6 => *r.pick(&SCALARS),
                    7 => K::Enum(r.below(2)),
                    _ => K::Msg(r.below(nm)),
                };
                let card = if r.chance(1, 2) {
                    Card::Rep(if packable(kind) && r.chance(1, 2) { Some(r.chance(1, 2)) } else { None })
                } else {
                    Card::Explicit
                };
                let num = match xi {
                    0 => EXT_LO as u32,
                    1 => EXT_HI as u32 - 1,
                    i => EXT_LO as u32 + 7 * i as u32,
                };
                let default = if card == Card::Explicit && !matches!(kind, K::Msg(_)) && r.chance(1, 4) {
                    Some(gen_scalar(r, &s, kind, true))
                } else {
                    None
                };
                m.fields.push(Fld {
                    name: format!("x{mi}_{xi}"),
                    num,
                    kind,
                    card,
                    oneof: None,
                    synth: false,
                    ext: true,
                    default,
                    other_options: false,
                });
            }
        }
        s.msgs.push(m);
    }
    // Group types.
    for fi in 0..s.msgs[0].fields.len() {
        if s.msgs[0].fields[fi].kind == K::Group(usize::MAX) {
            let idx = s.msgs.len();
            let name = s.msgs[0].fields[fi].name.clone();
            s.msgs[0].fields[fi].kind = K::Group(idx);
            s.msgs.push(Msg {
                name: format!("G{}", &name[1..]),
                fields: vec![
                    Fld { name: "g1".into(), num: 1, kind: K::Int32, card: Card::Explicit, oneof: None, synth: false, ext: false, default: None, other_options: false },
                    Fld { name: "g2".into(), num: 17, kind: K::Str, card: Card::Rep(None), oneof: None, synth: false, ext: false, default: None, other_options: false },
                    Fld { name: "g3".into(), num: 2048, kind: K::Msg(1), card: Card::Explicit, oneof: None, synth: false, ext: false, default: None, other_options: false },
                ],
                oneofs: vec![],
            });
        }
    }
    // Namesakes of the well-known types are types like all others.
    if r.chance(1, 3) {
        s.pkg = *r.pick(&["t", "google", "protobuf", "google.protobuf2", "my.google.protobuf", "google.protobuf.x"]);
        let mut names = vec!["Any", "Timestamp", "Duration", "Struct", "Value", "ListValue", "FieldMask", "Empty", "StringValue", "Int64Value", "BoolValue", "BytesValue", "DoubleValue"];
        r.shuffle(&mut names);
        for mi in 0..nm { s.msgs[mi].name = names[mi].into(); }
        if r.chance(2, 3) { s.enums[0].name = "NullValue".into(); }
    }
    s
}

/// A schema with every kind in every cardinality, to make sure no combination is left out.
pub fn full_schema(proto3: bool) -> Schema {
    let mut s = Schema {
        pkg: "t",
        proto3,
        msgs: vec![],
        enums: vec![En {
            name: "E0".into(),
            values: vec![("A_ZERO".into(), 0), ("A_ONE".into(), 1), ("A_NEG".into(), -1), ("A_BIG".into(), i32::MAX), ("A_MIN".into(), i32::MIN)],
        }],
    };
    let mut m = Msg { name: "M0".into(), ..Default::default() };
    let mut n = 1u32;
    let mut kinds = SCALARS.to_vec();
    kinds.push(K::Enum(0));
    kinds.push(K::Msg(1));
    let base = |name: String, num: u32, kind: K, card: Card| Fld {
        name, num, kind, card, oneof: None, synth: false, ext: false, default: None, other_options: false,
    };
    let single = if proto3 { Card::Implicit } else { Card::Explicit };
    for (i, &k) in kinds.iter().enumerate() {
        m.fields.push(base(format!("s{i}"), n, k, single));
        m.fields.push(base(format!("u{i}"), n + 1, k, Card::Rep(if packable(k) { Some(false) } else { None })));
        if packable(k) {
            m.fields.push(base(format!("p{i}"), n + 2, k, Card::Rep(Some(true))));
        }
        m.fields.push(base(format!("d{i}"), n + 3, k, Card::Rep(None)));
        m.fields.push(base(format!("m{i}"), n + 4, k, Card::Map(if i < KEYS.len() { KEYS[i] } else { K::Int32 })));
        let mut o = base(format!("o{i}"), n + 5, k, single);
        o.oneof = Some(0);
        m.fields.push(o);
        n += 6;
    }
    m.oneofs.push("oo".into());
    if proto3 {
        let mut o = base("opt".into(), 5000, K::Int32, Card::Explicit);
        o.oneof = Some(1);
        o.synth = true;
        m.oneofs.push("_opt".into());
        m.fields.push(o);
    } else {
        m.fields.push(base("grp".into(), 5000, K::Group(2), Card::Explicit));
        m.fields.push(base("grpr".into(), 5001, K::Group(3), Card::Rep(None)));
        for (i, &k) in kinds.iter().enumerate() {
            let mut x = base(format!("xs{i}"), EXT_LO as u32 + 2 * i as u32, k, Card::Explicit);
            x.ext = true;
            m.fields.push(x);
            let mut x = base(format!("xr{i}"), EXT_LO as u32 + 2 * i as u32 + 1, k, Card::Rep(if packable(k) { Some(i % 2 == 0) } else { None }));
            x.ext = true;
            m.fields.push(x);
        }
    }
    s.msgs.push(m);
    s.msgs.push(Msg {
        name: "M1".into(),
        fields: vec![base("a".into(), 1, K::Int32, single), base("b".into(), 2, K::Str, Card::Rep(None)), base("c".into(), 16, K::Msg(1), single)],
        oneofs: vec![],
    });
    if !proto3 {
        for n in ["Grp", "Grpr"] {
            s.msgs.push(Msg {
                name: n.into(),
                fields: vec![base("g1".into(), 1, K::Int32, Card::Explicit), base("g2".into(), 2, K::Sint64, Card::Rep(Some(true)))],
                oneofs: vec![],
            });
        }
    }
    s
}

pub fn gen_i64(r: &mut Rng) -> i64 {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => -1,
        3 => i64::MAX,
        4 => i64::MIN,
        5 => i32::MAX as i64 + 1,
        6 => i32::MIN as i64 - 1,
        7 => 1i64 << r.below(63),
        8 => (1i64 << r.below(63)).wrapping_sub(1),
        9 => -(1i64 << r.below(63)),
        10 => r.below(300) as i64 - 150,
        _ => r.next() as i64,
    }
}
pub fn gen_i32(r: &mut Rng) -> i32 {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2 => -1,
        3 => i32::MAX,
        4 => i32::MIN,
        5 => 1i32 << r.below(31),
        6 => (1i32 << r.below(31)).wrapping_sub(1),
        7 => -(1i32 << r.below(31)),
        8 => r.below(300) as i32 - 150,
        _ => r.next() as i32,
    }
}
pub fn gen_f64(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 1.0,
        1 => -1.5,
        2 => f64::INFINITY,
        3 => f64::NEG_INFINITY,
        4 => f64::NAN,
        5 => f64::MAX,
        6 => f64::MIN_POSITIVE,
        7 => f64::from_bits(1),
        8 => 1e300,
        9 => -123456789.0,
        10 => 0.1,
        _ => {
            let x = f64::from_bits(r.next());
            if x.is_nan() { f64::NAN } else { x }
        }
    }
}
pub fn gen_f32(r: &mut Rng) -> f32 {
    match r.below(12) {
        0 => 1.0,
        1 => -1.5,
        2 => f32::INFINITY,
        3 => f32::NEG_INFINITY,
        4 => f32::NAN,
        5 => f32::MAX,
        6 => f32::MIN_POSITIVE,
        7 => f32::from_bits(1),
        8 => 1e30,
        9 => f32::from_bits(0x15ae43fd),
        10 => 0.1,
        _ => {
            let x = f32::from_bits(r.next() as u32);
            if x.is_nan() { f32::NAN } else { x }
        }
    }
}
pub fn gen_string(r: &mut Rng) -> String {
    let chars = ['a', 'Z', '0', '7', '_', '"', '\'', '\\', '\n', '\t', '\u{0}', '\u{7f}', 'é', '漢', '\u{10FFFF}', '{', ' ', '\u{1}', 'x', 'u', '/'];
    let n = match r.below(6) {
        0 => 0,
        1 => 127,
        2 => 128,
        _ => r.below(7),
    };
    (0..n).map(|_| *r.pick(&chars)).collect()
}
pub fn gen_bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 0,
        1 => 200,
        _ => r.below(7),
    };
    (0..n)
        .map(|_| match r.below(3) {
            0 => r.next() as u8,
            1 => *r.pick(b"01789abxX\\\"'\n\x00\x7f\xff\x80 "),
            _ => b'a' + r.below(26) as u8,
        })
        .collect()
}
/// A value of a non-message kind. `nonzero_safe`: usable as a declared default (no NaN).
pub fn gen_scalar(r: &mut Rng, s: &Schema, k: K, for_default: bool) -> Value {
    match k {
        K::Double => Value::F64({
            let x = gen_f64(r);
            if for_default && !x.is_finite() { 2.5 } else { x }
        }),
        K::Float => Value::F32({
            let x = gen_f32(r);
            if for_default && !x.is_finite() { 2.5 } else { x }
        }),
        K::Int32 | K::Sint32 | K::Sfixed32 => Value::I32(gen_i32(r)),
        K::Int64 | K::Sint64 | K::Sfixed64 => Value::I64(gen_i64(r)),
        K::Uint32 | K::Fixed32 => Value::U32(gen_i32(r) as u32),
        K::Uint64 | K::Fixed64 => Value::U64(gen_i64(r) as u64),
        K::Bool => Value::Bool(r.chance(1, 2)),
        K::Str => Value::String(gen_string(r)),
        K::Bytes => Value::Bytes(gen_bytes(r).into()),
        K::Enum(e) => Value::EnumNumber(if for_default || r.chance(3, 4) {
            r.pick(&s.enums[e].values).1
        } else {
            gen_i32(r)
        }),
        K::Msg(_) | K::Group(_) => unreachable!(),
    }
}
pub fn gen_value(r: &mut Rng, s: &Schema, k: K, depth: usize, unknown: bool) -> V {
    match k {
        K::Msg(m) | K::Group(m) => V::M(gen_message(r, s, m, depth, unknown)),
        k => V::S(gen_scalar(r, s, k, false)),
    }
}
pub fn gen_key(r: &mut Rng, s: &Schema, k: K) -> MapKey {
    gen_scalar(r, s, k, false).into_map_key().unwrap()
}
pub fn gen_field(r: &mut Rng, s: &Schema, f: &Fld, depth: usize, unknown: bool) -> V {
    let d = depth.saturating_sub(1);
    match f.card {
        Card::Rep(_) => {
            let n = match r.below(8) {
                0 => 0,
                1 => 20,
                _ => 1 + r.below(3),
            };
            let n = if matches!(f.kind, K::Msg(_) | K::Group(_)) { n.min(3) } else { n };
            V::L((0..n).map(|_| gen_value(r, s, f.kind, d, unknown)).collect())
        }
        Card::Map(k) => {
            let mut m: Vec<(MapKey, V)> = vec![];
            for _ in 0..r.below(4) {
                let key = if r.chance(1, 3) { match s.kind_default(k) { V::S(v) => v.into_map_key().unwrap(), _ => unreachable!() } } else { gen_key(r, s, k) };
                if m.iter().all(|x| x.0 != key) {
                    let v = if r.chance(1, 3) { s.kind_default(f.kind) } else { gen_value(r, s, f.kind, d, unknown) };
                    m.push((key, v));
                }
            }
            V::Mp(m)
        }
        _ => {
            if r.chance(1, 4) {
                s.field_default(f)
            } else {
                gen_value(r, s, f.kind, d, unknown)
            }
        }
    }
}
pub fn gen_message(r: &mut Rng, s: &Schema, ty: usize, depth: usize, unknown: bool) -> MM {
    let mut m = MM::new(ty);
    let p = if depth == 0 { 0 } else { 2 };
    for f in &s.msgs[ty].fields {
        if !r.chance(p, 3) {
            continue;
        }
        if depth <= 1 && matches!(f.kind, K::Msg(_) | K::Group(_)) && r.chance(2, 3) {
            continue;
        }
        let v = gen_field(r, s, f, depth, unknown);
        set_model(s, &mut m, f, v);
    }
    if unknown && r.chance(1, 2) {
        for _ in 0..1 + r.below(3) {
            let (num, rec) = gen_unknown(r, s, ty, 2);
            m.unk.entry(num).or_default().extend(rec);
        }
    }
    canon(s, &mut m);
    m
}
/// A canonical unknown record with a number the type does not declare.
pub fn gen_unknown(r: &mut Rng, s: &Schema, ty: usize, depth: usize) -> (u32, Vec<u8>) {
    let num = loop {
        let n = match r.below(4) {
            0 => 1 + r.below(20) as u32,
            1 => EXT_LO as u32 + r.below(100) as u32,
            2 => *r.pick(&NUMBERS),
            _ => 1 + (r.next() % 536870911) as u32,
        };
        if s.msgs[ty].field(n).is_none() {
            break n;
        }
    };
    (num, gen_unknown_record(r, num, depth))
}
pub fn gen_unknown_record(r: &mut Rng, num: u32, depth: usize) -> Vec<u8> {
    let mut b = vec![];
    match r.below(if depth > 0 { 5 } else { 4 }) {
        0 => {
            key(&mut b, num, 0);
            varint(&mut b, gen_i64(r) as u64);
        }
        1 => {
            key(&mut b, num, 1);
            b.extend(r.next().to_le_bytes());
        }
        2 => {
            key(&mut b, num, 5);
            b.extend((r.next() as u32).to_le_bytes());
        }
        3 => {
            let x = gen_bytes(r);
            key(&mut b, num, 2);
            varint(&mut b, x.len() as u64);
            b.extend(x);
        }
        _ => {
            key(&mut b, num, 3);
            for _ in 0..r.below(4) {
                let n = 1 + r.below(40) as u32;
                b.extend(gen_unknown_record(r, n, depth - 1));
            }
            key(&mut b, num, 4);
        }
    }
    b
}
/// Set a field in the model (clearing the other members of its oneof).
pub fn set_model(s: &Schema, m: &mut MM, f: &Fld, v: V) {
    clear_oneof(s, m, f);
    m.f.insert(f.num, v);
}
pub fn clear_oneof(s: &Schema, m: &mut MM, f: &Fld) {
    if let Some(o) = f.oneof {
        for g in &s.msgs[m.ty].fields {
            if g.oneof == Some(o) && g.num != f.num {
                m.f.remove(&g.num);
            }
        }
    }
}
/// Is the stored value what the field reads as when nothing is stored?
pub fn is_default(s: &Schema, f: &Fld, v: &V) -> bool {
    match (v, s.field_default(f)) {
        (V::S(Value::F32(a)), V::S(Value::F32(b))) => *a == b,
        (V::S(Value::F64(a)), V::S(Value::F64(b))) => *a == b,
        (v, d) => *v == d,
    }
}
/// Drop fields without presence that hold their default: they are not observable.
pub fn canon(s: &Schema, m: &mut MM) {
    let ty = m.ty;
    m.f.retain(|num, v| {
        let f = s.msgs[ty].field(*num).unwrap();
        s.presence(f) || !is_default(s, f, v)
    });
}

// ---------------------------------------------------------------- conversion and observation

pub fn to_value(s: &Schema, pool: &DescriptorPool, v: &V) -> Value {
    match v {
        V::S(x) => x.clone(),
        V::M(m) => Value::Message(build(s, pool, m)),
        V::L(l) => Value::List(l.iter().map(|x| to_value(s, pool, x)).collect()),
        V::Mp(m) => Value::Map(m.iter().map(|(k, x)| (k.clone(), to_value(s, pool, x))).collect::<HashMap<_, _>>()),
    }
}
pub fn desc(s: &Schema, pool: &DescriptorPool, ty: usize) -> MessageDescriptor {
    pool.get_message_by_name(&format!("{}.{}", s.pkg, s.msgs[ty].name)).expect("declared message")
}
/// Build the message through the public setters (and by merging the unknown records).
pub fn build(s: &Schema, pool: &DescriptorPool, m: &MM) -> DynamicMessage {
    let d = desc(s, pool, m.ty);
    let mut dm = DynamicMessage::new(d.clone());
    for (num, v) in &m.f {
        let f = s.msgs[m.ty].field(*num).unwrap();
        let val = to_value(s, pool, v);
        if f.ext {
            let x = d.get_extension(*num).expect("declared extension");
            dm.set_extension(&x, val);
        } else {
            dm.try_set_field_by_number(*num, val).map_err(|_| format!("field {} of {} rejects a valid value", f.name, s.msgs[m.ty].name)).unwrap();
        }
    }
    for rec in m.unk.values() {
        dm.merge(rec.as_slice()).expect("valid unknown records");
    }
    dm
}
pub fn from_value(s: &Schema, k: K, v: &Value) -> Result<V, String> {
    Ok(match (k, v) {
        (K::Msg(t) | K::Group(t), Value::Message(m)) => V::M(observe(s, t, m)?),
        (K::Msg(_) | K::Group(_), _) | (_, Value::Message(_) | Value::List(_) | Value::Map(_)) => {
            return Err(format!("value of the wrong shape for {k:?}"))
        }
        (_, v) => {
            let ok = matches!(
                (k, v),
                (K::Double, Value::F64(_)) | (K::Float, Value::F32(_)) | (K::Int32 | K::Sint32 | K::Sfixed32, Value::I32(_))
                    | (K::Int64 | K::Sint64 | K::Sfixed64, Value::I64(_)) | (K::Uint32 | K::Fixed32, Value::U32(_))
                    | (K::Uint64 | K::Fixed64, Value::U64(_)) | (K::Bool, Value::Bool(_)) | (K::Str, Value::String(_))
                    | (K::Bytes, Value::Bytes(_)) | (K::Enum(_), Value::EnumNumber(_))
            );
            if !ok {
                return Err(format!("value {v} of the wrong type for {k:?}"));
            }
            V::S(v.clone())
        }
    })
}
pub fn from_field_value(s: &Schema, f: &Fld, v: &Value) -> Result<V, String> {
    Ok(match (f.card, v) {
        (Card::Rep(_), Value::List(l)) => V::L(l.iter().map(|x| from_value(s, f.kind, x)).collect::<Result<_, _>>()?),
        (Card::Map(k), Value::Map(m)) => {
            let mut out = vec![];
            for (key, x) in m {
                from_value(s, k, &Value::from(key.clone()))?;
                out.push((key.clone(), from_value(s, f.kind, x)?));
            }
            out.sort_by(|a, b| a.0.cmp(&b.0));
            V::Mp(out)
        }
        (Card::Rep(_) | Card::Map(_), _) => return Err(format!("field {} holds a value of the wrong shape", f.name)),
        (_, v) => from_value(s, f.kind, v)?,
    })
}
/// Read a message through the public accessors, checking that the accessors agree with each other.
pub fn observe(s: &Schema, ty: usize, dm: &DynamicMessage) -> Result<MM, String> {
    let d = dm.descriptor();
    if d.full_name() != format!("{}.{}", s.pkg, s.msgs[ty].name) {
        return Err(format!("message of type {} where {}.{} is expected", d.full_name(), s.pkg, s.msgs[ty].name));
    }
    let mut m = MM::new(ty);
    let mut present = vec![];
    for f in &s.msgs[ty].fields {
        let (has, val) = if f.ext {
            let x = d.get_extension(f.num).ok_or("extension lookup failed")?;
            (dm.has_extension(&x), dm.get_extension(&x).into_owned())
        } else {
            let x = d.get_field(f.num).ok_or("field lookup failed")?;
            let has = dm.has_field(&x);
            if has != dm.has_field_by_number(f.num) || has != dm.has_field_by_name(&f.name) {
                return Err(format!("has_field of {} depends on how the field is addressed", f.name));
            }
            (has, dm.get_field(&x).into_owned())
        };
        if let (false, Value::Message(sub)) = (has, &val) {
            // The default of a message field is the empty message of its type.
            let (K::Msg(t) | K::Group(t)) = f.kind else { return Err(format!("field {} reads as a message", f.name)) };
            if sub.descriptor().full_name() != format!("{}.{}", s.pkg, s.msgs[t].name) || sub.encoded_len() != 0 || sub.fields().next().is_some() || sub.unknown_fields().next().is_some() {
                return Err(format!("absent field {} does not read as its default", f.name));
            }
            continue;
        }
        let v = from_field_value(s, f, &val)?;
        if has {
            present.push((f.num, f.ext));
            if !s.presence(f) && is_default(s, f, &v) {
                return Err(format!("field {} without presence is present with its default", f.name));
            }
            m.f.insert(f.num, v);
        } else if !is_default(s, f, &v) {
            return Err(format!("absent field {} does not read as its default", f.name));
        }
    }
    let mut it: Vec<(u32, bool)> = dm.fields().map(|(f, _)| (f.number(), false)).collect();
    it.extend(dm.extensions().map(|(f, _)| (f.number(), true)));
    it.sort();
    present.sort();
    if it != present {
        return Err(format!("field iteration yields {it:?} but the present fields are {present:?}"));
    }
    for u in dm.unknown_fields() {
        let mut b = vec![];
        u.encode(&mut b);
        if b.len() != u.encoded_len() {
            return Err(format!("unknown field {}: encoded_len {} but {} bytes", u.number(), u.encoded_len(), b.len()));
        }
        m.unk.entry(u.number()).or_default().extend(b);
    }
    for o in 0..s.msgs[ty].oneofs.len() {
        let set: Vec<&str> = s.msgs[ty].fields.iter().filter(|f| f.oneof == Some(o) && m.f.contains_key(&f.num)).map(|f| f.name.as_str()).collect();
        if set.len() > 1 {
            return Err(format!("oneof {} has several members set: {set:?}", s.msgs[ty].oneofs[o]));
        }
    }
    Ok(m)
}

// ---------------------------------------------------------------- reference wire format

pub fn varint(b: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        b.push((v as u8 & 0x7f) | 0x80);
        v >>= 7;
    }
    b.push(v as u8);
}
pub fn key(b: &mut Vec<u8>, num: u32, wt: u32) {
    varint(b, ((num << 3) | wt) as u64);
}
fn wire(k: K) -> u32 {
    match k {
        K::Double | K::Fixed64 | K::Sfixed64 => 1,
        K::Float | K::Fixed32 | K::Sfixed32 => 5,
        K::Str | K::Bytes | K::Msg(_) => 2,
        K::Group(_) => 3,
        _ => 0,
    }
}
fn enc_payload(b: &mut Vec<u8>, k: K, v: &Value) {
    match (k, v) {
        (K::Double, Value::F64(x)) => b.extend(x.to_bits().to_le_bytes()),
        (K::Float, Value::F32(x)) => b.extend(x.to_bits().to_le_bytes()),
        (K::Int32, Value::I32(x)) => varint(b, *x as i64 as u64),
        (K::Enum(_), Value::EnumNumber(x)) => varint(b, *x as i64 as u64),
        (K::Int64, Value::I64(x)) => varint(b, *x as u64),
        (K::Uint32, Value::U32(x)) => varint(b, *x as u64),
        (K::Uint64, Value::U64(x)) => varint(b, *x),
        // zig-zag: 0, -1, 1, -2 ... -> 0, 1, 2, 3 ...
        (K::Sint32, Value::I32(x)) => varint(b, if *x >= 0 { 2 * (*x as u64) } else { 2 * ((-(*x as i64)) as u64) - 1 }),
        (K::Sint64, Value::I64(x)) => varint(b, if *x >= 0 { 2 * (*x as u64) } else { (2 * (-(*x as i128)) as u128 - 1) as u64 }),
        (K::Fixed32, Value::U32(x)) => b.extend(x.to_le_bytes()),
        (K::Fixed64, Value::U64(x)) => b.extend(x.to_le_bytes()),
        (K::Sfixed32, Value::I32(x)) => b.extend(x.to_le_bytes()),
        (K::Sfixed64, Value::I64(x)) => b.extend(x.to_le_bytes()),
        (K::Bool, Value::Bool(x)) => b.push(*x as u8),
        (K::Str, Value::String(x)) => {
            varint(b, x.len() as u64);
            b.extend(x.as_bytes())
        }
        (K::Bytes, Value::Bytes(x)) => {
            varint(b, x.len() as u64);
            b.extend(x.as_ref())
        }
        _ => panic!("model value of the wrong type"),
    }
}
pub fn enc_elem(s: &Schema, b: &mut Vec<u8>, num: u32, k: K, v: &V) {
    key(b, num, wire(k));
    match (k, v) {
        (K::Msg(_), V::M(m)) => {
            let body = enc_ref(s, m);
            varint(b, body.len() as u64);
            b.extend(body);
        }
        (K::Group(_), V::M(m)) => {
            b.extend(enc_ref(s, m));
            key(b, num, 4);
        }
        (k, V::S(v)) => enc_payload(b, k, v),
        _ => panic!("model value of the wrong shape"),
    }
}
pub fn enc_packed(b: &mut Vec<u8>, num: u32, k: K, l: &[V]) {
    let mut body = vec![];
    for v in l {
        if let V::S(v) = v {
            enc_payload(&mut body, k, v)
        }
    }
    key(b, num, 2);
    varint(b, body.len() as u64);
    b.extend(body);
}
pub fn enc_field(s: &Schema, b: &mut Vec<u8>, f: &Fld, v: &V) {
    match (f.card, v) {
        (Card::Rep(_), V::L(l)) => {
            if s.packed(f) {
                if !l.is_empty() {
                    enc_packed(b, f.num, f.kind, l);
                }
            } else {
                for x in l {
                    enc_elem(s, b, f.num, f.kind, x)
                }
            }
        }
        (Card::Map(k), V::Mp(m)) => {
            for (mk, x) in m {
                let mut body = vec![];
                enc_elem(s, &mut body, 1, k, &V::S(Value::from(mk.clone())));
                enc_elem(s, &mut body, 2, f.kind, x);
                key(b, f.num, 2);
                varint(b, body.len() as u64);
                b.extend(body);
            }
        }
        _ => enc_elem(s, b, f.num, f.kind, v),
    }
}
pub fn enc_ref(s: &Schema, m: &MM) -> Vec<u8> {
    let mut b = vec![];
    for (num, v) in &m.f {
        let f = s.msgs[m.ty].field(*num).unwrap();
        if !s.presence(f) && is_default(s, f, v) {
            continue;
        }
        enc_field(s, &mut b, f, v);
    }
    for rec in m.unk.values() {
        b.extend(rec);
    }
    b
}

pub struct Cur<'a>(pub &'a [u8]);
impl<'a> Cur<'a> {
    pub fn varint(&mut self) -> Result<u64, String> {
        let mut v: u128 = 0;
        for i in 0..10 {
            let (&c, rest) = self.0.split_first().ok_or("truncated varint")?;
            self.0 = rest;
            v |= ((c & 0x7f) as u128) << (7 * i);
            if c & 0x80 == 0 {
                return u64::try_from(v).map_err(|_| "varint too large".into());
            }
        }
        Err("varint too long".into())
    }
    pub fn take(&mut self, n: u64) -> Result<&'a [u8], String> {
        if n > self.0.len() as u64 {
            return Err("truncated".into());
        }
        let (a, b) = self.0.split_at(n as usize);
        self.0 = b;
        Ok(a)
    }
    pub fn key(&mut self) -> Result<(u32, u32), String> {
        let k = self.varint()?;
        if k > u32::MAX as u64 || k >> 3 == 0 || (k & 7) > 5 {
            return Err("bad key".into());
        }
        Ok(((k >> 3) as u32, (k & 7) as u32))
    }
    /// Skip the payload of a record; returns the canonical re-encoding of the record.
    pub fn skip(&mut self, num: u32, wt: u32) -> Result<Vec<u8>, String> {
        let mut b = vec![];
        key(&mut b, num, wt);
        match wt {
            0 => varint(&mut b, self.varint()?),
            1 => b.extend(self.take(8)?),
            5 => b.extend(self.take(4)?),
            2 => {
                let n = self.varint()?;
                let x = self.take(n)?;
                varint(&mut b, n);
                b.extend(x)
            }
            3 => loop {
                let (n2, w2) = self.key()?;
                if w2 == 4 {
                    if n2 != num {
                        return Err("mismatched end group".into());
                    }
                    key(&mut b, num, 4);
                    break;
                }
                b.extend(self.skip(n2, w2)?);
            },
            _ => return Err("unexpected end group".into()),
        }
        Ok(b)
    }
}
fn dec_payload(c: &mut Cur, k: K) -> Result<Value, String> {
    fn a4(x: &[u8]) -> [u8; 4] {
        x.try_into().unwrap()
    }
    fn a8(x: &[u8]) -> [u8; 8] {
        x.try_into().unwrap()
    }
    Ok(match k {
        K::Double => Value::F64(f64::from_le_bytes(a8(c.take(8)?))),
        K::Float => Value::F32(f32::from_le_bytes(a4(c.take(4)?))),
        K::Int32 => Value::I32(c.varint()? as i32),
        K::Enum(_) => Value::EnumNumber(c.varint()? as i32),
        K::Int64 => Value::I64(c.varint()? as i64),
        K::Uint32 => Value::U32(c.varint()? as u32),
        K::Uint64 => Value::U64(c.varint()?),
        K::Sint32 => {
            let u = c.varint()? as u32;
            Value::I32(if u % 2 == 0 { (u / 2) as i32 } else { -((u / 2) as i64 + 1) as i32 })
        }
        K::Sint64 => {
            let u = c.varint()?;
            Value::I64(if u % 2 == 0 { (u / 2) as i64 } else { -((u / 2) as i128 + 1) as i64 })
        }
        K::Fixed32 => Value::U32(u32::from_le_bytes(a4(c.take(4)?))),
        K::Fixed64 => Value::U64(u64::from_le_bytes(a8(c.take(8)?))),
        K::Sfixed32 => Value::I32(i32::from_le_bytes(a4(c.take(4)?))),
        K::Sfixed64 => Value::I64(i64::from_le_bytes(a8(c.take(8)?))),
        K::Bool => Value::Bool(c.varint()? != 0),
        K::Str => {
            let n = c.varint()?;
            Value::String(String::from_utf8(c.take(n)?.to_vec()).map_err(|_| "utf8")?)
        }
        K::Bytes => {
            let n = c.varint()?;
            Value::Bytes(Bytes::copy_from_slice(c.take(n)?))
        }
        K::Msg(_) | K::Group(_) => unreachable!(),
    })
}
/// Merge one element of kind `k` into `into` (messages merge, scalars replace).
fn dec_elem(s: &Schema, c: &mut Cur, num: u32, wt: u32, k: K, into: &mut V) -> Result<(), String> {
    if wt != wire(k) {
        return Err("wire type mismatch".into());
    }
    match k {
        K::Msg(_) => {
            let n = c.varint()?;
            let mut sub = Cur(c.take(n)?);
            if let V::M(m) = into {
                dec_into(s, &mut sub, m, None)?;
            }
        }
        K::Group(_) => {
            if let V::M(m) = into {
                dec_into(s, c, m, Some(num))?;
            }
        }
        k => *into = V::S(dec_payload(c, k)?),
    }
    Ok(())
}
fn dec_into(s: &Schema, c: &mut Cur, m: &mut MM, group: Option<u32>) -> Result<(), String> {
    loop {
        if c.0.is_empty() {
            return if group.is_some() { Err("unterminated group".into()) } else { Ok(()) };
        }
        let (num, wt) = c.key()?;
        if wt == 4 {
            return if group == Some(num) { Ok(()) } else { Err("unexpected end group".into()) };
        }
        let Some(f) = s.msgs[m.ty].field(num) else {
            let rec = c.skip(num, wt)?;
            m.unk.entry(num).or_default().extend(rec);
            continue;
        };
        clear_oneof(s, m, f);
        match f.card {
            Card::Rep(_) => {
                let V::L(l) = m.f.entry(num).or_insert(V::L(vec![])) else { unreachable!() };
                if wt == 2 && packable(f.kind) {
                    let n = c.varint()?;
                    let mut sub = Cur(c.take(n)?);
                    while !sub.0.is_empty() {
                        l.push(V::S(dec_payload(&mut sub, f.kind)?));
                    }
                } else {
                    let mut v = s.kind_default(f.kind);
                    dec_elem(s, c, num, wt, f.kind, &mut v)?;
                    l.push(v);
                }
            }
            Card::Map(kk) => {
                if wt != 2 {
                    return Err("wire type mismatch".into());
                }
                let n = c.varint()?;
                let mut sub = Cur(c.take(n)?);
                let mut key = s.kind_default(kk);
                let mut val = s.kind_default(f.kind);
                while !sub.0.is_empty() {
                    let (n2, w2) = sub.key()?;
                    match n2 {
                        1 => dec_elem(s, &mut sub, 1, w2, kk, &mut key)?,
                        2 => dec_elem(s, &mut sub, 2, w2, f.kind, &mut val)?,
                        _ => {
                            sub.skip(n2, w2)?;
                        }
                    }
                }
                let V::S(key) = key else { unreachable!() };
                let key = key.into_map_key().unwrap();
                let V::Mp(l) = m.f.entry(num).or_insert(V::Mp(vec![])) else { unreachable!() };
                l.retain(|x| x.0 != key);
                l.push((key, val));
            }
            _ => {
                let d = s.field_default(f);
                let d = if matches!(f.kind, K::Msg(_) | K::Group(_)) { s.kind_default(f.kind) } else { d };
                let v = m.f.entry(num).or_insert(d);
                dec_elem(s, c, num, wt, f.kind, v)?;
            }
        }
    }
}
pub fn dec_ref(s: &Schema, ty: usize, bytes: &[u8]) -> Result<MM, String> {
    let mut m = MM::new(ty);
    merge_ref(s, &mut m, bytes)?;
    Ok(m)
}
pub fn canon_deep(s: &Schema, m: &mut MM) {
    canon(s, m);
    for v in m.f.values_mut() {
        match v {
            V::M(m) => canon_deep(s, m),
            V::L(l) => l.iter_mut().for_each(|v| if let V::M(m) = v { canon_deep(s, m) }),
            V::Mp(l) => l.iter_mut().for_each(|(_, v)| if let V::M(m) = v { canon_deep(s, m) }),
            _ => {}
        }
    }
}
pub fn merge_ref(s: &Schema, m: &mut MM, bytes: &[u8]) -> Result<(), String> {
    dec_into(s, &mut Cur(bytes), m, None)?;
    canon_deep(s, m);
    Ok(())
}

// ---------------------------------------------------------------- printing

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{c:02x}")).collect()
}
pub fn schema_json(s: &Schema) -> serde_json::Value {
    let set = FileDescriptorSet { file: vec![s.to_file()] };
    serde_json::json!({ "file_descriptor_set_hex": hex(&set.encode_to_vec()) })
}
/// As `merge_ref` but keeps stored defaults (they are stored, though not visible).
pub fn merge_ref_nocanon(s: &Schema, m: &mut MM, bytes: &[u8]) -> Result<(), String> {
    dec_into(s, &mut Cur(bytes), m, None)
}
