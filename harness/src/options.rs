//! P21: what is loaded into a pool comes out again, options included.
use crate::{cx::*, model::hex, pools::*, rng::Rng};
use prost::Message as _;
use prost_reflect::{bytes::Bytes, *};
use prost_types::{
    descriptor_proto::ExtensionRange, field_descriptor_proto::{Label, Type as T}, uninterpreted_option::NamePart, DescriptorProto, EnumDescriptorProto, EnumValueDescriptorProto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet,
    MessageOptions, UninterpretedOption,
};
use std::collections::HashMap;

const KINDS: [(&str, &str); 9] = [
    ("File", "file"), ("Message", "msg"), ("Field", "fld"), ("Oneof", "one"), ("Enum", "enm"), ("EnumValue", "val"), ("Service", "svc"), ("Method", "mth"), ("ExtensionRange", "rng"),
];
const TYPES: [(T, &str); 17] = [
    (T::Double, "double"), (T::Float, "float"), (T::Int32, "int32"), (T::Int64, "int64"), (T::Uint32, "uint32"), (T::Uint64, "uint64"), (T::Sint32, "sint32"), (T::Sint64, "sint64"), (T::Fixed32, "fixed32"), (T::Fixed64, "fixed64"),
    (T::Sfixed32, "sfixed32"), (T::Sfixed64, "sfixed64"), (T::Bool, "bool"), (T::String, "string"), (T::Bytes, "bytes"), (T::Enum, "enum"), (T::Message, "message"),
];
fn s(x: &str) -> Option<String> { Some(x.to_string()) }
fn type_name(t: T) -> Option<&'static str> {
    match t { T::Enum => Some(".opts.E"), T::Message => Some(".opts.M"), _ => None }
}
/// The file of the option extensions: for each options message one singular and one repeated extension of every type.
fn opts_file() -> FileDescriptorProto {
    let mut f = FileDescriptorProto { name: s("opts.proto"), package: s("opts"), dependency: vec!["google/protobuf/descriptor.proto".into()], ..Default::default() };
    f.enum_type.push(EnumDescriptorProto {
        name: s("E"), value: [("E_ZERO", 0), ("E_ONE", 1), ("E_NEG", -7)].iter().map(|(n, v)| EnumValueDescriptorProto { name: s(n), number: Some(*v), options: None }).collect(), ..Default::default()
    });
    let rep = |f: FieldDescriptorProto| FieldDescriptorProto { label: Some(Label::Repeated as i32), ..f };
    let entry = DescriptorProto {
        name: s("MapEntry"), field: vec![fld("key", 1, T::String, None), fld("value", 2, T::Int32, None)], options: Some(MessageOptions { map_entry: Some(true), ..Default::default() }), ..Default::default()
    };
    f.message_type.push(DescriptorProto {
        name: s("M"),
        field: vec![
            fld("a", 1, T::Int32, None), fld("s", 2, T::String, None), fld("sub", 3, T::Message, Some(".opts.M")), rep(fld("subs", 4, T::Message, Some(".opts.M"))), rep(fld("map", 5, T::Message, Some(".opts.M.MapEntry"))),
            fld("e", 6, T::Enum, Some(".opts.E")), rep(fld("list", 7, T::Sint32, None)), fld("b", 8, T::Bool, None), FieldDescriptorProto { type_name: s(".opts.M.G"), ..fld("g", 9, T::Group, None) },
        ],
        nested_type: vec![entry, DescriptorProto { name: s("G"), field: vec![fld("x", 1, T::Int64, None)], ..Default::default() }],
        extension_range: vec![ExtensionRange { start: Some(100), end: Some(200), options: None }],
        ..Default::default()
    });
    f.extension.push(FieldDescriptorProto { extendee: s(".opts.M"), ..fld("inner", 100, T::Uint32, None) });
    for (k, p) in KINDS {
        for (i, (t, n)) in TYPES.iter().enumerate() {
            let e = |name: &str, num: usize| FieldDescriptorProto { extendee: Some(format!(".google.protobuf.{k}Options")), ..fld(name, num as i32, *t, type_name(*t)) };
            f.extension.push(e(&format!("{p}_{n}"), 50000 + i));
            f.extension.push(rep(e(&format!("{p}_{n}s"), 50100 + i)));
        }
    }
    f
}
fn base_files() -> Vec<FileDescriptorProto> {
    let g = DescriptorPool::global();
    let mut v: Vec<_> = g.file_descriptor_protos().filter(|f| f.name() == "google/protobuf/descriptor.proto").cloned().collect();
    v.push(opts_file());
    v
}
fn scalar(r: &mut Rng, pool: &DescriptorPool, t: T, depth: usize) -> Value {
    match t {
        T::Double => Value::F64(*r.pick(&[0.0, 1.5, -2.0, 1e300])),
        T::Float => Value::F32(*r.pick(&[0.0, 1.5, -2.0, 1e30])),
        T::Int32 | T::Sint32 | T::Sfixed32 => Value::I32(*r.pick(&[0, 1, -1, i32::MAX, i32::MIN])),
        T::Int64 | T::Sint64 | T::Sfixed64 => Value::I64(*r.pick(&[0, 1, -1, i64::MAX, i64::MIN])),
        T::Uint32 | T::Fixed32 => Value::U32(*r.pick(&[0, 1, 300, u32::MAX])),
        T::Uint64 | T::Fixed64 => Value::U64(*r.pick(&[0, 1, 300, u64::MAX])),
        T::Bool => Value::Bool(r.chance(1, 2)),
        T::String => Value::String(r.pick(&["", "x", "a\"b\\ \n\u{e9}"]).to_string()),
        T::Bytes => Value::Bytes(Bytes::from_static(*r.pick(&[&b""[..], b"\x00\xff\"", b"q"]))),
        T::Enum => Value::EnumNumber(*r.pick(&[0, 1, -7])),
        _ => Value::Message(opt_message(r, pool, depth)),
    }
}
fn opt_message(r: &mut Rng, pool: &DescriptorPool, depth: usize) -> DynamicMessage {
    let mut m = DynamicMessage::new(pool.get_message_by_name("opts.M").unwrap());
    if r.chance(1, 2) { m.set_field_by_name("a", scalar(r, pool, T::Int32, 0)) }
    if r.chance(1, 3) { m.set_field_by_name("s", scalar(r, pool, T::String, 0)) }
    if r.chance(1, 3) { m.set_field_by_name("e", scalar(r, pool, T::Enum, 0)) }
    if r.chance(1, 4) { m.set_field_by_name("b", Value::Bool(true)) }
    if r.chance(1, 4) { m.set_field_by_name("list", Value::List((0..r.below(3)).map(|_| scalar(r, pool, T::Sint32, 0)).collect())) }
    if r.chance(1, 4) { m.set_field_by_name("map", Value::Map((0..r.below(3)).map(|i| (MapKey::String(format!("k{i}")), scalar(r, pool, T::Int32, 0))).collect::<HashMap<_, _>>())) }
    if r.chance(1, 4) { m.set_extension(&pool.get_extension_by_name("opts.inner").unwrap(), scalar(r, pool, T::Uint32, 0)) }
    if r.chance(1, 6) {
        let mut g = DynamicMessage::new(pool.get_message_by_name("opts.M.G").unwrap());
        g.set_field_by_name("x", scalar(r, pool, T::Int64, 0));
        m.set_field_by_name("g", Value::Message(g));
    }
    if depth > 0 && r.chance(1, 3) { m.set_field_by_name("sub", Value::Message(opt_message(r, pool, depth - 1))) }
    if depth > 0 && r.chance(1, 3) { m.set_field_by_name("subs", Value::List((0..r.below(3)).map(|_| Value::Message(opt_message(r, pool, depth - 1))).collect())) }
    m
}
/// The literal that sets a singular option to a value.
fn literal(r: &mut Rng, pool: &DescriptorPool, v: &Value) -> UninterpretedOption {
    let mut u = UninterpretedOption::default();
    let mut int = |x: i128| if x >= 0 { u.positive_int_value = Some(x as u64) } else { u.negative_int_value = Some(x as i64) };
    match v {
        Value::Bool(b) => u.identifier_value = s(if *b { "true" } else { "false" }),
        Value::I32(x) => int(*x as i128),
        Value::I64(x) => int(*x as i128),
        Value::U32(x) => int(*x as i128),
        Value::U64(x) => int(*x as i128),
        Value::F32(x) => if x.fract() == 0.0 && x.abs() < 1e6 && r.chance(1, 2) { int(*x as i128) } else { u.double_value = Some(*x as f64) },
        Value::F64(x) => if x.fract() == 0.0 && x.abs() < 1e6 && r.chance(1, 2) { int(*x as i128) } else { u.double_value = Some(*x) },
        Value::String(x) => u.string_value = Some(x.as_bytes().to_vec()),
        Value::Bytes(x) => u.string_value = Some(x.to_vec()),
        Value::EnumNumber(n) => u.identifier_value = Some(pool.get_enum_by_name("opts.E").unwrap().get_value(*n).unwrap().name().to_string()),
        Value::Message(m) => u.aggregate_value = Some(m.to_text_format()),
        Value::List(_) | Value::Map(_) => unreachable!(),
    }
    u
}
fn part(n: &str, ext: bool) -> NamePart { NamePart { name_part: n.to_string(), is_extension: ext } }
/// Give the options message `o` of kind `k` some custom options. When `un` is given they are left for the pool to interpret:
/// `o` is what is meant, `un` what is declared.
fn add_options(r: &mut Rng, pool: &DescriptorPool, prefix: &str, o: &mut DynamicMessage, mut un: Option<&mut Vec<UninterpretedOption>>, paths: &mut Vec<Option<Vec<i32>>>) {
    let spell = |r: &mut Rng, n: &str| match r.below(3) { 0 => format!(".opts.{n}"), _ => format!("opts.{n}") };
    for _ in 0..1 + r.below(3) {
        let (t, n) = *r.pick(&TYPES);
        let repeated = r.chance(1, 3);
        let name = format!("{prefix}_{n}{}", if repeated { "s" } else { "" });
        let ext = pool.get_extension_by_name(&format!("opts.{name}")).unwrap();
        let name = spell(r, &name);
        if o.has_extension(&ext) { continue }
        if repeated {
            let list: Vec<Value> = (0..1 + r.below(3)).map(|_| scalar(r, pool, t, 1)).collect();
            if let Some(un) = &mut un {
                for (j, v) in list.iter().enumerate() { un.push(UninterpretedOption { name: vec![part(&name, true)], ..literal(r, pool, v) }); paths.push(Some(vec![ext.number() as i32, j as i32])) }
            }
            o.set_extension(&ext, Value::List(list));
        } else if t == T::Message && un.is_some() && r.chance(1, 2) {
            // member by member
            let un = un.as_mut().unwrap();
            let mut m = DynamicMessage::new(pool.get_message_by_name("opts.M").unwrap());
            if r.chance(2, 3) {
                let v = scalar(r, pool, T::Int32, 0);
                un.push(UninterpretedOption { name: vec![part(&name, true), part("a", false)], ..literal(r, pool, &v) });
                paths.push(Some(vec![ext.number() as i32, 1]));
                m.set_field_by_name("a", v);
            }
            if r.chance(1, 2) {
                let list: Vec<Value> = (0..1 + r.below(3)).map(|_| scalar(r, pool, T::Sint32, 0)).collect();
                for (j, v) in list.iter().enumerate() { un.push(UninterpretedOption { name: vec![part(&name, true), part("list", false)], ..literal(r, pool, v) }); paths.push(Some(vec![ext.number() as i32, 7, j as i32])) }
                m.set_field_by_name("list", Value::List(list));
            }
            if r.chance(1, 2) {
                let v = scalar(r, pool, T::Uint32, 0);
                un.push(UninterpretedOption { name: vec![part(&name, true), part("opts.inner", true)], ..literal(r, pool, &v) });
                paths.push(Some(vec![ext.number() as i32, 100]));
                m.set_extension(&pool.get_extension_by_name("opts.inner").unwrap(), v);
            }
            let mut sub = DynamicMessage::new(m.descriptor());
            let v = scalar(r, pool, T::String, 0);
            un.push(UninterpretedOption { name: vec![part(&name, true), part("sub", false), part("s", false)], ..literal(r, pool, &v) });
            paths.push(Some(vec![ext.number() as i32, 3, 2]));
            sub.set_field_by_name("s", v);
            let entries: Vec<_> = (0..r.below(3)).map(|i| (format!("k{i}"), i as i32)).collect();
            for (k, v) in &entries { un.push(UninterpretedOption { name: vec![part(&name, true), part("sub", false), part("map", false)], aggregate_value: Some(format!("key: \"{k}\" value: {v}")), ..Default::default() }); paths.push(None) }
            if !entries.is_empty() { sub.set_field_by_name("map", Value::Map(entries.into_iter().map(|(k, v)| (MapKey::String(k), Value::I32(v))).collect())) }
            m.set_field_by_name("sub", Value::Message(sub));
            o.set_extension(&ext, Value::Message(m));
        } else {
            let v = scalar(r, pool, t, 2);
            if let Some(un) = &mut un { un.push(UninterpretedOption { name: vec![part(&name, true)], ..literal(r, pool, &v) }); paths.push(Some(vec![ext.number() as i32])) }
            o.set_extension(&ext, v);
        }
    }
    if let Some(f) = o.descriptor().get_field_by_name("deprecated") {
        if !o.has_field(&f) && r.chance(1, 3) {
            if let Some(un) = &mut un { un.push(UninterpretedOption { name: vec![part("deprecated", false)], identifier_value: s("true"), ..Default::default() }); paths.push(Some(vec![f.number() as i32])) }
            o.set_field(&f, Value::Bool(true));
        }
    }
}
/// What is declared, and what it means.
struct Node { declared: DynamicMessage, meant: DynamicMessage }
/// `at`: the path of this node; `moved`: where the options to be interpreted are declared, and where they end up.
fn decorate(r: &mut Rng, pool: &DescriptorPool, n: &mut Node, uninterpreted: bool, at: &[i32], moved: &mut Vec<(Vec<i32>, Vec<i32>)>) {
    let d = n.declared.descriptor();
    let un_desc = pool.get_message_by_name("google.protobuf.UninterpretedOption").unwrap();
    for f in d.fields() {
        if f.name() == "options" {
            if !r.chance(1, 3) { continue }
            let Kind::Message(od) = f.kind() else { unreachable!() };
            let prefix = KINDS.iter().find(|k| format!("{}Options", k.0) == od.name()).unwrap().1;
            let get = |m: &DynamicMessage| match &*m.get_field(&f) { Value::Message(o) => o.clone(), _ => unreachable!() };
            let (mut declared, mut meant) = (get(&n.declared), get(&n.meant));
            if uninterpreted {
                let mut un = vec![];
                let mut paths = vec![];
                add_options(r, pool, prefix, &mut meant, Some(&mut un), &mut paths);
                for (j, p) in paths.into_iter().enumerate() {
                    if let Some(p) = p { moved.push(([at, &[f.number() as i32, 999, j as i32]].concat(), [at, &[f.number() as i32], &p].concat())) }
                }
                let list = un.iter().map(|u| Value::Message(DynamicMessage::decode(un_desc.clone(), u.encode_to_vec().as_slice()).unwrap())).collect();
                declared.set_field_by_name("uninterpreted_option", Value::List(list));
            } else {
                add_options(r, pool, prefix, &mut meant, None, &mut vec![]);
                declared = meant.clone();
            }
            n.declared.set_field(&f, Value::Message(declared));
            n.meant.set_field(&f, Value::Message(meant));
        } else if let (Kind::Message(_), true) = (f.kind(), f.is_list()) {
            if f.name() == "location" { continue }
            let take = |m: &DynamicMessage| m.get_field(&f).as_list().unwrap().to_vec();
            let (a, b) = (take(&n.declared), take(&n.meant));
            if a.is_empty() { continue }
            let mut pairs: Vec<Node> = a.into_iter().zip(b).map(|(x, y)| Node { declared: x.as_message().unwrap().clone(), meant: y.as_message().unwrap().clone() }).collect();
            for (j, p) in pairs.iter_mut().enumerate() { decorate(r, pool, p, uninterpreted, &[at, &[f.number() as i32, j as i32]].concat(), moved) }
            let (a, b): (Vec<_>, Vec<_>) = pairs.into_iter().map(|p| (Value::Message(p.declared), Value::Message(p.meant))).unzip();
            n.declared.set_field(&f, Value::List(a));
            n.meant.set_field(&f, Value::List(b));
        }
    }
}
/// The pool fills in the JSON names.
fn with_json_names(f: &mut FileDescriptorProto) {
    fn fields(v: &mut [FieldDescriptorProto]) {
        for f in v { if f.json_name.is_none() { f.json_name = Some(camel(f.name())) } }
    }
    fn message(m: &mut DescriptorProto) {
        fields(&mut m.field);
        fields(&mut m.extension);
        m.nested_type.iter_mut().for_each(message);
    }
    fields(&mut f.extension);
    f.message_type.iter_mut().for_each(message);
}
fn sub(m: &DynamicMessage, f: &str) -> Vec<DynamicMessage> {
    m.get_field_by_name(f).unwrap().as_list().unwrap().iter().map(|v| v.as_message().unwrap().clone()).collect()
}
fn text(m: &DynamicMessage, f: &str) -> String { m.get_field_by_name(f).unwrap().as_str().unwrap().to_string() }
struct Options<'a> { pool: &'a DescriptorPool, seen: usize }
impl Options<'_> {
    /// The options read from a descriptor are those declared.
    fn same(&mut self, what: &str, declared: &DynamicMessage, read: DynamicMessage) -> Result<(), String> {
        let o = declared.get_field_by_name("options").unwrap();
        let o = o.as_message().unwrap();
        if read.descriptor().full_name() != o.descriptor().full_name() { return Err(format!("the options of {what} are a {}", read.descriptor().full_name())) }
        let read = DynamicMessage::decode(o.descriptor(), read.encode_to_vec().as_slice()).map_err(|e| format!("the options of {what}: {e}"))?;
        if &read != o { return Err(format!("the options of {what} are {}, and {} was declared", read.to_text_format(), o.to_text_format())) }
        self.seen += 1;
        Ok(())
    }
    fn extension(&mut self, scope: &str, x: &DynamicMessage) -> Result<(), String> {
        let n = join(scope, &text(x, "name"));
        let d = self.pool.get_extension_by_name(&n).ok_or(format!("{n} is not there"))?;
        self.same(&n, x, d.options())
    }
    fn enum_(&mut self, scope: &str, e: &DynamicMessage) -> Result<(), String> {
        let n = join(scope, &text(e, "name"));
        let d = self.pool.get_enum_by_name(&n).ok_or(format!("{n} is not there"))?;
        self.same(&n, e, d.options())?;
        for v in sub(e, "value") {
            let d = d.get_value_by_name(&text(&v, "name")).ok_or("an enum value is not there")?;
            self.same(d.full_name(), &v, d.options())?;
        }
        Ok(())
    }
    fn message(&mut self, scope: &str, m: &DynamicMessage) -> Result<(), String> {
        let n = join(scope, &text(m, "name"));
        let d = self.pool.get_message_by_name(&n).ok_or(format!("{n} is not there"))?;
        self.same(&n, m, d.options())?;
        for f in sub(m, "field") {
            let d = d.get_field_by_name(&text(&f, "name")).ok_or("a field is not there")?;
            self.same(d.full_name(), &f, d.options())?;
        }
        for (o, d) in sub(m, "oneof_decl").iter().zip(d.oneofs()) { self.same(d.full_name(), o, d.options())? }
        for x in sub(m, "extension") { self.extension(&n, &x)? }
        for e in sub(m, "enum_type") { self.enum_(&n, &e)? }
        for c in sub(m, "nested_type") { self.message(&n, &c)? }
        Ok(())
    }
    fn file(&mut self, f: &DynamicMessage) -> Result<(), String> {
        let d = self.pool.get_file_by_name(&text(f, "name")).ok_or("a file is not there")?;
        self.same(d.name(), f, d.options())?;
        let scope = text(f, "package");
        for m in sub(f, "message_type") { self.message(&scope, &m)? }
        for m in sub(f, "enum_type") { self.enum_(&scope, &m)? }
        for m in sub(f, "extension") { self.extension(&scope, &m)? }
        for v in sub(f, "service") {
            let n = join(&scope, &text(&v, "name"));
            let d = self.pool.get_service_by_name(&n).ok_or(format!("{n} is not there"))?;
            self.same(&n, &v, d.options())?;
            for (m, d) in sub(&v, "method").iter().zip(d.methods()) { self.same(d.full_name(), m, d.options())? }
        }
        Ok(())
    }
}
fn join(scope: &str, n: &str) -> String { if scope.is_empty() { n.to_string() } else { format!("{scope}.{n}") } }

/// One option, named from the scope of one declaration: which of the extensions declared around it is meant.
fn scoped(r: &mut Rng) -> R {
    const LEVELS: [&str; 4] = ["", "A", "B", "C"];
    let pk = *r.pick(&["", "p", "p.q"]);
    let path: Vec<String> = (0..4).map(|l| LEVELS[1..=l].iter().fold(pk.to_string(), |a, b| join(&a, b))).collect();
    let (k, p) = *r.pick(&KINDS);
    // an extension of the same name at some of the levels
    let there: Vec<bool> = (0..4).map(|_| r.chance(1, 2)).collect();
    let name = format!("x_{p}");
    let level = if matches!(p, "svc" | "mth" | "file") { 0 } else { r.below(4) };
    let level = if matches!(p, "msg" | "fld" | "one" | "rng") { level.max(1) } else { level };
    // how it is spelled, and what that denotes from there
    let start = r.below(5);
    let (spelled, meant) = match start {
        0 => (name.clone(), (0..=level).rev().find(|l| there[*l])),
        4 => { let l = r.below(4); (format!(".{}", join(&path[l], &name)), Some(l).filter(|l| there[*l])) }
        j => {
            // from the message at level j inwards
            let l = j + r.below(4 - j);
            (format!("{}.{name}", LEVELS[j..=l].join(".")), Some(l).filter(|l| there[*l] && level + 1 >= j))
        }
    };
    let o = || UninterpretedOption { name: vec![part(&spelled, true)], positive_int_value: Some(7), ..Default::default() };
    let ext = |l: usize| FieldDescriptorProto { extendee: Some(format!(".google.protobuf.{k}Options")), ..fld(&name, 50000 + l as i32, T::Int32, None) };
    let mut f = FileDescriptorProto { name: s("a.proto"), package: Some(pk.to_string()).filter(|p| !p.is_empty()), dependency: vec!["google/protobuf/descriptor.proto".into()], ..Default::default() };
    let en = |l: usize| {
        let mut e = EnumDescriptorProto { name: Some(format!("E{l}")), value: vec![EnumValueDescriptorProto { name: Some(format!("V{l}")), number: Some(0), options: None }], ..Default::default() };
        if l == level && p == "enm" { e.options.get_or_insert_with(Default::default).uninterpreted_option.push(o()) }
        if l == level && p == "val" { e.value[0].options.get_or_insert_with(Default::default).uninterpreted_option.push(o()) }
        e
    };
    let mut inner: Option<DescriptorProto> = None;
    for l in (1..4).rev() {
        let mut m = DescriptorProto { name: s(LEVELS[l]), field: vec![FieldDescriptorProto { oneof_index: Some(0), ..fld("f", 1, T::Int32, None) }], ..Default::default() };
        m.oneof_decl.push(prost_types::OneofDescriptorProto { name: s("o"), options: None });
        m.extension_range.push(ExtensionRange { start: Some(10), end: Some(20), options: None });
        if l == level {
            match p {
                "msg" => m.options.get_or_insert_with(Default::default).uninterpreted_option.push(o()),
                "fld" => m.field[0].options.get_or_insert_with(Default::default).uninterpreted_option.push(o()),
                "one" => m.oneof_decl[0].options.get_or_insert_with(Default::default).uninterpreted_option.push(o()),
                "rng" => m.extension_range[0].options.get_or_insert_with(Default::default).uninterpreted_option.push(o()),
                _ => {}
            }
        }
        m.enum_type.push(en(l));
        if there[l] { m.extension.push(ext(l)) }
        m.nested_type.extend(inner.take());
        inner = Some(m);
    }
    f.message_type.extend(inner);
    f.enum_type.push(en(0));
    if there[0] { f.extension.push(ext(0)) }
    let mut v = prost_types::ServiceDescriptorProto { name: s("S"), ..Default::default() };
    let a = Some(format!(".{}", path[1]));
    v.method.push(prost_types::MethodDescriptorProto { name: s("m"), input_type: a.clone(), output_type: a, ..Default::default() });
    match p {
        "file" => f.options.get_or_insert_with(Default::default).uninterpreted_option.push(o()),
        "svc" => v.options.get_or_insert_with(Default::default).uninterpreted_option.push(o()),
        "mth" => v.method[0].options.get_or_insert_with(Default::default).uninterpreted_option.push(o()),
        _ => {}
    }
    f.service.push(v);
    let ctx = |e: String| format!("{e}\nthe option ({spelled}) of kind {k} at level {level}, {name} declared at {there:?}\n{}", hex(&f.encode_to_vec()));
    let mut q = DescriptorPool::global();
    match (q.add_file_descriptor_proto(f.clone()), meant) {
        (Err(e), Some(_)) => Err(ctx(format!("a valid option is refused: {e:?}"))),
        (Ok(()), None) => Err(ctx("an option that nothing declares is accepted".into())),
        (Err(_), None) => Ok(h((k, level, start))),
        (Ok(()), Some(l)) => {
            let d = q.get_message_by_name("google.protobuf.FileDescriptorProto").unwrap();
            let t = DynamicMessage::decode(d, q.get_file_by_name("a.proto").unwrap().encode_to_vec().as_slice()).map_err(|e| ctx(e.to_string()))?.to_text_format();
            let want = format!("[{}]:7", join(&path[l], &name));
            if t.matches(":7").count() != 1 || t.matches(&want).count() != 1 || t.contains("uninterpreted") { return Err(ctx(format!("{want} is meant, and the file is {t}"))) }
            Ok(h((k, level, start, l)))
        }
    }
}

pub fn p21(cx: &mut Cx) -> &'static str {
    let base = base_files();
    let pool = DescriptorPool::from_file_descriptor_set(FileDescriptorSet { file: base.clone() }).expect("the base files are valid");
    let set_desc = pool.get_message_by_name("google.protobuf.FileDescriptorSet").unwrap();
    // (both are known findings: known_findings.txt)
    cx.case("later-extension/other-wire-type", |_| {
        let mut p = DescriptorPool::global();
        // a.proto with the option 50000: 1, before anything declares it
        let bytes = [10, 7, b'a', b'.', b'p', b'r', b'o', b't', b'o', 66, 4, 128, 181, 24, 1];
        p.decode_file_descriptor_proto(&bytes[..]).map_err(|e| format!("internal: {e}"))?;
        let mut x = FieldDescriptorProto { label: Some(Label::Optional as i32), ..fld("x", 50000, T::String, None) };
        x.extendee = s(".google.protobuf.FileOptions");
        p.add_file_descriptor_proto(FileDescriptorProto { name: s("x.proto"), dependency: vec!["google/protobuf/descriptor.proto".into()], extension: vec![x], ..Default::default() }).map_err(|e| format!("internal: {e}"))?;
        p.get_file_by_name("a.proto").unwrap().options();
        Ok(1)
    });
    cx.case("own-descriptor-proto/other-type", |_| {
        let mut p = DescriptorPool::new();
        let m = DescriptorProto { name: s("FileOptions"), field: vec![fld("java_package", 1, T::Int32, None)], ..Default::default() };
        p.add_file_descriptor_proto(FileDescriptorProto { name: s("google/protobuf/descriptor.proto"), package: s("google.protobuf"), message_type: vec![m], ..Default::default() }).map_err(|e| format!("internal: {e}"))?;
        let o = UninterpretedOption { name: vec![NamePart { name_part: "java_package".into(), is_extension: false }], positive_int_value: Some(5), ..Default::default() };
        let f = FileDescriptorProto { name: s("a.proto"), options: Some(prost_types::FileOptions { uninterpreted_option: vec![o], ..Default::default() }), ..Default::default() };
        // accepted or refused, but not a panic
        let _ = p.add_file_descriptor_proto(f);
        Ok(2)
    });
    for _ in 0..cx.n(1500, 15000) {
        if cx.stop() { break }
        cx.case("scoped", scoped);
    }
    for i in 0..cx.n(500, 8000) {
        if cx.stop() { break }
        let uninterpreted = i % 2 == 1;
        cx.case(if uninterpreted { "interpreted" } else { "given" }, |r: &mut Rng| {
            let mut plain = gen_files(r, "g", None);
            for f in &mut plain {
                f.dependency.push("opts.proto".into());
                if r.chance(1, 4) { f.weak_dependency.push(f.dependency.len() as i32 - 1) }
                let mut all = vec![];
                fn each<'a>(l: &'a mut [DescriptorProto], all: &mut dyn FnMut(&mut DescriptorProto)) { for m in l { all(m); each(&mut m.nested_type, all) } }
                each(&mut f.message_type, &mut |m| all.push(m.options.as_ref().map_or(true, |o| !o.map_entry())));
                let mut all = all.into_iter();
                each(&mut f.message_type, &mut |m| if all.next() == Some(true) {
                    for k in 0..[0i32, 0, 1, 3][r.below(4)] { m.extension_range.push(ExtensionRange { start: Some(40000 + 10 * k), end: Some(40005 + 10 * k), options: None }) }
                });
                for m in &mut f.message_type {
                    if r.chance(1, 3) { m.reserved_range.push(prost_types::descriptor_proto::ReservedRange { start: Some(30000), end: Some(30010) }) }
                    if r.chance(1, 3) { m.reserved_name.push("zz".into()) }
                }
                for m in &mut f.enum_type {
                    if r.chance(1, 3) { m.reserved_range.push(prost_types::enum_descriptor_proto::EnumReservedRange { start: Some(50), end: Some(60) }) }
                    if r.chance(1, 3) { m.reserved_name.push("ZZ".into()) }
                }
                if r.chance(1, 2) {
                    let mut loc = prost_types::source_code_info::Location { path: vec![4, 0], span: vec![1, 2, 3], leading_comments: s(" c"), ..Default::default() };
                    if r.chance(1, 2) { loc.path = vec![4, 0, 2, 0]; loc.leading_detached_comments = vec!["d".into(), "e".into()] }
                    f.source_code_info = Some(prost_types::SourceCodeInfo { location: vec![loc] });
                }
            }
            let mut files = base.clone();
            files.extend(plain);
            let bytes = FileDescriptorSet { file: files.clone() }.encode_to_vec();
            files.iter_mut().for_each(with_json_names);
            let meant = DynamicMessage::decode(set_desc.clone(), FileDescriptorSet { file: files.clone() }.encode_to_vec().as_slice()).unwrap();
            let declared = DynamicMessage::decode(set_desc.clone(), bytes.as_slice()).unwrap();
            // files converted from prost's types
            if i % 8 == 0 {
                let set = FileDescriptorSet::decode(bytes.as_slice()).unwrap();
                let p = DescriptorPool::from_file_descriptor_set(set).map_err(|e| format!("internal: {e:?}"))?;
                let back = FileDescriptorSet::decode(p.encode_to_vec().as_slice()).map_err(|e| format!("the encoded pool cannot be decoded: {e}"))?;
                if back.file != files { return Err(format!("the pool does not encode the files that were added\n{}", set_hex(&files))) }
                if !p.file_descriptor_protos().eq(files.iter()) { return Err(format!("file_descriptor_protos are not the files that were added\n{}", set_hex(&files))) }
                for (f, g) in p.files().zip(&files) {
                    if f.file_descriptor_proto() != g || FileDescriptorProto::decode(f.encode_to_vec().as_slice()).as_ref() != Ok(g) { return Err(format!("file_descriptor_proto of {} is not the file that was added", f.name())) }
                }
            }
            let mut n = Node { declared, meant };
            let split = |m: &DynamicMessage| sub(m, "file");
            // (an empty list that was set reads like none)
            let plain = |m: &DynamicMessage| DynamicMessage::decode(m.descriptor(), m.encode_to_vec().as_slice()).unwrap();
            let (mut a, mut b) = (split(&n.declared), split(&n.meant));
            for k in base.len()..a.len() {
                let mut one = Node { declared: a[k].clone(), meant: b[k].clone() };
                let mut moved = vec![];
                decorate(r, &pool, &mut one, uninterpreted, &[], &mut moved);
                if r.chance(1, 2) && !moved.is_empty() {
                    let info = pool.get_message_by_name("google.protobuf.SourceCodeInfo").unwrap();
                    let locations = |after: bool| {
                        let location = moved.iter().enumerate().flat_map(|(j, (from, to))| {
                            let path = if after { to } else { from };
                            let at = |path: Vec<i32>, c: i32| prost_types::source_code_info::Location { path, span: vec![j as i32, c, c + 1], ..Default::default() };
                            [at(path.clone(), 0), at([path, &[2][..]].concat(), 5), at(from[..from.len() - 3].to_vec(), 9)]
                        }).collect();
                        Value::Message(DynamicMessage::decode(info.clone(), prost_types::SourceCodeInfo { location }.encode_to_vec().as_slice()).unwrap())
                    };
                    one.declared.set_field_by_name("source_code_info", locations(false));
                    one.meant.set_field_by_name("source_code_info", locations(true));
                }
                a[k] = one.declared;
                b[k] = plain(&one.meant);
            }
            n.declared.set_field_by_name("file", Value::List(a.into_iter().map(Value::Message).collect()));
            n.meant.set_field_by_name("file", Value::List(b.iter().cloned().map(Value::Message).collect()));
            let input = n.declared.encode_to_vec();
            let ctx = |e: String| format!("{e}\nfile_descriptor_set {}", hex(&input));
            let p = DescriptorPool::decode(input.as_slice()).map_err(|e| ctx(format!("a valid set is refused: {e:?}")))?;
            let out = p.encode_to_vec();
            // the same in a buffer of several parts
            {
                let mut at = [r.below(input.len() + 1), r.below(input.len() + 1)];
                at.sort();
                let chain = prost::bytes::Buf::chain(prost::bytes::Buf::chain(&input[..at[0]], &input[at[0]..at[1]]), &input[at[1]..]);
                let c = DescriptorPool::decode(chain).map_err(|e| ctx(format!("a valid set is refused in parts {at:?}: {e:?}")))?;
                if plain(&DynamicMessage::decode(set_desc.clone(), c.encode_to_vec().as_slice()).unwrap()) != plain(&DynamicMessage::decode(set_desc.clone(), out.as_slice()).unwrap()) { return Err(ctx(format!("the set in parts {at:?} encodes something else"))) }
            }
            let back = DynamicMessage::decode(set_desc.clone(), out.as_slice()).map_err(|e| ctx(format!("the encoded pool cannot be decoded: {e}")))?;
            if back != n.meant {
                let (x, y) = (split(&back), split(&n.meant));
                let d = x.iter().zip(&y).find(|(x, y)| x != y).map(|(x, y)| format!("{} instead of {}", x.to_text_format(), y.to_text_format())).unwrap_or_default();
                return Err(ctx(format!("the pool encodes {d}")));
            }
            let mut o = Options { pool: &p, seen: 0 };
            for f in &b { o.file(f).map_err(ctx)? }
            for (f, d) in b.iter().zip(p.files()) {
                let g = DynamicMessage::decode(f.descriptor(), d.encode_to_vec().as_slice()).map_err(|e| ctx(format!("the encoded file cannot be decoded: {e}")))?;
                if &g != f { return Err(ctx(format!("the file {} encodes something else", d.name()))) }
            }
            // an equivalent pool
            let q = DescriptorPool::decode(out.as_slice()).map_err(|e| ctx(format!("the encoded pool is refused: {e:?}")))?;
            if DynamicMessage::decode(set_desc.clone(), q.encode_to_vec().as_slice()).as_ref() != Ok(&n.meant) { return Err(ctx("the pool made of the encoded pool encodes something else".into())) }
            let mut o = Options { pool: &q, seen: 0 };
            for f in &b { o.file(f).map_err(ctx)? }
            // (encoded bytes and options may differ in the order of map entries)
            let lines = |p: &DescriptorPool| -> Vec<String> { dump(p).into_iter().filter(|l| !l.starts_with("file ") && !l.starts_with(" proto ") && !l.starts_with(" options ")).collect() };
            if lines(&p) != lines(&q) { return Err(ctx("the pool made of the encoded pool differs".into())) }
            // without the files of the options: they are kept unread
            if !uninterpreted {
                let bare = |m: &DynamicMessage| -> DynamicMessage {
                    let mut m = m.clone();
                    let mut files = split(&m)[base.len()..].to_vec();
                    for f in &mut files {
                        let l: Vec<Value> = f.get_field_by_name("dependency").unwrap().as_list().unwrap().iter().filter(|v| v.as_str() != Some("opts.proto")).cloned().collect();
                        f.set_field_by_name("dependency", Value::List(l));
                        f.clear_field_by_name("weak_dependency");
                    }
                    m.set_field_by_name("file", Value::List(files.into_iter().map(Value::Message).collect()));
                    plain(&m)
                };
                let p = DescriptorPool::decode(bare(&n.declared).encode_to_vec().as_slice()).map_err(|e| ctx(format!("a valid set is refused without the files of its options: {e:?}")))?;
                let back = DynamicMessage::decode(set_desc.clone(), p.encode_to_vec().as_slice()).map_err(|e| ctx(format!("the encoded pool cannot be decoded: {e}")))?;
                if back != bare(&n.meant) { return Err(ctx("without the files of its options, the pool encodes something else".into())) }
                let mut o = Options { pool: &p, seen: 0 };
                for f in split(&bare(&n.meant)) { o.file(&f).map_err(|e| ctx(format!("without the files of the options: {e}")))? }
            }
            note(|| split(&n.declared).last().unwrap().to_text_format());
            Ok(h(&input))
        });
    }
    "random files with random standard and custom options of every type on every kind of declaration, given as encoded fields or as options to be interpreted; the encoded pool, the encoded files and the options read from every descriptor must be what was declared, in the pool and in a pool made of the encoded one"
}
