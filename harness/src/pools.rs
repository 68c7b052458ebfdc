//! P08-P11, P19, P20: descriptor pools.
use crate::{cx::*, model::hex, rng::Rng};
use prost::Message as _;
use prost_reflect::{*, Syntax, Value};
use prost_types::{
    descriptor_proto::{ExtensionRange, ReservedRange},
    enum_descriptor_proto::EnumReservedRange,
    field_descriptor_proto::{Label, Type as T},
    uninterpreted_option::NamePart,
    DescriptorProto, EnumDescriptorProto, EnumOptions, EnumValueDescriptorProto, EnumValueOptions, ExtensionRangeOptions, FieldDescriptorProto, FieldOptions, FileDescriptorProto, FileDescriptorSet, FileOptions, MessageOptions, MethodDescriptorProto, MethodOptions, OneofDescriptorProto, OneofOptions, ServiceDescriptorProto, ServiceOptions, UninterpretedOption,
};
use std::collections::{BTreeMap, BTreeSet};

fn s(x: &str) -> Option<String> { Some(x.to_string()) }
pub fn fld(name: &str, num: i32, ty: T, tn: Option<&str>) -> FieldDescriptorProto {
    FieldDescriptorProto { name: s(name), number: Some(num), label: Some(Label::Optional as i32), r#type: Some(ty as i32), type_name: tn.map(|x| x.to_string()), ..Default::default() }
}
fn msg(name: &str) -> DescriptorProto { DescriptorProto { name: s(name), ..Default::default() } }
fn file(name: &str, pkg: &str, proto3: bool) -> FileDescriptorProto {
    FileDescriptorProto { name: s(name), package: if pkg.is_empty() { None } else { s(pkg) }, syntax: if proto3 { s("proto3") } else { None }, ..Default::default() }
}
fn enm(name: &str, vals: &[(&str, i32)]) -> EnumDescriptorProto {
    EnumDescriptorProto { name: s(name), value: vals.iter().map(|(n, v)| EnumValueDescriptorProto { name: s(n), number: Some(*v), options: None }).collect(), ..Default::default() }
}
pub fn set_hex(f: &[FileDescriptorProto]) -> String {
    format!("file_descriptor_set {}", hex(&FileDescriptorSet { file: f.to_vec() }.encode_to_vec()))
}

// --------------------------------------------------------------------------- generator of schemas

/// A valid set of files. `p` makes the names distinct from those of other sets.
pub fn gen_files(r: &mut Rng, p: &str, extend: Option<&str>) -> Vec<FileDescriptorProto> {
    let nf = 1 + r.below(3);
    let mut out: Vec<FileDescriptorProto> = vec![];
    let mut msgs: Vec<(usize, String)> = vec![]; // (file, full name)
    let mut enums: Vec<(usize, String, Vec<String>)> = vec![];
    let mut ext_msgs: Vec<(usize, String)> = vec![];
    let mut ext_used: BTreeSet<(String, i32)> = BTreeSet::new();
    let mut deps: Vec<Vec<bool>> = vec![];
    for fi in 0..nf {
        let proto3 = r.chance(1, 2);
        let pkg = ["", "a", "a.b", "a.b.c", "q"][r.below(5)].to_string();
        let mut f = file(&format!("{p}{fi}.proto"), &pkg, proto3);
        let mut vis = vec![false; nf];
        vis[fi] = true;
        for d in 0..fi {
            if r.chance(2, 3) {
                let public = r.chance(1, 2);
                f.dependency.push(format!("{p}{d}.proto"));
                if public { f.public_dependency.push(f.dependency.len() as i32 - 1) }
                vis[d] = true;
                // one level of public imports
                for (k, dep) in out[d].dependency.iter().enumerate() {
                    if out[d].public_dependency.contains(&(k as i32)) {
                        let t = out.iter().position(|o| o.name() == dep).unwrap();
                        vis[t] = true;
                    }
                }
            }
        }
        if let Some(e) = extend { f.dependency.push(e.split('|').next().unwrap().to_string()) }
        deps.push(vis.clone());
        let q = |n: &str| if pkg.is_empty() { n.to_string() } else { format!("{pkg}.{n}") };
        for ei in 0..r.below(3) {
            let n = format!("{}E{fi}_{ei}", p.to_uppercase());
            let e = gen_enum(r, &n, proto3);
            enums.push((fi, q(&n), e.value.iter().map(|v| v.name().to_string()).collect()));
            f.enum_type.push(e);
        }
        for mi in 0..1 + r.below(3) {
            let n = format!("{}M{fi}_{mi}", p.to_uppercase());
            let mut m = msg(&n);
            if r.chance(1, 2) {
                m.nested_type.push(msg("In"));
                msgs.push((fi, q(&format!("{n}.In"))));
            }
            if r.chance(1, 2) {
                let e = gen_enum(r, &format!("{n}NE"), proto3);
                enums.push((fi, q(&format!("{n}.{n}NE")), e.value.iter().map(|v| v.name().to_string()).collect()));
                m.enum_type.push(e);
            }
            if !proto3 && r.chance(2, 3) {
                m.extension_range.push(ExtensionRange { start: Some(100), end: Some(200), options: None });
                ext_msgs.push((fi, q(&n)));
            }
            msgs.push((fi, q(&n)));
            f.message_type.push(m);
        }
        out.push(f);
    }
    // fields
    for fi in 0..nf {
        let proto3 = out[fi].syntax() == "proto3";
        let vm: Vec<String> = msgs.iter().filter(|m| deps[fi][m.0]).map(|m| m.1.clone()).collect();
        let ve: Vec<(String, Vec<String>)> = enums.iter().filter(|m| deps[fi][m.0] && (!proto3 || out[m.0].syntax() == "proto3")).map(|m| (m.1.clone(), m.2.clone())).collect();
        for mi in 0..out[fi].message_type.len() {
            let mut fields = vec![];
            let n = r.below(7);
            let mut nums: Vec<i32> = vec![1, 2, 3, 15, 16, 99, 200, 18999, 20000, 536870911];
            r.shuffle(&mut nums);
            let oneofs = r.below(3).min(n);
            for k in 0..n {
                let mut f = gen_typed(r, &vm, &ve);
                f.name = s(&format!("{}{k}", ["f", "foo_bar", "Camel_Case", "x__y", "_lead"][r.below(5)]));
                f.number = Some(nums[k]);
                if r.chance(1, 5) { f.json_name = s(&format!("j{k}{}", ["", "-x", " ü"][r.below(3)])) }
                if k < oneofs {
                    f.oneof_index = Some(k as i32);
                } else if oneofs > 0 && r.chance(1, 3) {
                    f.oneof_index = Some(r.below(oneofs) as i32);
                } else {
                    match r.below(5) {
                        0 | 1 => {
                            f.label = Some(Label::Repeated as i32);
                            if r.chance(1, 2) && !matches!(f.r#type(), T::String | T::Bytes | T::Message) {
                                f.options = Some(FieldOptions { packed: if r.chance(2, 3) { Some(r.chance(1, 2)) } else { None }, deprecated: Some(true), ..Default::default() });
                            }
                        }
                        2 if !proto3 => f.label = Some(Label::Required as i32),
                        _ => {}
                    }
                }
                if !proto3 && f.label() == Label::Optional && f.r#type() == T::Int32 && r.chance(1, 2) {
                    f.default_value = s(&format!("{}", r.next() as i32));
                }
                fields.push(f);
            }
            let m = &mut out[fi].message_type[mi];
            for o in 0..oneofs { m.oneof_decl.push(OneofDescriptorProto { name: s(&format!("one{o}")), options: None }) }
            if proto3 && r.chance(1, 3) {
                let mut f = fld("syn", 2047, T::Int32, None);
                f.proto3_optional = Some(true);
                f.oneof_index = Some(m.oneof_decl.len() as i32);
                m.oneof_decl.push(OneofDescriptorProto { name: s("_syn"), options: None });
                fields.push(f);
            }
            m.field = fields;
        }
        // extensions, at file and at message level
        let ve2: Vec<String> = ext_msgs.iter().filter(|m| deps[fi][m.0]).map(|m| m.1.clone()).collect();
        let mut targets = ve2;
        if let Some(e) = extend { targets.push(e.split('|').nth(1).unwrap().to_string()) }
        for xi in 0..r.below(4) {
            if targets.is_empty() { break }
            let t = r.pick(&targets).clone();
            let mut f = gen_typed(r, &vm, &ve);
            let num = loop {
                let n = 100 + r.below(100) as i32;
                if ext_used.insert((t.clone(), n)) { break n }
            };
            f.name = s(&format!("{p}x{fi}_{xi}"));
            f.number = Some(num);
            f.extendee = Some(format!(".{t}"));
            if r.chance(1, 2) { f.label = Some(Label::Repeated as i32) }
            if r.chance(1, 2) {
                out[fi].extension.push(f);
            } else {
                let k = r.below(out[fi].message_type.len());
                out[fi].message_type[k].extension.push(f);
            }
        }
        if !vm.is_empty() && r.chance(1, 2) {
            let methods = (0..r.below(3)).map(|k| MethodDescriptorProto {
                name: s(&format!("Call{k}")), input_type: Some(format!(".{}", r.pick(&vm))), output_type: Some(format!(".{}", r.pick(&vm))),
                client_streaming: if r.chance(1, 2) { Some(r.chance(1, 2)) } else { None }, server_streaming: if r.chance(1, 2) { Some(r.chance(1, 2)) } else { None }, ..Default::default()
            }).collect();
            out[fi].service.push(ServiceDescriptorProto { name: s(&format!("{}S{fi}", p.to_uppercase())), method: methods, options: None });
        }
        let k = r.below(out[fi].message_type.len());
        if r.chance(1, 2) {
            out[fi].message_type[k].options = Some(MessageOptions { deprecated: Some(true), ..Default::default() });
        }
    }
    out
}
fn gen_typed(r: &mut Rng, vm: &[String], ve: &[(String, Vec<String>)]) -> FieldDescriptorProto {
    const TS: [T; 15] = [T::Double, T::Float, T::Int64, T::Uint64, T::Int32, T::Fixed64, T::Fixed32, T::Bool, T::String, T::Bytes, T::Uint32, T::Sfixed32, T::Sfixed64, T::Sint32, T::Sint64];
    match r.below(6) {
        0 if !vm.is_empty() => fld("", 0, T::Message, Some(&format!(".{}", r.pick(vm)))),
        1 if !ve.is_empty() => fld("", 0, T::Enum, Some(&format!(".{}", r.pick(ve).0))),
        _ => fld("", 0, *r.pick(&TS), None),
    }
}
fn gen_enum(r: &mut Rng, name: &str, proto3: bool) -> EnumDescriptorProto {
    let mut nums = vec![0, 1, -1, 2, 5, 127, 128, i32::MAX, i32::MIN, -1000, 70000];
    r.shuffle(&mut nums);
    nums.truncate(1 + r.below(8));
    if proto3 {
        nums.retain(|n| *n != 0);
        nums.insert(0, 0);
    }
    let alias = r.chance(1, 3);
    if alias {
        for _ in 0..1 + r.below(3) {
            let n = *r.pick(&nums);
            let at = 1 + r.below(nums.len());
            nums.insert(at, n);
        }
    }
    let vals: Vec<(String, i32)> = nums.iter().enumerate().map(|(i, n)| (format!("{}_V{i}", name.to_uppercase()), *n)).collect();
    let mut e = EnumDescriptorProto { name: s(name), value: vals.iter().map(|(n, v)| EnumValueDescriptorProto { name: s(n), number: Some(*v), options: None }).collect(), ..Default::default() };
    if alias { e.options = Some(EnumOptions { allow_alias: Some(true), ..Default::default() }) }
    e
}
fn new_pool(files: &[FileDescriptorProto]) -> Result<DescriptorPool, DescriptorError> {
    DescriptorPool::from_file_descriptor_set(FileDescriptorSet { file: files.to_vec() })
}

// --------------------------------------------------------------------------- observation of a pool

fn kind_text(k: &Kind) -> String {
    match k {
        Kind::Message(m) => format!("message {}", m.full_name()),
        Kind::Enum(e) => format!("enum {}", e.full_name()),
        k => format!("{k:?}"),
    }
}
/// Everything observable about a pool, in iteration order.
pub fn dump(p: &DescriptorPool) -> Vec<String> {
    let mut o = vec![];
    for f in p.files() {
        o.push(format!("file {} {} {:?} {}", f.name(), f.package_name(), f.syntax(), hex(&f.encode_to_vec())));
        o.push(format!(" deps {:?}", f.dependencies().map(|d| d.name().to_string()).collect::<Vec<_>>()));
        o.push(format!(" public {:?}", f.public_dependencies().map(|d| d.name().to_string()).collect::<Vec<_>>()));
        o.push(format!(" messages {:?}", f.messages().map(|d| d.full_name().to_string()).collect::<Vec<_>>()));
        o.push(format!(" enums {:?}", f.enums().map(|d| d.full_name().to_string()).collect::<Vec<_>>()));
        o.push(format!(" extensions {:?}", f.extensions().map(|d| d.full_name().to_string()).collect::<Vec<_>>()));
        o.push(format!(" services {:?}", f.services().map(|d| d.full_name().to_string()).collect::<Vec<_>>()));
        o.push(format!(" proto {}", hex(&f.file_descriptor_proto().encode_to_vec())));
        o.push(format!(" options {}", hex(&f.options().encode_to_vec())));
    }
    for m in p.all_messages() {
        o.push(format!("message {} in {} parent {:?}", m.full_name(), m.parent_file().name(), m.parent_message().map(|x| x.full_name().to_string())));
        for f in m.fields() {
            o.push(format!(" field {} {} {} {} {:?} packed {} presence {} oneof {:?} default {}", f.name(), f.number(), f.json_name(), kind_text(&f.kind()), f.cardinality(), f.is_packed(), f.supports_presence(), f.containing_oneof().map(|x| x.name().to_string()), f.default_value()));
        }
        for f in m.extensions() {
            o.push(format!(" extension {} {} {} {:?} packed {}", f.full_name(), f.number(), kind_text(&f.kind()), f.cardinality(), f.is_packed()));
        }
        for f in m.oneofs() {
            o.push(format!(" oneof {} {:?}", f.name(), f.fields().map(|x| x.name().to_string()).collect::<Vec<_>>()));
        }
        o.push(format!(" children {:?} {:?} {:?}", m.child_messages().map(|x| x.full_name().to_string()).collect::<Vec<_>>(), m.child_enums().map(|x| x.full_name().to_string()).collect::<Vec<_>>(), m.child_extensions().map(|x| x.full_name().to_string()).collect::<Vec<_>>()));
    }
    for e in p.all_enums() {
        o.push(format!("enum {} {:?} default {}", e.full_name(), e.values().map(|v| (v.name().to_string(), v.number())).collect::<Vec<_>>(), e.default_value().name()));
    }
    for e in p.all_extensions() {
        o.push(format!("extension {} {} of {} json {}", e.full_name(), e.number(), e.containing_message().full_name(), e.json_name()));
    }
    for v in p.services() {
        o.push(format!("service {} {:?}", v.full_name(), v.methods().map(|m| (m.name().to_string(), m.input().full_name().to_string(), m.output().full_name().to_string(), m.is_client_streaming(), m.is_server_streaming())).collect::<Vec<_>>()));
    }
    o
}
/// Look up every name of the files in the pool.
fn lookups(p: &DescriptorPool, files: &[FileDescriptorProto]) -> Vec<String> {
    let mut names: BTreeSet<String> = BTreeSet::new();
    for f in files {
        fn walk(names: &mut BTreeSet<String>, scope: &str, m: &DescriptorProto) {
            let q = if scope.is_empty() { m.name().to_string() } else { format!("{scope}.{}", m.name()) };
            names.insert(q.clone());
            m.field.iter().for_each(|f| { names.insert(format!("{q}.{}", f.name())); });
            m.extension.iter().for_each(|f| { names.insert(format!("{q}.{}", f.name())); });
            m.enum_type.iter().for_each(|f| { names.insert(format!("{q}.{}", f.name())); });
            m.nested_type.iter().for_each(|n| walk(names, &q, n));
        }
        let pk = f.package();
        let q = |n: &str| if pk.is_empty() { n.to_string() } else { format!("{pk}.{n}") };
        names.insert(pk.to_string());
        f.message_type.iter().for_each(|m| walk(&mut names, pk, m));
        f.enum_type.iter().for_each(|x| { names.insert(q(x.name())); });
        f.extension.iter().for_each(|x| { names.insert(q(x.name())); });
        f.service.iter().for_each(|x| { names.insert(q(x.name())); });
    }
    let mut o = vec![];
    for n in names {
        o.push(format!("{n}: {:?} {:?} {:?} {:?}", p.get_message_by_name(&n).map(|x| x.full_name().to_string()), p.get_enum_by_name(&n).map(|x| x.full_name().to_string()), p.get_extension_by_name(&n).map(|x| x.full_name().to_string()), p.get_service_by_name(&n).map(|x| x.full_name().to_string())));
    }
    for f in files {
        o.push(format!("{}: {:?}", f.name(), p.get_file_by_name(f.name()).map(|x| x.name().to_string())));
    }
    o
}
fn diff(a: &[String], b: &[String]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            return Some(format!("{:?} instead of {:?}", b.get(i), a.get(i)));
        }
    }
    None
}

// --------------------------------------------------------------------------- P08

/// Break a valid batch; the fault sits in file `k`.
fn break_batch(r: &mut Rng, fs: &mut Vec<FileDescriptorProto>, kind: usize, base: &[FileDescriptorProto]) -> bool {
    let k = r.below(fs.len());
    let nm = fs[k].message_type.len();
    let m = r.below(nm);
    let pk = fs[k].package().to_string();
    match kind {
        0 => fs[k].syntax = s("proto9"),
        1 => { let d = fs[k].message_type[m].clone(); fs[k].message_type.push(d) }
        2 => fs[k].dependency.push("missing.proto".into()),
        3 => fs[k].message_type[m].field.push(fld("bad_number", 0, T::Int32, None)),
        4 => fs[k].message_type[m].field.push(fld("bad_type", 536870900, T::Message, Some(".no.Such"))),
        5 => { let mut f = fld("bad_default", 536870901, T::Int32, None); f.default_value = s("x"); fs[k].message_type[m].field.push(f) }
        6 => fs[k].enum_type.push(enm("EmptyEnum", &[])),
        7 => { let mut f = fld("bad_oneof", 536870902, T::Int32, None); f.oneof_index = Some(7); fs[k].message_type[m].field.push(f) }
        8 => { let d = fs[k].clone(); fs.push(d) }
        9 => { let n = fs[k].dependency.len() as i32; let i = *r.pick(&[100, n, n, -1, i32::MIN, i32::MAX]); if r.chance(1, 3) { fs[k].weak_dependency.push(i) } else { fs[k].public_dependency.push(i) } }
        10 => {
            let o = fs[k].options.get_or_insert_with(Default::default);
            o.uninterpreted_option.push(UninterpretedOption { name: vec![NamePart { name_part: "no_such_option".into(), is_extension: false }], identifier_value: s("x"), ..Default::default() });
        }
        11 => {
            let o = fs[k].message_type[m].options.get_or_insert_with(Default::default);
            o.uninterpreted_option.push(UninterpretedOption { name: vec![NamePart { name_part: "no.ext".into(), is_extension: true }], positive_int_value: Some(1), ..Default::default() });
        }
        12 => { let mut f = fld("bad_ext", 5, T::Int32, None); let x = if pk.is_empty() { format!(".{}", fs[k].message_type[m].name()) } else { format!(".{pk}.{}", fs[k].message_type[m].name()) }; f.extendee = Some(x); fs[k].extension.push(f) }
        13 => fs[k].service.push(ServiceDescriptorProto { name: s("BadService"), method: vec![MethodDescriptorProto { name: s("X"), input_type: s(".nope"), output_type: s(".nope"), ..Default::default() }], options: None }),
        14 => {
            // a name that the pool already has
            let b = &base[0];
            if b.package().is_empty() || b.package() != pk { return false }
            let d = b.message_type[0].clone();
            fs[k].message_type.push(DescriptorProto { name: d.name, ..Default::default() });
        }
        15 => fs[k].enum_type.push(EnumDescriptorProto { value: vec![EnumValueDescriptorProto { name: s("BADV0"), number: Some(1), options: None }, EnumValueDescriptorProto { name: s("BADV1"), number: Some(1), options: None }], ..enm("BadEnum", &[]) }),
        _ => { let mut p = pk.clone(); if !p.is_empty() { p.push('.') } let mm = fs[k].message_type[m].name().to_string(); let q = file("pkgclash.proto", &format!("{p}{mm}"), false); fs.push(q) }
    }
    true
}
const BREAKS: usize = 17;
pub fn p08(cx: &mut Cx) -> &'static str {
    for i in 0..cx.n(5000, 40000) {
        if cx.stop() { break }
        cx.case(&format!("fault{}", i % BREAKS), |r| {
            let base = gen_files(r, "b", None);
            let ctx = |e: String, bad: &[FileDescriptorProto]| format!("{e}\nbase {}\nbatch {}", set_hex(&base), set_hex(bad));
            let pool = new_pool(&base).map_err(|e| format!("internal: the base is rejected: {e}\n{}", set_hex(&base)))?;
            // the update extends a message of the base when there is one
            let mut ext = None;
            for f in &base {
                for m in &f.message_type {
                    if !m.extension_range.is_empty() {
                        ext = Some(format!("{}|{}{}", f.name(), if f.package().is_empty() { String::new() } else { format!("{}.", f.package()) }, m.name()));
                    }
                }
            }
            let mut used: BTreeMap<String, BTreeSet<i32>> = BTreeMap::new();
            for e in pool.all_extensions() { used.entry(e.containing_message().full_name().to_string()).or_default().insert(e.number() as i32); }
            let mut good = gen_files(r, "u", ext.as_deref());
            for f in &mut good {
                let fix = |x: &mut FieldDescriptorProto| {
                    let t = x.extendee().trim_start_matches('.').to_string();
                    let set = used.entry(t).or_default();
                    let mut n = x.number();
                    while !set.insert(n) { n = 100 + (n - 100 + 1) % 100 }
                    x.number = Some(n);
                };
                f.extension.iter_mut().chain(f.message_type.iter_mut().flat_map(|m| m.extension.iter_mut())).for_each(fix);
            }
            let mut bad = good.clone();
            if !break_batch(r, &mut bad, i % BREAKS, &base) { return Ok(0) }
            let mut probe = base.clone();
            probe.extend(bad.iter().cloned());
            let before = dump(&pool);
            let before_names = lookups(&pool, &probe);
            let clone = pool.clone();
            let held: Vec<MessageDescriptor> = pool.all_messages().collect();
            let mut p = if r.chance(1, 2) { pool.clone() } else { new_pool(&base).unwrap() };
            let how = r.below(3);
            let res = match how {
                0 => p.add_file_descriptor_set(FileDescriptorSet { file: bad.clone() }),
                1 => p.add_file_descriptor_protos(bad.clone()),
                _ => p.decode_file_descriptor_set(FileDescriptorSet { file: bad.clone() }.encode_to_vec().as_slice()),
            };
            if res.is_ok() { return Err(ctx("a faulty batch is accepted".into(), &bad)) }
            if let Some(d) = diff(&before, &dump(&p)) { return Err(ctx(format!("after the failed update: {d}"), &bad)) }
            if let Some(d) = diff(&before_names, &lookups(&p, &probe)) { return Err(ctx(format!("after the failed update: {d}"), &bad)) }
            // the corrected update then works as on a fresh pool
            p.add_file_descriptor_protos(good.clone()).map_err(|e| ctx(format!("the corrected update fails: {e}"), &bad))?;
            let mut fresh = new_pool(&base).unwrap();
            fresh.add_file_descriptor_protos(good.clone()).map_err(|e| ctx(format!("internal: the good batch fails: {e}"), &good))?;
            if let Some(d) = diff(&dump(&fresh), &dump(&p)) { return Err(ctx(format!("after the corrected update: {d}"), &bad)) }
            probe.extend(good.iter().cloned());
            if let Some(d) = diff(&lookups(&fresh, &probe), &lookups(&p, &probe)) { return Err(ctx(format!("after the corrected update: {d}"), &bad)) }
            // clones and descriptors obtained earlier are untouched
            if let Some(d) = diff(&before, &dump(&clone)) { return Err(ctx(format!("in a clone: {d}"), &bad)) }
            for (a, b) in held.iter().zip(clone.all_messages()) {
                if a.full_name() != b.full_name() || a.fields().count() != b.fields().count() || a.extensions().count() != b.extensions().count() { return Err(ctx("a descriptor obtained before the update changed".into(), &bad)) }
            }
            note(|| format!("fault {} in {}", i % BREAKS, set_hex(&bad)));
            Ok(h(set_hex(&probe)))
        });
    }
    "random base pool, an update with one of 17 kinds of fault injected at a random file and phase (names, resolution, options), compared observation by observation with the state before, then the corrected update compared with a fresh pool; clones and held descriptors are observed too"
}

// --------------------------------------------------------------------------- P09

fn json_name_of(f: &FieldDescriptorProto) -> String {
    f.json_name.clone().unwrap_or_else(|| camel(f.name()))
}
pub fn camel(n: &str) -> String {
    let mut o = String::new();
    let mut up = false;
    for c in n.chars() {
        if c == '_' { up = true } else {
            if up && c.is_ascii_lowercase() { o.push((c as u8 - 32) as char) } else { o.push(c) }
            up = false;
        }
    }
    o
}
/// The rules, written from the protobuf language specification.
fn valid(f: &FileDescriptorProto) -> Result<(), String> {
    let proto3 = f.syntax() == "proto3";
    let mut names: BTreeSet<String> = BTreeSet::new();
    fn add(names: &mut BTreeSet<String>, n: String) -> Result<(), String> {
        if names.insert(n.clone()) { Ok(()) } else { Err(format!("duplicate name {n}")) }
    }
    let pk = f.package();
    let mut acc = String::new();
    for part in pk.split('.').filter(|x| !x.is_empty()) {
        if !acc.is_empty() { acc.push('.') }
        acc.push_str(part);
        add(&mut names, acc.clone())?;
    }
    let q = |scope: &str, n: &str| if scope.is_empty() { n.to_string() } else { format!("{scope}.{n}") };
    fn in_range(n: i32, a: i32, b: i32) -> bool { a <= n && n < b }
    let number_ok = |n: i32| (1..=536870911).contains(&n) && !(19000..=19999).contains(&n);
    let mut exts: Vec<&FieldDescriptorProto> = f.extension.iter().collect();
    for e in &f.extension { add(&mut names, q(pk, e.name()))? }
    let check_enum = |names: &mut BTreeSet<String>, scope: &str, e: &EnumDescriptorProto| -> Result<(), String> {
        add(names, q(scope, e.name()))?;
        if e.value.is_empty() { return Err("empty enum".into()) }
        if proto3 && e.value[0].number() != 0 { return Err("proto3 enum does not start at zero".into()) }
        let alias = e.options.as_ref().is_some_and(|o| o.allow_alias());
        let mut seen = BTreeSet::new();
        for v in &e.value {
            add(names, q(scope, v.name()))?;
            if !seen.insert(v.number()) && !alias { return Err("enum alias".into()) }
            if e.reserved_range.iter().any(|r| r.start() <= v.number() && v.number() <= r.end()) { return Err("reserved enum number".into()) }
        }
        Ok(())
    };
    for e in &f.enum_type { check_enum(&mut names, pk, e)? }
    for m in &f.message_type {
        let mn = q(pk, m.name());
        add(&mut names, mn.clone())?;
        let (mut nums, mut jsons, mut lows) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        for o in &m.oneof_decl { add(&mut names, q(&mn, o.name()))? }
        for n in &m.nested_type { add(&mut names, q(&mn, n.name()))? }
        for e in &m.enum_type { check_enum(&mut names, &mn, e)? }
        for e in &m.extension { add(&mut names, q(&mn, e.name()))?; exts.push(e) }
        for x in &m.field {
            add(&mut names, q(&mn, x.name()))?;
            if !nums.insert(x.number()) { return Err("duplicate number".into()) }
            if !jsons.insert(json_name_of(x)) { return Err("duplicate json name".into()) }
            if !lows.insert(x.name().to_ascii_lowercase().replace('_', "")) && proto3 { return Err("camel case conflict".into()) }
            if !number_ok(x.number()) { return Err("field number".into()) }
            if m.reserved_range.iter().any(|r| in_range(x.number(), r.start(), r.end())) { return Err("reserved number".into()) }
            if m.extension_range.iter().any(|r| in_range(x.number(), r.start(), r.end())) { return Err("field in extension range".into()) }
            if let Some(i) = x.oneof_index { if i < 0 || i as usize >= m.oneof_decl.len() { return Err("oneof index".into()) } }
        }
    }
    for x in exts {
        let m = f.message_type.iter().find(|m| format!(".{}", q(pk, m.name())) == x.extendee()).ok_or("extendee")?;
        if !number_ok(x.number()) { return Err("extension number".into()) }
        if m.reserved_range.iter().any(|r| in_range(x.number(), r.start(), r.end())) { return Err("reserved extension number".into()) }
        if !m.extension_range.iter().any(|r| in_range(x.number(), r.start(), r.end())) { return Err("extension out of range".into()) }
    }
    Ok(())
}
fn gen_p09(r: &mut Rng) -> FileDescriptorProto {
    const NUM: [i32; 16] = [1, 2, 10, 11, 19, 20, 21, 100, 199, 200, 18999, 19000, 19999, 20000, 536870911, 536870912];
    let wild = r.chance(1, 4);
    let num = |r: &mut Rng| match r.below(if wild { 8 } else { 12 }) { 0 => *r.pick(&NUM), 1 if wild => *r.pick(&[0, -1, i32::MIN, i32::MAX]), _ => 1 + r.below(300) as i32 };
    let bound = |r: &mut Rng| match r.below(10) { 0 => *r.pick(&NUM), 1 if wild => *r.pick(&[0, -1, i32::MIN, i32::MAX]), _ => r.below(300) as i32 };
    const NAMES: [&str; 14] = ["a", "b", "foo_bar", "fooBar", "FooBar", "foobar", "foo__bar", "_foo_bar", "x1", "x_1", "E", "V", "o", "N"];
    let name = |r: &mut Rng| if r.chance(1, 2) { s(r.pick::<&str>(&NAMES)) } else { s(&format!("n{}", r.below(1000))) };
    let mut f = file("v.proto", ["", "p", "p.q"][r.below(3)], r.chance(1, 2));
    let pk = f.package().to_string();
    for mi in 0..1 + r.below(2) {
        let mut m = msg(if mi == 0 { "M" } else { ["W", "W", "W", "M"][r.below(4)] });
        for _ in 0..r.below(3) { let a = bound(r); let b = if r.chance(1, 2) { a.saturating_add(r.below(30) as i32) } else { bound(r) }; m.reserved_range.push(ReservedRange { start: Some(a), end: Some(b) }) }
        if r.chance(1, 2) {
            let a = bound(r); let b = if r.chance(3, 4) { a.saturating_add(1 + r.below(120) as i32) } else { bound(r) };
            m.extension_range.push(ExtensionRange { start: Some(a), end: Some(b), options: None });
        }
        for k in 0..r.below(5) {
            let mut x = fld("", 0, T::Int32, None);
            x.name = name(r);
            x.number = Some(match r.below(6) {
                0 if !m.reserved_range.is_empty() => { let rr = r.pick(&m.reserved_range).clone(); let d = r.below(3) as i32 - 1; if r.chance(1, 2) { rr.start().wrapping_add(d) } else { rr.end().wrapping_add(d) } }
                1 if !m.extension_range.is_empty() => { let rr = r.pick(&m.extension_range).clone(); let d = r.below(3) as i32 - 1; if r.chance(1, 2) { rr.start().wrapping_add(d) } else { rr.end().wrapping_add(d) } }
                _ => num(r),
            });
            if r.chance(1, 6) { x.json_name = name(r) }
            if r.chance(1, 8) { x.oneof_index = Some([0, 0, 0, 1, -1, i32::MAX][r.below(6)]) }
            if k == 0 || x.oneof_index == Some(0) { if m.oneof_decl.is_empty() && r.chance(3, 4) { m.oneof_decl.push(OneofDescriptorProto { name: if r.chance(3, 4) { s("o") } else { name(r) }, options: None }); } }
            m.field.push(x);
        }
        if !m.extension_range.is_empty() && r.chance(2, 3) || r.chance(1, 10) {
            let mut x = fld("", 0, T::Int32, None);
            x.name = name(r);
            x.extendee = Some(format!(".{}{}", if pk.is_empty() { String::new() } else { format!("{pk}.") }, m.name()));
            x.number = Some(match m.extension_range.first() {
                Some(e) => { let d = r.below(3) as i32 - 1; match r.below(4) { 0 => e.start().wrapping_add(d), 1 => e.end().wrapping_add(d), 2 => *r.pick(&NUM), _ => if e.end() > e.start() { e.start() + (r.next() % (e.end() as i64 - e.start() as i64).max(1) as u64).min(1000) as i32 } else { e.start() } } }
                None => num(r),
            });
            if r.chance(1, 2) { f.extension.push(x) } else { m.extension.push(x) }
        }
        if r.chance(1, 6) { m.nested_type.push(DescriptorProto { name: name(r), ..Default::default() }) }
        if r.chance(1, 4) { let e = gen_p09_enum(r, &name, wild); m.enum_type.push(e) }
        f.message_type.push(m);
    }
    for _ in 0..r.below(2) { let e = gen_p09_enum(r, &name, wild); f.enum_type.push(e) }
    f
}
fn gen_p09_enum(r: &mut Rng, name: &dyn Fn(&mut Rng) -> Option<String>, wild: bool) -> EnumDescriptorProto {
    let mut e = EnumDescriptorProto { name: name(r), ..Default::default() };
    for _ in 0..r.below(3) {
        let a = r.below(40) as i32 - 10;
        let b = if r.chance(3, 4) { a + r.below(5) as i32 } else { r.below(40) as i32 - 10 };
        let (a, b) = if wild && r.chance(1, 3) { *r.pick(&[(i32::MIN, -5), (5, i32::MAX), (i32::MIN, i32::MAX), (i32::MAX, i32::MAX)]) } else { (a, b) };
        e.reserved_range.push(EnumReservedRange { start: Some(a), end: Some(b) });
    }
    for k in 0..if r.chance(1, 12) { 0 } else { 1 + r.below(4) } {
        let n = match r.below(4) {
            0 if !e.reserved_range.is_empty() => { let rr = r.pick(&e.reserved_range).clone(); let d = r.below(3) as i32 - 1; if r.chance(1, 2) { rr.start().wrapping_add(d) } else { rr.end().wrapping_add(d) } }
            _ if k == 0 && r.chance(3, 4) => 0,
            1 if wild => *r.pick(&[i32::MIN, i32::MAX, -1]),
            _ => r.below(40) as i32 - 10,
        };
        e.value.push(EnumValueDescriptorProto { name: name(r), number: Some(n), options: None });
    }
    if r.chance(1, 3) { e.options = Some(EnumOptions { allow_alias: Some(r.chance(2, 3)), ..Default::default() }) }
    e
}
pub fn p09(cx: &mut Cx) -> &'static str {
    for _ in 0..cx.n(60000, 600000) {
        if cx.stop() { break }
        cx.case("file", |r| {
            let f = gen_p09(r);
            let want = valid(&f);
            let got = new_pool(std::slice::from_ref(&f));
            match (&want, &got) {
                (Ok(()), Err(e)) => return Err(format!("a valid file is rejected: {e}\n{f:?}\n{}", set_hex(std::slice::from_ref(&f)))),
                (Err(e), Ok(_)) => return Err(format!("an invalid file is accepted ({e})\n{f:?}\n{}", set_hex(std::slice::from_ref(&f)))),
                _ => {}
            }
            note(|| format!("{} {}", if let Err(e) = &want { e } else { "valid" }, set_hex(std::slice::from_ref(&f))));
            Ok(h((want.is_ok(), f.encode_to_vec())))
        });
    }
    // whole batches: accepted as generated, rejected with one fault of each kind
    for i in 0..cx.n(4000, 40000) {
        if cx.stop() { break }
        cx.case("batch", |r| {
            let base = gen_files(r, "b", None);
            if let Err(e) = new_pool(&base) { return Err(format!("valid files are rejected: {e}\n{}", set_hex(&base))) }
            let mut bad = base.clone();
            if break_batch(r, &mut bad, i % BREAKS, &base) && new_pool(&bad).is_ok() {
                return Err(format!("files with a fault of kind {} are accepted\n{}", i % BREAKS, set_hex(&bad)));
            }
            Ok(h((i % BREAKS, bad.iter().map(|f| f.encode_to_vec()).collect::<Vec<_>>())))
        });
    }
    // one number given twice, at every pair of places of enums and messages of up to 20 members
    for k in [2usize, 3, 5, 9, 10, 13, 17, 20] {
        for i in 0..k {
            for j in i + 1..k {
                for what in 0..4 {
                    cx.case("repeated", |_| {
                        let mut f = file("v.proto", "", false);
                        let num = |q: usize| if q == j { i as i32 } else { q as i32 };
                        if what < 3 {
                            let mut e = EnumDescriptorProto { name: s("E"), ..Default::default() };
                            for q in 0..k { e.value.push(EnumValueDescriptorProto { name: Some(format!("V{q}")), number: Some(num(q)), options: None }) }
                            if what > 0 { e.options = Some(EnumOptions { allow_alias: Some(what == 1), ..Default::default() }) }
                            f.enum_type.push(e);
                        } else {
                            let mut m = msg("M");
                            for q in 0..k { m.field.push(fld(&format!("f{q}"), num(q) + 1, T::Int32, None)) }
                            f.message_type.push(m);
                        }
                        let want = valid(&f);
                        if want.is_ok() != (what == 1) { return Err("the rules are misread".to_string()) }
                        match (&want, new_pool(std::slice::from_ref(&f))) {
                            (Ok(()), Err(e)) => Err(format!("a valid file is rejected: {e}\n{f:?}")),
                            (Err(e), Ok(_)) => Err(format!("an invalid file is accepted ({e})\n{f:?}")),
                            _ => Ok(h((k, i, j, what))),
                        }
                    });
                }
            }
        }
    }
    // boundaries, exhaustively
    let nums: Vec<i32> = vec![i32::MIN, -1, 0, 1, 2, 4, 5, 6, 9, 10, 11, 18998, 18999, 19000, 19001, 19998, 19999, 20000, 20001, 536870910, 536870911, 536870912, i32::MAX];
    for &n in &nums {
        for &(a, b) in &[(5, 10), (1, 2), (0, 0), (10, 5), (18999, 19001), (536870911, 536870912), (19999, 20001), (-5, 6), (i32::MIN, i32::MAX), (5, i32::MIN)] {
            for what in 0..4 {
                cx.case("boundary", |_| {
                    let mut f = file("v.proto", "", false);
                    let mut m = msg("M");
                    let mut x = fld("a", n, T::Int32, None);
                    match what {
                        0 => { m.reserved_range.push(ReservedRange { start: Some(a), end: Some(b) }); m.field.push(x) }
                        1 => { m.extension_range.push(ExtensionRange { start: Some(a), end: Some(b), options: None }); m.field.push(x) }
                        2 => { m.extension_range.push(ExtensionRange { start: Some(a), end: Some(b), options: None }); x.extendee = s(".M"); f.extension.push(x) }
                        _ => {
                            let mut e = enm("E", &[("V", n)]);
                            e.reserved_range.push(EnumReservedRange { start: Some(a), end: Some(b) });
                            f.enum_type.push(e);
                        }
                    }
                    f.message_type.push(m);
                    let want = valid(&f);
                    let got = new_pool(std::slice::from_ref(&f));
                    if want.is_ok() != got.is_ok() { return Err(format!("number {n} range {a}..{b} case {what}: expected {want:?}, {}", match got { Ok(_) => "accepted".to_string(), Err(e) => format!("rejected: {e}") })) }
                    Ok(h((n, a, b, what)))
                });
            }
        }
    }
    "random single-file descriptors over small name sets and boundary numbers, plus an exhaustive boundary table of (number, range) pairs; acceptance compared with an independently written validator"
}

// --------------------------------------------------------------------------- P10

#[derive(Clone, Copy, PartialEq, Debug)]
enum Def { Pkg, Msg, Enum, Field, Svc, Other }
struct World { files: Vec<FileDescriptorProto>, defs: BTreeMap<String, Vec<(usize, Def)>> }
fn world(files: &[FileDescriptorProto]) -> World {
    let mut defs: BTreeMap<String, Vec<(usize, Def)>> = BTreeMap::new();
    for (i, f) in files.iter().enumerate() {
        let mut add = |n: String, d: Def| defs.entry(n).or_default().push((i, d));
        let mut acc = String::new();
        for part in f.package().split('.').filter(|x| !x.is_empty()) {
            if !acc.is_empty() { acc.push('.') }
            acc.push_str(part);
            add(acc.clone(), Def::Pkg);
        }
        fn walk(add: &mut dyn FnMut(String, Def), scope: &str, m: &DescriptorProto) {
            let q = |n: &str| format!("{scope}.{n}");
            for x in &m.field { add(q(x.name()), Def::Field) }
            for x in &m.enum_type { add(q(x.name()), Def::Enum); for v in &x.value { add(q(v.name()), Def::Other) } }
            for x in &m.oneof_decl { add(q(x.name()), Def::Other) }
            for x in &m.nested_type { add(q(x.name()), Def::Msg); walk(add, &q(x.name()), x) }
        }
        let q = |n: &str| if f.package().is_empty() { n.to_string() } else { format!("{}.{n}", f.package()) };
        for m in &f.message_type { add(q(m.name()), Def::Msg); walk(&mut add, &q(m.name()), m) }
        for x in &f.enum_type { add(q(x.name()), Def::Enum); for v in &x.value { add(q(v.name()), Def::Other) } }
        for x in &f.service { add(q(x.name()), Def::Svc); for v in &x.method { add(format!("{}.{}", q(x.name()), v.name()), Def::Other) } }
    }
    World { files: files.to_vec(), defs }
}
fn visible(w: &World, file: usize) -> BTreeSet<usize> {
    let idx = |n: &str| w.files.iter().position(|f| f.name() == n).unwrap();
    let mut v = BTreeSet::from([file]);
    let mut todo: Vec<usize> = w.files[file].dependency.iter().map(|d| idx(d)).collect();
    while let Some(i) = todo.pop() {
        // revisit the start file through a cycle: it is already visible but its public imports count
        let new = v.insert(i);
        let f = &w.files[i];
        if new || i == file {
            for p in &f.public_dependency {
                let d = idx(&f.dependency[*p as usize]);
                if !v.contains(&d) { todo.push(d) }
            }
        }
    }
    v
}
/// protobuf scoping: Ok(full name of a message or enum) or Err.
fn resolve(w: &World, file: usize, scope: &str, name: &str) -> Result<String, String> {
    let vis = visible(w, file);
    let find = |n: &str| -> Option<Def> { w.defs.get(n).and_then(|v| v.iter().find(|(f, _)| vis.contains(f)).map(|x| x.1)) };
    let ty = |n: &str| match find(n) { Some(Def::Msg | Def::Enum) => Ok(n.to_string()), x => Err(format!("{n} is {x:?}")) };
    if let Some(a) = name.strip_prefix('.') { return ty(a) }
    let first = name.split('.').next().unwrap();
    let mut sc = scope.to_string();
    loop {
        let cand = if sc.is_empty() { first.to_string() } else { format!("{sc}.{first}") };
        match find(&cand) {
            Some(d) => {
                if first.len() == name.len() {
                    if matches!(d, Def::Msg | Def::Enum) { return Ok(cand) }
                } else if matches!(d, Def::Pkg | Def::Msg | Def::Enum | Def::Svc) {
                    return ty(&if sc.is_empty() { name.to_string() } else { format!("{sc}.{name}") });
                }
            }
            None => {}
        }
        if sc.is_empty() { return Err("not found".into()) }
        sc = match sc.rfind('.') { Some(i) => sc[..i].to_string(), None => String::new() };
    }
}
pub fn p10(cx: &mut Cx) -> &'static str {
    for i in 0..cx.n(60000, 500000) {
        if cx.stop() { break }
        let cyc = i % 8 == 0;
        cx.case(if cyc { "cyclic imports" } else { "scopes" }, |r| {
            // in the second alphabet every name is the beginning of another
            let n4 = if r.chance(1, 3) { ["a", "aa", "aaA", "aaAA"] } else { ["a", "b", "A", "B"] };
            #[allow(non_snake_case)]
            let N = &n4;
            let nf = 1 + r.below(if cyc { 4 } else { 7 });
            let mut fs: Vec<FileDescriptorProto> = vec![];
            let mut taken: BTreeSet<String> = BTreeSet::new();
            let mut pkgs: BTreeSet<String> = BTreeSet::new();
            for fi in 0..nf {
                let pk = match r.below(5) { 0 => String::new(), 1 | 2 => N[r.below(3)].to_string(), 3 => format!("{}.{}", N[r.below(3)], N[r.below(4)]), _ => format!("{}.{}.{}", N[r.below(3)], N[r.below(4)], N[r.below(4)]) };
                let parts: Vec<String> = (0..pk.matches('.').count() + 1).map(|k| pk.split('.').take(k + 1).collect::<Vec<_>>().join(".")).collect();
                let pk = if parts.iter().any(|p| !p.is_empty() && taken.contains(p)) { String::new() } else { parts.iter().for_each(|p| { pkgs.insert(p.clone()); }); pk };
                let mut f = file(&format!("f{fi}"), &pk, false);
                for d in 0..nf {
                    if (d < fi || (cyc && d != fi) || (cyc && r.chance(1, 6))) && r.chance(2, 3) {
                        f.dependency.push(format!("f{d}"));
                        if r.chance(1, 2) { f.public_dependency.push(f.dependency.len() as i32 - 1) }
                    }
                }
                let q = |n: &str| if pk.is_empty() { n.to_string() } else { format!("{pk}.{n}") };
                for _ in 0..1 + r.below(2) {
                    let n = N[r.below(4)];
                    let full = q(n);
                    if pkgs.contains(&full) || !taken.insert(full.clone()) { continue }
                    match r.below(6) {
                        0 => {
                            let v = format!("V{}", taken.len());
                            taken.insert(q(&v));
                            f.enum_type.push(enm(n, &[(&v, 0)]))
                        }
                        1 => f.service.push(ServiceDescriptorProto { name: s(n), ..Default::default() }),
                        _ => {
                            let mut m = msg(n);
                            if r.chance(1, 2) {
                                let c = N[r.below(4)];
                                taken.insert(format!("{full}.{c}"));
                                let mut inner = msg(c);
                                if r.chance(1, 3) { let c2 = N[r.below(4)]; taken.insert(format!("{full}.{c}.{c2}")); inner.nested_type.push(msg(c2)) }
                                m.nested_type.push(inner);
                            }
                            // fields, oneofs and extensions are declared in the scope, too, but hold no names
                            if r.chance(1, 3) {
                                let c = N[r.below(4)];
                                if taken.insert(format!("{full}.{c}")) {
                                    let mut x = fld(c, 7, T::Int32, None);
                                    if r.chance(1, 3) {
                                        x.name = s("o_");
                                        x.oneof_index = Some(0);
                                        taken.insert(format!("{full}.o_"));
                                        m.oneof_decl.push(prost_types::OneofDescriptorProto { name: s(c), options: None });
                                    }
                                    m.field.push(x);
                                }
                            }
                            f.message_type.push(m);
                        }
                    }
                }
                fs.push(f);
            }
            // packages claimed later may clash with definitions made earlier
            let w0 = world(&fs);
            if w0.defs.values().any(|v| v.len() > 1 && !v.iter().all(|d| d.1 == Def::Pkg)) { return Ok(0) }
            // the reference under test
            let user = r.below(nf);
            let depth = 1 + r.below(3);
            let mut name = (0..depth).map(|_| N[r.below(4)]).collect::<Vec<_>>().join(".");
            if r.chance(1, 4) { name.insert(0, '.') }
            if r.chance(1, 3) { if let Some((n, _)) = w0.defs.iter().nth(r.below(w0.defs.len().max(1))) { name = if r.chance(1, 2) { format!(".{n}") } else { n.clone() } } }
            if r.chance(1, 3) {
                let good: Vec<&String> = w0.defs.iter().filter(|d| matches!(d.1[0].1, Def::Msg | Def::Enum)).map(|d| d.0).collect();
                if !good.is_empty() {
                    let g = *r.pick(&good);
                    // any suffix of a real name
                    let parts: Vec<&str> = g.split('.').collect();
                    name = parts[r.below(parts.len())..].join(".");
                }
            }
            let mut user_msg = msg("User");
            let mut scope_in = String::new();
            let nested = r.chance(1, 3);
            let mut x = fld("x", 1, T::Message, Some(&name));
            x.r#type = if r.chance(1, 2) { None } else { Some(T::Message as i32) };
            if nested {
                let mut inner = msg(N[2 + r.below(2)]);
                scope_in = format!(".{}", inner.name());
                inner.field.push(x);
                user_msg.nested_type.push(inner);
            } else {
                if r.chance(1, 4) { user_msg.field.push(fld(N[r.below(4)], 2, T::Int32, None)) }
                user_msg.field.push(x);
            }
            fs[user].message_type.push(user_msg);
            let w = world(&fs);
            if w.defs.values().any(|v| v.len() > 1 && !v.iter().all(|d| d.1 == Def::Pkg)) { return Ok(0) }
            let pk = fs[user].package();
            let user_full = if pk.is_empty() { "User".to_string() } else { format!("{pk}.User") };
            let scope = format!("{user_full}{scope_in}.x");
            let want = resolve(&w, user, &scope, &name);
            let mut order = fs.clone();
            if cyc { r.shuffle(&mut order) }
            let ctx = |e: String| format!("{e}\nname {name} in scope {scope} of {}\n{}", fs[user].name(), set_hex(&order));
            match (want, new_pool(&order)) {
                (Ok(n), Ok(p)) => {
                    let m = p.get_message_by_name(&format!("{user_full}{scope_in}")).ok_or_else(|| ctx("the message is not found by name".into()))?;
                    let k = m.get_field(1).ok_or("no field")?.kind();
                    let got = match &k { Kind::Message(m) => m.full_name().to_string(), Kind::Enum(e) => e.full_name().to_string(), k => format!("{k:?}") };
                    if got != n { return Err(ctx(format!("resolves to {got} instead of {n}"))) }
                    let raw = p.get_file_by_name(fs[user].name()).unwrap();
                    let t = raw.file_descriptor_proto().message_type.last().map(|m| if nested { m.nested_type[0].field[0].type_name().to_string() } else { m.field.last().unwrap().type_name().to_string() });
                    if t != Some(format!(".{n}")) { return Err(ctx(format!("the stored descriptor refers to {t:?}"))) }
                    note(|| format!("{name} in {scope} -> {n}"));
                    Ok(h((name.clone(), scope.clone(), n, set_hex(&fs))))
                }
                (Ok(n), Err(e)) => Err(ctx(format!("should resolve to {n}, but: {e}"))),
                (Err(e), Ok(_)) => Err(ctx(format!("should be rejected ({e}), but is accepted"))),
                (Err(_), Err(_)) => Ok(h((name.clone(), scope.clone(), set_hex(&fs)))),
            }
        });
    }
    // long chains of public imports
    for n in [2usize, 3, 4, 5, 8, 20, 200] {
        cx.case("chain", |_| {
            let mut fs = vec![];
            for k in 0..n {
                let mut f = file(&format!("c{k}"), "", false);
                if k == 0 { f.message_type.push(msg("Base")) } else {
                    f.dependency.push(format!("c{}", k - 1));
                    if k < n - 1 { f.public_dependency.push(0) }
                }
                if k == n - 1 { let mut m = msg("User"); m.field.push(fld("x", 1, T::Message, Some("Base"))); f.message_type.push(m) }
                fs.push(f);
            }
            new_pool(&fs).map_err(|e| format!("chain of {n} files: {e}"))?;
            if n > 2 {
                // one non-public link hides it
                let k = 1 + (n - 3) / 2;
                fs[k].public_dependency.clear();
                if new_pool(&fs).is_ok() { return Err(format!("chain of {n} files with a private link at {k} is accepted")) }
            }
            Ok(h(n))
        });
    }
    "random import graphs (up to 7 files, public or not, with and without cycles) and nested scopes over a 4-name alphabet, one absolute or relative reference each, compared with an independent implementation of protobuf scoping; chains of up to 200 public imports"
}

// --------------------------------------------------------------------------- P11

macro_rules! ck { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)) } } }
fn check_opts(raw: Option<Vec<u8>>, got: DynamicMessage, what: &str) -> Result<(), String> {
    let want = raw.unwrap_or_default();
    let g = got.encode_to_vec();
    ck!(g == want, "options of {what}: {} instead of {}", hex(&g), hex(&want));
    Ok(())
}
fn check_field(f: &FieldDescriptor, raw: &FieldDescriptorProto, m: &MessageDescriptor, proto3: bool) -> Result<(), String> {
    let w = format!("field {}.{}", m.full_name(), raw.name());
    ck!(f.name() == raw.name() && f.number() as i32 == raw.number(), "{w}: is {} {}", f.name(), f.number());
    ck!(f.full_name() == format!("{}.{}", m.full_name(), raw.name()), "{w}: full name {}", f.full_name());
    ck!(f.json_name() == json_name_of(raw), "{w}: json name {}", f.json_name());
    ck!(f.parent_message() == m, "{w}: parent {}", f.parent_message().full_name());
    let card = match raw.label() { Label::Optional => Cardinality::Optional, Label::Required => Cardinality::Required, Label::Repeated => Cardinality::Repeated };
    ck!(f.cardinality() == card, "{w}: cardinality {:?}", f.cardinality());
    ck!(f.is_required() == (card == Cardinality::Required), "{w}: is_required");
    let packable = !matches!(raw.r#type(), T::String | T::Bytes | T::Message | T::Group);
    let packed = card == Cardinality::Repeated && packable && raw.options.as_ref().and_then(|o| o.packed).unwrap_or(proto3);
    ck!(f.is_packed() == packed, "{w}: is_packed {}", f.is_packed());
    let presence = raw.oneof_index.is_some() || card != Cardinality::Repeated && (raw.r#type() == T::Message || raw.r#type() == T::Group || !proto3);
    ck!(f.supports_presence() == presence, "{w}: supports_presence {}", f.supports_presence());
    ck!(f.is_list() == (card == Cardinality::Repeated) && !f.is_map() && f.is_group() == (raw.r#type() == T::Group), "{w}: is_list/is_map/is_group");
    check_kind(&f.kind(), raw, &w)?;
    let oneof = raw.oneof_index.map(|i| m.descriptor_proto().oneof_decl[i as usize].name().to_string());
    ck!(f.containing_oneof().map(|o| o.name().to_string()) == oneof, "{w}: oneof {:?}", f.containing_oneof().map(|o| o.name().to_string()));
    if let (T::Int32, Some(d)) = (raw.r#type(), &raw.default_value) {
        ck!(f.default_value() == Value::I32(d.parse().unwrap()), "{w}: default {}", f.default_value());
    }
    check_opts(raw.options.as_ref().map(|o| o.encode_to_vec()), f.options(), &w)
}
fn check_kind(k: &Kind, raw: &FieldDescriptorProto, w: &str) -> Result<(), String> {
    let ok = match (raw.r#type(), k) {
        (T::Message | T::Group, Kind::Message(m)) => format!(".{}", m.full_name()) == raw.type_name(),
        (T::Enum, Kind::Enum(e)) => format!(".{}", e.full_name()) == raw.type_name(),
        (T::Double, Kind::Double) | (T::Float, Kind::Float) | (T::Int64, Kind::Int64) | (T::Uint64, Kind::Uint64) | (T::Int32, Kind::Int32) | (T::Fixed64, Kind::Fixed64)
        | (T::Fixed32, Kind::Fixed32) | (T::Bool, Kind::Bool) | (T::String, Kind::String) | (T::Bytes, Kind::Bytes) | (T::Uint32, Kind::Uint32) | (T::Sfixed32, Kind::Sfixed32)
        | (T::Sfixed64, Kind::Sfixed64) | (T::Sint32, Kind::Sint32) | (T::Sint64, Kind::Sint64) => true,
        _ => false,
    };
    ck!(ok, "{w}: kind {}", kind_text(k));
    Ok(())
}
struct Seen { msgs: Vec<String>, enums: Vec<String>, exts: Vec<(String, String, FieldDescriptorProto)> }
fn check_enum(p: &DescriptorPool, e: &EnumDescriptor, raw: &EnumDescriptorProto, scope: &str, file: &str, parent: Option<&str>) -> Result<(), String> {
    let full = if scope.is_empty() { raw.name().to_string() } else { format!("{scope}.{}", raw.name()) };
    let w = format!("enum {full}");
    ck!(e.name() == raw.name() && e.full_name() == full && e.parent_file().name() == file, "{w}: is {} in {}", e.full_name(), e.parent_file().name());
    ck!(e.parent_message().map(|m| m.full_name().to_string()).as_deref() == parent, "{w}: parent");
    ck!(p.get_enum_by_name(&full).as_ref() == Some(e), "{w}: lookup by full name");
    ck!(e.default_value().name() == raw.value[0].name(), "{w}: default {}", e.default_value().name());
    let vals: Vec<(String, i32)> = e.values().map(|v| (v.name().to_string(), v.number())).collect();
    let mut a = vals.clone();
    a.sort();
    let mut b: Vec<(String, i32)> = raw.value.iter().map(|v| (v.name().to_string(), v.number())).collect();
    b.sort();
    ck!(a == b, "{w}: values {vals:?}");
    ck!(vals.windows(2).all(|x| x[0].1 <= x[1].1), "{w}: values are not in number order: {vals:?}");
    ck!(e.values().len() == raw.value.len(), "{w}: values().len()");
    for v in &raw.value {
        let g = e.get_value_by_name(v.name()).ok_or_else(|| format!("{w}: value {} not found by name", v.name()))?;
        ck!(g.name() == v.name() && g.number() == v.number() && g.parent_enum() == e, "{w}: value {} is {} = {}", v.name(), g.name(), g.number());
        let vf = if scope.is_empty() { v.name().to_string() } else { format!("{scope}.{}", v.name()) };
        ck!(g.full_name() == vf, "{w}: full name of a value is {} instead of {vf}", g.full_name());
        let g = e.get_value(v.number()).ok_or_else(|| format!("{w}: number {} not found", v.number()))?;
        ck!(g.number() == v.number() && raw.value.iter().any(|x| x.name() == g.name() && x.number() == g.number()), "{w}: number {} gives {}", v.number(), g.name());
    }
    for n in [0, 1, 2, 3, -1, -2, 5, 6, 126, 127, 128, 129, 300, i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1, -1000, 70000, 70001] {
        ck!(e.get_value(n).is_some() == raw.value.iter().any(|v| v.number() == n), "{w}: get_value({n}) is {:?}", e.get_value(n).map(|v| v.name().to_string()));
    }
    for n in ["", "nope", raw.name()] {
        ck!(e.get_value_by_name(n).is_some() == raw.value.iter().any(|v| v.name() == n), "{w}: get_value_by_name({n})");
    }
    Ok(())
}
fn check_message(p: &DescriptorPool, m: &MessageDescriptor, raw: &DescriptorProto, scope: &str, file: &FileDescriptorProto, parent: Option<&str>, seen: &mut Seen) -> Result<(), String> {
    let full = if scope.is_empty() { raw.name().to_string() } else { format!("{scope}.{}", raw.name()) };
    let w = format!("message {full}");
    seen.msgs.push(full.clone());
    let proto3 = file.syntax() == "proto3";
    ck!(m.name() == raw.name() && m.full_name() == full && m.package_name() == file.package() && m.parent_file().name() == file.name(), "{w}: is {}", m.full_name());
    ck!(m.parent_message().map(|m| m.full_name().to_string()).as_deref() == parent, "{w}: parent {:?}", m.parent_message().map(|m| m.full_name().to_string()));
    ck!(p.get_message_by_name(&full).as_ref() == Some(m), "{w}: lookup by full name");
    ck!(p.get_enum_by_name(&full).is_none() && p.get_service_by_name(&full).is_none() && p.get_extension_by_name(&full).is_none(), "{w}: found as something else");
    let nums: Vec<u32> = m.fields().map(|f| f.number()).collect();
    let mut want: Vec<u32> = raw.field.iter().map(|f| f.number() as u32).collect();
    want.sort();
    ck!(nums == want && m.fields().len() == want.len(), "{w}: fields {nums:?}");
    for f in &raw.field {
        let a = m.get_field(f.number() as u32).ok_or_else(|| format!("{w}: field {} not found by number", f.name()))?;
        check_field(&a, f, m, proto3)?;
        ck!(m.get_field_by_name(f.name()).as_ref() == Some(&a), "{w}: field {} by name", f.name());
        ck!(m.get_field_by_json_name(&json_name_of(f)).as_ref() == Some(&a), "{w}: field {} by json name", f.name());
    }
    for f in m.fields() {
        let r = raw.field.iter().find(|x| x.number() == f.number() as i32).unwrap();
        check_field(&f, r, m, proto3)?;
    }
    let mut cand: Vec<String> = raw.field.iter().flat_map(|f| [f.name().to_string(), json_name_of(f), f.name().to_uppercase(), camel(f.name())]).collect();
    cand.extend(["".to_string(), "nope".into(), "In".into()]);
    for c in cand {
        ck!(m.get_field_by_name(&c).map(|f| f.number() as i32) == raw.field.iter().find(|f| f.name() == c).map(|f| f.number()), "{w}: get_field_by_name({c})");
        ck!(m.get_field_by_json_name(&c).map(|f| f.number() as i32) == raw.field.iter().find(|f| json_name_of(f) == c).map(|f| f.number()), "{w}: get_field_by_json_name({c})");
    }
    for n in [0u32, 1, 2, 3, 4, 14, 15, 16, 17, 99, 100, 199, 200, 2047, 18999, 20000, 536870910, 536870911, u32::MAX] {
        ck!(m.get_field(n).is_some() == raw.field.iter().any(|f| f.number() as u32 == n), "{w}: get_field({n})");
    }
    let os: Vec<String> = m.oneofs().map(|o| o.name().to_string()).collect();
    ck!(os == raw.oneof_decl.iter().map(|o| o.name().to_string()).collect::<Vec<_>>(), "{w}: oneofs {os:?}");
    for (i, o) in m.oneofs().enumerate() {
        let fs: Vec<i32> = o.fields().map(|f| f.number() as i32).collect();
        let wf: Vec<i32> = raw.field.iter().filter(|f| f.oneof_index == Some(i as i32)).map(|f| f.number()).collect();
        ck!(fs == wf && o.full_name() == format!("{full}.{}", o.name()), "{w}: oneof {} has {fs:?}", o.name());
        ck!(o.is_synthetic() == (wf.len() == 1 && raw.field.iter().any(|f| f.oneof_index == Some(i as i32) && f.proto3_optional())), "{w}: is_synthetic");
    }
    let ch: Vec<String> = m.child_messages().map(|x| x.name().to_string()).collect();
    ck!(ch == raw.nested_type.iter().map(|x| x.name().to_string()).collect::<Vec<_>>(), "{w}: child messages {ch:?}");
    for (c, rc) in m.child_messages().zip(&raw.nested_type) { check_message(p, &c, rc, &full, file, Some(&full), seen)? }
    let ce: Vec<String> = m.child_enums().map(|x| x.name().to_string()).collect();
    ck!(ce == raw.enum_type.iter().map(|x| x.name().to_string()).collect::<Vec<_>>(), "{w}: child enums {ce:?}");
    for (c, rc) in m.child_enums().zip(&raw.enum_type) { check_enum(p, &c, rc, &full, file.name(), Some(&full))?; seen.enums.push(c.full_name().to_string()) }
    let cx: Vec<String> = m.child_extensions().map(|x| x.name().to_string()).collect();
    ck!(cx == raw.extension.iter().map(|x| x.name().to_string()).collect::<Vec<_>>(), "{w}: child extensions {cx:?}");
    for x in &raw.extension { seen.exts.push((format!("{full}.{}", x.name()), file.syntax().to_string(), x.clone())) }
    let rr: Vec<(u32, u32)> = m.extension_ranges().map(|r| (r.start, r.end)).collect();
    ck!(rr == raw.extension_range.iter().map(|r| (r.start() as u32, r.end() as u32)).collect::<Vec<_>>(), "{w}: extension ranges");
    check_opts(raw.options.as_ref().map(|o| o.encode_to_vec()), m.options(), &w)
}
pub fn check_pool(p: &DescriptorPool, files: &[FileDescriptorProto]) -> Result<(), String> {
    let names: Vec<String> = p.files().map(|f| f.name().to_string()).collect();
    ck!(names == files.iter().map(|f| f.name().to_string()).collect::<Vec<_>>(), "files {names:?}");
    let mut seen = Seen { msgs: vec![], enums: vec![], exts: vec![] };
    let mut svcs = vec![];
    for (f, raw) in p.files().zip(files) {
        let pk = raw.package();
        let q = |n: &str| if pk.is_empty() { n.to_string() } else { format!("{pk}.{n}") };
        ck!(p.get_file_by_name(raw.name()).as_ref() == Some(&f), "file {} by name", raw.name());
        ck!(f.package_name() == pk && (f.syntax() == Syntax::Proto3) == (raw.syntax() == "proto3"), "file {}", raw.name());
        ck!(f.dependencies().map(|d| d.name().to_string()).collect::<Vec<_>>() == raw.dependency, "file {} dependencies", raw.name());
        ck!(f.public_dependencies().map(|d| d.name().to_string()).collect::<Vec<_>>() == raw.public_dependency.iter().map(|i| raw.dependency[*i as usize].clone()).collect::<Vec<_>>(), "file {} public dependencies", raw.name());
        let ms: Vec<String> = f.messages().map(|x| x.name().to_string()).collect();
        ck!(ms == raw.message_type.iter().map(|x| x.name().to_string()).collect::<Vec<_>>(), "file {} messages {ms:?}", raw.name());
        for (m, rm) in f.messages().zip(&raw.message_type) { check_message(p, &m, rm, pk, raw, None, &mut seen)? }
        let es: Vec<String> = f.enums().map(|x| x.name().to_string()).collect();
        ck!(es == raw.enum_type.iter().map(|x| x.name().to_string()).collect::<Vec<_>>(), "file {} enums {es:?}", raw.name());
        for (e, re) in f.enums().zip(&raw.enum_type) { check_enum(p, &e, re, pk, raw.name(), None)?; seen.enums.push(e.full_name().to_string()) }
        let xs: Vec<String> = f.extensions().map(|x| x.name().to_string()).collect();
        ck!(xs == raw.extension.iter().map(|x| x.name().to_string()).collect::<Vec<_>>(), "file {} extensions {xs:?}", raw.name());
        for x in &raw.extension { seen.exts.push((q(x.name()), raw.syntax().to_string(), x.clone())) }
        for (v, rv) in f.services().zip(&raw.service) {
            let full = q(rv.name());
            ck!(v.full_name() == full && p.get_service_by_name(&full).as_ref() == Some(&v), "service {full}");
            ck!(v.methods().len() == rv.method.len(), "service {full} methods");
            for (m, rm) in v.methods().zip(&rv.method) {
                ck!(m.name() == rm.name() && m.full_name() == format!("{full}.{}", rm.name()) && format!(".{}", m.input().full_name()) == rm.input_type() && format!(".{}", m.output().full_name()) == rm.output_type() && m.is_client_streaming() == rm.client_streaming() && m.is_server_streaming() == rm.server_streaming(), "method {}", m.full_name());
            }
            svcs.push(full);
        }
        ck!(f.services().len() == raw.service.len(), "file {} services", raw.name());
    }
    let sorted = |mut v: Vec<String>| { v.sort(); v };
    ck!(sorted(p.all_messages().map(|m| m.full_name().to_string()).collect()) == sorted(seen.msgs.clone()), "all_messages");
    ck!(sorted(p.all_enums().map(|m| m.full_name().to_string()).collect()) == sorted(seen.enums.clone()), "all_enums");
    ck!(sorted(p.all_extensions().map(|m| m.full_name().to_string()).collect()) == sorted(seen.exts.iter().map(|x| x.0.clone()).collect()), "all_extensions");
    ck!(sorted(p.services().map(|m| m.full_name().to_string()).collect()) == sorted(svcs.clone()), "services");
    let svcs_names = svcs;
    for (full, syntax, raw) in &seen.exts {
        let w = format!("extension {full}");
        let x = p.get_extension_by_name(full).ok_or_else(|| format!("{w}: not found by name"))?;
        ck!(x.full_name() == full && x.name() == raw.name() && x.number() as i32 == raw.number() && x.json_name() == format!("[{full}]"), "{w}: is {} {}", x.full_name(), x.number());
        ck!(format!(".{}", x.containing_message().full_name()) == raw.extendee(), "{w}: extends {}", x.containing_message().full_name());
        check_kind(&x.kind(), raw, &w)?;
        let rep = raw.label() == Label::Repeated;
        ck!((x.cardinality() == Cardinality::Repeated) == rep && x.is_list() == rep, "{w}: cardinality");
        let packable = !matches!(raw.r#type(), T::String | T::Bytes | T::Message | T::Group);
        ck!(x.is_packed() == (rep && packable && raw.options.as_ref().and_then(|o| o.packed).unwrap_or(syntax == "proto3")), "{w}: is_packed {}", x.is_packed());
        let m = x.containing_message();
        ck!(m.get_extension(x.number()).as_ref() == Some(&x), "{w}: by number");
        ck!(m.get_extension_by_full_name(full).as_ref() == Some(&x), "{w}: by full name");
        ck!(m.get_extension_by_json_name(&format!("[{full}]")).as_ref() == Some(&x), "{w}: by json name");
    }
    for m in p.all_messages() {
        let a = sorted(m.extensions().map(|x| x.full_name().to_string()).collect());
        let b = sorted(seen.exts.iter().filter(|x| x.2.extendee() == format!(".{}", m.full_name())).map(|x| x.0.clone()).collect());
        ck!(a == b, "extensions of {}: {a:?} instead of {b:?}", m.full_name());
        for n in 95..205u32 {
            ck!(m.get_extension(n).is_some() == seen.exts.iter().any(|x| x.2.extendee() == format!(".{}", m.full_name()) && x.2.number() as u32 == n), "{}: get_extension({n})", m.full_name());
        }
    }
    // names that are nearly or elsewhere declared
    let mut near: Vec<String> = vec![];
    for n in seen.msgs.iter().chain(&seen.enums).chain(seen.exts.iter().map(|x| &x.0)).chain(&svcs_names) { near.push(n.clone()) }
    for m in p.all_messages() { for f in m.fields() { near.push(f.full_name().to_string()); near.push(f.json_name().to_string()) } }
    for x in &seen.exts { near.push(format!("[{}]", x.0)); near.push(format!("[{}", x.0)); near.push(format!("{}]", x.0)); near.push(format!("[[{}]]", x.0)) }
    for f in files { near.push(f.name().to_string()); near.push(f.package().to_string()) }
    let mut more = vec![];
    for (i, n) in near.iter().enumerate() {
        more.push(match i % 6 { 0 => format!(".{n}"), 1 => format!("{n}."), 2 => n.to_lowercase(), 3 => n.to_uppercase(), 4 => format!(" {n}"), _ => n.rsplit('.').next().unwrap().to_string() });
        if let Some((a, _)) = n.rsplit_once('.') { more.push(a.to_string()) }
    }
    near.extend(more);
    near.sort();
    near.dedup();
    for n in &near {
        // (a full name may be given with a leading dot)
        let full = n.strip_prefix('.').unwrap_or(n);
        let is = |l: &[String]| l.iter().any(|x| x == full);
        ck!(p.get_message_by_name(n).is_some() == is(&seen.msgs) && p.get_enum_by_name(n).is_some() == is(&seen.enums) && p.get_extension_by_name(n).is_some() == seen.exts.iter().any(|x| x.0 == full) && p.get_service_by_name(n).is_some() == is(&svcs_names)
            && p.get_file_by_name(n).is_some() == files.iter().any(|f| f.name() == n), "lookup of {n:?} finds what is not declared, or not what is");
        for m in p.all_messages() {
            let f: Vec<_> = m.fields().collect();
            let x: Vec<_> = seen.exts.iter().filter(|x| x.2.extendee() == format!(".{}", m.full_name())).map(|x| &x.0).collect();
            ck!(m.get_field_by_name(n).is_some() == f.iter().any(|f| f.name() == n) && m.get_field_by_json_name(n).is_some() == f.iter().any(|f| f.json_name() == n), "{}: lookup of a field by {n:?}", m.full_name());
            ck!(m.get_extension_by_full_name(n).is_some() == x.iter().any(|x| *x == n) && m.get_extension_by_json_name(n).is_some() == x.iter().any(|x| format!("[{x}]") == *n), "{}: lookup of an extension by {n:?}", m.full_name());
        }
        for e in p.all_enums() { ck!(e.get_value_by_name(n).is_some() == e.values().any(|v| v.name() == n), "{}: lookup of a value by {n:?}", e.full_name()) }
    }
    for n in ["", "nope", "a", "a.b", "."] {
        ck!(p.get_message_by_name(n).is_none() && p.get_enum_by_name(n).is_none() && p.get_extension_by_name(n).is_none() && p.get_service_by_name(n).is_none() && p.get_file_by_name(n).is_none(), "lookup of {n:?} finds something");
    }
    Ok(())
}
pub fn p11(cx: &mut Cx) -> &'static str {
    for _ in 0..cx.n(3000, 30000) {
        if cx.stop() { break }
        cx.case("pool", |r| {
            let fs = gen_files(r, "b", None);
            let p = new_pool(&fs).map_err(|e| format!("internal: rejected: {e}\n{}", set_hex(&fs)))?;
            check_pool(&p, &fs).map_err(|e| format!("{e}\n{}", set_hex(&fs)))?;
            note(|| set_hex(&fs));
            Ok(h(set_hex(&fs)))
        });
    }
    "random schemas (nested types, sparse/negative/aliased enums, oneofs, explicit JSON names, extensions, services, options); every lookup of every declared and many undeclared keys compared with the raw descriptors"
}

// --------------------------------------------------------------------------- P19

fn c_unescape(t: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] != b'\\' { o.push(t[i]); i += 1; continue }
        i += 1;
        let c = *t.get(i)?;
        i += 1;
        match c {
            b'a' => o.push(7), b'b' => o.push(8), b'f' => o.push(12), b'n' => o.push(10), b'r' => o.push(13), b't' => o.push(9), b'v' => o.push(11),
            b'\\' | b'?' | b'\'' | b'"' => o.push(c),
            b'0'..=b'7' => {
                let mut v = (c - b'0') as u32;
                for _ in 0..2 { if let Some(d @ b'0'..=b'7') = t.get(i) { v = v * 8 + (d - b'0') as u32; i += 1 } else { break } }
                if v > 255 { return None }
                o.push(v as u8);
            }
            b'x' | b'X' => {
                let a = (*t.get(i)? as char).to_digit(16)?;
                let b = (*t.get(i + 1)? as char).to_digit(16)?;
                i += 2;
                o.push((a * 16 + b) as u8);
            }
            _ => return None,
        }
    }
    Some(o)
}
fn default_file(ty: T, tn: Option<&str>, text: &str, ext: bool) -> FileDescriptorProto {
    let mut f = file("d.proto", "", false);
    f.enum_type.push(enm("E", &[("E_B", 3), ("E_A", 0), ("E_N", -5)]));
    let mut m = msg("M");
    let mut x = fld("x", 5, ty, tn);
    x.default_value = s(text);
    m.extension_range.push(ExtensionRange { start: Some(100), end: Some(101), options: None });
    if ext { x.extendee = s(".M"); x.number = Some(100); f.extension.push(x) } else { m.field.push(x) }
    f.message_type.push(m);
    f
}
fn p19_case(ty: T, tn: Option<&str>, text: &str, ext: bool, want: Option<Value>) -> R {
    let got = new_pool(&[default_file(ty, tn, text, ext)]);
    match (want, got) {
        (Some(w), Ok(p)) => {
            let m = p.get_message_by_name("M").unwrap();
            let (d, has, unset) = if ext { let x = m.get_extension(100).unwrap(); (x.default_value(), DynamicMessage::new(m.clone()).get_extension(&x).into_owned(), true) } else { let x = m.get_field(5).unwrap(); (x.default_value(), DynamicMessage::new(m.clone()).get_field(&x).into_owned(), !DynamicMessage::new(m.clone()).has_field(&x)) };
            if !crate::model::scalar_eq(&d, &w) || !crate::model::scalar_eq(&has, &w) || !unset {
                return Err(format!("default {text:?} of {ty:?} reads as {d} instead of {w}"));
            }
            note(|| format!("{ty:?} {text:?} -> {w}"));
            Ok(h((ty as i32, text, ext)))
        }
        (None, Err(_)) => Ok(h((ty as i32, text, ext))),
        (Some(w), Err(e)) => Err(format!("default {text:?} of {ty:?} (meaning {w}) is rejected: {e}")),
        (None, Ok(p)) => Err(format!("default {text:?} of {ty:?} denotes nothing but reads as {}", p.get_message_by_name("M").unwrap().get_field(5).map(|f| f.default_value().to_string()).unwrap_or_default())),
    }
}
pub fn p19(cx: &mut Cx) -> &'static str {
    // integers: boundaries and malformed text
    let ints = [(T::Int32, 32, true), (T::Sint32, 32, true), (T::Sfixed32, 32, true), (T::Int64, 64, true), (T::Sint64, 64, true), (T::Sfixed64, 64, true), (T::Uint32, 32, false), (T::Fixed32, 32, false), (T::Uint64, 64, false), (T::Fixed64, 64, false)];
    let mk = |bits: u32, signed: bool, v: i128| -> Option<Value> {
        match (bits, signed) { (32, true) => i32::try_from(v).ok().map(Value::I32), (64, true) => i64::try_from(v).ok().map(Value::I64), (32, false) => u32::try_from(v).ok().map(Value::U32), _ => u64::try_from(v).ok().map(Value::U64) }
    };
    let edges: Vec<i128> = { let mut e = vec![]; for b in [0i128, i32::MIN as i128, i32::MAX as i128, u32::MAX as i128, i64::MIN as i128, i64::MAX as i128, u64::MAX as i128] { for d in -2..=2 { e.push(b + d) } } e };
    for (ty, bits, signed) in ints {
        for &v in &edges {
            for ext in [false, true] {
                cx.case("int", |_| p19_case(ty, None, &v.to_string(), ext, mk(bits, signed, v)));
            }
        }
        for bad in ["", " ", "x", "1x", "1 ", " 1", "--1", "1.0", "1e3", "-", "0x", "١", "1_000", "true", "\u{0}", "9999999999999999999999999"] {
            cx.case("int-bad", |_| p19_case(ty, None, bad, false, None));
        }
    }
    for (t, v) in [("true", Some(true)), ("false", Some(false)), ("True", None), ("1", None), ("0", None), ("", None), ("t", None), ("false ", None)] {
        cx.case("bool", |_| p19_case(T::Bool, None, t, false, v.map(Value::Bool)));
    }
    for (t, v) in [("E_A", Some(0)), ("E_B", Some(3)), ("E_N", Some(-5)), ("E", None), ("", None), ("0", None), ("3", None), ("e_a", None), ("E_A ", None)] {
        for ext in [false, true] { cx.case("enum", |_| p19_case(T::Enum, Some(".E"), t, ext, v.map(Value::EnumNumber))); }
    }
    for t in ["", "x", "{}"] { cx.case("message", |_| p19_case(T::Message, Some(".M"), t, false, None)); }
    for (t, v) in [("inf", f64::INFINITY), ("-inf", f64::NEG_INFINITY), ("0", 0.0), ("-0", -0.0), ("1.5", 1.5), ("1e300", 1e300), ("5e-324", 5e-324), ("1.7976931348623157e308", f64::MAX), ("123456789", 123456789.0), ("-1e-7", -1e-7)] {
        cx.case("double", |_| p19_case(T::Double, None, t, false, Some(Value::F64(v))));
    }
    for (t, v) in [("inf", f32::INFINITY), ("-inf", f32::NEG_INFINITY), ("0", 0.0), ("-0", -0.0), ("1.5", 1.5), ("1e-45", 1e-45), ("3.4028235e38", f32::MAX), ("7.038531e-26", f32::from_bits(0x15ae43fd)), ("16777217", 16777216.0), ("0.1", 0.1)] {
        cx.case("float", |_| p19_case(T::Float, None, t, false, Some(Value::F32(v))));
    }
    for ty in [T::Double, T::Float] {
        cx.case("nan", |_| {
            let p = new_pool(&[default_file(ty, None, "nan", false)]).map_err(|e| format!("nan rejected: {e}"))?;
            let d = p.get_message_by_name("M").unwrap().get_field(5).unwrap().default_value();
            match d { Value::F64(x) if x.is_nan() && ty == T::Double => Ok(h(1)), Value::F32(x) if x.is_nan() && ty == T::Float => Ok(h(2)), d => Err(format!("nan of {ty:?} reads as {d}")) }
        });
        for bad in ["", "x", "1..2", "1e", "--1", "0x1p3", "1,5", "infx", "1 ", "true"] {
            cx.case("float-bad", |_| p19_case(ty, None, bad, false, None));
        }
    }
    for _ in 0..cx.n(3000, 30000) {
        if cx.stop() { break }
        cx.case("float-random", |r| {
            let v = f64::from_bits(r.next());
            if !v.is_finite() { return Ok(0) }
            p19_case(T::Double, None, &format!("{v:?}"), r.chance(1, 2), Some(Value::F64(v)))?;
            let v = f32::from_bits(r.next() as u32);
            if !v.is_finite() { return Ok(0) }
            p19_case(T::Float, None, &format!("{v:?}"), r.chance(1, 2), Some(Value::F32(v)))
        });
    }
    // strings are verbatim; bytes are C-escaped
    const A: [&str; 20] = ["\\", "\\", "\\", "x", "X", "0", "1", "3", "4", "7", "8", "a", "f", "n", "g", "?", "'", "\"", "é", "😀"];
    let one = |r: &mut Rng, n: usize| -> String { (0..n).map(|_| *r.pick(&A)).collect() };
    // all strings over a smaller alphabet up to length 4 or 5
    const B: [&str; 9] = ["\\", "x", "0", "3", "7", "8", "f", "n", "é"];
    let maxlen = cx.n(4, 6);
    for len in 0..=maxlen {
        for code in 0..B.len().pow(len as u32) {
            if cx.stop() { break }
            let mut c = code;
            let t: String = (0..len).map(|_| { let x = B[c % B.len()]; c /= B.len(); x }).collect();
            cx.case("bytes-exhaustive", |_| p19_case(T::Bytes, None, &t, false, c_unescape(t.as_bytes()).map(|b| Value::Bytes(b.into()))));
        }
    }
    for b in 0..=255u8 {
        cx.case("escape-byte", |_| {
            for t in [format!("\\{b:o}"), format!("\\{b:03o}z"), format!("\\x{b:02x}"), format!("\\X{b:02X}0"), format!("a\\{b:o}")] {
                p19_case(T::Bytes, None, &t, false, c_unescape(t.as_bytes()).map(|b| Value::Bytes(b.into())))?;
            }
            if b < 128 {
                let t = format!("\\{}", b as char);
                p19_case(T::Bytes, None, &t, false, c_unescape(t.as_bytes()).map(|b| Value::Bytes(b.into())))?;
                let t = format!("\\{}1", b as char);
                p19_case(T::Bytes, None, &t, false, c_unescape(t.as_bytes()).map(|b| Value::Bytes(b.into())))?;
            }
            Ok(h(b))
        });
    }
    for _ in 0..cx.n(10000, 100000) {
        if cx.stop() { break }
        cx.case("bytes", |r| {
            let n = r.below(10);
            let t = one(r, n);
            p19_case(T::String, None, &t, r.chance(1, 2), Some(Value::String(t.clone())))?;
            p19_case(T::Bytes, None, &t, r.chance(1, 2), c_unescape(t.as_bytes()).map(|b| Value::Bytes(b.into())))
        });
    }
    "boundary and malformed numbers of every integer and float kind, every escape of every byte, all short strings over an escape alphabet and random longer ones, for fields and extensions; compared with an independent interpreter of default values"
}

// --------------------------------------------------------------------------- P20

pub fn p20_name(name: &str, explicit: Option<&str>) -> R {
    let mut f = file("j.proto", "", false);
    let mut m = msg("M");
    let mut x = fld(name, 3, T::Int32, None);
    x.json_name = explicit.map(|e| e.to_string());
    m.field.push(x);
    f.message_type.push(m);
    let p = new_pool(&[f]).map_err(|e| format!("field name {name:?} is rejected: {e}"))?;
    let m = p.get_message_by_name("M").unwrap();
    let x = m.get_field(3).unwrap();
    let want = explicit.map(|e| e.to_string()).unwrap_or_else(|| camel(name));
    ck!(x.json_name() == want, "field {name:?} (json_name {explicit:?}) has the JSON name {:?} instead of {want:?}", x.json_name());
    ck!(m.get_field_by_json_name(&want).as_ref() == Some(&x), "field {name:?} is not found by its JSON name {want:?}");
    ck!(x.field_descriptor_proto().json_name() == want, "field {name:?}: the descriptor says {:?}", x.field_descriptor_proto().json_name());
    // JSON uses the name in both directions
    let mut dm = DynamicMessage::new(m.clone());
    dm.set_field(&x, Value::I32(7));
    let j = serde_json::to_value(&dm).map_err(|e| e.to_string())?;
    ck!(j == serde_json::json!({ want.clone(): 7 }), "field {name:?} is written as {j}");
    let back = DynamicMessage::deserialize(m.clone(), serde_json::json!({ want.clone(): 9 })).map_err(|e| format!("field {name:?}: JSON name {want:?} is not read: {e}"))?;
    ck!(back.get_field(&x).as_i32() == Some(9), "field {name:?} reads {}", back.get_field(&x));
    note(|| format!("{name:?} {explicit:?} -> {want:?}"));
    Ok(h((name.to_string(), explicit.map(|e| e.to_string()))))
}
/// Several fields whose JSON names are the names of others: the JSON name goes first.
fn p20_swapped(r: &mut Rng) -> R {
    let n = 2 + r.below(4);
    let names: Vec<String> = (0..n).map(|i| format!("{}{i}", *r.pick(&["f", "x_y", "Camel"]))).collect();
    let mut json = names.clone();
    for i in (1..n).rev() { let j = r.below(i + 1); json.swap(i, j) }
    if r.chance(1, 3) { json[0] = "other".into() }
    let mut m = msg("M");
    for (i, (a, b)) in names.iter().zip(&json).enumerate() {
        let mut x = fld(a, i as i32 + 1, T::Int32, None);
        x.json_name = s(b);
        m.field.push(x);
    }
    let mut f = file("j.proto", "", false);
    f.message_type.push(m);
    let p = new_pool(&[f]).map_err(|e| format!("names {names:?} with JSON names {json:?} are rejected: {e}"))?;
    let m = p.get_message_by_name("M").unwrap();
    let mut all = DynamicMessage::new(m.clone());
    for (i, j) in json.iter().enumerate() {
        ck!(m.get_field_by_json_name(j).map(|f| f.number()) == Some(i as u32 + 1), "names {names:?}, JSON names {json:?}: lookup of {j:?}");
        let d = DynamicMessage::deserialize(m.clone(), serde_json::json!({ j.clone(): 9 })).map_err(|e| format!("{j:?} is not read: {e}"))?;
        let got: Vec<u32> = d.fields().map(|f| f.0.number()).collect();
        ck!(got == [i as u32 + 1], "names {names:?}, JSON names {json:?}: {j:?} is read into {got:?}");
        all.set_field_by_number(i as u32 + 1, Value::I32(i as i32 + 5));
    }
    // a name that is no JSON name is accepted too
    for (i, a) in names.iter().enumerate().filter(|(_, a)| !json.contains(a)) {
        let d = DynamicMessage::deserialize(m.clone(), serde_json::json!({ a.clone(): 9 })).map_err(|e| format!("{a:?} is not read: {e}"))?;
        ck!(d.fields().map(|f| f.0.number()).collect::<Vec<_>>() == [i as u32 + 1], "names {names:?}, JSON names {json:?}: {a:?} is read into another field");
    }
    let j = serde_json::to_value(&all).map_err(|e| e.to_string())?;
    let back = DynamicMessage::deserialize(m.clone(), j.clone()).map_err(|e| format!("{j} is not read: {e}"))?;
    ck!(back == all, "names {names:?}, JSON names {json:?}: {j} reads as {back}");
    Ok(h((names, json)))
}
pub fn p20(cx: &mut Cx) -> &'static str {
    for _ in 0..cx.n(300, 3000) { cx.case("swapped", p20_swapped); }
    const B: [char; 7] = ['_', 'a', 'z', 'A', 'Z', '0', 'é'];
    for len in 1..=cx.n(4, 6) {
        for code in 0..B.len().pow(len as u32) {
            if cx.stop() { break }
            let mut c = code;
            let t: String = (0..len).map(|_| { let x = B[c % B.len()]; c /= B.len(); x }).collect();
            cx.case("exhaustive", |_| p20_name(&t, None));
        }
    }
    for b in 0u8..128 {
        cx.case("ascii", |_| {
            let c = b as char;
            p20_name(&format!("{c}"), None)?;
            p20_name(&format!("a_{c}"), None)?;
            p20_name(&format!("{c}_{c}"), None)?;
            p20_name(&format!("a{c}__{c}b_"), None)
        });
    }
    for _ in 0..cx.n(10000, 100000) {
        if cx.stop() { break }
        cx.case("random", |r| {
            let n = 1 + r.below(16);
            let t: String = (0..n).map(|_| match r.below(8) { 0 | 1 => '_', 2 => (b'0' + r.below(10) as u8) as char, 3 => (b'A' + r.below(26) as u8) as char, 4 if r.chance(1, 3) => *r.pick(&['ß', 'ﬁ', 'ö', '中', '.']), _ => (b'a' + r.below(26) as u8) as char }).collect();
            if r.chance(1, 5) {
                let e: String = (0..r.below(6)).map(|_| *r.pick(&['_', 'a', 'B', '-', ' ', 'é', '"', '\\'])).collect();
                p20_name(&t, Some(&e))
            } else {
                p20_name(&t, None)
            }
        });
    }
    "all field names up to a length over a 7-character alphabet, every ASCII character after an underscore, random longer names and explicit JSON names; json_name, lookup, stored descriptor and JSON in both directions"
}
