//! P22: the global descriptor pool, used by several threads at once.
use crate::{cx::*, rng::Rng};
use prost::Message as _;
use prost_reflect::DescriptorPool;
use prost_types::{field_descriptor_proto::Type as T, DescriptorProto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet};
use std::{
    collections::BTreeMap,
    sync::{mpsc, Arc, Barrier},
    time::Duration,
};

const WELL_KNOWN: [&str; 14] = [
    "google.protobuf.Any", "google.protobuf.Timestamp", "google.protobuf.Duration", "google.protobuf.Struct", "google.protobuf.Value", "google.protobuf.ListValue", "google.protobuf.FieldMask",
    "google.protobuf.Empty", "google.protobuf.DoubleValue", "google.protobuf.BytesValue", "google.protobuf.FileDescriptorProto", "google.protobuf.FieldOptions", "google.protobuf.EnumOptions", "google.protobuf.MethodOptions",
];
fn file(name: &str, messages: &[String], field: Option<&str>) -> FileDescriptorProto {
    let fld = |t: &str| FieldDescriptorProto { name: Some("f".into()), number: Some(1), label: Some(1), r#type: Some(T::Message as i32), type_name: Some(t.into()), ..Default::default() };
    FileDescriptorProto {
        name: Some(name.into()),
        message_type: messages.iter().map(|m| DescriptorProto { name: Some(m.clone()), field: field.map(fld).into_iter().collect(), ..Default::default() }).collect(),
        ..Default::default()
    }
}
#[derive(Clone, Debug)]
enum Op {
    /// a file of its own
    Add(usize),
    /// a set of two files of its own
    AddSet(usize),
    /// the file every thread adds
    AddShared,
    /// a file that declares what one other file declares too: only one of them can be added
    AddRival(usize),
    /// a file that cannot be added
    AddBad(usize),
    /// a set of which the second file cannot be added
    AddHalfBad(usize),
    /// no file at all
    AddNoise,
    Read,
}
/// What a thread saw: the files of the case that it read, and whether its additions succeeded.
type Seen = Result<(Vec<Vec<String>>, Vec<(String, bool)>), String>;

fn run(case: &str, thread: usize, ops: Vec<Op>, barrier: &Barrier) -> Seen {
    let mut reads = vec![];
    let mut adds = vec![];
    let read = |what: &str| -> Result<Vec<String>, String> {
        let p = DescriptorPool::global();
        for n in WELL_KNOWN {
            if p.get_message_by_name(n).is_none() { return Err(format!("{n} is not in the global pool {what}")) }
        }
        let names: Vec<String> = p.files().map(|f| f.name().to_string()).filter(|n| n.starts_with(case)).collect();
        for n in &names {
            if p.get_file_by_name(n).is_none() { return Err(format!("{n} is listed but not found {what}")) }
        }
        Ok(names)
    };
    barrier.wait();
    for (i, op) in ops.into_iter().enumerate() {
        let n = |k: &str, j: usize| format!("{case}{k}{thread}x{j}");
        let m = |k: &str, j: usize| vec![format!("{}{k}{thread}x{j}", case.replace('/', "_"))];
        let one = |f: FileDescriptorProto| {
            if i % 2 == 0 { DescriptorPool::add_global_file_descriptor_proto(f) } else { DescriptorPool::decode_global_file_descriptor_set(FileDescriptorSet { file: vec![f] }.encode_to_vec().as_slice()) }
        };
        match op {
            Op::Add(j) => {
                one(file(&n("own", j), &m("Own", j), None)).map_err(|e| format!("a valid file is refused: {e}"))?;
                adds.push((n("own", j), true));
            }
            Op::AddSet(j) => {
                let set = FileDescriptorSet { file: vec![file(&n("seta", j), &m("SetA", j), None), file(&n("setb", j), &m("SetB", j), None)] };
                DescriptorPool::decode_global_file_descriptor_set(set.encode_to_vec().as_slice()).map_err(|e| format!("a valid set is refused: {e}"))?;
                adds.push((n("seta", j), true));
                adds.push((n("setb", j), true));
            }
            Op::AddShared => {
                let name = format!("{case}shared");
                one(file(&name, &[format!("{}Shared", case.replace('/', "_"))], None)).map_err(|e| format!("a file that is there already, or is new, is refused: {e}"))?;
                adds.push((name, true));
            }
            Op::AddRival(j) => {
                let r = one(file(&n("rival", j), &[format!("{}Rival", case.replace('/', "_"))], None));
                adds.push((n("rival", j), r.is_ok()));
            }
            Op::AddBad(j) => {
                if one(file(&n("bad", j), &m("Bad", j), Some(".no.such.Type"))).is_ok() { return Err("a faulty file is accepted".into()) }
                adds.push((n("bad", j), false));
            }
            Op::AddHalfBad(j) => {
                let set = FileDescriptorSet { file: vec![file(&n("good", j), &m("Good", j), None), file(&n("half", j), &m("Half", j), Some(".no.such.Type"))] };
                if DescriptorPool::decode_global_file_descriptor_set(set.encode_to_vec().as_slice()).is_ok() { return Err("a faulty set is accepted".into()) }
                adds.push((n("good", j), false));
                adds.push((n("half", j), false));
            }
            Op::AddNoise => {
                if DescriptorPool::decode_global_file_descriptor_set(&b"\x0a\xff"[..]).is_ok() { return Err("bytes that are no set of files are accepted".into()) }
            }
            Op::Read => {}
        }
        let names = read("")?;
        // a thread sees its own additions, and nothing of those that failed
        for (a, ok) in &adds {
            let count = names.iter().filter(|n| *n == a).count();
            if count != *ok as usize { return Err(format!("{a}, added {}, is {count} times in the pool afterwards", if *ok { "with success" } else { "without success" })) }
        }
        reads.push(names);
    }
    Ok((reads, adds))
}

pub fn p22(cx: &mut Cx) -> &'static str {
    for i in 0..cx.n(250, 1500) {
        if cx.stop() { break }
        cx.case("threads", |r: &mut Rng| {
            let threads = 2 + r.below(4);
            let case: Arc<str> = format!("case{i}/").into();
            let barrier = Arc::new(Barrier::new(threads));
            let before = DescriptorPool::global();
            let held = before.files().count();
            let (tx, rx) = mpsc::channel::<(usize, Seen)>();
            let mut plan = vec![];
            for t in 0..threads {
                let ops: Vec<Op> = (0..2 + r.below(4)).map(|j| match r.below(8) {
                    0 | 1 => Op::Add(j), 2 => Op::AddSet(j), 3 => Op::AddShared, 4 => Op::AddRival(j), 5 => Op::AddBad(j), 6 => if r.chance(1, 3) { Op::AddNoise } else { Op::AddHalfBad(j) }, _ => Op::Read,
                }).collect();
                plan.push(format!("{ops:?}"));
                let (tx, barrier, case) = (tx.clone(), barrier.clone(), case.clone());
                std::thread::spawn(move || {
                    let seen = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&case, t, ops, &barrier))).unwrap_or_else(|_| Err("a use of the global pool panics".into()));
                    let _ = tx.send((t, seen));
                });
            }
            drop(tx);
            let ctx = |e: String| format!("{e}\nthreads {plan:?}");
            let mut all = BTreeMap::new();
            for _ in 0..threads {
                let (t, seen) = rx.recv_timeout(Duration::from_secs(20)).map_err(|_| ctx("the threads do not come to an end".into()))?;
                all.insert(t, seen.map_err(|e| ctx(format!("thread {t}: {e}")))?);
            }
            let end: Vec<String> = DescriptorPool::global().files().map(|f| f.name().to_string()).filter(|n| n.starts_with(&*case)).collect();
            // the files are added one after another: what a thread reads is a beginning of what is there at the end
            let mut expected = 0;
            let mut rivals = 0;
            let mut rival_tries = 0;
            let mut shared = 0;
            for (t, (reads, adds)) in &all {
                let mut last = 0;
                for names in reads {
                    if names.len() < last || !end.starts_with(names) { return Err(ctx(format!("thread {t} read {names:?}, and at the end there are {end:?}"))) }
                    last = names.len();
                }
                let mut own = adds.clone();
                own.sort();
                own.dedup();
                for (a, ok) in &own {
                    if end.contains(a) != *ok { return Err(ctx(format!("{a}: added {ok}, at the end {}", !ok))) }
                    if a.ends_with("shared") { shared = 1; continue }
                    expected += *ok as usize;
                    if a.contains("rival") { rival_tries += 1; rivals += *ok as usize }
                }
            }
            if end.len() != expected + shared { return Err(ctx(format!("{} files were added, {} are there", expected + shared, end.len()))) }
            if rivals != usize::from(rival_tries > 0) { return Err(ctx(format!("{rivals} of {rival_tries} files that declare the same message were added"))) }
            if before.files().count() != held { return Err(ctx("a copy of the pool changed".into())) }
            note(|| format!("{plan:?}"));
            Ok(h(format!("{plan:?}")))
        });
    }
    "2 to 5 threads on the global pool, each reading and adding valid, shared, conflicting and faulty files and sets in random order; every read must be a beginning of the files there at the end, and exactly the additions that succeeded must be there; every schedule is the one the machine gives"
}
