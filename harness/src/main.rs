//! Bounded contract checks of prost-reflect through its public API.
//! usage: vh PROP --seed N --tier quick|thorough [--case I] [--cur FILE] [--out FILE] [--budget SECONDS]
mod access;
mod core;
mod cx;
mod global;
mod json;
mod model;
mod options;
mod pools;
mod rng;
mod text;

use std::{path::PathBuf, time::Duration};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let get = move |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let only = get("--case").and_then(|s| s.parse().ok());
    let budget = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(60);
    std::panic::set_hook(Box::new(|_| {}));
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut cx = cx::Cx::new(seed, thorough, only, get("--cur").map(PathBuf::from), Duration::from_secs(budget));
        let rule = match prop.as_str() {
            "P01" => core::p01(&mut cx),
            "P02" => core::p02(&mut cx),
            "P03" => core::p03(&mut cx),
            "P04" => core::p04(&mut cx),
            "P05" => access::p05(&mut cx),
            "P06" => access::p06(&mut cx),
            "P07" => access::p07(&mut cx),
            "P08" => pools::p08(&mut cx),
            "P09" => pools::p09(&mut cx),
            "P10" => pools::p10(&mut cx),
            "P11" => pools::p11(&mut cx),
            "P12" => json::p12(&mut cx),
            "P13" => json::p13(&mut cx),
            "P14" => json::p14(&mut cx),
            "P15" => json::p15(&mut cx),
            "P16" => text::p16(&mut cx),
            "P17" => text::p17(&mut cx),
            "P18" => text::p18(&mut cx),
            "P19" => pools::p19(&mut cx),
            "P20" => pools::p20(&mut cx),
            "P21" => options::p21(&mut cx),
            "P22" => global::p22(&mut cx),
            _ => panic!("unknown property"),
        };
        let out = serde_json::json!({
            "evaluations": cx.evaluations,
            "distinct_nontrivial": cx.distinct(),
            "rule": rule,
            "samples": cx.samples,
            "timed_out": cx.out_of_time(),
            "failures": cx.failures.iter().map(|f| serde_json::json!({"case": f.index, "key": f.key, "what": f.what})).collect::<Vec<_>>(),
        });
        let text = serde_json::to_string_pretty(&out).unwrap();
        match get("--out") {
            Some(p) => std::fs::write(p, text).unwrap(),
            None => println!("{text}"),
        }
    });
    t.unwrap().join().unwrap();
}
