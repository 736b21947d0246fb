#![cfg_attr(feature = "rtsan", feature(sanitize))]

mod alloc;
mod analysis;
mod delays;
mod filters;
mod hist;
mod mon;
mod props;
mod rbj;
mod relations;
mod rng;
mod safety;
mod sample;
mod signal;
mod table;
mod util;
mod windows;
mod zoo;

use mon::{case_seed, run_case, run_prop, Case, Opts, Report};
use std::fmt::Write as _;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn json(id: &str, rule: &str, require: &[&str], o: &Opts, r: &Report) -> String {
    let mut s = String::from("{");
    let _ = write!(s, "\"property\":{},\"rule\":{},\"seed\":{},\"evaluations\":{},\"distinct\":{}", esc(id), esc(rule), o.seed, r.evaluations, r.distinct.len());
    let map = |m: &std::collections::BTreeMap<&'static str, u64>| {
        m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")
    };
    let _ = write!(s, ",\"events\":{{{}}},\"sections\":{{{}}}", map(&r.events), map(&r.sections));
    let list = |v: &[String]| v.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",");
    let _ = write!(s, ",\"samples\":[{}]", list(&r.samples));
    let missing: Vec<String> = require.iter().filter(|k| r.events.get(**k).cloned().unwrap_or(0) == 0).map(|k| k.to_string()).collect();
    let _ = write!(s, ",\"missing\":[{}],\"harness\":[{}]", list(&missing), list(&r.harness));
    let v: Vec<String> = r
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"section\":{},\"index\":{},\"seed\":\"{}\",\"what\":{},\"case\":{},\"history\":[{}]}}",
                esc(&v.section), v.index, v.seed, esc(&v.what), esc(&v.desc), list(&v.log)
            )
        })
        .collect();
    let _ = write!(s, ",\"violations\":[{}]}}", v.join(","));
    s
}

fn main() {
    mon::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned());
    let usage = || -> ! {
        eprintln!("usage: monitor run PROP [--thorough] [--seed N] [--scale F] [--threads N] [--only SECTION] [--hang SECONDS] [--out FILE] [--hashes FILE]\n       monitor replay PROP SECTION INDEX [--seed N] [--depth N]\n       monitor list");
        std::process::exit(2)
    };
    let table = table::all();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &table {
                println!("{} {}", p.id, p.sections.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
            }
        }
        Some("run") => {
            let id = args.get(2).cloned().unwrap_or_default();
            let p = table.iter().find(|p| p.id == id).unwrap_or_else(|| usage());
            let thorough = args.iter().any(|a| a == "--thorough");
            let o = Opts {
                seed,
                thorough,
                depth: get("--depth").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 4 } else { 1 }),
                scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
                threads: get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
                only: get("--only"),
                watch: get("--hang").is_some(),
            };
            if let Some(limit) = get("--hang").and_then(|s| s.parse().ok()) {
                let (id, rule, out, seed) = (p.id, p.rule, get("--out"), o.seed);
                let depth = o.depth;
                mon::watchdog(limit, move |section, index, cs, secs| {
                    let mut r = Report::default();
                    r.violations.push(mon::Violation {
                        section: section.to_string(),
                        index,
                        seed: cs,
                        what: format!("a monitored execution did not finish within {} s (a call does not return)", secs),
                        desc: format!("{} #{}", section, index),
                        log: vec![],
                    });
                    let o = Opts { seed, thorough: false, depth, scale: 1.0, threads: 1, only: None, watch: true };
                    let j = json(id, rule, &[], &o, &r);
                    match &out {
                        Some(f) => std::fs::write(f, &j).unwrap(),
                        None => println!("{}", j),
                    }
                    std::process::exit(1);
                });
            }
            let r = run_prop(p, &o);
            let j = json(p.id, p.rule, p.require, &o, &r);
            match get("--out") {
                Some(f) => std::fs::write(f, &j).unwrap(),
                None => println!("{}", j),
            }
            if let Some(f) = get("--hashes") {
                let mut b = Vec::with_capacity(r.distinct.len() * 8);
                for h in &r.distinct {
                    b.extend_from_slice(&h.to_le_bytes());
                }
                std::fs::write(f, b).unwrap();
            }
            if !r.harness.is_empty() {
                std::process::exit(2);
            }
            if !r.violations.is_empty() {
                std::process::exit(1);
            }
        }
        Some("solo") => {
            let a: Vec<u64> = args[2..].iter().filter_map(|s| s.parse().ok()).collect();
            if a.len() < 2 {
                usage()
            }
            let (n, d) = props::solo_in_this_process(a[0], a[1] as usize);
            println!("{} {}", n, d);
        }
        Some("replay") => {
            let id = args.get(2).cloned().unwrap_or_default();
            let p = table.iter().find(|p| p.id == id).unwrap_or_else(|| usage());
            let sec = args.get(3).cloned().unwrap_or_default();
            let s = p.sections.iter().find(|s| s.name == sec).unwrap_or_else(|| usage());
            let i: usize = args.get(4).and_then(|s| s.parse().ok()).unwrap_or_else(|| usage());
            let depth = get("--depth").and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut c = Case::new(case_seed(seed, p.id, s.name, i), i, depth, true);
            let r = run_case(s, &mut c);
            for l in &c.log {
                println!("{}", l);
            }
            println!("{}", c.desc);
            match r {
                Ok(None) => println!("held"),
                Ok(Some(w)) => {
                    println!("violated: {}", w);
                    std::process::exit(1)
                }
                Err(()) => {
                    println!("monitor error");
                    std::process::exit(2)
                }
            }
        }
        _ => usage(),
    }
}
