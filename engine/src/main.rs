//! sxe: symbolic execution of LLVM IR with Z3.

mod exec;
mod expr;
mod ir;
mod parse;
mod z3;

use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut file = None;
    let mut harnesses = vec![];
    let mut threads = 8;
    let mut time = 600u64;
    let mut out = None;
    let mut limits = exec::Limits {
        max_steps: 50_000_000,
        max_depth: 4000,
        max_violations: 20,
        samples: 12,
        deadline: Instant::now(),
        grace_ms: 45_000,
        query_ms: 60_000,
        dump: None,
    };
    let mut list = false;
    let mut i = 0;
    while i < args.len() {
        let cur = args[i].clone();
        let mut next = || {
            i += 1;
            args.get(i).cloned().unwrap_or_else(|| {
                eprintln!("missing argument");
                std::process::exit(2)
            })
        };
        match cur.as_str() {
            "--harness" => harnesses.push(next()),
            "--threads" => threads = next().parse().unwrap(),
            "--time" => time = next().parse().unwrap(),
            "--query-ms" => limits.query_ms = next().parse().unwrap(),
            "--steps" => limits.max_steps = next().parse().unwrap(),
            "--depth" => limits.max_depth = next().parse().unwrap(),
            "--grace" => limits.grace_ms = next().parse::<u64>().unwrap() * 1000,
            "--samples" => limits.samples = next().parse().unwrap(),
            "--dump" => limits.dump = Some(next()),
            "--out" => out = Some(next()),
            "--list" => list = true,
            f => file = Some(f.to_string()),
        }
        i += 1;
    }
    let file = file.expect("an LLVM IR file");
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&file).expect("readable IR");
    let mut m = parse::Parser::new(&src).run();
    drop(src);
    m.link();
    let parse_s = t0.elapsed().as_secs_f64();
    if list {
        for f in m.funcs.iter() {
            if f.name.starts_with("h_") && f.defined {
                println!("{}", f.name);
            }
        }
        return;
    }
    let hs: Vec<(String, u32)> = harnesses
        .iter()
        .map(|h| {
            let i = m.fidx.get(h).unwrap_or_else(|| {
                eprintln!("no harness {h}");
                std::process::exit(2)
            });
            (h.clone(), *i)
        })
        .collect();
    limits.deadline = Instant::now() + Duration::from_secs(time);
    let t1 = Instant::now();
    let sh = exec::Shared::new(&m, hs.clone(), limits);
    exec::explore(&sh, threads);
    let wall = t1.elapsed().as_secs_f64();
    let reports = sh.reports.lock().unwrap();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"solver\":{},\"parse_s\":{parse_s:.2},\"wall_s\":{wall:.2},\"ir_functions\":{},\"harnesses\":[",
        esc(&z3::version()),
        m.funcs.iter().filter(|f| f.defined).count()
    );
    for (k, ((name, _), r)) in hs.iter().zip(reports.iter()).enumerate() {
        if k > 0 {
            o.push(',');
        }
        let _ = write!(
            o,
            "\n{{\"harness\":{},\"paths\":{},\"infeasible\":{},\"forks\":{},\"implied\":{},\"steps\":{},\"max_steps\":{},\"checks\":{},\"checks_const\":{},\"symbols\":{},\"pending\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"fp\":{},\"cached\":{},\"solver_s\":{:.3},\"slowest_s\":{:.3},\"other\":{}",
            esc(name), r.paths, r.infeasible, r.forks, r.implied, r.steps, r.max_steps, r.checks, r.checks_const, r.symbols, r.pending,
            r.stats.queries, r.stats.sat, r.stats.unsat, r.stats.unknown, r.stats.fp, r.stats.cached,
            r.stats.nanos as f64 / 1e9, r.stats.max_nanos as f64 / 1e9, r.stats.other
        );
        o.push_str(",\"reached\":{");
        for (j, (id, n)) in r.reached.iter().enumerate() {
            let _ = write!(o, "{}\"{id}\":{n}", if j > 0 { "," } else { "" });
        }
        o.push_str("},\"errors\":{");
        for (j, (e, n)) in r.errors.iter().enumerate() {
            let _ = write!(o, "{}{}:{n}", if j > 0 { "," } else { "" }, esc(e));
        }
        o.push_str("},\"violations\":[");
        for (j, v) in r.violations.iter().enumerate() {
            let _ = write!(
                o,
                "{}{{\"kind\":{},\"id\":{},\"detail\":{},\"input\":\"{}\",\"trace\":[{}]}}",
                if j > 0 { "," } else { "" },
                esc(&v.kind),
                v.id,
                esc(&v.detail),
                hex(&v.input),
                v.trace.iter().map(|t| esc(t)).collect::<Vec<_>>().join(",")
            );
        }
        o.push_str("],\"samples\":[");
        for (j, s) in r.samples.iter().enumerate() {
            let _ = write!(
                o,
                "{}{{\"input\":\"{}\",\"obs\":[{}]}}",
                if j > 0 { "," } else { "" },
                hex(&s.input),
                s.obs.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(",")
            );
        }
        let mut fs: Vec<&str> = r.functions.iter().map(|f| m.funcs[*f as usize].name.as_str()).collect();
        fs.sort();
        o.push_str("],\"functions\":[");
        for (j, f) in fs.iter().enumerate() {
            let _ = write!(o, "{}{}", if j > 0 { "," } else { "" }, esc(f));
        }
        o.push_str("]}");
    }
    o.push_str("]}\n");
    match out {
        Some(p) => std::fs::write(p, o).expect("writable output"),
        None => print!("{o}"),
    }
}
