//! pbt: generated-input checks of ratel-core. `pbt check C04`, `pbt replay FILE`, `pbt list`.
mod crash;
mod engine;
mod fromjson;
mod fromratel;
mod gen;
mod json;
mod junk;
mod known;
mod node;
mod print;
mod props;
mod tree;

use engine::{run_big, run_cases, run_prop, Failure, PropResult, Src};
use serde_json::{json, Value};
use std::path::PathBuf;
use std::time::Instant;

/// One generated-input check: a name, how many cases, and the property of one case.
pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Src) -> PropResult,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    /// recorded findings: the id, and whether the defect is still there
    pub probes: Vec<(&'static str, fn() -> bool)>,
}

/// Where the machinery itself lies.
pub fn home() -> PathBuf {
    std::env::current_exe().ok().and_then(|p| p.ancestors().nth(4).map(|p| p.to_path_buf())).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| std::env::current_dir().unwrap())
}

#[global_allocator]
static ALLOC: crash::Counting = crash::Counting;

fn main() {
    engine::install_panic_hook();
    crash::open_notes();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2]),
        Some("run") => run(&args[2]),
        Some("one") => one(&args[2], &args[3], &args[4]),
        Some("try") => try_choices(&args[2], &args[3], &args[4]),
        Some("replay") => match crash::replay_dangerous(&args[2]) {
            crash::End2::Code(c) => c,
            crash::End2::Bad(s) => {
                let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
                println!("{}\n--- case ---\n{}", s, v["render"].as_str().unwrap_or(""));
                println!("VIOLATION property={} replay={}", v["property"].as_str().unwrap(), args[2]);
                1
            }
        },
        Some("replay1") => replay(&args[2]),
        Some("list") => {
            for p in props::all() {
                for s in &p.subs {
                    println!("{} {} quick={} thorough={}", p.id, s.name, s.quick, s.thorough);
                }
            }
            0
        }
        Some("sample") => sample(&args[2], args.get(3).and_then(|x| x.parse().ok()).unwrap_or(5)),
        Some(x) => props::command(x, &args[2..]),
        None => {
            eprintln!("usage: pbt check ID | replay FILE | list | sample ID [n]");
            2
        }
    };
    std::process::exit(code);
}

fn find(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("ERROR: no property {}", id);
        std::process::exit(2)
    })
}

fn sample(id: &str, n: u64) -> i32 {
    let p = find(id);
    for s in &p.subs {
        println!("== {}", s.name);
        for i in 0..n {
            let mut src = Src::random(engine::mix(77, i));
            let r = run_big(|| run_prop(&s.f, &mut src));
            match r {
                Ok(c) => println!("-- ok nontrivial={} skipped={:?}\n{}", c.nontrivial, c.skipped, c.render),
                Err(f) => println!("-- FAIL [{}] {}\n{}", f.kind, f.message, f.render),
            }
        }
    }
    0
}

fn replay(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let v: Value = serde_json::from_str(&text).expect("replay file");
    let p = find(v["property"].as_str().unwrap());
    let sub = p.subs.iter().find(|s| s.name == v["sub"].as_str().unwrap()).expect("sub check");
    let choices: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let mut src = Src::replay(choices);
    match run_big(|| run_prop(&sub.f, &mut src)) {
        Ok(c) => {
            println!("held: {}", c.render);
            0
        }
        Err(f) => {
            println!("[{}] {}\n--- case ---\n{}", f.kind, f.message, f.render);
            if f.kind == "harness" {
                2
            } else {
                println!("VIOLATION property={} replay={}", p.id, file);
                1
            }
        }
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn one(id: &str, sub: &str, case: &str) -> i32 {
    let p = find(id);
    let s = &p.subs[sub.parse::<usize>().unwrap()];
    let name = format!("{}/{}", id, s.name);
    let src = Src::random(engine::case_seed(&name, seed(), case.parse().unwrap()));
    run_big(|| crash::one(&s.f, src))
}

fn try_choices(id: &str, sub: &str, file: &str) -> i32 {
    let p = find(id);
    let s = &p.subs[sub.parse::<usize>().unwrap()];
    let b = std::fs::read(file).unwrap();
    let c = b.chunks_exact(4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).collect();
    run_big(|| crash::one(&s.f, Src::replay(c)))
}

/// Runs the check in a child process and deals with its death.
fn check(id: &str) -> i32 {
    let started = Instant::now();
    let p = find(id);
    let (sub, case, choices, mut f) = match crash::supervise(id) {
        Ok(c) => return c,
        Err(x) => x,
    };
    f.render = crash::last_text(id, sub, &choices);
    let name = p.subs[sub as usize].name;
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    report(id, name, seed(), &tier, case, &choices, &f);
    let ev = json!({
        "property": id, "tier": tier, "seed": seed(), "level": "exploration",
        "coverage": {"evaluations": case + 1, "distinct_nontrivial": 0, "rule": p.rule, "samples": [f.render], "exhaustive": false},
        "assumptions": p.assumptions, "wall_s": started.elapsed().as_secs_f64(), "violations": 1,
    });
    let dir = verif_dir().join("evidence");
    std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    1
}

fn report(id: &str, sub: &str, seed: u64, tier: &str, n: u64, choices: &[u32], f: &Failure) {
    let dir = verif_dir().join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", id, sub));
    let v = json!({"property": id, "sub": sub, "seed": seed, "tier": tier, "case": n, "kind": f.kind, "message": f.message, "render": f.render, "choices": choices});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    println!("[{}/{} case {}] {}: {}", id, sub, n, f.kind, f.message);
    println!("--- minimal case ---\n{}\n---", f.render);
    println!("VIOLATION property={} replay={}", id, path.display());
}

fn run(id: &str) -> i32 {
    let started = Instant::now();
    let p = find(id);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed = seed();
    let scale: f64 = std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("PBT_SUB").ok();
    let mut evals = 0;
    let mut nontrivial = 0;
    let mut samples: Vec<Value> = Vec::new();
    let mut per_sub = serde_json::Map::new();
    let mut failures: Vec<(&'static str, u64, Vec<u32>, Failure)> = Vec::new();
    for (index, s) in p.subs.iter().enumerate() {
        if only.as_ref().is_some_and(|o| !s.name.starts_with(o.as_str())) {
            continue;
        }
        let n = ((if tier == "thorough" { s.thorough } else { s.quick }) as f64 * scale).ceil() as u64;
        let t0 = Instant::now();
        let o = run_cases(&format!("{}/{}", id, s.name), index as u32, seed, n, &s.f);
        evals += o.evaluations;
        nontrivial += o.nontrivial;
        for x in o.samples.iter().take(3) {
            samples.push(json!({"check": s.name, "case": x}));
        }
        let labels: serde_json::Map<String, Value> = o.labels.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
        let skipped: serde_json::Map<String, Value> = o.skipped.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
        println!(
            "{} {}: {} cases, {} distinct non-trivial, {:.1} s{}{}",
            id,
            s.name,
            o.evaluations,
            o.nontrivial,
            t0.elapsed().as_secs_f64(),
            if labels.is_empty() { String::new() } else { format!(", labels {}", Value::Object(labels.clone())) },
            if skipped.is_empty() { String::new() } else { format!(", skipped {}", Value::Object(skipped.clone())) },
        );
        per_sub.insert(
            s.name.to_string(),
            json!({"evaluations": o.evaluations, "distinct_nontrivial": o.nontrivial, "seconds": t0.elapsed().as_secs_f64(), "labels": labels, "skipped": skipped}),
        );
        if let Some((choices, f, n)) = o.failure {
            failures.push((s.name, n, choices, f));
        }
    }
    for k in known::all().iter().filter(|k| k.property == id) {
        match p.probes.iter().find(|x| x.0 == k.id) {
            Some((_, probe)) => {
                if run_big(probe) {
                    println!("KNOWN-FINDING: property={} {}: {}", id, k.id, k.what);
                } else {
                    println!("note: the recorded finding {} of {} no longer occurs", k.id, id);
                }
            }
            None => eprintln!("ERROR: no probe for the recorded finding {} of {}", k.id, id),
        }
    }
    let mut code = 0;
    let mut violations = 0;
    for (sub, n, choices, f) in failures {
        if f.kind == "harness" {
            eprintln!("ERROR: {} {} case {}: {}\n{}", id, sub, n, f.message, f.render);
            code = 2;
            continue;
        }
        violations += 1;
        report(id, sub, seed, &tier, n, &choices, &f);
        if code == 0 {
            code = 1;
        }
    }
    if samples.is_empty() {
        samples.push(json!("(no case counted as non-trivial)"));
    }
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nontrivial,
            "rule": p.rule,
            "samples": samples,
            "per_check": per_sub,
            "exhaustive": false,
        },
        "assumptions": p.assumptions,
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    code
}
