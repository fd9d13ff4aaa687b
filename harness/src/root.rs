pub mod around;
pub mod engine;
#[macro_use]
pub mod ev;
pub mod mem;
pub mod model;
pub mod nest;
pub mod serdes;
pub mod shared;
pub mod metas;
pub mod sizes;

// what needs the full configuration of the crates
#[cfg(not(feature = "small"))]
pub mod checks;
#[cfg(not(feature = "small"))]
pub mod consumers;
#[cfg(not(feature = "small"))]
pub mod jsonref;
#[cfg(not(feature = "small"))]
pub mod parts;
#[cfg(not(feature = "small"))]
pub mod proto;
#[cfg(not(feature = "small"))]
pub mod types;

use engine::*;

#[global_allocator]
static ALLOC: mem::Watch = mem::Watch;
use std::time::{Duration, Instant};

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn load_known(prop: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())) {
        for line in s.lines() {
            // known: property=C00 key=<exact failure key> :: description
            if let Some(rest) = line.strip_prefix("known: ") {
                if let Some(rest) = rest.strip_prefix(&format!("property={} key=", prop)) {
                    if let Some((key, text)) = rest.split_once(" :: ") {
                        v.push(Known { key: key.into(), text: text.into() });
                    }
                }
            }
        }
    }
    v
}

fn write_replay(prop: &str, tier: &str, suite: &str, n: usize, choices: &[u16], f: &Fail, sample: Option<String>) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}.json", dir, prop, suite, n);
    let j = serde_json::json!({
        "property": prop, "tier": tier, "suite": suite, "choices": choices,
        "key": f.key, "message": f.msg, "case": sample,
        "how_to_replay": format!("{}/run.sh replay {}", verif_dir(), path),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn write_evidence(prop: &str, tier: &str, coverage: serde_json::Value, assumptions: Vec<String>, wall: f64, violations: usize) {
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let j = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed(), "level": "model_checking",
        "coverage": coverage, "assumptions": assumptions, "wall_s": wall, "violations": violations,
    });
    std::fs::write(format!("{}/{}.json", dir, prop), serde_json::to_string_pretty(&j).unwrap() + "\n").expect("write evidence");
}

fn short(s: &str, n: usize) -> String {
    if s.chars().count() > n { s.chars().take(n).collect::<String>() + "…" } else { s.to_owned() }
}

pub type Get = fn(&str, bool) -> Option<checks::Check>;

fn child(get: Get, prop: &str, tier: &str, slot_file: &str) -> i32 {
    limit_memory(24 << 30);
    install_panic_hook();
    let thorough = tier == "thorough";
    let t0 = Instant::now();
    let chk = match get(prop, thorough) {
        Some(c) => c,
        None => {
            eprintln!("no such property {}", prop);
            return 2;
        }
    };
    let only = std::env::var("MC_SUITE").ok();
    let known = load_known(prop);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 16);
    let slots = Slots::create(slot_file, workers);
    let budget: u64 = std::env::var("MC_TIME").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 420 });
    let deadline = t0 + Duration::from_secs(budget);
    let (mut states, mut trans, mut execs, mut outs) = (0, 0, 0, 0);
    let mut samples = vec![];
    let mut per = vec![];
    let mut exhaustive = true;
    let mut violations = 0;
    let mut known_hit: Vec<(String, u64)> = vec![];
    for (i, s) in chk.suites.iter().enumerate() {
        if let Some(o) = &only {
            if o != s.name {
                continue;
            }
        }
        let st = explore(s, i, &slots, &known, Some(deadline), thorough);
        println!(
            "{} {} {}: executions={} states={} transitions={} outcomes={}{} complete={} wall={:.2}s",
            prop, tier, s.name, st.execs, st.states, st.transitions, st.outcomes, if st.outcomes_capped { "+" } else { "" }, st.complete, st.wall
        );
        states += st.states;
        trans += st.transitions;
        execs += st.execs;
        outs += st.outcomes;
        exhaustive &= st.complete;
        for smp in st.samples.iter().take(2) {
            samples.push(serde_json::json!({"suite": s.name, "case": short(smp, 1200)}));
        }
        per.push(serde_json::json!({
            "suite": s.name, "bounds": s.bounds, "executions": st.execs, "choice_states": st.states, "transitions": st.transitions,
            "distinct_outcomes": st.outcomes, "distinct_outcomes_is_lower_bound": st.outcomes_capped, "complete": st.complete, "wall_s": st.wall,
        }));
        for (k, n) in st.known {
            known_hit.push((k, n));
        }
        let mut seen = std::collections::HashSet::new();
        for (n, (choices, f)) in st.violations.iter().enumerate() {
            if seen.len() >= 3 || !seen.insert(f.key.clone()) {
                continue;
            }
            let (again, sample) = replay(s, choices, thorough);
            let path = write_replay(prop, tier, s.name, n, choices, f, sample.clone());
            println!("  suite {}: {}", s.name, short(&f.msg, 1500));
            if let Some(smp) = &sample {
                println!("  case: {}", short(smp, 1500));
            }
            if again.is_ok() {
                println!("  note: the recorded execution did not fail again on replay");
            }
            println!("VIOLATION property={} replay={}", prop, path);
            violations += 1;
        }
        if violations > 0 {
            break;
        }
    }
    for (k, n) in &known_hit {
        println!("KNOWN-FINDING: property={} {} ({} executions)", prop, k, n);
    }
    write_evidence(
        prop,
        tier,
        serde_json::json!({
            "states": states, "transitions": trans, "traces_validated_against_impl": execs,
            "distinct_outcomes": outs, "exhaustive": exhaustive, "samples": samples, "suites": per,
            "known_findings_hit": known_hit.iter().map(|(k, n)| serde_json::json!({"finding": k, "executions": n})).collect::<Vec<_>>(),
            "explanation": "states: nodes of the choice tree reached (decision points and leaves, each once); transitions: events/operations executed on the implementation; traces_validated_against_impl: complete executions of the real code, each compared with the reference model",
        }),
        chk.assumptions.iter().map(|s| s.to_string()).collect(),
        t0.elapsed().as_secs_f64(),
        violations,
    );
    if violations > 0 { 1 } else { 0 }
}

fn parent(get: Get, prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().expect("current exe");
    let slot_file = format!("{}/mc-slots-{}-{}", std::env::temp_dir().display(), prop, std::process::id());
    let mut ch = std::process::Command::new(exe).args(["child", prop, tier, &slot_file]).spawn().expect("spawn child");
    let mut last: Vec<((usize, Vec<u16>), Instant)> = vec![];
    let mut hung = None;
    let status = loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            break Some(st);
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_secs() < 2 { 20 } else { 200 }));
        if last.first().map(|l| l.1.elapsed() > Duration::from_secs(3)).unwrap_or(true) {
            // watchdog: one execution that does not end
            let now = Slots::read(&slot_file);
            let mut next = vec![((usize::MAX, vec![]), Instant::now())];
            for p in now {
                let since = last.iter().find(|l| l.0 == p).map(|l| l.1).unwrap_or_else(Instant::now);
                if since.elapsed() > Duration::from_secs(120) {
                    hung = Some(p.clone());
                }
                next.push((p, since));
            }
            last = next;
            if hung.is_some() {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
        }
    };
    let slots = Slots::read(&slot_file);
    let _ = std::fs::remove_file(&slot_file);
    let report = |what: String, which: Vec<(usize, Vec<u16>)>| -> i32 {
        let chk = get(prop, tier == "thorough").unwrap();
        let mut first = None;
        for (n, (s, choices)) in which.iter().enumerate() {
            let name = chk.suites.get(*s).map(|s| s.name).unwrap_or("?");
            let p = write_replay(prop, tier, name, 100 + n, choices, &Fail::new(what.clone(), what.clone()), None);
            first.get_or_insert(p);
        }
        let path = first.unwrap_or_else(|| write_replay(prop, tier, "none", 99, &[], &Fail::new(what.clone(), what.clone()), None));
        println!("  {}", what);
        println!("VIOLATION property={} replay={}", prop, path);
        write_evidence(
            prop,
            tier,
            serde_json::json!({"states": which.len().max(1), "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": false, "samples": [what.clone()]}),
            vec![],
            t0.elapsed().as_secs_f64(),
            1,
        );
        1
    };
    match status {
        None => report("an execution did not terminate within 120 s".into(), hung.into_iter().collect()),
        Some(st) => match st.code() {
            Some(c @ (0 | 1 | 2)) => c,
            Some(c) => {
                eprintln!("child exited with {}", c);
                3
            }
            None => {
                use std::os::unix::process::ExitStatusExt;
                let sig = st.signal().unwrap_or(0);
                // SIGKILL/SIGTERM/SIGINT come from outside; anything else is the code under test
                if matches!(sig, 9 | 15 | 2) {
                    eprintln!("child killed by signal {}", sig);
                    3
                } else {
                    report(format!("the code under test brought the process down (signal {})", sig), slots)
                }
            }
        },
    }
}

fn do_replay(get: Get, path: &str) -> i32 {
    install_panic_hook();
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read replay")).expect("parse replay");
    let prop = j["property"].as_str().unwrap();
    let thorough = j["tier"] == "thorough";
    let chk = get(prop, thorough).expect("property");
    let s = chk.suites.iter().find(|s| s.name == j["suite"]).expect("suite");
    let choices: Vec<u16> = j["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u16).collect();
    let (r, sample) = replay(s, &choices, thorough);
    if let Some(s) = sample {
        println!("case: {}", s);
    }
    match r {
        Ok(()) => {
            println!("replay: property held");
            0
        }
        Err(f) => {
            println!("replay: {}", f.msg);
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
    }
}

/// The command line of a checker whose checks are found by `get`.
pub fn main_with(get: Get) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().skip(1).map(|s| s.as_str()).collect();
    let rc = match a.as_slice() {
        ["run", prop, tier] => parent(get, prop, tier),
        ["child", prop, tier, slots] => child(get, prop, tier, slots),
        ["replay", path] => do_replay(get, path),
        ["list"] => {
            for p in checks::ALL {
                println!("{}", p);
            }
            0
        }
        _ => {
            eprintln!("usage: mc run <property> quick|thorough | mc replay <file> | mc list");
            2
        }
    };
    std::process::exit(rc);
}
