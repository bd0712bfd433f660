mod dec;
mod docs;
mod gen;
mod judge;
mod oracle;
mod scenario;
mod shrink;
mod sys;
mod vfs;
mod world;
use dec::*;
use scenario::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

extern "C" fn on_alarm(_: i32) {}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|p| a.get(p + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn main() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_alarm as *const () as usize;
        libc::sigaction(libc::SIGALRM, &sa, std::ptr::null_mut());
        libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
    }
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let bin = arg("--bin").expect("--bin");
    let code = match cmd.as_str() {
        "check" => check(&bin),
        "replay" => replay(&bin),
        "one" => one(&bin),
        _ => {
            eprintln!("usage: simos check|replay|one ...");
            2
        }
    };
    std::process::exit(code);
}

fn case_seed(base: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(base) ^ hash_str(3, prop) ^ idx.wrapping_mul(0x9E3779B97F4A7C15))
}

fn one(bin: &str) -> i32 {
    let prop = arg("--property").unwrap();
    let names = gen::env_names(bin);
    let seed = case_seed(num("--seed", 1), &prop, num("--index", 0));
    let s = gen::scenario(bin, &prop, seed, &names);
    let mut st = Stats::default();
    let rep = exec(bin, &s, seed, Mode::Search, true, &mut st);
    let mut j = s.to_json();
    for u in j["universes"].as_array_mut().unwrap() {
        for f in u["files"].as_array_mut().unwrap() {
            if let Some(d) = f["data"].as_str() {
                f["data"] = json!(d.chars().take(80).collect::<String>());
            }
        }
    }
    println!("{}", serde_json::to_string_pretty(&j).unwrap());
    for l in &rep.log {
        println!("{}", l);
    }
    for p in rep.phases.iter().flatten() {
        for r in &p.runs {
            println!("{:?} {:?} {}", r.exit, r.at_end.as_ref().map(|x| x.len()), r.stderr);
        }
    }
    println!("violations: {:?}", judge::judge(&s, &rep));
    0
}

fn replay(bin: &str) -> i32 {
    let f = std::env::args().nth(2).expect("file");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("JSON");
    let s = Scenario::from_json(&v["scenario"]);
    let dec: BTreeMap<String, String> = v["decisions"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect();
    let mut st = Stats::default();
    let rep = exec(bin, &s, 0, Mode::Replay(dec), true, &mut st);
    for l in &rep.log {
        println!("{}", l);
    }
    let viol = judge::judge(&s, &rep);
    for x in &viol {
        println!("{}: {}", x.class, x.detail);
    }
    let same = viol.iter().any(|x| x.class == v["class"].as_str().unwrap_or(""));
    let h = format!("{:016x}", rep.loghash);
    println!("reproduced: {}   identical execution: {}", same, v["loghash"].as_str() == Some(&h));
    if same {
        println!("VIOLATION property={} replay={}", s.prop, f);
        1
    } else {
        0
    }
}

fn stats_json(s: &Stats) -> Value {
    json!({"worlds": s.worlds, "steps": s.steps, "sim_ns": s.sim_ns, "faults": s.faults, "probes": s.probes, "unsupported": s.unsupported, "eligible": s.eligible, "switches": s.switches,
        "shapes": s.shapes, "commands": s.commands})
}

fn worker(bin: &str, prop: &str, base: u64, w: u64, jobs: u64, count: u64, time: u64, found: &AtomicU64) -> Value {
    let names = gen::env_names(bin);
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut idx = w;
    let (mut done, mut errors, mut rechecks, mut mismatches, mut with_fault, mut kinds) = (0u64, 0u64, 0u64, 0u64, 0u64, BTreeMap::<String, u64>::new());
    let mut exits = BTreeMap::<String, u64>::new();
    let mut nontrivial = BTreeSet::new();
    let mut viol = Value::Null;
    let mut samples = vec![];
    let mut last_err = String::new();
    while idx < count && idx <= found.load(Ordering::SeqCst) && t0.elapsed().as_secs() < time {
        let seed = case_seed(base, prop, idx);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let s = gen::scenario(bin, prop, seed, &names);
            let f0: u64 = st.faults.values().sum();
            let rep = exec(bin, &s, seed, Mode::Search, false, &mut st);
            let f1: u64 = st.faults.values().sum();
            let vs = judge::judge(&s, &rep);
            (s, rep, vs, f1 - f0)
        }));
        match r {
            Err(e) => {
                errors += 1;
                last_err = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            }
            Ok((s, rep, vs, nf)) => {
                done += 1;
                *kinds.entry(s.kind.clone()).or_insert(0) += 1;
                if nf > 0 {
                    with_fault += 1;
                }
                let sw = rep.taken.len();
                if nf > 0 || sw > 0 || s.kind != "faults" {
                    nontrivial.insert(mix(rep.loghash));
                }
                for p in rep.phases.iter().flatten() {
                    for r in &p.runs {
                        let k = match r.exit {
                            world::Exit::Code(0) => "success".to_string(),
                            world::Exit::Code(c) => format!("status {}", c),
                            world::Exit::Sig(n) => format!("signal {}", n),
                            world::Exit::Crash => "killed by the simulator".into(),
                        };
                        *exits.entry(k).or_insert(0) += 1;
                    }
                }
                if samples.len() < 1 && nf > 0 && w < 3 {
                    let f: Vec<String> = rep.taken.iter().filter(|(k, _)| !k.contains(".s")).take(8).map(|(k, v)| format!("{}={}", k, v)).collect();
                    samples.push(json!({"seed": seed, "index": idx, "kind": s.kind, "args": s.universes[0].phases[0].runs[0].args, "decisions": f, "exits": rep.phases.iter().flatten().flat_map(|p| p.runs.iter().map(|r| format!("{:?}", r.exit))).collect::<Vec<_>>()}));
                }
                if idx / jobs % 40 == 7 {
                    rechecks += 1;
                    let mut dummy = Stats::default();
                    let again = exec(bin, &s, 0, Mode::Replay(rep.taken.clone()), false, &mut dummy);
                    if again.loghash != rep.loghash {
                        mismatches += 1;
                    }
                }
                if !vs.is_empty() {
                    // must reproduce from its recorded decisions
                    let mut dummy = Stats::default();
                    let again = exec(bin, &s, 0, Mode::Replay(rep.taken.clone()), false, &mut dummy);
                    let vs2 = judge::judge(&s, &again);
                    if let Some(x) = vs.iter().find(|x| vs2.iter().any(|y| y.class == x.class)) {
                        found.fetch_min(idx, Ordering::SeqCst);
                        viol = json!({"index": idx, "seed": seed, "class": x.class, "detail": x.detail, "scenario": s.to_json(), "decisions": rep.taken});
                        break;
                    } else {
                        mismatches += 1;
                        last_err = format!("unreproduced: {}", vs[0].detail);
                    }
                }
            }
        }
        idx += jobs;
    }
    json!({"stats": stats_json(&st), "done": done, "errors": errors, "last_error": last_err, "rechecks": rechecks, "mismatches": mismatches, "with_fault": with_fault, "kinds": kinds, "exits": exits,
        "nontrivial": nontrivial, "violation": viol, "samples": samples})
}

fn check(bin: &str) -> i32 {
    let t0 = Instant::now();
    let prop = arg("--property").unwrap();
    let tier = arg("--tier").unwrap_or("quick".into());
    let base = num("--seed", 1);
    let count = num("--count", 1000);
    let time = num("--time", 200);
    let jobs = num("--jobs", 8).max(1);
    let evdir = arg("--evidence").unwrap_or("/verif/evidence".into());
    let found: &AtomicU64 = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const AtomicU64)
    };
    found.store(u64::MAX, Ordering::SeqCst);
    let mut kids = vec![];
    for w in 0..jobs {
        unsafe {
            let mut p = [0i32; 2];
            libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC);
            let pid = libc::fork();
            if pid == 0 {
                libc::close(p[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
                std::panic::set_hook(Box::new(|i| eprintln!("harness: {}", i)));
                let v = worker(bin, &prop, base, w, jobs, count, time, found);
                let mut f = std::fs::File::from_raw_fd(p[1]);
                let _ = f.write_all(v.to_string().as_bytes());
                drop(f);
                libc::_exit(0);
            }
            libc::close(p[1]);
            kids.push((pid, std::fs::File::from_raw_fd(p[0])));
        }
    }
    let mut all = vec![];
    let mut lost = 0;
    for (pid, mut f) in kids {
        let mut s = String::new();
        let _ = f.read_to_string(&mut s);
        unsafe {
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
        match serde_json::from_str::<Value>(&s) {
            Ok(v) => all.push(v),
            Err(_) => lost += 1,
        }
    }
    let sum = |k: &str| all.iter().map(|v| v[k].as_u64().unwrap_or(0)).sum::<u64>();
    let ssum = |k: &str| all.iter().map(|v| v["stats"][k].as_u64().unwrap_or(0)).sum::<u64>();
    let merge = |get: &dyn Fn(&Value) -> Value| {
        let mut m = BTreeMap::<String, u64>::new();
        for v in &all {
            if let Some(o) = get(v).as_object() {
                for (k, n) in o {
                    *m.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
                }
            }
        }
        m
    };
    let set = |get: &dyn Fn(&Value) -> Value| {
        let mut m = BTreeSet::<String>::new();
        for v in &all {
            if let Some(a) = get(v).as_array() {
                for x in a {
                    m.insert(x.to_string());
                }
            }
        }
        m
    };
    let shapes = set(&|v| v["stats"]["shapes"].clone()).len();
    let nontrivial = set(&|v| v["nontrivial"].clone()).len();
    let unsupported = set(&|v| v["stats"]["unsupported"].clone());
    let samples: Vec<Value> = all.iter().flat_map(|v| v["samples"].as_array().cloned().unwrap_or_default()).collect();
    let mut best: Option<Value> = None;
    for v in &all {
        if !v["violation"].is_null() {
            let i = v["violation"]["index"].as_u64().unwrap();
            if best.as_ref().map_or(true, |b| i < b["index"].as_u64().unwrap()) {
                best = Some(v["violation"].clone());
            }
        }
    }
    let mut code = 0;
    let mut violations = 0;
    let mut replay_path = String::new();
    if let Some(b) = &best {
        violations = 1;
        let s = Scenario::from_json(&b["scenario"]);
        let dec: BTreeMap<String, String> = b["decisions"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect();
        let class = b["class"].as_str().unwrap().to_string();
        let (s, dec, tries) = shrink::shrink(bin, s, dec, &class, 60);
        let mut dummy = Stats::default();
        let rep = exec(bin, &s, 0, Mode::Replay(dec.clone()), true, &mut dummy);
        let vs = judge::judge(&s, &rep);
        let detail = vs.iter().find(|x| x.class == class).map_or(b["detail"].as_str().unwrap_or("").to_string(), |x| x.detail.clone());
        let dir = format!("{}/replays", evdir);
        let _ = std::fs::create_dir_all(&dir);
        replay_path = format!("{}/{}-{:016x}.json", dir, prop, rep.loghash);
        let doc = json!({"property": prop, "class": class, "detail": detail, "seed": b["seed"], "index": b["index"], "verif_seed": base, "minimisation_attempts": tries,
            "loghash": format!("{:016x}", rep.loghash), "decisions": dec, "scenario": s.to_json(), "trace": rep.log,
            "how_to_replay": format!("/verif/check {} --replay {}", prop, replay_path)});
        std::fs::write(&replay_path, serde_json::to_string_pretty(&doc).unwrap()).expect("replay file");
        // a fresh process must reproduce it
        let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", &replay_path, "--bin", bin]).output();
        let ok = out.as_ref().map_or(false, |o| o.status.code() == Some(1));
        println!("property {} violated: {} ({} decisions after minimisation, reproduced in a fresh process: {})", prop, detail, dec.len(), ok);
        println!("VIOLATION property={} replay={}", prop, replay_path);
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let done = sum("done");
    let errors = sum("errors") + lost;
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration", "wall_s": wall, "violations": violations,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": nontrivial,
            "rule": "One evaluation is one scenario (files, command lines, machine, fault plan) generated from its own seed and executed once in the simulated operating system. Non-trivial: at least one fault, scheduling choice or special circumstance (kind other than plain) occurred; distinct: by hash of the complete system-call log of the execution.",
            "samples": samples,
            "simulated_machines": ssum("worlds"), "simulated_commands": ssum("commands"), "seeds_per_hour": (done as f64 / wall * 3600.0) as u64,
            "simulated_seconds": ssum("sim_ns") as f64 / 1e9, "simulated_steps": ssum("steps"), "fault_points_offered": ssum("eligible"),
            "scenarios_with_faults": sum("with_fault"), "faults_injected": merge(&|v| v["stats"]["faults"].clone()), "task_switches": ssum("switches"),
            "distinct_interleavings": shapes, "interleaving_measure": "hash of the sequence of (process, system call, error) of the whole scenario",
            "scenario_kinds": merge(&|v| v["kinds"].clone()), "command_endings": merge(&|v| v["exits"].clone()), "probes_reached": merge(&|v| v["stats"]["probes"].clone()),
            "replayed_for_determinism": sum("rechecks"), "determinism_mismatches": sum("mismatches"), "harness_errors": errors,
            "unsupported_calls": unsupported, "violation_replay": replay_path,
            "real_components": ["make_pluralrules command and library as built from /repo (statically linked), with its real dependencies, Rust std and glibc"],
            "stub_components": ["operating system: files, pipes, processes, futexes, clock, randomness", "rustfmt (changes white space only, rejects unbalanced text)"]
        },
        "assumptions": ["the formatter stub stands for rustfmt: it may change white space only", "system calls behave as in the simulated kernel; memory mapping, signal masks and thread creation are the real kernel's"]
    });
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(format!("{}/{}.json", evdir, prop), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    eprintln!("{} {}: {} scenarios ({} distinct non-trivial, {} with faults), {:.1} s, {} errors, {} rechecks, {} mismatches, unsupported {:?}", prop, tier, done, nontrivial, sum("with_fault"), wall, errors, sum("rechecks"), sum("mismatches"), unsupported);
    for v in &all {
        if let Some(e) = v["last_error"].as_str() {
            if !e.is_empty() {
                eprintln!("  {}", e);
            }
        }
    }
    if code == 0 && (done == 0 || errors * 50 > done + errors) {
        eprintln!("too many harness errors");
        return 2;
    }
    code
}
