mod rt;
#[path = "../../simos/src/dec.rs"]
#[allow(dead_code)]
mod dec;
#[path = "../../simos/src/docs.rs"]
#[allow(dead_code)]
mod docs;
mod gen;
mod ops;
mod run;

use dec::*;
use ops::*;
use run::{exec, stat, End, Oracle, Outcome, Scenario};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

#[global_allocator]
static ALLOC: rt::Alloc = rt::Alloc;

extern "C" fn on_alarm(_: i32) {}
fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|p| a.get(p + 1).cloned())
}
fn numarg(name: &str, d: u64) -> u64 {
    arg(name).and_then(|s| s.parse().ok()).unwrap_or(d)
}
fn main() {
    unsafe {
        // the same addresses every time
        let p = libc::personality(0xffff_ffff);
        if p & libc::ADDR_NO_RANDOMIZE == 0 && libc::personality(p as libc::c_ulong | libc::ADDR_NO_RANDOMIZE as libc::c_ulong) >= 0 {
            use std::os::unix::process::CommandExt;
            let _ = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
        }
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_alarm as *const () as usize;
        libc::sigaction(libc::SIGALRM, &sa, std::ptr::null_mut());
    }
    run::init();
    run::init_memo();
    let code = match std::env::args().nth(1).unwrap_or_default().as_str() {
        "check" => check(),
        "replay" => replay(),
        "one" => one(),
        _ => 2,
    };
    std::process::exit(code);
}
fn case_seed(base: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(base) ^ hash_str(5, prop) ^ idx.wrapping_mul(0x9E3779B97F4A7C15))
}
fn locales(o: &mut Oracle) -> Vec<String> {
    let e = Env { slots: vec![], docs: vec![] };
    let mut v: Vec<String> = vec![];
    for ord in [false, true] {
        v.extend(o.ask(&Op::List { ord }, &e).split(' ').map(|s| s.to_string()));
    }
    v.sort();
    v.dedup();
    v
}
fn one() -> i32 {
    let prop = arg("--property").unwrap();
    let mut o = Oracle::new();
    let all = locales(&mut o);
    let seed = case_seed(numarg("--seed", 1), &prop, numarg("--index", 0));
    let s = gen::scenario(&prop, seed, numarg("--seed", 1), &all);
    let t = Instant::now();
    let r = exec(&mut o, &s, run::Mode::Search(seed), arg("--log").is_some());
    let st = &stat().stat;
    println!("{} {:?} steps {} switches {} hot {} judged {} decisions {} {:?} threads {} hash {:016x} in {:?}, asked {}", s.kind, s.strat, r.steps, st.switches, st.hot, r.judged, r.dec.len(), r.end, s.threads.len(), r.hash, t.elapsed(), o.asked);
    0
}
fn replay() -> i32 {
    let f = std::env::args().nth(2).expect("replay file");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("readable replay file")).expect("replay file");
    let prop = v["property"].as_str().unwrap_or("").to_string();
    if v["class"] == "not-shareable" {
        return match send_sync() {
            Some(t) => {
                println!("{}\nVIOLATION property={} replay={}", t, prop, f);
                1
            }
            None => 0,
        };
    }
    let s: Scenario = serde_json::from_value(v["scenario"].clone()).expect("scenario");
    let dec: Vec<(u64, u64)> = serde_json::from_value(v["decisions"].clone()).expect("decisions");
    let mut o = Oracle::new();
    let r = exec(&mut o, &s, run::Mode::Replay(&dec), true);
    let same = format!("{:016x}", r.hash) == v["hash"].as_str().unwrap_or("");
    println!("{}", r.end.text());
    println!("reproduced: {}   identical execution: {}", r.end.class() == v["class"], same);
    if r.end != End::Ok && (prop != "C27" || r.end.class() == "effect") {
        println!("VIOLATION property={} replay={}", prop, f);
        1
    } else {
        0
    }
}

// ---------------------------------------------------------------- minimisation

fn size(ops: &[Op]) -> usize {
    ops.iter().map(|o| 1 + size(inner(o))).sum()
}
struct Min {
    o: Oracle,
    class: String,
    tries: u64,
    until: Instant,
}
impl Min {
    fn late(&self) -> bool {
        Instant::now() > self.until
    }
    /// Does the scenario still fail the same way, under the recorded or another schedule?
    fn fails(&mut self, s: &Scenario, dec: &[(u64, u64)], search: u64) -> Option<Vec<(u64, u64)>> {
        if self.late() {
            return None;
        }
        self.tries += 1;
        let r = exec(&mut self.o, s, run::Mode::Replay(dec), false);
        if r.end.class() == self.class {
            return Some(r.dec);
        }
        if s.strat.kind != 0 {
            for k in 0..search {
                if self.late() {
                    return None;
                }
                self.tries += 1;
                let r = exec(&mut self.o, s, run::Mode::Search(mix(k ^ 0x5eed)), false);
                if r.end.class() == self.class {
                    return Some(r.dec);
                }
            }
        }
        None
    }
    fn list(&mut self, s: &mut Scenario, dec: &mut Vec<(u64, u64)>, get: &dyn Fn(&mut Scenario) -> Option<&mut Vec<Op>>) {
        let mut chunk = match get(s) {
            Some(v) => v.len(),
            None => return,
        };
        while chunk > 0 && !self.late() {
            let mut k = 0;
            loop {
                let mut c = s.clone();
                let v = match get(&mut c) {
                    Some(v) => v,
                    None => break,
                };
                if k >= v.len() {
                    break;
                }
                let e = (k + chunk).min(v.len());
                v.drain(k..e);
                match self.fails(&c, dec, 30) {
                    Some(d) => {
                        *s = c;
                        *dec = d;
                    }
                    None => k += chunk,
                }
                if self.late() {
                    break;
                }
            }
            chunk /= 2;
        }
    }
    fn decisions(&mut self, s: &Scenario, dec: &mut Vec<(u64, u64)>) {
        let mut chunk = dec.len();
        while chunk > 0 && !self.late() {
            let mut k = 0;
            while k < dec.len() && !self.late() {
                let mut c = dec.clone();
                let e = (k + chunk).min(c.len());
                c.drain(k..e);
                self.tries += 1;
                let r = exec(&mut self.o, s, run::Mode::Replay(&c), false);
                if r.end.class() == self.class {
                    *dec = c;
                } else {
                    k += chunk;
                }
            }
            chunk /= 2;
        }
    }
}
fn shrink(s: &mut Scenario, dec: &mut Vec<(u64, u64)>, class: &str, secs: u64) -> u64 {
    let mut m = Min { o: Oracle::new(), class: class.into(), tries: 0, until: Instant::now() + std::time::Duration::from_secs(secs) };
    // drop whole threads, then steps, then what happens inside callbacks and repetitions
    let mut k = 0;
    while k < s.threads.len() && !m.late() {
        let mut c = s.clone();
        c.threads.remove(k);
        fn renumber(v: &mut Vec<Op>, k: usize) {
            for o in v {
                if let Op::New { cb: Cb::Await(t), .. } | Op::Sel { cb: Cb::Await(t), .. } | Op::Parse { cb: Cb::Await(t), .. } = o {
                    if *t > k {
                        *t -= 1;
                    }
                }
                if let Some(v) = inner_mut(o) {
                    renumber(v, k);
                }
            }
        }
        c.threads.iter_mut().for_each(|v| renumber(v, k));
        let again = if c.threads.len() > 5 { 10 } else { 60 };
        match m.fails(&c, dec, again) {
            Some(d) => {
                *s = c;
                *dec = d;
            }
            None => k += 1,
        }
    }
    m.list(s, dec, &|s| Some(&mut s.post));
    m.list(s, dec, &|s| Some(&mut s.pre));
    for t in 0..s.threads.len() {
        m.list(s, dec, &move |s| s.threads.get_mut(t));
    }
    for k in 0..s.pre.len() {
        if inner_mut(&mut s.pre[k]).is_some() {
            m.list(s, dec, &move |s| s.pre.get_mut(k).and_then(inner_mut));
        }
        // fewer repetitions
        while let Some(Op::Rep { n, .. }) = s.pre.get(k) {
            let n = *n;
            let mut done = true;
            for c in [n / 2, n * 9 / 10, n - 1] {
                if c == 0 || c == n {
                    continue;
                }
                let mut z = s.clone();
                if let Op::Rep { n, .. } = &mut z.pre[k] {
                    *n = c;
                }
                if let Some(d) = m.fails(&z, dec, 0) {
                    *s = z;
                    *dec = d;
                    done = false;
                    break;
                }
            }
            if done || m.late() {
                break;
            }
        }
    }
    m.decisions(s, dec);
    m.tries
}

// ---------------------------------------------------------------- search

fn count(ops: &[Op], f: &mut BTreeMap<&'static str, u64>, times: u64) {
    for o in ops {
        let mut t = times;
        let k = match o {
            Op::New { cb: Cb::Panic | Cb::EnterPanic(_), .. } | Op::Sel { cb: Cb::Panic | Cb::EnterPanic(_), .. } | Op::Parse { cb: Cb::Panic | Cb::EnterPanic(_), .. } => "caller's conversion panics inside a call",
            Op::New { cb: Cb::Enter(_), .. } | Op::Sel { cb: Cb::Enter(_), .. } | Op::Parse { cb: Cb::Enter(_), .. } => "call made from inside another call",
            Op::New { cb: Cb::Await(_), .. } | Op::Sel { cb: Cb::Await(_), .. } | Op::Parse { cb: Cb::Await(_), .. } => "call stalls in the caller's conversion",
            Op::Sel { cb: Cb::Fail, .. } => "caller's conversion fails",
            Op::Clock { secs } if *secs < 0 => "wall clock set back",
            Op::Clock { .. } => "clock jump",
            Op::Env { .. } => "environment changed",
            Op::Spawn { .. } => "thread ends in the middle of a history",
            Op::Churn { what: 5, n, .. } => {
                t *= *n as u64;
                "caller's conversion panics or fails inside a call"
            }
            Op::Churn { what: 7, n, .. } => {
                t *= *n as u64;
                "thread ends in the middle of a history"
            }
            Op::Rep { n, .. } => {
                t *= *n as u64;
                ""
            }
            _ => "",
        };
        if !k.is_empty() {
            *f.entry(k).or_insert(0) += t;
        }
        count(inner(o), f, t);
    }
}
fn worker(prop: &str, base: u64, w: u64, jobs: u64, total: u64, time: u64, found: &AtomicU64) -> Value {
    let t0 = Instant::now();
    let mut o = Oracle::new();
    let all = locales(&mut o);
    let mut idx = w;
    let (mut done, mut rechecks, mut mism, mut judged, mut rejected) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut sums = BTreeMap::<&str, u64>::new();
    let mut faults = BTreeMap::<&'static str, u64>::new();
    let mut kinds = BTreeMap::<String, u64>::new();
    let mut strats = BTreeMap::<String, u64>::new();
    let (mut inter, mut runs) = (BTreeSet::new(), BTreeSet::new());
    let mut viol = Value::Null;
    let mut samples = vec![];
    let mut maxsteps = 0;
    while idx < total && idx <= found.load(Ordering::SeqCst) && t0.elapsed().as_secs() < time {
        let seed = case_seed(base, prop, idx);
        let s = gen::scenario(prop, seed, base, &all);
        let r: Outcome = exec(&mut o, &s, run::Mode::Search(seed), false);
        done += 1;
        judged += r.judged;
        rejected += stat().reject;
        maxsteps = maxsteps.max(r.steps);
        {
            let st = &stat().stat;
            for (k, v) in [
                ("steps", st.steps), ("switches", st.switches), ("switch_points_at_shared_data", st.hot), ("threads", st.threads), ("futex_waits", st.futex_waits), ("futex_wakes", st.futex_wakes), ("clock_reads", st.clock_reads),
                ("random_reads", st.random_reads), ("environment_reads", st.env_reads), ("sim_ns", st.steps * 41),
            ] {
                *sums.entry(k).or_insert(0) += v;
            }
            if st.awaits > 0 {
                *faults.entry("caller's conversion blocks inside a call until another thread has ended").or_insert(0) += st.awaits;
            }
            if st.stale > 0 {
                *faults.entry("atomic load returns an older value the memory model allows").or_insert(0) += st.stale;
            }
            if st.spurious > 0 {
                *faults.entry("wait returns early (spurious wake-up or signal)").or_insert(0) += st.spurious;
            }
            inter.insert(mix(st.sched_hash));
        }
        *sums.entry("calls_with_new_arguments").or_insert(0) += s.pre.iter().chain(s.threads.iter().flatten()).map(|o| if let Op::Churn { n, .. } = o { *n as u64 } else { 0 }).sum::<u64>();
        count(&s.pre, &mut faults, 1);
        for t in &s.threads {
            count(t, &mut faults, 1);
        }
        *faults.entry("thread preempted").or_insert(0) += stat().stat.switches;
        *kinds.entry(s.kind.clone()).or_insert(0) += 1;
        *strats.entry(["none", "uniform", "at shared data", "priorities", "priorities at shared data"][s.strat.kind as usize].to_string()).or_insert(0) += 1;
        if !s.threads.is_empty() || size(&s.pre) > 1 {
            runs.insert(r.hash);
        }
        if samples.is_empty() && w < 3 && !s.threads.is_empty() {
            let t: Vec<String> = s.threads.iter().map(|t| t.iter().take(4).map(|o| format!("{:?}", o).chars().take(120).collect::<String>()).collect::<Vec<_>>().join("; ")).collect();
            samples.push(json!({"seed": seed, "index": idx, "kind": s.kind, "slots": s.slots, "threads": t, "steps": r.steps, "switches": r.dec.len()}));
        }
        let recheck = idx / jobs % 30 == 5;
        if recheck || r.end != End::Ok {
            let again = exec(&mut o, &s, run::Mode::Replay(&r.dec), false);
            if recheck {
                rechecks += 1;
            }
            if again.hash != r.hash || again.end != r.end {
                mism += 1;
                eprintln!("mismatch at index {}: {:?} / {:?}, steps {} / {}", idx, r.end, again.end, r.steps, again.steps);
            }
            if r.end != End::Ok && (prop != "C27" || r.end.class() == "effect") && again.end.class() == r.end.class() {
                found.fetch_min(idx, Ordering::SeqCst);
                viol = json!({"index": idx, "seed": seed, "class": r.end.class(), "detail": r.end.text(), "scenario": s, "decisions": r.dec});
                break;
            }
        }
        idx += jobs;
    }
    json!({"done": done, "judged": judged, "rejected": rejected, "rechecks": rechecks, "mismatches": mism, "sums": sums, "faults": faults, "kinds": kinds, "strategies": strats, "inter": inter, "runs": runs, "violation": viol, "samples": samples,
        "asked": o.asked, "max_steps": maxsteps})
}
fn check() -> i32 {
    let t0 = Instant::now();
    let prop = arg("--property").unwrap();
    let tier = arg("--tier").unwrap_or("quick".into());
    let base = numarg("--seed", 1);
    let total = numarg("--count", 1000);
    let time = numarg("--time", 60);
    let jobs = numarg("--jobs", 8).max(1);
    let evdir = arg("--evidence").unwrap_or("/verif/evidence".into());
    let found: &AtomicU64 = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const AtomicU64)
    };
    found.store(u64::MAX, Ordering::SeqCst);
    let mut kids = vec![];
    for w in 0..jobs {
        unsafe {
            let mut p = [0i32; 2];
            libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC);
            let pid = libc::fork();
            if pid == 0 {
                libc::close(p[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                run::init();
                let v = worker(&prop, base, w, jobs, total, time, found);
                let mut f = std::fs::File::from_raw_fd(p[1]);
                let _ = f.write_all(v.to_string().as_bytes());
                drop(f);
                libc::_exit(0);
            }
            libc::close(p[1]);
            kids.push((pid, std::fs::File::from_raw_fd(p[0])));
        }
    }
    let mut all: Vec<Value> = vec![];
    let mut lost = 0;
    for (pid, mut f) in kids {
        let mut s = String::new();
        let _ = f.read_to_string(&mut s);
        unsafe {
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
        match serde_json::from_str::<Value>(&s) {
            Ok(v) => all.push(v),
            Err(_) => lost += 1,
        }
    }
    let sum = |k: &str| all.iter().map(|v| v[k].as_u64().unwrap_or(0)).sum::<u64>();
    let merge = |k: &str| {
        let mut m = BTreeMap::<String, u64>::new();
        for v in &all {
            if let Some(o) = v[k].as_object() {
                for (k, n) in o {
                    *m.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
                }
            }
        }
        m
    };
    let distinct = |k: &str| all.iter().flat_map(|v| v[k].as_array().cloned().unwrap_or_default()).map(|x| x.as_u64().unwrap_or(0)).collect::<BTreeSet<u64>>().len();
    let mut best: Option<Value> = None;
    for v in &all {
        if !v["violation"].is_null() {
            let i = v["violation"]["index"].as_u64().unwrap_or(0);
            if best.as_ref().map_or(true, |b| i < b["index"].as_u64().unwrap_or(0)) {
                best = Some(v["violation"].clone());
            }
        }
    }
    let mut code = 0;
    let mut path = String::new();
    let dir = format!("{}/replays", evdir);
    let _ = std::fs::create_dir_all(&dir);
    if let Some(b) = &best {
        let mut s: Scenario = serde_json::from_value(b["scenario"].clone()).unwrap();
        let mut dec: Vec<(u64, u64)> = serde_json::from_value(b["decisions"].clone()).unwrap();
        let class = b["class"].as_str().unwrap().to_string();
        let tries = shrink(&mut s, &mut dec, &class, if class == "hang" || class == "no-progress" { 5 } else { 40 });
        let mut o = Oracle::new();
        let r = exec(&mut o, &s, run::Mode::Replay(&dec), false);
        path = format!("{}/{}-{:016x}.json", dir, prop, r.hash);
        let doc = json!({"property": prop, "class": class, "detail": r.end.text(), "seed": b["seed"], "index": b["index"], "verif_seed": base, "minimisation_attempts": tries, "hash": format!("{:016x}", r.hash),
            "decisions": dec, "scenario": s, "how_to_replay": format!("/verif/check {} --replay {}", prop, path)});
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("replay file");
        let out = std::process::Command::new("/proc/self/exe").args(["replay", &path]).output();
        let ok = out.as_ref().map_or(false, |o| o.status.code() == Some(1));
        println!("property {} violated: {} ({} steps of history, {} scheduling decisions after minimisation, reproduced in a fresh process: {})", prop, r.end.text(), size(&s.pre) + size(&s.post) + s.threads.iter().map(|t| size(t)).sum::<usize>(), dec.len(), ok);
        println!("VIOLATION property={} replay={}", prop, path);
        code = 1;
    } else if prop == "C09" {
        if let Some(t) = send_sync() {
            path = format!("{}/{}-share.json", dir, prop);
            std::fs::write(&path, json!({"property": prop, "class": "not-shareable", "detail": t}).to_string()).expect("replay file");
            println!("property {} violated: {}", prop, t);
            println!("VIOLATION property={} replay={}", prop, path);
            code = 1;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let done = sum("done");
    let sums = merge("sums");
    let samples: Vec<Value> = all.iter().flat_map(|v| v["samples"].as_array().cloned().unwrap_or_default()).collect();
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration", "wall_s": wall, "violations": code,
        "coverage": {
            "evaluations": done, "distinct_nontrivial": distinct("runs"),
            "rule": "One evaluation is one simulated run: a history (steps of up to five concurrent threads, callbacks, faults) generated from its own seed, executed once in a fresh process under the seeded scheduler. Non-trivial: more than one step or more than one thread; distinct: by hash of all results in order and of the whole schedule.",
            "samples": samples,
            "calls_judged": sum("judged"), "calls_rejected_or_panicked_as_expected": sum("rejected"), "reference_answers_from_fresh_processes": sum("asked"),
            "seeds_per_hour": (done as f64 / wall * 3600.0) as u64, "simulated_seconds": *sums.get("sim_ns").unwrap_or(&0) as f64 / 1e9, "simulated": sums,
            "faults_injected": merge("faults"), "distinct_interleavings": distinct("inter"), "interleaving_measure": "hash of the sequence of (code address, next thread) at every switch of the run",
            "history_kinds": merge("kinds"), "schedulers": merge("strategies"), "replayed_for_determinism": sum("rechecks"), "determinism_mismatches": sum("mismatches"), "harness_errors": lost,
            "largest_run_steps": all.iter().map(|v| v["max_steps"].as_u64().unwrap_or(0)).max(), "violation_replay": path,
            "real_components": ["intl_pluralrules, cldr_pluralrules_parser and make_pluralrules (library) as built from /repo with their real dependencies, instrumented", "Rust std (also instrumented), glibc threads"],
            "stub_components": ["who runs next, futexes, clock, random numbers, environment look-ups, memory allocator", "callers' conversion types"]
        },
        "assumptions": ["weak memory is simulated by letting atomic loads return older values that happens-before and coherence allow (the last few stores of each location; no out-of-thin-air or load buffering); plain accesses are checked for data races by vector clocks", "glibc itself runs without preemption"]
    });
    std::fs::write(format!("{}/{}.json", evdir, prop), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    eprintln!("{} {}: {} runs ({} distinct), {} calls judged, {} interleavings, {:.1} s, {} rechecks, {} mismatches, {} lost, max steps {}", prop, tier, done, distinct("runs"), sum("judged"), distinct("inter"), wall, sum("rechecks"), sum("mismatches"), lost, ev["coverage"]["largest_run_steps"]);
    if code == 0 && (done == 0 || lost > 0) {
        return 2;
    }
    code
}
