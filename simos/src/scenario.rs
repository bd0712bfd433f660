//! What one simulated execution consists of, its JSON form (for replay files) and how it is carried out.
use crate::dec::*;
use crate::vfs::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum FileSpec {
    Data(Vec<u8>),
    Fifo(Vec<u8>, usize),
    Dir,
    Symlink(String),
    /// readable only up to the offset
    Bad(Vec<u8>, usize),
}
#[derive(Clone, Debug)]
pub struct RunSpec {
    pub args: Vec<String>,
    pub env: Vec<String>,
    pub cwd: String,
    pub closed: [bool; 3],
    /// what can be read from standard input: text and then its end, or nothing ever (None)
    pub stdin: Option<Vec<u8>>,
    pub cfg: FaultCfg,
    pub output: String,
    pub ugly: bool,
    pub inputs: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Phase {
    pub runs: Vec<RunSpec>,
    pub mach: Machine,
    pub sched: f64,
    pub cap: Option<usize>,
    pub put: Vec<(String, FileSpec)>,
    /// files that somebody replaces (by renaming a new version over them) while the runs go on
    pub swaps: Vec<(String, Vec<Vec<u8>>)>,
}
#[derive(Clone, Debug)]
pub struct Universe {
    pub files: Vec<(String, FileSpec)>,
    pub phases: Vec<Phase>,
}
#[derive(Clone, Debug)]
pub struct Scenario {
    pub prop: String,
    pub kind: String,
    pub universes: Vec<Universe>,
}

// ------------------------------------------------------------------ JSON form

fn enc(b: &[u8]) -> Value {
    match std::str::from_utf8(b) {
        Ok(s) => json!(s),
        Err(_) => json!({"hex": b.iter().map(|x| format!("{:02x}", x)).collect::<String>()}),
    }
}
fn dec_bytes(v: &Value) -> Vec<u8> {
    match v {
        Value::String(s) => s.clone().into_bytes(),
        _ => {
            let h = v["hex"].as_str().unwrap_or("");
            (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
        }
    }
}
fn file_json(p: &str, f: &FileSpec) -> Value {
    match f {
        FileSpec::Data(b) => json!({"path": p, "data": enc(b)}),
        FileSpec::Fifo(b, c) => json!({"path": p, "fifo": enc(b), "chunk": c}),
        FileSpec::Dir => json!({"path": p, "dir": true}),
        FileSpec::Symlink(t) => json!({"path": p, "symlink": t}),
        FileSpec::Bad(b, k) => json!({"path": p, "data": enc(b), "unreadable_from": k}),
    }
}
fn file_from(v: &Value) -> (String, FileSpec) {
    let p = v["path"].as_str().unwrap_or("").to_string();
    let f = if v["dir"] == json!(true) {
        FileSpec::Dir
    } else if let Some(t) = v["symlink"].as_str() {
        FileSpec::Symlink(t.into())
    } else if !v["fifo"].is_null() {
        FileSpec::Fifo(dec_bytes(&v["fifo"]), v["chunk"].as_u64().unwrap_or(1) as usize)
    } else if let Some(k) = v["unreadable_from"].as_u64() {
        FileSpec::Bad(dec_bytes(&v["data"]), k as usize)
    } else {
        FileSpec::Data(dec_bytes(&v["data"]))
    };
    (p, f)
}
fn lim(v: usize) -> Value {
    if v == usize::MAX {
        Value::Null
    } else {
        json!(v)
    }
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default()
}
impl Scenario {
    pub fn to_json(&self) -> Value {
        json!({
            "property": self.prop, "kind": self.kind,
            "universes": self.universes.iter().map(|u| json!({
                "files": u.files.iter().map(|(p, f)| file_json(p, f)).collect::<Vec<_>>(),
                "phases": u.phases.iter().map(|ph| json!({
                    "put": ph.put.iter().map(|(p, f)| file_json(p, f)).collect::<Vec<_>>(),
                    "swaps": ph.swaps.iter().map(|(p, v)| json!({"path": p, "versions": v.iter().map(|b| enc(b)).collect::<Vec<_>>()})).collect::<Vec<_>>(),
                    "disk_room": ph.cap, "sched": ph.sched,
                    "machine": {"clock": ph.mach.clock, "rand": ph.mach.rand, "pid_base": ph.mach.pid_base, "ncpu": ph.mach.ncpu, "mmap_shift": ph.mach.mmap_shift,
                        "max_read": lim(ph.mach.max_read), "max_write": lim(ph.mach.max_write), "pipe_cap": ph.mach.pipe_cap},
                    "runs": ph.runs.iter().map(|r| json!({
                        "args": r.args, "env": r.env, "cwd": r.cwd, "closed_stdio": r.closed, "stdin": r.stdin.as_ref().map(|b| enc(b)), "output": r.output, "ugly": r.ugly, "inputs": r.inputs,
                        "faults": {"classes": r.cfg.classes, "rate": r.cfg.rate, "target": r.cfg.target, "max": r.cfg.max}
                    })).collect::<Vec<_>>()
                })).collect::<Vec<_>>()
            })).collect::<Vec<_>>()
        })
    }
    pub fn from_json(v: &Value) -> Scenario {
        let us = |v: &Value| v.as_u64().map_or(usize::MAX, |x| x as usize);
        Scenario {
            prop: v["property"].as_str().unwrap_or("").into(),
            kind: v["kind"].as_str().unwrap_or("").into(),
            universes: v["universes"].as_array().unwrap_or(&vec![]).iter().map(|u| Universe {
                files: u["files"].as_array().unwrap_or(&vec![]).iter().map(file_from).collect(),
                phases: u["phases"].as_array().unwrap_or(&vec![]).iter().map(|p| {
                    let m = &p["machine"];
                    Phase {
                        put: p["put"].as_array().unwrap_or(&vec![]).iter().map(file_from).collect(),
                        swaps: p["swaps"].as_array().unwrap_or(&vec![]).iter().map(|x| (x["path"].as_str().unwrap_or("").to_string(), x["versions"].as_array().unwrap_or(&vec![]).iter().map(dec_bytes).collect())).collect(),
                        cap: p["disk_room"].as_u64().map(|x| x as usize),
                        sched: p["sched"].as_f64().unwrap_or(0.0),
                        mach: Machine { clock: m["clock"].as_u64().unwrap_or(0), rand: m["rand"].as_u64().unwrap_or(0), pid_base: m["pid_base"].as_i64().unwrap_or(1) as i32,
                            ncpu: m["ncpu"].as_u64().unwrap_or(1) as u32, mmap_shift: m["mmap_shift"].as_u64().unwrap_or(0), max_read: us(&m["max_read"]), max_write: us(&m["max_write"]),
                            pipe_cap: us(&m["pipe_cap"]) },
                        runs: p["runs"].as_array().unwrap_or(&vec![]).iter().map(|r| {
                            let c = strs_bool(&r["closed_stdio"]);
                            RunSpec { args: strs(&r["args"]), env: strs(&r["env"]), cwd: r["cwd"].as_str().unwrap_or("/").into(), closed: c, stdin: if r["stdin"].is_null() { None } else { Some(dec_bytes(&r["stdin"])) }, output: r["output"].as_str().unwrap_or("").into(),
                                ugly: r["ugly"].as_bool().unwrap_or(false), inputs: strs(&r["inputs"]),
                                cfg: FaultCfg { classes: r["faults"]["classes"].as_u64().unwrap_or(0) as u32, rate: r["faults"]["rate"].as_f64().unwrap_or(0.0),
                                    target: r["faults"]["target"].as_u64().map(|x| x as u32), max: r["faults"]["max"].as_u64().unwrap_or(0) as u32 } }
                        }).collect(),
                    }
                }).collect(),
            }).collect(),
        }
    }
}
fn strs_bool(v: &Value) -> [bool; 3] {
    let a: Vec<bool> = v.as_array().map(|a| a.iter().map(|x| x.as_bool().unwrap_or(false)).collect()).unwrap_or_default();
    [*a.first().unwrap_or(&false), *a.get(1).unwrap_or(&false), *a.get(2).unwrap_or(&false)]
}

// ------------------------------------------------------------------ carrying it out

pub struct RunRes {
    pub exit: Exit,
    pub at_end: Option<Vec<u8>>,
    pub fmts: Vec<FmtRec>,
    pub end_step: u64,
    /// contents of its inputs when the phase began; None if one of them cannot be read to the end
    pub inputs: Option<Vec<Vec<u8>>>,
    pub before: Option<Vec<u8>>,
    pub faults: u32,
    pub in_side: u32,
    pub err_faults: u32,
    pub stderr: String,
    /// processes it had started that were still running when it ended by itself
    pub orphans: u32,
    pub late: u32,
    /// injected errors (not merely transient) on pipes
    pub pipe_errs: u32,
    pub unlink_errs: u32,
}
pub struct PhaseRes {
    pub outcome: Outcome,
    pub runs: Vec<RunRes>,
    pub before: BTreeMap<String, Kind>,
    pub after: BTreeMap<String, Kind>,
    pub hits: Vec<String>,
    pub power: bool,
}
#[derive(Default, Clone)]
pub struct Stats {
    pub worlds: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub unsupported: BTreeSet<String>,
    pub eligible: u64,
    pub switches: u64,
    pub shapes: BTreeSet<u64>,
    pub commands: u64,
}
pub struct Report {
    /// [universe][phase]
    pub phases: Vec<Vec<PhaseRes>>,
    pub taken: BTreeMap<String, String>,
    pub log: Vec<String>,
    pub loghash: u64,
    pub shape: u64,
    pub touched: BTreeSet<String>,
    pub seen: BTreeSet<String>,
}

pub fn base_fs() -> Vfs {
    let mut v = Vfs::new();
    v.put("/dev/null", Kind::Null);
    v.put("/dev/full", Kind::Full);
    v.put("/dev/zero", Kind::Zero);
    v.put("/usr/bin/rustfmt", Kind::Program);
    v.put("/usr/bin/make_pluralrules", Kind::Program);
    v.mkdirs("/tmp");
    v.mkdirs("/home/user");
    v.mkdirs("/usr/local/bin");
    v.mkdirs("/work");
    v
}
fn put(v: &mut Vfs, p: &str, f: &FileSpec, fifos: &mut BTreeMap<String, (Vec<u8>, usize)>) {
    match f {
        FileSpec::Data(b) => {
            v.put(p, Kind::File(b.clone()));
        }
        FileSpec::Fifo(b, c) => {
            v.put(p, Kind::Fifo(0));
            fifos.insert(p.to_string(), (b.clone(), *c));
        }
        FileSpec::Dir => {
            v.mkdirs(p);
        }
        FileSpec::Symlink(t) => {
            v.put(p, Kind::Symlink(t.clone()));
        }
        FileSpec::Bad(b, k) => {
            let i = v.put(p, Kind::File(b.clone()));
            v.nodes[i].bad = Some(*k);
        }
    }
}
/// What reading the path to its end gives, if it can be read at all.
pub fn input_bytes(v: &Vfs, p: &str, fifos: &BTreeMap<String, (Vec<u8>, usize)>) -> Option<Vec<u8>> {
    if let Some((b, _)) = fifos.get(p) {
        return Some(b.clone());
    }
    match v.lookup("/", p, true) {
        Ok(Look { ino: Some(i), .. }) => match &v.nodes[i].kind {
            Kind::File(b) if v.nodes[i].bad.is_none() => Some(b.clone()),
            _ => None,
        },
        _ => None,
    }
}

pub fn alarm(secs: i64) {
    unsafe {
        let mut it: libc::itimerval = std::mem::zeroed();
        it.it_value.tv_sec = secs;
        it.it_interval.tv_sec = if secs > 0 { 5 } else { 0 };
        libc::setitimer(libc::ITIMER_REAL, &it, std::ptr::null_mut());
    }
}

/// `watch` names, per universe/phase/run, the paths that must keep their content at every moment.
pub fn exec(bin: &str, s: &Scenario, seed: u64, mode: Mode, keep_log: bool, stats: &mut Stats) -> Report {
    let mut rep = Report { phases: vec![], taken: BTreeMap::new(), log: vec![], loghash: 0, shape: 0, touched: BTreeSet::new(), seen: BTreeSet::new() };
    for (ui, u) in s.universes.iter().enumerate() {
        let mut fs = base_fs();
        let mut fifos = BTreeMap::new();
        for (p, f) in &u.files {
            put(&mut fs, p, f, &mut fifos);
        }
        let mut out = vec![];
        for (pi, ph) in u.phases.iter().enumerate() {
            fs.clock = ph.mach.clock;
            for (p, f) in &ph.put {
                put(&mut fs, p, f, &mut fifos);
            }
            fs.cap = ph.cap.map(|c| fs.used + c);
            let before = fs.tree();
            let mut dec = Dec::new(seed, mode.clone());
            dec.prefix = format!("u{}p{}.", ui, pi);
            let ins: Vec<Option<Vec<Vec<u8>>>> = ph.runs.iter().map(|r| r.inputs.iter().map(|p| input_bytes(&fs, p, &fifos)).collect()).collect();
            let befores: Vec<Option<Vec<u8>>> = ph.runs.iter().map(|r| fs.read(&r.output).map(|b| b.to_vec())).collect();
            let mut w = World::new(bin, fs, ph.mach.clone(), dec);
            w.keep_log = keep_log;
            w.sched_rate = ph.sched;
            let bytes: usize = before.values().map(|k| if let Kind::File(b) = k { b.len() } else { 0 }).sum::<usize>() + fifos.values().map(|f| f.0.len()).sum::<usize>();
            w.step_cap = STEP_CAP + 4 * bytes as u64;
            for (p, (b, c)) in &fifos {
                if let Ok(Look { ino: Some(i), .. }) = w.vfs.lookup("/", p, true) {
                    let q = w.add_pipe();
                    w.vfs.nodes[i].kind = Kind::Fifo(q);
                    w.add_feeder(q, b.clone(), *c);
                }
            }
            for (p, v) in &ph.swaps {
                w.add_swapper(p.clone(), v.clone());
            }
            set_watches(s, ph, &mut w, &before);
            alarm(60);
            for r in &ph.runs {
                let mut argv = vec![["make_pluralrules", "make_pluralrules", "/usr/local/bin/make_pluralrules", "./mpr"][(ph.mach.rand % 4) as usize].to_string()];
                argv.extend(r.args.iter().cloned());
                let l = Launch { argv, env: r.env.clone(), cwd: r.cwd.clone(), closed_stdio: r.closed, stdin: r.stdin.clone(), cfg: r.cfg.clone(), output: r.output.clone(), inputs: r.inputs.clone() };
                w.launch(l).expect("launch");
            }
            let outcome = w.run();
            alarm(0);
            // children of ended commands were handed to this process: collect them
            unsafe {
                let mut st = 0;
                while libc::waitpid(-1, &mut st, libc::__WALL | libc::WNOHANG) > 0 {}
            }
            stats.worlds += 1;
            stats.commands += ph.runs.len() as u64;
            stats.steps += w.step;
            stats.sim_ns += w.now - ph.mach.clock;
            stats.eligible += w.eligible;
            stats.switches += w.switches;
            for (k, n) in &w.faults {
                *stats.faults.entry(k.clone()).or_insert(0) += n;
            }
            for (k, n) in &w.probes {
                *stats.probes.entry(k.clone()).or_insert(0) += n;
            }
            stats.unsupported.extend(w.unsupported.iter().cloned());
            rep.loghash = mix(rep.loghash ^ w.loghash);
            rep.shape = mix(rep.shape ^ w.shape);
            rep.taken.extend(std::mem::take(&mut w.dec.taken));
            if keep_log {
                rep.log.push(format!("---- universe {} phase {}", ui, pi));
                rep.log.append(&mut w.log);
                rep.log.push(format!("---- {:?}", outcome));
            }
            rep.touched.extend(w.touched.iter().cloned());
            rep.seen.extend(w.seen.borrow().iter().cloned());
            let mut runs = vec![];
            for k in 0..ph.runs.len() {
                runs.push(RunRes {
                    exit: *w.exits.get(&k).unwrap_or(&Exit::Crash),
                    at_end: w.at_end.get(&k).cloned().unwrap_or(None),
                    fmts: w.fmts.iter().filter(|f| f.run == k).cloned().collect(),
                    end_step: *w.end_step.get(&k).unwrap_or(&0),
                    inputs: ins[k].clone(),
                    before: befores[k].clone(),
                    faults: w.run_faults[k],
                    in_side: w.in_side[k],
                    err_faults: w.err_faults[k],
                    orphans: *w.orphans.get(&k).unwrap_or(&0),
                    late: *w.late.get(&k).unwrap_or(&0),
                    pipe_errs: w.pipe_errs[k],
                    unlink_errs: w.unlink_errs[k],
                    stderr: String::from_utf8_lossy(&w.stdio[2 * k + 1]).chars().take(400).collect(),
                });
            }
            fs = std::mem::replace(&mut w.vfs, Vfs::new());
            let after = fs.tree();
            out.push(PhaseRes { outcome, runs, before, after, hits: w.hits.clone(), power: w.power });
        }
        rep.phases.push(out);
    }
    stats.shapes.insert(rep.shape);
    rep
}
pub const STEP_CAP: u64 = 60_000;

fn set_watches(s: &Scenario, ph: &Phase, w: &mut World, before: &BTreeMap<String, Kind>) {
    match s.prop.as_str() {
        "C02" => {
            for r in &ph.runs {
                let e = w.vfs.read(&r.output).map(|b| b.to_vec());
                w.watches.push(Watch { path: r.output.clone(), expect: e, what: "output".into() });
            }
        }
        "C05" => {
            let outs: Vec<String> = ph.runs.iter().map(|r| resolve(&w.vfs, &r.output)).collect();
            for (p, k) in before {
                if let Kind::File(b) = k {
                    if !outs.contains(p) {
                        w.watches.push(Watch { path: p.clone(), expect: Some(b.clone()), what: "file".into() });
                    }
                }
            }
        }
        _ => {}
    }
}
/// Where the path leads after following links (also dangling ones).
pub fn resolve(v: &Vfs, p: &str) -> String {
    match v.lookup("/", p, true) {
        Ok(l) => {
            let d = v.path_of(l.parent);
            let d = if l.parent == 0 { String::new() } else { d };
            format!("{}/{}", d, l.name)
        }
        Err(_) => p.to_string(),
    }
}
