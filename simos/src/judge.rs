//! Decides, from what an execution did, whether a property was violated.
use crate::oracle::{self, squeeze};
use crate::scenario::*;
use crate::vfs::Kind;
use crate::world::*;

#[derive(Clone, Debug)]
pub struct Violation {
    /// stable name of the kind of failure (kept by minimisation)
    pub class: String,
    pub detail: String,
}
fn v(class: &str, detail: String) -> Violation {
    Violation { class: class.into(), detail }
}
fn want(r: &RunRes) -> Option<String> {
    r.inputs.as_ref().and_then(|i| oracle::expect(i))
}
fn brief(b: &Option<Vec<u8>>) -> String {
    match b {
        None => "no file".into(),
        Some(b) => format!("{} bytes, starting {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(60)])),
    }
}
fn differ(got: &Option<Vec<u8>>, want: &[u8]) -> String {
    match got {
        None => format!("there is no output file; expected {} bytes", want.len()),
        Some(g) => {
            let p = g.iter().zip(want).position(|(a, b)| a != b).unwrap_or(g.len().min(want.len()));
            format!("{} bytes instead of {}, first difference at byte {}", g.len(), want.len(), p)
        }
    }
}
/// The exact bytes an undisturbed run leaves.
fn exact(r: &RunSpec, w: &str) -> Vec<u8> {
    if r.ugly {
        w.as_bytes().to_vec()
    } else {
        formatted(w).into_bytes()
    }
}

pub fn judge(s: &Scenario, rep: &Report) -> Vec<Violation> {
    let mut out = vec![];
    match s.prop.as_str() {
        "C01" => each(s, rep, |_, spec, _, r, out| {
            if r.exit != Exit::Code(0) {
                return;
            }
            match want(r) {
                None => out.push(v("success-on-unusable", format!("exit status 0 although the inputs are unusable; output: {}", brief(&r.at_end)))),
                Some(w) => {
                    let ok = match &r.at_end {
                        None => false,
                        Some(g) if spec.ugly => g == w.as_bytes(),
                        Some(g) => squeeze(g) == squeeze(w.as_bytes()),
                    };
                    if !ok {
                        let d = if spec.ugly { differ(&r.at_end, w.as_bytes()) } else { differ(&r.at_end.as_ref().map(|g| squeeze(g)), &squeeze(w.as_bytes())) };
                        out.push(v("success-with-wrong-output", format!("exit status 0 but the output is not the generated program: {}", d)));
                    }
                }
            }
        }, &mut out),
        "C02" => {
            let by_fault = s.kind == "input made unreadable by a fault";
            each(s, rep, |_, _, ph, r, out| {
                if by_fault {
                    if r.exit == Exit::Code(0) {
                        if let Some(w) = want(r) {
                            if r.at_end.as_ref().map(|g| squeeze(g)) != Some(squeeze(w.as_bytes())) {
                                out.push(v("success-on-unreadable", "exit status 0 although an input could not be read and the output is wrong".into()));
                            }
                        }
                    } else if r.in_side > 0 && r.in_side == r.err_faults && !ph.hits.is_empty() {
                        out.push(v("output-touched", format!("an input could not be read, yet: {}", ph.hits.join("; "))));
                    }
                    return;
                }
                if r.exit == Exit::Code(0) {
                    out.push(v("success-on-unusable", format!("exit status 0 although the inputs are unusable ({})", s.kind)));
                }
                if !ph.hits.is_empty() {
                    out.push(v("output-touched", format!("inputs unusable ({}), yet: {}", s.kind, ph.hits.join("; "))));
                }
            }, &mut out)
        }
        "C03" => {
            for (u, ps) in s.universes.iter().zip(&rep.phases) {
                if let (Some(ph), Some(pr)) = (u.phases.last(), ps.last()) {
                    for (spec, r) in ph.runs.iter().zip(&pr.runs) {
                        finished(spec, pr, r, "the clean run after the history", &mut out);
                    }
                }
            }
        }
        "C04" => each(s, rep, |_, spec, ph, r, out| finished(spec, ph, r, "a run with only transient faults", out), &mut out),
        "C05" => each(s, rep, |_, spec, ph, r, out| {
            for h in &ph.hits {
                out.push(v("bystander-changed", h.clone()));
            }
            let mut fs = crate::vfs::Vfs::new();
            for (p, k) in &ph.before {
                match k {
                    Kind::Dir(_) => {
                        fs.mkdirs(p);
                    }
                    k => {
                        fs.put(p, k.clone());
                    }
                }
            }
            let target = resolve(&fs, &spec.output);
            for (p, k) in &ph.before {
                if *p == spec.output || *p == target {
                    continue;
                }
                let same = match (k, ph.after.get(p)) {
                    (Kind::Fifo(_), Some(Kind::Fifo(_))) => true,
                    (k, Some(a)) => k == a,
                    _ => false,
                };
                if !same {
                    out.push(v("bystander-changed", format!("{} was changed or removed", p)));
                }
            }
            if matches!(r.exit, Exit::Code(_)) && ph.outcome == Outcome::Done && r.unlink_errs == 0 {
                for p in ph.after.keys() {
                    if !ph.before.contains_key(p) && *p != spec.output && *p != target {
                        out.push(v("left-behind", format!("{} was left behind by a run that ended with {:?}", p, r.exit)));
                    }
                }
            }
        }, &mut out),
        "C06" => {
            let rs: Vec<&RunRes> = rep.phases.iter().map(|p| &p[0].runs[0]).collect();
            for k in 1..rs.len() {
                let (a, b) = (rs[0], rs[k]);
                let (sa, sb) = (a.exit == Exit::Code(0), b.exit == Exit::Code(0));
                if sa != sb {
                    out.push(v("success-differs", format!("the same inputs give {:?} on one machine and {:?} on another: {}", a.exit, b.exit, b.stderr)));
                } else if sa && a.at_end != b.at_end {
                    let w = a.at_end.clone().unwrap_or_default();
                    out.push(v("output-differs", format!("the same inputs give different outputs: {}", differ(&b.at_end, &w))));
                }
            }
        }
        "C07" => each(s, rep, |_, spec, ph, r, out| {
            if spec.cfg.classes & !F_TRANSIENT == 0 {
                finished(spec, ph, r, "a run without faults of its own, next to others,", out)
            }
        }, &mut out),
        "C26" => {
            for (u, ps) in s.universes.iter().zip(&rep.phases) {
                for (ph, pr) in u.phases.iter().zip(ps) {
                    let mut want_all: Option<Vec<u8>> = None;
                    for (spec, r) in ph.runs.iter().zip(&pr.runs) {
                        let w = match want(r) {
                            Some(w) => exact(spec, &w),
                            None => return out,
                        };
                        if want_all.as_ref().map_or(false, |a| *a != w) {
                            return out; // not the same inputs
                        }
                        want_all = Some(w);
                    }
                    let mut bad = false;
                    for r in &pr.runs {
                        match (&pr.outcome, r.exit) {
                            (Outcome::Done, Exit::Code(0)) => {}
                            (o, e) => {
                                bad = true;
                                out.push(v("failure", format!("one of several runs of the same inputs into the same output ends with {:?} ({:?}): {}", e, o, r.stderr)));
                            }
                        }
                    }
                    if let (false, Some(w), Some(spec)) = (bad, want_all, ph.runs.first()) {
                        let mut fs = crate::vfs::Vfs::new();
                        for (p, k) in &pr.after {
                            match k {
                                Kind::Dir(_) => {
                                    fs.mkdirs(p);
                                }
                                k => {
                                    fs.put(p, k.clone());
                                }
                            }
                        }
                        let got = match pr.after.get(&resolve(&fs, &spec.output)) {
                            Some(Kind::File(f)) => Some(f.clone()),
                            _ => None,
                        };
                        if got.as_deref() != Some(&w[..]) {
                            out.push(v("wrong-output", format!("all runs of the same inputs into the same output succeeded, but in the end the output is wrong: {}", differ(&got, &w))));
                        }
                    }
                }
            }
        }
        "C08" => each(s, rep, |_, spec, _, r, out| {
            if spec.ugly || r.exit != Exit::Code(0) {
                return;
            }
            let w = match want(r) {
                Some(w) => w,
                None => return,
            };
            let good = r.fmts.iter().any(|f| f.ok && squeeze(&f.input) == squeeze(w.as_bytes()));
            let what: Vec<String> = r.fmts.iter().map(|f| format!("{} ({} bytes of input{})", f.outcome, f.input.len(), if f.plan.is_empty() { String::new() } else { format!(", {}", f.plan) })).collect();
            if !good {
                out.push(v("success-without-formatter", format!("exit status 0 although no formatter finished successfully on the complete program; formatter runs: [{}]", what.join(", "))));
            } else if r.at_end.as_deref() != Some(formatted(&w).as_bytes()) {
                out.push(v("output-not-formatted", format!("exit status 0 but the output is not the formatted text: {}", differ(&r.at_end, formatted(&w).as_bytes()))));
            }
        }, &mut out),
        "C22" => each(s, rep, |_, _, ph, r, out| {
            match (&ph.outcome, r.exit) {
                (Outcome::Hang(x), Exit::Crash) => out.push(v("hang", format!("the run never ends: {}", x))),
                (Outcome::StepCap, Exit::Crash) => out.push(v("no-progress", format!("the run does not end within {} steps and four for every byte of every file", STEP_CAP))),
                (Outcome::Spin, Exit::Crash) => out.push(v("spin", "the run computes without end".into())),
                (_, Exit::Code(c)) if r.orphans > 0 && r.pipe_errs == 0 && (c == 0 || r.late > 0) => out.push(v("left-running", format!("the command ended with status {} while {} process(es) it had started went on", c, r.orphans))),
                _ => {}
            }
        }, &mut out),
        "C23" => each(s, rep, |_, _, ph, r, out| {
            let failed = match r.exit {
                Exit::Code(c) => c != 0,
                Exit::Sig(_) => true,
                Exit::Crash => false,
            };
            if failed && ph.outcome == Outcome::Done && r.stderr.trim().is_empty() {
                out.push(v("silent-failure", format!("the command ended with {:?} and not a word on standard error", r.exit)));
            }
        }, &mut out),
        "C24" => {
            for (u, ps) in s.universes.iter().zip(&rep.phases) {
                for (ph, pr) in u.phases.iter().zip(ps) {
                    for (spec, r) in ph.runs.iter().zip(&pr.runs) {
                        let first = match &r.inputs {
                            Some(i) => i.clone(),
                            None => continue,
                        };
                        // every choice of one version per input
                        let mut combos: Vec<Vec<Vec<u8>>> = vec![vec![]];
                        for (k, p) in spec.inputs.iter().enumerate() {
                            let mut vs = vec![first[k].clone()];
                            for (q, more) in &ph.swaps {
                                if q == p {
                                    vs.extend(more.iter().cloned());
                                }
                            }
                            combos = combos.into_iter().flat_map(|c| vs.iter().map(move |x| [c.clone(), vec![x.clone()]].concat()).collect::<Vec<_>>()).collect();
                        }
                        let wants: Vec<Option<String>> = combos.iter().map(|c| oracle::expect(c)).collect();
                        match (&pr.outcome, r.exit) {
                            (_, Exit::Code(0)) => {
                                if !wants.iter().flatten().any(|w| r.at_end.as_deref() == Some(&exact(spec, w)[..])) {
                                    out.push(v("mixed-versions", format!("exit status 0 but the output belongs to no choice of one version per input: {}", brief(&r.at_end))));
                                }
                            }
                            (o, e) => {
                                if wants.iter().all(|w| w.is_some()) {
                                    out.push(v("failure", format!("every version of every input is usable, yet the run ends with {:?} ({:?}): {}", e, o, r.stderr)));
                                }
                            }
                        }
                    }
                }
            }
        }
        _ => {}
    }
    out
}
fn each<F: Fn(usize, &RunSpec, &PhaseRes, &RunRes, &mut Vec<Violation>)>(s: &Scenario, rep: &Report, f: F, out: &mut Vec<Violation>) {
    for (u, ps) in s.universes.iter().zip(&rep.phases) {
        for (k, (ph, pr)) in u.phases.iter().zip(ps).enumerate() {
            for (spec, r) in ph.runs.iter().zip(&pr.runs) {
                f(k, spec, pr, r, out);
            }
        }
    }
}
fn finished(spec: &RunSpec, ph: &PhaseRes, r: &RunRes, who: &str, out: &mut Vec<Violation>) {
    let w = match want(r) {
        Some(w) => w,
        None => return,
    };
    match (&ph.outcome, r.exit) {
        (Outcome::Hang(x), Exit::Crash) => out.push(v("hang", format!("{} never ends: {}", who, x))),
        (Outcome::StepCap, Exit::Crash) => out.push(v("no-progress", format!("{} does not end within {} steps and four for every byte of every file", who, STEP_CAP))),
        (Outcome::Spin, Exit::Crash) => out.push(v("spin", format!("{} computes without end", who))),
        (_, Exit::Code(0)) => {
            let e = exact(spec, &w);
            if r.at_end.as_deref() != Some(&e[..]) {
                out.push(v("wrong-output", format!("{} ends with status 0 but the output is wrong: {}", who, differ(&r.at_end, &e))));
            }
        }
        (_, e) => out.push(v("failure", format!("{} ends with {:?}: {}", who, e, r.stderr))),
    }
}
