//! Minimises a failing scenario and its list of choices.
use crate::dec::*;
use crate::judge;
use crate::scenario::*;
use crate::world::Machine;
use std::collections::BTreeMap;
use std::time::Instant;

pub fn shrink(bin: &str, s: Scenario, d: BTreeMap<String, String>, class: &str, secs: u64) -> (Scenario, BTreeMap<String, String>, u64) {
    let t0 = Instant::now();
    let mut tries = 0u64;
    let mut best = (s, d);
    let mut fails = |s: &Scenario, d: &BTreeMap<String, String>| -> bool {
        if t0.elapsed().as_secs() > secs {
            return false;
        }
        tries += 1;
        let mut st = Stats::default();
        let rep = exec(bin, s, 0, Mode::Replay(d.clone()), false, &mut st);
        judge::judge(s, &rep).iter().any(|v| v.class == class)
    };
    // choices: drop ever smaller groups
    let mut n = best.1.len();
    while n >= 1 {
        let keys: Vec<String> = best.1.keys().cloned().collect();
        let mut k = 0;
        let mut any = false;
        while k < keys.len() {
            let mut d = best.1.clone();
            for x in &keys[k..(k + n).min(keys.len())] {
                d.remove(x);
            }
            if d.len() < best.1.len() && fails(&best.0, &d) {
                best.1 = d;
                any = true;
            }
            k += n;
        }
        if n == 1 && !any {
            break;
        }
        n = if n == 1 { 1 } else { n / 2 };
    }
    // simpler scenario
    let mut again = true;
    while again {
        again = false;
        let mut cands: Vec<Scenario> = vec![];
        let cur = &best.0;
        for u in 0..cur.universes.len() {
            let un = &cur.universes[u];
            if cur.universes.len() > 2 {
                let mut c = cur.clone();
                c.universes.remove(u);
                cands.push(c);
            }
            for p in 0..un.phases.len() {
                let ph = &un.phases[p];
                if ph.mach != Machine::plain() {
                    let mut c = cur.clone();
                    c.universes[u].phases[p].mach = Machine::plain();
                    cands.push(c);
                }
                if ph.cap.is_some() {
                    let mut c = cur.clone();
                    c.universes[u].phases[p].cap = None;
                    cands.push(c);
                }
                if ph.runs.len() > 1 {
                    let mut c = cur.clone();
                    c.universes[u].phases[p].runs.pop();
                    cands.push(c);
                }
                for r in 0..ph.runs.len() {
                    if ph.runs[r].env.len() > 1 {
                        let mut c = cur.clone();
                        c.universes[u].phases[p].runs[r].env.retain(|e| e.starts_with("PATH="));
                        cands.push(c);
                        for e in 0..ph.runs[r].env.len() {
                            let mut c = cur.clone();
                            c.universes[u].phases[p].runs[r].env.remove(e);
                            cands.push(c);
                        }
                    }
                    if ph.runs[r].stdin != Some(vec![]) {
                        let mut c = cur.clone();
                        c.universes[u].phases[p].runs[r].stdin = Some(vec![]);
                        cands.push(c);
                    }
                    if ph.runs[r].closed != [false; 3] {
                        let mut c = cur.clone();
                        c.universes[u].phases[p].runs[r].closed = [false; 3];
                        cands.push(c);
                    }
                }
            }
            for f in 0..un.files.len() {
                if matches!(un.files[f].1, FileSpec::Dir) {
                    continue;
                }
                let mut c = cur.clone();
                c.universes[u].files.remove(f);
                cands.push(c);
            }
            for f in 0..un.files.len() {
                // what makes inputs unusable must stay in them
                if cur.prop == "C02" {
                    break;
                }
                if let FileSpec::Data(b) = &un.files[f].1 {
                    if let Some(x) = fewer_locales(b) {
                        let path = un.files[f].0.clone();
                        let old = b.clone();
                        let mut c = cur.clone();
                        // the same document may be used in several places
                        for cu in &mut c.universes {
                            for (p, g) in &mut cu.files {
                                if *p == path || *g == FileSpec::Data(old.clone()) {
                                    *g = FileSpec::Data(x.clone());
                                }
                            }
                        }
                        cands.push(c);
                    }
                }
            }
        }
        for c in cands {
            // never drop a file some run names as input: that would be another story
            let mut inputs: Vec<(usize, String)> = vec![];
            for (k, u) in c.universes.iter().enumerate() {
                for p in &u.phases {
                    for r in &p.runs {
                        for i in &r.inputs {
                            inputs.push((k, i.clone()));
                        }
                    }
                }
            }
            let had = |s: &Scenario, k: usize, p: &str| s.universes.get(k).map_or(false, |u| u.files.iter().any(|f| f.0 == p));
            if c.universes.len() == best.0.universes.len() && inputs.iter().any(|(k, i)| had(&best.0, *k, i) && !had(&c, *k, i)) {
                continue;
            }
            if fails(&c, &best.1) {
                best.0 = c;
                again = true;
                break;
            }
        }
        if t0.elapsed().as_secs() > secs {
            break;
        }
    }
    (best.0, best.1, tries)
}
fn fewer_locales(b: &[u8]) -> Option<Vec<u8>> {
    let mut v: serde_json::Value = serde_json::from_slice(b).ok()?;
    let mut cut = false;
    for t in ["plurals-type-cardinal", "plurals-type-ordinal"] {
        if let Some(o) = v["supplemental"][t].as_object_mut() {
            let keys: Vec<String> = o.keys().cloned().collect();
            if keys.len() > 1 {
                for k in &keys[keys.len() / 2..] {
                    o.remove(k);
                }
                cut = true;
            }
        }
        if v["supplemental"][t].is_null() {
            if let Some(o) = v["supplemental"].as_object_mut() {
                o.remove(t);
            }
        }
    }
    if cut {
        serde_json::to_vec(&v).ok()
    } else {
        None
    }
}
