//! Seeded histories, one generator per property.
use crate::dec::*;
use crate::docs::{self, Has};
use crate::ops::*;
use crate::run::*;

const BASES: &[u64] = &[
    0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 31, 40, 50, 60, 70, 71, 80, 81, 90, 91, 99, 100, 101, 102, 103, 104, 111, 112, 113, 200, 256, 257, 1000, 1001, 1002, 1_000_000,
    1_000_001, 100_000, 65_536, 65_537, 4_294_967_296, 4_294_967_297, 9_007_199_254_740_992, 9_007_199_254_740_993, 1_000_000_000_000_000,
];
const BAD: &[&str] = &["", "-", "abc", "1,5", "1.", ".5", "1..2", "NaN", "inf", "-inf", "1e3", "1e400", "0x10", " 1", "1 ", "+1", "--1", "1.2.3", "१", "1_000", "99999999999999999999", "1.99999999999999999999", "18446744073709551616.5", "18446744073709551615"];

fn num(r: &mut Rng) -> Num {
    let b = if r.chance(1, 12) { r.next() >> r.below(64) } else { *r.pick(BASES) };
    near(r, b)
}
/// One of many ways to write (nearly) the same number.
fn near(r: &mut Rng, b: u64) -> Num {
    match r.below(26) {
        24 => {
            // the same value in the same number of characters
            let mut z = 1 + r.below(4) as usize;
            let frac = *r.pick(&["", ".5", ".25", ".05"]);
            let lead = r.below(z as u64 + 1) as usize;
            z -= lead;
            let tail = if z == 0 { String::new() } else if frac.is_empty() { format!(".{}", "0".repeat(z - 1)) } else { "0".repeat(z) };
            Num::Str(format!("{}{}{}{}", "0".repeat(lead), b, frac, tail))
        }
        25 => {
            // values a floating-point number cannot tell apart
            let n = *r.pick(&[17usize, 18, 19, 20]);
            Num::Str(format!("{}.{}{}", b, "0".repeat(n), r.below(10)))
        }
        0 => Num::I8(b as i8),
        1 => Num::I16(b as i16),
        2 | 3 => Num::I32(b as i32),
        4 => Num::I64(b as i64),
        5 => Num::Isize(-(b as i64 & i64::MAX)),
        6 => Num::U8(b as u8),
        7 => Num::U16(b as u16),
        8 => Num::U32(b as u32),
        9 => Num::U64(b),
        10 => Num::Usize(b),
        11 => Num::F32((b as f32).to_bits()),
        12 => Num::F64((b as f64).to_bits()),
        13 => Num::F64((b as f64 + *r.pick(&[0.1, 0.5, 0.25, 0.01, 0.000001])).to_bits()),
        14 => Num::Str(format!("{}", b)),
        15 => Num::Str(format!("{}.0", b)),
        16 => Num::Str(format!("{}.00", b)),
        17 => Num::Str(format!("{}.{}", b, r.below(100))),
        18 => Num::Owned(format!("{}.{}0", b, r.below(10))),
        19 => Num::Owned(format!("-{}", b)),
        20 => Num::Str(format!("{}{}", "0".repeat(*r.pick(&[1usize, 1, 2, 5, 12, 20, 40, 300])), b)),
        21 => Num::Str(r.pick(BAD).to_string()),
        22 => Num::I64(*r.pick(&[i64::MIN, i64::MAX, -1, -2, i64::MIN + 1])),
        _ => Num::Owned(format!("{}.{:0>width$}", b, r.below(10), width = if r.chance(1, 3) { *r.pick(&[18usize, 19, 20, 21, 25, 33, 64, 300]) } else { 1 + r.below(20) as usize })),
    }
}
const FAMILIES: &[&[&str]] = &[
    &["pt", "pt-PT", "pt-BR", "pt-Latn-PT"],
    &["en", "en-US", "en-GB", "eng"],
    &["sr", "sh", "hr", "bs"],
    &["pl", "ru", "uk", "be"],
    &["ar", "ars", "he", "iw"],
    &["fil", "tl", "ceb"],
    &["zh", "yue", "ja", "zh-Hant"],
    &["fr", "ff", "hy", "kab"],
    &["ga", "gd", "gv", "br", "cy", "kw"],
    &["xx", "und", "zz-ZZ", "root"],
    &["lt", "lv", "prg", "sl", "dsb", "hsb"],
    &["it", "sc", "scn", "sv", "ca", "mk", "az", "ka", "sq", "ne", "mr"],
    &["naq", "smi", "se", "sma", "iu", "kw"],
    &["ca", "ca-valencia", "ca-ES", "ca-ES-valencia"],
    &["de", "de-1996", "de-1901", "de-CH", "sl", "sl-nedis"],
    &["sr", "sr-Latn", "sr-Cyrl", "sr-Latn-RS", "en-GB-oxendict", "en"],
    &["shi", "lag", "ksh", "mt", "mo", "ro"],
];
fn slots(r: &mut Rng, n: usize, all: &[String]) -> Vec<Slot> {
    let mut v = vec![];
    let fam = *r.pick(FAMILIES);
    let focus = r.below(3);
    for _ in 0..n {
        let loc = match focus {
            0 => r.pick(fam).to_string(),
            1 => all[r.below(all.len() as u64) as usize].clone(),
            _ => {
                let f = *r.pick(FAMILIES);
                r.pick(f).to_string()
            }
        };
        v.push(Slot { loc, ord: r.chance(1, 2) });
    }
    // some slots hold the same kind of object, so that clones can be made
    for k in 1..n {
        if r.chance(1, 4) {
            v[k] = v[r.below(k as u64) as usize].clone();
        }
    }
    // the same locale for both rule types
    if n > 2 && r.chance(1, 2) {
        v[1] = Slot { loc: v[0].loc.clone(), ord: !v[0].ord };
    }
    v
}
struct Intl {
    slots: Vec<Slot>,
    nums: Vec<Num>,
    faulty: bool,
}
impl Intl {
    fn cb(&self, r: &mut Rng, depth: u32) -> Cb {
        if !self.faulty {
            return match r.below(16) {
                0 | 1 => Cb::Own,
                2 => Cb::Await(1 + r.below(4) as usize),
                3 if depth < 1 => Cb::Enter(vec![self.op(r, depth + 1)]),
                _ => Cb::No,
            };
        }
        match r.below(13) {
            6 => Cb::Await(1 + r.below(3) as usize),
            0 => Cb::Own,
            1 => Cb::Fail,
            2 => Cb::Panic,
            3 | 4 if depth < 2 => Cb::Enter((0..1 + r.below(3)).map(|_| self.op(r, depth + 1)).collect()),
            5 if depth < 2 => Cb::EnterPanic((0..1 + r.below(3)).map(|_| self.op(r, depth + 1)).collect()),
            _ => Cb::No,
        }
    }
    fn op(&self, r: &mut Rng, depth: u32) -> Op {
        let slot = r.below(self.slots.len() as u64) as usize;
        match r.below(20) {
            0 | 1 | 2 => {
                let cb = match self.cb(r, depth) {
                    Cb::Fail => Cb::Panic,
                    c => c,
                };
                Op::New { slot, cb }
            }
            3 => {
                let same: Vec<usize> = (0..self.slots.len()).filter(|&k| self.slots[k] == self.slots[slot]).collect();
                Op::Clone { from: slot, to: *r.pick(&same) }
            }
            4 => Op::Drop { slot },
            5 => Op::Loc { slot },
            6 => {
                if r.chance(1, 3) {
                    Op::List { ord: r.chance(1, 2) }
                } else {
                    Op::Loc { slot }
                }
            }
            7 | 8 => Op::Ops { num: self.num(r) },
            9 if self.faulty => match r.below(4) {
                0 => Op::Clock { secs: *r.pick(&[1, 60, 3600, 86_400, 400_000_000, -1, -3600, -400_000_000]) },
                1 => Op::Env { seed: r.below(1000) },
                _ => Op::Yield,
            },
            _ => {
                let cb = self.cb(r, depth);
                Op::Sel { slot, num: self.num(r), cb }
            }
        }
    }
    /// A call with the given conduct of the caller's conversion.
    fn with(&self, r: &mut Rng, cb: Cb) -> Op {
        let slot = r.below(self.slots.len() as u64) as usize;
        if r.chance(1, 4) {
            Op::New { slot, cb }
        } else {
            Op::Sel { slot, num: self.num(r), cb }
        }
    }
    fn num(&self, r: &mut Rng) -> Num {
        self.nums[r.below(self.nums.len() as u64) as usize].clone()
    }
}
fn strat(r: &mut Rng, nthr: usize) -> Strat {
    if nthr == 0 {
        return Strat { kind: 0, p_inv: 1, d: 0, horizon: 1, spurious_inv: 0, weak_inv: 0 };
    }
    let spurious_inv = *r.pick(&[0u32, 0, 2, 5]);
    let weak_inv = *r.pick(&[0u32, 0, 2, 3, 10]);
    match r.below(10) {
        0 | 1 => Strat { kind: 1, p_inv: *r.pick(&[2u32, 10, 100, 1000]), d: 0, horizon: 1, spurious_inv, weak_inv },
        2..=5 => Strat { kind: 2, p_inv: *r.pick(&[1u32, 2, 2, 4, 20]), d: 0, horizon: 1, spurious_inv, weak_inv },
        6 | 7 => Strat { kind: 3, p_inv: 1, d: 1 + r.below(6) as i32, horizon: *r.pick(&[500u64, 3000, 20_000, 100_000]), spurious_inv, weak_inv },
        _ => Strat { kind: 4, p_inv: 1, d: 1 + r.below(6) as i32, horizon: *r.pick(&[20u64, 100, 500, 3000]), spurious_inv, weak_inv },
    }
}
fn blank(prop: &str, kind: &str, r: &mut Rng) -> Scenario {
    Scenario {
        prop: prop.into(), kind: kind.into(), slots: vec![], docs: vec![], pre: vec![], threads: vec![], post: vec![], strat: strat(r, 0),
        clock: 1_000_000_000 * *r.pick(&[1u64, 1_000_000_000, 1_600_000_000, 1_700_000_000, 4_000_000_000, 9_000_000_000]) + r.below(1_000_000_000), rnd: r.next(), env: if r.chance(1, 2) { 0 } else { 1 + r.below(1000) }, reuse: r.below(3),
    }
}
/// Every slot asked a few questions: all objects, old and new, must still answer as in a fresh process.
fn audit(w: &Intl, r: &mut Rng) -> Vec<Op> {
    let mut v = vec![];
    for slot in 0..w.slots.len() {
        v.push(Op::Loc { slot });
        for _ in 0..2 {
            v.push(Op::Sel { slot, num: w.num(r), cb: Cb::No });
        }
    }
    v.push(Op::Ops { num: w.num(r) });
    v.push(Op::New { slot: r.below(w.slots.len() as u64) as usize, cb: Cb::No });
    v
}
/// The k-th number of the pool of this base seed; neighbours in the pool write nearly the same number.
fn pooled(base: u64, k: u64) -> Num {
    let mut r = Rng::new(mix(base ^ 0x6e75) ^ k);
    if k % 16 == 0 {
        return num(&mut r);
    }
    let mut g = Rng::new(mix(base ^ 0x6772) ^ (k / 16));
    let b = *g.pick(BASES);
    near(&mut r, b)
}
const POOL: u64 = 320;
/// Every locale there is, and some there are not: tables and caches of whatever size fill up.
fn sweep(s: &mut Scenario, r: &mut Rng, base: u64, all: &[String]) {
    s.kind = "all locales".into();
    let mut v: Vec<Op> = vec![];
    let common = |k: u64| match k {
        0..=12 => Num::I32(k as i32),
        13 => Num::Str("1.0".into()),
        14 => Num::Str("0.0".into()),
        15 => Num::F64(1.5f64.to_bits()),
        16 => Num::I32(20),
        17 => Num::I32(100),
        18 => Num::I32(21),
        _ => Num::I32(1_000_000),
    };
    let nums: Vec<Num> = (0..1 + r.below(3)).map(|_| if r.chance(1, 2) { common(r.below(20)) } else { pooled(base, r.below(12)) }).collect();
    let keep = r.chance(1, 3);
    let mut names: Vec<String> = all.to_vec();
    names.extend(["xx", "en-US", "zz-Latn", "pt-BR", "und"].iter().map(|s| s.to_string()));
    for l in &names {
        for ord in [false, true] {
            if r.chance(9, 10) {
                v.push(Op::Make { loc: l.clone(), ord, num: r.pick(&nums).clone(), keep });
            }
        }
    }
    let n = v.len();
    if r.chance(3, 4) {
        for j in (1..n).rev() {
            v.swap(j, r.below(j as u64 + 1) as usize);
        }
    }
    if r.chance(1, 3) {
        // and all of them again
        let all = v.clone();
        v.extend(all);
    }
    for _ in 0..r.below(80) {
        let o = v[r.below(n as u64) as usize].clone();
        v.push(o);
    }
    if r.chance(1, 3) {
        let nt = 2 + r.below(2) as usize;
        s.threads = vec![vec![]; nt];
        for o in v {
            let t = r.below(nt as u64) as usize;
            s.threads[t].push(o);
        }
        s.strat = strat(r, nt);
    } else {
        s.pre.extend(v);
    }
}
/// Many threads which are all inside a call at the same time: each waits, in its own conversion, for the next one to end.
fn crowd(s: &mut Scenario, r: &mut Rng, mut op: impl FnMut(&mut Rng, Cb) -> Op) {
    s.kind = "many calls at once".into();
    let nt = *r.pick(&[6usize, 9, 12, 17, 20, 33, 40, 50]);
    for t in 0..nt {
        let mut v = vec![];
        if r.chance(1, 3) {
            v.push(op(r, Cb::No));
        }
        if t + 1 < nt {
            v.push(op(r, Cb::Await(t + 1)));
        } else {
            for _ in 0..1 + r.below(3) {
                v.push(op(r, Cb::Own));
            }
        }
        if r.chance(1, 3) {
            v.push(op(r, Cb::No));
        }
        s.threads.push(v);
    }
    s.strat = strat(r, nt);
}
/// A call within a call within a call ...
fn deep(r: &mut Rng, faulty: bool, op: &mut dyn FnMut(&mut Rng, Cb) -> Op) -> Op {
    let mut o = op(r, Cb::Own);
    let most = if r.chance(1, 3) { 18 } else { 5 };
    for _ in 0..3 + r.below(most) {
        let mut v = vec![o];
        if r.chance(1, 5) {
            v.push(op(r, Cb::No));
        }
        let cb = if faulty && r.chance(1, 6) { Cb::EnterPanic(v) } else { Cb::Enter(v) };
        o = op(r, cb);
    }
    o
}
fn intl(prop: &str, r: &mut Rng, base: u64, all: &[String]) -> Scenario {
    let faulty = prop == "C10";
    let long = prop == "C10" && r.chance(1, 4) || r.chance(1, 60);
    let nslots = 1 + r.below(if long { 20 } else { 6 }) as usize;
    let sl = slots(r, nslots, all);
    let nn = if long { *r.pick(&[5u64, 40, 400]) } else { 1 + r.below(8) };
    let mut nums = vec![];
    let group = r.below(POOL / 16) * 16;
    let close = r.chance(1, 2);
    for _ in 0..nn {
        nums.push(pooled(base, if close { group + r.below(16) } else { r.below(POOL) }));
    }
    let w = Intl { slots: sl.clone(), nums, faulty };
    let mut s = blank(prop, "", r);
    s.slots = sl;
    if r.chance(1, 50) {
        for _ in 0..r.below(4) {
            s.pre.push(w.op(r, 0));
        }
        sweep(&mut s, r, base, all);
    } else if r.chance(1, if faulty { 60 } else { 30 }) {
        crowd(&mut s, r, |r, cb| w.with(r, cb));
    } else if r.chance(1, 30) {
        s.kind = "calls within calls".into();
        let nt = r.below(3);
        for _ in 0..1 + r.below(4) {
            let o = deep(r, faulty, &mut |r, cb| w.with(r, cb));
            s.pre.push(o);
        }
        for _ in 0..nt {
            let o = deep(r, faulty, &mut |r, cb| w.with(r, cb));
            s.threads.push(vec![o]);
        }
        s.strat = strat(r, nt as usize);
    } else if r.chance(1, 50) {
        s.kind = "many objects alive".into();
        let n = if r.chance(1, 12) { 66_000 } else { *r.pick(&[70u32, 300, 1100, 1100, 5000]) };
        let mut ops = vec![];
        for _ in 0..1 + r.below(2) {
            let sl = r.pick(&w.slots).clone();
            ops.push(Op::Make { loc: sl.loc, ord: sl.ord, num: w.num(r), keep: true });
        }
        s.pre.push(Op::Rep { n, ops });
        for _ in 0..r.below(10) {
            s.pre.push(w.op(r, 0));
        }
    } else if long {
        s.kind = "long history".into();
        let n = *r.pick(&[50u64, 200, 600, 1500]);
        for _ in 0..n {
            s.pre.push(w.op(r, 0));
        }
        if r.chance(1, 3) {
            let n = *r.pick(&[130u32, 300, 1100, 5000]);
            let k = 1 + r.below(3);
            let ops = (0..k).map(|_| w.op(r, 1)).collect();
            s.pre.push(Op::Rep { n, ops });
            s.kind = "many repetitions".into();
        }
        if r.chance(1, 60) {
            let (n, op) = match r.below(6) {
                0 => (70_000, Op::New { slot: 0, cb: Cb::No }),
                1 => (70_000, Op::Ops { num: w.num(r) }),
                2 => (3_000, Op::List { ord: r.chance(1, 2) }),
                _ => (70_000, Op::Sel { slot: 0, num: w.num(r), cb: Cb::No }),
            };
            s.pre.push(Op::Rep { n, ops: vec![op] });
            s.kind = "very many repetitions".into();
        }
    } else if r.chance(1, 40) {
        s.kind = "generations of threads".into();
        let n = *r.pick(&[20u32, 70, 300]);
        let k = 1 + r.below(4);
        let ops = (0..k).map(|_| w.op(r, 1)).collect();
        s.pre.push(Op::Rep { n, ops: vec![Op::Spawn { ops }] });
    } else {
        s.kind = "threads".into();
        if r.chance(1, 2) {
            for _ in 0..r.below(6) {
                s.pre.push(w.op(r, 0));
            }
        }
        let nt = if prop == "C10" { 1 + r.below(3) } else { 2 + r.below(4) };
        let long = r.chance(1, 4);
        let len = 1 + r.below(if long { 30 } else { 6 });
        let same = r.chance(1, 3);
        for t in 0..nt {
            let mut v = vec![];
            for k in 0..1 + r.below(len) {
                if same && t > 0 && (k as usize) < s.threads[0].len() {
                    // several threads ask the same things: first use and cache races
                    let o: Op = s.threads[0][k as usize].clone();
                    v.push(if r.chance(3, 4) { o } else { w.op(r, 0) });
                } else {
                    v.push(w.op(r, 0));
                }
            }
            s.threads.push(v);
        }
        s.strat = strat(r, nt as usize);
    }
    s.post = audit(&w, r);
    s
}

// ---------------------------------------------------------------- parser

fn text(r: &mut Rng, hist: &[String]) -> String {
    let real = ["n = 1", "i = 1 and v = 0", "v = 0 and i % 10 = 2..4 and i % 100 != 12..14", "n % 10 = 1 and n % 100 != 11,71,91", "n is 1", "n in 0..1", "i = 0,1", "n % 100 = 3..10", "n mod 10 is not 5", "n within 0..2 and n is not 2",
        "v != 0 or n = 0 or n != 1 and n % 100 = 1..19", "t != 0 and i = 0,1", "n = 0..1 or n = 11..99 @integer 0, 1, 11~24 @decimal 0.0, 1.0, 11.0", "@integer 1~3", "", " "];
    match r.below(10) {
        0 if r.chance(1, 6) => {
            // a long one
            let n = *r.pick(&[6u64, 20, 60]);
            (0..n).map(|_| docs::condition(r).split(" @").next().unwrap_or("").to_string()).collect::<Vec<_>>().join(" or ")
        }
        0..=3 => docs::condition(r),
        4 | 5 => r.pick(&real).to_string(),
        _ => {
            let base = if !hist.is_empty() && r.chance(2, 3) { hist[r.below(hist.len() as u64) as usize].clone() } else { docs::condition(r) };
            let cs: Vec<char> = base.chars().collect();
            let n = cs.len() as u64;
            let at = r.below(n + 1) as usize;
            let j = *r.pick(&["=", "!=", "..", ",", "and", "or", " ", "n", "@", "~", "99999999999999999999999", "0", "9", "x", "é", "%", "-", "…", "not", "(", "\n"]);
            let cut = |a: usize, b: usize| cs[a..b].iter().collect::<String>();
            match r.below(8) {
                0 => cut(0, at),
                1 => format!("{}{}{}", cut(0, at), j, cut(at, cs.len())),
                2 if at < cs.len() => format!("{}{}", cut(0, at), cut(at + 1, cs.len())),
                3 => base.replacen(' ', "  ", 1),
                4 => base.replacen('=', "!=", 1),
                5 => format!("{} or {}", base, base),
                6 if at < cs.len() => format!("{}{}{}", cut(0, at), j, cut(at + 1, cs.len())),
                _ => {
                    // another number of the same length
                    let mut v = cs.clone();
                    let d: Vec<usize> = (0..v.len()).filter(|&k| v[k].is_ascii_digit()).collect();
                    if !d.is_empty() {
                        v[*r.pick(&d)] = (b'0' + r.below(10) as u8) as char;
                    }
                    v.into_iter().collect()
                }
            }
        }
    }
}
fn pcb(r: &mut Rng, pool: &[String], depth: u32) -> Cb {
    match r.below(13) {
        5 => Cb::Await(1 + r.below(3) as usize),
        0 => Cb::Own,
        1 => Cb::Panic,
        2 | 3 if depth < 2 => Cb::Enter((0..1 + r.below(3)).map(|_| pop(r, pool, depth + 1)).collect()),
        4 if depth < 2 => Cb::EnterPanic((0..1 + r.below(3)).map(|_| pop(r, pool, depth + 1)).collect()),
        _ => Cb::No,
    }
}
fn pop(r: &mut Rng, pool: &[String], depth: u32) -> Op {
    let t = pool[r.below(pool.len() as u64) as usize].clone();
    if r.chance(1, 25) {
        return match r.below(3) {
            0 => Op::Clock { secs: *r.pick(&[1, 3600, 400_000_000, -1, -3600, -400_000_000]) },
            1 => Op::Env { seed: r.below(1000) },
            _ => Op::Yield,
        };
    }
    let cb = pcb(r, pool, depth);
    Op::Parse { text: t, cond: r.chance(1, 3), cb }
}
fn pwith(r: &mut Rng, pool: &[String], cb: Cb) -> Op {
    Op::Parse { text: pool[r.below(pool.len() as u64) as usize].clone(), cond: r.chance(1, 3), cb }
}
/// A group of texts of the pool of this base seed, each a variation of earlier ones.
fn texts(base: u64, group: u64) -> Vec<String> {
    let mut r = Rng::new(mix(base ^ 0x7478) ^ group);
    let mut v = vec![];
    for _ in 0..8 {
        let t = text(&mut r, &v);
        v.push(t);
    }
    v
}
fn parser(r: &mut Rng, base: u64) -> Scenario {
    let mut s = blank("C11", "", r);
    let long = r.chance(1, 8);
    let np = if long { *r.pick(&[10u64, 60, 300]) } else { 1 + r.below(6) };
    let mut pool: Vec<String> = vec![];
    while (pool.len() as u64) < np {
        pool.extend(texts(base, r.below(400)));
    }
    while pool.len() as u64 > np {
        let k = r.below(pool.len() as u64) as usize;
        pool.swap_remove(k);
    }
    if r.chance(1, 60) {
        // more texts than any cache would hold
        s.kind = "many texts".into();
        let n = *r.pick(&[40u64, 140, 300]);
        let mut v: Vec<String> = (0..n).flat_map(|g| texts(base, g)).collect();
        if r.chance(1, 2) {
            for j in (1..v.len()).rev() {
                v.swap(j, r.below(j as u64 + 1) as usize);
            }
        }
        let cond = r.below(3);
        for t in v {
            s.pre.push(Op::Parse { text: t, cond: cond == 1 || cond == 2 && r.chance(1, 2), cb: Cb::No });
        }
        for _ in 0..30 {
            let o = s.pre[r.below(s.pre.len() as u64) as usize].clone();
            s.pre.push(o);
        }
    } else if r.chance(1, 60) {
        crowd(&mut s, r, |r, cb| pwith(r, &pool, cb));
    } else if r.chance(1, 30) {
        s.kind = "calls within calls".into();
        let nt = r.below(3);
        for _ in 0..1 + r.below(4) {
            let o = deep(r, true, &mut |r, cb| pwith(r, &pool, cb));
            s.pre.push(o);
        }
        for _ in 0..nt {
            let o = deep(r, true, &mut |r, cb| pwith(r, &pool, cb));
            s.threads.push(vec![o]);
        }
        s.strat = strat(r, nt as usize);
    } else if long {
        s.kind = "long history".into();
        for _ in 0..*r.pick(&[30u64, 100, 400]) {
            s.pre.push(pop(r, &pool, 0));
        }
        if r.chance(1, 4) {
            let k = 1 + r.below(2);
            let ops: Vec<Op> = (0..k).map(|_| pop(r, &pool, 1)).collect();
            // a bounded amount of work, far from what counts as a hang
            let len = ops.iter().map(|o| format!("{:?}", o).len()).sum::<usize>();
            s.pre.push(Op::Rep { n: (*r.pick(&[130u32, 300, 300, 1100, 1100, 5000])).min((300_000 / len.max(1)) as u32), ops });
            s.kind = "many repetitions".into();
        }
        if r.chance(1, 70) {
            let text = *r.pick(&["n = 1", "n = 1", "n = 0..1 @integer 0, 1", "i = 1 and v = 0", "n mod 10 is not 5", "n = 1 @decimal 1.0, …", "n =", "x = 1", "n = 1 or", "@integer 1"]);
            s.pre.push(Op::Rep { n: if text.len() < 9 { 66_000 } else { 20_000 }, ops: vec![Op::Parse { text: text.into(), cond: r.chance(1, 2), cb: Cb::No }] });
            s.kind = "very many repetitions".into();
        }
    } else if r.chance(1, 40) {
        s.kind = "generations of threads".into();
        let k = 1 + r.below(3);
        let ops = (0..k).map(|_| pop(r, &pool, 1)).collect();
        s.pre.push(Op::Rep { n: *r.pick(&[20u32, 70, 200]), ops: vec![Op::Spawn { ops }] });
    } else {
        s.kind = "threads".into();
        for _ in 0..r.below(4) {
            s.pre.push(pop(r, &pool, 0));
        }
        let nt = 2 + r.below(3);
        let same = r.chance(1, 3);
        for t in 0..nt {
            let mut v = vec![];
            for k in 0..1 + r.below(6) as usize {
                let o = if same && t > 0 && k < s.threads[0].len() { s.threads[0][k].clone() } else { pop(r, &pool, 0) };
                v.push(o);
            }
            s.threads.push(v);
        }
        s.strat = strat(r, nt as usize);
        if s.strat.horizon == 500 {
            s.strat.horizon = 30_000;
        }
    }
    for t in &pool {
        if s.post.len() < 12 {
            s.post.push(Op::Parse { text: t.clone(), cond: r.chance(1, 3), cb: Cb::No });
        }
    }
    s
}

// ---------------------------------------------------------------- generator

fn docs_pool(r: &mut Rng) -> Vec<String> {
    let ver = *r.pick(&["37", "36", "33"]);
    let size = 1 + r.below(2);
    let mut v: Vec<String> = vec![];
    let mut add = |b: Vec<u8>| v.push(String::from_utf8(b).unwrap_or_default());
    add(docs::doc(r, ver, Has::Card, size));
    add(docs::doc(r, ver, Has::Ord, size));
    add(docs::doc(r, ver, Has::Both, size));
    add(docs::doc(r, ver, Has::Card, 1));
    // the ways to be rejected, at different points of the generation
    let mut bad: Vec<Vec<u8>> = vec![
        docs::doc(r, "35", Has::Ord, size),
        docs::doc(r, ver, Has::Nothing, 0),
        b"{".to_vec(),
        b"".to_vec(),
        format!("{{\"supplemental\":{{\"version\":{{\"_cldrVersion\":\"{}\",\"_unicodeVersion\":\"9\"}},\"plurals-type-cardinal\":{{\"pl\":{{\"pluralRule-count-one\":\"n = 1\"}},\"not a locale!\":{{\"pluralRule-count-one\":\"n = 1\"}}}}}}}}", ver).into_bytes(),
        format!("{{\"supplemental\":{{\"version\":{{\"_cldrVersion\":\"{}\",\"_unicodeVersion\":\"9\"}},\"plurals-type-cardinal\":{{\"pl\":{{\"pluralRule-count-one\":\"n = 1\",\"pluralRule-count-few\":\"??\"}}}}}}}}", ver).into_bytes(),
        format!("{{\"supplemental\":{{\"version\":{{\"_cldrVersion\":\"{}\",\"_unicodeVersion\":\"9\"}},\"plurals-type-ordinal\":{{\"pl\":{{\"pluralRule\":\"n = 1\"}}}}}}}}", ver).into_bytes(),
        format!("{{\"supplemental\":{{\"version\":{{\"_cldrVersion\":\"{}\",\"_unicodeVersion\":\"9\"}},\"plurals-type-cardinal\":{{\"pl\":{{\"pluralRule-count-one\":\"n within 3\"}}}}}}}}", ver).into_bytes(),
        format!("{{\"supplemental\":{{\"version\":{{\"_cldrVersion\":\"{}\",\"_unicodeVersion\":\"9\"}},\"plurals-type-cardinal\":{{\"pl\":{{\"pluralRule-count-one\":\"i = 1\"}}}}}}}}", "abc").into_bytes(),
        format!("{{\"supplemental\":{{\"version\":{{\"_cldrVersion\":\"{}\",\"_unicodeVersion\":\"9\"}},\"plurals-type-ordinal\":{{\"pl\":{{\"pluralRule-count-several\":\"n = 1\"}}}}}}}}", ver).into_bytes(),
        format!("{{\"supplemental\":{{\"version\":{{\"_cldrVersion\":\"{}\",\"_unicodeVersion\":\"9\"}},\"plurals-type-cardinal\":{{\"pl\":{{\"pluralRule-count-one\":\"n =\"}}}}}}}}", ver).into_bytes(),
        format!("{{\"supplemental\":{{\"version\":{{\"_cldrVersion\":\"{}\",\"_unicodeVersion\":\"9\"}},\"plurals-type-cardinal\":{{\"pl\":{{\"pluralRule-count-few\":\"i = 1 and\"}}}}}}}}", ver).into_bytes(),
        format!("{{\"supplemental\":{{\"version\":{{\"_cldrVersion\":\"{}\",\"_unicodeVersion\":\"9\"}},\"plurals-type-ordinal\":{{\"pl\":{{\"pluralRule-count-one\":\"n = 99999999999999999999999\"}}}}}}}}", ver).into_bytes(),
        format!("{{\"supplemental\":{{\"version\":{{\"_cldrVersion\":\"{}\",\"_unicodeVersion\":\"9\"}},\"plurals-type-cardinal\":{{\"pl\":{{\"pluralRule-count-one\":\"\"}}}}}}}}", ver).into_bytes(),
        format!("{{\"supplemental\":{{\"version\":{{\"_unicodeVersion\":\"9\"}},\"plurals-type-cardinal\":{{\"pl\":{{\"pluralRule-count-one\":\"i = 1\"}}}}}}}}").into_bytes(),
    ];
    for _ in 0..3 {
        let k = r.below(bad.len() as u64) as usize;
        add(bad.remove(k));
    }
    // nearly the same document: one digit of a rule, or another version
    let b = v[0].clone();
    let p = b.rfind(" = ").or(b.rfind("!= ")).unwrap_or(0);
    let mut t: Vec<char> = b.chars().collect();
    let _ = p;
    let d: Vec<usize> = (0..t.len()).filter(|&k| t[k].is_ascii_digit()).collect();
    if !d.is_empty() {
        t[*r.pick(&d)] = (b'1' + r.below(9) as u8) as char;
    }
    v.push(t.into_iter().collect());
    v
}
fn gop(r: &mut Rng, n: usize) -> Op {
    if r.chance(1, 25) {
        return match r.below(3) {
            0 => Op::Clock { secs: *r.pick(&[1, 3600, 400_000_000, -1, -3600, -400_000_000]) },
            1 => Op::Env { seed: r.below(1000) },
            _ => Op::Yield,
        };
    }
    let k = *r.pick(&[1u64, 1, 1, 2, 2, 2, 3, 0]);
    Op::Gen { docs: (0..k).map(|_| r.below(n as u64) as usize).collect() }
}
fn generator(r: &mut Rng, base: u64) -> Scenario {
    let mut s = blank("C12", "", r);
    s.docs = docs_pool(&mut Rng::new(mix(base ^ 0x646f) ^ r.below(100)));
    let n = s.docs.len();
    if r.chance(1, 40) {
        // more locales and rules than any cache would hold
        s.kind = "many locales".into();
        let k = 2 + r.below(4);
        for d in 0..k {
            let mut t: Vec<String> = vec![];
            for j in 0..*r.pick(&[40u64, 90, 120]) {
                let x = d * 120 + j;
                let l = format!("{}{}{}", (b'b' + (x / 26 % 24) as u8) as char, (b'a' + (x % 26) as u8) as char, r.pick(&["x", "x", "x-Latn"]));
                t.push(format!("\"{}\":{{\"pluralRule-count-one\":\"n = {}\"}}", l, if r.chance(1, 2) { 1 } else { x }));
            }
            s.docs.push(format!("{{\"supplemental\":{{\"version\":{{\"_cldrVersion\":\"37\",\"_unicodeVersion\":\"9\"}},\"plurals-type-{}\":{{{}}}}}}}", *r.pick(&["cardinal", "ordinal"]), t.join(",")));
            s.pre.push(Op::Gen { docs: vec![n + d as usize] });
            if r.chance(1, 2) {
                s.pre.push(gop(r, n));
            }
        }
        s.pre.push(Op::Gen { docs: vec![n] });
    } else if r.chance(1, 4) {
        s.kind = "long history".into();
        for _ in 0..5 + r.below(30) {
            s.pre.push(gop(r, n));
        }
        if r.chance(1, 10) {
            let small = r.chance(1, 6);
            s.pre.push(if small { Op::Rep { n: 400, ops: vec![Op::Gen { docs: vec![3] }] } } else { Op::Rep { n: *r.pick(&[20u32, 70, 140]), ops: vec![Op::Gen { docs: vec![3] }, gop(r, n)] } });
            s.kind = "many repetitions".into();
        }
    } else if r.chance(1, 40) {
        s.kind = "generations of threads".into();
        s.pre.push(Op::Rep { n: 10 + r.below(30) as u32, ops: vec![Op::Spawn { ops: vec![gop(r, n)] }] });
    } else {
        s.kind = "threads".into();
        for _ in 0..r.below(3) {
            s.pre.push(gop(r, n));
        }
        let crowd = r.chance(1, 10);
        let nt = if crowd { *r.pick(&[5u64, 9, 12, 18]) } else { 2 + r.below(3) };
        for _ in 0..nt {
            let mut v = vec![];
            for _ in 0..1 + r.below(if crowd { 1 } else { 3 }) {
                v.push(gop(r, n));
            }
            s.threads.push(v);
        }
        s.strat = strat(r, nt as usize);
        s.strat.horizon *= 20;
        if s.strat.kind == 1 {
            s.strat.p_inv *= 20;
        }
    }
    s.post = vec![Op::Gen { docs: vec![0, 1] }, Op::Gen { docs: vec![r.below(n as u64) as usize] }];
    s
}
/// The same kinds of calls go on and on with ever new arguments: what is in use after the first quarter must do for the rest.
fn memory(r: &mut Rng, all: &[String]) -> Scenario {
    let mut s = blank("C25", "", r);
    let ns = 1 + r.below(8) as usize;
    s.slots = slots(r, ns, all);
    let mut kinds: Vec<u32> = (0..10).collect();
    for j in (1..10).rev() {
        kinds.swap(j, r.below(j as u64 + 1) as usize);
    }
    kinds.truncate(*r.pick(&[1usize, 1, 2, 3]));
    let size = |k: u32| [40_000u32, 25_000, 30_000, 10_000, 12_000, 8_000, 600, 600, 80, 150][k as usize];
    let mut seed = r.next();
    let mut part = |v: &mut Vec<Op>, div: u32, r: &mut Rng| {
        for &what in &kinds {
            seed = mix(seed);
            v.push(Op::Churn { what, seed, n: size(what) / div / kinds.len() as u32 });
            if r.chance(1, 8) {
                v.push(Op::Clock { secs: *r.pick(&[1, 3600, 400_000_000, -1, -400_000_000]) });
            }
        }
    };
    part(&mut s.pre, 1, r);
    s.pre.push(Op::Mem { limit: 0 });
    if r.chance(1, 3) {
        s.kind = "growth over threads".into();
        let nt = 2 + r.below(2);
        for _ in 0..nt {
            let mut v = vec![];
            part(&mut v, 1, r);
            s.threads.push(v);
        }
        s.strat = strat(r, nt as usize);
        s.strat.horizon *= 100;
        if s.strat.kind <= 2 {
            s.strat.p_inv *= 50;
        }
        s.post.push(Op::Mem { limit: 48 << 10 });
        return s;
    }
    s.kind = "growth".into();
    for _ in 0..3 {
        part(&mut s.pre, 1, r);
    }
    s.post.push(Op::Mem { limit: 48 << 10 });
    s
}
/// Calls of every kind with ever new arguments; what they return is judged elsewhere.
fn effects(r: &mut Rng, all: &[String]) -> Scenario {
    let base = r.next();
    let mut s = match r.below(12) {
        0..=3 => intl("C10", r, base, all),
        4..=6 => parser(r, base),
        7 | 8 => generator(r, base),
        _ => {
            let mut s = memory(r, all);
            s.pre.retain(|o| !matches!(o, Op::Mem { .. }));
            s.post.clear();
            let cut = *r.pick(&[2u32, 20, 20, 20, 20, 20, 60]);
            for o in s.pre.iter_mut().chain(s.threads.iter_mut().flatten()) {
                if let Op::Churn { n, .. } = o {
                    *n = (*n / cut).max(1);
                }
            }
            s.kind = "ever new arguments".into();
            s
        }
    };
    s.prop = "C27".into();
    s
}
pub fn scenario(prop: &str, seed: u64, base: u64, all: &[String]) -> Scenario {
    let mut r = Rng::new(seed);
    match prop {
        "C11" => parser(&mut r, base),
        "C12" => generator(&mut r, base),
        "C27" => effects(&mut r, all),
        "C25" => memory(&mut r, all),
        p => intl(p, &mut r, base, all),
    }
}
