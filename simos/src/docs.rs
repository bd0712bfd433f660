//! Seeded plural-rules documents.
use crate::dec::*;

pub const LOCALES: &[&str] = &[
    "en", "fr", "pl", "ar", "ru", "sr-Latn", "pt-PT", "pt", "lt", "cs", "he", "zh", "ja", "haw", "kw", "shi", "yue-Hant", "es-419", "de-1996", "root", "br", "cy", "gd", "mt", "sl", "uk",
    "en-GB", "en-US", "zh-Hant-TW", "sr-Cyrl-BA", "ca-valencia", "iw", "in", "tl",
];
fn relation(r: &mut Rng) -> String {
    let op = *r.pick(&["n", "i", "v", "w", "f", "t"]);
    let mut s = op.to_string();
    if r.chance(1, 2) {
        s += &format!(" {} {}", *r.pick(&["%", "mod"]), *r.pick(&[10u64, 100, 1000, 1_000_000, 7]));
    }
    if r.chance(1, 12) {
        let a = r.below(9);
        return format!("{} {} {}..{}", s, *r.pick(&["within", "not within"]), a, a + 1 + r.below(20));
    }
    let rel = *r.pick(&["=", "=", "=", "!=", "in", "not in"]);
    s += &format!(" {} ", rel);
    let n = 1 + r.below(4);
    for k in 0..n {
        if k > 0 {
            s += *r.pick(&[",", ", "]);
        }
        let a = r.below(100);
        if r.chance(1, 3) {
            s += &format!("{}..{}", a, a + 1 + r.below(30));
        } else {
            s += &a.to_string();
        }
    }
    s
}
pub fn condition(r: &mut Rng) -> String {
    let mut s = String::new();
    for k in 0..1 + r.below(3) {
        if k > 0 {
            s += " or ";
        }
        for j in 0..1 + r.below(3) {
            if j > 0 {
                s += " and ";
            }
            s += &relation(r);
        }
    }
    if r.chance(2, 3) {
        s += " @integer 0~15, 100, 1000, …";
        if r.chance(1, 2) {
            s += " @decimal 0.0~1.5, 10.0, 100.0, …";
        }
    }
    s
}
fn table(r: &mut Rng, size: u64) -> String {
    let mut names: Vec<String> = vec![];
    let family = r.chance(1, 2);
    let base = *r.pick(&["zh", "sr", "en", "pt", "ca", "und"]);
    for _ in 0..size {
        // close relatives: they differ in script, region or variant only, or are two spellings of the same
        let l = if family && r.chance(3, 4) {
            let mut l = base.to_string();
            l += r.pick(&["", "", "-Hans", "-Hant", "-Latn", "-Cyrl"]);
            l += r.pick(&["", "", "", "-TW", "-CN", "-RS", "-PT", "-US", "-419"]);
            l += r.pick(&["", "", "", "", "-valencia", "-1996", "-ekavsk"]);
            match r.below(16) {
                0 => l.to_uppercase(),
                1 => l.to_lowercase(),
                2 => l.replace('-', "_"),
                _ => l,
            }
        } else {
            r.pick(LOCALES).to_string()
        };
        if !names.contains(&l) {
            names.push(l);
        }
    }
    if size > 20 {
        // many synthetic languages
        let regions = r.chance(1, 2);
        for a in b'a'..=b'z' {
            for b in (b'a'..=b'z').step_by(3) {
                let l = format!("{}{}x", a as char, b as char);
                if names.len() < size as usize {
                    if regions && r.chance(1, 3) {
                        names.push(format!("{}-{}", l, r.pick(&["XA", "XB", "Latn", "001"])));
                    }
                    names.push(l);
                }
            }
        }
    }
    // languages often share their rules
    let sets: Vec<Vec<String>> = if r.chance(1, 2) { (0..1 + r.below(4)).map(|_| rules(r)).collect() } else { vec![] };
    let mut out = vec![];
    for l in names {
        let cats = if sets.is_empty() || r.chance(1, 6) { rules(r) } else { sets[r.below(sets.len() as u64) as usize].clone() };
        out.push(format!("\"{}\": {{{}}}", l, cats.join(if r.chance(1, 2) { ",\n      " } else { ", " })));
    }
    format!("{{{}}}", out.join(",\n    "))
}
fn rules(r: &mut Rng) -> Vec<String> {
        let mut cats = vec![];
        for c in ["zero", "one", "two", "few", "many"] {
            if r.chance(2, 5) {
                cats.push(format!("\"pluralRule-count-{}\": \"{}\"", c, condition(r)));
            }
        }
        cats.push("\"pluralRule-count-other\": \" @integer 0~15, 100, 1000, 10000, …\"".into());
        cats
}
#[derive(Clone, Copy, PartialEq)]
pub enum Has {
    Card,
    Ord,
    Both,
    Nothing,
}
pub fn doc(r: &mut Rng, ver: &str, has: Has, size: u64) -> Vec<u8> {
    let mut parts = vec![];
    let mut v = vec![format!("\"_unicodeVersion\": \"{}.0.0\"", 9 + r.below(5)), format!("\"_cldrVersion\": \"{}\"", ver)];
    if r.chance(1, 3) {
        v.insert(0, "\"_number\": \"$Revision: 14338 $\"".into());
    }
    parts.push(format!("\"version\": {{{}}}", v.join(", ")));
    if r.chance(1, 2) {
        parts.push("\"note\": \"données — 複数形 🎉 ŁÓDŹ …\"".into());
    }
    if has == Has::Card || has == Has::Both {
        let t = table(r, size);
        parts.push(format!("\"plurals-type-cardinal\": {}", t));
    }
    if has == Has::Ord || has == Has::Both {
        let t = table(r, size);
        parts.push(format!("\"plurals-type-ordinal\": {}", t));
    }
    if r.chance(1, 3) {
        let n = parts.len();
        parts.swap(0, n - 1);
    }
    let sep = *r.pick(&[",", ",\n  ", ", \t"]);
    let mut s = format!("{{ \"supplemental\": {{{}}} }}", parts.join(sep));
    if r.chance(1, 2) {
        s.push('\n');
    }
    s.into_bytes()
}
