//! Seeded generation of scenarios, one generator per property.
use crate::dec::*;
use crate::docs::*;
use crate::oracle;
use crate::scenario::*;
use crate::vfs::Kind;
use crate::world::*;

pub fn real(name: &str) -> Option<Vec<u8>> {
    std::fs::read(format!("/repo/intl_pluralrules/cldr_data/{}", name)).ok()
}
fn size(r: &mut Rng) -> u64 {
    if r.chance(1, 150) {
        return 500;
    }
    match r.below(12) {
        0 => 120,
        1 => 40,
        2..=4 => 9,
        _ => 1 + r.below(4),
    }
}
/// A set of documents the generator accepts.
pub fn usable(r: &mut Rng) -> Vec<Vec<u8>> {
    if r.chance(1, 14) {
        if let (Some(a), Some(b)) = (real("cldr_pluralrules_cardinals.json"), real("cldr_pluralrules_ordinals.json")) {
            let v = if r.chance(1, 2) { vec![a, b] } else { vec![b] };
            if oracle::expect(&v).is_some() {
                return v;
            }
        }
    }
    for _ in 0..30 {
        let ver = *r.pick(&["37", "33", "36.1", "40-beta"]);
        let n = size(r);
        let v = match r.below(6) {
            0 => vec![doc(r, ver, Has::Card, n)],
            1 => vec![doc(r, ver, Has::Ord, n)],
            2 => vec![doc(r, ver, Has::Both, n)],
            3 | 4 => {
                let m = if n > 20 && r.chance(1, 2) { 20 } else { n };
                vec![doc(r, ver, Has::Card, n), doc(r, ver, Has::Ord, m)]
            }
            _ => vec![doc(r, ver, Has::Nothing, n), doc(r, ver, Has::Both, n)],
        };
        let mut v = v;
        if r.chance(1, 12) {
            // more files than usual, most without tables
            for _ in 0..*r.pick(&[1u64, 3, 9, 20]) {
                let at = r.below(v.len() as u64 + 1) as usize;
                let d = doc(r, ver, Has::Nothing, 0);
                v.insert(at, d);
            }
        }
        if r.chance(1, 8) {
            let k = r.below(v.len() as u64) as usize;
            let n = if r.chance(1, 6) { (*r.pick(&[1usize, 1, 1, 2, 2, 4, 8]) << 20) + r.below(3) as usize - 1 } else { edge(r, v[k].len()) };
            v[k] = pad(r, &v[k], n);
        }
        if r.chance(1, 25) {
            if let Some(w) = tuned(r, ver) {
                return w;
            }
        }
        if oracle::expect(&v).is_some() {
            return v;
        }
    }
    vec![br#"{"supplemental":{"version":{"_unicodeVersion":"9.0.0","_cldrVersion":"37"},"plurals-type-cardinal":{"en":{"pluralRule-count-one":"i = 1 and v = 0","pluralRule-count-other":""}}}}"#.to_vec()]
}

/// A length at the edge of the usual buffer sizes, not below `min`.
fn edge(r: &mut Rng, min: usize) -> usize {
    let top = if r.chance(1, 12) { 1 << 20 } else { 4096 };
    let b = *r.pick(&[512usize, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, top]);
    let k = (min + 200 + b - 1) / b + if b < 5000 { r.below(3) as usize } else { 0 };
    k * b + r.below(3) as usize - 1
}
/// The document with room added, `n` bytes in all, so that a buffer's edge may fall anywhere.
fn pad(r: &mut Rng, doc: &[u8], n: usize) -> Vec<u8> {
    let t = String::from_utf8(doc.to_vec()).unwrap();
    let (at, pre, fill, post) = match r.below(5) {
        0 => (0, "", " ", ""),
        1 => (t.find('{').unwrap() + 1, "", *r.pick(&["\n", " ", "\t"]), ""),
        2 => (t.rfind('}').unwrap(), "", " ", ""),
        _ => (t.find('{').unwrap() + 1, "\"padding\": \"", *r.pick(&["é", "…", "🎉", "x"]), "\","),
    };
    let room = n.saturating_sub(t.len() + pre.len() + post.len());
    let mut f = "-".repeat(if fill.len() > 1 { room % fill.len() } else { 0 });
    f += &fill.repeat(room / fill.len());
    format!("{}{}{}{}{}", &t[..at], pre, f, post, &t[at..]).into_bytes()
}
/// A document whose program is of a length at the edge of the usual buffer sizes.
fn tuned(r: &mut Rng, ver: &str) -> Option<Vec<Vec<u8>>> {
    let mk = |k: usize, d: usize| -> Vec<Vec<u8>> {
        let mut c: Vec<String> = (0..k).map(|_| "i = 7".to_string()).collect();
        for (j, x) in c.iter_mut().enumerate() {
            if d > j {
                let extra = (d - j + k - 1) / k;
                *x = format!("i = 7{}", "3".repeat(extra));
            }
        }
        vec![small("zz", "pluralRule-count-few", &c.join(" or "), ver, true)]
    };
    let len = |k: usize, d: usize| oracle::expect(&mk(k, d)).map(|s| s.len());
    let base = len(1, 0)?;
    let per = len(2, 0)?.checked_sub(base)?;
    let b = if r.chance(1, 12) { *r.pick(&[1usize << 17, 1 << 18, 1 << 20, 1 << 20, 1 << 21]) } else { *r.pick(&[1024usize, 4096, 4096, 8192, 8192, 16384, 65536]) };
    let want = (base / b + 1 + if b < 5000 { r.below(3) as usize } else { 0 }) * b + r.below(3) as usize - 1;
    let k = 1 + (want - base) / per.max(1);
    let d = (want - base) % per.max(1);
    let v = mk(k, d);
    let got = oracle::expect(&v)?;
    if got.len() != want && r.chance(9, 10) {
        return None;
    }
    Some(v)
}

/// A document with one sound locale and one entry of choice.
fn small(loc: &str, name: &str, rule: &str, ver: &str, card: bool) -> Vec<u8> {
    format!(
        "{{\"supplemental\": {{\"version\": {{\"_unicodeVersion\": \"13.0.0\", \"_cldrVersion\": \"{}\"}}, \"plurals-type-{}\": {{\"de\": {{\"pluralRule-count-one\": \"i = 1 and v = 0\", \"pluralRule-count-other\": \"\"}}, \"{}\": {{\"{}\": \"{}\"}}, \"uk\": {{\"pluralRule-count-many\": \"v != 0\"}}}}}}}}",
        ver, if card { "cardinal" } else { "ordinal" }, loc, name, rule
    )
    .into_bytes()
}
/// A text that is no rule: no condition at all, or one that goes on with something else.
fn malformed(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        return r.pick(&["hello", "x = 1", "= 1", "1 = n", "?", "n", "and n = 1", "(n = 1)", "n =", "n % = 1", "n % 10", "i mod", "n is"]).to_string();
    }
    let c = condition(r);
    let c = c.split(" @").next().unwrap().to_string();
    let tail = *r.pick(&[" and", " or", " and x = 1", " or 1", " xor n = 2", " n = 2", ",", "..", " hello", " = 3", ";", " and n", " or n =", "!", " && i = 1", " and (n = 1)", " or  = 1", "x", " integer 1", "\u{a0}and i = 1", " and\u{2003}i = 1", " and i \u{2260} 1", " and i = \u{661}"]);
    let after = if r.chance(1, 3) { " @integer 1, 2" } else { "" };
    format!("{}{}{}", c, tail, after)
}
/// Ways in which an input set is unusable, by construction (never decided by running the code under test).
pub fn unusable(r: &mut Rng) -> (String, Vec<Option<FileSpec>>) {
    let d = |b: Vec<u8>| Some(FileSpec::Data(b));
    let n = 1 + r.below(4);
    let ver = "37";
    let good = doc(r, ver, Has::Card, n);
    let good2 = doc(r, ver, Has::Ord, n);
    let mut second: Vec<Option<FileSpec>> = if r.chance(1, 2) { vec![d(good2.clone())] } else { vec![] };
    let txt = String::from_utf8(good.clone()).unwrap();
    let trimmed = txt.trim_end().len();
    let (name, bad): (&str, Vec<Option<FileSpec>>) = match r.below(38) {
        0 => ("missing", vec![None]),
        1 => ("directory", vec![Some(FileSpec::Dir)]),
        2 => ("unreadable from some offset", vec![Some(FileSpec::Bad(good.clone(), r.below(good.len() as u64) as usize))]),
        3 => ("cut short", vec![d(good[..r.below(trimmed as u64) as usize].to_vec())]),
        4 => ("cut short by one byte", vec![d(good[..trimmed - 1].to_vec())]),
        5 => ("empty", vec![d(vec![])]),
        6 => {
            // a lone byte that is invalid UTF-8, inside a string
            let p = txt.find("supplemental").unwrap();
            let q = txt.rfind("pluralRule-count-other").unwrap_or(p);
            let mut b = good.clone();
            match r.below(3) {
                0 => b.insert(p, 0xff),
                1 => b.insert(q, 0xc3),
                _ => {
                    b.push(b'\n');
                    b.push(0x80);
                }
            }
            ("not UTF-8", vec![d(b)])
        }
        7 => {
            let mut b = good.clone();
            if let Some(p) = txt.find('…') {
                b.remove(p + 1 + r.below(2) as usize);
            } else {
                b.push(0xfe);
            }
            ("broken multi-byte character", vec![d(b)])
        }
        8 => ("invalid JSON", vec![d(txt.replacen(':', " ", 1).into_bytes())]),
        9 => ("trailing garbage", vec![d([good.clone(), r.pick(&[&b"}"[..], b"garbage", b"{}", b"\0", b","]).to_vec()].concat())]),
        10 => ("JSON of another kind", vec![d(r.pick(&[&b"{}"[..], b"[]", b"null", b"\"x\"", b"{\"supplemental\": {}}", b"{\"supplemental\": []}", b"12"]).to_vec())]),
        11 => ("no version", vec![d(txt.replace("\"_cldrVersion\"", "\"_cldrversion\"").into_bytes())]),
        12 => {
            second = vec![];
            let o = if r.chance(1, 2) { Has::Ord } else { Has::Nothing };
            let v2 = *r.pick(&["36", "38", "37.1", "3", "", "37 "]);
            let x = doc(r, v2, o, n);
            ("different CLDR versions", if r.chance(1, 2) { vec![d(good.clone()), d(x)] } else { vec![d(x), d(good.clone())] })
        }
        13 => {
            second = vec![];
            let mid = doc(r, ver, Has::Nothing, n);
            let x = doc(r, "36", Has::Ord, n);
            ("third file of another CLDR version", vec![d(good.clone()), d(mid), d(x)])
        }
        14 => {
            second = vec![];
            ("same data twice", vec![d(good.clone()), d(good.clone())])
        }
        15 => {
            second = vec![];
            let x = doc(r, ver, Has::Both, n);
            let y = if r.chance(1, 2) { good.clone() } else { good2.clone() };
            ("same type twice", if r.chance(1, 2) { vec![d(x), d(y)] } else { vec![d(y), d(x)] })
        }
        16 => {
            second = vec![];
            let x = doc(r, ver, Has::Ord, n);
            ("ordinals twice", vec![d(good.clone()), d(good2.clone()), d(x)])
        }
        17 => {
            second = vec![];
            let k = 1 + r.below(2);
            ("no data", (0..k).map(|_| d(doc(r, ver, Has::Nothing, n))).collect())
        }
        18 => ("wrong types", vec![d(txt.replacen("\"pluralRule-count-other\": \"", "\"pluralRule-count-other\": 12, \"x\": \"", 1).into_bytes())]),
        19 => ("table is not an object", vec![d(br#"{"supplemental":{"version":{"_unicodeVersion":"9.0.0","_cldrVersion":"37"},"plurals-type-cardinal":["en"]}}"#.to_vec())]),
        20 => {
            let bad = malformed(r);
            let l = *r.pick(&["en", "pl", "zz", "sr-Latn"]);
            let c = *r.pick(&["zero", "one", "few", "other"]);
            ("malformed rule", vec![d(small(l, &format!("pluralRule-count-{}", c), &bad, ver, r.chance(1, 2)))])
        }
        21 => {
            let l = *r.pick(&["toolonglanguage", "e", "12", "en-", "en--US", "en US", "", "en-US-US", "_", "é", "en-US-toolongvariant"]);
            ("malformed locale", vec![d(small(l, "pluralRule-count-one", "n = 1", ver, r.chance(1, 2)))])
        }
        22 => {
            second = vec![];
            let x = *r.pick(&["", "abc", "37.", "37 ", " 37", "v37", "3 7", "99999999999999999999999", "37\t"]);
            ("malformed version number", vec![d(small("en", "pluralRule-count-one", "n = 1", x, r.chance(1, 2)))])
        }
        23 => {
            let x = *r.pick(&["pluralRule", "one", "", "pluralRule-one", "count-one", "pluralRule-count-", "pluralRule-count-fwe", "pluralRule-count-One", "pluralRule-count-several", "pluralRule-count-one2", "pluralRule-count- one"]);
            ("malformed category name", vec![d(small("en", x, "n = 1", ver, r.chance(1, 2)))])
        }
        24 => {
            let p = txt.rfind('}').unwrap();
            let x = *r.pick(&[",", " ,\n", "/* end */", "// end\n", "#", "'", "]"]);
            ("stray text in the JSON", vec![d(format!("{}{}{}", &txt[..p], x, &txt[p..]).into_bytes())])
        }
        25 => ("byte order mark", vec![d([&b"\xef\xbb\xbf"[..], &good].concat())]),
        26 => {
            let le = r.chance(1, 2);
            let mut b: Vec<u8> = if le { vec![0xff, 0xfe] } else { vec![0xfe, 0xff] };
            for u in txt.encode_utf16() {
                b.extend(if le { u.to_le_bytes() } else { u.to_be_bytes() });
            }
            ("UTF-16", vec![d(b)])
        }
        27 => {
            let x = *r.pick(&["n = 1 \\ud800", "n = 1 \\q", "n = 1 \\u12", "n = 1 \n @integer 1", "n = 1 \u{1} @integer 1"]);
            let b = small("en", "pluralRule-count-one", x, ver, r.chance(1, 2));
            ("invalid string in the JSON", vec![d(b)])
        }
        28 | 29 => {
            // cut at a buffer's edge
            let n = edge(r, good.len());
            let m = edge(r, 0) % n;
            let b = pad(r, &good, n);
            let t = b.iter().rposition(|c| !b" \n\t".contains(c)).unwrap_or(0);
            ("cut short at a round size", vec![d(b[..m.min(t)].to_vec())])
        }
        30 | 31 | 32 => {
            // one bad entry among many sound ones, anywhere
            let k = *r.pick(&[2u64, 9, 40, 150]);
            let at = match r.below(4) {
                0 => 0,
                1 => k - 1,
                _ => r.below(k),
            };
            let what = r.below(3);
            let bad = malformed(r);
            let mut t: Vec<String> = vec![];
            for j in 0..k {
                let l = format!("{}{}{}", (b'b' + (j / 26) as u8) as char, (b'a' + (j % 26) as u8) as char, r.pick(&["x", "x", "x-Latn"]));
                let (l, c, e) = match (j == at, what) {
                    (true, 0) => (l, "pluralRule-count-few", bad.as_str()),
                    (true, 1) => (r.pick(&["toolonglanguage", "e", "12", "en US", "é"]).to_string(), "pluralRule-count-few", "n = 1"),
                    (true, _) => (l, *r.pick(&["pluralRule", "few", "", "pluralRule-count-fwe"]), "n = 1"),
                    _ => (l, "pluralRule-count-few", "n = 2..4"),
                };
                let mut cats = vec!["\"pluralRule-count-one\": \"i = 1 and v = 0\"".to_string(), "\"pluralRule-count-other\": \"\"".to_string()];
                cats.insert(r.below(3) as usize, format!("\"{}\": \"{}\"", c, e));
                t.push(format!("\"{}\": {{{}}}", l, cats.join(", ")));
            }
            let card = r.chance(1, 2);
            second.retain(|_| card);
            ("one bad entry among many", vec![d(format!("{{\"supplemental\": {{\"version\": {{\"_unicodeVersion\": \"13.0.0\", \"_cldrVersion\": \"37\"}}, \"plurals-type-{}\": {{{}}}}}}}", if card { "cardinal" } else { "ordinal" }, t.join(", ")).into_bytes())])
        }
        33 => {
            second = vec![];
            let t = "{\"en\": {\"pluralRule-count-one\": \"n = 1\"}}";
            let u = if r.chance(1, 2) { t } else { "{\"de\": {\"pluralRule-count-one\": \"n = 1\"}}" };
            let c = *r.pick(&["cardinal", "ordinal"]);
            ("same table twice in one document", vec![d(format!("{{\"supplemental\": {{\"version\": {{\"_unicodeVersion\": \"13.0.0\", \"_cldrVersion\": \"37\"}}, \"plurals-type-{}\": {}, \"plurals-type-{}\": {}}}}}", c, t, c, u).into_bytes())])
        }
        34 => {
            let x = *r.pick(&["n = 99999999999999999999999", "i % 99999999999999999999999 = 1", "n = 1..99999999999999999999999"]);
            ("number too large", vec![d(small("en", "pluralRule-count-one", x, ver, true))])
        }
        35 | 36 => {
            // the last of many files is of no use
            second = vec![];
            let mut v: Vec<Option<FileSpec>> = vec![d(good.clone()), d(good2.clone())];
            for _ in 0..*r.pick(&[1u64, 4, 9, 20]) {
                let x = doc(r, ver, Has::Nothing, 0);
                v.insert(r.below(v.len() as u64 + 1) as usize, d(x));
            }
            let bad = match r.below(5) {
                0 => None,
                1 => d(doc(r, "36", Has::Nothing, 0)),
                2 => d(b"{".to_vec()),
                3 => d(doc(r, ver, Has::Ord, n)),
                _ => d(b"\xff".to_vec()),
            };
            let at = if r.chance(1, 2) { v.len() } else { r.below(v.len() as u64 + 1) as usize };
            v.insert(at, bad);
            ("one bad file among many", v)
        }
        _ => ("symbolic link to nowhere", vec![Some(FileSpec::Symlink("/nowhere/x.json".into()))]),
    };
    let mut v = bad;
    if !second.is_empty() {
        if r.chance(1, 2) {
            v.extend(second);
        } else {
            second.extend(v);
            v = second;
        }
    }
    (name.to_string(), v)
}

pub fn machine(r: &mut Rng) -> Machine {
    let mut m = Machine::plain();
    if r.chance(1, 2) {
        m.clock = 1_000_000_000_000_000_000 + r.below(1_500_000_000) * 1_000_000_000 + r.below(1_000_000_000);
    }
    m.rand = r.next() >> 16;
    m.pid_base = 2 + r.below(4_000_000) as i32;
    m.ncpu = *r.pick(&[1, 2, 4, 8, 64]);
    m.mmap_shift = if r.chance(1, 3) { 1 + r.below(1 << 20) } else { 0 };
    if r.chance(1, 3) {
        m.max_read = *r.pick(&[1000usize, 4096, 777, 8191, 65536]);
    }
    if r.chance(1, 3) {
        m.max_write = *r.pick(&[500usize, 4096, 777, 8191, 65536]);
    }
    if r.chance(1, 4) {
        m.pipe_cap = *r.pick(&[4096usize, 8192, 1 << 20]);
    }
    m
}
/// Names found in the program that look like environment variables.
pub fn env_names(bin: &str) -> Vec<String> {
    let b = std::fs::read(bin).unwrap_or_default();
    let mut out: Vec<String> = vec![];
    let mut k = 0;
    while k < b.len() {
        let st = k;
        while k < b.len() && (b[k].is_ascii_uppercase() || b[k] == b'_' || (k > st && b[k].is_ascii_digit())) {
            k += 1;
        }
        let w = &b[st..k];
        if w.len() >= 4 && w.len() <= 40 && w[0].is_ascii_uppercase() {
            let s = String::from_utf8_lossy(w).to_string();
            let skip = s.starts_with("LD_") || s.starts_with("GLIBC") || s.starts_with("MALLOC") || s == "PATH" || s.starts_with("LIBC");
            if !skip && (s.contains('_') || s.len() <= 16) {
                out.push(s);
            }
        }
        k += 1;
    }
    out.sort();
    out.dedup();
    out
}
pub fn env(r: &mut Rng, names: &[String]) -> Vec<String> {
    let mut e = vec!["PATH=/usr/local/bin:/usr/bin".to_string()];
    let pool: &[(&str, &[&str])] = &[
        ("HOME", &["/home/user", "/nonexistent", ""]), ("LANG", &["C", "de_DE.UTF-8", "tr_TR.UTF-8", "C.UTF-8"]), ("LC_ALL", &["C", "fr_FR.UTF-8", ""]), ("TZ", &["UTC", "Asia/Tokyo"]),
        ("TMPDIR", &["/tmp", "/work", "/nonexistent"]), ("TERM", &["dumb", "xterm-256color"]), ("COLUMNS", &["20", "200"]), ("NO_COLOR", &["1"]), ("CLICOLOR_FORCE", &["1"]), ("DEBUG", &["1"]),
        ("RUST_LOG", &["debug"]), ("SOURCE_DATE_EPOCH", &["0", "1600000000"]), ("USER", &["root", "x"]), ("CI", &["true"]), ("OUT_DIR", &["/work"]), ("CARGO", &["/usr/bin/cargo"]), ("PWD", &["/tmp"]),
        ("RUST_BACKTRACE", &["0"]), ("RUST_MIN_STACK", &["4000000"]), ("NUM_JOBS", &["1", "16"]), ("RAYON_NUM_THREADS", &["1", "8"]),
    ];
    for (k, vs) in pool {
        if r.chance(1, 5) {
            e.push(format!("{}={}", k, r.pick(vs)));
        }
    }
    if !names.is_empty() && r.chance(1, 2) {
        let many = r.chance(1, 3);
        for n in names {
            if many && r.chance(1, 2) || r.below(names.len() as u64) < 3 {
                let v = *r.pick(&["1", "0", "true", "", "x", "/work"]);
                if !e.iter().any(|x| x.starts_with(&format!("{}=", n))) && n != "RUST_MIN_STACK" && n != "RUST_BACKTRACE" && n != "RUST_LIB_BACKTRACE" {
                    e.push(format!("{}={}", n, v));
                }
            }
        }
    }
    e
}

pub fn faults(r: &mut Rng, allowed: u32) -> FaultCfg {
    let bits: Vec<u32> = (0..20).map(|b| 1 << b).filter(|b| allowed & b != 0).collect();
    let mut classes = 0;
    match r.below(3) {
        0 => classes = *r.pick(&bits),
        1 => {
            for b in &bits {
                if r.chance(2, 5) {
                    classes |= b;
                }
            }
        }
        _ => classes = allowed,
    }
    if classes == 0 {
        classes = allowed;
    }
    if r.chance(1, 2) {
        let span = if classes & F_MEM != 0 { 110 } else { 56 };
        FaultCfg { classes, rate: 1.0, target: Some(1 + r.below(span) as u32), max: *r.pick(&[1, 2, 3]) }
    } else {
        FaultCfg { classes, rate: *r.pick(&[0.01, 0.03, 0.08, 0.2, 0.5]), target: None, max: *r.pick(&[1, 1, 2, 3, 6, 60]) }
    }
}

pub struct Place {
    pub cwd: String,
    pub out_abs: String,
    pub out_arg: String,
}
/// File names that a program might trip over.
fn odd(r: &mut Rng, ext: &str) -> String {
    let stem = *r.pick(&["a b", " lead", "trail ", "back\\slash", "quote'\"s", "$HOME", "~", "%20", "*", "?", "[a-z]", "a\nb", "tab\tin", "#x", "&", ";", "{}", "名前", "e\u{301}", "UPPER", "dots..", "...", ".hidden", "a:b", "=", "@file", "http:", "-", "--", "+", "!", "con", "null", "stdin", "1"]);
    let end = *r.pick(&["", "", "", ".gz", ".tmp", ".bak", " ", ".JSON", ".rs", ".toml", ".d", ".zip"]);
    format!("{}{}{}", stem, ext, end)
}
pub fn place(r: &mut Rng) -> Place {
    let cwd = r.pick(&["/work", "/home/user", "/", "/tmp"]).to_string();
    if r.chance(1, 6) {
        let name = odd(r, ".rs");
        let d = if r.chance(1, 3) { format!("/work/{}", "deep/".repeat(*r.pick(&[1usize, 5, 30, 60, 200]))) } else { "/work/sub/".to_string() };
        let arg = if d == "/work/sub/" && r.chance(1, 2) { format!("/work/sub/./{}", name) } else { format!("{}{}", d, name) };
        return Place { out_abs: format!("{}{}", d, name), out_arg: arg, cwd };
    }
    let name = *r.pick(&["out.rs", "rules.rs", "plural rules.rs", "généré.rs", "out", "rules.txt", "a.b.rs"]);
    match r.below(5) {
        0 => Place { out_abs: format!("/work/{}", name), out_arg: format!("/work/{}", name), cwd },
        1 => Place { out_abs: format!("/work/sub/{}", name), out_arg: format!("/work/sub/../sub/./{}", name), cwd },
        2 => Place { out_abs: format!("/work/sub/{}", name), out_arg: format!("sub/{}", name), cwd: "/work".into() },
        _ => {
            let d = if cwd == "/" { String::new() } else { cwd.clone() };
            let a = if r.chance(1, 2) { name.to_string() } else { format!("./{}", name) };
            Place { out_abs: format!("{}/{}", d, name), out_arg: a, cwd }
        }
    }
}
/// One of the ways to name an absolute path from a working directory.
fn named(r: &mut Rng, cwd: &str, p: &str) -> String {
    let up = |c: &str| c.split('/').filter(|x| !x.is_empty()).map(|_| "../").collect::<String>();
    match r.below(6) {
        0 => format!("{}{}", up(cwd), &p[1..]),
        1 => match p.strip_prefix(&format!("{}/", cwd.trim_end_matches('/'))) {
            Some(x) => format!("{}{}", *r.pick(&["", "./", ".//"]), x),
            None => p.to_string(),
        },
        2 if r.chance(1, 3) => format!("/work/.././{}", &p[1..]),
        _ => p.to_string(),
    }
}
pub fn args(r: &mut Rng, cwd: &str, inputs: &[String], out: &str, ugly: bool) -> Vec<String> {
    let inputs: Vec<String> = inputs.iter().map(|i| named(r, cwd, i)).collect();
    let inputs = &inputs[..];
    let mut groups: Vec<Vec<String>> = vec![];
    match r.below(3) {
        0 => {
            let mut g = vec!["-i".to_string()];
            g.extend(inputs.iter().cloned());
            groups.push(g);
        }
        1 => {
            for i in inputs {
                groups.push(vec![format!("--input={}", i)]);
            }
        }
        _ => {
            for i in inputs {
                groups.push(vec!["-i".into(), i.clone()]);
            }
        }
    }
    let o = match r.below(3) {
        0 => vec!["-o".into(), out.to_string()],
        1 => vec![format!("--output={}", out)],
        _ => vec!["--output".into(), out.to_string()],
    };
    if r.chance(1, 3) {
        groups.insert(0, o);
    } else {
        groups.push(o);
    }
    if ugly {
        let u = vec![r.pick(&["-u", "--ugly"]).to_string()];
        if r.chance(1, 3) {
            groups.insert(0, u);
        } else {
            groups.push(u);
        }
    }
    groups.concat()
}
/// Lays the documents out as files and names them.
pub fn lay(r: &mut Rng, docs: &[Vec<u8>], fifo: bool, files: &mut Vec<(String, FileSpec)>) -> Vec<String> {
    let dir = *r.pick(&["/work", "/data/cldr", "/work/in"]);
    let mut v = vec![];
    for (k, d) in docs.iter().enumerate() {
        let p = match k {
            0..=3 => format!("{}/{}", dir, ["plurals.json", "ordinals.json", "third.json", "fourth.json"][k]),
            k => format!("{}/more{}.json", dir, k),
        };
        let p = if r.chance(1, 12) { format!("{}/{}/{}", dir, k, odd(r, ".json")) } else if r.chance(1, 40) { format!("/data/{}{}.json", "deep/".repeat(*r.pick(&[5usize, 60, 200])), k) } else { p };
        let f = if fifo && r.chance(1, 2) { FileSpec::Fifo(d.clone(), *r.pick(&[60usize, 1000, 4096, 65536])) } else { FileSpec::Data(d.clone()) };
        let f = match f {
            FileSpec::Fifo(d, c) => {
                let c = c.max(d.len() / 400);
                FileSpec::Fifo(d, c)
            }
            f => f,
        };
        match f {
            FileSpec::Data(_) if r.chance(1, 12) => {
                let t = format!("/data/store/{}-{}", k, p.rsplit('/').next().unwrap());
                if !files.iter().any(|x| x.0 == t) {
                    files.push((t.clone(), f));
                    files.push((p.clone(), FileSpec::Symlink(t)));
                } else {
                    files.push((p.clone(), f));
                }
            }
            f => files.push((p.clone(), f)),
        }
        v.push(p);
    }
    v
}
/// What the output path may hold before: including near misses of what will be written.
pub fn previous(r: &mut Rng, docs: &[Vec<u8>], ugly: bool) -> Option<Vec<u8>> {
    let want = oracle::expect(docs).unwrap_or_else(|| "fn old() {}".to_string());
    let want = if ugly || r.chance(1, 4) { want.into_bytes() } else { formatted(&want).into_bytes() };
    Some(match r.below(15) {
        0 | 1 => return None,
        12 | 13 => want, // nothing left to do, it seems
        2 => vec![],
        3 => b"// something else entirely\n".to_vec(),
        4 => [want.clone(), b"\n// trailing remains of a longer file\nfn stale() {}\n".repeat(1 + r.below(40) as usize)].concat(),
        5 => want[..r.below(want.len() as u64 + 1) as usize].to_vec(),
        6 => {
            let mut w = want.clone();
            let k = r.below(w.len() as u64) as usize;
            w[k] = if w[k] == b'7' { b'8' } else { b'7' };
            w
        }
        7 => {
            let mut w = want.clone();
            let k = w.len() - 1 - r.below(40.min(w.len() as u64)) as usize;
            w[k] = b'#';
            w
        }
        8 => vec![b'x'; want.len()],
        9 => {
            // same beginning, other end
            let k = r.below(want.len() as u64) as usize;
            let mut w = want[..k].to_vec();
            w.extend(vec![b' '; want.len() - k]);
            w
        }
        10 => vec![0xff, 0xfe, 0, 1, 2].repeat(1 + r.below(30_000) as usize),
        11 => {
            let mut w = want.clone();
            for k in (r.below(want.len() as u64) as usize)..w.len() {
                w[k] = 0;
            }
            w
        }
        _ => b"#![allow(unknown)]\npub const CLDR_VERSION: usize = 1;\n".repeat(3000),
    })
}
fn dirs(files: &mut Vec<(String, FileSpec)>, out: &str) {
    files.push(("/work/sub".into(), FileSpec::Dir));
    if out.starts_with("/work/deep/") {
        files.push((out.rsplit_once('/').unwrap().0.to_string(), FileSpec::Dir));
    }
}
struct One {
    files: Vec<(String, FileSpec)>,
    run: RunSpec,
    docs: Vec<Vec<u8>>,
}
fn one(r: &mut Rng, docs: Vec<Vec<u8>>, fifo: bool, allowed: u32, names: &[String]) -> One {
    let mut files = vec![];
    let pl = place(r);
    dirs(&mut files, &pl.out_abs);
    let inputs = lay(r, &docs, fifo, &mut files);
    let ugly = r.chance(1, 3);
    if let Some(p) = previous(r, &docs, ugly) {
        if r.chance(1, 10) {
            files.push(("/data/real_output.rs".into(), FileSpec::Data(p)));
            files.push((pl.out_abs.clone(), FileSpec::Symlink("/data/real_output.rs".into())));
        } else {
            files.push((pl.out_abs.clone(), FileSpec::Data(p)));
        }
    }
    let cfg = if allowed == 0 { FaultCfg::none() } else { faults(r, allowed) };
    let run = RunSpec { args: args(r, &pl.cwd, &inputs, &pl.out_arg, ugly), env: { let nm: &[String] = if r.chance(1, 3) { names } else { &[] }; env(r, nm) }, cwd: pl.cwd, closed: [false; 3], stdin: Some(vec![]), cfg, output: pl.out_abs, ugly, inputs };
    One { files, run, docs }
}
fn sched(r: &mut Rng) -> f64 {
    *r.pick(&[0.0, 0.05, 0.3, 0.7, 1.0])
}

const ALL: u32 = 0x7fff;
const SOFT: u32 = ALL & !(F_KILL | F_POWER);

pub fn scenario(bin: &str, prop: &str, seed: u64, names: &[String]) -> Scenario {
    let mut r = Rng::new(seed ^ hash_str(7, prop));
    let mut s = match prop {
        "C01" => c01(&mut r, names),
        "C02" => c02(&mut r, names),
        "C03" => c03(&mut r, names),
        "C04" => c04(&mut r, names),
        "C05" => c05(bin, &mut r, names),
        "C06" => c06(bin, &mut r, names),
        "C07" => c07(&mut r, names),
        "C08" => c08(&mut r, names),
        "C22" => c22(&mut r, names),
        "C23" => c23(&mut r, names),
        "C24" => c24(&mut r, names),
        "C26" => c26(&mut r, names),
        p => panic!("unknown property {}", p),
    };
    s.prop = prop.into();
    stdin(&mut r, &mut s);
    s
}
/// What stands on the standard input of the runs must not matter.
fn stdin(r: &mut Rng, s: &mut Scenario) {
    let what = r.below(8);
    let text = match r.below(3) {
        0 => doc(r, "37", Has::Both, 1),
        1 => b"y\n".repeat(50),
        _ => b"\n".to_vec(),
    };
    for u in &mut s.universes {
        for p in &mut u.phases {
            for q in &mut p.runs {
                q.stdin = match what {
                    0 | 1 => None,
                    2 | 3 => Some(text.clone()),
                    4 if r.chance(1, 2) => None,
                    _ => Some(vec![]),
                };
            }
        }
    }
}
fn single(kind: &str, o: One, r: &mut Rng, mach: Machine, cap: Option<usize>) -> Scenario {
    let ph = Phase { runs: vec![o.run], mach, sched: sched(r), cap, put: vec![], swaps: vec![] };
    Scenario { prop: String::new(), kind: kind.into(), universes: vec![Universe { files: o.files, phases: vec![ph] }] }
}

fn c01(r: &mut Rng, names: &[String]) -> Scenario {
    let which = r.below(10);
    if which == 0 {
        // unusable inputs plus faults: success would be wrong
        return unusable_run(r, names, SOFT);
    }
    let docs = usable(r);
    let mut o = one(r, docs, r.0 % 4 == 0, SOFT, names);
    let mut cap = None;
    let mut kind = "faults";
    match which {
        1 => {
            kind = "full disk";
            let want = oracle::expect(&o.docs).map_or(100, |w| w.len());
            cap = Some(match r.below(4) {
                0 => want.saturating_sub(1 + r.below(3) as usize),
                1 => want,
                _ => r.below(want as u64 + 2) as usize,
            });
            if r.chance(1, 2) {
                o.run.cfg = FaultCfg::none();
            }
        }
        2 => {
            kind = "closed standard streams";
            for k in 0..3 {
                o.run.closed[k] = r.chance(1, 2);
            }
            if r.chance(1, 2) {
                o.run.cfg = FaultCfg::none();
            }
        }
        3 => {
            kind = "output to a full device";
            o.run.output = "/dev/full".into();
            let i = o.run.inputs.clone();
            o.run.args = args(r, &o.run.cwd.clone(), &i, "/dev/full", o.run.ugly);
            o.run.cfg = FaultCfg::none();
        }
        4 => {
            kind = "output directory missing";
            let out = "/work/not/there/out.rs".to_string();
            o.run.output = out.clone();
            let i = o.run.inputs.clone();
            o.run.args = args(r, &o.run.cwd.clone(), &i, &out, o.run.ugly);
        }
        5 if r.chance(1, 2) => {
            kind = "output is one of the inputs";
            over_input(r, &mut o);
            if r.chance(2, 3) {
                o.run.cfg = FaultCfg::none();
            }
        }
        _ => {}
    }
    let m = machine(r);
    single(kind, o, r, m, cap)
}
/// The output goes where one of the inputs is, or to another name of it.
fn over_input(r: &mut Rng, o: &mut One) {
    let i = o.run.inputs.clone();
    if i.is_empty() {
        return;
    }
    let p = r.pick(&i).clone();
    if o.files.iter().any(|f| f.0 == p && !matches!(f.1, FileSpec::Data(_) | FileSpec::Symlink(_))) {
        return;
    }
    o.files.retain(|f| f.0 != o.run.output);
    let arg = if r.chance(1, 3) {
        o.files.push((o.run.output.clone(), FileSpec::Symlink(p.clone())));
        o.run.output.clone()
    } else {
        o.run.output = p.clone();
        named(r, &o.run.cwd, &p)
    };
    o.run.args = args(r, &o.run.cwd.clone(), &i, &arg, o.run.ugly);
}
fn unusable_run(r: &mut Rng, names: &[String], allowed: u32) -> Scenario {
    let (kind, docs) = unusable(r);
    let mut o = one(r, vec![], false, allowed, names);
    let dir = *r.pick(&["/work/in", "/data/cldr"]);
    o.files.push((dir.to_string(), FileSpec::Dir));
    let mut inputs = vec![];
    let twice = kind == "same data twice";
    let same = twice && r.chance(1, 2);
    let link = twice && r.chance(1, 2);
    for (k, d) in docs.into_iter().enumerate() {
        let p = format!("{}/f{}.json", dir, if same { 0 } else { k });
        if let Some(f) = d {
            let f = match f {
                FileSpec::Data(_) if link && !same && k == 1 => FileSpec::Symlink(format!("{}/f0.json", dir)),
                FileSpec::Data(b) if !twice && r.chance(1, 20) => FileSpec::Fifo(b.clone(), 1000.max(b.len() / 400)),
                f => f,
            };
            o.files.push((p.clone(), f));
        }
        inputs.push(p);
    }
    if r.chance(1, 3) {
        // sound files with similar names are no substitute
        for _ in 0..1 + r.below(4) {
            let i = r.pick(&inputs).clone();
            let (d, n) = i.rsplit_once('/').unwrap();
            let stem = n.trim_end_matches(".json");
            let p = match r.below(9) {
                0 => format!("{}.json", i),
                1 => format!("{}.bak", i),
                2 => format!("{}~", i),
                3 => format!("{}/{}", o.run.cwd.trim_end_matches('/'), n),
                4 => format!("{}/{}", d, stem),
                5 => format!("{}/{}", d, n.to_uppercase()),
                6 => format!("{}.{}", i, r.pick(&["orig", "old", "tmp", "cache"])),
                7 => format!("{}/{}", r.pick(&["/tmp", "/home/user", "/work"]), n),
                _ => format!("{}/{}/{}", d, stem, n),
            };
            let has = *r.pick(&[Has::Card, Has::Ord, Has::Nothing, Has::Both]);
            if !o.files.iter().any(|f| f.0 == p || p.starts_with(&format!("{}/", f.0)) && !matches!(f.1, FileSpec::Dir)) && !inputs.contains(&p) && p != o.run.output {
                let b = doc(r, "37", has, 1);
                o.files.push((p, FileSpec::Data(b)));
            }
        }
    }
    // inputs first: nothing may be created before they are accepted
    let out = o.run.output.clone();
    o.run.args = args(r, &o.run.cwd.clone(), &inputs, &out, o.run.ugly);
    o.run.inputs = inputs;
    if r.chance(1, 12) {
        over_input(r, &mut o);
    }
    if r.chance(1, 3) {
        o.run.cfg = FaultCfg::none();
    }
    let m = machine(r);
    single(&kind, o, r, m, None)
}
fn c02(r: &mut Rng, names: &[String]) -> Scenario {
    if r.chance(1, 4) {
        // usable files that a fault makes unreadable
        let docs = usable(r);
        let mut o = one(r, docs, false, F_RERR, names);
        o.run.cfg = if r.chance(1, 2) {
            FaultCfg { classes: F_RERR, rate: 1.0, target: Some(1 + r.below(12) as u32), max: 1 }
        } else {
            FaultCfg { classes: F_RERR | F_EINTR | F_SHORT | F_STAT, rate: *r.pick(&[0.05, 0.2, 0.5]), target: None, max: *r.pick(&[1, 2, 20]) }
        };
        let m = machine(r);
        return single("input made unreadable by a fault", o, r, m, None);
    }
    unusable_run(r, names, ALL & !F_POWER)
}
fn c03(r: &mut Rng, names: &[String]) -> Scenario {
    let docs = usable(r);
    let mut o = one(r, docs, false, 0, names);
    let mut phases = vec![];
    let n = 1 + r.below(3);
    for _ in 0..n {
        let mut run = o.run.clone();
        run.cfg = match r.below(4) {
            0 => FaultCfg { classes: F_KILL | F_SHORT, rate: 1.0, target: Some(1 + r.below(56) as u32), max: 1 },
            1 => FaultCfg { classes: F_POWER, rate: 1.0, target: Some(8 + r.below(50) as u32), max: 1 },
            2 => faults(r, ALL),
            _ => faults(r, F_KILL | F_FMT | F_WERR | F_EXEC | F_RES),
        };
        run.ugly = r.chance(1, 2);
        let mut put = vec![];
        if r.chance(1, 3) {
            // an earlier version of the input
            let d = usable(r);
            let mut f = vec![];
            run.inputs = lay(r, &d, false, &mut f);
            for (p, _) in &mut f {
                *p = format!("{}.v{}", p, phases.len());
            }
            run.inputs = f.iter().map(|x| x.0.clone()).collect();
            put = f;
        }
        let out = o.run.output.clone();
        run.args = args(r, &run.cwd.clone(), &run.inputs.clone(), &out, run.ugly);
        let mut runs = vec![run.clone()];
        if r.chance(1, 8) {
            let mut second = run.clone();
            second.cfg = faults(r, F_KILL | F_SHORT);
            runs.push(second);
        }
        let cap = if r.chance(1, 5) { Some(r.below(6000) as usize) } else { None };
        phases.push(Phase { runs, mach: machine(r), sched: sched(r), cap, put, swaps: vec![] });
    }
    let mut last = Phase { runs: vec![o.run.clone()], mach: machine(r), sched: sched(r), cap: None, put: vec![], swaps: vec![] };
    if r.chance(1, 4) {
        // arbitrary content at the output path, not only what earlier runs left
        if let Some(p) = previous(r, &o.docs, o.run.ugly) {
            last.put.push((o.run.output.clone(), FileSpec::Data(p)));
        }
    }
    phases.push(last);
    let files = std::mem::take(&mut o.files);
    Scenario { prop: String::new(), kind: "history then clean run".into(), universes: vec![Universe { files, phases }] }
}
fn c04(r: &mut Rng, names: &[String]) -> Scenario {
    let docs = usable(r);
    let fifo = r.chance(1, 2);
    let mut o = one(r, docs, fifo, F_TRANSIENT, names);
    if o.run.cfg.target.is_none() {
        o.run.cfg.max = *r.pick(&[1, 3, 10, 60]);
    }
    if r.chance(1, 3) {
        o.run.cfg.classes |= F_NOISE;
    }
    let mut m = machine(r);
    if r.chance(1, 5) {
        // tiny transfers, bounded so that an undisturbed run stays far below the step bound
        let total: usize = o.docs.iter().map(|d| d.len()).sum();
        m.max_read = (total / 2000).max(1 + r.below(50) as usize);
        m.max_write = (total / 2000).max(1 + r.below(50) as usize);
    }
    single(if fifo { "piped inputs" } else { "transient faults" }, o, r, m, None)
}
fn c05(bin: &str, r: &mut Rng, names: &[String]) -> Scenario {
    let mut s = match r.below(4) {
        0 => unusable_run(r, names, ALL & !F_POWER),
        _ => {
            let docs = usable(r);
            let mut o = one(r, docs, false, ALL & !F_POWER, names);
            if r.chance(1, 3) {
                o.run.cfg = FaultCfg::none();
            }
            let m = machine(r);
            let cap = if r.chance(1, 8) { Some(r.below(20_000) as usize) } else { None };
            if r.chance(1, 15) {
                let out = r.pick(&["/work/not/there/out.rs", "/work/not/out.rs"]).to_string();
                o.run.output = out.clone();
                let i = o.run.inputs.clone();
                o.run.args = args(r, &o.run.cwd.clone(), &i, &out, o.run.ugly);
            }
            single("bystanders", o, r, m, cap)
        }
    };
    let u = &mut s.universes[0];
    let run = u.phases[0].runs[0].clone();
    let out = run.output.clone();
    let (dir, name) = out.rsplit_once('/').unwrap();
    let (dir, name) = (dir.to_string(), name.to_string());
    let stem = name.rsplit_once('.').map_or(name.clone(), |x| x.0.to_string());
    let mut cand: Vec<String> = vec![];
    for suf in ["tmp", "bak", "bk", "new", "part", "old", "orig", "lock", "swp", "rs", "rs.tmp", "json", "temp", "out", "partial", "backup", "1", "0", "err", "log", "fmt"] {
        cand.push(format!("{}.{}", name, suf));
        cand.push(format!("{}.{}", stem, suf));
        cand.push(format!(".{}.{}", name, suf));
    }
    for n in ["tmp", "temp", "mod.rs", "lib.rs", "rustfmt.toml", ".rustfmt.toml", "Cargo.toml", "out.rs", "output.rs", "rules.rs", "a.out", "core", "-", "tmp.rs", "temp.rs", "unformatted.rs"] {
        cand.push(n.to_string());
    }
    cand.push(format!("{}~", name));
    cand.push(format!("#{}#", name));
    cand.push(format!("~{}", name));
    // files next to the output would bring its directory into being
    let take = if dir.starts_with("/work/not") { 0 } else { 1 + r.below(12) };
    let mut extra: Vec<String> = vec![];
    for _ in 0..take {
        extra.push(format!("{}/{}", dir, r.pick(&cand)));
    }
    for d in ["/tmp", "/home/user", &run.cwd] {
        if r.chance(1, 3) {
            extra.push(format!("{}/{}", d.trim_end_matches('/'), r.pick(&cand)));
        }
    }
    for i in &run.inputs {
        if r.chance(1, 3) {
            extra.push(format!("{}.{}", i, r.pick(&["bak", "tmp", "lock", "cache", "rs"])));
        }
    }
    if r.chance(1, 2) {
        // every path this very run is about to touch gets an innocent occupant
        extra.extend(looked_at(bin, &s, true));
    }
    let u = &mut s.universes[0];
    let fs = {
        let mut v = base_fs();
        for (p, f) in &u.files {
            match f {
                FileSpec::Data(b) | FileSpec::Bad(b, _) => {
                    v.put(p, Kind::File(b.clone()));
                }
                FileSpec::Symlink(t) => {
                    v.put(p, Kind::Symlink(t.clone()));
                }
                _ => {
                    v.mkdirs(p);
                }
            }
        }
        v
    };
    let outp = resolve(&fs, &out);
    let tree = fs.tree();
    for e in extra {
        if e != out && e != outp && !tree.contains_key(&e) && !u.files.iter().any(|f| f.0 == e || e.starts_with(&format!("{}/", f.0)) && !matches!(f.1, FileSpec::Dir)) && !run.inputs.contains(&e) && e.starts_with('/') && !e.ends_with('/') {
            let b = format!("precious content of {}\n", e).into_bytes();
            u.files.push((e, FileSpec::Data(b)));
        }
    }
    s
}
fn c06(bin: &str, r: &mut Rng, names: &[String]) -> Scenario {
    let bad = r.chance(1, 5);
    let mut universes = vec![];
    let ugly = r.chance(1, 2);
    let (docs, specs): (Vec<Vec<u8>>, Vec<FileSpec>) = if bad {
        let (_, v) = unusable(r);
        let v: Vec<FileSpec> = v.into_iter().flatten().filter(|f| matches!(f, FileSpec::Data(_))).collect();
        let v = if v.is_empty() { vec![FileSpec::Data(vec![])] } else { v };
        (vec![], v)
    } else {
        let d = usable(r);
        (d.clone(), d.into_iter().map(FileSpec::Data).collect())
    };
    let n = 2 + r.below(2) as usize;
    for k in 0..n {
        let pl = place(r);
        let mut files = vec![];
        dirs(&mut files, &pl.out_abs);
        let dir = *r.pick(&["/work", "/data", "/work/in"]);
        let mut inputs = vec![];
        for (j, f) in specs.iter().enumerate() {
            let p = format!("{}/{}{}.json", dir, *r.pick(&["a", "b", "plurals", "zz"]), j);
            let f = match f {
                FileSpec::Data(b) if k > 0 && r.chance(1, 6) => FileSpec::Fifo(b.clone(), 1000.max(b.len() / 400)),
                f => f.clone(),
            };
            files.push((p.clone(), f));
            inputs.push(p);
        }
        if k > 0 {
            // any order
            for j in (1..inputs.len()).rev() {
                inputs.swap(j, r.below(j as u64 + 1) as usize);
            }
            if r.chance(1, 2) {
                inputs.reverse();
            }
        }
        if let Some(p) = previous(r, &docs, ugly) {
            files.push((pl.out_abs.clone(), FileSpec::Data(p)));
        }
        let run = RunSpec { args: args(r, &pl.cwd, &inputs, &pl.out_arg, ugly), env: env(r, names), cwd: pl.cwd, closed: [false; 3], stdin: Some(vec![]), cfg: FaultCfg::none(), output: pl.out_abs, ugly, inputs };
        universes.push(Universe { files, phases: vec![Phase { runs: vec![run], mach: if k == 0 { Machine::plain() } else { machine(r) }, sched: sched(r), cap: None, put: vec![], swaps: vec![] }] });
    }
    let mut s = Scenario { prop: String::new(), kind: if bad { "unusable inputs, different machines" } else { "same inputs, different machines" }.into(), universes };
    if r.chance(1, 6) {
        // other files where the run looks for some
        let k = r.below(n as u64) as usize;
        let extra = looked_at(bin, &Scenario { universes: vec![s.universes[k].clone()], ..s.clone() }, false);
        let run = s.universes[k].phases[0].runs[0].clone();
        let text = match r.below(4) {
            0 => vec![],
            1 => doc(r, "37", Has::Card, 1),
            2 => b"max_width = 20\nversion = 1\n".to_vec(),
            _ => b"#!/bin/sh\n# nothing\n".to_vec(),
        };
        for e in extra {
            if ["/work/", "/home/", "/tmp/", "/data/"].iter().any(|d| e.starts_with(d)) && !e.ends_with("/rustfmt") && e != run.output && !run.inputs.contains(&e) && !format!("{}/", run.cwd).starts_with(&format!("{}/", e)) && !run.output.starts_with(&format!("{}/", e)) && base_fs().lookup("/", &e, true).map_or(true, |l| l.ino.is_none()) {
                let u = &mut s.universes[k];
                if !u.files.iter().any(|f| f.0 == e || f.0.starts_with(&format!("{}/", e)) || e.starts_with(&format!("{}/", f.0)) && !matches!(f.1, FileSpec::Dir)) && !e.ends_with('/') {
                    u.files.push((e, FileSpec::Data(text.clone())));
                }
            }
        }
    }
    s
}
/// The paths a run is about to write to, or only looks at; without names made from the process id, the clock or random numbers: those are nobody's.
fn looked_at(bin: &str, s: &Scenario, write: bool) -> std::collections::BTreeSet<String> {
    let mut st = Stats::default();
    let mut probe = s.clone();
    probe.universes[0].phases[0].runs[0].cfg = FaultCfg::none();
    let rep = exec(bin, &probe, 0, Mode::Replay(Default::default()), false, &mut st);
    let m = &mut probe.universes[0].phases[0].mach;
    m.pid_base += 7919;
    m.rand = m.rand.wrapping_add(0x9e37_79b9_7f4a_7c15);
    m.clock += 86_461_003_007_013;
    let two = exec(bin, &probe, 0, Mode::Replay(Default::default()), false, &mut st);
    if write {
        rep.touched.intersection(&two.touched).cloned().collect()
    } else {
        rep.seen.intersection(&two.seen).filter(|p| !rep.touched.contains(*p)).cloned().collect()
    }
}
fn c07(r: &mut Rng, names: &[String]) -> Scenario {
    let n = 2 + r.below(3) as usize;
    let mut files = vec![];
    dirs(&mut files, "");
    let shared = usable(r);
    let sh = lay(r, &shared, false, &mut files);
    let outs: Vec<&str> = match r.below(5) {
        0 => vec!["/work/out.rs", "/work/out.txt", "/work/out", "/work/out.rs.rs"],
        1 => vec!["/work/a/out.rs", "/work/b/out.rs", "/work/c/out.rs", "/work/out.rs"],
        2 => vec!["/work/a.rs", "/work/b.rs", "/work/c.rs", "/work/d.rs"],
        3 => vec!["/tmp/x.rs", "/work/x.rs", "/home/user/x.rs", "/x.rs"],
        _ => vec!["/work/out1.rs", "/work/out2.rs", "/work/out10.rs", "/work/out.rs"],
    };
    for d in ["/work/a", "/work/b", "/work/c"] {
        files.push((d.into(), FileSpec::Dir));
    }
    let mut runs: Vec<RunSpec> = vec![];
    let cwd = r.pick(&["/work", "/home/user", "/tmp"]).to_string();
    let chaos = r.chance(2, 3);
    for k in 0..n {
        let (inputs, docs) = if r.chance(1, 2) {
            (sh.clone(), shared.clone())
        } else {
            let d = usable(r);
            let mut f = vec![];
            lay(r, &d, false, &mut f);
            let mut v = vec![];
            for (p, s) in f {
                let stored = p.starts_with("/data/store/");
                let p = format!("{}.{}", p, k);
                if !stored {
                    v.push(p.clone());
                }
                files.push((p, match s {
                    FileSpec::Symlink(t) => FileSpec::Symlink(format!("{}.{}", t, k)),
                    s => s,
                }));
            }
            (v, d)
        };
        let ugly = r.chance(1, 3);
        let out = outs[k].to_string();
        if let Some(p) = previous(r, &docs, ugly) {
            files.push((out.clone(), FileSpec::Data(p)));
        }
        let cfg = if k > 0 && chaos && r.chance(1, 2) { faults(r, ALL & !F_POWER) } else if r.chance(1, 4) { faults(r, F_TRANSIENT) } else { FaultCfg::none() };
        let same_cwd = r.chance(3, 4);
        let cwd = if same_cwd { cwd.clone() } else { "/work/sub".into() };
        runs.push(RunSpec { args: args(r, &cwd, &inputs, &out, ugly), env: { let nm: &[String] = if r.chance(1, 4) { names } else { &[] }; env(r, nm) }, cwd, closed: [false; 3], stdin: Some(vec![]), cfg, output: out, ugly, inputs });
    }
    let mut m = machine(r);
    m.max_read = m.max_read.max(4096);
    m.max_write = m.max_write.max(4096);
    let ph = Phase { runs, mach: m, sched: *r.pick(&[0.1, 0.3, 0.6, 1.0]), cap: None, put: vec![], swaps: vec![] };
    Scenario { prop: String::new(), kind: "concurrent runs".into(), universes: vec![Universe { files, phases: vec![ph] }] }
}
fn c08(r: &mut Rng, names: &[String]) -> Scenario {
    let docs = usable(r);
    let mut o = one(r, docs, false, F_FMT, names);
    let mut kind = "formatter faults";
    o.run.ugly = false;
    let i = o.run.inputs.clone();
    let out = o.run.output.clone();
    o.run.args = args(r, &o.run.cwd.clone(), &i, &out, false);
    let mut cap = None;
    match r.below(8) {
        0 => {
            kind = "no formatter";
            o.run.env.retain(|e| !e.starts_with("PATH="));
            o.run.env.push(r.pick(&["PATH=/usr/local/bin:/nowhere", "PATH=/work", "PATH=/tmp:/home/user"]).to_string());
            o.run.cfg = FaultCfg::none();
        }
        1 => {
            kind = "disk too full for the formatted text";
            let want = oracle::expect(&o.docs).map_or(100, |w| w.len());
            cap = Some(want + r.below(3) as usize);
            o.run.cfg = FaultCfg::none();
        }
        2 | 3 => {
            kind = "formatter cannot be started";
            o.run.cfg = FaultCfg { classes: F_EXEC | F_RES | F_FMT, rate: *r.pick(&[0.1, 0.3, 1.0]), target: if r.chance(1, 2) { Some(10 + r.below(50) as u32) } else { None }, max: *r.pick(&[1, 2, 10]) };
        }
        4 => {
            o.run.cfg = faults(r, F_FMT | F_TRANSIENT | F_STDIO | F_WERR | F_RERR);
            o.run.cfg.classes |= F_FMT;
        }
        _ => {
            o.run.cfg = FaultCfg { classes: F_FMT | if r.chance(1, 2) { F_NOISE | F_STALL } else { 0 }, rate: 0.0, target: if r.chance(1, 2) { Some(0) } else { None }, max: 9 };
        }
    }
    let m = machine(r);
    single(kind, o, r, m, cap)
}

fn c22(r: &mut Rng, names: &[String]) -> Scenario {
    match r.below(5) {
        0 => c08(r, names),
        1 => {
            // an error that stays: every call of its kind fails for long
            let docs = usable(r);
            let mut o = one(r, docs, r.0 % 4 == 0, SOFT, names);
            o.run.cfg = FaultCfg { classes: *r.pick(&[F_WERR, F_RERR, F_RES | F_EXEC, F_STDIO, F_CLOSE, F_EINTR, F_WERR | F_EINTR | F_SHORT]), rate: 1.0, target: None, max: 60 };
            let m = machine(r);
            single("errors that stay", o, r, m, None)
        }
        _ => c01(r, names),
    }
}
fn c23(r: &mut Rng, names: &[String]) -> Scenario {
    let mut s = match r.below(6) {
        0 | 1 => unusable_run(r, names, SOFT),
        2 | 3 => c08(r, names),
        _ => c01(r, names),
    };
    for u in &mut s.universes {
        for p in &mut u.phases {
            for q in &mut p.runs {
                q.closed[2] = false;
                q.cfg.classes &= !(F_STDIO | F_MEM | F_KILL | F_POWER);
                if r.chance(1, 12) {
                    // a command line that cannot be understood
                    let bad = r.pick(&[&["--nonsense"][..], &["-o"], &["stray"], &["-i"], &["-o", "/work/x.rs"]]).to_vec();
                    q.args.extend(bad.iter().map(|x| x.to_string()));
                }
                if r.chance(1, 40) {
                    q.args.clear();
                }
            }
        }
    }
    s
}
/// Another version of a document: the same tables and CLDR version, other rules and another length.
fn c24(r: &mut Rng, names: &[String]) -> Scenario {
    let ver = "37";
    let kinds: Vec<Has> = match r.below(5) {
        0 => vec![Has::Card],
        1 => vec![Has::Both],
        2 => vec![Has::Ord, Has::Nothing],
        _ => vec![Has::Card, Has::Ord],
    };
    let mixed = r.chance(1, 6);
    let make = |r: &mut Rng, h: Has| {
        for _ in 0..30 {
            let n = *r.pick(&[1u64, 1, 2, 3, 6, 20]);
            let v = if mixed && r.chance(1, 2) { "36" } else { ver };
            let d = doc(r, v, h, n);
            let mut probe = vec![d.clone()];
            if h == Has::Nothing {
                probe.push(small("en", "pluralRule-count-one", "n = 1", v, true));
            }
            if oracle::expect(&probe).is_some() {
                return d;
            }
        }
        small("en", "pluralRule-count-one", "n = 1", ver, h != Has::Ord)
    };
    let docs: Vec<Vec<u8>> = kinds.iter().map(|&h| make(r, h)).collect();
    let mut o = one(r, docs, false, 0, names);
    // names of inputs may be links: those are replaced themselves
    let mut swaps = vec![];
    for (k, &h) in kinds.iter().enumerate() {
        if r.chance(3, 4) || swaps.is_empty() && k + 1 == kinds.len() {
            let n = 1 + r.below(3);
            let vs: Vec<Vec<u8>> = (0..n).map(|_| make(r, h)).collect();
            swaps.push((o.run.inputs[k].clone(), vs));
        }
    }
    if r.chance(1, 3) {
        o.run.cfg = faults(r, F_TRANSIENT);
    }
    let m = machine(r);
    let mut s = single(if mixed { "inputs replaced, versions may clash" } else { "inputs replaced during the run" }, o, r, m, None);
    s.universes[0].phases[0].swaps = swaps;
    s.universes[0].phases[0].sched = *r.pick(&[0.1, 0.3, 0.3, 0.6]);
    s
}
/// The same work done several times over at once, into one file.
fn c26(r: &mut Rng, names: &[String]) -> Scenario {
    let docs = usable(r);
    let mut o = one(r, docs.clone(), false, 0, names);
    let n = 2 + r.below(3);
    let mut runs = vec![];
    for k in 0..n {
        let mut q = o.run.clone();
        q.ugly = true;
        let mut inputs = q.inputs.clone();
        if r.chance(1, 3) {
            // copies of the inputs, or the inputs in another order
            let mut f = vec![];
            let v = lay(r, &docs, false, &mut f);
            if !o.files.iter().any(|x| f.iter().any(|y| x.0 == y.0 && x.1 != y.1)) {
                for y in f {
                    if !o.files.iter().any(|x| x.0 == y.0) {
                        o.files.push(y);
                    }
                }
                inputs = v;
            }
        }
        q.cwd = if r.chance(3, 4) { q.cwd } else { "/work/sub".into() };
        q.args = args(r, &q.cwd, &inputs, &q.output, true);
        q.inputs = inputs;
        let nm: &[String] = if r.chance(1, 4) { names } else { &[] };
        if k > 0 && r.chance(1, 2) {
            q.env = env(r, nm);
        }
        if r.chance(1, 3) {
            q.cfg = faults(r, F_TRANSIENT);
        }
        runs.push(q);
    }
    let mut m = machine(r);
    m.max_read = m.max_read.max(512);
    m.max_write = m.max_write.max(*r.pick(&[64, 512, 4096]));
    let ph = Phase { runs, mach: m, sched: *r.pick(&[0.05, 0.1, 0.3, 0.6, 1.0]), cap: None, put: vec![], swaps: vec![] };
    Scenario { prop: String::new(), kind: "the same run several times at once".into(), universes: vec![Universe { files: o.files, phases: vec![ph] }] }
}
