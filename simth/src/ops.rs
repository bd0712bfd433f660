//! What a history consists of, how one step is performed on the real libraries, and what it must return.
use crate::dec::mix;
use crate::rt::*;
use cldr_pluralrules_parser::{parse_plural_condition, parse_plural_rule};
use intl_pluralrules::operands::PluralOperands;
use intl_pluralrules::{PluralRuleType, PluralRules};
use serde::{Deserialize, Serialize};
use std::convert::TryFrom;
use std::convert::TryInto;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use unic_langid::LanguageIdentifier;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Num {
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    Isize(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    Usize(u64),
    /// bits, so that every value survives the replay file
    F32(u32),
    F64(u64),
    Str(String),
    Owned(String),
}
/// What the caller's own conversion does when the library calls it.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cb {
    /// a plain argument of the library's own types
    No,
    /// a caller's type that behaves
    Own,
    Fail,
    Panic,
    /// calls the library again, then behaves
    Enter(Vec<Op>),
    /// waits until the given thread of the scenario has ended (if it comes after the caller's), then behaves
    Await(usize),
    /// calls the library again, then panics
    EnterPanic(Vec<Op>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    New { slot: usize, cb: Cb },
    Clone { from: usize, to: usize },
    Drop { slot: usize },
    Sel { slot: usize, num: Num, cb: Cb },
    Loc { slot: usize },
    List { ord: bool },
    Ops { num: Num },
    Parse { text: String, cond: bool, cb: Cb },
    Gen { docs: Vec<usize> },
    Clock { secs: i64 },
    Env { seed: u64 },
    Yield,
    /// an object of its own for one question, dropped or kept for ever
    Make { loc: String, ord: bool, num: Num, keep: bool },
    Rep { n: u32, ops: Vec<Op> },
    /// n calls of one kind whose arguments nobody used before; the answers are dropped
    Churn { what: u32, seed: u64, n: u32 },
    /// remembers how much memory is in use, or compares with what was remembered
    Mem { limit: u64 },
    /// in a thread of its own, which then ends
    Spawn { ops: Vec<Op> },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Slot {
    pub loc: String,
    pub ord: bool,
}

/// A step with what it must return.
pub struct Node {
    pub op: Op,
    pub want: Option<String>,
    pub kids: Vec<Node>,
}

pub const SLOTS: usize = 24;
/// Lets the harness pass objects around even if their type forbids it (that is judged separately).
struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

static mut OBJ: [Option<Arc<Share<PluralRules>>>; SLOTS] = [const { None }; SLOTS];
static mut ENV: *const Env = std::ptr::null();
pub struct Env {
    pub slots: Vec<Slot>,
    pub docs: Vec<String>,
}
pub fn set_env(e: &'static Env) {
    unsafe { ENV = e }
}
fn env() -> &'static Env {
    unsafe { &*ENV }
}
pub fn prt(ord: bool) -> PluralRuleType {
    if ord {
        PluralRuleType::ORDINAL
    } else {
        PluralRuleType::CARDINAL
    }
}

struct CbNum<'a> {
    num: &'a Num,
    cb: &'a Cb,
    kids: &'a [Node],
}
pub static mut REUSE: u64 = 0;
thread_local! {
    static BUF: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]);
}
/// Hands texts to the code under test: where they lie, or in fresh memory, or in a buffer the caller uses again and again.
fn lend<R>(src: &[&str], f: impl FnOnce(&[String]) -> R) -> R {
    if unsafe { REUSE } < 2 {
        let v: Vec<String> = src.iter().map(|s| s.to_string()).collect();
        return f(&v);
    }
    let mut v = BUF.with(|b| b.take());
    v.truncate(src.len());
    for (k, s) in src.iter().enumerate() {
        if k < v.len() {
            v[k].clear();
            v[k].push_str(s);
        } else {
            let mut t = String::with_capacity(s.len().max(256));
            t.push_str(s);
            v.push(t);
        }
    }
    struct G(Vec<String>);
    impl Drop for G {
        fn drop(&mut self) {
            let v = std::mem::take(&mut self.0);
            let _ = BUF.try_with(|b| b.replace(v));
        }
    }
    let g = G(v);
    f(&g.0)
}
fn convert(n: &Num) -> Result<PluralOperands, &'static str> {
    Ok(match n {
        Num::I8(x) => return PluralOperands::try_from(*x),
        Num::I16(x) => return PluralOperands::try_from(*x),
        Num::I32(x) => return PluralOperands::try_from(*x),
        Num::I64(x) => return PluralOperands::try_from(*x),
        Num::Isize(x) => return PluralOperands::try_from(*x as isize),
        Num::U8(x) => PluralOperands::from(*x),
        Num::U16(x) => PluralOperands::from(*x),
        Num::U32(x) => PluralOperands::from(*x),
        Num::U64(x) => PluralOperands::from(*x),
        Num::Usize(x) => PluralOperands::from(*x as usize),
        Num::F32(x) => return PluralOperands::try_from(f32::from_bits(*x)),
        Num::F64(x) => return PluralOperands::try_from(f64::from_bits(*x)),
        Num::Str(s) => return if unsafe { REUSE } == 0 { PluralOperands::try_from(s.as_str()) } else { lend(&[s], |v| PluralOperands::try_from(v[0].as_str())) },
        Num::Owned(s) => return PluralOperands::try_from(s.clone()),
    })
}
/// Thread numbers of the scenario's threads.
pub static mut TID: [i32; 64] = [0; 64];
pub static mut NTID: usize = 0;
/// Panics of the callers' conversions, and how many of them the panic hook was told of.
pub static mut RAISED: u64 = 0;
pub static mut HOOKED: u64 = 0;
const RAISE: &str = "the caller's conversion panics";
pub fn raise() -> ! {
    quiet(|| unsafe { RAISED += 1 });
    panic!("the caller's conversion panics")
}
pub fn hook(i: &std::panic::PanicHookInfo) {
    quiet(|| unsafe {
        if i.payload().downcast_ref::<&str>() == Some(&RAISE) {
            HOOKED += 1;
        }
    })
}
fn act(cb: &Cb, kids: &[Node]) {
    match cb {
        Cb::No | Cb::Own | Cb::Fail => {}
        Cb::Panic => raise(),
        Cb::Await(t) => unsafe {
            let me = sim_me();
            let own = (0..NTID).find(|&k| TID[k] == me);
            if let Some(k) = own {
                if *t > k && *t < NTID {
                    sim_await(TID[*t]);
                }
            }
        },
        Cb::Enter(_) => quiet(|| perform(kids)),
        Cb::EnterPanic(_) => {
            quiet(|| perform(kids));
            raise()
        }
    }
}
impl<'a> TryInto<PluralOperands> for CbNum<'a> {
    type Error = &'static str;
    fn try_into(self) -> Result<PluralOperands, &'static str> {
        act(self.cb, self.kids);
        if *self.cb == Cb::Fail {
            return Err("the caller's conversion fails");
        }
        convert(self.num)
    }
}
struct CbLang<'a> {
    loc: LanguageIdentifier,
    cb: &'a Cb,
    kids: &'a [Node],
}
impl<'a> Into<LanguageIdentifier> for CbLang<'a> {
    fn into(self) -> LanguageIdentifier {
        act(self.cb, self.kids);
        self.loc
    }
}
struct CbText<'a> {
    text: &'a str,
    cb: &'a Cb,
    kids: &'a [Node],
}
impl<'a> AsRef<str> for CbText<'a> {
    fn as_ref(&self) -> &str {
        act(self.cb, self.kids);
        self.text
    }
}

fn langid(s: &str) -> LanguageIdentifier {
    s.parse().unwrap_or_default()
}
fn create(slot: usize, cb: &Cb, kids: &[Node]) -> Result<PluralRules, &'static str> {
    let s = &env().slots[slot];
    let l = langid(&s.loc);
    let t = prt(s.ord);
    open(|| match cb {
        Cb::No => PluralRules::create(l, t),
        _ => PluralRules::create(CbLang { loc: l, cb, kids }, t),
    })
}
fn get(slot: usize) -> Option<Arc<Share<PluralRules>>> {
    unsafe {
        sim_hand(slot as i32, 0);
        (*std::ptr::addr_of!(OBJ))[slot].clone()
    }
}
fn set(slot: usize, v: Option<Arc<Share<PluralRules>>>) {
    unsafe { sim_hand(slot as i32, 1) };
    let old = unsafe { std::mem::replace(&mut (*std::ptr::addr_of_mut!(OBJ))[slot], v) };
    open(|| drop(old));
}
/// The slot's object, or a new one if there is none.
fn obtain(slot: usize) -> Result<Arc<Share<PluralRules>>, &'static str> {
    match get(slot) {
        Some(o) => Ok(o),
        None => create(slot, &Cb::No, &[]).map(|p| Arc::new(Share(p))),
    }
}
fn select(p: &PluralRules, num: &Num, cb: &Cb, kids: &[Node]) -> Result<intl_pluralrules::PluralCategory, &'static str> {
    open(|| {
        if *cb != Cb::No {
            return p.select(CbNum { num, cb, kids });
        }
        match num {
            Num::I8(x) => p.select(*x),
            Num::I16(x) => p.select(*x),
            Num::I32(x) => p.select(*x),
            Num::I64(x) => p.select(*x),
            Num::Isize(x) => p.select(*x as isize),
            Num::U8(x) => p.select(*x),
            Num::U16(x) => p.select(*x),
            Num::U32(x) => p.select(*x),
            Num::U64(x) => p.select(*x),
            Num::Usize(x) => p.select(*x as usize),
            Num::F32(x) => p.select(f32::from_bits(*x)),
            Num::F64(x) => p.select(f64::from_bits(*x)),
            Num::Str(s) => if unsafe { REUSE } == 0 { p.select(s.as_str()) } else { lend(&[s], |v| p.select(v[0].as_str())) },
            Num::Owned(s) => p.select(s.clone()),
        }
    })
}
pub fn payload(e: Box<dyn std::any::Any + Send>) -> String {
    let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or("?".into());
    format!("panic: {}", m)
}
/// One step; its observable result as text. Called with preemption off.
pub fn step(op: &Op, kids: &[Node]) -> Option<String> {
    let np = unsafe { sim_np_get() };
    let r = catch_unwind(AssertUnwindSafe(|| match op {
        Op::New { slot, cb } => {
            let r = create(*slot, cb, kids);
            let s = match &r {
                Ok(p) => format!("rules for {}", p.get_locale()),
                Err(e) => format!("error {}", e),
            };
            if let Ok(p) = r {
                set(*slot, Some(Arc::new(Share(p))));
            }
            Some(s)
        }
        Op::Clone { from, to } => {
            match obtain(*from) {
                Ok(o) => {
                    let c = open(|| o.0.clone());
                    let s = format!("clone for {}", c.get_locale());
                    set(*to, Some(Arc::new(Share(c))));
                    Some(s)
                }
                Err(e) => Some(format!("no object: {}", e)),
            }
        }
        Op::Drop { slot } => {
            set(*slot, None);
            None
        }
        Op::Sel { slot, num, cb } => Some(match obtain(*slot) {
            Ok(o) => {
                let r = select(&o.0, num, cb, kids);
                let s = format!("{:?}", r);
                open(|| drop(o));
                s
            }
            Err(e) => format!("no object: {}", e),
        }),
        Op::Loc { slot } => Some(match obtain(*slot) {
            Ok(o) => open(|| o.0.get_locale().clone()).to_string(),
            Err(e) => format!("no object: {}", e),
        }),
        Op::Make { loc, ord, num, keep } => {
            let l: LanguageIdentifier = match loc.parse() {
                Ok(l) => l,
                Err(_) => return Some("no locale".into()),
            };
            Some(match open(|| PluralRules::create(l, prt(*ord))) {
                Ok(p) => {
                    let r = select(&p, num, &Cb::No, &[]);
                    let s = format!("{} {:?}", p.get_locale(), r);
                    if *keep {
                        std::mem::forget(p);
                    } else {
                        open(|| drop(p));
                    }
                    s
                }
                Err(e) => format!("error {}", e),
            })
        }
        Op::List { ord } => {
            let v = open(|| PluralRules::get_locales(prt(*ord)));
            Some(v.iter().map(|l| l.to_string()).collect::<Vec<_>>().join(" "))
        }
        Op::Ops { num } => {
            let r = open(|| convert(num));
            Some(format!("{:?}", r))
        }
        Op::Parse { text, cond, cb } => Some(if *cond {
            let r = open(|| match cb {
                Cb::No => if unsafe { REUSE } == 0 { parse_plural_condition(text) } else { lend(&[text], |v| parse_plural_condition(&v[0])) },
                _ => parse_plural_condition(CbText { text, cb, kids }),
            });
            format!("{:?}", r)
        } else {
            let r = open(|| match cb {
                Cb::No => if unsafe { REUSE } == 0 { parse_plural_rule(text) } else { lend(&[text], |v| parse_plural_rule(&v[0])) },
                _ => parse_plural_rule(CbText { text, cb, kids }),
            });
            format!("{:?}", r)
        }),
        Op::Gen { docs } => {
            let v: Vec<&str> = docs.iter().map(|&d| env().docs[d].as_str()).collect();
            lend(&v, |v| Some(open(|| make_pluralrules::generate_rs(v))))
        }
        Op::Clock { secs } => {
            unsafe { sim_clock(secs * 1_000_000_000) };
            None
        }
        Op::Env { seed } => {
            unsafe { sim_env(*seed) };
            None
        }
        Op::Yield => {
            open(|| unsafe { sim_yield() });
            None
        }
        Op::Churn { what, seed, n } => {
            for k in 0..*n as u64 {
                churn(*what, mix(seed ^ mix(k)));
            }
            None
        }
        Op::Mem { limit } => {
            static mut BASE: u64 = 0;
            let now = unsafe { sim_live() };
            if *limit == 0 {
                unsafe { BASE = now };
                return None;
            }
            let d = now.saturating_sub(unsafe { BASE });
            Some(if unsafe { BASE } == 0 || d <= *limit { "memory in use has not grown".into() } else { format!("memory in use has grown from {} to {} bytes although nothing was kept", unsafe { BASE }, now) })
        }
        Op::Rep { n, .. } => {
            for _ in 0..*n {
                perform(kids);
            }
            None
        }
        Op::Spawn { .. } => {
            spawn(kids).join().expect("harness thread");
            None
        }
    }));
    unsafe { sim_np_set(np) };
    match r {
        Ok(s) => s,
        Err(e) => Some(payload(e)),
    }
}
/// One call with arguments derived from x; whatever it returns is dropped at once.
fn churn(what: u32, x: u64) {
    let a = x % 1_000_003;
    let np = unsafe { sim_np_get() };
    let r = catch_unwind(AssertUnwindSafe(|| match what {
        0 | 1 => {
            let n = match x >> 40 & 7 {
                0 => Num::U64(x >> 3),
                1 => Num::I32(x as i32),
                2 => Num::F64((a as f64 / 64.0).to_bits()),
                3 => Num::Str(format!("{}.{}0", a, x >> 50)),
                4 => Num::Owned(format!("{}", x)),
                5 => Num::Str(format!("{}e", x >> 30)),
                6 => Num::F32((a as f32 / 8.0).to_bits()),
                _ => Num::U32(x as u32),
            };
            if what == 0 {
                let _ = open(|| convert(&n));
            } else if let Ok(p) = create((x >> 20) as usize % env().slots.len(), &Cb::No, &[]) {
                let _ = select(&p, &n, &Cb::No, &[]);
                open(|| drop(p));
            }
        }
        2 => {
            let s = &env().slots[(x >> 20) as usize % env().slots.len()];
            let b = s.loc.split('-').next().unwrap_or("en");
            let l: Result<LanguageIdentifier, _> = match x >> 50 & 3 {
                0 => s.loc.parse(),
                1 => format!("{}-{:03}", b, a % 1000).parse(),
                2 => format!("{}-v{:x}", b, 4096 + a).parse(),
                _ => format!("{}{}{}", (b'a' + (a % 26) as u8) as char, (b'a' + (a / 26 % 26) as u8) as char, (b'a' + (a / 676 % 26) as u8) as char).parse(),
            };
            if let Ok(l) = l {
                let _ = open(|| PluralRules::create(l, prt(x >> 60 & 1 == 1)));
            }
        }
        3 => {
            let t = match x >> 40 & 3 {
                0 => format!("n % {} = {}..{}", 2 + a % 997, x >> 52, (x >> 52) + 7),
                1 => format!("i = {} and v != {}", a, x >> 54),
                2 => format!("n = {} or n = {} @integer {}, {}~{}", a, x >> 50, a, a, a + 9),
                _ => format!("f != {}", x),
            };
            if x >> 60 & 1 == 1 {
                let _ = open(|| parse_plural_condition(&t));
            } else {
                let _ = open(|| parse_plural_rule(&t));
            }
        }
        4 => {
            let t = match x >> 40 & 3 {
                0 => format!("n = = {}", a),
                1 => format!("{} = n", a),
                2 => format!("n = 1 and x{:x} = 3", a),
                _ => format!("n % {} @", x),
            };
            if x >> 60 & 1 == 1 {
                let _ = open(|| parse_plural_condition(&t));
            } else {
                let _ = open(|| parse_plural_rule(&t));
            }
        }
        5 => {
            // the caller's own conversion panics in the middle of a call
            let slot = (x >> 20) as usize % env().slots.len();
            match x >> 40 & 3 {
                0 => {
                    let _ = create(slot, &Cb::Panic, &[]);
                }
                1 => {
                    let t = format!("n = {}", a);
                    let _ = open(|| parse_plural_rule(CbText { text: &t, cb: &Cb::Panic, kids: &[] }));
                }
                k => {
                    if let Ok(p) = create(slot, &Cb::No, &[]) {
                        let _ = select(&p, &Num::U64(a), if k == 2 { &Cb::Panic } else { &Cb::Fail }, &[]);
                    }
                }
            }
        }
        6 => {
            let _ = open(|| PluralRules::get_locales(prt(x & 1 == 1)));
            if let Ok(p) = create((x >> 20) as usize % env().slots.len(), &Cb::No, &[]) {
                let c = open(|| p.clone());
                open(|| drop(p));
                let _ = select(&c, &Num::U64(a), &Cb::No, &[]);
                open(|| drop(c));
            }
        }
        7 => {
            let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || quiet(|| {
                for k in 0..5 {
                    churn([0, 1, 2, 3, 4][(k + x % 5) as usize % 5], mix(x + k));
                }
            }));
            h.expect("thread").join().expect("harness thread");
        }
        9 => {
            // generations that are given up, sooner or later
            let kind = x >> 40 & 3;
            let mut t: Vec<String> = (0..40).map(|k| format!("\"{}{}q\":{{\"pluralRule-count-one\":\"n = {}\",\"pluralRule-count-few\":\"i != {}..{}\"}}", (b'a' + (a % 26) as u8) as char, (b'a' + k % 26) as char, a, k, a)).collect();
            match kind {
                0 => t.push("\"zzz\":{\"pluralRule-count-one\":\"??\"}".into()),
                1 => t.push("\"not a locale!\":{\"pluralRule-count-one\":\"n = 1\"}".into()),
                _ => {}
            }
            let doc = |v: &str, end: &str| format!("{{\"supplemental\":{{\"version\":{{\"_cldrVersion\":\"{}\",\"_unicodeVersion\":\"9\"}},\"plurals-type-{}\":{{{}}}}}}}{}", v, if x >> 60 & 1 == 1 { "ordinal" } else { "cardinal" }, t.join(","), end);
            let d = match kind {
                2 => vec![doc("37", ""), doc("36", "")],
                3 => vec![doc("37", "}")],
                _ => vec![doc("37", "")],
            };
            let _ = open(|| make_pluralrules::generate_rs(&d));
        }
        _ => {
            let v = if x >> 40 & 7 == 0 { "x" } else { "37" };
            let d = format!(
                "{{\"supplemental\":{{\"version\":{{\"_cldrVersion\":\"{}\",\"_unicodeVersion\":\"9\"}},\"plurals-type-{}\":{{\"{}{}q\":{{\"pluralRule-count-one\":\"n = {}\",\"pluralRule-count-few\":\"{} != {}\"}}}}}}}}",
                v, if x >> 60 & 1 == 1 { "ordinal" } else { "cardinal" }, (b'a' + (a % 26) as u8) as char, (b'a' + (a / 26 % 26) as u8) as char, a, if x >> 45 & 7 == 0 { "?" } else { "i" }, x >> 50
            );
            let _ = open(|| make_pluralrules::generate_rs(&[d]));
        }
    }));
    unsafe { sim_np_set(np) };
    drop(r);
}
pub fn spawn(kids: &[Node]) -> std::thread::JoinHandle<()> {
    let k: &'static [Node] = unsafe { std::mem::transmute(kids) };
    let k = Share(k);
    std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            let k = k;
            quiet(|| perform(k.0))
        })
        .expect("thread")
}
/// Performs the steps and judges each result at once. Called with preemption off.
pub fn perform(nodes: &[Node]) {
    for n in nodes {
        let got = step(&n.op, &n.kids);
        crate::run::result(n, got);
    }
}
/// The step as it would be alone: nothing re-entrant in it.
pub fn alone(op: &Op) -> Op {
    let strip = |cb: &Cb| match cb {
        Cb::Enter(_) | Cb::Await(_) => Cb::Own,
        Cb::EnterPanic(_) => Cb::Panic,
        c => c.clone(),
    };
    match op {
        Op::New { slot, cb } => Op::New { slot: *slot, cb: strip(cb) },
        Op::Sel { slot, num, cb } => Op::Sel { slot: *slot, num: num.clone(), cb: strip(cb) },
        Op::Parse { text, cond, cb } => Op::Parse { text: text.clone(), cond: *cond, cb: strip(cb) },
        o => o.clone(),
    }
}
pub fn inner(op: &Op) -> &[Op] {
    match op {
        Op::New { cb: Cb::Enter(v) | Cb::EnterPanic(v), .. } | Op::Sel { cb: Cb::Enter(v) | Cb::EnterPanic(v), .. } | Op::Parse { cb: Cb::Enter(v) | Cb::EnterPanic(v), .. } => v,
        Op::Rep { ops, .. } | Op::Spawn { ops } => ops,
        _ => &[],
    }
}
pub fn inner_mut(op: &mut Op) -> Option<&mut Vec<Op>> {
    match op {
        Op::New { cb: Cb::Enter(v) | Cb::EnterPanic(v), .. } | Op::Sel { cb: Cb::Enter(v) | Cb::EnterPanic(v), .. } | Op::Parse { cb: Cb::Enter(v) | Cb::EnterPanic(v), .. } => Some(v),
        Op::Rep { ops, .. } | Op::Spawn { ops } => Some(ops),
        _ => None,
    }
}
pub fn judged(op: &Op) -> bool {
    !matches!(op, Op::Mem { limit: 0 } | Op::Churn { .. } | Op::Drop { .. } | Op::Clock { .. } | Op::Env { .. } | Op::Yield | Op::Rep { .. } | Op::Spawn { .. })
}
/// Identity of the question: the step alone, with slots and documents replaced by what they stand for.
pub fn key(op: &Op, e: &Env) -> String {
    let a = alone(op);
    let id = |s: usize| format!("{}/{}", e.slots[s].loc, e.slots[s].ord);
    match &a {
        Op::New { slot, cb } => format!("new {} {:?}", id(*slot), cb),
        Op::Clone { from, .. } => format!("clone {}", id(*from)),
        Op::Sel { slot, num, cb } => format!("sel {} {:?} {:?}", id(*slot), num, cb),
        Op::Loc { slot } => format!("loc {}", id(*slot)),
        Op::Make { loc, ord, num, .. } => format!("make {} {} {:?}", loc, ord, num),
        Op::Gen { docs } => format!("gen {:?}", docs.iter().map(|&d| e.docs[d].as_str()).collect::<Vec<_>>()),
        o => format!("{:?}", o),
    }
}
/// Can rules objects be shared and sent between threads?
pub fn send_sync() -> Option<&'static str> {
    use std::marker::PhantomData;
    struct P<T>(PhantomData<T>);
    trait No {
        const S: bool = false;
        const Y: bool = false;
    }
    impl<T> No for P<T> {}
    struct PS<T>(PhantomData<T>);
    impl<T> No for PS<T> {}
    impl<T: Send> P<T> {
        const S: bool = true;
    }
    impl<T: Sync> PS<T> {
        const Y: bool = true;
    }
    if !P::<PluralRules>::S || !P::<PluralOperands>::S || !P::<intl_pluralrules::PluralCategory>::S {
        return Some("rules objects, operands or categories cannot be moved to another thread (not Send)");
    }
    if !PS::<PluralRules>::Y || !PS::<PluralOperands>::Y {
        return Some("rules objects or operands cannot be shared between threads (not Sync)");
    }
    None
}
