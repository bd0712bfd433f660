//! One simulated run in a forked child of this (pristine) process; the reference is obtained the same way.
use crate::dec::*;
use crate::ops::*;
use crate::rt::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Strat {
    pub kind: i32,
    pub p_inv: u32,
    pub d: i32,
    pub horizon: u64,
    pub spurious_inv: u32,
    #[serde(default)]
    pub weak_inv: u32,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub kind: String,
    pub slots: Vec<Slot>,
    pub docs: Vec<String>,
    pub pre: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    pub post: Vec<Op>,
    pub strat: Strat,
    pub clock: u64,
    pub rnd: u64,
    pub env: u64,
    /// 0: addresses of freed memory come back late; 1: at once; 2: and callers reuse their buffers
    #[serde(default)]
    pub reuse: u64,
}
pub const STEP_CAP: u64 = 400_000_000;
const TXT: usize = 1 << 22;

#[repr(C)]
pub struct Shm {
    pub stat: Stat,
    pub done: u32,
    pub viol: u32,
    pub thread: i32,
    pub at_step: u64,
    pub judged: u64,
    pub reject: u64,
    pub hash: u64,
    pub len: usize,
    pub txt: [u8; TXT],
}
static mut SHM: *mut Shm = std::ptr::null_mut();
pub fn init() {
    unsafe {
        SHM = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shm>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut Shm;
        assert!(SHM as isize != -1);
    }
}
fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
fn put(s: &str) {
    let m = shm();
    let n = s.len().min(TXT);
    m.txt[..n].copy_from_slice(&s.as_bytes()[..n]);
    m.len = n;
}
fn reset() {
    let m = shm();
    unsafe { std::ptr::write_bytes(&mut m.stat as *mut Stat as *mut u8, 0, std::mem::size_of::<Stat>() - 8 * 131072) };
    m.done = 0;
    m.viol = 0;
    m.thread = 0;
    m.at_step = 0;
    m.judged = 0;
    m.reject = 0;
    m.hash = 0;
    m.len = 0;
}
static mut LOG: bool = false;
fn clip(s: &str) -> String {
    if s.chars().count() > 240 {
        let h = hash_str(1, s);
        format!("{}... [{} bytes, #{:016x}]", s.chars().take(200).collect::<String>(), s.len(), h)
    } else {
        s.to_string()
    }
}
/// Called in the child with the result of every step.
pub fn result(n: &Node, got: Option<String>) {
    let m = shm();
    let (want, got) = match (&n.want, &got) {
        (Some(w), Some(g)) => (w, g),
        _ => return,
    };
    m.judged += 1;
    if got.starts_with("panic") || got.starts_with("Err") || got.starts_with("error") {
        m.reject += 1;
    }
    let me = unsafe { sim_me() };
    m.hash = mix(m.hash ^ hash_str(me as u64, got));
    unsafe {
        if LOG {
            eprintln!("step {:9} thread {} {} -> {}", sim_steps(), me, clip(&format!("{:?}", alone(&n.op))), clip(got));
        }
    }
    if want != got {
        m.viol = 1;
        m.thread = me;
        m.at_step = unsafe { sim_steps() };
        if let Op::Mem { .. } = n.op {
            put(got);
        } else {
            put(&format!("{} gives {} here but {} when made alone in a fresh process", clip(&format!("{:?}", alone(&n.op))), clip(got), clip(want)));
        }
        unsafe {
            sim_stop();
            libc::_exit(78)
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Wrong(String),
    Deadlock,
    Stuck,
    Crash(i32),
    Exit(i32),
    Silent,
    Race(String),
    Effect(String),
}
impl End {
    pub fn class(&self) -> &'static str {
        match self {
            End::Ok => "ok",
            End::Wrong(_) => "wrong-result",
            End::Deadlock => "deadlock",
            End::Stuck => "no-progress",
            End::Crash(_) => "crash",
            End::Exit(_) => "exit",
            End::Silent => "hang",
            End::Race(_) => "data-race",
            End::Effect(_) => "effect",
        }
    }
    pub fn text(&self) -> String {
        match self {
            End::Ok => "ok".into(),
            End::Wrong(s) | End::Race(s) | End::Effect(s) => s.clone(),
            End::Deadlock => "all threads wait for each other for ever".into(),
            End::Stuck => format!("calls do not return within {} steps", STEP_CAP),
            End::Crash(s) => format!("the process is killed by signal {}", s),
            End::Exit(c) => format!("the process exits with status {} inside a call", c),
            End::Silent => "a call neither returns nor touches memory, locks or clock for 100 s".into(),
        }
    }
}
pub struct Outcome {
    pub end: End,
    pub dec: Vec<(u64, u64)>,
    pub hash: u64,
    pub steps: u64,
    pub judged: u64,
}
fn child_common() {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    std::panic::set_hook(Box::new(hook));
}
fn wait(pid: i32) -> Option<i32> {
    // EINTR comes from the watchdog timer
    unsafe {
        let mut it: libc::itimerval = std::mem::zeroed();
        it.it_value.tv_sec = 100;
        libc::setitimer(libc::ITIMER_REAL, &it, std::ptr::null_mut());
        let mut st = 0;
        let r = libc::waitpid(pid, &mut st, 0);
        it.it_value.tv_sec = 0;
        libc::setitimer(libc::ITIMER_REAL, &it, std::ptr::null_mut());
        if r < 0 {
            libc::kill(pid, libc::SIGKILL);
            while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
            return None;
        }
        Some(st)
    }
}

/// Reference answers, shared by all workers: open hashing by the question's hash into one text area.
const SLOTN: usize = 1 << 20;
const AREA: usize = 1 << 30;
#[repr(C)]
struct Memo {
    used: AtomicU64,
    key: [AtomicU64; SLOTN],
    val: [AtomicU64; SLOTN],
    area: [u8; AREA],
}
static mut MEMO: *mut Memo = std::ptr::null_mut();
pub fn init_memo() {
    unsafe {
        MEMO = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Memo>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as *mut Memo;
        assert!(MEMO as isize != -1);
        (*MEMO).used.store(8, Ordering::SeqCst);
    }
}
fn memo_get(h: u64) -> Option<String> {
    let m = unsafe { &*MEMO };
    let mut k = h as usize % SLOTN;
    for _ in 0..64 {
        match m.key[k].load(Ordering::SeqCst) {
            0 => return None,
            x if x == h => {
                let v = m.val[k].load(Ordering::SeqCst);
                if v == 0 {
                    return None;
                }
                let (off, len) = ((v >> 24) as usize, (v & 0xff_ffff) as usize - 1);
                return Some(String::from_utf8_lossy(&m.area[off..off + len]).into_owned());
            }
            _ => k = (k + 1) % SLOTN,
        }
    }
    None
}
fn memo_put(h: u64, s: &str) {
    let m = unsafe { &mut *MEMO };
    if s.len() + 1 > 0xff_ffff {
        return;
    }
    let mut k = h as usize % SLOTN;
    for _ in 0..64 {
        match m.key[k].compare_exchange(0, h, Ordering::SeqCst, Ordering::SeqCst) {
            Err(x) if x != h => {
                k = (k + 1) % SLOTN;
                continue;
            }
            _ => {}
        }
        let off = m.used.fetch_add(s.len() as u64, Ordering::SeqCst) as usize;
        if off + s.len() > AREA {
            return;
        }
        m.area[off..off + s.len()].copy_from_slice(s.as_bytes());
        m.val[k].store((off as u64) << 24 | (s.len() as u64 + 1), Ordering::SeqCst);
        return;
    }
}

pub struct Oracle {
    pub asked: u64,
    /// results are compared with those of fresh processes
    pub judge: bool,
}
impl Oracle {
    pub fn new() -> Oracle {
        Oracle { asked: 0, judge: true }
    }
    /// What the step returns when it is the only thing a fresh process does.
    pub fn ask(&mut self, op: &Op, e: &Env) -> String {
        let h = hash_str(11, &key(op, e)) | 1;
        if let Some(v) = memo_get(h) {
            return v;
        }
        self.asked += 1;
        let a = alone(op);
        reset();
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            child_common();
            let env: &'static Env = unsafe { std::mem::transmute(e) };
            set_env(env);
            let c = Cfg { kind: 0, p_inv: 1, seed: 1, d: 0, horizon: 1, spurious_inv: 0, step_cap: STEP_CAP, clock: 1_700_000_000_000_000_000, rnd: 1, env: 0, dec: std::ptr::null(), ndec: 0, weak_inv: 0, reuse: 0, effects: 0 };
            unsafe { sim_start(&c, &mut shm().stat) };
            let r = quiet(|| step(&a, &[]));
            unsafe { sim_stop() };
            put(&r.unwrap_or_default());
            shm().done = 1;
            unsafe { libc::_exit(0) };
        }
        let st = wait(pid);
        let m = shm();
        let v = if m.done == 1 {
            String::from_utf8_lossy(&m.txt[..m.len]).into_owned()
        } else {
            format!("no answer: {:?} {}", st, m.stat.outcome)
        };
        memo_put(h, &v);
        v
    }
    pub fn nodes(&mut self, ops: &[Op], e: &Env) -> Vec<Node> {
        ops.iter()
            .map(|op| {
                let kids = self.nodes(inner(op), e);
                let want = if self.judge && judged(op) { Some(self.ask(op, e)) } else { None };
                Node { op: op.clone(), want, kids }
            })
            .collect()
    }
}

/// The place in the source of a code address, as well as can be told.
fn place(pc: u64) -> String {
    thread_local!(static KNOWN: std::cell::RefCell<std::collections::BTreeMap<u64, String>> = Default::default());
    if let Some(s) = KNOWN.with(|k| k.borrow().get(&pc).cloned()) {
        return s;
    }
    let s = place_of(pc);
    KNOWN.with(|k| k.borrow_mut().insert(pc, s.clone()));
    s
}
fn place_of(pc: u64) -> String {
    let exe = std::fs::read_link("/proc/self/exe").unwrap_or_default();
    let base = std::fs::read_to_string("/proc/self/maps")
        .ok()
        .and_then(|m| m.lines().find(|l| l.ends_with(&*exe.to_string_lossy())).and_then(|l| u64::from_str_radix(l.split('-').next()?, 16).ok()))
        .unwrap_or(0);
    let off = pc.wrapping_sub(base).wrapping_sub(1);
    for tool in ["addr2line", "llvm-addr2line-18", "llvm-symbolizer-18"] {
        if let Ok(o) = std::process::Command::new(tool).args(["-i", "-e"]).arg(&exe).arg(format!("{:#x}", off)).output() {
            let t = String::from_utf8_lossy(&o.stdout).into_owned();
            let l: Vec<&str> = t.lines().filter(|l| !l.starts_with('?')).collect();
            // the innermost place in the code of the repository, else the outermost one
            if let Some(x) = l.iter().find(|x| x.contains("/repo/")).or(l.last()) {
                return x.split(" (").next().unwrap_or("").to_string();
            }
        }
    }
    format!("code at {:#x}", off)
}
fn race(s: &Stat) -> String {
    let k = |w: u64, a: u64| format!("{}{}", if a != 0 { "atomic " } else { "" }, if w != 0 { "write" } else { "read" });
    let f = s.race[4];
    format!(
        "data race: {} by thread {} ({}) and {} by thread {} ({}) of the same memory, with nothing that orders them",
        k(f & 4, f & 8), s.race[3], place(s.race_pc[1]), k(f & 1, f & 2), s.race[2], place(s.race_pc[0])
    )
}
pub enum Mode<'a> {
    Search(u64),
    Replay(&'a [(u64, u64)]),
}
pub fn exec(o: &mut Oracle, s: &Scenario, mode: Mode, log: bool) -> Outcome {
    let e = Env { slots: s.slots.clone(), docs: s.docs.clone() };
    o.judge = s.prop != "C27";
    let pre = o.nodes(&s.pre, &e);
    let thr: Vec<Vec<Node>> = s.threads.iter().map(|t| o.nodes(t, &e)).collect();
    let post = o.nodes(&s.post, &e);
    let mut flat: Vec<u64> = vec![];
    let mut c = Cfg {
        kind: s.strat.kind, p_inv: s.strat.p_inv.max(1), seed: 0, d: s.strat.d, horizon: s.strat.horizon, spurious_inv: s.strat.spurious_inv, step_cap: STEP_CAP, clock: s.clock, rnd: s.rnd, env: s.env,
        dec: std::ptr::null(), ndec: 0, weak_inv: s.strat.weak_inv, reuse: s.reuse, effects: (s.prop == "C27") as u64,
    };
    match mode {
        Mode::Search(seed) => c.seed = seed,
        Mode::Replay(d) => {
            c.kind = 5;
            flat = d.iter().flat_map(|p| [p.0, p.1]).collect();
            c.ndec = d.len() as u64;
        }
    }
    c.dec = flat.as_ptr();
    reset();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        child_common();
        let env: &'static Env = unsafe { std::mem::transmute(&e) };
        set_env(env);
        unsafe {
            LOG = log;
            REUSE = s.reuse;
            sim_start(&c, &mut shm().stat);
        }
        quiet(|| {
            perform(&pre);
            let hs: Vec<_> = thr
                .iter()
                .map(|t| {
                    let h = spawn(t);
                    unsafe {
                        if NTID < 64 {
                            TID[NTID] = sim_last();
                            NTID += 1;
                        }
                    }
                    h
                })
                .collect();
            for h in hs {
                h.join().expect("harness thread");
            }
            perform(&post);
            if s.prop == "C27" {
                aftermath();
            }
        });
        unsafe { sim_stop() };
        shm().done = 1;
        unsafe { libc::_exit(0) };
    }
    let st = wait(pid);
    let m = shm();
    let end = match st {
        None => End::Silent,
        Some(_) if m.viol == 1 => End::Wrong(format!("thread {}, step {}: {}", m.thread, m.at_step, String::from_utf8_lossy(&m.txt[..m.len]))),
        Some(_) if m.viol == 2 => End::Effect(String::from_utf8_lossy(&m.txt[..m.len]).into_owned()),
        Some(_) if m.done == 1 => End::Ok,
        Some(_) if m.stat.outcome == 1 => End::Deadlock,
        Some(_) if m.stat.outcome == 2 => End::Stuck,
        Some(_) if m.stat.outcome == 3 => End::Race(race(&m.stat)),
        Some(_) if m.stat.outcome == 4 => {
            let n = m.stat.effect.iter().position(|&c| c == 0).unwrap_or(256);
            End::Effect(format!("a call {}", String::from_utf8_lossy(&m.stat.effect[..n])))
        }
        Some(st) if libc::WIFSIGNALED(st) => End::Crash(libc::WTERMSIG(st)),
        Some(st) => End::Exit(libc::WEXITSTATUS(st)),
    };
    let n = (m.stat.ndec as usize).min(65536);
    let dec = (0..n).map(|k| (m.stat.dec[2 * k], m.stat.dec[2 * k + 1])).collect();
    Outcome { end, dec, hash: mix(m.hash ^ m.stat.sched_hash ^ m.stat.steps), steps: m.stat.steps, judged: m.judged }
}
/// What the calls have left behind, now that all of them have returned.
fn aftermath() {
    use std::io::Write;
    open(|| {
        let _ = std::io::stdout().flush();
    });
    let left = unsafe { sim_left() };
    let (raised, hooked) = unsafe { (RAISED, HOOKED) };
    let _ = std::panic::catch_unwind(|| raise());
    let now = unsafe { HOOKED };
    let t = if left > 0 {
        format!("{} thread(s) started inside calls go on after all calls have returned", left)
    } else if hooked != raised {
        format!("{} of {} panics in the caller's own code were kept from the panic hook", raised - hooked, raised)
    } else if now != hooked + 1 {
        "the panic hook the application had set is no longer there".into()
    } else {
        return;
    };
    let m = shm();
    m.viol = 2;
    put(&t);
    unsafe {
        sim_stop();
        libc::_exit(78)
    }
}
pub fn stat() -> &'static Shm {
    shm()
}
