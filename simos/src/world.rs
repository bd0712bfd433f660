//! The simulated machine: traced processes whose every system call is answered here, simulated programs
//! (formatter, pipe feeders), a scheduler and a fault injector, all driven by `Dec`.
use crate::dec::*;
use crate::sys::{self, Stop};
use crate::vfs::*;
use libc::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub const F_EINTR: u32 = 1;
pub const F_SHORT: u32 = 2;
pub const F_STAT: u32 = 4;
pub const F_STALL: u32 = 8;
pub const F_RERR: u32 = 16;
pub const F_WERR: u32 = 32;
pub const F_RES: u32 = 64;
pub const F_EXEC: u32 = 128;
pub const F_MEM: u32 = 256;
pub const F_KILL: u32 = 512;
pub const F_POWER: u32 = 1024;
pub const F_FMT: u32 = 2048;
pub const F_STDIO: u32 = 4096;
pub const F_NOISE: u32 = 8192;
pub const F_CLOSE: u32 = 16384;
pub const F_TRANSIENT: u32 = F_EINTR | F_SHORT | F_STAT | F_STALL | F_NOISE;

#[derive(Clone, Debug)]
pub struct FaultCfg {
    pub classes: u32,
    pub rate: f64,
    /// if set, exactly the eligible call with this ordinal is hit (with certainty) instead of `rate`
    pub target: Option<u32>,
    pub max: u32,
}
impl FaultCfg {
    pub fn none() -> FaultCfg {
        FaultCfg { classes: 0, rate: 0.0, target: None, max: 0 }
    }
}

/// Everything about the machine that a run must not depend on.
#[derive(Clone, Debug, PartialEq)]
pub struct Machine {
    pub clock: u64,
    pub rand: u64,
    pub pid_base: i32,
    pub ncpu: u32,
    pub mmap_shift: u64,
    pub max_read: usize,
    pub max_write: usize,
    pub pipe_cap: usize,
}
impl Machine {
    pub fn plain() -> Machine {
        Machine { clock: 1_700_000_000_000_000_000, rand: 1, pid_base: 1000, ncpu: 4, mmap_shift: 0, max_read: usize::MAX, max_write: usize::MAX, pipe_cap: 65536 }
    }
}

#[derive(Clone, Debug)]
pub struct Launch {
    pub argv: Vec<String>,
    pub env: Vec<String>,
    pub cwd: String,
    pub closed_stdio: [bool; 3],
    pub stdin: Option<Vec<u8>>,
    pub cfg: FaultCfg,
    pub output: String,
    pub inputs: Vec<String>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Exit {
    Code(i32),
    Sig(i32),
    /// killed by the simulator (crash fault)
    Crash,
}

#[derive(Clone, Debug)]
pub enum OfdKind {
    File { ino: Ino, off: usize },
    PipeR(usize),
    PipeW(usize),
    Stream(usize),
    Text { data: Vec<u8>, off: usize },
    Dir { ino: Ino, pos: usize },
}
pub struct Ofd {
    pub kind: OfdKind,
    pub flags: i32,
    pub refs: usize,
    pub label: String,
}
pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub cap: usize,
    pub readers: usize,
    pub writers: usize,
    /// has a name in the file system; closed by its last reader, so that what was in it is gone
    pub named: bool,
    pub left: bool,
}
#[derive(Clone, Copy)]
pub struct FdEnt {
    ofd: usize,
    cloexec: bool,
}

#[derive(Clone, Debug, PartialEq)]
enum Wait {
    PipeRead(usize),
    PipeWrite(usize),
    Child(i64),
    Futex { addr: u64, deadline: Option<u64>, woken: bool },
    Poll { deadline: Option<u64> },
    Until(u64),
    Flock { ino: Ino, ofd: usize, ex: bool },
}
#[derive(Clone, Debug, PartialEq)]
enum TState {
    /// stopped; resume natively to reach the next system call
    Resume,
    /// stopped at a system call to be served
    Pending,
    Blocked(Wait),
    /// parent of a vfork child that has neither exec'ed nor ended
    Vfork(usize),
    Dead,
}
struct Task {
    proc: usize,
    tid: i32,
    state: TState,
    ctid: u64,
    /// the pending call was already subjected to fault injection
    rolled: bool,
    /// fault decided for the pending call, kept while the call blocks
    fault: Option<String>,
    idx: usize,
}
pub struct Proc {
    pub run: usize,
    pub name: String,
    pub parent: Option<usize>,
    pub vpid: i32,
    real: i32,
    fds: BTreeMap<i32, FdEnt>,
    cwd: String,
    umask: u32,
    pub exit: Option<Exit>,
    reaped: bool,
    ord: u32,
    brk: u64,
    pub argv: Vec<String>,
    mem_fail: bool,
    hint: u64,
}

enum ActKind {
    Fmt(Fmt),
    Feeder { pipe: usize, data: Vec<u8>, off: usize, chunk: usize },
    /// replaces a file by its next version, atomically
    Swapper { path: String, versions: VecDeque<Vec<u8>> },
}
struct Actor {
    proc: Option<usize>,
    run: usize,
    wake: u64,
    kind: ActKind,
    done: bool,
    n: u32,
}
#[derive(Clone, Debug, PartialEq)]
enum FmtSt {
    Start,
    Read,
    Noise,
    Trunc,
    Write,
    Emit,
    End(i32),
}
struct Fmt {
    st: FmtSt,
    path: Option<String>,
    cwd: String,
    to_stdout: bool,
    input: Vec<u8>,
    out: Vec<u8>,
    ino: Ino,
    off: usize,
    plan: String,
    chunk: usize,
    noise: [usize; 2],
    key: String,
    check: bool,
    backup: bool,
    read_done: bool,
}

#[derive(Clone, Debug)]
pub struct FmtRec {
    pub run: usize,
    pub outcome: String,
    pub ok: bool,
    pub plan: String,
    pub input: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Done,
    Hang(String),
    StepCap,
    Spin,
}

pub struct Watch {
    pub path: String,
    pub expect: Option<Vec<u8>>,
    pub what: String,
}

pub struct World {
    pub vfs: Vfs,
    pub mach: Machine,
    pub dec: Dec,
    pub procs: Vec<Proc>,
    tasks: Vec<Task>,
    ofds: Vec<Ofd>,
    pipes: Vec<Pipe>,
    actors: Vec<Actor>,
    pub runs: Vec<Launch>,
    pub run_faults: Vec<u32>,
    pub now: u64,
    pub step: u64,
    pub step_cap: u64,
    pub own_steps: u64,
    pub sched_rate: f64,
    cur: usize,
    pub log: Vec<String>,
    pub loghash: u64,
    pub shape: u64,
    pub keep_log: bool,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub unsupported: BTreeSet<String>,
    pub fmts: Vec<FmtRec>,
    pub watches: Vec<Watch>,
    pub hits: Vec<String>,
    seen_version: u64,
    bin: String,
    rng_ctr: u64,
    pub power: bool,
    pub stdio: Vec<Vec<u8>>,
    fmt_count: Vec<u32>,
    /// eligible calls served, summed over all processes
    pub eligible: u64,
    /// the last step at which a fault was injected
    pub last_fault_step: u64,
    /// run -> step at which its command ended
    pub end_step: BTreeMap<usize, u64>,
    /// run -> content of the output path when the command ended
    pub at_end: BTreeMap<usize, Option<Vec<u8>>>,
    /// run -> injected errors (not merely transient), and those of them on its input files
    pub err_faults: Vec<u32>,
    pub in_side: Vec<u32>,
    /// errors on a pipe to the formatter, or lack of memory (std then gives up the child)
    pub pipe_errs: Vec<u32>,
    pub unlink_errs: Vec<u32>,
    pub orphans: BTreeMap<usize, u32>,
    /// changes of files by processes of a run whose command had already ended
    pub late: BTreeMap<usize, u32>,
    pub switches: u64,
    locks: BTreeMap<Ino, (BTreeSet<usize>, bool)>,
    /// absolute paths some traced process tried to create, write, rename or remove
    pub touched: BTreeSet<String>,
    /// paths looked at without intent to write
    pub seen: std::cell::RefCell<BTreeSet<String>>,
    /// run -> exit of its command
    pub exits: BTreeMap<usize, Exit>,
}

pub fn formatted(src: &str) -> String {
    // the stub formatter's only liberty is white space
    let mut o = String::with_capacity(src.len() + 16);
    for w in src.split_whitespace() {
        o.push_str(w);
        o.push('\n');
    }
    o
}
fn balanced(s: &str) -> bool {
    let mut st = Vec::new();
    for c in s.chars() {
        match c {
            '(' | '[' | '{' => st.push(c),
            ')' | ']' | '}' => {
                let w = match c {
                    ')' => '(',
                    ']' => '[',
                    _ => '{',
                };
                if st.pop() != Some(w) {
                    return false;
                }
            }
            _ => {}
        }
    }
    st.is_empty()
}
fn ename(e: i32) -> &'static str {
    match e {
        EINTR => "EINTR", EIO => "EIO", ENOSPC => "ENOSPC", EACCES => "EACCES", EMFILE => "EMFILE", ENFILE => "ENFILE",
        ENOENT => "ENOENT", ENOMEM => "ENOMEM", EROFS => "EROFS", EDQUOT => "EDQUOT", EFBIG => "EFBIG", EPERM => "EPERM",
        ESTALE => "ESTALE", EAGAIN => "EAGAIN", EXDEV => "EXDEV", EBUSY => "EBUSY", ENOEXEC => "ENOEXEC", EPIPE => "EPIPE",
        ETXTBSY => "ETXTBSY", ELOOP => "ELOOP", EBADF => "EBADF", EISDIR => "EISDIR", ENOTDIR => "ENOTDIR", EEXIST => "EEXIST",
        EINVAL => "EINVAL", ENOSYS => "ENOSYS", ESPIPE => "ESPIPE", ECHILD => "ECHILD", ENOTEMPTY => "ENOTEMPTY", ENOTTY => "ENOTTY",
        _ => "E?",
    }
}
fn ecode(s: &str) -> i32 {
    for e in [EINTR, EIO, ENOSPC, EACCES, EMFILE, ENFILE, ENOENT, ENOMEM, EROFS, EDQUOT, EFBIG, EPERM, ESTALE, EAGAIN, EXDEV, EBUSY, ENOEXEC, EPIPE, ETXTBSY, ELOOP] {
        if ename(e) == s {
            return e;
        }
    }
    EIO
}

/// What kind of thing a system call is, for fault selection.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Class {
    OpenR,
    OpenW,
    Read,
    Write,
    PipeIo,
    Stdio,
    Meta,
    Name, // rename, unlink, mkdir, fsync, truncate ...: changes on the output side
    Close,
    Res,  // pipe, dup, clone
    Exec,
    WaitC,
    Mem,
    Other,
}

enum Sv {
    Ret(i64),
    Block(Wait),
    Pass,
    Gone,
}

impl World {
    pub fn new(bin: &str, vfs: Vfs, mach: Machine, dec: Dec) -> World {
        World {
            now: mach.clock, vfs, mach, dec, procs: vec![], tasks: vec![], ofds: vec![], pipes: vec![], actors: vec![], runs: vec![], run_faults: vec![],
            step: 0, step_cap: 20_000, own_steps: 0, sched_rate: 0.0, cur: 0, log: vec![], loghash: 0, shape: 0, keep_log: false, faults: BTreeMap::new(),
            probes: BTreeMap::new(), unsupported: BTreeSet::new(), fmts: vec![], watches: vec![], hits: vec![], seen_version: 0, bin: bin.into(), rng_ctr: 0,
            power: false, stdio: vec![], fmt_count: vec![], eligible: 0, last_fault_step: 0, end_step: BTreeMap::new(), at_end: BTreeMap::new(),
            err_faults: vec![], in_side: vec![], pipe_errs: vec![], unlink_errs: vec![], orphans: BTreeMap::new(), late: BTreeMap::new(), switches: 0, locks: BTreeMap::new(), touched: BTreeSet::new(), seen: Default::default(), exits: BTreeMap::new(),
        }
    }
    pub fn add_pipe(&mut self) -> usize {
        self.pipes.push(Pipe { buf: VecDeque::new(), cap: self.mach.pipe_cap, readers: 0, writers: 0, named: false, left: false });
        self.pipes.len() - 1
    }
    /// A producer that feeds `data` into the pipe of a FIFO and then closes it.
    pub fn add_feeder(&mut self, pipe: usize, data: Vec<u8>, chunk: usize) {
        self.pipes[pipe].writers += 1;
        self.actors.push(Actor { proc: None, run: 0, wake: 0, kind: ActKind::Feeder { pipe, data, off: 0, chunk: chunk.max(1) }, done: false, n: 0 });
    }
    pub fn add_swapper(&mut self, path: String, versions: Vec<Vec<u8>>) {
        let n = self.actors.len() as u32;
        let key = format!("swap{}.start", n);
        let wake = self.now + self.dec.choose(&key, |h| if h % 2 == 0 { None } else { Some((mix(h) % 1_000_000).to_string()) }).map_or(0, |v| v.parse::<u64>().unwrap_or(0));
        self.actors.push(Actor { proc: None, run: 0, wake, kind: ActKind::Swapper { path, versions: versions.into() }, done: false, n });
    }
    fn probe(&mut self, s: &str) {
        *self.probes.entry(s.to_string()).or_insert(0) += 1;
    }
    fn note(&mut self, line: String, shape: &str) {
        self.loghash = hash_str(self.loghash, &line);
        self.shape = hash_str(self.shape, shape);
        if self.keep_log {
            self.log.push(format!("{:6} {}", self.step, line));
        }
    }

    // ---------------------------------------------------------------- processes

    pub fn launch(&mut self, l: Launch) -> Result<usize, String> {
        let real = sys::launch(&self.bin, &l.argv, &l.env)?;
        let run = self.runs.len();
        let pi = self.procs.len();
        let base = self.stdio.len();
        self.stdio.push(vec![]);
        self.stdio.push(vec![]);
        let mut p = Proc {
            run, name: "cli".into(), parent: None, vpid: self.mach.pid_base + 7 * pi as i32, real, fds: BTreeMap::new(), cwd: l.cwd.clone(), umask: 0o022,
            exit: None, reaped: true, ord: 0, brk: 0, argv: l.argv.clone(), mem_fail: false, hint: 0,
        };
        for fd in 0..3usize {
            if l.closed_stdio[fd] {
                continue;
            }
            let kind = match (fd, &l.stdin) {
                (0, Some(b)) => OfdKind::Text { data: b.clone(), off: 0 },
                (0, None) => {
                    // somebody holds the other end and says nothing
                    self.pipes.push(Pipe { buf: VecDeque::new(), cap: 65536, readers: 1, writers: 1, named: false, left: false });
                    OfdKind::PipeR(self.pipes.len() - 1)
                }
                _ => OfdKind::Stream(base + fd - 1),
            };
            self.ofds.push(Ofd { kind, flags: O_RDWR, refs: 1, label: ["stdin", "stdout", "stderr"][fd].into() });
            p.fds.insert(fd as i32, FdEnt { ofd: self.ofds.len() - 1, cloexec: false });
        }
        self.procs.push(p);
        self.tasks.push(Task { proc: pi, tid: real, state: TState::Resume, ctid: 0, rolled: false, fault: None, idx: 0 });
        self.patch_auxv(real);
        self.note(format!("r{} start {:?} in {}", run, l.argv, l.cwd), "start");
        self.runs.push(l);
        self.run_faults.push(0);
        self.fmt_count.push(0);
        self.err_faults.push(0);
        self.in_side.push(0);
        self.pipe_errs.push(0);
        self.unlink_errs.push(0);
        self.cur = self.tasks.len() - 1;
        Ok(pi)
    }
    /// No vDSO (its clock would bypass us), fixed AT_RANDOM.
    fn patch_auxv(&mut self, pid: i32) {
        let regs = match sys::getregs(pid) {
            Some(r) => r,
            None => return,
        };
        let mut a = regs.rsp;
        let argc = sys::peek_u64(pid, a).unwrap_or(0);
        a += 8 * (argc + 2);
        while sys::peek_u64(pid, a).unwrap_or(0) != 0 {
            a += 8;
        }
        a += 8;
        for _ in 0..64 {
            let t = sys::peek_u64(pid, a).unwrap_or(0);
            if t == 0 {
                break;
            }
            if t == 33 || t == 32 {
                sys::poke(pid, a, &1u64.to_le_bytes());
            }
            if t == 25 {
                let v = sys::peek_u64(pid, a + 8).unwrap_or(0);
                let b = self.random_bytes(16);
                sys::poke(pid, v, &b);
            }
            a += 16;
        }
    }
    fn random_bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            self.rng_ctr += 1;
            v.extend_from_slice(&mix(self.mach.rand.wrapping_mul(0x1000193) ^ self.rng_ctr).to_le_bytes());
        }
        v.truncate(n);
        v
    }

    fn close_ofd(&mut self, o: usize) {
        self.ofds[o].refs -= 1;
        if self.ofds[o].refs == 0 {
            self.unlock(o);
            match self.ofds[o].kind {
                OfdKind::PipeR(p) => {
                    self.pipes[p].readers -= 1;
                    if self.pipes[p].named && self.pipes[p].readers == 0 {
                        self.pipes[p].buf.clear();
                        self.pipes[p].left = true;
                    }
                }
                OfdKind::PipeW(p) => self.pipes[p].writers -= 1,
                _ => {}
            }
        }
    }
    fn end_proc(&mut self, pi: usize, ex: Exit) {
        if self.procs[pi].exit.is_some() {
            return;
        }
        self.procs[pi].exit = Some(ex);
        let fds: Vec<FdEnt> = self.procs[pi].fds.values().copied().collect();
        self.procs[pi].fds.clear();
        for f in fds {
            self.close_ofd(f.ofd);
        }
        let real = self.procs[pi].real;
        if real > 0 {
            unsafe {
                kill(real, SIGKILL);
            }
            for t in 0..self.tasks.len() {
                if self.tasks[t].proc == pi && self.tasks[t].state != TState::Dead {
                    let tid = self.tasks[t].tid;
                    if tid != real {
                        reap(tid);
                    }
                    self.tasks[t].state = TState::Dead;
                }
            }
            reap(real);
            self.procs[pi].real = 0;
        }
        let (run, name) = (self.procs[pi].run, self.procs[pi].name.clone());
        self.note(format!("r{}.{} ended {:?}", run, name, ex), "end");
        if name == "cli" {
            self.end_step.insert(run, self.step);
            self.exits.insert(run, ex);
            let out = self.vfs.read(&self.runs[run].output).map(|b| b.to_vec());
            self.at_end.insert(run, out);
            if matches!(ex, Exit::Code(_)) {
                let n = self.procs.iter().filter(|p| p.run == run && p.exit.is_none()).count();
                self.orphans.insert(run, n as u32);
            }
        }
        self.release_vfork(pi);
    }
    fn release_vfork(&mut self, child: usize) {
        for t in 0..self.tasks.len() {
            if self.tasks[t].state == TState::Vfork(child) {
                let tid = self.tasks[t].tid;
                let vpid = self.procs[child].vpid;
                loop {
                    match sys::wait(tid) {
                        Stop::SyscallExit => {
                            if let Some(mut r) = sys::getregs(tid) {
                                r.rax = vpid as u64;
                                sys::setregs(tid, &r);
                            }
                            self.tasks[t].state = TState::Resume;
                            break;
                        }
                        Stop::Signal(_) | Stop::Event(_) => sys::cont_sys(tid, 0),
                        Stop::Timeout => continue,
                        _ => {
                            self.tasks[t].state = TState::Dead;
                            break;
                        }
                    }
                }
            }
        }
    }
    pub fn kill_everything(&mut self) {
        for pi in 0..self.procs.len() {
            if self.procs[pi].exit.is_none() {
                self.end_proc(pi, Exit::Crash);
            }
        }
        for a in &mut self.actors {
            a.done = true;
        }
    }
    fn crash_run(&mut self, pi: usize, with_children: bool) {
        let run = self.procs[pi].run;
        if with_children {
            for a in 0..self.actors.len() {
                if let Some(p) = self.actors[a].proc {
                    if self.procs[p].run == run && !self.actors[a].done {
                        self.actors[a].done = true;
                        self.end_proc(p, Exit::Crash);
                        self.probe("formatter killed together with the command");
                    }
                }
            }
        } else if self.actors.iter().any(|a| !a.done && a.proc.is_some() && a.run == run) {
            self.probe("command killed, formatter left running");
        }
        for q in 0..self.procs.len() {
            let is_act = self.actors.iter().any(|a| a.proc == Some(q));
            if self.procs[q].run == run && self.procs[q].exit.is_none() && !is_act {
                self.end_proc(q, Exit::Crash);
            }
        }
    }
    fn power_loss(&mut self) {
        self.power = true;
        self.note("power loss".into(), "power");
        self.kill_everything();
        for i in 0..self.vfs.nodes.len() {
            if !self.vfs.nodes[i].dirty {
                continue;
            }
            let path = self.vfs.path_of(i);
            let key = format!("power.{}", path);
            let is_dir = matches!(self.vfs.nodes[i].kind, Kind::Dir(_));
            let ch = self.dec.choose(&key, |h| {
                Some(match h % if is_dir { 2 } else { 5 } {
                    0 => return None,
                    1 => "revert".into(),
                    2 => "empty".into(),
                    3 => format!("prefix:{}", mix(h) % 4096),
                    _ => format!("zeros:{}", mix(h) % 4096),
                })
            });
            let dur = self.vfs.nodes[i].durable.clone();
            let n = &mut self.vfs.nodes[i];
            match (ch.as_deref(), &mut n.kind) {
                (Some("revert"), k) => {
                    if let Some(d) = dur {
                        *k = d;
                    }
                }
                (Some("empty"), Kind::File(b)) => b.clear(),
                (Some(s), Kind::File(b)) if s.starts_with("prefix:") => {
                    let k: usize = s[7..].parse().unwrap_or(0);
                    b.truncate(k);
                }
                (Some(s), Kind::File(b)) if s.starts_with("zeros:") => {
                    let k: usize = s[6..].parse().unwrap_or(0);
                    for c in b.iter_mut().skip(k) {
                        *c = 0;
                    }
                }
                _ => {}
            }
            if let Some(c) = ch {
                *self.faults.entry(format!("power-loss:{}", c.split(':').next().unwrap())).or_insert(0) += 1;
            }
            self.vfs.nodes[i].dirty = false;
            self.vfs.nodes[i].durable = None;
        }
        self.vfs.version += 1;
    }

    // ---------------------------------------------------------------- scheduler

    fn ready(&self, t: usize) -> bool {
        match &self.tasks[t].state {
            TState::Resume | TState::Pending => true,
            TState::Vfork(_) | TState::Dead => false,
            TState::Blocked(w) => match w {
                Wait::PipeRead(p) => !self.pipes[*p].buf.is_empty() || self.pipes[*p].writers == 0,
                Wait::PipeWrite(p) => self.pipes[*p].buf.len() < self.pipes[*p].cap || self.pipes[*p].readers == 0,
                Wait::Child(sel) => {
                    let me = self.tasks[t].proc;
                    let any = self.procs.iter().any(|p| p.parent == Some(me) && !p.reaped && self.sel(p, *sel));
                    !any || self.procs.iter().any(|p| p.parent == Some(me) && !p.reaped && p.exit.is_some() && self.sel(p, *sel))
                }
                Wait::Futex { woken, deadline, .. } => *woken || deadline.map_or(false, |d| self.now >= d),
                Wait::Poll { deadline } => self.poll_ready(t) || deadline.map_or(false, |d| self.now >= d),
                Wait::Until(d) => self.now >= *d,
                Wait::Flock { ino, ofd, ex } => self.lock_free(*ino, *ofd, *ex),
            },
        }
    }
    fn sel(&self, p: &Proc, sel: i64) -> bool {
        sel == -1 || sel == 0 || p.vpid as i64 == sel
    }
    fn actor_ready(&self, a: usize) -> bool {
        let ac = &self.actors[a];
        if ac.done || self.now < ac.wake {
            return false;
        }
        match &ac.kind {
            ActKind::Swapper { .. } => true,
            ActKind::Feeder { pipe, .. } => self.pipes[*pipe].buf.len() < self.pipes[*pipe].cap || self.pipes[*pipe].readers == 0,
            ActKind::Fmt(f) => {
                let p = match ac.proc {
                    Some(p) => p,
                    None => return true,
                };
                let fdok = |fd: i32, write: bool| match self.procs[p].fds.get(&fd) {
                    Some(e) => match self.ofds[e.ofd].kind {
                        OfdKind::PipeW(q) if write => self.pipes[q].buf.len() < self.pipes[q].cap || self.pipes[q].readers == 0,
                        OfdKind::PipeR(q) if !write => !self.pipes[q].buf.is_empty() || self.pipes[q].writers == 0,
                        _ => true,
                    },
                    None => true,
                };
                match f.st {
                    FmtSt::Read if f.path.is_none() => fdok(0, false),
                    FmtSt::Noise => {
                        if f.noise[1] > 0 {
                            fdok(2, true)
                        } else {
                            fdok(1, true)
                        }
                    }
                    FmtSt::Emit => fdok(1, true),
                    _ => true,
                }
            }
        }
    }
    /// Runs until every process ended (or cannot go on).
    pub fn run(&mut self) -> Outcome {
        loop {
            if self.power {
                return Outcome::Done;
            }
            let alive = self.procs.iter().any(|p| p.exit.is_none());
            if !alive {
                for a in &mut self.actors {
                    a.done = true;
                }
                return Outcome::Done;
            }
            // entity ids: tasks first, then actors
            let nt = self.tasks.len();
            let mut rd: Vec<usize> = (0..nt).filter(|&t| self.ready(t)).collect();
            rd.extend((0..self.actors.len()).filter(|&a| self.actor_ready(a)).map(|a| 1_000_000 + a));
            if rd.is_empty() {
                let mut next: Option<u64> = None;
                let mut upd = |d: u64| next = Some(next.map_or(d, |n: u64| n.min(d)));
                for t in &self.tasks {
                    if let TState::Blocked(w) = &t.state {
                        match w {
                            Wait::Futex { deadline: Some(d), .. } | Wait::Poll { deadline: Some(d) } | Wait::Until(d) => upd(*d),
                            _ => {}
                        }
                    }
                }
                for a in &self.actors {
                    if !a.done && a.wake > self.now {
                        upd(a.wake);
                    }
                }
                match next {
                    Some(d) => {
                        self.now = self.now.max(d);
                        self.probe("clock jumped to next timer");
                        continue;
                    }
                    None => {
                        let s: Vec<String> = self.tasks.iter().filter(|t| t.state != TState::Dead).map(|t| format!("r{}.{} {:?}", self.procs[t.proc].run, self.procs[t.proc].name, t.state)).collect();
                        self.kill_everything();
                        return Outcome::Hang(s.join("; "));
                    }
                }
            }
            // the command's own steps count, not those its formatter takes
            if self.own_steps >= self.step_cap || self.step >= 20 * self.step_cap {
                self.kill_everything();
                return Outcome::StepCap;
            }
            let dflt = if rd.contains(&self.cur) { self.cur } else { rd[0] };
            let mut pick = dflt;
            if rd.len() > 1 {
                let rate = self.sched_rate;
                let rdc = rd.clone();
                let key = format!("s{}", self.step);
                if let Some(v) = self.dec.choose(&key, |h| {
                    if unit(h) < rate {
                        let c = rdc[(mix(h) % rdc.len() as u64) as usize];
                        if c != dflt {
                            return Some(c.to_string());
                        }
                    }
                    None
                }) {
                    if let Ok(c) = v.parse::<usize>() {
                        if rd.contains(&c) {
                            pick = c;
                        }
                    }
                }
            }
            if pick != self.cur {
                self.switches += 1;
            }
            self.cur = pick;
            self.step += 1;
            self.now += 1_000 + mix(self.step ^ self.mach.clock) % 20_000;
            self.vfs.clock = self.now;
            if pick >= 1_000_000 {
                self.actor_step(pick - 1_000_000);
            } else {
                self.own_steps += 1;
                if let Err(o) = self.task_step(pick) {
                    self.kill_everything();
                    return o;
                }
            }
            self.check_watches();
        }
    }
    fn check_watches(&mut self) {
        if self.vfs.version == self.seen_version {
            return;
        }
        self.seen_version = self.vfs.version;
        for k in 0..self.watches.len() {
            let w = &self.watches[k];
            let cur = self.vfs.read(&w.path);
            if cur != w.expect.as_deref() && self.hits.len() < 20 {
                let d = match (&w.expect, cur) {
                    (Some(_), None) => "disappeared",
                    (None, Some(_)) => "was created",
                    _ => "was modified",
                };
                let line = format!("{} {} {}", w.what, w.path, d);
                if !self.hits.contains(&line) {
                    self.hits.push(line);
                }
            }
        }
    }

    // ---------------------------------------------------------------- tracee stepping

    fn task_step(&mut self, t: usize) -> Result<(), Outcome> {
        let st = self.tasks[t].state.clone();
        match st {
            TState::Resume => {}
            TState::Pending | TState::Blocked(_) => {
                let tid = self.tasks[t].tid;
                let mut regs = match sys::getregs(tid) {
                    Some(r) => r,
                    None => {
                        self.task_gone(t, Exit::Sig(SIGKILL));
                        return Ok(());
                    }
                };
                let timed_out = match &st {
                    TState::Blocked(Wait::Futex { deadline: Some(d), woken: false, .. }) => self.now >= *d,
                    TState::Blocked(Wait::Poll { deadline: Some(d) }) => self.now >= *d && !self.poll_ready(t),
                    _ => false,
                };
                let was_until = matches!(st, TState::Blocked(Wait::Until(_)));
                let was_futex = matches!(st, TState::Blocked(Wait::Futex { .. }));
                match self.serve(t, &mut regs, timed_out, was_until, was_futex) {
                    Sv::Ret(v) => {
                        if self.procs[self.tasks[t].proc].exit.is_some() {
                            return Ok(());
                        }
                        regs.orig_rax = u64::MAX;
                        regs.rax = v as u64;
                        sys::setregs(tid, &regs);
                        self.tasks[t].rolled = false;
                        self.tasks[t].fault = None;
                    }
                    Sv::Block(w) => {
                        self.tasks[t].state = TState::Blocked(w);
                        return Ok(());
                    }
                    Sv::Pass => {
                        self.tasks[t].rolled = false;
                        self.tasks[t].fault = None;
                    }
                    Sv::Gone => return Ok(()),
                }
            }
            _ => return Ok(()),
        }
        self.advance(t)
    }
    /// Lets the tracee run to its next system call.
    fn advance(&mut self, t: usize) -> Result<(), Outcome> {
        let tid = self.tasks[t].tid;
        sys::cont(tid, 0);
        loop {
            match sys::wait(tid) {
                Stop::Seccomp => {
                    self.tasks[t].state = TState::Pending;
                    self.tasks[t].rolled = false;
                    return Ok(());
                }
                Stop::Event(_) | Stop::SyscallExit => sys::cont(tid, 0),
                Stop::Signal(s) => {
                    let s = if s == SIGCHLD || s == SIGSTOP || s == SIGTRAP { 0 } else { s };
                    sys::cont(tid, s);
                }
                Stop::Exited(c) => {
                    self.task_gone(t, Exit::Code(c));
                    return Ok(());
                }
                Stop::Killed(s) => {
                    self.task_gone(t, Exit::Sig(s));
                    return Ok(());
                }
                Stop::Timeout => return Err(Outcome::Spin),
                Stop::Gone => {
                    self.task_gone(t, Exit::Sig(SIGKILL));
                    return Ok(());
                }
            }
        }
    }
    fn task_gone(&mut self, t: usize, ex: Exit) {
        self.tasks[t].state = TState::Dead;
        let pi = self.tasks[t].proc;
        if self.tasks[t].tid == self.procs[pi].real {
            self.end_proc(pi, ex);
        }
    }

    // ---------------------------------------------------------------- fault injection

    fn key(&self, pi: usize) -> String {
        format!("r{}.{}.{}", self.procs[pi].run, self.procs[pi].name, self.procs[pi].ord)
    }
    /// Decides the fault for the eligible call about to be served.
    fn roll(&mut self, pi: usize, class: Class, len: usize, on_input: bool) -> Option<String> {
        self.procs[pi].ord += 1;
        self.eligible += 1;
        let run = self.procs[pi].run;
        let cfg = self.runs[run].cfg.clone();
        let key = self.key(pi);
        let ord = self.procs[pi].ord;
        let is_cli = self.procs[pi].name == "cli";
        let used = self.run_faults[run];
        let f = self.dec.choose(&key, |h| {
            if used >= cfg.max {
                return None;
            }
            let on = match cfg.target {
                Some(k) => is_cli && k == ord,
                None => unit(h) < cfg.rate,
            };
            if !on {
                return None;
            }
            let h2 = mix(h ^ 0xabcd);
            let h3 = mix(h2);
            let c = cfg.classes;
            let mut menu: Vec<String> = Vec::new();
            let errs = |menu: &mut Vec<String>, es: &[i32]| {
                menu.push(ename(es[(h3 % es.len() as u64) as usize]).to_string());
            };
            match class {
                Class::OpenR => {
                    if c & F_RERR != 0 {
                        errs(&mut menu, &[EACCES, EIO, EMFILE, ENFILE, ENOENT, ENOMEM, ELOOP, EPERM, ESTALE]);
                    }
                    if c & F_EINTR != 0 {
                        menu.push("EINTR".into());
                    }
                }
                Class::OpenW => {
                    if c & F_WERR != 0 {
                        errs(&mut menu, &[EACCES, EROFS, ENOSPC, EDQUOT, EIO, EMFILE, ENFILE, ETXTBSY, EPERM]);
                    }
                    if c & F_EINTR != 0 {
                        menu.push("EINTR".into());
                    }
                }
                Class::Read => {
                    if c & F_RERR != 0 {
                        errs(&mut menu, &[EIO, ESTALE, ENOMEM]);
                    }
                    if c & F_EINTR != 0 {
                        menu.push("EINTR".into());
                    }
                    if c & F_SHORT != 0 && len > 1 {
                        menu.push(short(h3, len));
                    }
                }
                Class::Write => {
                    if c & F_WERR != 0 {
                        errs(&mut menu, &[ENOSPC, EIO, EDQUOT, EFBIG]);
                        menu.push(format!("{}@{}", ["ENOSPC", "EIO"][(h3 % 2) as usize], mix(h3) % len.max(1) as u64));
                    }
                    if c & F_EINTR != 0 {
                        menu.push("EINTR".into());
                    }
                    if c & F_SHORT != 0 && len > 1 {
                        menu.push(short(h3, len));
                    }
                }
                Class::PipeIo => {
                    if c & F_EINTR != 0 {
                        menu.push("EINTR".into());
                    }
                    if c & F_SHORT != 0 && len > 1 {
                        menu.push(short(h3, len));
                    }
                    if c & F_RERR != 0 {
                        menu.push("EIO".into());
                    }
                }
                Class::Stdio => {
                    if c & F_STDIO != 0 {
                        errs(&mut menu, &[EPIPE, EIO, ENOSPC, EINTR]);
                    }
                }
                Class::Meta => {
                    if c & F_RERR != 0 {
                        errs(&mut menu, &[EIO, EACCES, ENOMEM]);
                    }
                    // inputs may be of a kind that does not know its size
                    if c & F_STAT != 0 && on_input {
                        menu.push(["SIZE0", "SIZEBIG", "SIZEHALF"][(h3 % 3) as usize].into());
                    }
                }
                Class::Name => {
                    if c & F_WERR != 0 {
                        errs(&mut menu, &[EIO, ENOSPC, EACCES, EPERM, EXDEV, EBUSY]);
                    }
                }
                Class::Close => {
                    if c & F_CLOSE != 0 {
                        errs(&mut menu, &[EIO, EINTR]);
                    }
                }
                Class::Res => {
                    if c & F_RES != 0 {
                        errs(&mut menu, &[EMFILE, ENFILE, ENOMEM, EAGAIN]);
                    }
                }
                Class::Exec => {
                    if c & F_EXEC != 0 {
                        errs(&mut menu, &[ENOENT, EACCES, ENOMEM, ENOEXEC, EIO, EPERM]);
                    }
                }
                Class::WaitC => {
                    if c & F_EINTR != 0 {
                        menu.push("EINTR".into());
                    }
                }
                Class::Mem => {
                    if c & F_MEM != 0 {
                        menu.push(["ENOMEM", "ENOMEM!"][(h3 % 2) as usize].into());
                    }
                }
                Class::Other => {}
            }
            if c & F_STALL != 0 && class != Class::Mem {
                menu.push(format!("STALL:{}", 1 + h3 % 5_000));
            }
            if c & F_KILL != 0 && is_cli {
                let fm = if h3 & 64 != 0 { "+fmt" } else { "" };
                if class == Class::Write && h3 & 3 == 0 {
                    menu.push(format!("KILL:torn:{}{}", mix(h3) % len.max(1) as u64, fm));
                } else {
                    menu.push(format!("KILL:{}{}", ["before", "after"][(h3 & 1) as usize], fm));
                }
            }
            if c & F_POWER != 0 && is_cli {
                menu.push(format!("POWER:{}", ["before", "after"][(h3 & 1) as usize]));
            }
            if menu.is_empty() {
                return None;
            }
            Some(menu[(mix(h2 ^ 77) % menu.len() as u64) as usize].clone())
        });
        if let Some(f) = &f {
            self.run_faults[run] += 1;
            self.last_fault_step = self.step;
            let kind = f.split(|c| c == ':' || c == '@').next().unwrap();
            let name = if kind == "KILL" || kind == "POWER" { format!("{}:{}", kind, f[kind.len() + 1..].split(':').next().unwrap()) } else { kind.to_string() };
            *self.faults.entry(format!("{:?}/{}", class, name)).or_insert(0) += 1;
            let transient = matches!(kind, "EINTR" | "SHORT" | "STALL" | "SIZE0" | "SIZEBIG" | "SIZEHALF" | "KILL" | "POWER");
            if !transient {
                self.err_faults[run] += 1;
                if class == Class::PipeIo || class == Class::Mem {
                    self.pipe_errs[run] += 1;
                }
                // (an error of fstat and the like need not keep the file from being read)
                if on_input && class != Class::Meta {
                    self.in_side[run] += 1;
                }
            }
        }
        f
    }

    fn fd(&self, pi: usize, fd: i64) -> Option<usize> {
        self.procs[pi].fds.get(&(fd as i32)).map(|e| e.ofd)
    }
    fn new_fd(&mut self, pi: usize, min: i32, ofd: usize, cloexec: bool) -> i64 {
        let mut n = min;
        while self.procs[pi].fds.contains_key(&n) {
            n += 1;
        }
        self.procs[pi].fds.insert(n, FdEnt { ofd, cloexec });
        n as i64
    }
    fn at_path(&self, pi: usize, dirfd: i64, path: &str) -> Result<(String, String), i32> {
        // (cwd to resolve against, path)
        if path.starts_with('/') || dirfd as i32 == AT_FDCWD {
            return Ok((self.procs[pi].cwd.clone(), path.to_string()));
        }
        match self.fd(pi, dirfd) {
            Some(o) => match self.ofds[o].kind {
                OfdKind::Dir { ino, .. } => Ok((self.vfs.path_of(ino), path.to_string())),
                _ => Err(ENOTDIR),
            },
            None => Err(EBADF),
        }
    }
}
fn short(h: u64, len: usize) -> String {
    let k = match h % 4 {
        0 => 1,
        1 => len as u64 - 1,
        2 => 1 + mix(h) % (len as u64 - 1),
        _ => 1 + mix(h) % (len as u64 - 1).min(64),
    };
    format!("SHORT:{}", k)
}
fn reap(pid: i32) {
    for _ in 0..64 {
        match sys::wait(pid) {
            Stop::Exited(_) | Stop::Killed(_) | Stop::Gone => return,
            Stop::Timeout => {}
            _ => {
                unsafe {
                    syscall(SYS_tgkill, pid, pid, SIGKILL);
                }
                sys::cont(pid, SIGKILL);
            }
        }
    }
}

include!("calls.rs");
include!("actors.rs");
