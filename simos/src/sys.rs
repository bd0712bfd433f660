//! Thin wrappers over ptrace, seccomp and process memory access.
use libc::*;

pub const O_OPTS: i32 = PTRACE_O_TRACESECCOMP
    | PTRACE_O_TRACECLONE
    | PTRACE_O_TRACEFORK
    | PTRACE_O_TRACEVFORK
    | PTRACE_O_TRACEEXEC
    | PTRACE_O_EXITKILL
    | PTRACE_O_TRACESYSGOOD;

fn pt(req: u32, pid: i32, addr: usize, data: usize) -> i64 {
    unsafe { libc::ptrace(req as _, pid, addr as *mut c_void, data as *mut c_void) as i64 }
}

pub fn getregs(pid: i32) -> Option<user_regs_struct> {
    unsafe {
        let mut r: user_regs_struct = std::mem::zeroed();
        if libc::ptrace(PTRACE_GETREGS, pid, 0usize, &mut r as *mut _) == -1 {
            None
        } else {
            Some(r)
        }
    }
}
pub fn setregs(pid: i32, r: &user_regs_struct) {
    unsafe {
        libc::ptrace(PTRACE_SETREGS, pid, 0usize, r as *const _);
    }
}
pub fn cont(pid: i32, sig: i32) {
    pt(PTRACE_CONT as u32, pid, 0, sig as usize);
}
pub fn cont_sys(pid: i32, sig: i32) {
    pt(PTRACE_SYSCALL as u32, pid, 0, sig as usize);
}
pub fn setopts(pid: i32) {
    pt(PTRACE_SETOPTIONS as u32, pid, 0, O_OPTS as usize);
}
pub fn eventmsg(pid: i32) -> u64 {
    let mut m: c_ulong = 0;
    unsafe {
        libc::ptrace(PTRACE_GETEVENTMSG, pid, 0usize, &mut m as *mut _);
    }
    m as u64
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Stop {
    Seccomp,
    Event(i32),
    SyscallExit,
    Signal(i32),
    Exited(i32),
    Killed(i32),
    Timeout,
    Gone,
}

/// Waits for one stop of the given tracee. EINTR (from the watchdog alarm) gives Timeout.
pub fn wait(pid: i32) -> Stop {
    let mut st = 0;
    let r = unsafe { waitpid(pid, &mut st, __WALL) };
    if r < 0 {
        let e = std::io::Error::last_os_error().raw_os_error().unwrap_or(0);
        return if e == EINTR { Stop::Timeout } else { Stop::Gone };
    }
    if WIFEXITED(st) {
        return Stop::Exited(WEXITSTATUS(st));
    }
    if WIFSIGNALED(st) {
        return Stop::Killed(WTERMSIG(st));
    }
    let sig = WSTOPSIG(st);
    let ev = st >> 16;
    if ev == PTRACE_EVENT_SECCOMP {
        Stop::Seccomp
    } else if ev != 0 {
        Stop::Event(ev)
    } else if sig == (SIGTRAP | 0x80) {
        Stop::SyscallExit
    } else {
        Stop::Signal(sig)
    }
}

pub fn peek(pid: i32, addr: u64, len: usize) -> Option<Vec<u8>> {
    let mut v = vec![0u8; len];
    if len == 0 {
        return Some(v);
    }
    let l = iovec { iov_base: v.as_mut_ptr() as *mut c_void, iov_len: len };
    let r = iovec { iov_base: addr as *mut c_void, iov_len: len };
    let n = unsafe { process_vm_readv(pid, &l, 1, &r, 1, 0) };
    if n == len as isize {
        Some(v)
    } else {
        None
    }
}
pub fn poke(pid: i32, addr: u64, data: &[u8]) -> bool {
    if data.is_empty() {
        return true;
    }
    let l = iovec { iov_base: data.as_ptr() as *mut c_void, iov_len: data.len() };
    let r = iovec { iov_base: addr as *mut c_void, iov_len: data.len() };
    let n = unsafe { process_vm_writev(pid, &l, 1, &r, 1, 0) };
    n == data.len() as isize
}
pub fn peek_cstr(pid: i32, addr: u64) -> Option<String> {
    let mut out = Vec::new();
    let mut a = addr;
    while out.len() < 1 << 16 {
        // never read across a page boundary in one go
        let n = (4096 - (a & 4095)) as usize;
        let v = peek(pid, a, n)?;
        if let Some(p) = v.iter().position(|&c| c == 0) {
            out.extend_from_slice(&v[..p]);
            return Some(String::from_utf8_lossy(&out).into_owned());
        }
        out.extend_from_slice(&v);
        a += n as u64;
    }
    None
}
pub fn peek_u64(pid: i32, addr: u64) -> Option<u64> {
    peek(pid, addr, 8).map(|v| u64::from_le_bytes(v.try_into().unwrap()))
}
pub fn peek_u32(pid: i32, addr: u64) -> Option<u32> {
    peek(pid, addr, 4).map(|v| u32::from_le_bytes(v.try_into().unwrap()))
}

/// System calls that run natively without a stop: they touch only the process' own memory layout or signal mask.
const ALLOW: &[i64] = &[
    SYS_munmap, SYS_mprotect, SYS_rt_sigaction, SYS_rt_sigprocmask, SYS_rt_sigreturn, SYS_sigaltstack,
    SYS_madvise, SYS_arch_prctl, SYS_set_robust_list, SYS_rseq, SYS_set_tid_address, SYS_membarrier,
];

fn filter() -> Vec<sock_filter> {
    let mut f = vec![sock_filter { code: (BPF_LD | BPF_W | BPF_ABS) as u16, jt: 0, jf: 0, k: 0 }];
    let n = ALLOW.len();
    for (i, nr) in ALLOW.iter().enumerate() {
        f.push(sock_filter {
            code: (BPF_JMP | BPF_JEQ | BPF_K) as u16,
            jt: (n - i) as u8,
            jf: 0,
            k: *nr as u32,
        });
    }
    f.push(sock_filter { code: (BPF_RET | BPF_K) as u16, jt: 0, jf: 0, k: SECCOMP_RET_TRACE });
    f.push(sock_filter { code: (BPF_RET | BPF_K) as u16, jt: 0, jf: 0, k: SECCOMP_RET_ALLOW });
    f
}

/// Starts the program traced and stopped just after its execve. Returns its pid.
pub fn launch(bin: &str, argv: &[String], env: &[String]) -> Result<i32, String> {
    use std::ffi::CString;
    let cbin = CString::new(bin).unwrap();
    let a: Vec<CString> = argv.iter().map(|s| CString::new(s.as_bytes()).unwrap()).collect();
    let e: Vec<CString> = env.iter().map(|s| CString::new(s.as_bytes()).unwrap()).collect();
    let mut ap: Vec<*const c_char> = a.iter().map(|s| s.as_ptr()).collect();
    ap.push(std::ptr::null());
    let mut ep: Vec<*const c_char> = e.iter().map(|s| s.as_ptr()).collect();
    ep.push(std::ptr::null());
    let f = filter();
    let prog = sock_fprog { len: f.len() as u16, filter: f.as_ptr() as *mut _ };
    unsafe {
        let pid = fork();
        if pid < 0 {
            return Err("fork failed".into());
        }
        if pid == 0 {
            // async-signal-safe only from here on
            let it: itimerval = std::mem::zeroed();
            setitimer(ITIMER_REAL, &it, std::ptr::null_mut());
            libc::ptrace(PTRACE_TRACEME, 0, 0usize, 0usize);
            personality(ADDR_NO_RANDOMIZE as c_ulong);
            let lim = rlimit { rlim_cur: 8 << 20, rlim_max: 8 << 20 };
            setrlimit(RLIMIT_STACK, &lim);
            let core = rlimit { rlim_cur: 0, rlim_max: 0 };
            setrlimit(RLIMIT_CORE, &core);
            // the simulated machine's memory
            let mem = rlimit { rlim_cur: 1 << 30, rlim_max: 1 << 30 };
            setrlimit(RLIMIT_DATA, &mem);
            raise(SIGSTOP);
            prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
            if syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, &prog as *const _) != 0 {
                _exit(126);
            }
            execve(cbin.as_ptr(), ap.as_ptr(), ep.as_ptr());
            _exit(125);
        }
        match wait(pid) {
            Stop::Signal(SIGSTOP) => {}
            s => return Err(format!("unexpected first stop {:?}", s)),
        }
        setopts(pid);
        cont(pid, 0);
        loop {
            match wait(pid) {
                Stop::Seccomp => cont(pid, 0), // the execve itself
                Stop::Event(PTRACE_EVENT_EXEC) => return Ok(pid),
                Stop::Signal(_) => cont(pid, 0),
                Stop::Timeout => {}
                s => return Err(format!("launch failed: {:?}", s)),
            }
        }
    }
}
