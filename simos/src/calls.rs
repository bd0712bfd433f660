// System calls of the simulated machine. Included into world.rs.

const AT_EMPTY: i64 = 0x1000;
const AT_NOFOLLOW: i64 = 0x100;

fn bytes_of<T>(v: &T) -> &[u8] {
    unsafe { std::slice::from_raw_parts(v as *const T as *const u8, std::mem::size_of::<T>()) }
}
fn special(label: &str) -> bool {
    label.starts_with("/proc") || label.starts_with("/sys") || label.starts_with("/dev")
}
fn encode(ex: Exit) -> i32 {
    match ex {
        Exit::Code(c) => (c & 255) << 8,
        Exit::Sig(s) => s,
        Exit::Crash => SIGKILL,
    }
}
fn absolute(cwd: &str, p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", cwd, p) };
    let mut out: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

/// Result of moving bytes: done, would block on a pipe, or an error.
enum Xfer {
    Done(usize),
    BlockR(usize),
    BlockW(usize),
    Err(i32),
}

impl World {
    fn mono(&self) -> u64 {
        self.now - self.mach.clock + 1_000_000_000_000
    }
    fn str_at(&self, t: usize, a: u64) -> Result<String, i32> {
        sys::peek_cstr(self.tasks[t].tid, a).ok_or(EFAULT)
    }
    fn timespec_at(&self, t: usize, a: u64) -> Option<u64> {
        let v = sys::peek(self.tasks[t].tid, a, 16)?;
        let s = i64::from_le_bytes(v[..8].try_into().unwrap());
        let n = i64::from_le_bytes(v[8..].try_into().unwrap());
        Some((s.max(0) as u64).saturating_mul(1_000_000_000).saturating_add(n.max(0) as u64))
    }
    fn label(&self, pi: usize, fd: i64) -> String {
        self.fd(pi, fd).map_or("?".into(), |o| self.ofds[o].label.clone())
    }

    /// Kind of a call for fault selection; None: not a candidate.
    fn classify(&self, t: usize, nr: i64, a: &[u64; 6]) -> Option<(Class, usize)> {
        let pi = self.tasks[t].proc;
        let mem = self.runs[self.procs[pi].run].cfg.classes & F_MEM != 0;
        let by_fd = |fd: u64, len: usize, write: bool| -> Option<(Class, usize)> {
            let o = self.fd(pi, fd as i64)?;
            let o = &self.ofds[o];
            if special(&o.label) {
                return None;
            }
            match o.kind {
                OfdKind::File { .. } => Some((if write { Class::Write } else { Class::Read }, len)),
                OfdKind::PipeR(_) | OfdKind::PipeW(_) => Some((Class::PipeIo, len)),
                OfdKind::Stream(_) => Some((Class::Stdio, len)),
                OfdKind::Dir { .. } => Some((Class::Read, 0)),
                OfdKind::Text { .. } => None,
            }
        };
        let by_path = |p: u64, c: Class| -> Option<(Class, usize)> {
            let s = self.str_at(t, p).ok()?;
            if special(&s) {
                None
            } else {
                Some((c, 0))
            }
        };
        let oc = |flags: u64| if flags as i32 & O_ACCMODE == O_RDONLY && flags as i32 & O_CREAT == 0 { Class::OpenR } else { Class::OpenW };
        match nr {
            SYS_read | SYS_pread64 => by_fd(a[0], a[2] as usize, false),
            SYS_write | SYS_pwrite64 => by_fd(a[0], a[2] as usize, true),
            SYS_readv | SYS_preadv | SYS_writev | SYS_pwritev => {
                let mut len = 0usize;
                for k in 0..a[2].min(1024) {
                    len += sys::peek_u64(self.tasks[t].tid, a[1] + 16 * k + 8)? as usize;
                }
                by_fd(a[0], len, nr == SYS_writev || nr == SYS_pwritev)
            }
            SYS_open => by_path(a[0], oc(a[1])),
            SYS_openat => by_path(a[1], oc(a[2])),
            SYS_creat => by_path(a[0], Class::OpenW),
            SYS_stat | SYS_lstat | SYS_access => by_path(a[0], Class::Meta),
            SYS_fstat | SYS_lseek => by_fd(a[0], 0, false).map(|_| (Class::Meta, 0)),
            SYS_newfstatat | SYS_statx | SYS_faccessat | SYS_faccessat2 => {
                let s = self.str_at(t, a[1]).ok()?;
                if s.is_empty() {
                    by_fd(a[0], 0, false).map(|_| (Class::Meta, 0))
                } else {
                    by_path(a[1], Class::Meta)
                }
            }
            SYS_close => {
                let o = self.fd(pi, a[0] as i64)?;
                match self.ofds[o].kind {
                    OfdKind::File { .. } if !special(&self.ofds[o].label) => Some((Class::Close, 0)),
                    _ => None,
                }
            }
            SYS_rename | SYS_renameat | SYS_renameat2 | SYS_unlink | SYS_unlinkat | SYS_rmdir | SYS_mkdir | SYS_mkdirat | SYS_link | SYS_linkat | SYS_symlink
            | SYS_symlinkat | SYS_fsync | SYS_fdatasync | SYS_ftruncate | SYS_truncate | SYS_fallocate | SYS_chmod | SYS_fchmod | SYS_fchmodat | SYS_sync_file_range => {
                Some((Class::Name, 0))
            }
            SYS_pipe | SYS_pipe2 | SYS_dup | SYS_dup2 | SYS_dup3 | SYS_clone | SYS_fork | SYS_vfork => Some((Class::Res, 0)),
            SYS_execve => Some((Class::Exec, 0)),
            // a wait that does not block is not interrupted
            SYS_wait4 if a[2] & 1 == 0 => Some((Class::WaitC, 0)),
            SYS_waitid if a[3] & 1 == 0 => Some((Class::WaitC, 0)),
            SYS_poll | SYS_ppoll if a[1] > 0 && !(a[2] == 0 && nr == SYS_poll) => Some((Class::WaitC, 0)),
            SYS_mmap if mem => Some((Class::Mem, 0)),
            SYS_brk if mem && a[0] != 0 => Some((Class::Mem, 0)),
            SYS_mremap if mem => Some((Class::Mem, 0)),
            _ => None,
        }
    }

    fn serve(&mut self, t: usize, regs: &mut user_regs_struct, timed_out: bool, was_until: bool, was_futex: bool) -> Sv {
        let nr = regs.orig_rax as i64;
        let a = [regs.rdi, regs.rsi, regs.rdx, regs.r10, regs.r8, regs.r9];
        let pi = self.tasks[t].proc;
        let mut stalled = was_until;
        if !self.tasks[t].rolled {
            self.tasks[t].rolled = true;
            stalled = false;
            if let Some((c, len)) = self.classify(t, nr, &a) {
                let on_input = self.names_input(t, nr, &a);
                let f = self.roll(pi, c, len, on_input);
                if let Some(f) = &f {
                    let d = self.describe(t, nr, &a);
                    let key = self.key(pi);
                    self.note(format!("{} FAULT {} on {}", key, f, d), "fault");
                    if matches!(nr as i64, SYS_unlink | SYS_unlinkat | SYS_rmdir) && f.starts_with('E') {
                        let run = self.procs[pi].run;
                        self.unlink_errs[run] += 1;
                    }
                }
                self.tasks[t].fault = f;
            }
        }
        let mut limit = usize::MAX;
        let mut size_fault: Option<String> = None;
        if let Some(f) = self.tasks[t].fault.clone() {
            if let Some(ms) = f.strip_prefix("STALL:") {
                self.tasks[t].fault = None;
                return Sv::Block(Wait::Until(self.now + ms.parse::<u64>().unwrap_or(1) * 1_000_000));
            } else if let Some(k) = f.strip_prefix("SHORT:") {
                limit = k.parse().unwrap_or(1);
                self.tasks[t].fault = None;
            } else if f.starts_with("SIZE") {
                size_fault = Some(f.clone());
                self.tasks[t].fault = None;
            } else if f.starts_with("KILL:before") {
                self.crash_run(pi, f.ends_with("+fmt"));
                return Sv::Gone;
            } else if let Some(r) = f.strip_prefix("KILL:torn:") {
                let k: usize = r.trim_end_matches("+fmt").parse().unwrap_or(0);
                let _ = self.do_call(t, nr, &a, regs, k, None, timed_out, false, was_futex);
                self.crash_run(pi, f.ends_with("+fmt"));
                return Sv::Gone;
            } else if f == "POWER:before" {
                self.power_loss();
                return Sv::Gone;
            } else if f.starts_with("KILL:after") || f.starts_with("POWER:after") {
                // below
            } else if let Some(p) = f.find('@') {
                let k: usize = f[p + 1..].parse().unwrap_or(0);
                if k > 0 {
                    let _ = self.do_call(t, nr, &a, regs, k, None, timed_out, false, was_futex);
                }
                self.tasks[t].fault = None;
                return Sv::Ret(-(ecode(&f[..p]) as i64));
            } else {
                self.tasks[t].fault = None;
                if f == "ENOMEM!" {
                    self.procs[pi].mem_fail = true;
                }
                let e = ecode(f.trim_end_matches('!'));
                if nr == SYS_brk {
                    return Sv::Ret(self.procs[pi].brk as i64);
                }
                if nr == SYS_close {
                    let _ = self.do_call(t, nr, &a, regs, limit, None, false, false, false);
                }
                return Sv::Ret(-(e as i64));
            }
        }
        let line = self.describe(t, nr, &a);
        let r = self.do_call(t, nr, &a, regs, limit, size_fault, timed_out, stalled, was_futex);
        if let Sv::Block(_) = r {
            return r;
        }
        let rs = match &r {
            Sv::Ret(v) if *v < 0 && *v > -4096 => format!("-{}", ename(-*v as i32)),
            Sv::Ret(v) => {
                if nr == SYS_mmap || nr == SYS_brk || nr == SYS_mremap {
                    "mem".into()
                } else {
                    format!("{}", v)
                }
            }
            Sv::Pass => "native".into(),
            _ => "-".into(),
        };
        let who = format!("r{}.{}", self.procs[pi].run, self.procs[pi].name);
        let quiet = matches!(nr, SYS_mmap | SYS_brk | SYS_mremap | SYS_clock_gettime);
        if quiet {
            self.shape = hash_str(self.shape, "q");
        } else {
            let sh = format!("{}{}{}", pi, nr, if rs.starts_with('-') { rs.as_str() } else { "" });
            self.note(format!("{}.{} {} = {}", who, self.tasks[t].idx, line, rs), &sh);
        }
        if let Some(f) = self.tasks[t].fault.clone() {
            self.tasks[t].fault = None;
            if self.procs[pi].exit.is_none() {
                if f.starts_with("KILL:after") {
                    self.crash_run(pi, f.ends_with("+fmt"));
                    return Sv::Gone;
                }
                if f.starts_with("POWER:after") {
                    self.power_loss();
                    return Sv::Gone;
                }
            }
        }
        r
    }

    /// Does the call concern one of the run's input files?
    fn names_input(&self, t: usize, nr: i64, a: &[u64; 6]) -> bool {
        let pi = self.tasks[t].proc;
        let path = match nr {
            SYS_open | SYS_stat | SYS_lstat | SYS_access => self.str_at(t, a[0]).ok(),
            SYS_openat | SYS_newfstatat | SYS_statx | SYS_faccessat | SYS_faccessat2 => self.str_at(t, a[1]).ok().filter(|s| !s.is_empty()),
            _ => None,
        };
        let p = match path {
            Some(p) => absolute(&self.procs[pi].cwd, &p),
            None => self.label(pi, a[0] as i64),
        };
        self.runs[self.procs[pi].run].inputs.contains(&p)
    }

    fn describe(&self, t: usize, nr: i64, a: &[u64; 6]) -> String {
        let pi = self.tasks[t].proc;
        let s = |p: u64| self.str_at(t, p).unwrap_or_else(|_| "?".into());
        match nr {
            SYS_read => format!("read({}, {})", self.label(pi, a[0] as i64), a[2]),
            SYS_pread64 => format!("pread({}, {}, @{})", self.label(pi, a[0] as i64), a[2], a[3]),
            SYS_write => format!("write({}, {})", self.label(pi, a[0] as i64), a[2]),
            SYS_pwrite64 => format!("pwrite({}, {}, @{})", self.label(pi, a[0] as i64), a[2], a[3]),
            SYS_writev => format!("writev({}, {} parts)", self.label(pi, a[0] as i64), a[2]),
            SYS_readv => format!("readv({}, {} parts)", self.label(pi, a[0] as i64), a[2]),
            SYS_open => format!("open({}, {:#o})", s(a[0]), a[1]),
            SYS_openat => format!("openat({}, {:#o})", s(a[1]), a[2]),
            SYS_creat => format!("creat({})", s(a[0])),
            SYS_close => format!("close({})", self.label(pi, a[0] as i64)),
            SYS_stat | SYS_lstat => format!("stat({})", s(a[0])),
            SYS_fstat => format!("fstat({})", self.label(pi, a[0] as i64)),
            SYS_statx | SYS_newfstatat => {
                let p = s(a[1]);
                if p.is_empty() {
                    format!("statx({})", self.label(pi, a[0] as i64))
                } else {
                    format!("statx({})", p)
                }
            }
            SYS_lseek => format!("lseek({}, {}, {})", self.label(pi, a[0] as i64), a[1] as i64, a[2]),
            SYS_rename => format!("rename({}, {})", s(a[0]), s(a[1])),
            SYS_renameat | SYS_renameat2 => format!("rename({}, {})", s(a[1]), s(a[3])),
            SYS_unlink => format!("unlink({})", s(a[0])),
            SYS_unlinkat => format!("unlink({})", s(a[1])),
            SYS_mkdir => format!("mkdir({})", s(a[0])),
            SYS_mkdirat => format!("mkdir({})", s(a[1])),
            SYS_rmdir => format!("rmdir({})", s(a[0])),
            SYS_fsync | SYS_fdatasync => format!("fsync({})", self.label(pi, a[0] as i64)),
            SYS_ftruncate => format!("ftruncate({}, {})", self.label(pi, a[0] as i64), a[1]),
            SYS_execve => format!("execve({})", s(a[0])),
            SYS_wait4 => format!("wait4({})", a[0] as i32),
            SYS_waitid => format!("waitid({})", a[1] as i32),
            SYS_poll | SYS_ppoll => format!("poll({} fds)", a[1]),
            SYS_clone | SYS_fork | SYS_vfork => "clone".into(),
            SYS_pipe | SYS_pipe2 => "pipe".into(),
            SYS_dup2 | SYS_dup3 => format!("dup2({}, {})", a[0], a[1]),
            SYS_dup => format!("dup({})", a[0]),
            SYS_exit_group => format!("exit_group({})", a[0] as i32),
            SYS_exit => "exit".into(),
            SYS_futex => format!("futex(op {})", a[1] & 127),
            SYS_mmap => "mmap".into(),
            SYS_brk => "brk".into(),
            SYS_mremap => "mremap".into(),
            SYS_fcntl => format!("fcntl({}, {})", self.label(pi, a[0] as i64), a[1]),
            SYS_ioctl => format!("ioctl({}, {:#x})", self.label(pi, a[0] as i64), a[1]),
            SYS_getrandom => format!("getrandom({})", a[1]),
            SYS_clock_gettime => "clock_gettime".into(),
            SYS_readlink => format!("readlink({})", s(a[0])),
            n => format!("syscall#{}", n),
        }
    }

    // ------------------------------------------------------------ moving bytes

    fn ofd_read(&mut self, o: usize, want: usize, at: Option<usize>) -> Result<Vec<u8>, Xfer> {
        let maxr = self.mach.max_read;
        let nonblock = self.ofds[o].flags & O_NONBLOCK != 0;
        match &mut self.ofds[o].kind {
            OfdKind::File { ino, off } => {
                let b = match &self.vfs.nodes[*ino].kind {
                    Kind::File(b) => b,
                    Kind::Null => return Ok(vec![]),
                    Kind::Zero => return Ok(vec![0; want]),
                    // a device that takes nothing and holds nothing
                    Kind::Full => return Ok(vec![]),
                    Kind::Dir(_) => return Err(Xfer::Err(EISDIR)),
                    _ => return Err(Xfer::Err(EINVAL)),
                };
                let p = at.unwrap_or(*off);
                let mut n = want.min(maxr.max(b.len() / 2000)).min(b.len().saturating_sub(p));
                if let Some(bad) = self.vfs.nodes[*ino].bad {
                    // unreadable from here on
                    if p >= bad && want > 0 {
                        return Err(Xfer::Err(EIO));
                    }
                    n = n.min(bad - p);
                }
                let v = if n == 0 { vec![] } else { b[p..p + n].to_vec() };
                if at.is_none() {
                    *off += n;
                }
                Ok(v)
            }
            OfdKind::PipeR(p) => {
                let p = *p;
                let q = &mut self.pipes[p];
                if q.buf.is_empty() {
                    if q.writers == 0 || want == 0 {
                        return Ok(vec![]);
                    }
                    return if nonblock { Err(Xfer::Err(EAGAIN)) } else { Err(Xfer::BlockR(p)) };
                }
                let n = want.min(maxr.max(q.buf.len() / 64).max(32)).min(q.buf.len());
                Ok(q.buf.drain(..n).collect())
            }
            OfdKind::Text { data, off } => {
                let n = want.min(data.len().saturating_sub(*off));
                let v = data[*off..*off + n].to_vec();
                *off += n;
                Ok(v)
            }
            OfdKind::Stream(_) => Ok(vec![]),
            OfdKind::Dir { .. } => Err(Xfer::Err(EISDIR)),
            OfdKind::PipeW(_) => Err(Xfer::Err(EBADF)),
        }
    }
    fn ofd_write(&mut self, o: usize, data: &[u8], at: Option<usize>) -> Xfer {
        let nonblock = self.ofds[o].flags & O_NONBLOCK != 0;
        let app = self.ofds[o].flags & O_APPEND != 0;
        match &mut self.ofds[o].kind {
            OfdKind::File { ino, off } => {
                let mut p = at.unwrap_or(*off);
                if app {
                    if let Kind::File(b) = &self.vfs.nodes[*ino].kind {
                        p = b.len();
                    }
                }
                let n = data.len().min(self.mach.max_write.max(data.len() / 2000));
                match self.vfs.write_at(*ino, p, &data[..n]) {
                    Ok(n) => {
                        if at.is_none() {
                            *off = p + n;
                        }
                        Xfer::Done(n)
                    }
                    Err(e) => Xfer::Err(e),
                }
            }
            OfdKind::PipeW(p) => {
                let p = *p;
                let q = &mut self.pipes[p];
                if q.readers == 0 {
                    return Xfer::Err(EPIPE);
                }
                let room = q.cap.saturating_sub(q.buf.len());
                if room == 0 {
                    return if nonblock { Xfer::Err(EAGAIN) } else { Xfer::BlockW(p) };
                }
                let n = room.min(data.len());
                q.buf.extend(&data[..n]);
                Xfer::Done(n)
            }
            OfdKind::Stream(k) => {
                self.stdio[*k].extend_from_slice(data);
                Xfer::Done(data.len())
            }
            OfdKind::Text { .. } => Xfer::Done(data.len()),
            _ => Xfer::Err(EBADF),
        }
    }
    fn do_read(&mut self, t: usize, fd: u64, bufs: &[(u64, usize)], at: Option<usize>, limit: usize) -> Sv {
        let pi = self.tasks[t].proc;
        let o = match self.fd(pi, fd as i64) {
            Some(o) => o,
            None => return Sv::Ret(-(EBADF as i64)),
        };
        if self.ofds[o].flags & O_ACCMODE == O_WRONLY {
            return Sv::Ret(-(EBADF as i64));
        }
        let want: usize = bufs.iter().map(|b| b.1).sum::<usize>().min(limit).min(1 << 30);
        match self.ofd_read(o, want, at) {
            Ok(v) => {
                let mut p = 0;
                for (a, l) in bufs {
                    let n = (*l).min(v.len() - p);
                    if !sys::poke(self.tasks[t].tid, *a, &v[p..p + n]) {
                        return Sv::Ret(-(EFAULT as i64));
                    }
                    p += n;
                }
                Sv::Ret(v.len() as i64)
            }
            Err(Xfer::BlockR(p)) => Sv::Block(Wait::PipeRead(p)),
            Err(Xfer::Err(e)) => Sv::Ret(-(e as i64)),
            Err(_) => Sv::Ret(-(EIO as i64)),
        }
    }
    fn do_write(&mut self, t: usize, fd: u64, bufs: &[(u64, usize)], at: Option<usize>, limit: usize) -> Sv {
        let pi = self.tasks[t].proc;
        let o = match self.fd(pi, fd as i64) {
            Some(o) => o,
            None => return Sv::Ret(-(EBADF as i64)),
        };
        if self.ofds[o].flags & O_ACCMODE == O_RDONLY {
            return Sv::Ret(-(EBADF as i64));
        }
        let mut data = vec![];
        for (a, l) in bufs {
            match sys::peek(self.tasks[t].tid, *a, *l) {
                Some(v) => data.extend_from_slice(&v),
                None => return Sv::Ret(-(EFAULT as i64)),
            }
        }
        data.truncate(limit);
        match self.ofd_write(o, &data, at) {
            Xfer::Done(n) => Sv::Ret(n as i64),
            Xfer::BlockW(p) => Sv::Block(Wait::PipeWrite(p)),
            Xfer::Err(e) => Sv::Ret(-(e as i64)),
            Xfer::BlockR(_) => Sv::Ret(-(EIO as i64)),
        }
    }
    fn iovs(&self, t: usize, a: u64, n: u64) -> Vec<(u64, usize)> {
        let tid = self.tasks[t].tid;
        (0..n.min(1024)).filter_map(|k| Some((sys::peek_u64(tid, a + 16 * k)?, sys::peek_u64(tid, a + 16 * k + 8)? as usize))).collect()
    }

    // ------------------------------------------------------------ files

    fn do_open(&mut self, t: usize, dirfd: i64, path: u64, flags: i32, mode: u32) -> i64 {
        let pi = self.tasks[t].proc;
        let r = self.str_at(t, path).and_then(|p| self.open_path(pi, dirfd, &p, flags, mode));
        match r {
            Ok(o) => self.new_fd(pi, 0, o, flags & O_CLOEXEC != 0),
            Err(e) => -(e as i64),
        }
    }
    fn open_path(&mut self, pi: usize, dirfd: i64, path: &str, flags: i32, mode: u32) -> Result<usize, i32> {
        let (cwd, p) = self.at_path(pi, dirfd, path)?;
        let abs = absolute(&cwd, &p);
        let mk = |w: &mut World, kind: OfdKind, label: String| {
            w.ofds.push(Ofd { kind, flags: flags & !(O_CREAT | O_TRUNC | O_EXCL | O_CLOEXEC), refs: 1, label });
            w.ofds.len() - 1
        };
        if abs == "/proc/self/maps" {
            let data = std::fs::read(format!("/proc/{}/maps", self.procs[pi].real)).unwrap_or_default();
            return Ok(mk(self, OfdKind::Text { data, off: 0 }, abs));
        }
        if abs == "/dev/urandom" || abs == "/dev/random" {
            let data = self.random_bytes(1 << 16);
            return Ok(mk(self, OfdKind::Text { data, off: 0 }, abs));
        }
        if flags & O_TMPFILE == O_TMPFILE {
            return Err(EOPNOTSUPP);
        }
        let creat = flags & O_CREAT != 0;
        let excl = flags & O_EXCL != 0;
        let look = self.vfs.lookup(&cwd, &p, !(flags & O_NOFOLLOW != 0 || (creat && excl)))?;
        let acc = flags & O_ACCMODE;
        if (creat || acc != O_RDONLY) && !special(&abs) {
            self.touched.insert(abs.clone());
        } else {
            self.seen.borrow_mut().insert(abs.clone());
        }
        let ino = match look.ino {
            Some(i) => {
                if creat && excl {
                    return Err(EEXIST);
                }
                let n = &self.vfs.nodes[i];
                if matches!(n.kind, Kind::File(_)) && (acc != O_WRONLY && n.mode & 0o400 == 0 || acc != O_RDONLY && n.mode & 0o200 == 0) {
                    return Err(EACCES);
                }
                i
            }
            None => {
                if !creat {
                    return Err(ENOENT);
                }
                if p.ends_with('/') {
                    return Err(EISDIR);
                }
                if self.vfs.room() == 0 {
                    return Err(ENOSPC);
                }
                let um = self.procs[pi].umask;
                let i = self.vfs.add(Kind::File(vec![]), mode & 0o7777 & !um, look.parent);
                self.vfs.link_name(look.parent, &look.name, i);
                i
            }
        };
        let kind = match &self.vfs.nodes[ino].kind {
            Kind::Dir(_) => {
                if acc != O_RDONLY || creat {
                    return Err(EISDIR);
                }
                OfdKind::Dir { ino, pos: 0 }
            }
            Kind::Symlink(_) => return Err(ELOOP),
            Kind::Fifo(q) => {
                let q = *q;
                if acc == O_WRONLY {
                    self.pipes[q].writers += 1;
                    OfdKind::PipeW(q)
                } else {
                    self.pipes[q].named = true;
                    if self.pipes[q].left {
                        self.pipes[q].left = false;
                        if self.pipes[q].writers == 0 {
                            // nobody will ever write again: the opener waits for good
                            self.pipes[q].writers = 1;
                        }
                    }
                    self.pipes[q].readers += 1;
                    OfdKind::PipeR(q)
                }
            }
            Kind::Program if acc != O_RDONLY => return Err(ETXTBSY),
            _ => {
                if flags & O_DIRECTORY != 0 {
                    return Err(ENOTDIR);
                }
                if flags & O_TRUNC != 0 && acc != O_RDONLY {
                    self.vfs.set_len(ino, 0)?;
                }
                OfdKind::File { ino, off: 0 }
            }
        };
        Ok(mk(self, kind, abs))
    }
    fn stat_of(&self, ino: Option<Ino>, size_fault: &Option<String>) -> stat {
        let mut st: stat = unsafe { std::mem::zeroed() };
        st.st_dev = 1;
        st.st_blksize = 4096;
        st.st_nlink = 1;
        match ino {
            None => {
                st.st_mode = S_IFIFO | 0o600;
            }
            Some(i) => {
                let n = &self.vfs.nodes[i];
                st.st_ino = i as u64 + 2;
                st.st_nlink = n.nlink as u64;
                let (f, s) = match &n.kind {
                    Kind::File(b) => (S_IFREG, b.len()),
                    Kind::Dir(_) => (S_IFDIR, 4096),
                    Kind::Symlink(l) => (S_IFLNK, l.len()),
                    Kind::Fifo(_) => (S_IFIFO, 0),
                    Kind::Null | Kind::Full | Kind::Zero => (S_IFCHR, 0),
                    Kind::Program => (S_IFREG, 100_000),
                };
                st.st_mode = f | (n.mode & 0o7777) | if matches!(n.kind, Kind::Program) { 0o111 } else { 0 };
                st.st_size = s as i64;
                if f == S_IFREG {
                    match size_fault.as_deref() {
                        Some("SIZE0") => st.st_size = 0,
                        Some("SIZEBIG") => st.st_size = st.st_size * 3 + 70_000,
                        Some("SIZEHALF") => st.st_size /= 2,
                        _ => {}
                    }
                }
                st.st_blocks = (st.st_size + 511) / 512;
                st.st_mtime = (n.mtime / 1_000_000_000) as i64;
                st.st_mtime_nsec = (n.mtime % 1_000_000_000) as i64;
                st.st_ctime = st.st_mtime;
                st.st_atime = st.st_mtime;
            }
        }
        st
    }
    fn statx_of(st: &stat) -> libc::statx {
        let mut x: libc::statx = unsafe { std::mem::zeroed() };
        x.stx_mask = 0x7ff;
        x.stx_blksize = 4096;
        x.stx_nlink = st.st_nlink as u32;
        x.stx_mode = st.st_mode as u16;
        x.stx_ino = st.st_ino;
        x.stx_size = st.st_size as u64;
        x.stx_blocks = st.st_blocks as u64;
        x.stx_mtime.tv_sec = st.st_mtime;
        x.stx_mtime.tv_nsec = st.st_mtime_nsec as u32;
        x.stx_ctime = x.stx_mtime;
        x.stx_atime = x.stx_mtime;
        x
    }
    fn stat_target(&self, t: usize, dirfd: i64, path: u64, flags: i64) -> Result<Option<Ino>, i32> {
        let pi = self.tasks[t].proc;
        let p = if path == 0 { String::new() } else { self.str_at(t, path)? };
        if p.is_empty() {
            if flags & AT_EMPTY == 0 {
                return Err(ENOENT);
            }
            return self.stat_fd(pi, dirfd);
        }
        let (cwd, p) = self.at_path(pi, dirfd, &p)?;
        let look = self.vfs.lookup(&cwd, &p, flags & AT_NOFOLLOW == 0)?;
        self.seen.borrow_mut().insert(absolute(&cwd, &p));
        look.ino.map(Some).ok_or(ENOENT)
    }
    fn stat_fd(&self, pi: usize, fd: i64) -> Result<Option<Ino>, i32> {
        match self.fd(pi, fd) {
            Some(o) => Ok(match self.ofds[o].kind {
                OfdKind::File { ino, .. } | OfdKind::Dir { ino, .. } => Some(ino),
                _ => None,
            }),
            None => Err(EBADF),
        }
    }
    fn file_ino(&self, pi: usize, fd: i64) -> Result<Ino, i32> {
        match self.fd(pi, fd).map(|o| &self.ofds[o].kind) {
            Some(OfdKind::File { ino, .. }) | Some(OfdKind::Dir { ino, .. }) => Ok(*ino),
            Some(_) => Err(EINVAL),
            None => Err(EBADF),
        }
    }
    fn touch_path(&mut self, t: usize, dirfd: i64, path: u64) {
        if let Ok(p) = self.str_at(t, path) {
            if let Ok((cwd, p)) = self.at_path(self.tasks[t].proc, dirfd, &p) {
                self.touched.insert(absolute(&cwd, &p));
            }
        }
    }
    fn look_at(&self, t: usize, dirfd: i64, path: u64, follow: bool) -> Result<Look, i32> {
        let p = self.str_at(t, path)?;
        let (cwd, p) = self.at_path(self.tasks[t].proc, dirfd, &p)?;
        let look = self.vfs.lookup(&cwd, &p, follow)?;
        self.seen.borrow_mut().insert(absolute(&cwd, &p));
        Ok(look)
    }
    fn do_rename(&mut self, t: usize, d1: i64, p1: u64, d2: i64, p2: u64, flags: u64) -> Result<i64, i32> {
        self.touch_path(t, d1, p1);
        self.touch_path(t, d2, p2);
        let a = self.look_at(t, d1, p1, false)?;
        let b = self.look_at(t, d2, p2, false)?;
        if flags & 2 != 0 {
            return Err(EINVAL);
        }
        let i = a.ino.ok_or(ENOENT)?;
        if let Some(j) = b.ino {
            if flags & 1 != 0 {
                return Err(EEXIST);
            }
            if i == j {
                return Ok(0);
            }
            match (&self.vfs.nodes[i].kind, &self.vfs.nodes[j].kind) {
                (Kind::Dir(_), Kind::Dir(e)) if !e.is_empty() => return Err(ENOTEMPTY),
                (Kind::Dir(_), Kind::Dir(_)) => {}
                (Kind::Dir(_), _) => return Err(ENOTDIR),
                (_, Kind::Dir(_)) => return Err(EISDIR),
                _ => {}
            }
            self.vfs.unlink_name(b.parent, &b.name);
        }
        // moving a name must not drop the node's own link
        self.vfs.nodes[i].nlink += 1;
        self.vfs.link_name(b.parent, &b.name, i);
        self.vfs.unlink_name(a.parent, &a.name);
        if let Kind::Dir(_) = self.vfs.nodes[i].kind {
            self.vfs.nodes[i].parent = b.parent;
        }
        Ok(0)
    }
    fn do_unlink(&mut self, t: usize, dirfd: i64, path: u64, dir: bool) -> Result<i64, i32> {
        self.touch_path(t, dirfd, path);
        let l = self.look_at(t, dirfd, path, false)?;
        let i = l.ino.ok_or(ENOENT)?;
        match (&self.vfs.nodes[i].kind, dir) {
            (Kind::Dir(e), true) => {
                if !e.is_empty() {
                    return Err(ENOTEMPTY);
                }
            }
            (Kind::Dir(_), false) => return Err(EISDIR),
            (_, true) => return Err(ENOTDIR),
            _ => {}
        }
        self.vfs.unlink_name(l.parent, &l.name);
        Ok(0)
    }
    fn do_mkdir(&mut self, t: usize, dirfd: i64, path: u64, mode: u64) -> Result<i64, i32> {
        self.touch_path(t, dirfd, path);
        let l = self.look_at(t, dirfd, path, false)?;
        if l.ino.is_some() {
            return Err(EEXIST);
        }
        let i = self.vfs.add(Kind::Dir(BTreeMap::new()), mode as u32 & 0o777, l.parent);
        self.vfs.link_name(l.parent, &l.name, i);
        Ok(0)
    }
    fn do_link(&mut self, t: usize, d1: i64, p1: u64, d2: i64, p2: u64) -> Result<i64, i32> {
        self.touch_path(t, d2, p2);
        let a = self.look_at(t, d1, p1, false)?;
        let b = self.look_at(t, d2, p2, false)?;
        let i = a.ino.ok_or(ENOENT)?;
        if b.ino.is_some() {
            return Err(EEXIST);
        }
        self.vfs.nodes[i].nlink += 1;
        self.vfs.link_name(b.parent, &b.name, i);
        Ok(0)
    }
    fn do_symlink(&mut self, t: usize, target: u64, d: i64, p: u64) -> Result<i64, i32> {
        self.touch_path(t, d, p);
        let s = self.str_at(t, target)?;
        let l = self.look_at(t, d, p, false)?;
        if l.ino.is_some() {
            return Err(EEXIST);
        }
        let i = self.vfs.add(Kind::Symlink(s), 0o777, l.parent);
        self.vfs.link_name(l.parent, &l.name, i);
        Ok(0)
    }
    fn do_readlink(&mut self, t: usize, d: i64, p: u64, buf: u64, len: u64) -> Result<i64, i32> {
        let s = self.str_at(t, p)?;
        let v = if s == "/proc/self/exe" {
            "/usr/bin/make_pluralrules".to_string()
        } else {
            let l = self.look_at(t, d, p, false)?;
            match &self.vfs.nodes[l.ino.ok_or(ENOENT)?].kind {
                Kind::Symlink(x) => x.clone(),
                _ => return Err(EINVAL),
            }
        };
        let n = v.len().min(len as usize);
        sys::poke(self.tasks[t].tid, buf, &v.as_bytes()[..n]);
        Ok(n as i64)
    }
    fn do_getdents(&mut self, t: usize, fd: i64, buf: u64, len: usize) -> Result<i64, i32> {
        let pi = self.tasks[t].proc;
        let o = self.fd(pi, fd).ok_or(EBADF)?;
        let (ino, pos) = match self.ofds[o].kind {
            OfdKind::Dir { ino, pos } => (ino, pos),
            _ => return Err(ENOTDIR),
        };
        let mut ents: Vec<(String, Ino)> = vec![(".".into(), ino), ("..".into(), self.vfs.nodes[ino].parent)];
        ents.extend(self.vfs.entries(ino).iter().map(|(n, i)| (n.clone(), *i)));
        let mut out = vec![];
        let mut p = pos;
        while p < ents.len() {
            let (n, i) = &ents[p];
            let rl = (19 + n.len() + 1 + 7) / 8 * 8;
            if out.len() + rl > len {
                break;
            }
            let ty = match self.vfs.nodes[*i].kind {
                Kind::Dir(_) => DT_DIR,
                Kind::Symlink(_) => DT_LNK,
                Kind::Fifo(_) => DT_FIFO,
                Kind::File(_) | Kind::Program => DT_REG,
                _ => DT_CHR,
            };
            let st = out.len();
            out.extend_from_slice(&(*i as u64 + 2).to_le_bytes());
            out.extend_from_slice(&(p as u64 + 1).to_le_bytes());
            out.extend_from_slice(&(rl as u16).to_le_bytes());
            out.push(ty);
            out.extend_from_slice(n.as_bytes());
            out.resize(st + rl, 0);
            p += 1;
        }
        if out.is_empty() && p < ents.len() {
            return Err(EINVAL);
        }
        self.ofds[o].kind = OfdKind::Dir { ino, pos: p };
        sys::poke(self.tasks[t].tid, buf, &out);
        Ok(out.len() as i64)
    }
    fn do_lseek(&mut self, pi: usize, fd: i64, off: i64, wh: i64) -> Result<i64, i32> {
        let o = self.fd(pi, fd).ok_or(EBADF)?;
        match &mut self.ofds[o].kind {
            OfdKind::File { ino, off: cur } => {
                let len = match &self.vfs.nodes[*ino].kind {
                    Kind::File(b) => b.len() as i64,
                    _ => 0,
                };
                let base = match wh as i32 {
                    SEEK_SET => 0,
                    SEEK_CUR => *cur as i64,
                    SEEK_END => len,
                    _ => return Err(EINVAL),
                };
                if base + off < 0 {
                    return Err(EINVAL);
                }
                *cur = (base + off) as usize;
                Ok(base + off)
            }
            OfdKind::Dir { pos, .. } => {
                if off == 0 {
                    *pos = 0;
                }
                Ok(off)
            }
            OfdKind::Text { off: cur, .. } if wh as i32 == SEEK_SET => {
                *cur = off.max(0) as usize;
                Ok(off)
            }
            _ => Err(ESPIPE),
        }
    }

    // ------------------------------------------------------------ waiting

    fn poll_eval(&self, t: usize, fds: u64, n: u64) -> Vec<(u64, i16)> {
        let pi = self.tasks[t].proc;
        let tid = self.tasks[t].tid;
        let mut out = vec![];
        for k in 0..n.min(64) {
            let v = match sys::peek(tid, fds + 8 * k, 8) {
                Some(v) => v,
                None => continue,
            };
            let fd = i32::from_le_bytes(v[..4].try_into().unwrap());
            let ev = i16::from_le_bytes(v[4..6].try_into().unwrap());
            let mut re = 0i16;
            if fd >= 0 {
                match self.fd(pi, fd as i64) {
                    None => re = POLLNVAL,
                    Some(o) => match self.ofds[o].kind {
                        OfdKind::PipeR(p) => {
                            if !self.pipes[p].buf.is_empty() {
                                re |= ev & (POLLIN | POLLRDNORM);
                            }
                            if self.pipes[p].writers == 0 {
                                re |= POLLHUP;
                            }
                        }
                        OfdKind::PipeW(p) => {
                            if self.pipes[p].readers == 0 {
                                re |= POLLERR;
                            } else if self.pipes[p].buf.len() < self.pipes[p].cap {
                                re |= ev & (POLLOUT | POLLWRNORM);
                            }
                        }
                        _ => re = ev & (POLLIN | POLLOUT),
                    },
                }
            }
            out.push((fds + 8 * k, re));
        }
        out
    }
    fn poll_ready(&self, t: usize) -> bool {
        match sys::getregs(self.tasks[t].tid) {
            Some(r) => self.poll_eval(t, r.rdi, r.rsi).iter().any(|x| x.1 != 0),
            None => true,
        }
    }
    fn do_poll(&mut self, t: usize, fds: u64, n: u64, timeout: Option<u64>, timed_out: bool) -> Sv {
        let ev = self.poll_eval(t, fds, n);
        let cnt = ev.iter().filter(|x| x.1 != 0).count();
        if cnt == 0 && !timed_out && timeout != Some(0) {
            // keep the original deadline over spurious wake-ups
            return Sv::Block(Wait::Poll { deadline: timeout.map(|d| self.now + d) });
        }
        for (a, re) in ev {
            sys::poke(self.tasks[t].tid, a + 6, &re.to_le_bytes());
        }
        Sv::Ret(cnt as i64)
    }
    fn wake(&mut self, pi: usize, addr: u64, max: i64) -> i64 {
        let mut n = 0;
        // which waiter wakes first is a scheduling choice
        let mut cand: Vec<usize> = (0..self.tasks.len())
            .filter(|&k| self.tasks[k].proc == pi && matches!(&self.tasks[k].state, TState::Blocked(Wait::Futex { addr: x, woken: false, .. }) if *x == addr))
            .collect();
        if cand.len() > 1 && max < cand.len() as i64 {
            let key = format!("w{}", self.step);
            let len = cand.len() as u64;
            let rate = self.sched_rate;
            if let Some(v) = self.dec.choose(&key, |h| if unit(h) < rate { Some((mix(h) % len).to_string()) } else { None }) {
                let r = v.parse::<usize>().unwrap_or(0) % cand.len();
                cand.rotate_left(r);
            }
        }
        for k in cand {
            if n >= max {
                break;
            }
            if let TState::Blocked(Wait::Futex { woken, .. }) = &mut self.tasks[k].state {
                *woken = true;
                n += 1;
            }
        }
        n
    }
    fn do_futex(&mut self, t: usize, a: &[u64; 6], timed_out: bool, was_futex: bool) -> Sv {
        let pi = self.tasks[t].proc;
        let op = (a[1] & 127) as i32;
        match op {
            0 | 9 => {
                if was_futex {
                    return Sv::Ret(if timed_out { -(ETIMEDOUT as i64) } else { 0 });
                }
                let cur = sys::peek_u32(self.tasks[t].tid, a[0]).unwrap_or(0);
                if cur != a[2] as u32 {
                    return Sv::Ret(-(EAGAIN as i64));
                }
                let deadline = if a[3] == 0 {
                    None
                } else {
                    let ts = self.timespec_at(t, a[3]).unwrap_or(0);
                    Some(if op == 0 {
                        self.now.saturating_add(ts)
                    } else if a[1] & 256 != 0 {
                        ts
                    } else {
                        self.now.saturating_add(ts.saturating_sub(self.mono()))
                    })
                };
                Sv::Block(Wait::Futex { addr: a[0], deadline, woken: false })
            }
            1 | 10 => Sv::Ret(self.wake(pi, a[0], a[2] as i32 as i64)),
            _ => {
                self.unsupported.insert(format!("futex op {}", op));
                Sv::Ret(-(ENOSYS as i64))
            }
        }
    }
    fn lock_free(&self, ino: Ino, o: usize, ex: bool) -> bool {
        match self.locks.get(&ino) {
            None => true,
            Some((h, hex)) => !h.iter().any(|x| *x != o) || (!ex && !*hex),
        }
    }
    fn unlock(&mut self, o: usize) {
        for l in self.locks.values_mut() {
            l.0.remove(&o);
        }
        self.locks.retain(|_, l| !l.0.is_empty());
    }
    fn do_wait(&mut self, t: usize, sel: i64, nohang: bool) -> Result<Option<usize>, Sv> {
        let me = self.tasks[t].proc;
        let mut any = false;
        for k in 0..self.procs.len() {
            let p = &self.procs[k];
            if p.parent == Some(me) && !p.reaped && self.sel(p, sel) {
                any = true;
                if p.exit.is_some() {
                    return Ok(Some(k));
                }
            }
        }
        if !any {
            return Err(Sv::Ret(-(ECHILD as i64)));
        }
        if nohang {
            return Ok(None);
        }
        Err(Sv::Block(Wait::Child(sel)))
    }

    // ------------------------------------------------------------ processes and memory

    fn do_clone(&mut self, t: usize, flags: u64, ctid: u64) -> Sv {
        let pi = self.tasks[t].proc;
        let tid = self.tasks[t].tid;
        let thread = flags & CLONE_THREAD as u64 != 0;
        sys::cont_sys(tid, 0);
        let mut made: Option<(usize, i32)> = None;
        loop {
            match sys::wait(tid) {
                Stop::Event(e) if e == PTRACE_EVENT_CLONE || e == PTRACE_EVENT_FORK || e == PTRACE_EVENT_VFORK => {
                    let nt = sys::eventmsg(tid) as i32;
                    loop {
                        match sys::wait(nt) {
                            Stop::Timeout => continue,
                            _ => break,
                        }
                    }
                    if thread {
                        let idx = self.tasks.iter().filter(|x| x.proc == pi).count();
                        self.tasks.push(Task { proc: pi, tid: nt, state: TState::Resume, ctid: if flags & CLONE_CHILD_CLEARTID as u64 != 0 { ctid } else { 0 }, rolled: false, fault: None, idx });
                        self.probe("thread started");
                        sys::cont_sys(tid, 0);
                        made = Some((usize::MAX, nt));
                    } else {
                        let np = self.procs.len();
                        let par = &self.procs[pi];
                        let fds = par.fds.clone();
                        let child = Proc {
                            run: par.run, name: format!("{}/{}", par.name, self.procs.iter().filter(|p| p.parent == Some(pi)).count()), parent: Some(pi),
                            vpid: self.mach.pid_base + 7 * np as i32, real: nt, fds: fds.clone(), cwd: par.cwd.clone(), umask: par.umask, exit: None, reaped: false,
                            ord: 0, brk: par.brk, argv: vec![], mem_fail: par.mem_fail, hint: par.hint,
                        };
                        for f in fds.values() {
                            self.ofds[f.ofd].refs += 1;
                        }
                        self.procs.push(child);
                        self.tasks.push(Task { proc: np, tid: nt, state: TState::Resume, ctid: 0, rolled: false, fault: None, idx: 0 });
                        self.probe("child process started");
                        if e == PTRACE_EVENT_VFORK {
                            self.tasks[t].state = TState::Vfork(np);
                            sys::cont_sys(tid, 0);
                            return Sv::Gone;
                        }
                        sys::cont_sys(tid, 0);
                        made = Some((np, nt));
                    }
                }
                Stop::SyscallExit => {
                    if let (Some((np, _)), Some(mut r)) = (made, sys::getregs(tid)) {
                        if np != usize::MAX {
                            r.rax = self.procs[np].vpid as u64;
                            sys::setregs(tid, &r);
                        }
                    }
                    self.tasks[t].state = TState::Resume;
                    return Sv::Gone;
                }
                Stop::Signal(_) | Stop::Event(_) => sys::cont_sys(tid, 0),
                Stop::Timeout => {
                    self.tasks[t].state = TState::Resume;
                    return Sv::Gone;
                }
                _ => {
                    self.task_gone(t, Exit::Sig(SIGKILL));
                    return Sv::Gone;
                }
            }
        }
    }
    fn do_exec(&mut self, t: usize, a: &[u64; 6]) -> Sv {
        let pi = self.tasks[t].proc;
        let tid = self.tasks[t].tid;
        let path = match self.str_at(t, a[0]) {
            Ok(p) => p,
            Err(e) => return Sv::Ret(-(e as i64)),
        };
        let look = match self.vfs.lookup(&self.procs[pi].cwd, &path, true) {
            Ok(l) => l,
            Err(e) => return Sv::Ret(-(e as i64)),
        };
        match look.ino.map(|i| &self.vfs.nodes[i].kind) {
            None => return Sv::Ret(-(ENOENT as i64)),
            Some(Kind::Program) => {}
            Some(_) => return Sv::Ret(-(EACCES as i64)),
        }
        let mut argv = vec![];
        let mut p = a[1];
        for _ in 0..256 {
            match sys::peek_u64(tid, p) {
                Some(0) | None => break,
                Some(s) => argv.push(self.str_at(t, s).unwrap_or_default()),
            }
            p += 8;
        }
        self.note(format!("r{} exec {:?}", self.procs[pi].run, argv), "exec");
        // the real child is replaced by the simulated program
        let drop: Vec<i32> = self.procs[pi].fds.iter().filter(|(_, e)| e.cloexec).map(|(f, _)| *f).collect();
        for f in drop {
            let e = self.procs[pi].fds.remove(&f).unwrap();
            self.close_ofd(e.ofd);
        }
        let real = self.procs[pi].real;
        unsafe {
            kill(real, SIGKILL);
        }
        reap(real);
        self.procs[pi].real = 0;
        for k in 0..self.tasks.len() {
            if self.tasks[k].proc == pi {
                self.tasks[k].state = TState::Dead;
            }
        }
        self.procs[pi].argv = argv;
        self.start_fmt(pi);
        self.release_vfork(pi);
        Sv::Gone
    }
    fn mem_native(&mut self, t: usize, regs: &user_regs_struct) -> Sv {
        sys::setregs(self.tasks[t].tid, regs);
        Sv::Pass
    }
    fn do_mmap(&mut self, t: usize, a: &[u64; 6], regs: &mut user_regs_struct) -> Sv {
        let pi = self.tasks[t].proc;
        let tid = self.tasks[t].tid;
        if self.procs[pi].mem_fail {
            return Sv::Ret(-(ENOMEM as i64));
        }
        let fl = a[3] as i32;
        if a[0] == 0 && self.mach.mmap_shift > 0 && fl & MAP_FIXED == 0 {
            if self.procs[pi].hint == 0 {
                self.procs[pi].hint = 0x2000_0000_0000 + self.mach.mmap_shift * 4096;
            }
            regs.rdi = self.procs[pi].hint;
            self.procs[pi].hint += (a[1] + 4095) / 4096 * 4096 + 4096 * (1 + self.mach.mmap_shift % 3);
        }
        if fl & MAP_ANONYMOUS != 0 {
            return self.mem_native(t, regs);
        }
        // file mapping: an anonymous one, filled by hand
        let ino = match self.file_ino(pi, a[4] as i32 as i64) {
            Ok(i) => i,
            Err(e) => return Sv::Ret(-(e as i64)),
        };
        if fl & MAP_SHARED != 0 && fl & MAP_PRIVATE == 0 && a[2] as i32 & PROT_WRITE != 0 {
            self.unsupported.insert("shared writable file mapping".into());
            return Sv::Ret(-(ENODEV as i64));
        }
        if self.vfs.nodes[ino].bad.is_some() {
            return Sv::Ret(-(EIO as i64));
        }
        let data = match &self.vfs.nodes[ino].kind {
            Kind::File(b) => {
                let o = (a[5] as usize).min(b.len());
                let e = (o + a[1] as usize).min(b.len());
                b[o..e].to_vec()
            }
            _ => return Sv::Ret(-(ENODEV as i64)),
        };
        regs.r10 = ((fl & !(MAP_SHARED | MAP_SHARED_VALIDATE)) | MAP_PRIVATE | MAP_ANONYMOUS) as u64;
        regs.rdx |= PROT_WRITE as u64;
        regs.r8 = u64::MAX;
        regs.r9 = 0;
        sys::setregs(tid, regs);
        sys::cont_sys(tid, 0);
        loop {
            match sys::wait(tid) {
                Stop::SyscallExit => {
                    if let Some(r) = sys::getregs(tid) {
                        if (r.rax as i64) > 0 {
                            sys::poke(tid, r.rax, &data);
                        }
                    }
                    self.tasks[t].state = TState::Resume;
                    self.tasks[t].rolled = false;
                    return Sv::Gone;
                }
                Stop::Signal(_) | Stop::Event(_) => sys::cont_sys(tid, 0),
                _ => {
                    self.task_gone(t, Exit::Sig(SIGKILL));
                    return Sv::Gone;
                }
            }
        }
    }
    fn signal_proc(&mut self, q: usize, sig: i32) {
        for k in 0..self.actors.len() {
            if self.actors[k].proc == Some(q) {
                self.actors[k].done = true;
            }
        }
        self.end_proc(q, Exit::Sig(sig));
    }

    // ------------------------------------------------------------ the table

    #[allow(clippy::too_many_arguments)]
    fn do_call(&mut self, t: usize, nr: i64, a: &[u64; 6], regs: &mut user_regs_struct, limit: usize, size_fault: Option<String>, timed_out: bool, was_until: bool, was_futex: bool) -> Sv {
        let pi = self.tasks[t].proc;
        let tid = self.tasks[t].tid;
        fn r(x: Result<i64, i32>) -> Sv {
            Sv::Ret(x.unwrap_or_else(|e| -(e as i64)))
        }
        let cwdfd = AT_FDCWD as i64;
        let fdarg = |x: u64| x as i32 as i64;
        match nr {
            SYS_read => self.do_read(t, a[0], &[(a[1], a[2] as usize)], None, limit),
            SYS_write => self.do_write(t, a[0], &[(a[1], a[2] as usize)], None, limit),
            SYS_pread64 => self.do_read(t, a[0], &[(a[1], a[2] as usize)], Some(a[3] as usize), limit),
            SYS_pwrite64 => self.do_write(t, a[0], &[(a[1], a[2] as usize)], Some(a[3] as usize), limit),
            SYS_readv => {
                let v = self.iovs(t, a[1], a[2]);
                self.do_read(t, a[0], &v, None, limit)
            }
            SYS_writev => {
                let v = self.iovs(t, a[1], a[2]);
                self.do_write(t, a[0], &v, None, limit)
            }
            SYS_preadv => {
                let v = self.iovs(t, a[1], a[2]);
                self.do_read(t, a[0], &v, Some(a[3] as usize), limit)
            }
            SYS_pwritev => {
                let v = self.iovs(t, a[1], a[2]);
                self.do_write(t, a[0], &v, Some(a[3] as usize), limit)
            }
            SYS_open => Sv::Ret(self.do_open(t, cwdfd, a[0], a[1] as i32, a[2] as u32)),
            SYS_openat => Sv::Ret(self.do_open(t, fdarg(a[0]), a[1], a[2] as i32, a[3] as u32)),
            SYS_creat => Sv::Ret(self.do_open(t, cwdfd, a[0], O_CREAT | O_WRONLY | O_TRUNC, a[1] as u32)),
            SYS_close => match self.procs[pi].fds.remove(&(a[0] as i32)) {
                Some(e) => {
                    self.close_ofd(e.ofd);
                    Sv::Ret(0)
                }
                None => Sv::Ret(-(EBADF as i64)),
            },
            SYS_close_range => {
                let fds: Vec<i32> = self.procs[pi].fds.keys().copied().filter(|f| *f as u64 >= a[0] && *f as u64 <= a[1]).collect();
                for f in fds {
                    if a[2] & 4 != 0 {
                        self.procs[pi].fds.get_mut(&f).unwrap().cloexec = true;
                    } else {
                        let e = self.procs[pi].fds.remove(&f).unwrap();
                        self.close_ofd(e.ofd);
                    }
                }
                Sv::Ret(0)
            }
            SYS_stat | SYS_lstat => {
                let i = self.stat_target(t, cwdfd, a[0], if nr == SYS_lstat { AT_NOFOLLOW } else { 0 });
                r(i.map(|i| {
                    sys::poke(tid, a[1], bytes_of(&self.stat_of(i, &size_fault)));
                    0
                }))
            }
            SYS_fstat => {
                let i = self.stat_fd(pi, fdarg(a[0]));
                r(i.map(|i| {
                    sys::poke(tid, a[1], bytes_of(&self.stat_of(i, &size_fault)));
                    0
                }))
            }
            SYS_newfstatat => {
                let i = self.stat_target(t, fdarg(a[0]), a[1], a[3] as i64);
                r(i.map(|i| {
                    sys::poke(tid, a[2], bytes_of(&self.stat_of(i, &size_fault)));
                    0
                }))
            }
            SYS_statx => {
                if a[4] == 0 {
                    return Sv::Ret(-(EFAULT as i64));
                }
                let i = self.stat_target(t, fdarg(a[0]), a[1], a[2] as i64);
                r(i.map(|i| {
                    let st = self.stat_of(i, &size_fault);
                    sys::poke(tid, a[4], bytes_of(&World::statx_of(&st)));
                    0
                }))
            }
            SYS_statfs | SYS_fstatfs => {
                let mut s: libc::statfs = unsafe { std::mem::zeroed() };
                s.f_type = 0xEF53;
                s.f_bsize = 4096;
                s.f_blocks = 1 << 20;
                s.f_bavail = (self.vfs.room().min(1 << 30) / 4096) as u64;
                s.f_bfree = s.f_bavail;
                sys::poke(tid, a[1], bytes_of(&s));
                Sv::Ret(0)
            }
            SYS_access => r(self.stat_target(t, cwdfd, a[0], 0).map(|_| 0)),
            SYS_faccessat | SYS_faccessat2 => r(self.stat_target(t, fdarg(a[0]), a[1], a[3] as i64 & AT_EMPTY).map(|_| 0)),
            SYS_lseek => {
                let v = self.do_lseek(pi, fdarg(a[0]), a[1] as i64, a[2] as i64);
                r(v)
            }
            SYS_poll => {
                let to = a[2] as i32;
                self.do_poll(t, a[0], a[1], if to < 0 { None } else { Some(to as u64 * 1_000_000) }, timed_out)
            }
            SYS_ppoll => {
                let to = if a[2] == 0 { None } else { self.timespec_at(t, a[2]) };
                self.do_poll(t, a[0], a[1], to, timed_out)
            }
            SYS_pipe | SYS_pipe2 => {
                let fl = if nr == SYS_pipe2 { a[1] as i32 } else { 0 };
                let p = self.add_pipe();
                self.pipes[p].readers = 1;
                self.pipes[p].writers = 1;
                let ce = fl & O_CLOEXEC != 0;
                self.ofds.push(Ofd { kind: OfdKind::PipeR(p), flags: O_RDONLY | (fl & O_NONBLOCK), refs: 1, label: format!("pipe{}:r", p) });
                let f1 = self.new_fd(pi, 0, self.ofds.len() - 1, ce);
                self.ofds.push(Ofd { kind: OfdKind::PipeW(p), flags: O_WRONLY | (fl & O_NONBLOCK), refs: 1, label: format!("pipe{}:w", p) });
                let f2 = self.new_fd(pi, 0, self.ofds.len() - 1, ce);
                sys::poke(tid, a[0], &(f1 as i32).to_le_bytes());
                sys::poke(tid, a[0] + 4, &(f2 as i32).to_le_bytes());
                Sv::Ret(0)
            }
            SYS_dup => match self.fd(pi, fdarg(a[0])) {
                Some(o) => {
                    self.ofds[o].refs += 1;
                    Sv::Ret(self.new_fd(pi, 0, o, false))
                }
                None => Sv::Ret(-(EBADF as i64)),
            },
            SYS_dup2 | SYS_dup3 => match self.fd(pi, fdarg(a[0])) {
                Some(o) => {
                    if a[0] as i32 == a[1] as i32 {
                        return Sv::Ret(if nr == SYS_dup2 { a[1] as i64 } else { -(EINVAL as i64) });
                    }
                    self.ofds[o].refs += 1;
                    if let Some(e) = self.procs[pi].fds.remove(&(a[1] as i32)) {
                        self.close_ofd(e.ofd);
                    }
                    let ce = nr == SYS_dup3 && a[2] as i32 & O_CLOEXEC != 0;
                    self.procs[pi].fds.insert(a[1] as i32, FdEnt { ofd: o, cloexec: ce });
                    Sv::Ret(a[1] as i32 as i64)
                }
                None => Sv::Ret(-(EBADF as i64)),
            },
            SYS_fcntl => {
                let o = match self.fd(pi, fdarg(a[0])) {
                    Some(o) => o,
                    None => return Sv::Ret(-(EBADF as i64)),
                };
                match a[1] as i32 {
                    F_DUPFD | F_DUPFD_CLOEXEC => {
                        self.ofds[o].refs += 1;
                        Sv::Ret(self.new_fd(pi, a[2] as i32, o, a[1] as i32 == F_DUPFD_CLOEXEC))
                    }
                    F_GETFD => Sv::Ret(self.procs[pi].fds[&(a[0] as i32)].cloexec as i64),
                    F_SETFD => {
                        self.procs[pi].fds.get_mut(&(a[0] as i32)).unwrap().cloexec = a[2] & 1 != 0;
                        Sv::Ret(0)
                    }
                    F_GETFL => Sv::Ret(self.ofds[o].flags as i64),
                    F_SETFL => {
                        self.ofds[o].flags = (self.ofds[o].flags & O_ACCMODE) | (a[2] as i32 & !O_ACCMODE);
                        Sv::Ret(0)
                    }
                    F_SETLK | F_SETLKW | F_OFD_SETLK | F_OFD_SETLKW => Sv::Ret(0),
                    c => {
                        self.unsupported.insert(format!("fcntl {}", c));
                        Sv::Ret(-(EINVAL as i64))
                    }
                }
            }
            SYS_flock => {
                let o = match self.fd(pi, fdarg(a[0])) {
                    Some(o) => o,
                    None => return Sv::Ret(-(EBADF as i64)),
                };
                let ino = match self.file_ino(pi, fdarg(a[0])) {
                    Ok(i) => i,
                    Err(e) => return Sv::Ret(-(e as i64)),
                };
                self.probe("file lock used");
                if a[1] & 8 != 0 {
                    self.unlock(o);
                    return Sv::Ret(0);
                }
                let ex = a[1] & 2 != 0;
                if !self.lock_free(ino, o, ex) {
                    return if a[1] & 4 != 0 { Sv::Ret(-(EAGAIN as i64)) } else { Sv::Block(Wait::Flock { ino, ofd: o, ex }) };
                }
                self.unlock(o);
                let e = self.locks.entry(ino).or_insert((BTreeSet::new(), ex));
                e.0.insert(o);
                e.1 = ex;
                Sv::Ret(0)
            }
            SYS_ioctl => {
                let o = match self.fd(pi, fdarg(a[0])) {
                    Some(o) => o,
                    None => return Sv::Ret(-(EBADF as i64)),
                };
                match a[1] {
                    0x5421 => {
                        let v = sys::peek_u32(tid, a[2]).unwrap_or(0);
                        if v != 0 {
                            self.ofds[o].flags |= O_NONBLOCK;
                        } else {
                            self.ofds[o].flags &= !O_NONBLOCK;
                        }
                        Sv::Ret(0)
                    }
                    0x5451 => {
                        self.procs[pi].fds.get_mut(&(a[0] as i32)).unwrap().cloexec = true;
                        Sv::Ret(0)
                    }
                    0x5450 => {
                        self.procs[pi].fds.get_mut(&(a[0] as i32)).unwrap().cloexec = false;
                        Sv::Ret(0)
                    }
                    0x541B => {
                        let n = match &self.ofds[o].kind {
                            OfdKind::PipeR(p) => self.pipes[*p].buf.len() as u32,
                            _ => 0,
                        };
                        sys::poke(tid, a[2], &n.to_le_bytes());
                        Sv::Ret(0)
                    }
                    _ => Sv::Ret(-(ENOTTY as i64)),
                }
            }
            SYS_fsync | SYS_fdatasync | SYS_sync_file_range => match self.file_ino(pi, fdarg(a[0])) {
                Ok(i) => {
                    self.vfs.sync(i);
                    Sv::Ret(0)
                }
                Err(e) => Sv::Ret(-(e as i64)),
            },
            SYS_sync | SYS_syncfs => {
                for i in 0..self.vfs.nodes.len() {
                    self.vfs.sync(i);
                }
                Sv::Ret(0)
            }
            SYS_ftruncate => {
                let v = self.file_ino(pi, fdarg(a[0])).and_then(|i| self.vfs.set_len(i, a[1] as usize)).map(|_| 0);
                r(v)
            }
            SYS_truncate => {
                let v = self.look_at(t, cwdfd, a[0], true).and_then(|l| l.ino.ok_or(ENOENT)).and_then(|i| self.vfs.set_len(i, a[1] as usize)).map(|_| 0);
                r(v)
            }
            SYS_fallocate => {
                if a[1] != 0 {
                    return Sv::Ret(-(EOPNOTSUPP as i64));
                }
                let end = (a[2] + a[3]) as usize;
                let v = self.file_ino(pi, fdarg(a[0])).and_then(|i| {
                    let len = match &self.vfs.nodes[i].kind {
                        Kind::File(b) => b.len(),
                        _ => return Err(ENODEV),
                    };
                    if end > len {
                        self.vfs.set_len(i, end)?;
                    }
                    Ok(0)
                });
                r(v)
            }
            SYS_fadvise64 | SYS_readahead => Sv::Ret(0),
            SYS_rename => r(self.do_rename(t, cwdfd, a[0], cwdfd, a[1], 0)),
            SYS_renameat => r(self.do_rename(t, fdarg(a[0]), a[1], fdarg(a[2]), a[3], 0)),
            SYS_renameat2 => r(self.do_rename(t, fdarg(a[0]), a[1], fdarg(a[2]), a[3], a[4])),
            SYS_unlink => r(self.do_unlink(t, cwdfd, a[0], false)),
            SYS_rmdir => r(self.do_unlink(t, cwdfd, a[0], true)),
            SYS_unlinkat => r(self.do_unlink(t, fdarg(a[0]), a[1], a[2] & 0x200 != 0)),
            SYS_mkdir => r(self.do_mkdir(t, cwdfd, a[0], a[1])),
            SYS_mkdirat => r(self.do_mkdir(t, fdarg(a[0]), a[1], a[2])),
            SYS_link => r(self.do_link(t, cwdfd, a[0], cwdfd, a[1])),
            SYS_linkat => r(self.do_link(t, fdarg(a[0]), a[1], fdarg(a[2]), a[3])),
            SYS_symlink => r(self.do_symlink(t, a[0], cwdfd, a[1])),
            SYS_symlinkat => r(self.do_symlink(t, a[0], fdarg(a[1]), a[2])),
            SYS_readlink => r(self.do_readlink(t, cwdfd, a[0], a[1], a[2])),
            SYS_readlinkat => r(self.do_readlink(t, fdarg(a[0]), a[1], a[2], a[3])),
            SYS_chmod | SYS_fchmodat => {
                let l = if nr == SYS_chmod { self.look_at(t, cwdfd, a[0], true) } else { self.look_at(t, fdarg(a[0]), a[1], true) };
                let m = if nr == SYS_chmod { a[1] } else { a[2] } as u32;
                let v = l.and_then(|l| l.ino.ok_or(ENOENT)).map(|i| {
                    self.vfs.nodes[i].mode = m & 0o7777;
                    0
                });
                r(v)
            }
            SYS_fchmod => {
                let v = self.file_ino(pi, fdarg(a[0])).map(|i| {
                    self.vfs.nodes[i].mode = a[1] as u32 & 0o7777;
                    0
                });
                r(v)
            }
            SYS_utimensat => {
                let ino = if a[1] == 0 { self.file_ino(pi, fdarg(a[0])) } else { self.look_at(t, fdarg(a[0]), a[1], a[3] & AT_NOFOLLOW as u64 == 0).and_then(|l| l.ino.ok_or(ENOENT)) };
                let now = self.vfs.clock;
                let when = if a[2] == 0 {
                    now
                } else {
                    let v = sys::peek(self.tasks[t].tid, a[2] + 16, 16).unwrap_or(vec![0; 16]);
                    let (s, n) = (u64::from_le_bytes(v[..8].try_into().unwrap()), u64::from_le_bytes(v[8..].try_into().unwrap()));
                    match n {
                        0x3fff_ffff => now,
                        0x3fff_fffe => u64::MAX,
                        n => s.wrapping_mul(1_000_000_000).wrapping_add(n),
                    }
                };
                r(ino.map(|i| {
                    if when != u64::MAX {
                        self.vfs.nodes[i].mtime = when;
                    }
                    0
                }))
            }
            SYS_chown | SYS_fchown | SYS_lchown | SYS_fchownat | SYS_utime | SYS_utimes => Sv::Ret(0),
            SYS_getdents64 => r(self.do_getdents(t, fdarg(a[0]), a[1], a[2] as usize)),
            SYS_getcwd => {
                let c = self.procs[pi].cwd.clone();
                let mut v = c.into_bytes();
                v.push(0);
                if v.len() > a[1] as usize {
                    return Sv::Ret(-(ERANGE as i64));
                }
                sys::poke(tid, a[0], &v);
                Sv::Ret(v.len() as i64)
            }
            SYS_chdir => {
                let p = match self.str_at(t, a[0]) {
                    Ok(p) => p,
                    Err(e) => return Sv::Ret(-(e as i64)),
                };
                match self.vfs.lookup(&self.procs[pi].cwd, &p, true) {
                    Ok(Look { ino: Some(i), .. }) => {
                        if let Kind::Dir(_) = self.vfs.nodes[i].kind {
                            let c = absolute(&self.procs[pi].cwd, &p);
                            self.procs[pi].cwd = c;
                            Sv::Ret(0)
                        } else {
                            Sv::Ret(-(ENOTDIR as i64))
                        }
                    }
                    Ok(_) => Sv::Ret(-(ENOENT as i64)),
                    Err(e) => Sv::Ret(-(e as i64)),
                }
            }
            SYS_umask => {
                let o = self.procs[pi].umask;
                self.procs[pi].umask = a[0] as u32 & 0o777;
                Sv::Ret(o as i64)
            }
            SYS_getpid => Sv::Ret(self.procs[pi].vpid as i64),
            SYS_getppid => Sv::Ret(self.procs[pi].parent.map_or(1, |p| self.procs[p].vpid) as i64),
            SYS_gettid => Sv::Ret(self.procs[pi].vpid as i64 + self.tasks[t].idx as i64),
            SYS_getuid | SYS_geteuid | SYS_getgid | SYS_getegid => Sv::Ret(1000),
            SYS_getpgrp | SYS_getpgid | SYS_getsid | SYS_setsid | SYS_setpgid => Sv::Ret(self.procs[pi].vpid as i64),
            SYS_setuid | SYS_setgid | SYS_setgroups => Sv::Ret(0),
            SYS_getgroups => Sv::Ret(0),
            SYS_clock_gettime => {
                let v = match a[0] as i32 {
                    CLOCK_REALTIME | CLOCK_REALTIME_COARSE => self.now,
                    _ => self.mono(),
                };
                let mut b = (v / 1_000_000_000).to_le_bytes().to_vec();
                b.extend_from_slice(&(v % 1_000_000_000).to_le_bytes());
                sys::poke(tid, a[1], &b);
                self.probe("clock read");
                Sv::Ret(0)
            }
            SYS_clock_getres => {
                if a[1] != 0 {
                    let mut b = 0u64.to_le_bytes().to_vec();
                    b.extend_from_slice(&1u64.to_le_bytes());
                    sys::poke(tid, a[1], &b);
                }
                Sv::Ret(0)
            }
            SYS_gettimeofday => {
                let mut b = (self.now / 1_000_000_000).to_le_bytes().to_vec();
                b.extend_from_slice(&(self.now % 1_000_000_000 / 1000).to_le_bytes());
                sys::poke(tid, a[0], &b);
                self.probe("clock read");
                Sv::Ret(0)
            }
            SYS_time => {
                let v = self.now / 1_000_000_000;
                if a[0] != 0 {
                    sys::poke(tid, a[0], &v.to_le_bytes());
                }
                self.probe("clock read");
                Sv::Ret(v as i64)
            }
            SYS_nanosleep | SYS_clock_nanosleep => {
                if was_until {
                    return Sv::Ret(0);
                }
                self.probe("sleep");
                let ts = self.timespec_at(t, if nr == SYS_nanosleep { a[0] } else { a[2] }).unwrap_or(0);
                let until = if nr == SYS_nanosleep || a[1] & 1 == 0 {
                    self.now.saturating_add(ts)
                } else if a[0] as i32 == CLOCK_REALTIME {
                    ts
                } else {
                    self.now.saturating_add(ts.saturating_sub(self.mono()))
                };
                Sv::Block(Wait::Until(until))
            }
            SYS_futex => self.do_futex(t, a, timed_out, was_futex),
            SYS_sched_yield => {
                self.cur = usize::MAX;
                Sv::Ret(0)
            }
            SYS_sched_getaffinity => {
                let m: u64 = if self.mach.ncpu >= 64 { u64::MAX } else { (1u64 << self.mach.ncpu) - 1 };
                let n = (a[1] as usize).min(8);
                sys::poke(tid, a[2], &m.to_le_bytes()[..n]);
                Sv::Ret(8)
            }
            SYS_getcpu => Sv::Ret(0),
            SYS_getrandom => {
                let v = self.random_bytes(a[1] as usize & 0xffff);
                sys::poke(tid, a[0], &v);
                self.probe("randomness read");
                Sv::Ret(v.len() as i64)
            }
            SYS_prlimit64 | SYS_getrlimit => {
                let (res, p) = if nr == SYS_getrlimit { (a[0], a[1]) } else { (a[1], a[3]) };
                if p != 0 {
                    let (c, m): (u64, u64) = match res as u32 {
                        RLIMIT_STACK => (8 << 20, u64::MAX),
                        RLIMIT_NOFILE => (1024, 4096),
                        _ => (u64::MAX, u64::MAX),
                    };
                    let mut b = c.to_le_bytes().to_vec();
                    b.extend_from_slice(&m.to_le_bytes());
                    sys::poke(tid, p, &b);
                }
                Sv::Ret(0)
            }
            SYS_uname => {
                let mut u = vec![0u8; 65 * 6];
                for (k, s) in ["Linux", "sim", "6.1.0", "#1", "x86_64", ""].iter().enumerate() {
                    u[65 * k..65 * k + s.len()].copy_from_slice(s.as_bytes());
                }
                sys::poke(tid, a[0], &u);
                Sv::Ret(0)
            }
            SYS_sysinfo => {
                let mut s: libc::sysinfo = unsafe { std::mem::zeroed() };
                s.totalram = 8 << 30;
                s.freeram = 4 << 30;
                s.mem_unit = 1;
                sys::poke(tid, a[0], bytes_of(&s));
                Sv::Ret(0)
            }
            SYS_getrusage => {
                sys::poke(tid, a[1], &[0u8; 144]);
                Sv::Ret(0)
            }
            SYS_times => Sv::Ret((self.mono() / 10_000_000) as i64),
            SYS_prctl => Sv::Ret(0),
            SYS_copy_file_range | SYS_clone3 | SYS_openat2 | SYS_io_uring_setup | SYS_pidfd_open => Sv::Ret(-(ENOSYS as i64)),
            SYS_sendfile | SYS_splice => Sv::Ret(-(EINVAL as i64)),
            SYS_mmap => self.do_mmap(t, a, regs),
            SYS_brk => {
                // a shifted layout has no program break: the allocator must use mappings
                if a[0] == 0 {
                    self.procs[pi].brk = 0x10_0000_0000;
                    if self.mach.mmap_shift > 0 {
                        return Sv::Ret(self.procs[pi].brk as i64);
                    }
                    // learn the real break
                    sys::cont_sys(tid, 0);
                    loop {
                        match sys::wait(tid) {
                            Stop::SyscallExit => {
                                if let Some(g) = sys::getregs(tid) {
                                    self.procs[pi].brk = g.rax;
                                }
                                self.tasks[t].state = TState::Resume;
                                self.tasks[t].rolled = false;
                                return Sv::Gone;
                            }
                            Stop::Signal(_) | Stop::Event(_) => sys::cont_sys(tid, 0),
                            _ => {
                                self.task_gone(t, Exit::Sig(SIGKILL));
                                return Sv::Gone;
                            }
                        }
                    }
                }
                if self.mach.mmap_shift > 0 || self.procs[pi].mem_fail {
                    return Sv::Ret(self.procs[pi].brk as i64);
                }
                self.procs[pi].brk = a[0];
                Sv::Pass
            }
            SYS_mremap => {
                if self.procs[pi].mem_fail && a[2] > a[1] {
                    return Sv::Ret(-(ENOMEM as i64));
                }
                Sv::Pass
            }
            SYS_mincore | SYS_mlock | SYS_munlock | SYS_msync | SYS_get_mempolicy => Sv::Ret(0),
            SYS_clone => self.do_clone(t, a[0], a[3]),
            SYS_fork => self.do_clone(t, SIGCHLD as u64, 0),
            SYS_vfork => self.do_clone(t, (CLONE_VFORK | CLONE_VM | SIGCHLD) as u64, 0),
            SYS_execve => self.do_exec(t, a),
            SYS_wait4 => {
                let sel = a[0] as i32 as i64;
                match self.do_wait(t, sel, a[2] & 1 != 0) {
                    Ok(Some(k)) => {
                        self.procs[k].reaped = true;
                        if a[1] != 0 {
                            let st = encode(self.procs[k].exit.unwrap());
                            sys::poke(tid, a[1], &st.to_le_bytes());
                        }
                        Sv::Ret(self.procs[k].vpid as i64)
                    }
                    Ok(None) => Sv::Ret(0),
                    Err(s) => s,
                }
            }
            SYS_waitid => {
                let sel = match a[0] {
                    0 => -1,
                    1 => a[1] as i32 as i64,
                    _ => return Sv::Ret(-(EINVAL as i64)),
                };
                match self.do_wait(t, sel, a[3] & 1 != 0) {
                    Ok(Some(k)) => {
                        if a[3] & 0x0100_0000 == 0 {
                            self.procs[k].reaped = true;
                        }
                        if a[2] != 0 {
                            let mut b = [0u8; 128];
                            b[..4].copy_from_slice(&SIGCHLD.to_le_bytes());
                            let (code, st) = match self.procs[k].exit.unwrap() {
                                Exit::Code(c) => (1i32, c),
                                Exit::Sig(s) => (2, s),
                                Exit::Crash => (2, SIGKILL),
                            };
                            b[8..12].copy_from_slice(&code.to_le_bytes());
                            b[16..20].copy_from_slice(&self.procs[k].vpid.to_le_bytes());
                            b[24..28].copy_from_slice(&st.to_le_bytes());
                            sys::poke(tid, a[2], &b);
                        }
                        Sv::Ret(0)
                    }
                    Ok(None) => {
                        if a[2] != 0 {
                            sys::poke(tid, a[2], &[0u8; 128]);
                        }
                        Sv::Ret(0)
                    }
                    Err(s) => s,
                }
            }
            SYS_kill => {
                let q = (0..self.procs.len()).find(|&k| self.procs[k].vpid == a[0] as i32);
                match q {
                    None => Sv::Ret(-(ESRCH as i64)),
                    Some(q) => {
                        if a[1] != 0 && self.procs[q].exit.is_none() {
                            self.signal_proc(q, a[1] as i32);
                            if q == pi {
                                return Sv::Gone;
                            }
                        }
                        Sv::Ret(0)
                    }
                }
            }
            SYS_tkill | SYS_tgkill => {
                let sig = if nr == SYS_tkill { a[1] } else { a[2] } as i32;
                if sig == 0 {
                    return Sv::Ret(0);
                }
                self.signal_proc(pi, sig);
                Sv::Gone
            }
            SYS_exit => {
                if tid == self.procs[pi].real {
                    self.end_proc(pi, Exit::Code(a[0] as i32 & 255));
                    return Sv::Gone;
                }
                let ctid = self.tasks[t].ctid;
                sys::cont(tid, 0);
                reap_plain(tid);
                self.tasks[t].state = TState::Dead;
                if ctid != 0 {
                    self.wake(pi, ctid, 1);
                }
                Sv::Gone
            }
            SYS_exit_group => {
                self.end_proc(pi, Exit::Code(a[0] as i32 & 255));
                Sv::Gone
            }
            SYS_restart_syscall | SYS_alarm | SYS_setitimer | SYS_capget => Sv::Ret(0),
            n => {
                self.unsupported.insert(format!("syscall {}", n));
                Sv::Ret(-(ENOSYS as i64))
            }
        }
    }
}
fn reap_plain(tid: i32) {
    loop {
        match sys::wait(tid) {
            Stop::Exited(_) | Stop::Killed(_) | Stop::Gone => return,
            Stop::Timeout => return,
            _ => sys::cont(tid, 0),
        }
    }
}
