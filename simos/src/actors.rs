// Simulated programs: the formatter (stub of rustfmt) and producers of piped inputs. Included into world.rs.

impl World {
    fn start_fmt(&mut self, pi: usize) {
        let run = self.procs[pi].run;
        let n = self.fmt_count[run];
        self.fmt_count[run] += 1;
        let key = format!("r{}.fmt{}", run, n);
        let cfg = self.runs[run].cfg.clone();
        let argv = self.procs[pi].argv.clone();
        let mut path = None;
        let mut to_stdout = false;
        let mut check = false;
        let mut backup = false;
        let mut bad: Option<i32> = None;
        let mut k = 1;
        while k < argv.len() {
            let a = argv[k].as_str();
            match a {
                "--edition" | "--config" | "--config-path" | "--color" | "--style-edition" | "--print-config" => k += 1,
                "--emit" => {
                    k += 1;
                    if argv.get(k).map_or(false, |s| s == "stdout") {
                        to_stdout = true;
                    }
                }
                "--emit=stdout" => to_stdout = true,
                "--check" => check = true,
                "--backup" => backup = true,
                "--version" | "-V" | "--help" | "-h" => bad = Some(0),
                "--quiet" | "-q" | "--verbose" | "-v" | "--unstable-features" | "--force" | "--" | "-l" | "--files-with-diff" => {}
                _ if a.starts_with("--edition=") || a.starts_with("--config=") || a.starts_with("--color=") || a.starts_with("--emit=") || a.starts_with("--config-path=") || a.starts_with("--style-edition=") => {}
                _ if a.starts_with('-') && a.len() > 1 => bad = Some(1),
                _ => {
                    if path.is_none() {
                        path = Some(a.to_string());
                    }
                }
            }
            k += 1;
        }
        if path.is_none() {
            to_stdout = true;
        }
        let plan = if cfg.classes & F_FMT == 0 {
            String::new()
        } else {
            self.dec
                .choose(&format!("{}.plan", key), |h| {
                    let p = match cfg.target {
                        Some(_) => 1.0,
                        None => 0.5,
                    };
                    if unit(h) >= p {
                        return None;
                    }
                    let h2 = mix(h ^ 5);
                    let code = if mix(h2 ^ 2) % 2 == 0 { 1 + (mix(h2 ^ 3) % 255) as i32 } else { [1, 1, 2, 101, 127, 255][(h2 % 6) as usize] };
                    let sig = [SIGKILL, SIGSEGV, SIGABRT, SIGTERM, SIGPIPE, 1 + (mix(h2 ^ 4) % 15) as i32][(h2 % 6) as usize];
                    let at = mix(h2) % 5000;
                    Some(match mix(h2 ^ 9) % 6 {
                        0 => format!("exit:{}", code),
                        1 => format!("sig:{}", sig),
                        2 => format!("exit_mid:{}:{}", code, at),
                        3 => format!("sig_mid:{}:{}", sig, at),
                        4 => format!("exit_end:{}", code),
                        _ => format!("sig_end:{}", sig),
                    })
                })
                .unwrap_or_default()
        };
        if !plan.is_empty() {
            *self.faults.entry(format!("Formatter/{}", plan.split(':').next().unwrap())).or_insert(0) += 1;
            self.run_faults[run] += 1;
            self.last_fault_step = self.step;
            self.note(format!("{} FAULT {}", key, plan), "fmtfault");
        }
        let mut noise = [0usize; 2];
        if cfg.classes & F_NOISE != 0 {
            if let Some(v) = self.dec.choose(&format!("{}.noise", key), |h| {
                if h % 2 == 0 {
                    return None;
                }
                let sz = |h: u64| [0u64, 10, 5_000, 65_536, 65_537, 200_000, 1_200_000][(h % 7) as usize];
                Some(format!("{},{}", sz(mix(h ^ 1)), sz(mix(h ^ 2))))
            }) {
                let p: Vec<usize> = v.split(',').map(|x| x.parse().unwrap_or(0)).collect();
                noise = [p[0], *p.get(1).unwrap_or(&0)];
                *self.faults.entry("Formatter/noise".into()).or_insert(0) += 1;
                self.last_fault_step = self.step;
            }
        }
        let mut wake = self.now;
        if cfg.classes & F_STALL != 0 {
            if let Some(v) = self.dec.choose(&format!("{}.stall", key), |h| if h % 2 == 0 { None } else { Some((1 + mix(h) % 600_000).to_string()) }) {
                wake += v.parse::<u64>().unwrap_or(0) * 1_000_000;
                *self.faults.entry("Formatter/slow".into()).or_insert(0) += 1;
                self.last_fault_step = self.step;
            }
        }
        let chunk = self
            .dec
            .choose(&format!("{}.chunk", key), |h| if h % 3 == 0 { None } else { Some((1 + mix(h) % 8192).to_string()) })
            .map_or(usize::MAX, |v| v.parse().unwrap_or(4096).max(1).max(1));
        let st = match bad {
            Some(c) => FmtSt::End(c),
            None => FmtSt::Start,
        };
        let cwd = self.procs[pi].cwd.clone();
        self.actors.push(Actor {
            proc: Some(pi),
            run,
            wake,
            kind: ActKind::Fmt(Fmt { st, path, cwd, to_stdout, check, backup, input: vec![], out: vec![], ino: 0, off: 0, plan, chunk, noise, key, read_done: false }),
            done: false,
            n,
        });
    }

    fn actor_step(&mut self, a: usize) {
        let mut kind = std::mem::replace(&mut self.actors[a].kind, ActKind::Feeder { pipe: 0, data: vec![], off: 0, chunk: 1 });
        match &mut kind {
            ActKind::Feeder { pipe, data, off, chunk } => {
                let p = *pipe;
                if self.pipes[p].readers == 0 && *off > 0 && self.procs.iter().all(|x| x.exit.is_some()) {
                    self.actors[a].done = true;
                } else if self.pipes[p].left {
                    self.note(format!("feeder pipe{} broken", p), "feed");
                    self.pipes[p].writers -= 1;
                    self.actors[a].done = true;
                } else if *off >= data.len() {
                    self.pipes[p].writers -= 1;
                    self.actors[a].done = true;
                } else {
                    let room = self.pipes[p].cap.saturating_sub(self.pipes[p].buf.len());
                    if room == 0 {
                        // nobody reads: wait for the clock
                        self.actors[a].wake = self.now + 50_000_000;
                    } else {
                        let n = room.min(*chunk).min(data.len() - *off);
                        self.pipes[p].buf.extend(&data[*off..*off + n]);
                        *off += n;
                        self.actors[a].wake = self.now + 1_000;
                        self.note(format!("feeder pipe{} +{}", p, n), "feed");
                    }
                }
                self.actors[a].kind = kind;
            }
            ActKind::Swapper { path, versions } => {
                match versions.pop_front() {
                    None => self.actors[a].done = true,
                    Some(v) => {
                        let p = path.clone();
                        self.note(format!("swapper replaces {} ({} bytes)", p, v.len()), "swap");
                        *self.faults.entry("Input/replaced".into()).or_insert(0) += 1;
                        let clock = self.now;
                        let i = self.vfs.put(&p, Kind::File(v));
                        self.vfs.nodes[i].mtime = clock;
                        self.vfs.version += 1;
                        let n = self.actors[a].n;
                        let k = format!("swap{}.pause{}", n, versions.len());
                        let d = self.dec.choose(&k, |h| if h % 2 == 0 { None } else { Some((mix(h) % 400_000).to_string()) }).map_or(0, |v| v.parse::<u64>().unwrap_or(0));
                        self.actors[a].wake = self.now + d;
                    }
                }
                self.actors[a].kind = kind;
            }
            ActKind::Fmt(_) => {
                if let ActKind::Fmt(f) = kind {
                    self.fmt_step(a, f);
                }
            }
        }
    }

    fn fmt_end(&mut self, a: usize, f: Fmt, ex: Exit) {
        let pi = self.actors[a].proc.unwrap();
        self.actors[a].done = true;
        let ok = ex == Exit::Code(0) && f.read_done;
        self.fmts.push(FmtRec { run: self.actors[a].run, outcome: format!("{:?}", ex), ok, plan: f.plan.clone(), input: f.input.clone() });
        self.actors[a].kind = ActKind::Fmt(f);
        self.end_proc(pi, ex);
    }

    fn fmt_step(&mut self, a: usize, mut f: Fmt) {
        let pi = self.actors[a].proc.unwrap();
        let plan: Vec<String> = f.plan.split(':').map(|s| s.to_string()).collect();
        let num = |k: usize| plan.get(k).and_then(|s| s.parse::<i64>().ok()).unwrap_or(0);
        let key = f.key.clone();
        self.note(format!("{} {:?}", key, f.st), &format!("f{:?}", std::mem::discriminant(&f.st)));
        if matches!(f.st, FmtSt::Trunc | FmtSt::Write) && self.exits.contains_key(&self.actors[a].run) {
            *self.late.entry(self.actors[a].run).or_insert(0) += 1;
        }
        match f.st.clone() {
            FmtSt::Start => {
                match plan[0].as_str() {
                    "exit" => return self.fmt_end(a, f, Exit::Code(num(1) as i32)),
                    "sig" => return self.fmt_end(a, f, Exit::Sig(num(1) as i32)),
                    _ => {}
                }
                if let Some(p) = &f.path {
                    match self.vfs.lookup(&f.cwd, p, true) {
                        Ok(Look { ino: Some(i), .. }) if matches!(self.vfs.nodes[i].kind, Kind::File(_)) && self.vfs.nodes[i].mode & 0o600 == 0o600 => f.ino = i,
                        _ => {
                            f.noise[1] += 60;
                            f.st = FmtSt::Noise;
                            f.plan = "fail:1".into();
                            self.actors[a].kind = ActKind::Fmt(f);
                            return;
                        }
                    }
                }
                f.st = FmtSt::Read;
            }
            FmtSt::Read => {
                if f.path.is_some() {
                    if let Kind::File(b) = &self.vfs.nodes[f.ino].kind {
                        f.input = b.clone();
                    }
                } else {
                    // standard input until end of file
                    let got = match self.procs[pi].fds.get(&0).map(|e| e.ofd) {
                        None => vec![],
                        Some(o) => match self.ofd_read(o, 65536, None) {
                            Ok(v) => v,
                            Err(_) => {
                                self.actors[a].kind = ActKind::Fmt(f);
                                return;
                            }
                        },
                    };
                    if !got.is_empty() {
                        f.input.extend_from_slice(&got);
                        self.actors[a].kind = ActKind::Fmt(f);
                        return;
                    }
                }
                f.read_done = true;
                match std::str::from_utf8(&f.input) {
                    Ok(s) if balanced(s) => f.out = formatted(s).into_bytes(),
                    _ => {
                        f.noise[1] += 80;
                        f.plan = "fail:1".into();
                    }
                }
                f.st = FmtSt::Noise;
            }
            FmtSt::Noise => {
                let (fd, k) = if f.noise[1] > 0 { (2, 1) } else { (1, 0) };
                if f.noise[k] > 0 {
                    // a formatter that writes its result to standard output prints nothing else there
                    if fd == 1 && f.to_stdout {
                        f.noise[0] = 0;
                    } else {
                        let n = f.noise[k].min(f.chunk.max(2000)).min(65536);
                        let w = match self.procs[pi].fds.get(&fd).map(|e| e.ofd) {
                            None => Xfer::Done(n),
                            Some(o) => {
                                let data = vec![b'#'; n];
                                self.ofd_write(o, &data, None)
                            }
                        };
                        match w {
                            Xfer::Done(n) => f.noise[k] -= n.max(1).min(f.noise[k]),
                            Xfer::Err(EPIPE) => return self.fmt_end(a, f, Exit::Sig(SIGPIPE)),
                            Xfer::Err(EAGAIN) => self.actors[a].wake = self.now + 1_000_000,
                            Xfer::Err(_) => f.noise[k] = 0,
                            _ => {}
                        }
                    }
                    self.actors[a].kind = ActKind::Fmt(f);
                    return;
                }
                if plan[0] == "fail" {
                    f.st = FmtSt::End(num(1) as i32);
                } else if f.check {
                    let same = f.input == f.out;
                    f.read_done = false;
                    f.st = FmtSt::End(if same { 0 } else { 1 });
                } else if f.to_stdout {
                    f.st = FmtSt::Emit;
                } else if f.out == f.input {
                    f.st = FmtSt::End(0);
                } else {
                    f.st = FmtSt::Trunc;
                }
            }
            FmtSt::Trunc => {
                if f.backup {
                    // the previous text goes to a file next to it, as the real one does
                    if let Some(p) = &f.path {
                        let b = std::path::Path::new(p).with_extension("bk").to_string_lossy().into_owned();
                        let full = if b.starts_with('/') { b } else { format!("{}/{}", f.cwd, b) };
                        self.vfs.put(&full, Kind::File(f.input.clone()));
                        self.vfs.version += 1;
                    }
                }
                let _ = self.vfs.set_len(f.ino, 0);
                f.off = 0;
                f.st = FmtSt::Write;
            }
            FmtSt::Write => {
                let mid = matches!(plan[0].as_str(), "exit_mid" | "sig_mid");
                let stop = if mid { (num(2) as usize).min(f.out.len().saturating_sub(1)) } else { f.out.len() };
                if f.off >= stop {
                    if mid {
                        let ex = if plan[0] == "exit_mid" { Exit::Code(num(1) as i32) } else { Exit::Sig(num(1) as i32) };
                        return self.fmt_end(a, f, ex);
                    }
                    f.st = FmtSt::End(0);
                } else {
                    let n = f.chunk.max(f.out.len() / 200).min(stop - f.off);
                    match self.vfs.write_at(f.ino, f.off, &f.out[f.off..f.off + n]) {
                        Ok(n) => f.off += n,
                        Err(_) => {
                            self.probe("formatter met a full disk");
                            return self.fmt_end(a, f, Exit::Code(1));
                        }
                    }
                }
            }
            FmtSt::Emit => {
                let mid = matches!(plan[0].as_str(), "exit_mid" | "sig_mid");
                let stop = if mid { (num(2) as usize).min(f.out.len().saturating_sub(1)) } else { f.out.len() };
                if f.off >= stop {
                    if mid {
                        let ex = if plan[0] == "exit_mid" { Exit::Code(num(1) as i32) } else { Exit::Sig(num(1) as i32) };
                        return self.fmt_end(a, f, ex);
                    }
                    f.st = FmtSt::End(0);
                } else {
                    let n = f.chunk.max(f.out.len() / 200).min(stop - f.off).min(65536);
                    let w = match self.procs[pi].fds.get(&1).map(|e| e.ofd) {
                        None => Xfer::Err(EBADF),
                        Some(o) => {
                            let d = f.out[f.off..f.off + n].to_vec();
                            self.ofd_write(o, &d, None)
                        }
                    };
                    match w {
                        Xfer::Done(n) => f.off += n,
                        Xfer::Err(EPIPE) => return self.fmt_end(a, f, Exit::Sig(SIGPIPE)),
                        Xfer::Err(EAGAIN) => self.actors[a].wake = self.now + 1_000_000,
                        Xfer::Err(_) => return self.fmt_end(a, f, Exit::Code(1)),
                        _ => {}
                    }
                }
            }
            FmtSt::End(c) => {
                let ex = match plan[0].as_str() {
                    "exit_end" | "exit_mid" if c == 0 => Exit::Code(num(1) as i32),
                    "sig_end" | "sig_mid" if c == 0 => Exit::Sig(num(1) as i32),
                    _ => Exit::Code(c),
                };
                return self.fmt_end(a, f, ex);
            }
        }
        self.actors[a].kind = ActKind::Fmt(f);
    }
}
