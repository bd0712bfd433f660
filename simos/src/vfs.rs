//! In-memory file system of the simulated machine, with a durable shadow for power-loss faults.
use libc::*;
use std::collections::BTreeMap;

pub type Ino = usize;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    File(Vec<u8>),
    Dir(BTreeMap<String, Ino>),
    Symlink(String),
    Fifo(usize),
    Null,
    Full,
    Zero,
    Program,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub kind: Kind,
    pub mode: u32,
    pub mtime: u64,
    pub parent: Ino, // directories only
    pub nlink: u32,
    /// what survives a power loss: None = same as `kind`
    pub durable: Option<Kind>,
    pub dirty: bool,
    /// reads at or past this offset fail with EIO
    pub bad: Option<usize>,
}

#[derive(Clone)]
pub struct Vfs {
    pub nodes: Vec<Node>,
    pub cap: Option<usize>,
    pub used: usize,
    /// bumped by every change of content or names
    pub version: u64,
    pub clock: u64,
}

pub struct Look {
    pub parent: Ino,
    pub name: String,
    pub ino: Option<Ino>,
}

impl Vfs {
    pub fn new() -> Vfs {
        let mut v = Vfs { nodes: Vec::new(), cap: None, used: 0, version: 0, clock: 0 };
        v.nodes.push(Node { kind: Kind::Dir(BTreeMap::new()), mode: 0o755, mtime: 0, parent: 0, nlink: 2, durable: None, dirty: false, bad: None });
        v
    }
    pub fn add(&mut self, kind: Kind, mode: u32, parent: Ino) -> Ino {
        self.nodes.push(Node { kind, mode, mtime: self.clock, parent, nlink: 1, durable: None, dirty: false, bad: None });
        self.nodes.len() - 1
    }
    pub fn mkdirs(&mut self, path: &str) -> Ino {
        let mut cur = 0;
        for c in path.split('/').filter(|c| !c.is_empty()) {
            let next = match &self.nodes[cur].kind {
                Kind::Dir(e) => e.get(c).copied(),
                _ => panic!("mkdirs through a non-directory"),
            };
            cur = match next {
                Some(i) => i,
                None => {
                    let i = self.add(Kind::Dir(BTreeMap::new()), 0o755, cur);
                    self.entries(cur).insert(c.to_string(), i);
                    i
                }
            };
        }
        cur
    }
    pub fn entries(&mut self, d: Ino) -> &mut BTreeMap<String, Ino> {
        match &mut self.nodes[d].kind {
            Kind::Dir(e) => e,
            _ => panic!("not a directory"),
        }
    }
    /// Set-up helper: creates parents, replaces whatever is there.
    pub fn put(&mut self, path: &str, kind: Kind) -> Ino {
        let (dir, name) = match path.rfind('/') {
            Some(p) => (&path[..p], &path[p + 1..]),
            None => ("", path),
        };
        let d = self.mkdirs(dir);
        if let Kind::File(b) = &kind {
            self.used += b.len();
        }
        let i = self.add(kind, 0o644, d);
        self.entries(d).insert(name.to_string(), i);
        i
    }

    pub fn lookup(&self, cwd: &str, path: &str, follow: bool) -> Result<Look, i32> {
        self.lookup_d(cwd, path, follow, 0)
    }
    fn lookup_d(&self, cwd: &str, path: &str, follow: bool, depth: u32) -> Result<Look, i32> {
        if depth > 20 {
            return Err(ELOOP);
        }
        if path.is_empty() {
            return Err(ENOENT);
        }
        let full = if path.starts_with('/') { path.to_string() } else { format!("{}/{}", cwd, path) };
        let must_dir = full.ends_with('/');
        let comps: Vec<&str> = full.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        let mut cur: Ino = 0;
        let mut curpath = String::new();
        if comps.is_empty() {
            return Ok(Look { parent: 0, name: "/".into(), ino: Some(0) });
        }
        for (k, c) in comps.iter().enumerate() {
            let last = k + 1 == comps.len();
            let e = match &self.nodes[cur].kind {
                Kind::Dir(e) => e,
                _ => return Err(ENOTDIR),
            };
            if *c == ".." {
                let p = self.nodes[cur].parent;
                if let Some(x) = curpath.rfind('/') {
                    curpath.truncate(x);
                }
                if last {
                    return Ok(Look { parent: self.nodes[p].parent, name: "..".into(), ino: Some(p) });
                }
                cur = p;
                continue;
            }
            let ino = e.get(*c).copied();
            match ino {
                None => {
                    if last {
                        return Ok(Look { parent: cur, name: c.to_string(), ino: None });
                    }
                    return Err(ENOENT);
                }
                Some(i) => {
                    if let Kind::Symlink(t) = &self.nodes[i].kind {
                        if !last || follow || must_dir {
                            let base = if curpath.is_empty() { "/".to_string() } else { curpath.clone() };
                            let mut rest = t.clone();
                            for r in &comps[k + 1..] {
                                rest.push('/');
                                rest.push_str(r);
                            }
                            return self.lookup_d(&base, &rest, follow, depth + 1);
                        }
                    }
                    if last {
                        if must_dir && !matches!(self.nodes[i].kind, Kind::Dir(_)) {
                            return Err(ENOTDIR);
                        }
                        return Ok(Look { parent: cur, name: c.to_string(), ino: Some(i) });
                    }
                    curpath.push('/');
                    curpath.push_str(c);
                    cur = i;
                }
            }
        }
        unreachable!()
    }
    /// Content reached by the path (following links): None if there is nothing.
    pub fn read(&self, path: &str) -> Option<&[u8]> {
        match self.lookup("/", path, true) {
            Ok(Look { ino: Some(i), .. }) => match &self.nodes[i].kind {
                Kind::File(b) => Some(b),
                _ => None,
            },
            _ => None,
        }
    }
    fn touch(&mut self, i: Ino) {
        let n = &mut self.nodes[i];
        if !n.dirty {
            n.dirty = true;
            n.durable = Some(n.kind.clone());
        }
        n.mtime = self.clock;
        self.version += 1;
    }
    pub fn room(&self) -> usize {
        match self.cap {
            None => usize::MAX,
            Some(c) => c.saturating_sub(self.used),
        }
    }
    pub fn set_len(&mut self, i: Ino, len: usize) -> Result<(), i32> {
        let old = match &self.nodes[i].kind {
            Kind::File(b) => b.len(),
            Kind::Null | Kind::Full | Kind::Zero | Kind::Fifo(_) => return Ok(()),
            _ => return Err(EINVAL),
        };
        if len > old && len - old > self.room() {
            return Err(ENOSPC);
        }
        if len == old {
            self.nodes[i].mtime = self.clock;
            return Ok(());
        }
        self.touch(i);
        if let Kind::File(b) = &mut self.nodes[i].kind {
            b.resize(len, 0);
        }
        self.used = (self.used + len).saturating_sub(old);
        Ok(())
    }
    /// Writes at most what fits; Err only if nothing could be written.
    pub fn write_at(&mut self, i: Ino, off: usize, data: &[u8]) -> Result<usize, i32> {
        if data.is_empty() {
            return Ok(0);
        }
        let old = match &self.nodes[i].kind {
            Kind::File(b) => b.len(),
            Kind::Null | Kind::Zero => return Ok(data.len()),
            Kind::Full => return Err(ENOSPC),
            _ => return Err(EINVAL),
        };
        let room = self.room();
        let end = off + data.len();
        let grow = end.saturating_sub(old);
        let n = if grow > room { data.len().saturating_sub(grow - room) } else { data.len() };
        if n == 0 {
            return Err(ENOSPC);
        }
        self.touch(i);
        if let Kind::File(b) = &mut self.nodes[i].kind {
            if b.len() < off + n {
                b.resize(off + n, 0);
            }
            b[off..off + n].copy_from_slice(&data[..n]);
            let new = b.len();
            self.used = (self.used + new).saturating_sub(old);
        }
        Ok(n)
    }
    pub fn link_name(&mut self, d: Ino, name: &str, i: Ino) {
        self.touch(d);
        self.entries(d).insert(name.to_string(), i);
    }
    pub fn unlink_name(&mut self, d: Ino, name: &str) {
        self.touch(d);
        if let Some(i) = self.entries(d).remove(name) {
            self.nodes[i].nlink = self.nodes[i].nlink.saturating_sub(1);
            if self.nodes[i].nlink == 0 {
                if let Kind::File(b) = &self.nodes[i].kind {
                    self.used = self.used.saturating_sub(b.len());
                }
            }
        }
    }
    pub fn sync(&mut self, i: Ino) {
        self.nodes[i].dirty = false;
        self.nodes[i].durable = None;
    }
    /// Every path with its kind and content, not following links.
    pub fn tree(&self) -> BTreeMap<String, Kind> {
        let mut out = BTreeMap::new();
        self.walk(0, "", &mut out);
        out
    }
    fn walk(&self, d: Ino, at: &str, out: &mut BTreeMap<String, Kind>) {
        if let Kind::Dir(e) = &self.nodes[d].kind {
            for (n, i) in e {
                let p = format!("{}/{}", at, n);
                match &self.nodes[*i].kind {
                    Kind::Dir(_) => {
                        out.insert(p.clone(), Kind::Dir(BTreeMap::new()));
                        self.walk(*i, &p, out);
                    }
                    k => {
                        out.insert(p, k.clone());
                    }
                }
            }
        }
    }
    /// Path of a node (first found), for logs.
    pub fn path_of(&self, target: Ino) -> String {
        fn go(v: &Vfs, d: Ino, at: &str, t: Ino) -> Option<String> {
            if let Kind::Dir(e) = &v.nodes[d].kind {
                for (n, i) in e {
                    let p = format!("{}/{}", at, n);
                    if *i == t {
                        return Some(p);
                    }
                    if let Kind::Dir(_) = v.nodes[*i].kind {
                        if let Some(x) = go(v, *i, &p, t) {
                            return Some(x);
                        }
                    }
                }
            }
            None
        }
        go(self, 0, "", target).unwrap_or_else(|| format!("(unlinked #{})", target))
    }
}
