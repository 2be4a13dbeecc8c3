//! Simulated file system with an explicit model of what survives a power loss.
//!
//! `mem` is what running processes see. `disk` is what is durable. `pending` holds, in order, the operations that
//! are in `mem` but not yet in `disk`. A process crash leaves `mem` alone; a power loss keeps `disk` plus a chosen
//! prefix of the pending directory operations and, per file, a chosen prefix of the pending data operations, the
//! last of which may be torn or read back as zeros.
use crate::rng::Rng;
use std::collections::BTreeMap;

pub type Ino = u64;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    File(Vec<u8>),
    Dir(BTreeMap<String, Ino>),
    Symlink(String),
    Dev(Dev),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dev {
    Null,
    Random,
    Urandom,
    Tty,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Inode {
    pub kind: Kind,
    pub mode: u32,
    pub mtime: u64,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Image {
    pub inodes: BTreeMap<Ino, Inode>,
}
#[derive(Clone, Debug)]
pub enum Op {
    Create { dir: Ino, name: String, ino: Ino, node: Inode },
    Link { dir: Ino, name: String, ino: Ino },
    Unlink { dir: Ino, name: String },
    Rename { from: Ino, fname: String, to: Ino, tname: String },
    Chmod { ino: Ino, mode: u32 },
    Truncate { ino: Ino, len: usize },
    Write { ino: Ino, off: usize, data: Vec<u8> },
}
impl Op {
    fn data_ino(&self) -> Option<Ino> {
        match self {
            Op::Truncate { ino, .. } | Op::Write { ino, .. } => Some(*ino),
            _ => None,
        }
    }
}
pub const ROOT: Ino = 1;

impl Image {
    pub fn dir(&self, ino: Ino) -> Option<&BTreeMap<String, Ino>> {
        match self.inodes.get(&ino).map(|n| &n.kind) {
            Some(Kind::Dir(d)) => Some(d),
            _ => None,
        }
    }
    fn dir_mut(&mut self, ino: Ino) -> Option<&mut BTreeMap<String, Ino>> {
        match self.inodes.get_mut(&ino).map(|n| &mut n.kind) {
            Some(Kind::Dir(d)) => Some(d),
            _ => None,
        }
    }
    fn file_mut(&mut self, ino: Ino) -> Option<&mut Vec<u8>> {
        match self.inodes.get_mut(&ino).map(|n| &mut n.kind) {
            Some(Kind::File(d)) => Some(d),
            _ => None,
        }
    }
    fn apply(&mut self, op: &Op) {
        match op {
            Op::Create { dir, name, ino, node } => {
                self.inodes.entry(*ino).or_insert_with(|| node.clone());
                if let Some(d) = self.dir_mut(*dir) {
                    d.insert(name.clone(), *ino);
                }
            }
            Op::Link { dir, name, ino } => {
                if let Some(d) = self.dir_mut(*dir) {
                    d.insert(name.clone(), *ino);
                }
            }
            Op::Unlink { dir, name } => {
                if let Some(d) = self.dir_mut(*dir) {
                    d.remove(name);
                }
            }
            Op::Rename { from, fname, to, tname } => {
                let ino = self.dir_mut(*from).and_then(|d| d.remove(fname));
                if let (Some(ino), Some(d)) = (ino, self.dir_mut(*to)) {
                    d.insert(tname.clone(), ino);
                }
            }
            Op::Chmod { ino, mode } => {
                if let Some(n) = self.inodes.get_mut(ino) {
                    n.mode = *mode;
                }
            }
            Op::Truncate { ino, len } => {
                if let Some(f) = self.file_mut(*ino) {
                    f.resize(*len, 0);
                }
            }
            Op::Write { ino, off, data } => {
                if let Some(f) = self.file_mut(*ino) {
                    if f.len() < off + data.len() {
                        f.resize(off + data.len(), 0);
                    }
                    f[*off..off + data.len()].copy_from_slice(data);
                }
            }
        }
    }
    /// All paths below the root with their nodes.
    pub fn walk(&self) -> BTreeMap<String, &Inode> {
        let mut out = BTreeMap::new();
        let mut stack = vec![(ROOT, String::new())];
        while let Some((ino, path)) = stack.pop() {
            if let Some(d) = self.dir(ino) {
                for (name, child) in d {
                    if let Some(n) = self.inodes.get(child) {
                        let p = format!("{}/{}", path, name);
                        out.insert(p.clone(), n);
                        if matches!(n.kind, Kind::Dir(_)) {
                            stack.push((*child, p));
                        }
                    }
                }
            }
        }
        out
    }
}

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Personality {
    /// fsync of anything commits all earlier directory operations (journalling file system)
    Journal,
    /// fsync of a file persists that file's data only; directory entries need fsync of their directory
    Strict,
}

#[derive(Clone)]
pub struct Fs {
    pub mem: Image,
    pub disk: Image,
    pub pending: Vec<Op>,
    /// number of power losses so far
    pub powers: u64,
    pub next_ino: Ino,
    pub personality: Personality,
    /// bytes that may still be allocated
    pub free: Option<u64>,
}

pub type R<T> = Result<T, i32>;

pub struct Walk {
    pub dir: Ino,
    pub name: String,
    pub ino: Option<Ino>,
}

impl Fs {
    pub fn new(personality: Personality) -> Self {
        let mut fs = Fs {
            mem: Image::default(),
            disk: Image::default(),
            pending: Vec::new(), powers: 0,
            next_ino: 2,
            personality,
            free: None,
        };
        fs.mem.inodes.insert(ROOT, Inode { kind: Kind::Dir(BTreeMap::new()), mode: 0o755, mtime: 0 });
        fs.disk = fs.mem.clone();
        fs
    }
    fn push(&mut self, op: Op) {
        self.mem.apply(&op);
        self.pending.push(op);
    }
    fn search_ok(&self, dir: Ino) -> R<()> {
        match self.mem.inodes.get(&dir) {
            Some(n) if n.mode & 0o100 != 0 => Ok(()),
            Some(_) => Err(libc::EACCES),
            None => Err(libc::ENOENT),
        }
    }
    /// Resolves all but the last component; follows the last one if it is a symlink and `follow`.
    pub fn resolve(&self, cwd: Ino, path: &str, follow: bool) -> R<Walk> {
        self.resolve_depth(cwd, path, follow, 0)
    }
    fn parent_of(&self, ino: Ino) -> Ino {
        for (i, n) in &self.mem.inodes {
            if let Kind::Dir(d) = &n.kind {
                if d.values().any(|c| *c == ino) {
                    return *i;
                }
            }
        }
        ROOT
    }
    fn resolve_depth(&self, cwd: Ino, path: &str, follow: bool, depth: u32) -> R<Walk> {
        if depth > 20 {
            return Err(libc::ELOOP);
        }
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        let mut dir = if path.starts_with('/') { ROOT } else { cwd };
        let parts: Vec<&str> = path.split('/').filter(|p| !p.is_empty() && *p != ".").collect();
        let must_dir = path.ends_with('/') || path.ends_with("/.");
        if parts.is_empty() {
            return Ok(Walk { dir, name: ".".into(), ino: Some(dir) });
        }
        for (i, part) in parts.iter().enumerate() {
            let last = i + 1 == parts.len();
            if self.mem.dir(dir).is_none() {
                return Err(libc::ENOTDIR);
            }
            self.search_ok(dir)?;
            if *part == ".." {
                dir = self.parent_of(dir);
                if last {
                    return Ok(Walk { dir, name: ".".into(), ino: Some(dir) });
                }
                continue;
            }
            if part.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            let child = self.mem.dir(dir).and_then(|d| d.get(*part)).copied();
            let node = child.and_then(|c| self.mem.inodes.get(&c));
            if let Some(Kind::Symlink(target)) = node.map(|n| &n.kind) {
                if !last || follow || must_dir {
                    let rest = parts[i + 1..].join("/");
                    let full = if rest.is_empty() { target.clone() } else { format!("{}/{}", target, rest) };
                    return self.resolve_depth(dir, &full, follow, depth + 1);
                }
            }
            if last {
                if must_dir {
                    if let Some(c) = child {
                        if self.mem.dir(c).is_none() {
                            return Err(libc::ENOTDIR);
                        }
                    }
                }
                return Ok(Walk { dir, name: part.to_string(), ino: child });
            }
            dir = child.ok_or(libc::ENOENT)?;
        }
        unreachable!()
    }
    pub fn lookup(&self, cwd: Ino, path: &str, follow: bool) -> R<Ino> {
        self.resolve(cwd, path, follow)?.ino.ok_or(libc::ENOENT)
    }
    pub fn node(&self, ino: Ino) -> R<&Inode> {
        self.mem.inodes.get(&ino).ok_or(libc::ENOENT)
    }
    fn dir_writable(&self, dir: Ino) -> R<()> {
        if self.node(dir)?.mode & 0o200 == 0 {
            return Err(libc::EACCES);
        }
        self.search_ok(dir)
    }
    pub fn create(&mut self, dir: Ino, name: &str, kind: Kind, mode: u32, now: u64) -> R<Ino> {
        self.dir_writable(dir)?;
        if self.mem.dir(dir).map_or(true, |d| d.contains_key(name)) {
            return Err(libc::EEXIST);
        }
        if self.free == Some(0) {
            return Err(libc::ENOSPC);
        }
        let ino = self.next_ino;
        self.next_ino += 1;
        self.push(Op::Create {
            dir,
            name: name.to_string(),
            ino,
            node: Inode { kind, mode, mtime: now },
        });
        Ok(ino)
    }
    pub fn link(&mut self, ino: Ino, dir: Ino, name: &str) -> R<()> {
        self.dir_writable(dir)?;
        if self.mem.dir(dir).map_or(true, |d| d.contains_key(name)) {
            return Err(libc::EEXIST);
        }
        self.push(Op::Link { dir, name: name.to_string(), ino });
        Ok(())
    }
    pub fn unlink(&mut self, dir: Ino, name: &str, want_dir: bool) -> R<()> {
        let ino = self.mem.dir(dir).and_then(|d| d.get(name)).copied().ok_or(libc::ENOENT)?;
        self.dir_writable(dir)?;
        match (&self.node(ino)?.kind, want_dir) {
            (Kind::Dir(_), false) => return Err(libc::EISDIR),
            (Kind::Dir(d), true) => {
                if !d.is_empty() {
                    return Err(libc::ENOTEMPTY);
                }
            }
            (_, true) => return Err(libc::ENOTDIR),
            _ => {}
        }
        self.release(ino);
        self.push(Op::Unlink { dir, name: name.to_string() });
        Ok(())
    }
    pub fn rename(&mut self, from: Ino, fname: &str, to: Ino, tname: &str, noreplace: bool) -> R<()> {
        let ino = self.mem.dir(from).and_then(|d| d.get(fname)).copied().ok_or(libc::ENOENT)?;
        self.dir_writable(from)?;
        self.dir_writable(to)?;
        if let Some(t) = self.mem.dir(to).and_then(|d| d.get(tname)).copied() {
            if noreplace {
                return Err(libc::EEXIST);
            }
            if t == ino {
                return Ok(());
            }
            let src_dir = matches!(self.node(ino)?.kind, Kind::Dir(_));
            match &self.node(t)?.kind {
                Kind::Dir(d) => {
                    if !src_dir {
                        return Err(libc::EISDIR);
                    }
                    if !d.is_empty() {
                        return Err(libc::ENOTEMPTY);
                    }
                }
                _ if src_dir => return Err(libc::ENOTDIR),
                _ => {}
            }
            self.release(t);
        }
        self.push(Op::Rename { from, fname: fname.into(), to, tname: tname.into() });
        Ok(())
    }
    fn release(&mut self, ino: Ino) {
        let size = self.size(ino) as u64;
        if let Some(free) = &mut self.free {
            *free += size;
        }
    }
    pub fn chmod(&mut self, ino: Ino, mode: u32) {
        self.push(Op::Chmod { ino, mode });
    }
    pub fn size(&self, ino: Ino) -> usize {
        match self.mem.inodes.get(&ino).map(|n| &n.kind) {
            Some(Kind::File(d)) => d.len(),
            _ => 0,
        }
    }
    pub fn truncate(&mut self, ino: Ino, len: usize, now: u64) -> R<()> {
        let old = self.size(ino) as u64;
        if let Some(free) = &mut self.free {
            if (len as u64) < old {
                *free += old - len as u64;
            }
        }
        self.push(Op::Truncate { ino, len });
        if let Some(n) = self.mem.inodes.get_mut(&ino) {
            n.mtime = now;
        }
        Ok(())
    }
    /// Writes as much as the free space admits.
    pub fn write(&mut self, ino: Ino, off: usize, data: &[u8], now: u64) -> R<usize> {
        let size = self.size(ino);
        let mut n = data.len();
        if let Some(free) = &mut self.free {
            let growth = (off + n).saturating_sub(size) as u64;
            if growth > *free {
                let cut = (growth - *free) as usize;
                if cut >= n && n > 0 {
                    return Err(libc::ENOSPC);
                }
                n -= cut;
            }
            *free -= (off + n).saturating_sub(size) as u64;
        }
        if n > 0 {
            self.push(Op::Write { ino, off, data: data[..n].to_vec() });
        }
        if let Some(node) = self.mem.inodes.get_mut(&ino) {
            node.mtime = now;
        }
        Ok(n)
    }
    pub fn read(&self, ino: Ino, off: usize, len: usize) -> R<&[u8]> {
        match &self.node(ino)?.kind {
            Kind::File(d) => {
                let start = off.min(d.len());
                Ok(&d[start..(off.saturating_add(len)).min(d.len())])
            }
            Kind::Dir(_) => Err(libc::EISDIR),
            _ => Err(libc::EINVAL),
        }
    }
    pub fn commit_meta(&mut self) {
        let ops = std::mem::take(&mut self.pending);
        for op in ops {
            if op.data_ino().is_some() {
                self.pending.push(op);
            } else {
                self.disk.apply(&op);
            }
        }
    }
    /// The entries of one directory only.
    fn commit_dir(&mut self, dir: Ino) {
        self.ensure_disk_inode(dir);
        let ops = std::mem::take(&mut self.pending);
        for op in ops {
            let mine = match &op {
                Op::Create { dir: d, .. } | Op::Link { dir: d, .. } | Op::Unlink { dir: d, .. } => *d == dir,
                Op::Rename { from, to, .. } => *from == dir || *to == dir,
                Op::Chmod { ino, .. } => *ino == dir,
                Op::Truncate { .. } | Op::Write { .. } => false,
            };
            if mine {
                self.disk.apply(&op);
            } else {
                self.pending.push(op);
            }
        }
    }
    fn ensure_disk_inode(&mut self, ino: Ino) {
        if !self.disk.inodes.contains_key(&ino) {
            for op in &self.pending {
                if let Op::Create { ino: i, node, .. } = op {
                    if *i == ino {
                        let node = node.clone();
                        self.disk.inodes.insert(ino, node);
                        break;
                    }
                }
            }
        }
    }
    fn commit_data(&mut self, ino: Ino) {
        self.ensure_disk_inode(ino);
        let ops = std::mem::take(&mut self.pending);
        for op in ops {
            let mine = match &op {
                Op::Chmod { ino: i, .. } => *i == ino,
                o => o.data_ino() == Some(ino),
            };
            if mine {
                self.disk.apply(&op);
            } else {
                self.pending.push(op);
            }
        }
    }
    pub fn fsync(&mut self, ino: Ino) {
        if matches!(self.mem.inodes.get(&ino).map(|n| &n.kind), Some(Kind::Dir(_))) {
            match self.personality {
                Personality::Journal => self.commit_meta(),
                Personality::Strict => self.commit_dir(ino),
            }
        } else {
            if self.personality == Personality::Journal {
                self.commit_meta();
            }
            self.commit_data(ino);
        }
    }
    /// A failed fsync: the dirty data may or may not have reached the disk, and will not be retried.
    pub fn fsync_failed(&mut self, ino: Ino, keep: usize) {
        self.ensure_disk_inode(ino);
        let ops = std::mem::take(&mut self.pending);
        let mut n = 0;
        for op in ops {
            if op.data_ino() == Some(ino) {
                if n < keep {
                    self.disk.apply(&op);
                }
                n += 1;
            } else {
                self.pending.push(op);
            }
        }
    }
    pub fn sync_all(&mut self) {
        let ops = std::mem::take(&mut self.pending);
        for op in &ops {
            self.disk.apply(op);
        }
        self.disk = self.mem.clone();
    }
    /// Power loss. `style`: 0 nothing pending survives, 1 everything survives, 2 all metadata and no data,
    /// 3 random prefixes with torn writes, 4 random prefixes with zero-filled tails.
    pub fn power_loss(&mut self, style: u8, seed: u64) {
        self.powers += 1;
        let mut rng = Rng::new(seed);
        let ops = std::mem::take(&mut self.pending);
        let n_meta = ops.iter().filter(|o| o.data_ino().is_none()).count();
        let keep_meta = match style {
            0 => 0,
            1 | 2 => n_meta,
            _ => match rng.below(4) {
                0 => n_meta,
                1 => n_meta.saturating_sub(1),
                _ => rng.usize(n_meta + 1),
            },
        };
        let mut keep_data: BTreeMap<Ino, usize> = BTreeMap::new();
        let mut counts: BTreeMap<Ino, usize> = BTreeMap::new();
        for op in &ops {
            if let Some(i) = op.data_ino() {
                *counts.entry(i).or_default() += 1;
            }
        }
        for (i, n) in &counts {
            let k = match style {
                0 | 2 => 0,
                1 => *n,
                _ => rng.usize(n + 1),
            };
            keep_data.insert(*i, k);
        }
        let mut m = 0;
        for op in &ops {
            if op.data_ino().is_none() {
                if m < keep_meta {
                    self.disk.apply(op);
                }
                m += 1;
            }
        }
        let mut seen: BTreeMap<Ino, usize> = BTreeMap::new();
        for op in &ops {
            if let Some(i) = op.data_ino() {
                if !self.disk.inodes.contains_key(&i) {
                    continue;
                }
                let s = seen.entry(i).or_default();
                let k = keep_data[&i];
                if *s < k {
                    self.disk.apply(op);
                } else if *s == k && style >= 3 {
                    if let Op::Write { ino, off, data } = op {
                        let cut = rng.usize(data.len() + 1);
                        let mut part = data[..cut].to_vec();
                        if style == 4 {
                            part.resize(data.len(), 0);
                        }
                        self.disk.apply(&Op::Write { ino: *ino, off: *off, data: part });
                    }
                }
                *s += 1;
            }
        }
        // drop unreachable inodes
        let mut reach = std::collections::BTreeSet::new();
        let mut stack = vec![ROOT];
        while let Some(i) = stack.pop() {
            if reach.insert(i) {
                if let Some(d) = self.disk.dir(i) {
                    stack.extend(d.values().copied());
                }
            }
        }
        self.disk.inodes.retain(|i, _| reach.contains(i));
        self.mem = self.disk.clone();
    }
    // -------- harness side helpers (durable at once)
    pub fn mkdirs(&mut self, path: &str) -> Ino {
        let mut dir = ROOT;
        for part in path.split('/').filter(|p| !p.is_empty()) {
            let next = self.mem.dir(dir).unwrap().get(part).copied();
            dir = match next {
                Some(i) => i,
                None => self.create(dir, part, Kind::Dir(BTreeMap::new()), 0o755, 0).unwrap(),
            };
        }
        dir
    }
    pub fn put(&mut self, path: &str, kind: Kind, mode: u32) {
        let (d, n) = path.rsplit_once('/').unwrap();
        let dir = self.mkdirs(d);
        if self.mem.dir(dir).unwrap().contains_key(n) {
            let _ = self.unlink(dir, n, false);
        }
        self.create(dir, n, kind, mode, 0).unwrap();
        self.sync_all();
    }
    pub fn get(&self, path: &str) -> Option<&[u8]> {
        let ino = self.lookup(ROOT, path, true).ok()?;
        match &self.mem.inodes.get(&ino)?.kind {
            Kind::File(d) => Some(d),
            _ => None,
        }
    }
    /// What the file would have if the power failed right now and nothing pending survived.
    pub fn durable(&self, path: &str) -> Option<Vec<u8>> {
        let mut f = Fs::new(self.personality);
        f.mem = self.disk.clone();
        f.get(path).map(|b| b.to_vec())
    }
    pub fn overwrite(&mut self, path: &str, data: &[u8]) {
        let ino = self.lookup(ROOT, path, true).unwrap();
        self.mem.file_mut(ino).unwrap().clear();
        self.mem.file_mut(ino).unwrap().extend_from_slice(data);
        self.sync_all();
    }
}
