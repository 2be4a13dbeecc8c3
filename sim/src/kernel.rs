//! The simulated operating system: descriptors, terminal, entropy, clock, fault and crash injection.
use crate::chan::{Chan, Req};
use crate::fs::*;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Class {
    /// any call on the file system
    Disk,
    /// any call on the file system that changes it (or opens for writing, or syncs)
    Mut,
    Open,
    Read,
    Write,
    Sync,
    Rename,
    Mkdir,
    Meta,
    Unlink,
    Stdin,
    Stdout,
    Stderr,
    Tty,
    Rand,
    /// any call at all
    Any,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FaultKind {
    Errno(i32),
    Short(u32),
    Eof,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    pub class: Class,
    /// fires from the nth (0-based) matching call of the process (of the operation, if `op` is given) ...
    pub nth: u32,
    /// ... for this many matching calls
    pub len: u32,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub op: Option<u32>,
    pub kind: FaultKind,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Phase {
    Before,
    After,
    /// permille of a write that takes place
    Torn(u32),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum CrashKind {
    Kill,
    Power { style: u8, seed: u64 },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Crash {
    pub class: Class,
    pub nth: u32,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub op: Option<u32>,
    pub phase: Phase,
    pub kind: CrashKind,
}

#[derive(Clone, Debug)]
pub enum InItem {
    Bytes(Vec<u8>),
    Err(i32),
    /// fails for good
    Fail(i32),
    Eof,
}
#[derive(Default, Clone, Debug)]
pub struct Input {
    pub q: VecDeque<InItem>,
    pub eof: bool,
    pub fail: Option<i32>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stream {
    Out,
    Err,
    Tty,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Target {
    Stdin,
    Stdout,
    Stderr,
    Tty,
    Null,
    Random,
    File { ino: Ino, pos: usize, append: bool, r: bool, w: bool },
    Dir { ino: Ino, pos: usize },
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Running,
    Exit(i32),
    /// died by a signal of its own making (abort, segfault)
    Signal,
    /// killed by the simulator
    Crashed,
    /// stopped by the step limit or unresponsive
    Hang,
}

pub struct Proc {
    pub idx: usize,
    pub pid: u32,
    pub chan: Option<Chan>,
    pub end: End,
    pub stdin: Input,
    pub tty: Input,
    pub out: Vec<(Stream, Vec<u8>)>,
    /// everything printed since the last input was consumed
    pub tail: Vec<u8>,
    pub steps: u64,
    pub cur_op: u32,
    pub faults: Vec<Fault>,
    pub hits: Vec<(u32, u32)>,
    pub crash: Option<Crash>,
    pub crash_hits: (u32, u32),
    pub fired: Vec<String>,
    pub lflag: u32,
    /// the terminal's settings as the system call passes them (without `lflag`)
    pub termios: Vec<u8>,
    /// standard input, output and error are the terminal
    pub raw: bool,
    /// the keys shown while a line is edited
    pub edit: Vec<u8>,
    /// the terminal showed what was typed at a prompt of its own
    pub echoed: bool,
    pub rng: Rng,
    pub rand_bytes: u64,
    pub opened_for_write: BTreeSet<String>,
    pub read_complete: bool,
    pub mem_hits: BTreeSet<(u32, u32)>,
    pub mutations: u64,
    pub out_failed: bool,
    pub fault_fired: bool,
    pub sync_dir_failed: bool,
    pub sig: u32,
    files: Vec<Target>,
    fds: BTreeMap<i32, usize>,
    cwd: Ino,
    umask: u32,
}

impl Proc {
    pub fn reads_file(&self, fd: u64) -> bool {
        matches!(self.fds.get(&(fd as i32)).map(|i| self.files[*i]), Some(Target::File { .. }))
    }
}

pub enum Act {
    Reply(i64, Vec<u8>),
    NeedInput(bool),
    Exited(i32),
    Crash(CrashKind),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub syscalls: u64,
    pub procs: u64,
    pub faults: BTreeMap<String, u64>,
    pub unsupported: BTreeMap<u32, u64>,
    pub sim_ns: u64,
    pub probes: BTreeMap<String, u64>,
}
impl Stats {
    pub fn probe(&mut self, name: &str) {
        *self.probes.entry(name.to_string()).or_default() += 1;
    }
    pub fn fault(&mut self, name: &str) {
        *self.faults.entry(name.to_string()).or_default() += 1;
    }
    pub fn add(&mut self, o: &Stats) {
        self.syscalls += o.syscalls;
        self.procs += o.procs;
        self.sim_ns += o.sim_ns;
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.unsupported {
            *self.unsupported.entry(*k).or_default() += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
    }
}

pub struct World {
    /// a fault or a crash happened since the last process started
    pub unsettled: bool,
    pub fs: Fs,
    pub now: u64,
    pub start: u64,
    pub entropy_seed: u64,
    pub same_pid: bool,
    pub frozen_clock: bool,
    pub serial: u64,
    pub trace: u64,
    pub log: Option<Vec<String>>,
    pub stats: Stats,
    /// everything ever written to files, when recording
    pub writes: Option<Vec<(Ino, Vec<u8>)>>,
    pub home: String,
    pub cwd: String,
    pub has_tty: bool,
    /// nodes whose size changed / event counter for file checks after each mutation
    pub mut_counter: u64,
}

const O_ACCMODE: u64 = 3;

pub const ECHO: u32 = 0o10;
pub const ICANON: u32 = 0o2;
const LFLAG: u32 = 0o105073;
/// A terminal as a login shell leaves it.
fn termios() -> Vec<u8> {
    let mut t = vec![0; 44];
    t[0..4].copy_from_slice(&0x500u32.to_le_bytes());
    t[4..8].copy_from_slice(&5u32.to_le_bytes());
    t[8..12].copy_from_slice(&0xbfu32.to_le_bytes());
    // interrupt, quit, erase, kill, end of file, time, min, -, start, stop, suspend, -, reprint, discard, word erase, next
    t[17..33].copy_from_slice(&[3, 28, 127, 21, 4, 0, 1, 0, 17, 19, 26, 0, 18, 15, 23, 22]);
    t
}

impl Proc {
    pub fn canonical(&self) -> bool {
        self.lflag & ICANON != 0
    }
    /// Whether the terminal is as it was at the start.
    pub fn terminal_restored(&self) -> bool {
        self.lflag == LFLAG && self.termios == termios()
    }
    /// What the Enter key gives.
    pub fn enter(&self) -> &'static [u8] {
        if self.raw && self.termios[1] & 1 == 0 { b"\r" } else { b"\n" }
    }
}

fn errno_name(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EACCES => "EACCES",
        libc::EROFS => "EROFS",
        libc::EMFILE => "EMFILE",
        libc::EINTR => "EINTR",
        libc::EDQUOT => "EDQUOT",
        libc::EPIPE => "EPIPE",
        libc::ENOMEM => "ENOMEM",
        libc::ENOSYS => "ENOSYS",
        libc::EAGAIN => "EAGAIN",
        libc::EPERM => "EPERM",
        libc::ENXIO => "ENXIO",
        libc::ENFILE => "ENFILE",
        libc::EFBIG => "EFBIG",
        libc::EBUSY => "EBUSY",
        libc::ESTALE => "ESTALE",
        libc::ETIMEDOUT => "ETIMEDOUT",
        libc::EXDEV => "EXDEV",
        _ => "errno",
    }
}

impl World {
    pub fn new(personality: Personality, entropy_seed: u64, start: u64) -> World {
        let mut fs = Fs::new(personality);
        fs.mkdirs("/home/u");
        fs.mkdirs("/tmp");
        for (n, d) in [("null", Dev::Null), ("random", Dev::Random), ("urandom", Dev::Urandom), ("tty", Dev::Tty)] {
            fs.put(&format!("/dev/{}", n), Kind::Dev(d), 0o666);
        }
        fs.sync_all();
        World {
            fs,
            unsettled: false,
            now: start,
            start,
            entropy_seed,
            same_pid: false,
            frozen_clock: false,
            serial: 0,
            trace: 0,
            log: None,
            stats: Stats::default(),
            writes: None,
            home: "/home/u".into(),
            cwd: "/home/u".into(),
            has_tty: true,
            mut_counter: 0,
        }
    }

    pub fn new_proc(&mut self, chan: Chan, faults: Vec<Fault>, crash: Option<Crash>) -> Proc {
        // what a process left behind when it failed, the kernel writes out sooner or later
        if std::mem::take(&mut self.unsettled) {
            self.fs.commit_meta();
        }
        self.serial += 1;
        self.stats.procs += 1;
        let cwd = self.fs.lookup(ROOT, &self.cwd, true).unwrap_or(ROOT);
        let mut fds = BTreeMap::new();
        for i in 0..3 {
            fds.insert(i, i as usize);
        }
        let n = faults.len();
        Proc {
            idx: 0,
            pid: if self.same_pid { 4242 } else { 1000 + (self.serial as u32 * 37) % 30000 },
            chan: Some(chan),
            end: End::Running,
            stdin: Input::default(),
            tty: Input::default(),
            out: Vec::new(),
            tail: Vec::new(),
            steps: 0,
            cur_op: 0,
            faults,
            hits: vec![(0, u32::MAX); n],
            crash,
            crash_hits: (0, u32::MAX),
            fired: Vec::new(),
            lflag: LFLAG,
            termios: termios(),
            raw: false,
            edit: Vec::new(),
            echoed: false,
            rng: Rng::new(crate::rng::mix(self.entropy_seed).wrapping_add(self.serial)),
            rand_bytes: 0,
            opened_for_write: BTreeSet::new(),
            read_complete: false,
            mem_hits: BTreeSet::new(),
            mutations: 0,
            out_failed: false,
            fault_fired: false,
            sync_dir_failed: false,
            sig: 0,
            files: vec![Target::Stdin, Target::Stdout, Target::Stderr],
            fds,
            cwd,
            umask: 0o022,
        }
    }

    pub fn note(&mut self, s: &str) {
        self.trace = crate::rng::mix(self.trace ^ crate::rng::hash_str(s));
        if let Some(l) = &mut self.log {
            l.push(s.to_string());
        }
    }

    fn classes(&self, p: &Proc, q: &Req) -> (Vec<Class>, String) {
        use Class::*;
        let t = |fd: u64| p.fds.get(&(fd as i32)).map(|i| p.files[*i]);
        let path = |i: usize| q.b[i].as_ref().map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
        let nr = q.nr as i64;
        let fd_desc = |fd: u64| match t(fd) {
            Some(Target::File { ino, .. }) => format!("file#{}", ino),
            Some(Target::Dir { ino, .. }) => format!("dir#{}", ino),
            Some(o) => format!("{:?}", o),
            None => format!("badfd{}", fd as i32),
        };
        match nr {
            libc::SYS_open | libc::SYS_openat | libc::SYS_creat | 437 => {
                let flags = match nr {
                    libc::SYS_open => q.a[1],
                    libc::SYS_openat => q.a[2],
                    libc::SYS_creat => (libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY) as u64,
                    _ => q.b[1].as_ref().filter(|b| b.len() >= 8).map(|b| u64::from_le_bytes(b[0..8].try_into().unwrap())).unwrap_or(0),
                };
                let name = path(0);
                if name == "/dev/tty" {
                    return (vec![Tty, Any], "open /dev/tty".into());
                }
                if name.starts_with("/proc/") || name.starts_with("/etc/") || name.starts_with("/sys/") {
                    return (vec![Any], format!("open {}", name));
                }
                if name.starts_with("/dev/") {
                    return (vec![Rand, Any], format!("open {}", name));
                }
                let mut v = vec![Open, Disk, Any];
                let wr = flags & (O_ACCMODE | libc::O_CREAT as u64 | libc::O_TRUNC as u64) != 0;
                if wr {
                    v.push(Mut);
                }
                (v, format!("open {} {:#o}", name, flags & 0o4003703))
            }
            libc::SYS_read | libc::SYS_pread64 | libc::SYS_readv | libc::SYS_preadv => {
                let c = match t(q.a[0]) {
                    Some(Target::Stdin) => vec![Stdin, Any],
                    Some(Target::Tty) => vec![Tty, Any],
                    Some(Target::Random) => vec![Rand, Any],
                    Some(Target::File { .. }) => vec![Read, Disk, Any],
                    _ => vec![Any],
                };
                (c, format!("read {}", fd_desc(q.a[0])))
            }
            libc::SYS_write | libc::SYS_pwrite64 | libc::SYS_writev | libc::SYS_pwritev => {
                let c = match t(q.a[0]) {
                    Some(Target::Stdout) => vec![Stdout, Any],
                    Some(Target::Stderr) => vec![Stderr, Any],
                    Some(Target::Tty) => vec![Tty, Any],
                    Some(Target::File { .. }) => vec![Write, Disk, Mut, Any],
                    _ => vec![Any],
                };
                (c, format!("write {} {}", fd_desc(q.a[0]), q.b[0].as_ref().map_or(0, |b| b.len())))
            }
            libc::SYS_fsync | libc::SYS_fdatasync | libc::SYS_sync | libc::SYS_syncfs | 277 => {
                (vec![Sync, Disk, Mut, Any], format!("fsync {}", fd_desc(q.a[0])))
            }
            libc::SYS_rename | libc::SYS_renameat | libc::SYS_renameat2 | libc::SYS_link | libc::SYS_linkat => {
                (vec![Rename, Disk, Mut, Any], format!("rename {} {}", path(0), path(1)))
            }
            libc::SYS_symlink | libc::SYS_symlinkat => (vec![Meta, Disk, Mut, Any], format!("symlink {} {}", path(0), path(1))),
            libc::SYS_mkdir | libc::SYS_mkdirat => (vec![Mkdir, Disk, Mut, Any], format!("mkdir {}", path(0))),
            libc::SYS_unlink | libc::SYS_unlinkat | libc::SYS_rmdir => {
                (vec![Unlink, Disk, Mut, Any], format!("unlink {}", path(0)))
            }
            libc::SYS_chmod | libc::SYS_fchmodat | 452 | libc::SYS_truncate | libc::SYS_utimensat | libc::SYS_chown
            | libc::SYS_lchown | libc::SYS_fchownat => (vec![Meta, Disk, Mut, Any], format!("sys{} {}", nr, path(0))),
            libc::SYS_fchmod | libc::SYS_ftruncate | libc::SYS_fallocate | libc::SYS_fchown => {
                (vec![Meta, Disk, Mut, Any], format!("sys{} {} {}", nr, fd_desc(q.a[0]), q.a[1]))
            }
            libc::SYS_stat | libc::SYS_lstat | libc::SYS_newfstatat | libc::SYS_statx | libc::SYS_access
            | libc::SYS_faccessat | 439 | libc::SYS_readlink | libc::SYS_readlinkat | libc::SYS_chdir | libc::SYS_statfs => {
                let n = path(0);
                if n.is_empty() || n.starts_with("/dev/") || n.starts_with("/proc/") || n.starts_with("/etc/") {
                    (vec![Any], format!("sys{} {} {}", nr, n, if n.is_empty() { fd_desc(q.a[0]) } else { String::new() }))
                } else {
                    (vec![Meta, Disk, Any], format!("sys{} {}", nr, n))
                }
            }
            libc::SYS_fstat | libc::SYS_lseek | libc::SYS_getdents64 | libc::SYS_flock => {
                let c = match t(q.a[0]) {
                    Some(Target::File { .. }) | Some(Target::Dir { .. }) => vec![Meta, Disk, Any],
                    _ => vec![Any],
                };
                (c, format!("sys{} {}", nr, fd_desc(q.a[0])))
            }
            libc::SYS_getrandom => (vec![Rand, Any], format!("getrandom {} {}", q.a[1], q.a[2])),
            libc::SYS_ioctl => {
                let c = match t(q.a[0]) {
                    Some(Target::Tty) => vec![Tty, Any],
                    // the terminal's settings do not fail
                    _ if p.raw => vec![],
                    _ => vec![Any],
                };
                (c, format!("ioctl {} {:#x}", fd_desc(q.a[0]), q.a[1] as u32))
            }
            libc::SYS_close => (vec![Any], format!("close {}", fd_desc(q.a[0]))),
            libc::SYS_exit_group => (vec![Any], format!("exit {}", q.a[0] as i32)),
            _ => (vec![Any], format!("sys{}", nr)),
        }
    }

    /// Handles one system call of a process.
    pub fn handle(&mut self, p: &mut Proc, q: &Req) -> Act {
        if q.nr >= 100000 {
            if q.nr == 100000 {
                let flag = if q.a[3] == 4 { 50000 } else if q.a[3] == 3 { 10000 } else if q.a[1] >= 8192 { if q.a[2] == 0 { 60000 } else { 20000 } } else if q.a[2] == 0 { 40000 } else { 0 };
                // between commands: after the one before the next
                let op = if q.a[3] == 4 { p.cur_op.saturating_sub(1) } else { p.cur_op };
                p.mem_hits.insert((q.a[0] as u32 + flag, op));
                if let (Some(l), Some(b)) = (&mut self.log, &q.b[0]) {
                    let s: String = b.iter().flat_map(|c| std::ascii::escape_default(*c)).map(char::from).collect();
                    l.push(format!("  MEMORY needle {} in {} bytes at {}, {}: {}", q.a[0], q.a[1], q.a[2],
                        ["", "free", "realloc", "exit", "live"].get(q.a[3] as usize).unwrap_or(&""), s));
                }
            }
            return Act::Reply(0, vec![]);
        }
        let (classes, desc) = self.classes(p, q);
        // input wanted?
        let is_read = matches!(q.nr as i64, libc::SYS_read | libc::SYS_readv);
        if is_read {
            if let Some(t) = p.fds.get(&(q.a[0] as i32)).map(|i| p.files[*i]) {
                if t == Target::Stdin && p.stdin.q.is_empty() {
                    return Act::NeedInput(false);
                }
                if t == Target::Tty && p.tty.q.is_empty() {
                    return Act::NeedInput(true);
                }
            }
        }
        p.steps += 1;
        self.stats.syscalls += 1;
        if !self.frozen_clock {
            self.now += 800 + (p.steps % 7) * 100;
        }
        // crash before?
        let mut crash_after = None;
        let mut torn = None;
        if let Some(c) = p.crash.clone() {
            let op_ok = c.op.map_or(true, |o| o == p.cur_op);
            if op_ok && classes.contains(&c.class) {
                let n = p.crash_hits.0;
                p.crash_hits.0 += 1;
                if n == c.nth {
                    p.crash = None;
                    match c.phase {
                        Phase::Before => {
                            self.note(&format!("{} CRASH before {}", p.idx, desc));
                            self.stats.fault(&crash_name(&c, "before"));
                            return Act::Crash(c.kind);
                        }
                        Phase::After => {
                            self.stats.fault(&crash_name(&c, "after"));
                            crash_after = Some(c.kind)
                        }
                        Phase::Torn(k) => {
                            self.stats.fault(&crash_name(&c, "torn"));
                            torn = Some(k);
                            crash_after = Some(c.kind)
                        }
                    }
                }
            }
        }
        // faults
        let mut fault: Option<FaultKind> = None;
        for i in 0..p.faults.len() {
            let f = &p.faults[i];
            if !classes.contains(&f.class) || f.op.map_or(false, |o| o != p.cur_op) {
                continue;
            }
            let (n, _) = p.hits[i];
            p.hits[i].0 += 1;
            if n >= f.nth && n - f.nth < f.len && fault.is_none() {
                fault = Some(f.kind.clone());
            }
        }
        let (mut ret, mut data);
        let mut fname = String::new();
        match &fault {
            Some(FaultKind::Errno(e)) if faultable(q.nr) => {
                fname = format!("{:?} {}", classes[0], errno_name(*e));
                ret = -(*e as i64);
                data = vec![];
                if classes.contains(&Class::Open) {
                    // opened to be synced
                    let name = q.b[0].as_ref().map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
                    let dir = self.fs.lookup(p.cwd, &name, true).map_or(false, |i| matches!(self.fs.mem.inodes[&i].kind, Kind::Dir(_)));
                    if dir {
                        p.sync_dir_failed = true;
                    }
                }
                if classes.contains(&Class::Mkdir) {
                    // the directories created before it are not synced
                    p.sync_dir_failed = true;
                }
                if classes.contains(&Class::Sync) {
                    if let Some(Target::File { ino, .. }) = p.fds.get(&(q.a[0] as i32)).map(|i| p.files[*i]) {
                        let keep = p.rng.clone().usize(3);
                        self.fs.fsync_failed(ino, keep);
                    } else {
                        p.sync_dir_failed = true;
                    }
                }
                if classes.contains(&Class::Stdout) {
                    p.out_failed = true;
                }
                // what was typed gets lost, it is not to be taken for the next line
                if *e != libc::EINTR {
                    if classes.contains(&Class::Stdin) {
                        p.stdin.q.clear();
                    } else if classes.contains(&Class::Tty) {
                        p.tty.q.clear();
                    }
                }
            }
            Some(FaultKind::Eof) if is_read => {
                fname = format!("{:?} EOF", classes[0]);
                ret = 0;
                data = vec![];
                if classes.contains(&Class::Stdin) {
                    p.stdin.eof = true;
                    p.stdin.q.clear();
                } else if classes.contains(&Class::Tty) {
                    p.tty.eof = true;
                    p.tty.q.clear();
                }
            }
            other => {
                let mut limit = None;
                if let Some(FaultKind::Short(n)) = other {
                    if matches!(
                        q.nr as i64,
                        libc::SYS_read | libc::SYS_write | libc::SYS_readv | libc::SYS_writev | libc::SYS_pread64
                            | libc::SYS_pwrite64 | libc::SYS_getrandom
                    ) {
                        limit = Some(*n as usize);
                        fname = format!("{:?} short", classes[0]);
                    }
                }
                if let Some(k) = torn {
                    let len = q.b[0].as_ref().map_or(0, |b| b.len());
                    limit = Some(len * k as usize / 1000);
                }
                let r = if torn.is_some() && limit == Some(0) && classes.contains(&Class::Write) {
                    (0, vec![])
                } else {
                    self.exec(p, q, limit)
                };
                ret = r.0;
                data = r.1;
            }
        }
        if !fname.is_empty() {
            self.stats.fault(&fname);
            p.fired.push(format!("{} at {}", fname, desc));
            p.fault_fired = true;
            self.unsettled = true;
        }
        if classes.contains(&Class::Mut) && ret >= 0 {
            p.mutations += 1;
            self.mut_counter += 1;
        }
        if q.nr as i64 == libc::SYS_read && p.fds.contains_key(&(q.a[0] as i32)) && ret < 0 {
            data.clear();
        }
        let line = format!(
            "{} {} = {}{}{}",
            p.idx,
            desc,
            ret,
            if fname.is_empty() { "" } else { " FAULT " },
            fname
        );
        if data.len() > 0 && is_read {
            self.trace = crate::rng::mix(self.trace ^ crate::rng::hash_str(&String::from_utf8_lossy(&data)));
        }
        if let Some(b) = &q.b[0] {
            self.trace = crate::rng::mix(self.trace ^ crate::rng::hash_str(&String::from_utf8_lossy(b)));
        }
        self.note(&line);
        if q.nr as i64 == libc::SYS_exit_group {
            return Act::Exited(q.a[0] as i32 & 0xff);
        }
        if matches!(q.nr as i64, libc::SYS_tgkill | libc::SYS_tkill | libc::SYS_kill) {
            p.sig = if q.nr as i64 == libc::SYS_tgkill { q.a[2] as u32 } else { q.a[1] as u32 };
        }
        if let Some(k) = crash_after {
            self.note(&format!("{} CRASH after {}", p.idx, desc));
            return Act::Crash(k);
        }
        if ret < 0 {
            data = vec![];
        }
        ret = ret.max(-4095);
        Act::Reply(ret, data)
    }

    fn at_dir(&self, p: &Proc, fd: u64) -> R<Ino> {
        if fd as i32 == libc::AT_FDCWD {
            return Ok(p.cwd);
        }
        match p.fds.get(&(fd as i32)).map(|i| p.files[*i]) {
            Some(Target::Dir { ino, .. }) => Ok(ino),
            Some(_) => Err(libc::ENOTDIR),
            None => Err(libc::EBADF),
        }
    }

    fn exec(&mut self, p: &mut Proc, q: &Req, limit: Option<usize>) -> (i64, Vec<u8>) {
        let mut data = Vec::new();
        match self.exec_inner(p, q, limit, &mut data) {
            Ok(v) => (v, data),
            Err(e) => (-(e as i64), vec![]),
        }
    }

    fn alloc_fd(&self, p: &Proc, min: i32) -> i32 {
        let mut fd = min;
        while p.fds.contains_key(&fd) {
            fd += 1;
        }
        fd
    }

    fn stat_bytes(&self, p: &Proc, t: Option<Target>, ino: Option<Ino>) -> R<(u64, u32, u64, u64)> {
        // (ino, mode, size, mtime)
        let ino = match (t, ino) {
            (_, Some(i)) => i,
            (Some(Target::File { ino, .. }), _) | (Some(Target::Dir { ino, .. }), _) => ino,
            (Some(Target::Tty), _) | (Some(Target::Null), _) | (Some(Target::Random), _) => {
                return Ok((900, libc::S_IFCHR | 0o666, 0, 0))
            }
            (Some(_), _) => return Ok((901, libc::S_IFIFO | 0o600, 0, 0)),
            (None, None) => return Err(libc::EBADF),
        };
        let _ = p;
        let n = self.fs.node(ino)?;
        let (ty, size) = match &n.kind {
            Kind::File(d) => (libc::S_IFREG, d.len() as u64),
            Kind::Dir(_) => (libc::S_IFDIR, 4096),
            Kind::Symlink(t) => (libc::S_IFLNK, t.len() as u64),
            Kind::Dev(_) => (libc::S_IFCHR, 0),
        };
        Ok((ino, ty | n.mode, size, n.mtime))
    }

    fn exec_inner(&mut self, p: &mut Proc, q: &Req, limit: Option<usize>, out: &mut Vec<u8>) -> R<i64> {
        let nr = q.nr as i64;
        let a = &q.a;
        let path = |i: usize| -> R<String> {
            q.b[i].as_ref().map(|b| String::from_utf8_lossy(b).into_owned()).ok_or(libc::EFAULT)
        };
        let target = |p: &Proc, fd: u64| p.fds.get(&(fd as i32)).map(|i| p.files[*i]);
        let now = self.now;
        match nr {
            libc::SYS_open | libc::SYS_openat | libc::SYS_creat | 437 => {
                let (dirfd, flags, mode) = match nr {
                    libc::SYS_open => (libc::AT_FDCWD as i64 as u64, a[1], a[2]),
                    libc::SYS_openat => (a[0], a[2], a[3]),
                    libc::SYS_creat => {
                        (libc::AT_FDCWD as i64 as u64, (libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY) as u64, a[1])
                    }
                    _ => {
                        let how = q.b[1].as_ref().filter(|b| b.len() >= 16).ok_or(libc::EINVAL)?;
                        (
                            a[0],
                            u64::from_le_bytes(how[0..8].try_into().unwrap()),
                            u64::from_le_bytes(how[8..16].try_into().unwrap()),
                        )
                    }
                };
                let flags = flags as i32;
                let base = self.at_dir(p, dirfd).or_else(|e| if path(0)?.starts_with('/') { Ok(ROOT) } else { Err(e) })?;
                let name = path(0)?;
                let nofollow = flags & libc::O_NOFOLLOW != 0 || (flags & libc::O_EXCL != 0 && flags & libc::O_CREAT != 0);
                let w = self.fs.resolve(base, &name, !nofollow)?;
                let acc = flags & 3;
                let (r, wr) = (acc == libc::O_RDONLY || acc == libc::O_RDWR, acc == libc::O_WRONLY || acc == libc::O_RDWR);
                let (ino, created) = match w.ino {
                    Some(i) => {
                        if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                            return Err(libc::EEXIST);
                        }
                        (i, false)
                    }
                    None => {
                        if flags & libc::O_CREAT == 0 {
                            return Err(libc::ENOENT);
                        }
                        if name.ends_with('/') {
                            return Err(libc::EISDIR);
                        }
                        let m = (mode as u32 & 0o7777) & !p.umask;
                        (self.fs.create(w.dir, &w.name, Kind::File(vec![]), m, now)?, true)
                    }
                };
                let node = self.fs.node(ino)?.clone();
                let t = match &node.kind {
                    Kind::Dir(_) => {
                        if wr || flags & libc::O_CREAT != 0 {
                            return Err(libc::EISDIR);
                        }
                        if node.mode & 0o400 == 0 {
                            return Err(libc::EACCES);
                        }
                        Target::Dir { ino, pos: 0 }
                    }
                    Kind::Symlink(_) => return Err(libc::ELOOP),
                    Kind::Dev(Dev::Null) => Target::Null,
                    Kind::Dev(Dev::Random) | Kind::Dev(Dev::Urandom) => Target::Random,
                    Kind::Dev(Dev::Tty) => {
                        if !self.has_tty {
                            return Err(libc::ENXIO);
                        }
                        Target::Tty
                    }
                    Kind::File(_) => {
                        if flags & libc::O_DIRECTORY != 0 {
                            return Err(libc::ENOTDIR);
                        }
                        if !created && ((r && node.mode & 0o400 == 0) || (wr && node.mode & 0o200 == 0)) {
                            return Err(libc::EACCES);
                        }
                        if wr && flags & libc::O_TRUNC != 0 && !created {
                            self.fs.truncate(ino, 0, now)?;
                        }
                        if wr {
                            p.opened_for_write.insert(name.clone());
                        }
                        Target::File { ino, pos: 0, append: flags & libc::O_APPEND != 0, r, w: wr }
                    }
                };
                p.files.push(t);
                let fd = self.alloc_fd(p, 3);
                p.fds.insert(fd, p.files.len() - 1);
                Ok(fd as i64)
            }
            libc::SYS_close => p.fds.remove(&(a[0] as i32)).map(|_| 0).ok_or(libc::EBADF),
            libc::SYS_read | libc::SYS_pread64 | libc::SYS_readv | libc::SYS_preadv => {
                let fd = a[0] as i32;
                let idx = *p.fds.get(&fd).ok_or(libc::EBADF)?;
                let mut len = if nr == libc::SYS_read || nr == libc::SYS_pread64 { a[2] as usize } else { 65536 };
                if let Some(l) = limit {
                    if len > 0 {
                        len = len.min(l.max(1));
                    }
                }
                match p.files[idx] {
                    Target::Stdin => read_input(&mut p.stdin, len, out).map(|n| {
                        p.tail.clear();
                        n
                    }),
                    Target::Tty => {
                        let n = read_input(&mut p.tty, len, out)?;
                        if n > 0 && p.lflag & 0o10 != 0 {
                            p.echoed = true;
                        }
                        if p.tty.q.is_empty() {
                            p.tty.eof = false;
                        }
                        p.tail.clear();
                        Ok(n)
                    }
                    Target::Null => Ok(0),
                    Target::Random => {
                        out.resize(len, 0);
                        p.rng.fill(out);
                        p.rand_bytes += len as u64;
                        Ok(len as i64)
                    }
                    Target::File { ino, pos, r, .. } => {
                        if !r {
                            return Err(libc::EBADF);
                        }
                        let off = if nr == libc::SYS_pread64 || nr == libc::SYS_preadv { a[3] as usize } else { pos };
                        out.extend_from_slice(self.fs.read(ino, off, len)?);
                        if nr == libc::SYS_read || nr == libc::SYS_readv {
                            if let Target::File { pos, .. } = &mut p.files[idx] {
                                *pos += out.len();
                            }
                        }
                        Ok(out.len() as i64)
                    }
                    Target::Dir { .. } => Err(libc::EISDIR),
                    _ => Err(libc::EBADF),
                }
            }
            libc::SYS_write | libc::SYS_pwrite64 | libc::SYS_writev | libc::SYS_pwritev => {
                let fd = a[0] as i32;
                let idx = *p.fds.get(&fd).ok_or(libc::EBADF)?;
                let full = q.b[0].as_deref().unwrap_or(&[]);
                let n = limit.map_or(full.len(), |l| l.min(full.len()));
                let n = if n == 0 && !full.is_empty() { 1.min(full.len()) } else { n };
                let bytes = &full[..n];
                let stream = match p.files[idx] {
                    Target::Stdout => Stream::Out,
                    Target::Stderr => Stream::Err,
                    Target::Tty => Stream::Tty,
                    Target::Null => return Ok(n as i64),
                    Target::File { ino, pos, append, w, .. } => {
                        if !w {
                            return Err(libc::EBADF);
                        }
                        let off = if append {
                            self.fs.size(ino)
                        } else if nr == libc::SYS_pwrite64 || nr == libc::SYS_pwritev {
                            a[3] as usize
                        } else {
                            pos
                        };
                        if let Some(w) = &mut self.writes {
                            w.push((ino, bytes.to_vec()));
                        }
                        let k = self.fs.write(ino, off, bytes, now)?;
                        if nr == libc::SYS_write || nr == libc::SYS_writev {
                            if let Target::File { pos, .. } = &mut p.files[idx] {
                                *pos = off + k;
                            }
                        }
                        return Ok(k as i64);
                    }
                    _ => return Err(libc::EBADF),
                };
                p.tail.extend_from_slice(bytes);
                if p.raw && !p.canonical() && stream == Stream::Out {
                    p.edit.extend_from_slice(bytes);
                    return Ok(n as i64);
                }
                match p.out.last_mut() {
                    Some((s, b)) if *s == stream => b.extend_from_slice(bytes),
                    _ => p.out.push((stream, bytes.to_vec())),
                }
                Ok(n as i64)
            }
            libc::SYS_lseek => {
                let idx = *p.fds.get(&(a[0] as i32)).ok_or(libc::EBADF)?;
                match &mut p.files[idx] {
                    Target::File { ino, pos, .. } => {
                        let size = self.fs.size(*ino) as i64;
                        let base = match a[2] as i32 {
                            libc::SEEK_SET => 0,
                            libc::SEEK_CUR => *pos as i64,
                            libc::SEEK_END => size,
                            _ => return Err(libc::EINVAL),
                        };
                        let np = base + a[1] as i64;
                        if np < 0 {
                            return Err(libc::EINVAL);
                        }
                        *pos = np as usize;
                        Ok(np)
                    }
                    Target::Dir { pos, .. } => {
                        *pos = a[1] as usize;
                        Ok(a[1] as i64)
                    }
                    _ => Err(libc::ESPIPE),
                }
            }
            libc::SYS_fsync | libc::SYS_fdatasync | 277 => match target(p, a[0]) {
                Some(Target::File { ino, .. }) | Some(Target::Dir { ino, .. }) => {
                    self.fs.fsync(ino);
                    Ok(0)
                }
                Some(_) => Err(libc::EINVAL),
                None => Err(libc::EBADF),
            },
            libc::SYS_sync | libc::SYS_syncfs => {
                self.fs.sync_all();
                Ok(0)
            }
            libc::SYS_ftruncate | libc::SYS_fallocate => match target(p, a[0]) {
                Some(Target::File { ino, w: true, .. }) => {
                    if nr == libc::SYS_ftruncate {
                        self.fs.truncate(ino, a[1] as usize, now)?;
                    } else {
                        let want = (a[2] + a[3]) as usize;
                        if a[1] & 1 == 0 && want > self.fs.size(ino) {
                            self.fs.truncate(ino, want, now)?;
                        }
                    }
                    Ok(0)
                }
                Some(_) => Err(libc::EINVAL),
                None => Err(libc::EBADF),
            },
            libc::SYS_truncate => {
                let ino = self.fs.lookup(p.cwd, &path(0)?, true)?;
                self.fs.truncate(ino, a[1] as usize, now)?;
                Ok(0)
            }
            libc::SYS_mkdir | libc::SYS_mkdirat => {
                let (base, mode) = if nr == libc::SYS_mkdir { (p.cwd, a[1]) } else { (self.at_dir(p, a[0])?, a[2]) };
                let w = self.fs.resolve(base, path(0)?.trim_end_matches('/'), false)?;
                if w.ino.is_some() {
                    return Err(libc::EEXIST);
                }
                self.fs.create(w.dir, &w.name, Kind::Dir(BTreeMap::new()), (mode as u32 & 0o7777) & !p.umask, now)?;
                Ok(0)
            }
            libc::SYS_unlink | libc::SYS_unlinkat | libc::SYS_rmdir => {
                let (base, dir) = match nr {
                    libc::SYS_unlink => (p.cwd, false),
                    libc::SYS_rmdir => (p.cwd, true),
                    _ => (self.at_dir(p, a[0])?, a[2] as i32 & libc::AT_REMOVEDIR != 0),
                };
                let w = self.fs.resolve(base, &path(0)?, false)?;
                self.fs.unlink(w.dir, &w.name, dir)?;
                Ok(0)
            }
            libc::SYS_rename | libc::SYS_renameat | libc::SYS_renameat2 => {
                let (b1, b2, flags) = match nr {
                    libc::SYS_rename => (p.cwd, p.cwd, 0),
                    libc::SYS_renameat => (self.at_dir(p, a[0])?, self.at_dir(p, a[2])?, 0),
                    _ => (self.at_dir(p, a[0])?, self.at_dir(p, a[2])?, a[4]),
                };
                if flags & !1 != 0 {
                    return Err(libc::EINVAL);
                }
                let f = self.fs.resolve(b1, &path(0)?, false)?;
                let t = self.fs.resolve(b2, &path(1)?, false)?;
                f.ino.ok_or(libc::ENOENT)?;
                self.fs.rename(f.dir, &f.name, t.dir, &t.name, flags & 1 != 0)?;
                Ok(0)
            }
            libc::SYS_link | libc::SYS_linkat => {
                let (b1, b2) = if nr == libc::SYS_link { (p.cwd, p.cwd) } else { (self.at_dir(p, a[0])?, self.at_dir(p, a[2])?) };
                let ino = self.fs.lookup(b1, &path(0)?, nr == libc::SYS_linkat && a[4] as i32 & libc::AT_SYMLINK_FOLLOW != 0)?;
                let t = self.fs.resolve(b2, &path(1)?, false)?;
                if t.ino.is_some() {
                    return Err(libc::EEXIST);
                }
                self.fs.link(ino, t.dir, &t.name)?;
                Ok(0)
            }
            libc::SYS_symlink | libc::SYS_symlinkat => {
                let base = if nr == libc::SYS_symlink { p.cwd } else { self.at_dir(p, a[1])? };
                let t = self.fs.resolve(base, &path(1)?, false)?;
                if t.ino.is_some() {
                    return Err(libc::EEXIST);
                }
                self.fs.create(t.dir, &t.name, Kind::Symlink(path(0)?), 0o777, now)?;
                Ok(0)
            }
            libc::SYS_readlink | libc::SYS_readlinkat => {
                let (base, cap) = if nr == libc::SYS_readlink { (p.cwd, a[2]) } else { (self.at_dir(p, a[0])?, a[3]) };
                let ino = self.fs.lookup(base, &path(0)?, false)?;
                match &self.fs.node(ino)?.kind {
                    Kind::Symlink(t) => {
                        out.extend_from_slice(&t.as_bytes()[..t.len().min(cap as usize)]);
                        Ok(out.len() as i64)
                    }
                    _ => Err(libc::EINVAL),
                }
            }
            libc::SYS_chmod | libc::SYS_fchmodat | 452 => {
                let (base, mode) = if nr == libc::SYS_chmod { (p.cwd, a[1]) } else { (self.at_dir(p, a[0])?, a[2]) };
                let ino = self.fs.lookup(base, &path(0)?, true)?;
                self.fs.chmod(ino, mode as u32 & 0o7777);
                Ok(0)
            }
            libc::SYS_fchmod => match target(p, a[0]) {
                Some(Target::File { ino, .. }) | Some(Target::Dir { ino, .. }) => {
                    self.fs.chmod(ino, a[1] as u32 & 0o7777);
                    Ok(0)
                }
                Some(_) => Ok(0),
                None => Err(libc::EBADF),
            },
            libc::SYS_chown | libc::SYS_lchown | libc::SYS_fchown | libc::SYS_fchownat => Ok(0),
            libc::SYS_utimensat => Ok(0),
            libc::SYS_access | libc::SYS_faccessat | 439 => {
                let (base, mode) = if nr == libc::SYS_access { (p.cwd, a[1]) } else { (self.at_dir(p, a[0])?, a[2]) };
                let ino = self.fs.lookup(base, &path(0)?, true)?;
                let m = self.fs.node(ino)?.mode;
                if (mode & 4 != 0 && m & 0o400 == 0) || (mode & 2 != 0 && m & 0o200 == 0) || (mode & 1 != 0 && m & 0o100 == 0) {
                    return Err(libc::EACCES);
                }
                Ok(0)
            }
            libc::SYS_stat | libc::SYS_lstat | libc::SYS_newfstatat | libc::SYS_fstat | libc::SYS_statx => {
                let (t, ino) = match nr {
                    libc::SYS_stat => (None, Some(self.fs.lookup(p.cwd, &path(0)?, true)?)),
                    libc::SYS_lstat => (None, Some(self.fs.lookup(p.cwd, &path(0)?, false)?)),
                    libc::SYS_fstat => (target(p, a[0]), None),
                    _ => {
                        let flags = if nr == libc::SYS_statx { a[2] } else { a[3] } as i32;
                        let name = q.b[0].as_ref().map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
                        if name.is_empty() {
                            if flags & libc::AT_EMPTY_PATH == 0 {
                                return Err(if q.b[0].is_none() { libc::EFAULT } else { libc::ENOENT });
                            }
                            (target(p, a[0]), None)
                        } else {
                            let base = if name.starts_with('/') { ROOT } else { self.at_dir(p, a[0])? };
                            (None, Some(self.fs.lookup(base, &name, flags & libc::AT_SYMLINK_NOFOLLOW == 0)?))
                        }
                    }
                };
                let (ino, mode, size, mtime) = self.stat_bytes(p, t, ino)?;
                let (s, ns) = (mtime / 1_000_000_000, mtime % 1_000_000_000);
                if nr == libc::SYS_statx {
                    out.resize(256, 0);
                    out[0..4].copy_from_slice(&0x7ffu32.to_le_bytes());
                    out[4..8].copy_from_slice(&4096u32.to_le_bytes());
                    out[16..20].copy_from_slice(&1u32.to_le_bytes());
                    out[20..24].copy_from_slice(&1000u32.to_le_bytes());
                    out[24..28].copy_from_slice(&1000u32.to_le_bytes());
                    out[28..30].copy_from_slice(&(mode as u16).to_le_bytes());
                    out[32..40].copy_from_slice(&ino.to_le_bytes());
                    out[40..48].copy_from_slice(&size.to_le_bytes());
                    out[48..56].copy_from_slice(&((size + 511) / 512).to_le_bytes());
                    for o in [64, 80, 96, 112] {
                        out[o..o + 8].copy_from_slice(&s.to_le_bytes());
                        out[o + 8..o + 12].copy_from_slice(&(ns as u32).to_le_bytes());
                    }
                } else {
                    out.resize(144, 0);
                    out[0..8].copy_from_slice(&7u64.to_le_bytes());
                    out[8..16].copy_from_slice(&ino.to_le_bytes());
                    out[16..24].copy_from_slice(&1u64.to_le_bytes());
                    out[24..28].copy_from_slice(&mode.to_le_bytes());
                    out[28..32].copy_from_slice(&1000u32.to_le_bytes());
                    out[32..36].copy_from_slice(&1000u32.to_le_bytes());
                    out[48..56].copy_from_slice(&size.to_le_bytes());
                    out[56..64].copy_from_slice(&4096u64.to_le_bytes());
                    out[64..72].copy_from_slice(&((size + 511) / 512).to_le_bytes());
                    for o in [72, 88, 104] {
                        out[o..o + 8].copy_from_slice(&s.to_le_bytes());
                        out[o + 8..o + 16].copy_from_slice(&ns.to_le_bytes());
                    }
                }
                Ok(0)
            }
            libc::SYS_statfs | libc::SYS_fstatfs => {
                out.resize(120, 0);
                Ok(0)
            }
            libc::SYS_getdents64 => {
                let idx = *p.fds.get(&(a[0] as i32)).ok_or(libc::EBADF)?;
                let Target::Dir { ino, pos } = p.files[idx] else { return Err(libc::ENOTDIR) };
                let mut names: Vec<(String, Ino)> = vec![(".".into(), ino), ("..".into(), ino)];
                names.extend(self.fs.mem.dir(ino).ok_or(libc::ENOENT)?.iter().map(|(n, i)| (n.clone(), *i)));
                let mut k = pos;
                while k < names.len() {
                    let (n, i) = &names[k];
                    let reclen = (19 + n.len() + 1 + 7) & !7;
                    if out.len() + reclen > a[2] as usize {
                        break;
                    }
                    let start = out.len();
                    out.extend_from_slice(&i.to_le_bytes());
                    out.extend_from_slice(&((k + 1) as u64).to_le_bytes());
                    out.extend_from_slice(&(reclen as u16).to_le_bytes());
                    out.push(0);
                    out.extend_from_slice(n.as_bytes());
                    out.resize(start + reclen, 0);
                    k += 1;
                }
                if let Target::Dir { pos, .. } = &mut p.files[idx] {
                    *pos = k;
                }
                Ok(out.len() as i64)
            }
            libc::SYS_getcwd => {
                let mut s = self.cwd.clone().into_bytes();
                s.push(0);
                if s.len() > a[1] as usize {
                    return Err(libc::ERANGE);
                }
                out.extend_from_slice(&s);
                Ok(s.len() as i64)
            }
            libc::SYS_chdir => {
                let d = self.fs.lookup(p.cwd, &path(0)?, true)?;
                p.cwd = d;
                Ok(0)
            }
            libc::SYS_umask => {
                let old = p.umask;
                p.umask = a[0] as u32 & 0o777;
                Ok(old as i64)
            }
            libc::SYS_dup | libc::SYS_dup2 | libc::SYS_dup3 => {
                let idx = *p.fds.get(&(a[0] as i32)).ok_or(libc::EBADF)?;
                let fd = if nr == libc::SYS_dup { self.alloc_fd(p, 0) } else { a[1] as i32 };
                p.fds.insert(fd, idx);
                Ok(fd as i64)
            }
            libc::SYS_fcntl => {
                let idx = *p.fds.get(&(a[0] as i32)).ok_or(libc::EBADF)?;
                match a[1] as i32 {
                    libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
                        let fd = self.alloc_fd(p, a[2] as i32);
                        p.fds.insert(fd, idx);
                        Ok(fd as i64)
                    }
                    libc::F_GETFD => Ok(1),
                    libc::F_GETFL => Ok(match p.files[idx] {
                        Target::Stdin => libc::O_RDONLY as i64,
                        Target::Stdout | Target::Stderr => libc::O_WRONLY as i64,
                        Target::File { r, w, .. } => (if r && w { libc::O_RDWR } else if w { libc::O_WRONLY } else { 0 }) as i64,
                        _ => libc::O_RDWR as i64,
                    }),
                    _ => Ok(0),
                }
            }
            libc::SYS_flock => {
                target(p, a[0]).ok_or(libc::EBADF)?;
                Ok(0)
            }
            libc::SYS_poll | libc::SYS_ppoll => {
                let b = q.b[0].as_deref().unwrap_or(&[]);
                let mut n = 0;
                out.extend_from_slice(b);
                for i in 0..b.len() / 8 {
                    let fd = i32::from_le_bytes(b[i * 8..i * 8 + 4].try_into().unwrap());
                    let ev = i16::from_le_bytes(b[i * 8 + 4..i * 8 + 6].try_into().unwrap());
                    let rev: i16 = if fd < 0 {
                        0
                    } else if !p.fds.contains_key(&fd) {
                        libc::POLLNVAL
                    } else {
                        // nothing to read where nothing was typed
                        let none = p.raw && p.fds.get(&fd).map(|i| p.files[*i]) == Some(Target::Stdin) && p.stdin.q.is_empty();
                        ev & (if none { 0 } else { libc::POLLIN } | libc::POLLOUT)
                    };
                    if rev != 0 {
                        n += 1;
                    }
                    out[i * 8 + 6..i * 8 + 8].copy_from_slice(&rev.to_le_bytes());
                }
                Ok(n)
            }
            libc::SYS_ioctl => {
                let t = target(p, a[0]).ok_or(libc::EBADF)?;
                let tty = t == Target::Tty || (p.raw && matches!(t, Target::Stdin | Target::Stdout | Target::Stderr));
                match a[1] as u32 {
                    0x541b => {
                        out.extend_from_slice(&0u32.to_le_bytes());
                        Ok(0)
                    }
                    _ if !tty => Err(libc::ENOTTY),
                    0x5401 | 0x802c542a => {
                        out.extend_from_slice(&p.termios[..if a[1] as u32 == 0x5401 { 36 } else { 44 }]);
                        out[12..16].copy_from_slice(&p.lflag.to_le_bytes());
                        Ok(0)
                    }
                    0x5402 | 0x5403 | 0x5404 | 0x402c542b | 0x402c542c | 0x402c542d => {
                        if let Some(b) = q.b[0].as_ref().filter(|b| b.len() >= 36) {
                            p.lflag = u32::from_le_bytes(b[12..16].try_into().unwrap());
                            let n = b.len().min(44);
                            p.termios[..n].copy_from_slice(&b[..n]);
                            p.termios[12..16].fill(0);
                        }
                        Ok(0)
                    }
                    0x5413 => {
                        out.extend_from_slice(&[24, 0, 80, 0, 0, 0, 0, 0]);
                        Ok(0)
                    }
                    _ => Err(libc::ENOTTY),
                }
            }
            libc::SYS_getrandom => {
                let n = limit.map_or(a[1] as usize, |l| (a[1] as usize).min(l.max(1)));
                out.resize(n, 0);
                p.rng.fill(out);
                p.rand_bytes += n as u64;
                Ok(n as i64)
            }
            libc::SYS_clock_gettime | libc::SYS_gettimeofday => {
                let mono = nr == libc::SYS_clock_gettime && a[0] != libc::CLOCK_REALTIME as u64;
                let t = if mono { self.now - self.start + 1_000_000_000 } else { self.now };
                out.extend_from_slice(&(t / 1_000_000_000).to_le_bytes());
                let sub = t % 1_000_000_000;
                out.extend_from_slice(&(if nr == libc::SYS_gettimeofday { sub / 1000 } else { sub }).to_le_bytes());
                Ok(0)
            }
            libc::SYS_clock_getres => {
                out.extend_from_slice(&[0; 8]);
                out.extend_from_slice(&1u64.to_le_bytes());
                Ok(0)
            }
            libc::SYS_nanosleep | libc::SYS_clock_nanosleep => {
                if let Some(b) = q.b[0].as_ref().filter(|b| b.len() >= 16) {
                    let s = u64::from_le_bytes(b[0..8].try_into().unwrap());
                    let n = u64::from_le_bytes(b[8..16].try_into().unwrap());
                    let d = s.saturating_mul(1_000_000_000).saturating_add(n).min(10_000_000_000_000);
                    if nr == libc::SYS_clock_nanosleep && a[1] & 1 != 0 {
                        self.now = self.now.max(d);
                    } else {
                        self.now += d;
                    }
                }
                Ok(0)
            }
            libc::SYS_getpid => Ok(p.pid as i64),
            libc::SYS_getppid => Ok(999),
            libc::SYS_getuid | libc::SYS_geteuid | libc::SYS_getgid | libc::SYS_getegid => Ok(1000),
            libc::SYS_pause => Err(libc::EINTR),
            libc::SYS_exit_group | libc::SYS_tgkill | libc::SYS_tkill | libc::SYS_kill => Ok(0),
            _ => {
                *self.stats.unsupported.entry(q.nr).or_default() += 1;
                Err(libc::ENOSYS)
            }
        }
    }
}

fn crash_name(c: &Crash, phase: &str) -> String {
    match &c.kind {
        CrashKind::Kill => format!("kill {} call", phase),
        CrashKind::Power { style, .. } => format!("power loss {} call (style {})", phase, style),
    }
}

fn faultable(nr: u32) -> bool {
    !matches!(
        nr as i64,
        libc::SYS_exit_group | libc::SYS_tgkill | libc::SYS_tkill | libc::SYS_kill | libc::SYS_close | libc::SYS_getpid
            | libc::SYS_clock_gettime | libc::SYS_lseek | libc::SYS_poll
    )
}

fn read_input(inp: &mut Input, len: usize, out: &mut Vec<u8>) -> R<i64> {
    match inp.q.pop_front() {
        None => Ok(0),
        Some(InItem::Eof) => {
            inp.eof = true;
            inp.q.clear();
            Ok(0)
        }
        Some(InItem::Err(e)) => Err(e),
        Some(InItem::Fail(e)) => {
            inp.q.clear();
            inp.fail = Some(e);
            Err(e)
        }
        Some(InItem::Bytes(mut b)) => {
            let n = b.len().min(len);
            out.extend_from_slice(&b[..n]);
            if n < b.len() {
                b.drain(..n);
                inp.q.push_front(InItem::Bytes(b));
            }
            Ok(n as i64)
        }
    }
}
