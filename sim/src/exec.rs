//! Runs the real programs against the simulated system: starts processes, types what the plan says at the prompts
//! that come up, and records what happened, operation by operation.
use crate::chan::*;
use crate::kernel::*;
use crate::plan::*;
use crate::rng::{hash_str, Rng};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Prog {
    Cli,
    Lib,
}

/// The fork servers of one worker, by program and key derivation work factor.
pub struct Zygotes {
    pub dir: String,
    z: BTreeMap<(Prog, u32), Zygote>,
}
impl Zygotes {
    pub fn new(dir: &str) -> Self {
        Zygotes { dir: dir.into(), z: BTreeMap::new() }
    }
    pub fn reset(&mut self) {
        self.z.clear();
    }
    fn start(&mut self, prog: Prog, shift: u32, args: &[Vec<u8>], needles: &[Vec<u8>]) -> Chan {
        for attempt in 0..3 {
            let dir = self.dir.clone();
            let z = self.z.entry((prog, shift)).or_insert_with(|| {
                let exe = match prog {
                    Prog::Cli => format!("{}/cli/release/pfp-cli", dir),
                    Prog::Lib => format!("{}/lib/release/libdrv", dir),
                };
                Zygote::spawn(&exe, &format!("{}/shim.so", dir), shift).unwrap_or_else(|e| crate::harness(&e))
            });
            match z.start(args, needles) {
                Ok(c) => return c,
                Err(e) if attempt == 2 => crate::harness(&e),
                Err(_) => {
                    self.z.remove(&(prog, shift));
                }
            }
        }
        unreachable!()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ask {
    Primary,
    NewPrimary,
    Repeat,
    Question,
    Value,
    Notes,
    Code,
    Line,
    Unknown,
}
#[derive(Clone, Debug)]
pub struct PromptRec {
    pub ask: Ask,
    pub text: Option<String>,
    pub fault: Option<InFault>,
    pub got: Got,
}
/// What a line read from the prompt's stream amounts to.
#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Text(String),
    /// not valid UTF-8
    Bad(String),
    Eof,
    Err,
}
pub type Snap = Option<Rc<Vec<u8>>>;

#[derive(Clone, Debug)]
pub struct OpRec {
    pub cmd: Option<Cmd>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub tty: Vec<u8>,
    pub prompts: Vec<PromptRec>,
    pub before: Snap,
    pub after: Snap,
    pub muts: u64,
    pub fired: Vec<String>,
    pub done: bool,
    pub steps: u64,
    pub out_failed: bool,
    pub start: u64,
    pub end: u64,
    pub load: u64,
    /// the file as left would survive the power failing now
    pub durable: bool,
}
impl OpRec {
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
    pub fn etext(&self) -> String {
        String::from_utf8_lossy(&self.err).into_owned()
    }
    pub fn infaults(&self) -> Vec<&InFault> {
        self.prompts.iter().filter_map(|p| p.fault.as_ref()).collect()
    }
    pub fn show(&self) -> String {
        format!(
            "stdout {:?}, stderr {:?}{}{}",
            self.text(),
            self.etext(),
            if self.fired.is_empty() { String::new() } else { format!(", faults {:?}", self.fired) },
            self.infaults().iter().map(|f| format!(", input fault {:?}", f)).collect::<String>()
        )
    }
}
pub struct ProcRec {
    pub spec: Spec,
    pub ops: Vec<OpRec>,
    pub end: End,
    pub echo: bool,
    /// the shell's history before
    pub hist: Option<Vec<u8>>,
    /// a secret was typed visibly
    pub echoed: bool,
    /// something else was typed invisibly
    pub unseen: bool,
    pub opened_w: Vec<String>,
    pub mem_hits: Vec<(u32, u32)>,
    pub power: bool,
    pub sync_dir_failed: bool,
    pub rand_failed: bool,
    pub unlink_failed: bool,
}

/// Everything of a run that the drivers need.
pub struct Env<'a> {
    pub z: &'a mut Zygotes,
    pub w: World,
    pub shift: u32,
    pub needles: Vec<Vec<u8>>,
}

fn abs(cwd: &str, p: &str) -> String {
    if p.starts_with('/') { p.to_string() } else { format!("{}/{}", cwd, p) }
}

pub fn quote(s: &str) -> String {
    format!("'{}'", s.replace('\'', "'\\''"))
}

/// An option of a command: its short and its long name, its value
type Opt = (char, &'static str, Option<String>);

/// The command line (without program name and global options). Which of the ways to write the options is used depends
/// on nothing but the command.
pub fn words(c: &Cmd) -> Vec<String> {
    let mut pos: Vec<&str> = Vec::new();
    let mut opts: Vec<Opt> = Vec::new();
    let mut style = Rng::new(hash_str(&format!("{:?}", c)));
    let plain = style.chance(1, 2);
    let flag = |opts: &mut Vec<Opt>, on: bool, s: char, l: &'static str| {
        if on {
            opts.push((s, l, None))
        }
    };
    let sub = match c {
        Cmd::SetPrimary { yes, .. } => {
            flag(&mut opts, *yes, 'y', "assume-yes");
            "set-primary"
        }
        Cmd::Add { site, name, rev, len, cs, yes, .. } => {
            pos.extend([site.as_str(), name]);
            revision(&mut opts, rev);
            if *len != 16 || plain || style.chance(1, 2) {
                opts.push(('l', "length", Some(len.to_string())));
            }
            for (i, (s, l)) in [('w', "no-lower"), ('u', "no-upper"), ('d', "no-digit"), ('s', "no-symbol")].iter().enumerate() {
                flag(&mut opts, cs >> i & 1 == 0, *s, l);
            }
            flag(&mut opts, *yes, 'y', "assume-yes");
            "add"
        }
        Cmd::Store { site, name, rev, yes, code, .. } => {
            pos.extend([site.as_str(), name]);
            revision(&mut opts, rev);
            flag(&mut opts, code.is_some(), 'c', "recovery");
            flag(&mut opts, *yes, 'y', "assume-yes");
            "add-stored"
        }
        Cmd::Bad { args } => return args.clone(),
        Cmd::Remove { site, name, rev } => {
            pos.extend([site.as_str(), name]);
            revision(&mut opts, rev);
            "remove"
        }
        Cmd::Show { site, name, rev, qr } => {
            pos.extend([site.as_str(), name]);
            revision(&mut opts, rev);
            flag(&mut opts, *qr, 'q', "qrcode");
            "show"
        }
        Cmd::Notes { site, name, rev, set } => {
            pos.extend([site.as_str(), name]);
            revision(&mut opts, rev);
            flag(&mut opts, set.is_some(), 's', "set");
            "notes"
        }
        Cmd::List { site, name, show, rec, verbose } => {
            if site != "*" || name != "*" {
                pos.push(site);
                if name != "*" {
                    pos.push(name);
                }
            }
            flag(&mut opts, *show, 's', "show");
            flag(&mut opts, *rec, 'r', "recovery");
            flag(&mut opts, *verbose, 'v', "verbose");
            "list"
        }
        Cmd::Alias { site, target, remove } => {
            pos.push(site);
            if let Some(t) = target {
                pos.push(t)
            }
            flag(&mut opts, *remove, 'r', "remove");
            "alias"
        }
        Cmd::Lock => "lock",
        Cmd::Raw { line } => line,
        _ => "exit",
    };
    // values starting with a dash have to follow a separator
    let dash = pos.iter().any(|p| p.starts_with('-'));
    let mut v = vec![sub.to_string()];
    if plain {
        let o = opts.iter().flat_map(|(s, l, a)| match a {
            Some(a) if a.starts_with('-') => vec![format!("--{}={}", l, a)],
            Some(a) => vec![format!("-{}", s), a.clone()],
            None => vec![format!("-{}", s)],
        });
        let p = pos.iter().map(|p| p.to_string());
        if dash {
            v.extend(o);
            v.push("--".into());
            v.extend(p);
        } else {
            v.extend(p);
            v.extend(o);
        }
        return v;
    }
    for i in (1..opts.len()).rev() {
        opts.swap(i, style.usize(i + 1));
    }
    let mut groups: Vec<Vec<String>> = Vec::new();
    let mut k = 0;
    while k < opts.len() {
        let (s, l, a) = &opts[k];
        k += 1;
        match a {
            None if style.chance(1, 2) => groups.push(vec![format!("--{}", l)]),
            None => {
                let mut g = format!("-{}", s);
                while k < opts.len() && opts[k].2.is_none() && style.chance(1, 2) {
                    g.push(opts[k].0);
                    k += 1;
                }
                groups.push(vec![g]);
            }
            Some(a) => {
                let tame = a.starts_with(|c: char| c.is_alphanumeric());
                groups.push(match style.below(4) {
                    0 if !a.starts_with('-') => vec![format!("--{}", l), a.clone()],
                    1 if tame => vec![format!("-{}{}", s, a)],
                    2 if !a.starts_with('-') => vec![format!("-{}", s), a.clone()],
                    _ => vec![format!("--{}={}", l, a)],
                })
            }
        }
    }
    // the options before, between and after the positional parameters
    let mut at: Vec<usize> = groups.iter().map(|_| if dash { 0 } else { style.usize(pos.len() + 1) }).collect();
    at.sort();
    let mut gi = groups.into_iter().zip(at).peekable();
    let sep = dash || (!pos.is_empty() && style.chance(1, 6));
    let mut sep = if !sep { None } else if dash { Some(0) } else { Some(pos.len()) };
    for i in 0..=pos.len() {
        while let Some((g, _)) = gi.next_if(|x| x.1 == i) {
            v.extend(g);
        }
        if sep == Some(i) {
            sep = None;
            v.push("--".into());
        }
        if i < pos.len() {
            v.push(pos[i].into());
        }
    }
    v
}
fn revision(opts: &mut Vec<Opt>, rev: &str) {
    if !rev.is_empty() {
        opts.push(('r', "revision", Some(rev.to_string())));
    }
}

pub fn shell_line(c: &Cmd) -> String {
    if let Cmd::Raw { line } = c {
        return line.clone();
    }
    words(c)
        .iter()
        .map(|w| {
            if !w.is_empty() && w.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._@".contains(&b)) {
                w.clone()
            } else {
                quote(w)
            }
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn lib_line(c: &Cmd, path: &str, exists: bool) -> String {
    use serde_json::json;
    let v = match c {
        Cmd::SetPrimary { pw, .. } => json!(["reset", pw]),
        Cmd::Add { site, name, rev, len, cs, .. } => json!(["add", site, name, rev, len, cs]),
        Cmd::Store { site, name, rev, pw, .. } => json!(["store", site, name, rev, pw]),
        Cmd::Remove { site, name, rev } => json!(["remove", site, name, rev]),
        Cmd::Show { site, name, rev, .. } => json!(["get", site, name, rev]),
        Cmd::Notes { site, name, rev, set: None } => json!(["notes", site, name, rev]),
        Cmd::Notes { site, name, rev, set: Some(t) } => json!(["set-notes", site, name, rev, t]),
        Cmd::List { site, name, .. } => json!(["list", site, name]),
        Cmd::Alias { site, target: Some(t), .. } => json!(["set-alias", site, t]),
        Cmd::Alias { site, remove: true, .. } => json!(["remove-alias", site]),
        Cmd::Alias { site, .. } => json!(["alias", site]),
        Cmd::Lock => json!(["lock"]),
        Cmd::Unlock { pw } => json!(["unlock", pw]),
        Cmd::Load => json!([if exists { "load" } else { "new" }, path]),
        Cmd::Has { site, name, rev } => json!(["has", site, name, rev]),
        Cmd::Decode { code } => json!(["decode", code]),
        Cmd::Raw { .. } | Cmd::Bad { .. } | Cmd::Exit => json!(["state"]),
    };
    v.to_string()
}

const PROMPTS: &[(&str, Ask)] = &[
    ("Your primary password: ", Ask::Primary),
    ("New primary password: ", Ask::NewPrimary),
    ("Repeat primary password: ", Ask::Repeat),
    ("Password to be stored: ", Ask::Value),
    ("Please enter new notes to be stored:", Ask::Notes),
    ("(empty line to abort):", Ask::Code),
    ("Continue?", Ask::Question),
    ("Overwrite?", Ask::Question),
    ("decode the recovery code?", Ask::Question),
];

pub struct Drv {
    pub p: Proc,
    pub rec: ProcRec,
    pub primary: String,
    pub path: String,
    next: usize,
    unlock_i: usize,
    right: u32,
    ans: usize,
    prompt_no: u32,
    mark: u64,
    /// when it last got something to read
    fed: u64,
    muts: u64,
    fired: usize,
    pub ended: bool,
    pub first_read: Option<u64>,
    /// look through the memory before the next command
    scan: bool,
}

pub enum St {
    Go,
    Ended,
    Power(u8, u64),
}

impl Drv {
    pub fn start(env: &mut Env, spec: &Spec, primary: &str, path: &str) -> Drv {
        let path = spec.path.clone().unwrap_or(path.to_string());
        let mut args: Vec<String> = vec!["pfp-cli".into()];
        let mut cmd0 = None;
        match spec.mode {
            Mode::Lib => {}
            _ => {
                if !spec.tty {
                    args.push("--stdin-passwords".into());
                }
                if !spec.default_path {
                    args.push("-c".into());
                    args.push(path.clone());
                }
                if spec.mode == Mode::Shell {
                    args.push("shell".into());
                    if let Some(h) = &spec.history {
                        args.push("-s".into());
                        args.push(h.clone());
                    }
                } else {
                    cmd0 = spec.cmds.first().cloned();
                    args.extend(words(&spec.cmds[0]));
                }
            }
        }
        let prog = if spec.mode == Mode::Lib { Prog::Lib } else { Prog::Cli };
        let bytes: Vec<Vec<u8>> = args.iter().map(|s| s.as_bytes().to_vec()).collect();
        let chan = env.z.start(prog, env.shift, &bytes, &env.needles);
        let p = env.w.new_proc(chan, spec.faults.clone(), spec.crash.clone());
        let mut d = Drv {
            p,
            rec: ProcRec {
                spec: spec.clone(),
                ops: vec![],
                end: End::Running,
                echo: true,
                hist: env.w.fs.get(&abs(&env.w.cwd, spec.history.as_deref().unwrap_or(crate::plan::HISTORY))).map(|b| b.to_vec()),
                echoed: false,
                unseen: false,
                opened_w: vec![],
                mem_hits: vec![],
                power: false,
                sync_dir_failed: false,
                rand_failed: false,
                unlink_failed: false,
            },
            primary: primary.to_string(),
            path,
            next: if spec.mode == Mode::Cli { 1 } else { 0 },
            unlock_i: 0,
            right: 0,
            ans: 0,
            prompt_no: 0,
            mark: 0,
            fed: 0,
            muts: 0,
            fired: 0,
            ended: false,
            first_read: None,
            scan: false,
        };
        d.p.raw = spec.raw;
        d.open_op(env, cmd0);
        d
    }
    fn snap(&self, env: &Env) -> Snap {
        env.w.fs.get(&abs(&env.w.cwd, &self.path)).map(|b| Rc::new(b.to_vec()))
    }
    fn open_op(&mut self, env: &Env, cmd: Option<Cmd>) {
        self.ans = 0;
        self.mark = self.p.steps;
        self.fed = self.p.steps;
        self.p.cur_op = self.rec.ops.len() as u32;
        let before = self.snap(env);
        self.rec.ops.push(OpRec {
            cmd,
            out: vec![],
            err: vec![],
            tty: vec![],
            prompts: vec![],
            after: before.clone(),
            before,
            muts: 0,
            fired: vec![],
            done: false,
            steps: 0,
            out_failed: false,
            start: env.w.stats.syscalls,
            end: 0,
            load: 0,
            durable: true,
        });
    }
    fn close_op(&mut self, env: &Env, done: bool) {
        let after = self.snap(env);
        let durable = after == self.rec.ops.last().unwrap().before || env.w.fs.durable(&abs(&env.w.cwd, &self.path)).as_ref() == after.as_deref();
        let out = std::mem::take(&mut self.p.out);
        let o = self.rec.ops.last_mut().unwrap();
        for (s, b) in out {
            match s {
                Stream::Out => o.out.extend(b),
                Stream::Err => o.err.extend(b),
                Stream::Tty => o.tty.extend(b),
            }
        }
        if self.p.raw {
            // the end of the line edited
            const END: &[u8] = b"\x1b[?2004l\n";
            while o.out.starts_with(END) {
                o.out.drain(..END.len());
            }
        }
        o.after = after;
        o.durable = durable;
        o.muts = self.p.mutations - self.muts;
        self.muts = self.p.mutations;
        o.fired = self.p.fired[self.fired..].to_vec();
        self.fired = self.p.fired.len();
        o.done = done;
        o.steps = self.p.steps - self.mark;
        o.out_failed = self.p.out_failed;
        o.end = env.w.stats.syscalls;
    }
    fn finish(&mut self, env: &Env, end: End) {
        let done = matches!(end, End::Exit(_));
        self.close_op(env, done);
        self.p.chan = None;
        self.rec.echo = self.p.terminal_restored();
        self.rec.echoed |= self.p.echoed;
        self.rec.end = end;
        self.rec.opened_w = self.p.opened_for_write.iter().cloned().collect();
        self.rec.mem_hits = self.p.mem_hits.iter().cloned().collect();
        self.rec.sync_dir_failed = self.p.sync_dir_failed;
        self.rec.rand_failed = self.p.fired.iter().any(|f| f.starts_with("Rand E") && !f.starts_with("Rand EINTR"));
        self.rec.unlink_failed = self.p.fired.iter().any(|f| f.starts_with("Unlink"));
        self.ended = true;
    }

    fn ask(&self) -> Ask {
        if self.p.raw && self.p.tail.ends_with(b"pfp> ") {
            return Ask::Line;
        }
        let tail = String::from_utf8_lossy(&self.p.tail);
        let mut best = None;
        for (t, a) in PROMPTS {
            if let Some(i) = tail.rfind(t) {
                if best.map_or(true, |(j, _)| i > j) {
                    best = Some((i, *a));
                }
            }
        }
        // nothing but a hint may follow the prompt
        match best {
            Some((i, a)) if tail[i..].lines().count() <= 1 && tail.len() - i < 60 => a,
            _ => Ask::Unknown,
        }
    }

    /// Types something. `None`: end of input.
    fn feed(&mut self, tty: bool, ask: Ask, text: Option<String>) {
        let n = self.prompt_no;
        self.prompt_no += 1;
        if !tty && self.rec.spec.tty && self.rec.spec.mode != Mode::Lib {
            match ask {
                Ask::Primary | Ask::NewPrimary | Ask::Repeat | Ask::Value => self.rec.echoed = true,
                Ask::Line if self.rec.spec.raw => {}
                _ if self.rec.spec.raw && !self.p.canonical() => self.rec.unseen = true,
                _ => self.rec.unseen |= self.p.lflag & 0o10 == 0,
            }
        }
        let mut fault = self.rec.spec.infaults.iter().find(|f| f.prompt == n).cloned();
        let edited = !tty && self.rec.spec.raw && ask == Ask::Line;
        let enter = if tty { b"\n" } else { self.p.enter() };
        let mut before = vec![];
        let mut typed = text.clone().unwrap_or_default().into_bytes();
        if edited && text.is_some() && fault.is_none() {
            for k in self.rec.spec.keys.iter().filter(|k| k.line + 1 == self.next as u32) {
                match &k.kind {
                    KeyKind::Erase(s) => {
                        before.extend_from_slice(s.as_bytes());
                        before.extend(s.chars().map(|_| 127));
                    }
                    KeyKind::Kill(s) => {
                        before.extend_from_slice(s.as_bytes());
                        before.push(21);
                    }
                    KeyKind::Interrupt(s) => {
                        before.extend_from_slice(s.as_bytes());
                        before.push(3);
                    }
                    KeyKind::Home => {
                        let t = text.clone().unwrap();
                        if let Some(c) = t.chars().next() {
                            typed = t[c.len_utf8()..].as_bytes().to_vec();
                            typed.extend_from_slice(b"\x1b[H");
                            typed.extend_from_slice(c.to_string().as_bytes());
                        }
                    }
                    KeyKind::Paste => typed = [b"\x1b[200~", text.as_ref().unwrap().as_bytes(), b"\x1b[201~"].concat(),
                    KeyKind::Up => typed = b"\x1b[A".to_vec(),
                }
            }
        }
        let q = if tty { &mut self.p.tty } else { &mut self.p.stdin };
        let mut push = |i: InItem| match i {
            InItem::Bytes(b) if b.is_empty() => {}
            i => q.q.push_back(i),
        };
        let got = if let Some(e) = q.fail {
            push(InItem::Err(e));
            Got::Err
        } else if q.eof || text.is_none() {
            if let Some(InFault { kind: InKind::Eintr, .. }) = &fault {
                push(InItem::Err(libc::EINTR));
            }
            if edited && !q.eof && fault.is_none() {
                push(InItem::Bytes(vec![4]));
            } else {
                push(InItem::Eof);
            }
            Got::Eof
        } else {
            let t = text.clone().unwrap();
            self.fed = self.p.steps;
            let bytes = t.as_bytes().to_vec();
            match &mut fault {
                None => {
                    push(InItem::Bytes([&before[..], &typed[..], enter].concat()));
                    Got::Text(t)
                }
                Some(f) => {
                    // the line is cut before its end at the latest; a cut command line would be another command
                    let cut = matches!(f.kind, InKind::Eof) && ask == Ask::Line;
                    f.at = if cut { 0 } else { f.at.min(bytes.len() as u32) };
                    if let (InKind::Bytes(b), Ask::Line) = (&mut f.kind, ask) {
                        *b = vec![0xff];
                        if edited {
                            // reported at once: what follows would be another line
                            f.at = bytes.len() as u32;
                        }
                    }
                    let (a, b) = bytes.split_at(f.at as usize);
                    let judge = |v: Vec<u8>, whole: bool| match String::from_utf8(v) {
                        // the terminal's lines have to be complete
                        _ if tty && !whole => Got::Err,
                        Ok(s) => Got::Text(s),
                        Err(e) => Got::Bad(String::from_utf8_lossy(e.as_bytes()).into_owned()),
                    };
                    push(InItem::Bytes(a.to_vec()));
                    match &f.kind {
                        InKind::Eintr => {
                            push(InItem::Err(libc::EINTR));
                            push(InItem::Bytes([b, enter].concat()));
                            Got::Text(t)
                        }
                        InKind::EioOnce => {
                            push(InItem::Err(libc::EIO));
                            Got::Err
                        }
                        InKind::Eio => {
                            push(InItem::Fail(libc::EIO));
                            Got::Err
                        }
                        InKind::Eof => {
                            push(InItem::Eof);
                            if a.is_empty() { Got::Eof } else { judge(a.to_vec(), false) }
                        }
                        InKind::Bytes(x) => {
                            push(InItem::Bytes([&x[..], b, if edited { b"" } else { enter }].concat()));
                            judge([a, &x[..], b].concat(), true)
                        }
                    }
                }
            }
        };
        self.rec.ops.last_mut().unwrap().prompts.push(PromptRec { ask, text, fault, got });
    }

    fn input(&mut self, env: &mut Env, tty: bool) {
        let ask = self.ask();
        let eof = !tty && (self.p.stdin.eof || self.p.stdin.fail.is_some());
        let cmd = self.rec.ops.last().unwrap().cmd.clone();
        let cmd_ans = |i: usize| match &cmd {
            Some(Cmd::SetPrimary { answers, .. }) | Some(Cmd::Add { answers, .. }) | Some(Cmd::Store { answers, .. }) => {
                answers.get(i).cloned()
            }
            _ => None,
        };
        let text = match (ask, &cmd) {
            (Ask::Primary, _) => {
                let i = self.unlock_i;
                self.unlock_i += 1;
                match self.rec.spec.unlock.get(i) {
                    Some(s) => Some(s.clone()),
                    None => {
                        self.right += 1;
                        if self.right <= 4 { Some(self.primary.clone()) } else { None }
                    }
                }
            }
            (Ask::NewPrimary, Some(Cmd::SetPrimary { pw, .. })) => Some(pw.clone()),
            (Ask::Repeat, Some(Cmd::SetPrimary { pw, repeat, .. })) => Some(repeat.clone().unwrap_or(pw.clone())),
            (Ask::Question, _) => {
                let a = cmd_ans(self.ans);
                self.ans += 1;
                a
            }
            (Ask::Value, Some(Cmd::Store { pw, .. })) => Some(pw.clone()),
            (Ask::Notes, Some(Cmd::Notes { set: Some(t), .. })) => Some(t.clone()),
            (Ask::Code, Some(Cmd::Store { code: Some(c), .. })) => {
                let n = self.rec.ops.last().unwrap().prompts.iter().filter(|p| p.ask == Ask::Code).count();
                c.get(n).cloned()
            }
            _ => {
                if self.rec.spec.mode == Mode::Cli || tty {
                    self.feed(tty, Ask::Unknown, None);
                    return;
                }
                // the previous operation is over
                self.scan = self.rec.spec.mode == Mode::Shell && !env.needles.is_empty();
                self.close_op(env, true);
                let c = if eof { None } else { self.rec.spec.cmds.get(self.next).cloned() };
                self.next += 1;
                let line = c.as_ref().map(|c| match self.rec.spec.mode {
                    Mode::Lib => lib_line(c, &self.path, env.w.fs.get(&abs(&env.w.cwd, &self.path)).is_some()),
                    _ => shell_line(c),
                });
                if self.rec.spec.mode == Mode::Lib && self.next == 1 {
                    self.rec.ops.clear();
                }
                self.open_op(env, Some(c.unwrap_or(Cmd::Exit)));
                self.feed(false, Ask::Line, line);
                return;
            }
        };
        self.feed(tty, ask, if eof { None } else { text });
    }

    /// Lets the process make one system call.
    pub fn step(&mut self, env: &mut Env) -> St {
        let q = match self.p.chan.as_mut().unwrap().recv(30_000) {
            Recv::Req(q) => q,
            Recv::Gone => {
                env.w.note(&format!("{} died (signal {})", self.p.idx, self.p.sig));
                self.finish(env, End::Signal);
                return St::Ended;
            }
            Recv::Hang => {
                env.w.note(&format!("{} does not respond", self.p.idx));
                self.finish(env, End::Hang);
                return St::Ended;
            }
        };
        loop {
            match env.w.handle(&mut self.p, &q) {
                Act::Reply(r, data) => {
                    if self.first_read.is_none() && q.nr as i64 == libc::SYS_openat && r >= 0 && self.p.reads_file(r as u64) {
                        self.first_read = Some(env.w.stats.syscalls);
                    }
                    self.p.chan.as_mut().unwrap().reply(r, &data, std::mem::take(&mut self.scan));
                    if self.p.steps - self.fed > 20_000 {
                        env.w.note(&format!("{} exceeds the step limit", self.p.idx));
                        self.finish(env, End::Hang);
                        return St::Ended;
                    }
                    return St::Go;
                }
                Act::NeedInput(tty) => self.input(env, tty),
                Act::Exited(c) => {
                    self.p.chan.as_mut().unwrap().reply(0, &[], false);
                    self.finish(env, End::Exit(c));
                    return St::Ended;
                }
                Act::Crash(CrashKind::Kill) => {
                    env.w.unsettled = true;
                    self.finish(env, End::Crashed);
                    return St::Ended;
                }
                Act::Crash(CrashKind::Power { style, seed }) => {
                    env.w.unsettled = true;
                    self.finish(env, End::Crashed);
                    self.rec.power = true;
                    return St::Power(style, seed);
                }
            }
        }
    }
}

/// Runs one process to its end.
pub fn run(env: &mut Env, spec: &Spec, primary: &str, path: &str) -> ProcRec {
    let mut d = Drv::start(env, spec, primary, path);
    loop {
        match d.step(env) {
            St::Go => {}
            St::Ended => break,
            St::Power(style, seed) => {
                env.w.fs.power_loss(style, seed);
                let after = d.snap(env);
                d.rec.ops.last_mut().unwrap().after = after;
                break;
            }
        }
    }
    d.rec
}
