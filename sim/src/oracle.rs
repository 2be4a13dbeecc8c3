//! Executes a plan and judges it: every operation against the reference model, every disturbed operation against the
//! narrow set of outcomes its faults permit.
use crate::exec::*;
use crate::fs::{Kind, ROOT};
use crate::kernel::*;
use crate::model::*;
use crate::plan::*;
use crate::{qr, refimpl};
use crate::rng::{hash_str, Rng};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Viol {
    pub props: Vec<String>,
    pub sig: String,
    pub msg: String,
    pub step: usize,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub enum FileState {
    #[default]
    Absent,
    Broken(Vec<u8>),
    Vault(Vault),
}
impl FileState {
    pub fn vault(&self) -> Option<&Vault> {
        match self {
            FileState::Vault(v) => Some(v),
            _ => None,
        }
    }
}

#[derive(Default)]
pub struct Outcome {
    pub viols: Vec<Viol>,
    pub trace: u64,
    pub stats: Stats,
    pub states: BTreeSet<u64>,
    pub log: Vec<String>,
    /// what was random: salts, key secrets, nonces
    pub random: BTreeSet<Vec<u8>>,
    pub last: FileState,
    pub ops: u64,
}

/// What the session knows.
struct Sess {
    mem: FileState,
    unlocked: bool,
    loaded: bool,
    /// set up or locked before in this session
    rekeyed: bool,
}

struct Exp {
    out: Vec<Vec<Piece>>,
    err: Option<String>,
    ok: bool,
    after: Option<FileState>,
    unlocked: bool,
    lib: Option<LibExp>,
    /// the session ends with this status
    ends: Option<i32>,
}
enum LibExp {
    Val(serde_json::Value),
    Err(&'static str),
    List(String, String),
    Any,
}

struct Dlg<'a> {
    prompts: std::collections::VecDeque<&'a PromptRec>,
    err: String,
    any_err: bool,
    /// the input could not be read
    failed: bool,
}
impl<'a> Dlg<'a> {
    /// The answer given at the next prompt, which has to be of this kind. Inner None: end of input.
    fn ask(&mut self, a: Ask) -> Result<Option<String>, (Ask, String)> {
        match self.prompts.pop_front() {
            Some(p) if p.ask == a => Ok(match (&p.got, a) {
                (Got::Text(t), _) | (Got::Bad(t), Ask::Question | Ask::Code) => Some(t.clone()),
                (Got::Eof, _) => None,
                _ => {
                    self.failed = true;
                    self.any_err = true;
                    None
                }
            }),
            // a question left out is about consent, whatever is asked instead
            Some(p) => Err((if a == Ask::Question { a } else { p.ask }, format!("asks {:?} where {:?} is due", p.ask, a))),
            None => Err((a, format!("does not ask {:?}", a))),
        }
    }
}

/// HMAC pads its key with zeros: for the key derivation, zeros at the end make no difference.
fn same_primary(a: &str, b: &str) -> bool {
    a == b || a.len() <= 64 && b.len() <= 64 && a.trim_end_matches('\0') == b.trim_end_matches('\0')
}

pub fn lib_error(e: &str) -> &'static str {
    match e {
        E_MISSING => "KeyMissing",
        E_NOALIAS => "NoSuchAlias",
        E_SELF => "AliasToSelf",
        E_HASPW => "SiteHasPasswords",
        E_LOCKED => "PasswordsLocked",
        E_UNINIT => "StorageNotInitialized",
        E_WRONGPW => "DecryptionFailure",
        _ => "?",
    }
}

const QUESTIONS: [&str; 3] = [
    "Changing primary password will remove all existing data. Continue? (y/N) ",
    "A password with this domain/name/revision combination already exists. Overwrite? (y/N) ",
    "You entered some additional data however. Ignore the extra data and decode the recovery code? (Y/n) ",
];
const SIMPLE: [&str; 6] = [
    "Your primary password: ",
    "New primary password: ",
    "Repeat primary password: ",
    "Password to be stored: ",
    "Please enter new notes to be stored:",
    "Next line of your recovery code (empty line to abort): ",
];

fn strip_prompts(s: &str) -> String {
    let mut s = s.to_string();
    while let Some(i) = s.find("The following seems to be a valid recovery code:\n") {
        match s[i..].find(QUESTIONS[2]) {
            Some(j) => s.replace_range(i..i + j + QUESTIONS[2].len(), ""),
            None => break,
        }
    }
    for p in QUESTIONS.iter().chain(SIMPLE.iter()) {
        s = s.replace(p, "");
    }
    s
}

fn benign(f: &str) -> bool {
    // interrupted and short transfers are to be continued
    let kind = f.split(" at ").next().unwrap_or("");
    kind.ends_with(" short") || kind.ends_with(" EINTR")
}
fn op_kind(c: &Option<Cmd>) -> &'static str {
    match c {
        None => "start",
        Some(c) => match c {
            Cmd::SetPrimary { .. } => "set-primary",
            Cmd::Add { cs: 0, .. } => "add-nochars",
            Cmd::Add { .. } => "add",
            Cmd::Store { code: Some(_), .. } => "recover",
            Cmd::Store { .. } => "add-stored",
            Cmd::Remove { .. } => "remove",
            Cmd::Show { qr: true, .. } => "show-qr",
            Cmd::Show { .. } => "show",
            Cmd::Bad { .. } => "bad",
            Cmd::Notes { set: None, .. } => "notes",
            Cmd::Notes { .. } => "set-notes",
            Cmd::List { .. } => "list",
            Cmd::Alias { target: Some(_), .. } => "set-alias",
            Cmd::Alias { remove: true, .. } => "remove-alias",
            Cmd::Alias { .. } => "alias",
            Cmd::Raw { .. } => "raw",
            Cmd::Lock => "lock",
            Cmd::Exit => "exit",
            Cmd::Unlock { .. } => "unlock",
            Cmd::Load => "load",
            Cmd::Has { .. } => "has",
            Cmd::Decode { .. } => "decode",
        },
    }
}
fn state_tags(k: &str) -> &'static [&'static str] {
    match k {
        "set-alias" | "remove-alias" | "alias" => &["C05"],
        "list" => &["C07"],
        "set-primary" => &["C11"],
        "lock" | "unlock" => &["C11"],
        "recover" => &["C12"],
        "bad" | "add-nochars" => &["C24"],
        _ => &["C04"],
    }
}
fn success_text(c: &Cmd, path: &str) -> Option<String> {
    Some(match c {
        Cmd::SetPrimary { .. } => format!("New primary password set for {}.\n", path),
        Cmd::Add { .. } | Cmd::Store { .. } => "Password added.\n".into(),
        Cmd::Remove { .. } => "Password removed.\n".into(),
        Cmd::Notes { set: Some(t), .. } => if t.is_empty() { "Notes removed.\n" } else { "Notes stored.\n" }.into(),
        Cmd::Alias { target: Some(_), .. } => "Alias added.\n".into(),
        Cmd::Alias { remove: true, .. } => "Alias removed.\n".into(),
        _ => return None,
    })
}
/// What showing the password in plain would have printed
pub fn qr_as_text(out: &str) -> String {
    match out.strip_prefix("Password retrieved.\n").map(qr::decode) {
        Some(Ok(p)) => format!("Password retrieved.{}\n", p),
        _ => out.into(),
    }
}
fn yes(a: &str) -> Option<bool> {
    match a.trim().to_lowercase().as_str() {
        "yes" | "y" => Some(true),
        "no" | "n" => Some(false),
        _ => None,
    }
}

pub struct Damage {
    orig_bytes: Vec<u8>,
    orig: FileState,
    /// what the true vault is by now, and the stored values it consists of
    truth: Vault,
    raw: BTreeMap<String, String>,
    hmac: Vec<u8>,
    key: Vec<u8>,
    /// entries replaced since: one whose key was damaged may still be listed
    past: Vec<(Id, Pw)>,
    past_aliases: Vec<(String, String)>,
    past_plain: Vec<String>,
}

pub struct Run<'a> {
    pub env: Env<'a>,
    plan: &'a Plan,
    real: String,
    model: FileState,
    unsure: Vec<FileState>,
    carry: BTreeSet<String>,
    viols: Vec<Viol>,
    nonces: BTreeMap<(Vec<u8>, Vec<u8>), String>,
    salts: BTreeMap<Vec<u8>, Vec<u8>>,
    random: BTreeSet<Vec<u8>>,
    states: BTreeSet<u64>,
    damage: Option<Damage>,
    leftovers: BTreeSet<String>,
    powers: u64,
    histories: BTreeSet<String>,
    mem_names: Vec<String>,
    /// states that were in the file once
    past: Vec<FileState>,
    hist_inos: BTreeSet<u64>,
    step: usize,
    ops: u64,
    invalid: bool,
}

/// The lines of a history file, and whether all of it could be read.
fn parse_history(b: &[u8]) -> (Vec<String>, bool) {
    let mut v: Vec<String> = vec![];
    let mut v2 = false;
    for (i, l) in b.split(|c| *c == b'\n').enumerate() {
        let Ok(l) = std::str::from_utf8(l) else { return (v, false) };
        let l = l.strip_suffix('\r').unwrap_or(l);
        if i == 0 && l == "#V2" {
            v2 = true;
            continue;
        }
        let mut l = l.to_string();
        if v2 {
            let mut out = String::new();
            let mut it = l.chars();
            let mut good = true;
            while let Some(c) = it.next() {
                match c {
                    '\\' => match it.next() {
                        Some('n') => out.push('\n'),
                        Some('\\') => out.push('\\'),
                        _ => {
                            good = false;
                            break;
                        }
                    },
                    c => out.push(c),
                }
            }
            if good {
                l = out;
            }
        }
        if !l.is_empty() && v.last() != Some(&l) {
            v.push(l);
        }
        if v.len() > 100 {
            v.remove(0);
        }
    }
    (v, true)
}

/// the clean-up of `list` may find nothing to remove
fn may_clean(cmd: &Cmd, vault: &Option<Vault>) -> bool {
    match (cmd, vault) {
        (Cmd::List { site, name, .. }, Some(v)) => name == "*" && v.listed(site).0.iter().any(|x: &String| !v.has_pws(x)),
        _ => false,
    }
}

/// The symbolic links of a plan, with absolute locations.
fn links(plan: &Plan, cwd: &str) -> Vec<(String, String)> {
    match &plan.link_to {
        None => vec![],
        Some(real) if plan.via.is_empty() => {
            let at = if plan.path.starts_with('/') { plan.path.clone() } else { format!("{}/{}", cwd, plan.path) };
            vec![(at, real.clone())]
        }
        Some(_) => plan.via.clone(),
    }
}

#[path = "play.rs"]
mod play;
pub use play::execute;

impl<'a> Run<'a> {
    pub fn new(z: &'a mut Zygotes, plan: &'a Plan, log: bool) -> Run<'a> {
        let mut w = World::new(plan.personality, plan.entropy, plan.clock);
        w.frozen_clock = plan.frozen;
        w.same_pid = plan.frozen;
        if log {
            w.log = Some(vec![]);
        }
        if plan.property == "C08" {
            w.writes = Some(vec![]);
        }
        let mut real = plan.link_to.clone().unwrap_or(plan.path.clone());
        if !real.starts_with('/') {
            real = format!("{}/{}", w.cwd, real);
        }
        let mut model = FileState::Absent;
        if let Some(i) = &plan.initial {
            let mut v = Vault { primary: i.primary.clone(), ..Default::default() };
            for (s, a) in &i.sites {
                v.sites.insert(s.clone(), a.clone());
            }
            for e in &i.pws {
                v.pws.insert((e.site.clone(), e.name.clone(), e.rev.clone()), e.pw.clone());
            }
            for (k, x) in &i.foreign {
                v.foreign.insert(k.clone(), x.clone());
            }
            let b = refimpl::encode(&v, plan.shift, &mut Rng::new(i.seed), i.fancy, i.fancy && !plan.memory);
            w.fs.put(&real, Kind::File(b), plan.mode.unwrap_or(0o644));
            model = FileState::Vault(v);
        }
        if plan.link_to.is_some() {
            w.fs.mkdirs(real.rsplit_once('/').unwrap().0);
            for (at, to) in links(plan, &w.cwd) {
                w.fs.put(&at, Kind::Symlink(to), 0o777);
            }
        }
        w.fs.sync_all();
        let mut r = Run {
            env: Env { z, w, shift: plan.shift, needles: vec![] },
            plan,
            real,
            model,
            unsure: vec![],
            carry: BTreeSet::new(),
            viols: vec![],
            nonces: BTreeMap::new(),
            salts: BTreeMap::new(),
            random: BTreeSet::new(),
            states: BTreeSet::new(),
            damage: None,
            leftovers: BTreeSet::new(),
            powers: 0,
            histories: BTreeSet::new(),
            mem_names: vec![],
            past: vec![],
            hist_inos: BTreeSet::new(),
            step: 0,
            ops: 0,
            invalid: false,
        };
        let steps = r.plan.steps.clone();
        for st in &steps {
            let specs: &[Spec] = match st {
                Step::Run(s) => std::slice::from_ref(s),
                Step::Conc { procs, .. } => procs,
                _ => &[],
            };
            for s in specs.iter().filter(|s| s.mode == Mode::Shell) {
                let h = r.absolute(s.history.as_deref().unwrap_or(HISTORY));
                r.histories.insert(h);
            }
        }
        for h in r.histories.clone() {
            match &r.plan.history {
                Some(Hist::File(b, m)) => r.env.w.fs.put(&h, Kind::File(b.clone()), *m),
                Some(Hist::Dir) => r.env.w.fs.put(&h, Kind::Dir(Default::default()), 0o755),
                None => continue,
            };
        }
        r.env.w.fs.sync_all();
        let m = r.model.clone();
        r.accept_file(&m, &[], "initial");
        if !r.viols.is_empty() {
            // not a plan that can be judged
            r.viols.clear();
            r.invalid = true;
            *r.env.w.stats.probes.entry("plan-invalid".into()).or_default() += 1;
        }
        r.random.clear();
        r
    }

    fn viol(&mut self, props: &[&str], sig: &str, msg: String) {
        let mut p: BTreeSet<String> = props.iter().map(|s| s.to_string()).collect();
        p.extend(self.carry.iter().cloned());
        let v = Viol { props: p.into_iter().collect(), sig: sig.to_string(), msg, step: self.step };
        self.env.w.note(&format!("VIOLATION {:?} {} {}", v.props, v.sig, v.msg));
        self.viols.push(v);
    }

    fn absolute(&self, p: &str) -> String {
        if p.starts_with('/') { p.to_string() } else { format!("{}/{}", self.env.w.cwd, p) }
    }
    fn bytes(&self) -> Option<Vec<u8>> {
        self.env.w.fs.get(&self.real).map(|b| b.to_vec())
    }

    fn matches(&self, bytes: Option<&[u8]>, st: &FileState) -> Result<Option<refimpl::Decoded>, String> {
        match (bytes, st) {
            (None, FileState::Absent) => Ok(None),
            (None, _) => Err("the file does not exist".into()),
            (Some(_), FileState::Absent) => Err("the file exists".into()),
            (Some(b), FileState::Broken(x)) => if b == &x[..] { Ok(None) } else { Err("the file has changed".into()) },
            (Some(b), FileState::Vault(v)) => {
                let d = refimpl::decode(b, &v.primary, self.env.shift, &v.foreign)?;
                match v.diff(&d.vault) {
                    None => Ok(Some(d)),
                    Some(e) => Err(e),
                }
            }
        }
    }

    fn register(&mut self, d: &refimpl::Decoded) {
        self.register_salt(&d.salt, &d.hmac);
        for (k, n) in &d.nonces {
            let val = d.raw.get(k).cloned().unwrap_or_default();
            self.register_nonce(&d.key, n, &format!("{} {}", k, val.trim_end_matches('=')));
        }
    }
    fn register_salt(&mut self, salt: &[u8], hmac: &[u8]) {
        let before: Option<(bool, bool)> = match self.salts.get(salt) {
            Some(h) if h == hmac => None,
            o => Some((o.is_some(), self.salts.values().any(|h| h == hmac))),
        };
        if let Some((s, h)) = before {
            self.random.insert(salt.to_vec());
            self.random.insert(hmac.to_vec());
            self.salts.insert(salt.to_vec(), hmac.to_vec());
            if s || h {
                self.viol(&["C09"], "reuse-init", "an initialisation reuses a salt or key secret".into());
            }
            if salt.iter().all(|b| *b == salt[0]) || hmac.iter().all(|b| *b == hmac[0]) {
                self.viol(&["C09"], "constant", format!("salt {:?} or key secret {:?} is constant", salt, hmac));
            }
        }
    }
    fn register_nonce(&mut self, key: &[u8], nonce: &[u8], what: &str) {
        let old = self.nonces.insert((key.to_vec(), nonce.to_vec()), what.to_string());
        if old.is_none() {
            self.random.insert(nonce.to_vec());
        }
        match old {
            Some(old) if old != what => {
                self.viol(&["C09"], "reuse-nonce", format!("nonce {:02x?} is used for {:?} and for {:?}", nonce, old, what))
            }
            _ => {
                if nonce.iter().all(|b| *b == nonce[0]) {
                    self.viol(&["C09"], "constant", format!("nonce {:02x?} is constant", nonce));
                }
            }
        }
    }

    /// Checks that the file holds this state and makes it the model.
    fn accept_file(&mut self, st: &FileState, tags: &[&str], sig: &str) -> bool {
        let b = self.bytes();
        match self.matches(b.as_deref(), st) {
            Ok(d) => {
                if let Some(d) = d {
                    self.register(&d);
                    if let FileState::Vault(v) = st {
                        let mut v = v.clone();
                        v.sites = d.vault.sites.clone();
                        self.model = FileState::Vault(v);
                    }
                } else {
                    self.model = st.clone();
                }
                true
            }
            Err(e) => {
                self.viol(tags, sig, e);
                false
            }
        }
    }

    // ---------------------------------------------------------------- the expected dialogue
    fn unlock(&self, d: &mut Dlg, s: &mut Sess) -> Result<bool, (Ask, String)> {
        let Some(v) = s.mem.vault().cloned() else {
            d.err.push_str(E_UNINIT);
            d.err.push('\n');
            return Ok(false);
        };
        while !s.unlocked {
            match d.ask(Ask::Primary)? {
                None => {
                    d.any_err = true;
                    return Ok(false);
                }
                Some(p) => {
                    let p = p.trim();
                    if p.len() < 6 {
                        d.err.push_str(&format!("{}\n", E_SHORT));
                    } else if same_primary(p, &v.primary) {
                        s.unlocked = true;
                    } else {
                        d.err.push_str(&format!("{}\n", E_WRONGPW));
                    }
                }
            }
        }
        Ok(true)
    }
    fn question(&self, d: &mut Dlg, default: bool) -> Result<bool, (Ask, String)> {
        loop {
            match d.ask(Ask::Question)? {
                None => return Ok(false),
                Some(a) if a.trim().is_empty() => return Ok(default),
                Some(a) => {
                    if let Some(y) = yes(&a) {
                        return Ok(y);
                    }
                }
            }
        }
    }

    fn expect(&self, op: &OpRec, s: &Sess, spec: &Spec) -> Result<Exp, (Ask, String)> {
        let cmd = op.cmd.as_ref().unwrap();
        let mut d = Dlg {
            prompts: op.prompts.iter().filter(|p| p.ask != Ask::Line && p.ask != Ask::Unknown).collect(),
            err: String::new(),
            any_err: false,
            failed: false,
        };
        if let Some(p) = op.prompts.iter().find(|p| p.ask == Ask::Unknown) {
            return Err((p.ask, "reads input without asking".into()));
        }
        if spec.mode == Mode::Lib {
            return Ok(self.expect_lib(cmd, s));
        }
        let mut s2 = Sess { mem: s.mem.clone(), unlocked: s.unlocked, loaded: true, rekeyed: false };
        if let Some(p) = op.prompts.iter().find(|p| p.ask == Ask::Line) {
            let mut e = Exp { out: vec![vec![]], err: None, ok: false, after: None, unlocked: s.unlocked, lib: None, ends: None };
            match p.got {
                Got::Text(_) => {}
                Got::Eof => {
                    e.ok = true;
                    e.ends = Some(0);
                    return Ok(e);
                }
                Got::Err => {
                    e.ends = Some(1);
                    return Ok(e);
                }
                Got::Bad(_) => return Ok(e),
            }
        }
        let e = self.expect_text(cmd, &mut s2, spec, &mut d)?;
        if let Some(p) = d.prompts.front() {
            return Err((p.ask, format!("asks {:?} needlessly", p.ask)));
        }
        Ok(e)
    }

    fn expect_text(&self, cmd: &Cmd, s: &mut Sess, spec: &Spec, d: &mut Dlg) -> Result<Exp, (Ask, String)> {
        let text = |t: String| if t.is_empty() { vec![vec![]] } else { vec![vec![Piece::Text(t)]] };
        let mut e = Exp { out: text(String::new()), err: Some(String::new()), ok: true, after: None, unlocked: false, lib: None, ends: None };
        macro_rules! done {
            () => {{
                e.unlocked = s.unlocked;
                if d.failed {
                    e.ok = false;
                }
                e.err = if d.any_err { None } else { Some(d.err.clone()) };
                return Ok(e);
            }};
        }
        macro_rules! fail {
            ($m:expr) => {{
                e.ok = false;
                d.err.push_str(&format!("{}\n", $m));
                done!()
            }};
        }
        if matches!(cmd, Cmd::Bad { .. }) {
            e.ok = false;
            d.any_err = true;
            done!()
        }
        if spec.mode == Mode::Shell {
            match cmd {
                Cmd::Lock => {
                    s.unlocked = false;
                    e.out = text("Passwords locked.\n".into());
                    done!()
                }
                Cmd::Exit => {
                    d.any_err = true;
                    e.ends = Some(0);
                    done!()
                }
                Cmd::SetPrimary { .. } => fail!("You cannot change primary password from a shell."),
                Cmd::Raw { line } => {
                    e.ok = false;
                    if line.trim_start().starts_with("shell") {
                        fail!("You cannot run a shell from a shell.");
                    }
                    if line.trim_start().starts_with("set-primary") {
                        fail!("You cannot change primary password from a shell.");
                    }
                    d.any_err = true;
                    done!()
                }
                _ => {}
            }
        }
        if let Cmd::SetPrimary { yes, .. } = cmd {
            if s.mem != FileState::Absent && !yes && !self.question(d, false)? {
                done!()
            }
            let Some(p1) = d.ask(Ask::NewPrimary)? else {
                d.any_err = true;
                e.ok = false;
                done!()
            };
            if p1.trim().len() < 6 {
                fail!(E_SHORT);
            }
            let Some(p2) = d.ask(Ask::Repeat)? else {
                d.any_err = true;
                e.ok = false;
                done!()
            };
            if p1.trim() != p2.trim() {
                fail!(E_MATCH);
            }
            e.after = Some(FileState::Vault(Vault { primary: p1.trim().to_string(), ..Default::default() }));
            e.out = text(format!("New primary password set for {}.\n", spec.path.as_ref().unwrap_or(&self.plan.path)));
            s.unlocked = true;
            done!()
        }
        if matches!(s.mem, FileState::Absent) {
            fail!("Failed reading storage file (No such file or directory (os error 2)). Maybe use set-primary subcommand first?");
        }
        if matches!(s.mem, FileState::Broken(_)) {
            d.any_err = true;
            e.ok = false;
            done!()
        }
        if !self.unlock(d, s)? {
            e.ok = false;
            done!()
        }
        let v = s.mem.vault().unwrap().clone();
        match cmd {
            Cmd::Add { site, name, rev, yes, .. } | Cmd::Store { site, name, rev, yes, .. } => {
                if matches!(cmd, Cmd::Add { cs: 0, .. }) {
                    fail!(E_NOCHARS);
                }
                let id = v.id(site, name, rev);
                if !yes && v.pws.contains_key(&id) && !self.question(d, false)? {
                    done!()
                }
                let mut c = cmd.clone();
                if let Cmd::Store { pw, code, .. } = &mut c {
                    if code.is_none() {
                        match d.ask(Ask::Value)? {
                            Some(t) => *pw = t.trim().to_string(),
                            None => {
                                d.any_err = true;
                                e.ok = false;
                                done!()
                            }
                        }
                    } else {
                        let mut accepted = String::new();
                        loop {
                            let line = d.ask(Ask::Code)?.unwrap_or_default();
                            let line = line.trim();
                            if line.is_empty() {
                                d.any_err = true;
                                e.ok = false;
                                done!()
                            }
                            let code = format!("{}{}", accepted, line);
                            let f = refimpl::recovery_format(&code);
                            let first = |n: usize| f.split('\n').take(n).collect::<Vec<_>>().join("\n");
                            match refimpl::recovery_judge(&code, &v.primary, self.env.shift) {
                                refimpl::Rc::Ok(p) => {
                                    *pw = p;
                                    break;
                                }
                                refimpl::Rc::Extra(n) => {
                                    let yes = self.question(d, true)?;
                                    match refimpl::recovery_judge(&first(n), &v.primary, self.env.shift) {
                                        refimpl::Rc::Ok(p) if yes => {
                                            *pw = p;
                                            break;
                                        }
                                        _ => {
                                            d.any_err = true;
                                            e.ok = false;
                                            done!()
                                        }
                                    }
                                }
                                refimpl::Rc::Mismatch(n) => {
                                    accepted = first(n);
                                    d.err.push_str(&if n == 0 {
                                        "The data you entered doesn't seem valid, please try again.\n\n".to_string()
                                    } else {
                                        format!("The following lines were accepted:\n{}\nThe line after that doesn't seem valid, a typo maybe?\n\n", accepted)
                                    });
                                }
                                refimpl::Rc::Incomplete(_) => {
                                    accepted = f;
                                    d.err.push_str("Line accepted. The recovery code is still incomplete, please enter more data.\n\n");
                                }
                                refimpl::Rc::Bad => {
                                    d.any_err = true;
                                    e.ok = false;
                                    done!()
                                }
                            }
                        }
                    }
                }
                e.after = v.apply(&c).unwrap().map(FileState::Vault);
                e.out = text("Password added.\n".into());
                done!()
            }
            Cmd::List { site, name, show, rec, verbose } => {
                e.out = v.list_output(site, name, *show, *rec, *verbose, self.env.shift);
                e.after = v.apply(cmd).unwrap().map(FileState::Vault);
                done!()
            }
            Cmd::Notes { site, name, rev, set } => {
                let Some(pw) = v.pws.get(&v.id(site, name, rev)) else { fail!(E_MISSING) };
                let mut o = if pw.notes.is_empty() {
                    "Currently no notes are stored for this password.\n".to_string()
                } else {
                    format!("Notes for this password: {}\n", pw.notes)
                };
                if set.is_some() {
                    match d.ask(Ask::Notes)? {
                        None => {
                            e.ok = false;
                            d.any_err = true;
                        }
                        Some(t) => {
                            o.push_str(if t.is_empty() { "Notes removed.\n" } else { "Notes stored.\n" });
                            let c = Cmd::Notes { site: site.clone(), name: name.clone(), rev: rev.clone(), set: Some(t) };
                            e.after = v.apply(&c).unwrap().map(FileState::Vault);
                        }
                    }
                }
                e.out = text(o);
                done!()
            }
            _ => {}
        }
        match v.apply(cmd) {
            Err(m) => fail!(m),
            Ok(a) => {
                e.after = a.map(FileState::Vault);
                if let Cmd::Show { site, name, rev, qr: true } = cmd {
                    let p = v.value(&v.id(site, name, rev), self.env.shift).unwrap();
                    if let Some(x) = qr::excess(&p) {
                        e.out = text("Password retrieved.".into());
                        fail!(format!("Error generating QR code: {}", x))
                    }
                    e.out = vec![vec![Piece::Text("Password retrieved.\n".into()), Piece::Qr(p)]];
                    done!()
                }
                e.out = text(match cmd {
                    Cmd::Show { site, name, rev, .. } => {
                        format!("Password retrieved.{}\n", v.value(&v.id(site, name, rev), self.env.shift).unwrap())
                    }
                    Cmd::Alias { site, target: None, remove: false } => {
                        format!("'{}' is an alias for '{}'.\n", site, v.sites[&norm_site(site)].as_ref().unwrap())
                    }
                    c => success_text(c, "").unwrap_or_default(),
                });
                done!()
            }
        }
    }

    fn expect_lib(&self, cmd: &Cmd, s: &Sess) -> Exp {
        use serde_json::json;
        let mut e = Exp { out: vec![], err: None, ok: true, after: None, unlocked: s.unlocked, lib: None, ends: None };
        macro_rules! ret {
            ($l:expr) => {{
                let l = $l;
                e.ok = !matches!(l, LibExp::Err(_));
                e.lib = Some(l);
                return e;
            }};
        }
        let unit = || LibExp::Val(json!(true));
        if let Cmd::Load = cmd {
            e.unlocked = false;
            match &s.mem {
                FileState::Absent | FileState::Vault(_) => ret!(unit()),
                FileState::Broken(_) => {
                    e.ok = false;
                    e.lib = Some(LibExp::Any);
                    return e;
                }
            }
        }
        if !s.loaded {
            ret!(LibExp::Err("NoSession"));
        }
        match cmd {
            Cmd::Raw { .. } | Cmd::Bad { .. } | Cmd::Exit => ret!(LibExp::Val(json!([s.mem.vault().is_some(), s.unlocked]))),
            Cmd::Lock => {
                e.unlocked = false;
                ret!(unit())
            }
            Cmd::Unlock { pw } => match s.mem.vault() {
                None => ret!(LibExp::Err("StorageNotInitialized")),
                Some(v) if same_primary(pw, &v.primary) => {
                    e.unlocked = true;
                    ret!(unit())
                }
                _ => ret!(LibExp::Err("DecryptionFailure")),
            },
            Cmd::SetPrimary { pw, .. } => {
                e.unlocked = true;
                e.after = Some(FileState::Vault(Vault { primary: pw.clone(), ..Default::default() }));
                ret!(unit())
            }
            _ => {}
        }
        if !s.unlocked {
            ret!(LibExp::Err("PasswordsLocked"));
        }
        let v = s.mem.vault().unwrap();
        match cmd {
            Cmd::List { site, name, .. } => ret!(LibExp::List(site.clone(), name.clone())),
            Cmd::Has { site, name, rev } => ret!(LibExp::Val(json!(v.pws.contains_key(&v.id(site, name, rev))))),
            Cmd::Decode { code } => match refimpl::recovery_judge(code, &v.primary, self.env.shift) {
                refimpl::Rc::Ok(p) => ret!(LibExp::Val(json!(p))),
                refimpl::Rc::Incomplete(_) => ret!(LibExp::Err("RecoveryCodeIncomplete")),
                refimpl::Rc::Mismatch(_) => ret!(LibExp::Err("RecoveryCodeChecksumMismatch")),
                refimpl::Rc::Extra(_) => ret!(LibExp::Err("RecoveryCodeExtraData")),
                refimpl::Rc::Bad => {
                    e.ok = false;
                    e.lib = Some(LibExp::Any);
                    return e;
                }
            },
            _ => {}
        }
        match v.apply(cmd) {
            Err(m) => ret!(LibExp::Err(lib_error(m))),
            Ok(a) => {
                e.after = a.map(FileState::Vault);
                ret!(match cmd {
                    Cmd::Show { site, name, rev, .. } => LibExp::Val(json!(v.value(&v.id(site, name, rev), self.env.shift).unwrap())),
                    Cmd::Notes { site, name, rev, set: None } => LibExp::Val(json!(v.pws[&v.id(site, name, rev)].notes)),
                    Cmd::Alias { site, target: None, remove: false } =>
                        LibExp::Val(json!(v.sites[&norm_site(site)].as_ref().unwrap())),
                    _ => unit(),
                })
            }
        }
    }

    /// Does the answer agree with what was expected?
    fn check_answer(&mut self, op: &OpRec, e: &Exp, v: Option<&Vault>, spec: &Spec) -> Result<(), String> {
        if spec.mode == Mode::Lib {
            let t = op.text();
            let got: serde_json::Value = serde_json::from_str(t.trim()).map_err(|_| format!("no proper answer: {:?}", t))?;
            return match e.lib.as_ref().unwrap() {
                LibExp::Any => {
                    if got.get("err").is_some() { Ok(()) } else { Err(format!("succeeds: {}", got)) }
                }
                LibExp::Err(n) => {
                    if got.get("err").and_then(|x| x.as_str()) == Some(n) {
                        Ok(())
                    } else {
                        Err(format!("answers {} instead of the error {}", got, n))
                    }
                }
                LibExp::Val(x) => {
                    if got.get("ok") == Some(x) { Ok(()) } else { Err(format!("answers {} instead of {}", got, x)) }
                }
                LibExp::List(sp, np) => {
                    let got = got.get("ok").cloned().ok_or(format!("answers {} instead of a list", got))?;
                    self.check_lib_list(&got, sp, np, v.unwrap())
                }
            };
        }
        let (primary, salt) = match v {
            Some(v) => (v.primary.clone(), self.salt()),
            None => (String::new(), vec![]),
        };
        let out = strip_prompts(&op.text());
        let nonces = match_pieces(&e.out, &out, &primary, &salt, self.env.shift).map_err(|m| format!("output: {}", m))?;
        for n in nonces {
            let key = refimpl::vault_key(&primary, &salt, self.env.shift);
            self.register_nonce(&key, &n, &format!("recovery code of operation {}", self.ops));
        }
        if let Some(x) = &e.err {
            let got = op.etext();
            if got != *x {
                return Err(format!("standard error is {:?} instead of {:?}", got, x));
            }
        } else if !e.ok && op.err.is_empty() && !matches!(op.cmd, Some(Cmd::Exit)) {
            return Err("fails without an error message".into());
        }
        Ok(())
    }
    fn salt(&self) -> Vec<u8> {
        self.bytes()
            .and_then(|b| refimpl::raw_map(&b).ok())
            .and_then(|r| r.get("salt").cloned())
            .and_then(|s| base64::decode(s).ok())
            .unwrap_or_default()
    }
    fn check_lib_list(&mut self, got: &serde_json::Value, sp: &str, np: &str, v: &Vault) -> Result<(), String> {
        let a = got.as_array().ok_or("no list")?;
        let mut want: BTreeMap<String, Option<String>> = BTreeMap::new();
        for (s, al) in &v.sites {
            if wild(sp, s) || al.as_ref().map_or(false, |x| wild(sp, x)) {
                want.insert(s.clone(), al.clone());
            }
        }
        let mut last = String::new();
        for x in a {
            let s = x[0].as_str().unwrap_or("").to_string();
            let al = x[1].as_str().map(|s| s.to_string());
            if s <= last && !last.is_empty() {
                return Err(format!("site {:?} is listed twice", s));
            }
            last = s.clone();
            if want.remove(&s) != Some(al.clone()) {
                return Err(format!("lists site {:?} with alias {:?}", s, al));
            }
            // an alias has the passwords of what it stands for
            let s = al.unwrap_or(s);
            let mut pws: BTreeMap<(String, String), &Pw> =
                v.pws.iter().filter(|(k, _)| k.0 == s && wild(np, &k.1)).map(|(k, p)| ((k.1.clone(), k.2.clone()), p)).collect();
            for p in x[2].as_array().ok_or("no list")? {
                let id = (p[0].as_str().unwrap_or("?").to_string(), p[1].as_str().unwrap_or("?").to_string());
                let Some(w) = pws.remove(&id) else { return Err(format!("lists password {:?} of {:?} wrongly", id, s)) };
                let j = &p[2];
                if j["site"].as_str() != Some(&s) || j["notes"].as_str() != Some(&w.notes) {
                    return Err(format!("lists {:?} of {:?} as {}", id, s, j));
                }
                let ok = match &w.kind {
                    PwKind::Gen { len, cs } => {
                        let c: Vec<bool> = (0..4).map(|i| cs >> i & 1 == 1).collect();
                        j["len"] == serde_json::json!(len) && j["cs"] == serde_json::json!(c)
                    }
                    PwKind::Stored(t) => {
                        let code = j["code"].as_str().unwrap_or("");
                        match refimpl::recovery_decode(code, &v.primary, self.env.shift) {
                            Some((salt, n, pt)) if pt == *t => {
                                let key = refimpl::vault_key(&v.primary, &salt, self.env.shift);
                                self.register_nonce(&key, &n, &format!("recovery code {}", code));
                            }
                            o => return Err(format!("recovery code {:?} decodes to {:?}", code, o)),
                        }
                        j["pw"].as_str() == Some(t)
                    }
                };
                if !ok {
                    return Err(format!("lists {:?} of {:?} as {} instead of {:?}", id, s, j, w));
                }
            }
            if let Some(id) = pws.keys().next() {
                return Err(format!("does not list {:?} of {:?}", id, s));
            }
        }
        match want.iter().find(|(s, a)| a.is_some() || v.has_pws(s)) {
            Some((s, _)) => Err(format!("does not list site {:?}", s)),
            None => Ok(()),
        }
    }

    /// The storage keys a command may add, remove or replace.
    fn allowed_keys(&self, cmd: &Cmd, v: &Vault, after: &Vault, hmac: &[u8]) -> BTreeSet<String> {
        let mut k = BTreeSet::new();
        let sk = |s: &str| refimpl::site_key(hmac, s);
        match cmd {
            Cmd::Add { site, name, rev, .. } | Cmd::Store { site, name, rev, .. } => {
                let id = v.id(site, name, rev);
                if !v.sites.contains_key(&id.0) {
                    k.insert(sk(&id.0));
                }
                k.insert(refimpl::pw_key(hmac, &id.0, &id.1, &id.2));
            }
            Cmd::Remove { site, name, rev } | Cmd::Notes { site, name, rev, .. } => {
                let id = v.id(site, name, rev);
                k.insert(refimpl::pw_key(hmac, &id.0, &id.1, &id.2));
            }
            Cmd::Alias { .. } | Cmd::List { .. } => {
                for (s, a) in v.sites.iter().chain(after.sites.iter()) {
                    if v.sites.get(s) != after.sites.get(s) {
                        k.insert(sk(s));
                    }
                    let _ = a;
                }
            }
            _ => {}
        }
        if let Cmd::Alias { site, .. } = cmd {
            k.insert(sk(&norm_site(site)));
        }
        k
    }

    fn check_raw(&mut self, op: &OpRec, before: &Vault, after: &Vault) {
        let (Some(b), Some(a)) = (&op.before, &op.after) else { return };
        let (Ok(rb), Ok(ra)) = (refimpl::raw_map(b), refimpl::raw_map(a)) else { return };
        let Ok(d) = refimpl::decode(b, &before.primary, self.env.shift, &before.foreign) else { return };
        let allowed = self.allowed_keys(op.cmd.as_ref().unwrap(), before, after, &d.hmac);
        for k in rb.keys().chain(ra.keys()).collect::<BTreeSet<_>>() {
            if rb.get(k) != ra.get(k) && !allowed.contains(k) {
                let what = if k == "salt" || k == "hmac-secret" { k.as_str() } else { "entry" };
                self.viol(
                    &["C06"],
                    &format!("raw-{}", what),
                    format!("{:?} changes the stored value of {} from {:?} to {:?}", op.cmd, k, rb.get(k), ra.get(k)),
                );
                return;
            }
        }
    }

    // ---------------------------------------------------------------- judging
    fn tags_for(&self, op: &OpRec) -> Vec<&'static str> {
        let mut t = vec![];
        for f in &op.fired {
            let (kind, call) = f.split_once(" at ").unwrap_or((f, ""));
            let c = kind.split(' ').next().unwrap_or("");
            let mutating = call.starts_with("write") || call.starts_with("fsync") || call.starts_with("rename")
                || call.starts_with("mkdir") || call.starts_with("unlink") || call.starts_with("symlink");
            t.push(match c {
                "Rand" => "C09",
                "Stdout" | "Stderr" => "C21",
                "Stdin" | "Tty" => "C13",
                "Read" => "C22",
                _ if mutating => "C03",
                "Open" if call.ends_with(" 0") || call.ends_with(" 0o0") => "C22",
                "Open" | "Write" | "Sync" | "Rename" | "Mkdir" | "Unlink" => "C03",
                "Meta" => "C03",
                _ => "C21",
            });
            if c == "Meta" {
                t.push("C22");
            }
        }
        if !op.infaults().is_empty() {
            t.push("C13");
        }
        t
    }

    fn judge_proc(&mut self, rec: &ProcRec) {
        let mut s = Sess { mem: self.model.clone(), unlocked: false, loaded: rec.spec.mode != Mode::Lib, rekeyed: false };
        let n = rec.ops.len();
        for (i, op) in rec.ops.iter().enumerate() {
            let last = i + 1 == n;
            let crashed = last && rec.end == End::Crashed;
            s.rekeyed |= i > 0 && matches!(rec.ops[i - 1].cmd, Some(Cmd::Lock | Cmd::SetPrimary { .. }));
            if !self.judge_op(rec, op, &mut s, last, crashed) {
                // the model may be off: later verdicts on contents would only be consequences
                self.judge_aside(rec);
                if rec.spec.mode == Mode::Shell {
                    self.judge_lines(rec);
                }
                return;
            }
        }
        self.after_process(rec);
    }

    /// What does not depend on the state of the vault: terminal, screen, memory.
    fn judge_aside(&mut self, rec: &ProcRec) {
        let spec = &rec.spec;
        let term_failed = rec.ops.iter().any(|o| o.fired.iter().any(|f| f.starts_with("Tty E") && !f.starts_with("Tty EINTR")));
        if !rec.echo && !matches!(rec.end, End::Crashed) && !term_failed {
            let sig = if rec.end == End::Signal { "echo-abort" } else { "echo" };
            self.viol(&["C13", "C25"], sig, format!("the terminal's echo is off after {:?}", rec.end));
        }
        if rec.echoed {
            self.viol(&["C25"], "echo-read", "a secret is typed visibly".into());
        }
        if rec.unseen && !term_failed {
            self.viol(&["C25"], "echo-late", "the terminal's echo is off while something else is asked for".into());
        }
        if self.plan.property == "C25" && spec.mode != Mode::Lib {
            self.judge_screen(rec);
        }
        if self.plan.memory && matches!(rec.end, End::Exit(_)) {
            self.judge_memory(rec);
        }
    }

    /// False if a violation makes it pointless to go on.
    fn judge_op(&mut self, rec: &ProcRec, op: &OpRec, s: &mut Sess, last: bool, crashed: bool) -> bool {
        self.ops += 1;
        let spec = &rec.spec;
        let kind = op_kind(&op.cmd);
        let serious: Vec<&String> = op.fired.iter().filter(|f| !benign(f)).collect();
        let in_dist = serious.iter().any(|f| f.starts_with("Stdin") || f.starts_with("Tty"));
        let disturbed = !serious.is_empty() || crashed;
        let mut tags: Vec<&str> = self.tags_for(op);
        if crashed {
            tags.push("C01");
        }
        match kind {
            "bad" | "add-nochars" => tags.push("C24"),
            "show-qr" => tags.push("C23"),
            _ => {}
        }
        let st = hash_str(&format!(
            "{:?} {} {:?} {} {:?}",
            spec.mode,
            kind,
            s.mem.vault().map(|v| (v.pws.len().min(6), v.aliases().len().min(3), v.sites.len().min(6))),
            s.unlocked,
            serious.iter().map(|f| f.split(" at ").next().unwrap_or("")).collect::<Vec<_>>()
        ));
        self.states.insert(st);
        if spec.mode == Mode::Shell {
            tags.push("C19");
        }
        if last && rec.end == End::Hang {
            let mut t = tags.clone();
            t.extend(["C13", "C21"]);
            self.viol(&t, &format!("hang-{}", kind), format!("{:?} does not come to an end; {}", op.cmd, op.show()));
            return false;
        }
        let abort_ok = op.out_failed
            || serious.iter().any(|f| f.starts_with("Rand") || f.starts_with("Stderr") || f.starts_with("Stdout"));
        if last && rec.end == End::Signal && !abort_ok {
            let mut t = tags.clone();
            t.push("C21");
            if !op.prompts.is_empty() {
                t.push("C13");
            }
            t.extend(state_tags(kind));
            self.viol(&t, &format!("panic-{}", kind), format!("{:?} crashes; {}", op.cmd, op.show()));
            return false;
        }
        // ---- start of a shell
        if op.cmd.is_none() {
            if op.before != op.after && crashed && rec.power {
                let b = op.after.as_deref().map(|v| &v[..]);
                let back = self.unsure.clone().into_iter().find(|a| self.matches(b, a).is_ok());
                if let Some(a) = back {
                    self.past.push(std::mem::replace(&mut self.model, a));
                    self.unsure.clear();
                    return true;
                }
            }
            if op.before != op.after {
                self.viol(&["C06", "C22", "C03"], "start-writes", "starting the shell changes the storage file".into());
                return false;
            }
            if !disturbed {
                let good = s.mem.vault().is_some();
                let entered = op.text().starts_with("Enter a command");
                if good != entered || (last && matches!(rec.end, End::Exit(0))) {
                    tags.extend(["C21", "C22"]);
                    self.viol(&tags, "shell-start", format!("the shell's start: {:?}, {}", rec.end, op.show()));
                    return false;
                }
            }
            for t in self.tags_for(op) {
                self.carry.insert(t.to_string());
            }
            return true;
        }
        let cmd = op.cmd.clone().unwrap();
        if spec.mode == Mode::Lib && cmd == Cmd::Load {
            s.mem = self.model.clone();
        }
        if matches!(cmd, Cmd::Exit) && spec.mode == Mode::Lib {
            return true;
        }
        let exp = self.expect(op, s, spec);
        let code = match rec.end {
            End::Exit(c) if last => Some(c),
            _ => None,
        };
        let changed = op.before.as_deref() != op.after.as_deref();
        let vault = s.mem.vault().cloned();
        if !disturbed {
            let e = match exp {
                Ok(e) => e,
                Err((a, m)) => {
                    let mut t = tags.clone();
                    t.push(match a {
                        Ask::Question => "C14",
                        Ask::Primary => "C11",
                        Ask::Code => "C12",
                        _ => "C13",
                    });
                    t.push("C21");
                    self.viol(&t, &format!("prompts-{}", kind), format!("{:?} {}; {}", cmd, m, op.show()));
                    return false;
                }
            };
            let mut ok = true;
            // the file
            match &e.after {
                None => {
                    // the clean-up of `list` may find nothing to remove
                    let may = may_clean(&cmd, &vault);
                    let changed = changed && !self.idle(&cmd, op, s);
                    let muts = op.muts > 0 && !may && (spec.mode != Mode::Shell || e.ends.is_none());
                    if changed || muts {
                        let mut t = tags.clone();
                        t.push("C06");
                        if changed {
                            t.extend(state_tags(kind));
                            if !e.ok || matches!(cmd, Cmd::Add { .. } | Cmd::Store { .. } | Cmd::SetPrimary { .. }) {
                                t.extend(["C14", "C11", "C21"]);
                            }
                        }
                        self.viol(&t, &format!("writes-{}", kind), format!("{:?} is to change nothing but writes; {}", cmd, op.show()));
                        ok = false;
                    }
                }
                Some(a) => {
                    let before = s.mem.clone();
                    let mut t = tags.clone();
                    t.extend(state_tags(kind));
                    t.extend(["C20", "C21", "C02"]);
                    if s.rekeyed {
                        t.push("C11");
                    }
                    if kind == "list" {
                        t.push("C06");
                    }
                    if matches!(self.plan.property.as_str(), "C05" | "C07" | "C11" | "C17" | "C19" | "C04") {
                        let p: &str = &self.plan.property;
                        if p == "C05" && vault.as_ref().map_or(false, |v| !v.aliases().is_empty()) {
                            t.push("C05");
                        }
                    }
                    match self.matches(op.after.as_deref().map(|v| &v[..]), a) {
                        Ok(_) => {}
                        Err(m) => {
                            self.viol(&t, &format!("state-{}", kind), format!("after {:?}: {}; {}", cmd, m, op.show()));
                            ok = false;
                        }
                    }
                    if ok {
                        if let (Some(b), Some(x)) = (before.vault(), a.vault()) {
                            if !matches!(cmd, Cmd::SetPrimary { .. }) {
                                self.check_raw(op, b, x);
                            }
                        }
                    }
                }
            }
            // the answer
            if let Err(m) = self.check_answer(op, &e, vault.as_ref(), spec) {
                let mut t = tags.clone();
                match kind {
                    "show" => {
                        t.push("C04");
                        if m.contains("Password retrieved") || spec.mode == Mode::Lib {
                            t.push("C17");
                        }
                        if vault.as_ref().map_or(false, |v| !v.aliases().is_empty()) {
                            t.push("C05");
                        }
                    }
                    "list" => {
                        t.push("C07");
                        if spec.mode == Mode::Lib && vault.as_ref().map_or(false, |v| !v.aliases().is_empty()) {
                            t.push("C05");
                        }
                        if m.contains("ecovery") {
                            t.push("C12");
                        }
                    }
                    "alias" | "set-alias" | "remove-alias" => t.push("C05"),
                    "unlock" | "lock" => t.push("C11"),
                    "decode" | "recover" => t.push("C12"),
                    _ => t.push("C04"),
                }
                if s.rekeyed || m.contains(E_WRONGPW) || m.contains("PasswordsLocked") || m.contains("DecryptionFailure") {
                    t.push("C11");
                }
                t.push("C21");
                t.push("C20");
                self.viol(&t, &format!("answer-{}", kind), format!("{:?}: {}; {}", cmd, m, op.show()));
                ok = false;
            }
            if spec.mode == Mode::Cli && ok {
                let want = if e.ok { 0 } else { 1 };
                let good = if kind == "bad" { code.map_or(false, |c| c > 0) } else { code == Some(want) };
                if !good {
                    let mut t = tags.clone();
                    t.push("C21");
                    self.viol(&t, &format!("exit-{}", kind), format!("{:?}: ended with {:?} instead of status {}; {}", cmd, rec.end, want, op.show()));
                    ok = false;
                }
            }
            if spec.mode == Mode::Shell && ok && e.ends != if last { code.or(Some(-1)) } else { None } {
                self.viol(&["C19", "C21"], &format!("shell-ended-{}", kind), format!("{:?} ends the session with {:?}; {}", cmd, rec.end, op.show()));
                ok = false;
            }
            if last && spec.mode == Mode::Lib && ok {
                self.viol(&["C21"], "lib-ended", format!("the program ended with {:?}", rec.end));
                ok = false;
            }
            if ok && e.after.is_some() && e.ok && !op.durable && !rec.sync_dir_failed {
                self.viol(&["C02", "C21"], &format!("not-durable-{}", kind), format!("{:?} reports success, but a power failure right after it undoes it", cmd));
                ok = false;
            }
            if !ok {
                return false;
            }
            if let Some(a) = &e.after {
                if !last || self.viols.is_empty() {
                    // nonces and salts
                    if let (Some(b), Some(v)) = (&op.after, a.vault()) {
                        if let Ok(d) = refimpl::decode(b, &v.primary, self.env.shift, &v.foreign) {
                            self.register(&d);
                        }
                    }
                }
                s.mem = a.clone();
                let old = std::mem::replace(&mut self.model, a.clone());
                self.past.push(old.clone());
                if rec.sync_dir_failed {
                    // how durable it is nobody knows
                    self.unsure.push(old);
                } else {
                    self.unsure.clear();
                }
            }
            s.unlocked = e.unlocked;
            if cmd == Cmd::Load {
                s.loaded = e.ok;
            }
            return true;
        }
        // ---------------------------------------------------------- disturbed
        let full = self.full_effects(&cmd, op, s, spec);
        let success = match spec.mode {
            Mode::Lib => serde_json::from_str::<serde_json::Value>(op.text().trim()).map_or(false, |v| v.get("ok").is_some()),
            _ => match success_text(&cmd, spec.path.as_ref().unwrap_or(&self.plan.path)) {
                Some(t) => {
                    let o = strip_prompts(&op.text());
                    o.ends_with(&t) || (matches!(cmd, Cmd::Notes { .. }) && (o.ends_with("Notes removed.\n") || o.ends_with("Notes stored.\n")))
                }
                None => code == Some(0) || (spec.mode == Mode::Shell && op.done && op.err.is_empty()),
            },
        };
        let change_wanted = success_text(&cmd, "").is_some();
        let out_fault = op.out_failed || serious.iter().any(|f| f.starts_with("Stdout") || f.starts_with("Stderr"));
        let after_bytes = op.after.as_deref().map(|v| &v[..]);
        let mut applied: Option<FileState> = None;
        let idle = self.idle(&cmd, op, s);
        let changed = changed && !idle;
        if changed || op.before.is_none() && op.after.is_some() {
            for a in full.iter() {
                if self.matches(after_bytes, a).is_ok() {
                    applied = Some(a.clone());
                    break;
                }
            }
            if applied.is_none() && crashed && rec.power {
                for a in self.unsure.clone() {
                    if self.matches(after_bytes, &a).is_ok() {
                        applied = Some(a);
                        break;
                    }
                }
            }
            if applied.is_none() {
                let why = match full.first() {
                    Some(a) => self.matches(after_bytes, a).err().unwrap_or_default(),
                    None => "the command is to change nothing".into(),
                };
                let mut t = tags.clone();
                t.push(if crashed { "C01" } else { "C21" });
                let past = self.past.clone();
                if past.iter().any(|a| self.matches(after_bytes, a).is_ok()) {
                    t.push("C02");
                }
                self.viol(
                    &t,
                    &format!("neither-{}{}", kind, if crashed { "-crash" } else { "" }),
                    format!("{:?} leaves the file neither as it was nor as it should be ({}); it is {:?}; {}", cmd, why,
                        after_bytes.map(|b| String::from_utf8_lossy(&b[..b.len().min(60)]).into_owned()), op.show()),
                );
                return false;
            }
        }
        if let Some(a) = &applied {
            // before the next prompt a change reported as done is on the disk
            if success && !crashed && !op.durable && !rec.sync_dir_failed && *a != self.model {
                let mut t = tags.clone();
                t.extend(["C02", "C21"]);
                t.extend(self.tags_for(op));
                self.viol(&t, &format!("not-durable-{}", kind), format!("{:?} reports success, but a power failure right after it undoes it; {}", cmd, op.show()));
                return false;
            }
        }
        // a change that was not needed to be visible as such
        let same_effect = applied.is_none() && full.iter().any(|a| self.matches(after_bytes, a).is_ok());
        if !crashed || success {
            if success && change_wanted && applied.is_none() && !same_effect && !(crashed && rec.power && rec.sync_dir_failed) {
                let mut t = tags.clone();
                t.extend(["C21", "C02"]);
                self.viol(&t, &format!("false-success-{}", kind), format!("{:?} reports success but has no effect; {}", cmd, op.show()));
                return false;
            }
        }
        if !crashed {
            if !success && change_wanted && applied.is_some() && !out_fault && !rec.sync_dir_failed {
                let mut t = tags.clone();
                t.push("C21");
                self.viol(&t, &format!("false-failure-{}", kind), format!("{:?} reports no success but has its effect; {}", cmd, op.show()));
                return false;
            }
            if spec.mode == Mode::Cli {
                // a declined question is the only silent end
                let declined = op.prompts.iter().any(|p| p.ask == Ask::Question) && matches!(cmd, Cmd::Add { .. } | Cmd::Store { .. } | Cmd::SetPrimary { .. });
                let zero = code == Some(0);
                if zero && change_wanted && !success && !declined {
                    let mut t = tags.clone();
                    t.push("C21");
                    self.viol(&t, &format!("silent-{}", kind), format!("{:?} ends with status 0 without having done anything; {}", cmd, op.show()));
                    return false;
                }
                if !zero && success && change_wanted && !out_fault {
                    let mut t = tags.clone();
                    t.push("C21");
                    self.viol(&t, &format!("exit-{}", kind), format!("{:?} reports success but ends with {:?}; {}", cmd, rec.end, op.show()));
                    return false;
                }
                if !zero && !out_fault && op.err.is_empty() && rec.end != End::Signal {
                    let mut t = tags.clone();
                    t.push("C21");
                    self.viol(&t, &format!("mute-{}", kind), format!("{:?} fails without a message; {}", cmd, op.show()));
                    return false;
                }
            }
            // an answer that claims to be complete has to be right
            let claims = match spec.mode {
                Mode::Cli => code == Some(0),
                Mode::Shell => op.done && !last && op.err.is_empty() && !out_fault,
                Mode::Lib => success,
            };
            if claims && !in_dist {
                if let Ok(e) = &exp {
                    if let Err(m) = self.check_answer(op, e, vault.as_ref(), spec) {
                        let mut t = tags.clone();
                        t.push("C21");
                        self.viol(&t, &format!("answer-{}", kind), format!("{:?}: {}; {}", cmd, m, op.show()));
                        return false;
                    }
                }
            }
            if claims && in_dist && !change_wanted {
                // a prompt went wrong, but the answer is still about the vault
                if let Some(v) = &vault {
                    if let Err(m) = self.plausible(op, &cmd, v) {
                        self.viol(&tags, &format!("answer-{}", kind), format!("{:?}: {}; {}", cmd, m, op.show()));
                        return false;
                    }
                }
            }
            if last && spec.mode == Mode::Shell && rec.end == End::Exit(0) && in_dist {
                // end of input ends the session
            }
        }
        for t in self.tags_for(op) {
            self.carry.insert(t.to_string());
        }
        if crashed {
            self.carry.insert("C01".into());
        }
        if let Some(a) = applied {
            if !success || rec.sync_dir_failed {
                self.unsure.push(self.model.clone());
            } else {
                self.unsure.clear();
            }
            if let (Some(b), Some(v)) = (&op.after, a.vault()) {
                if let Ok(d) = refimpl::decode(b, &v.primary, self.env.shift, &v.foreign) {
                    self.register(&d);
                }
            }
            s.mem = a.clone();
            self.past.push(std::mem::replace(&mut self.model, a));
        }
        if crashed && rec.power {
            self.unsure.clear();
        }
        // the session's lock state: only the happy path changes it
        match (&cmd, spec.mode) {
            (Cmd::Load, _) => {
                s.loaded = success;
                s.unlocked = false;
            }
            (Cmd::Unlock { .. }, _) | (Cmd::SetPrimary { .. }, Mode::Lib) => {
                if success {
                    s.unlocked = true;
                }
            }
            (Cmd::Lock, _) => s.unlocked = false,
            (_, Mode::Shell) => {
                // unlocked iff the right password went through
                if let Ok(e) = &exp {
                    if !in_dist {
                        s.unlocked = e.unlocked;
                    }
                }
                if let (Err(_), false, Some(v)) = (&exp, in_dist, s.mem.vault()) {
                    let primary = v.primary.clone();
                    s.unlocked |= op.prompts.iter().any(|p| match &p.got {
                        Got::Text(t) => p.ask == Ask::Primary && t.trim().len() >= 6 && same_primary(t.trim(), &primary),
                        _ => false,
                    });
                }
                if in_dist && !last {
                    // undetermined: seen from the next operation's prompts
                    let i = rec.ops.iter().position(|o| std::ptr::eq(o, op)).unwrap();
                    for next in &rec.ops[i + 1..] {
                        let asked = next.prompts.iter().any(|p| p.ask == Ask::Primary);
                        let needs = matches!(next.cmd, Some(Cmd::Add { .. } | Cmd::Store { .. } | Cmd::Remove { .. } | Cmd::Show { .. } | Cmd::Notes { .. } | Cmd::List { .. } | Cmd::Alias { .. }));
                        let line = next.prompts.iter().all(|p| p.ask != Ask::Line || matches!(p.got, Got::Text(_)));
                        if needs && line && !next.out_failed {
                            s.unlocked = !asked;
                            break;
                        }
                    }
                }
            }
            _ => {}
        }
        true
    }

    /// `list` wrote the file again with the same content
    fn idle(&self, cmd: &Cmd, op: &OpRec, s: &Sess) -> bool {
        let raw = |b: &Snap| b.as_ref().and_then(|b| refimpl::raw_map(b).ok());
        may_clean(cmd, &s.mem.vault().cloned()) && raw(&op.before).is_some() && raw(&op.before) == raw(&op.after)
    }

    /// The states a disturbed command may leave instead of the old one.
    fn full_effects(&self, cmd: &Cmd, op: &OpRec, s: &Sess, spec: &Spec) -> Vec<FileState> {
        let mut v = vec![];
        if spec.mode == Mode::Shell && matches!(cmd, Cmd::SetPrimary { .. }) {
            return v;
        }
        // whether the user agreed
        let need = match (cmd, &s.mem) {
            (Cmd::SetPrimary { yes, .. }, m) => spec.mode != Mode::Lib && !yes && *m != FileState::Absent,
            (Cmd::Add { site, name, rev, yes, .. }, FileState::Vault(x)) | (Cmd::Store { site, name, rev, yes, .. }, FileState::Vault(x)) => {
                spec.mode != Mode::Lib && !yes && x.pws.contains_key(&x.id(site, name, rev))
            }
            _ => false,
        };
        if need {
            let mut agreed = false;
            for p in op.prompts.iter().filter(|p| p.ask == Ask::Question) {
                let (Got::Text(t) | Got::Bad(t)) = &p.got else { break };
                if t.trim().is_empty() {
                    break;
                }
                match yes(t) {
                    Some(true) => {
                        agreed = true;
                        break;
                    }
                    Some(false) => break,
                    None => {}
                }
            }
            if !agreed {
                return v;
            }
        }
        if op.prompts.iter().any(|p| p.ask == Ask::Line && !matches!(p.got, Got::Text(_))) {
            return v;
        }
        // the answer typed, as far as it got through
        let mut c = cmd.clone();
        for p in &op.prompts {
            if !matches!(p.ask, Ask::Value | Ask::Notes | Ask::NewPrimary | Ask::Repeat) {
                continue;
            }
            let Got::Text(t) = &p.got else { return v };
            match (&mut c, p.ask) {
                (Cmd::Store { pw, .. }, Ask::Value) => *pw = t.clone(),
                (Cmd::Notes { set, .. }, Ask::Notes) => *set = Some(t.clone()),
                (Cmd::SetPrimary { pw, .. }, Ask::NewPrimary) => *pw = t.clone(),
                (Cmd::SetPrimary { repeat, .. }, Ask::Repeat) => *repeat = Some(t.clone()),
                _ => {}
            }
        }
        let trim = spec.mode != Mode::Lib;
        match (&mut c, &s.mem) {
            (Cmd::SetPrimary { pw, repeat, .. }, _) => {
                if trim {
                    *pw = pw.trim().to_string();
                    if repeat.as_ref().map_or(false, |r| r.trim() != pw.as_str()) || pw.len() < 6 {
                        return v;
                    }
                }
                v.push(FileState::Vault(Vault { primary: pw.clone(), ..Default::default() }));
            }
            (c, FileState::Vault(x)) => {
                if let Cmd::Store { pw, code, .. } = c {
                    if code.is_some() {
                        // the plan's `pw` is what the code stands for
                    } else if trim {
                        *pw = pw.trim().to_string();
                    }
                }
                if let Ok(Some(a)) = x.apply(c) {
                    v.push(FileState::Vault(a));
                }
            }
            _ => {}
        }
        v
    }

    /// For reading commands after a mishap at a prompt: what is shown has to be true.
    fn plausible(&self, op: &OpRec, cmd: &Cmd, v: &Vault) -> Result<(), String> {
        let out = strip_prompts(&op.text());
        match cmd {
            Cmd::Show { site, name, rev, qr } => {
                let want = v.value(&v.id(site, name, rev), self.env.shift).map(|p| format!("Password retrieved.{}\n", p));
                if *qr && want.as_ref().map_or(false, |w| qr::excess(w).is_some()) {
                    return Ok(());
                }
                let out = if *qr { qr_as_text(&out) } else { out };
                if Some(&out) == want.as_ref() { Ok(()) } else { Err(format!("shows {:?} instead of {:?}", out, want)) }
            }
            _ => Ok(()),
        }
    }

    fn real_files(&self) -> BTreeMap<String, u32> {
        let mut m = BTreeMap::new();
        for (p, n) in self.env.w.fs.mem.walk() {
            if !p.starts_with("/dev") && !matches!(n.kind, Kind::Dir(_)) {
                m.insert(p, n.mode);
            }
        }
        m
    }

    fn after_process(&mut self, rec: &ProcRec) {
        let spec = rec.spec.clone();
        let mut tags: Vec<&str> = vec!["C06"];
        if rec.end == End::Crashed {
            tags = vec![];
        }
        // files
        if spec.mode == Mode::Shell {
            let h = spec.history.clone().unwrap_or(HISTORY.into());
            if let Ok(i) = self.env.w.fs.lookup(ROOT, &h, true) {
                self.hist_inos.insert(i);
            }
            let h = self.absolute(&h);
            self.histories.insert(h);
        }
        let files = self.real_files();
        let links = links(self.plan, &self.env.w.cwd);
        // a power loss can bring deleted files back
        let power = self.env.w.fs.powers != self.powers;
        self.powers = self.env.w.fs.powers;
        for (p, _) in &files {
            if links.iter().any(|l| l.0 == *p) {
                continue;
            }
            if *p == self.real || *p == self.absolute(&self.plan.path) || self.histories.contains(p) || self.leftovers.contains(p) {
                continue;
            }
            if spec.path.as_ref().map(|x| self.absolute(x)).as_ref() == Some(p) {
                continue;
            }
            self.leftovers.insert(p.clone());
            if !tags.is_empty() && !power && !rec.unlink_failed && rec.end != End::Signal {
                self.viol(&tags, "extra-file", format!("{:?} is left behind", p));
            }
        }
        // the storage file's permissions and kind
        if let Some(m) = self.plan.mode {
            if let Some(x) = files.get(&self.real) {
                if *x != m && self.plan.initial.is_some() {
                    self.viol(&["C06"], "mode", format!("the storage file's mode is {:o} instead of {:o}", x, m));
                }
            }
        }
        if self.plan.link_to.is_some() && spec.path.is_none() {
            for (at, to) in links.iter().cloned() {
                let ino = self.env.w.fs.lookup(ROOT, &at, false);
                let is_link = ino.ok().and_then(|i| self.env.w.fs.node(i).ok()).map_or(false, |n| n.kind == Kind::Symlink(to));
                if !is_link {
                    self.viol(&["C06"], "symlink", format!("{} is no longer a symbolic link", at));
                }
            }
        }
        self.judge_aside(rec);
        // history content
        if spec.mode == Mode::Shell {
            self.judge_history(&spec);
            self.judge_lines(rec);
        }
        // readers never open the file for writing
        let writes = rec.ops.iter().any(|o| o.cmd.as_ref().map_or(false, |c| success_text(c, "").is_some() || matches!(c, Cmd::List { .. })));
        if !writes && rec.opened_w.iter().any(|p| *p == self.real || *p == self.plan.path) {
            self.viol(&["C06"], "opens", "a command that only reads opens the storage file for writing".into());
        }
    }

    /// Secrets are printed only where they are asked for.
    fn judge_screen(&mut self, rec: &ProcRec) {
        let mut secrets: Vec<(&str, Vec<u8>)> = vec![];
        let public = self.plan_names();
        let kinds = self.kinds();
        for (what, s) in &kinds {
            let s = s.clone();
            let what = *what;
            let short = s.len() >= 4 && what == "primary" && !kinds.iter().any(|k| k.1 != s && k.1.contains(&s));
            if (s.len() >= 6 || short) && !public.iter().any(|p| p.contains(&s)) {
                secrets.push((what, s.into_bytes()));
            }
        }
        let mut generated = BTreeSet::new();
        for st in self.past.iter().chain([&self.model]) {
            if let FileState::Vault(v) = st {
                for (id, p) in &v.pws {
                    if let PwKind::Gen { .. } = p.kind {
                        generated.insert(v.value(id, self.env.shift).unwrap());
                    }
                }
            }
        }
        generated.retain(|g| g.len() >= 8);
        secrets.extend(generated.into_iter().map(|g| ("value", g.into_bytes())));
        if let (Some(b), FileState::Vault(v)) = (self.bytes(), &self.model) {
            if let Ok(d) = refimpl::decode(&b, &v.primary, self.env.shift, &v.foreign) {
                secrets.push(("key", d.key));
                secrets.push(("key", d.hmac));
            }
        }
        for op in &rec.ops {
            let (value, note) = match &op.cmd {
                Some(Cmd::Show { .. }) => (true, false),
                Some(Cmd::Notes { .. }) => (false, true),
                Some(Cmd::List { show, verbose, .. }) => (*show, *verbose),
                _ => (false, false),
            };
            for (stream, text) in [("stdout", &op.out), ("stderr", &op.err), ("the terminal", &op.tty)] {
                for (what, s) in &secrets {
                    if stream == "stdout" && (*what == "value" && value || *what == "note" && note) {
                        continue;
                    }
                    let mut forms = play::forms(s);
                    if s.len() < 6 {
                        forms.truncate(1);
                    }
                    if forms.iter().any(|f| text.windows(f.len()).any(|w| w == &f[..])) {
                        let m = format!("a {} secret appears on {} during {}: {}", what, stream, op_kind(&op.cmd), op.show());
                        self.viol(&["C25"], &format!("screen-{}-{}", what, op_kind(&op.cmd)), m);
                        return;
                    }
                }
            }
        }
    }

    /// The secrets of the plan by kind.
    fn kinds(&self) -> Vec<(&'static str, String)> {
        let mut s: Vec<(&'static str, String)> = vec![];
        if let Some(i) = &self.plan.initial {
            s.push(("primary", i.primary.clone()));
            for e in &i.pws {
                if let PwKind::Stored(t) = &e.pw.kind {
                    s.push(("value", t.clone()));
                }
                s.push(("note", e.pw.notes.clone()));
            }
        }
        for st in &self.plan.steps {
            let Step::Run(sp) = st else { continue };
            s.extend(sp.unlock.iter().map(|u| ("primary", u.clone())));
            for c in &sp.cmds {
                match c {
                    Cmd::SetPrimary { pw, repeat, .. } => {
                        s.push(("primary", pw.clone()));
                        s.extend(repeat.iter().map(|r| ("primary", r.clone())));
                    }
                    Cmd::Store { pw, .. } => s.push(("value", pw.clone())),
                    Cmd::Notes { set: Some(t), .. } => s.push(("note", t.clone())),
                    _ => {}
                }
            }
        }
        s
    }

    /// The shell's history is what was typed as command lines, now and before.
    fn judge_lines(&mut self, rec: &ProcRec) {
        let h = self.absolute(rec.spec.history.as_deref().unwrap_or(HISTORY));
        let End::Exit(code @ (0 | 1)) = rec.end else { return };
        let serious = |o: &OpRec| o.fired.iter().filter(|f| !benign(f)).cloned().collect::<Vec<_>>();
        let streams = ["Stdin", "Stdout", "Stderr", "Tty", "Rand"];
        let disk = |o: &OpRec| serious(o).iter().any(|f| !streams.iter().any(|s| f.starts_with(s)));
        let (Some(first), Some(last)) = (rec.ops.first(), rec.ops.last()) else { return };
        if rec.ops.iter().any(|o| o.out_failed || serious(o).iter().any(|f| f.starts_with("Std") || f.starts_with("Rand"))) {
            return;
        }
        let entered = first.text().contains("Enter a command");
        let own = |o: &OpRec| o.fired.iter().any(|f| f.contains(&format!("open {} ", h)) && !benign(f));
        if !entered {
            if own(first) {
                self.viol(&["C26"], "history-start", format!("the shell does not start if its history cannot be read; {}", first.show()));
            } else if rec.hist != self.env.w.fs.get(&h).map(|b| b.to_vec()) {
                self.viol(&["C26"], "history-refused", "a shell that did not start changes the history".into());
            }
            return;
        }
        let broken = rec.ops.iter().any(|o| o.prompts.iter().any(|p| p.ask == Ask::Line && p.got == Got::Err));
        if !broken && code != 0 {
            self.viol(&["C26", "C19"], "history-status", format!("a shell session ends with status {}; {}", code, last.show()));
            return;
        }
        if disk(first) || disk(last) {
            return;
        }
        let mut lines: Vec<String> = vec![];
        let mut whole = true;
        if let Some(b) = &rec.hist {
            let (v, ok) = parse_history(b);
            lines = v;
            whole = ok;
        }
        let mut new = 0;
        for o in &rec.ops {
            for p in o.prompts.iter().filter(|p| p.ask == Ask::Line) {
                if let Got::Text(t) = &p.got {
                    if p.text.is_some() && !t.is_empty() && lines.last() != Some(t) {
                        lines.push(t.clone());
                        new += 1;
                    }
                }
            }
        }
        let cut = lines.len().saturating_sub(100);
        lines.drain(..cut);
        let got = self.env.w.fs.get(&h).map(|b| b.to_vec());
        let parent = h.rsplit_once('/').map_or("/", |x| x.0);
        let possible = self.env.w.fs.lookup(ROOT, parent, true).is_ok() && self.plan.history != Some(Hist::Dir);
        let ok = if new == 0 && whole || !possible {
            got == rec.hist
        } else if whole {
            let mut want = b"#V2\n".to_vec();
            for l in &lines {
                want.extend(l.replace('\\', "\\\\").replace('\n', "\\n").bytes());
                want.push(b'\n');
            }
            got.as_deref() == Some(&want[..])
        } else {
            // what could not be read may be gone, not what was typed
            let (g, w) = parse_history(got.as_deref().unwrap_or(b""));
            new == 0 || w && g.ends_with(&lines[lines.len().saturating_sub(new)..])
        };
        if !ok {
            let show = |b: &Option<Vec<u8>>| b.as_ref().map(|b| String::from_utf8_lossy(b).into_owned());
            let m = format!("the history {} is {:?} after {:?} and the lines {:?}", h, show(&got), show(&rec.hist), &lines[lines.len().saturating_sub(new)..]);
            self.viol(&["C26"], "history-lines", m);
            return;
        }
        if new > 0 && possible {
            let m = self.env.w.fs.lookup(ROOT, &h, true).ok().and_then(|i| self.env.w.fs.node(i).ok()).map(|n| n.mode & 0o777);
            if m != Some(0o600) {
                self.viol(&["C26"], "history-mode", format!("the history's mode is {:?}", m.map(|m| format!("{:o}", m))));
            }
        }
        if !possible && new > 0 && last.err.is_empty() {
            self.viol(&["C26"], "history-silent", format!("the history cannot be saved, and nothing is said; {}", last.show()));
        }
    }

    fn judge_history(&mut self, spec: &Spec) {
        let h = spec.history.clone().unwrap_or(HISTORY.into());
        let Some(b) = self.env.w.fs.get(&h) else { return };
        let text = String::from_utf8_lossy(b).into_owned();
        for s in self.plan_secrets() {
            if s.len() >= 6 && text.contains(&s) && !self.typed().contains(&s) {
                self.viol(&["C08"], "history", format!("the shell history contains {:?}", s));
                return;
            }
        }
    }

    /// Everything typed as a command line: a secret that looks like a part of it cannot be told from it.
    pub fn typed(&self) -> String {
        let mut t = String::new();
        let mut shell = |sp: &Spec| {
            if sp.mode == Mode::Shell {
                for c in &sp.cmds {
                    t.push_str(&crate::exec::shell_line(c));
                    t.push('\n');
                }
            }
        };
        for st in &self.plan.steps {
            match st {
                Step::Run(sp) => shell(sp),
                Step::Conc { procs, .. } => procs.iter().for_each(|p| shell(p)),
                _ => {}
            }
        }
        t
    }

    /// Everything said openly.
    fn plan_names(&self) -> Vec<String> {
        let mut t = vec![self.typed()];
        if let Some(i) = &self.plan.initial {
            t.push(format!("{:?}", i.sites));
            t.extend(i.pws.iter().map(|p| format!("{} {} {}", p.site, p.name, p.rev)));
        }
        for st in &self.plan.steps {
            let specs: &[Spec] = match st {
                Step::Run(s) => std::slice::from_ref(s),
                Step::Conc { procs, .. } => procs,
                _ => &[],
            };
            for c in specs.iter().flat_map(|s| &s.cmds) {
                t.push(crate::exec::shell_line(c));
            }
        }
        t
    }

    /// Secrets of the plan: primary passwords, values and notes.
    fn plan_secrets(&self) -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        if let Some(i) = &self.plan.initial {
            s.insert(i.primary.clone());
            for e in &i.pws {
                if let PwKind::Stored(t) = &e.pw.kind {
                    s.insert(t.clone());
                }
                s.insert(e.pw.notes.clone());
            }
        }
        let mut cmds = |sp: &Spec| {
            for u in &sp.unlock {
                s.insert(u.clone());
            }
            for c in &sp.cmds {
                match c {
                    Cmd::SetPrimary { pw, .. } => {
                        s.insert(pw.clone());
                    }
                    Cmd::Store { pw, .. } => {
                        s.insert(pw.clone());
                    }
                    Cmd::Notes { set: Some(t), .. } => {
                        s.insert(t.clone());
                    }
                    _ => {}
                }
            }
        };
        for st in &self.plan.steps {
            match st {
                Step::Run(sp) => cmds(sp),
                Step::Conc { procs, .. } => procs.iter().for_each(|p| cmds(p)),
                _ => {}
            }
        }
        s.retain(|x| x.len() >= 6);
        s
    }

    /// Needles for released memory: (what, bytes).
    fn needles(&self) -> Vec<(String, Vec<u8>)> {
        let mut n: Vec<(String, Vec<u8>)> = vec![];
        if let (Some(b), FileState::Vault(v)) = (self.bytes(), &self.model) {
            n.push(("primary".into(), v.primary.clone().into_bytes()));
            if let Ok(d) = refimpl::decode(&b, &v.primary, self.env.shift, &v.foreign) {
                n.push(("key".into(), d.key.clone()));
                n.push(("hmac".into(), d.hmac.clone()));
                n.push(("hmac".into(), base64::encode(&d.hmac).into_bytes()));
            }
            for (id, p) in &v.pws {
                if let PwKind::Gen { .. } = p.kind {
                    n.push(("generated".into(), v.value(id, self.env.shift).unwrap().into_bytes()));
                }
            }
        }
        if let Some(i) = &self.plan.initial {
            for e in &i.pws {
                if let PwKind::Stored(t) = &e.pw.kind {
                    n.push(("stored".into(), t.clone().into_bytes()));
                }
                n.push(("notes".into(), e.pw.notes.clone().into_bytes()));
            }
        }
        for st in &self.plan.steps {
            if let Step::Run(sp) = st {
                for u in &sp.unlock {
                    n.push(("primary".into(), u.clone().into_bytes()));
                }
                for c in &sp.cmds {
                    match c {
                        Cmd::SetPrimary { pw, .. } => n.push(("primary".into(), pw.clone().into_bytes())),
                        Cmd::Store { pw, .. } => n.push(("stored".into(), pw.clone().into_bytes())),
                        Cmd::Notes { set: Some(t), .. } => n.push(("notes".into(), t.clone().into_bytes())),
                        Cmd::Unlock { pw } => n.push(("primary".into(), pw.clone().into_bytes())),
                        _ => {}
                    }
                }
            }
        }
        n.retain(|x| x.1.len() >= 6);
        // incomplete copies count, apart from keys: their halves stay in the padding of other values
        for x in n.iter_mut().filter(|x| x.0 != "key") {
            x.1.truncate(if x.0 == "generated" { 8 } else { 12 });
        }
        let public = self.plan_names();
        n.retain(|x| !public.iter().any(|p| p.as_bytes().windows(x.1.len()).any(|w| w == x.1)));
        let mut seen = BTreeSet::new();
        n.retain(|x| seen.insert(x.1.clone()));
        n.truncate(60);
        n
    }
    fn judge_memory(&mut self, rec: &ProcRec) {
        let mut seen = BTreeSet::new();
        for (i, opn) in rec.mem_hits.clone() {
            let i = i as usize;
            let what = self.mem_names.get(i % 10000).cloned().unwrap_or_default();
            let kind = rec.ops.get(opn as usize).map_or("?", |o| op_kind(&o.cmd));
            let fancy = self.plan.initial.as_ref().map_or(false, |i| i.fancy);
            let cut = rec.ops.get(opn as usize).map_or(false, |o| !o.infaults().is_empty()) || rec.spec.infaults.iter().any(|f| !matches!(f.kind, crate::plan::InKind::Eintr));
            if i / 10000 == 5 {
                // between commands, an unlocked session has its primary password and keys
                let locked = rec.ops.get(opn as usize).map_or(false, |o| o.text().contains("Passwords locked."));
                if !locked && !matches!(&what[..], "stored" | "notes" | "generated") {
                    continue;
                }
            }
            let sig = match i / 10000 {
                5 => format!("mem-{}-live-{}", what, kind),
                // serde_json's buffer for strings with escape sequences
                4 | 6 if fancy && (what == "stored" || what == "notes") => "mem-json-scratch".to_string(),
                // the line rpassword read, its end missing
                0 | 4 if rec.spec.tty && (what == "primary" || what == "stored") && cut => "mem-tty-cut".to_string(),
                // the buffer of rpassword
                2 | 6 if rec.spec.tty && (what == "primary" || what == "stored") => "mem-tty-buffer".to_string(),
                1 => format!("mem-{}-exit", what),
                _ => format!("mem-{}-{}", what, kind),
            };
            if seen.insert(sig.clone()) {
                let m = format!("a {} secret is in released memory during {} ({:?})", what, kind, rec.spec.mode);
                self.viol(&["C18"], &sig, m);
            }
        }
    }
}
