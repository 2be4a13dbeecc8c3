//! Runs the steps of a plan: single processes, concurrent processes, power losses, damage.
use super::*;
use crate::exec;
use crate::rng::mix;

/// An oracle that stumbles gives no verdict on the run; it is counted.
pub fn execute(z: &mut Zygotes, plan: &Plan, log: bool) -> Outcome {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| execute1(z, plan, log))) {
        Ok(o) => o,
        Err(_) => {
            z.reset();
            let mut o = Outcome::default();
            o.stats.probe("oracle-stumbled");
            o
        }
    }
}

fn execute1(z: &mut Zygotes, plan: &Plan, log: bool) -> Outcome {
    let mut r = Run::new(z, plan, log);
    r.play();
    let mut o = r.outcome();
    if plan.twin && o.viols.is_empty() {
        let mut p2 = plan.clone();
        p2.twin = false;
        p2.entropy = mix(plan.entropy ^ 0x7477696e);
        let mut r2 = Run::new(z, &p2, log);
        r2.play();
        let o2 = r2.outcome();
        o.stats.add(&o2.stats);
        o.trace = mix(o.trace ^ o2.trace);
        o.viols.extend(o2.viols);
        if let Some(x) = o.random.intersection(&o2.random).next() {
            o.viols.push(Viol {
                props: vec!["C09".into()],
                sig: "predictable".into(),
                msg: format!("{:02x?} is used as nonce, salt or secret whatever the system's entropy is", x),
                step: 0,
            });
        }
        o.log.extend(o2.log);
    }
    o
}

struct Event {
    at: u64,
    proc_: usize,
    op: usize,
    version: usize,
}

impl<'a> Run<'a> {
    fn outcome(self) -> Outcome {
        let mut w = self.env.w;
        w.stats.sim_ns += w.now.saturating_sub(w.start);
        Outcome {
            viols: self.viols,
            trace: w.trace,
            stats: w.stats,
            states: self.states,
            log: w.log.unwrap_or_default(),
            random: self.random,
            last: self.model,
            ops: self.ops,
        }
    }

    fn play(&mut self) {
        for (i, step) in self.plan.steps.iter().enumerate() {
            self.step = i;
            if !self.viols.is_empty() || self.invalid {
                break;
            }
            match step {
                Step::Run(spec) => {
                    if self.damage.is_some() {
                        self.run_damaged(spec)
                    } else {
                        self.run_spec(spec)
                    }
                }
                Step::Conc { procs, sched } => self.run_conc(procs, sched),
                Step::Power { style, seed } => self.power(*style, *seed),
                Step::Damage(d) => self.do_damage(d),
                Step::Heal => {
                    if let Some(d) = self.damage.take() {
                        self.env.w.fs.put(&self.real.clone(), Kind::File(d.orig_bytes.clone()), self.plan.mode.unwrap_or(0o644));
                        self.model = d.orig;
                        self.env.w.note("the file is restored");
                    }
                }
                Step::Clock(d) => {
                    self.env.w.now = (self.env.w.now as i64).saturating_add(*d).max(1) as u64;
                    self.env.w.start = self.env.w.start.min(self.env.w.now);
                }
            }
        }
        self.step = self.plan.steps.len();
        if self.viols.is_empty() && !self.invalid && self.damage.is_none() && !self.plan.memory {
            if let FileState::Vault(_) = &self.model {
                // the file has to open with the program itself
                {
                    let spec = Spec {
                        mode: Mode::Cli,
                        tty: false,
                        cmds: vec![Cmd::List { site: "*".into(), name: "*".into(), show: true, rec: false, verbose: true }],
                        unlock: vec![],
                        infaults: vec![],
                        faults: vec![],
                        crash: None,
                        default_path: false,
                        path: None,
                        history: None,
                        raw: false,
                        keys: vec![],
                    };
                    let n = self.viols.len();
                    for t in ["C01", "C02", "C04", "C05", "C20"] {
                        if self.plan.property == t {
                            self.carry.insert(t.into());
                        }
                    }
                    self.run_spec(&spec);
                    let _ = n;
                }
            }
        }
        if self.env.w.writes.is_some() {
            self.judge_writes();
        }
    }

    fn primary(&self) -> String {
        self.model.vault().map_or(String::new(), |v| v.primary.clone())
    }

    fn set_needles(&mut self) {
        if self.plan.memory {
            let n = self.needles();
            self.mem_names = n.iter().map(|x| x.0.clone()).collect();
            self.env.needles = n.into_iter().map(|x| x.1).collect();
        }
    }

    fn run_spec(&mut self, spec: &Spec) {
        self.set_needles();
        let p = self.primary();
        let rec = exec::run(&mut self.env, spec, &p, &self.plan.path);
        self.judge_proc(&rec);
    }

    fn power(&mut self, style: u8, seed: u64) {
        self.env.w.note(&format!("power loss, style {}", style));
        self.env.w.stats.fault(&format!("power loss between commands (style {})", style));
        self.env.w.fs.power_loss(style, seed);
        let b = self.bytes();
        let mut all = vec![self.model.clone()];
        all.extend(self.unsure.drain(..).collect::<Vec<_>>());
        for st in &all {
            if self.matches(b.as_deref(), st).is_ok() {
                self.accept_file(st, &["C02"], "power");
                return;
            }
        }
        let why = self.matches(b.as_deref(), &all[0]).err().unwrap_or_default();
        let mut t = vec!["C02"];
        if !self.past.clone().iter().any(|p| self.matches(b.as_deref(), p).is_ok()) {
            t.push("C01");
        }
        self.viol(&t, "power-lost", format!("after a power loss an acknowledged change is gone: {}", why));
    }

    // ------------------------------------------------------------------------------------------ concurrency
    fn run_conc(&mut self, specs: &[Spec], sched: &[(u32, u32)]) {
        let primary = self.primary();
        let path = self.plan.path.clone();
        let mut drvs: Vec<exec::Drv> = vec![];
        for (i, s) in specs.iter().enumerate() {
            let mut d = exec::Drv::start(&mut self.env, s, &primary, &path);
            d.p.idx = i;
            drvs.push(d);
        }
        let k = drvs.len();
        let first = self.bytes();
        let mut versions: Vec<Option<Vec<u8>>> = vec![first];
        let mut events: Vec<Event> = vec![];
        let (mut cur, mut n, mut si) = (0usize, 0u32, 0usize);
        loop {
            while si < sched.len() && sched[si].0 <= n {
                cur = sched[si].1 as usize % k;
                si += 1;
            }
            if drvs[cur].ended {
                match (0..k).map(|i| (cur + i) % k).find(|i| !drvs[*i].ended) {
                    Some(i) => cur = i,
                    None => break,
                }
            }
            let muts = self.env.w.mut_counter;
            let op = drvs[cur].rec.ops.len() - 1;
            match drvs[cur].step(&mut self.env) {
                exec::St::Power(style, seed) => {
                    self.env.w.fs.power_loss(style, seed);
                }
                _ => {}
            }
            n += 1;
            if self.env.w.mut_counter != muts {
                let b = self.bytes();
                if b != *versions.last().unwrap() {
                    versions.push(b);
                    events.push(Event { at: self.env.w.stats.syscalls, proc_: cur, op, version: versions.len() - 1 });
                }
            }
        }
        let recs: Vec<(ProcRec, Option<u64>)> = drvs
            .into_iter()
            .map(|d| {
                let f = d.first_read;
                (d.rec, f)
            })
            .collect();
        self.judge_conc(&recs, &versions, &events);
    }

    /// The versions of the file visible between two instants.
    fn visible(events: &[Event], from: u64, to: u64) -> Vec<usize> {
        let mut v = vec![];
        let mut cur = 0;
        for e in events {
            if e.at <= from {
                cur = e.version;
            } else if e.at <= to {
                if v.is_empty() {
                    v.push(cur);
                }
                v.push(e.version);
            }
        }
        if v.is_empty() {
            v.push(cur);
        }
        v
    }

    fn judge_conc(&mut self, recs: &[(ProcRec, Option<u64>)], versions: &[Option<Vec<u8>>], events: &[Event]) {
        let mut models: Vec<Option<FileState>> = vec![None; versions.len()];
        models[0] = Some(self.model.clone());
        // sessions that explain what a process did so far
        let mut cand: Vec<Option<Vec<(FileState, bool)>>> = vec![None; recs.len()];
        let mut next = vec![0usize; recs.len()];
        let initial = self.model.clone();
        let mut merged = initial.vault().cloned();
        let mut stale = false;
        let last_at = events.last().map_or(0, |e| e.at);
        let mut order: Vec<(u64, usize, usize, Option<usize>)> =
            events.iter().map(|e| (e.at, e.proc_, e.op, Some(e.version))).collect();
        for (i, (r, _)) in recs.iter().enumerate() {
            order.push((u64::MAX, i, r.ops.len(), None));
        }
        let mut last_op: BTreeMap<usize, usize> = BTreeMap::new();
        for (at, p, op, ver) in order {
            let (rec, first) = &recs[p];
            if cand[p].is_none() {
                let end = first.unwrap_or(rec.ops[0].end);
                let c: Vec<(FileState, bool)> = Self::visible(events, rec.ops[0].start, end)
                    .into_iter()
                    .filter_map(|v| models[v].clone())
                    .map(|m| (m, false))
                    .collect();
                cand[p] = Some(c);
            }
            // operations that came before and did not touch the file
            while next[p] < op.min(rec.ops.len()) {
                let i = next[p];
                next[p] += 1;
                if last_op.get(&p) == Some(&i) {
                    continue;
                }
                let seen: Vec<_> = Self::visible(events, rec.ops[i].start, rec.ops[i].end).into_iter().map(|v| versions[v].clone()).collect();
                if !self.conc_op(rec, i, cand[p].as_mut().unwrap(), None, None, &seen) {
                    return;
                }
            }
            let Some(v) = ver else { continue };
            if last_op.get(&p) == Some(&op) {
                self.viol(&["C15"], "two-versions", format!("{:?} brings the file into two states: {:?}", rec.ops[op].cmd, show(&versions[v])));
                return;
            }
            last_op.insert(p, op);
            let disk = models[v - 1].clone();
            let mut c = cand[p].take().unwrap();
            let m = self.conc_op(rec, op, &mut c, Some(&versions[v]), disk, &[]);
            cand[p] = Some(c);
            if !m {
                return;
            }
            let st = cand[p].as_ref().unwrap()[0].0.clone();
            if let (Some(b), FileState::Vault(x)) = (&versions[v], &st) {
                if let Ok(d) = refimpl::decode(b, &x.primary, self.env.shift, &x.foreign) {
                    self.register(&d);
                }
            }
            models[v] = Some(st);
            // what should be there if nobody's change got lost
            if let (Some(m), Some(c)) = (&mut merged, &rec.ops[op].cmd) {
                let mut c = c.clone();
                if let Cmd::Store { pw, .. } = &mut c {
                    *pw = pw.trim().to_string();
                }
                if let Ok(Some(x)) = m.apply(&c) {
                    *m = x;
                }
            }
            for e in events.iter().filter(|e| e.proc_ != p && e.at < at) {
                if first.unwrap_or(0) <= e.at {
                    stale = true;
                }
            }
        }
        let _ = last_at;
        self.model = models.last().unwrap().clone().unwrap_or(initial);
        self.env.w.stats.probe(&format!("concurrent saves {}", events.len().min(6)));
        if stale {
            self.env.w.stats.probe("save by a process that loaded before another one's save");
        }
        if let (Some(want), FileState::Vault(got)) = (&merged, &self.model) {
            let mut w = want.clone();
            w.sites.retain(|s, a| a.is_some() || got.sites.contains_key(s));
            let got2 = got.clone();
            if let Some(m) = w.diff(&got2) {
                let sig = if stale { "stale-load" } else { "lost" };
                self.viol(&["C16"], sig, format!("after all processes have finished: {}", m));
            }
        }
        // those that could not clean up come first: what they left behind is nobody else's
        let (mut order, clean): (Vec<&ProcRec>, Vec<&ProcRec>) =
            recs.iter().map(|(r, _)| r).partition(|r| r.unlink_failed || matches!(r.end, End::Crashed | End::Signal));
        order.extend(clean);
        for rec in order {
            self.after_process(rec);
        }
    }

    /// One operation of one of several processes. `version` is the state of the file it left, if it changed it.
    fn conc_op(&mut self, rec: &ProcRec, i: usize, cand: &mut Vec<(FileState, bool)>, version: Option<&Option<Vec<u8>>>, disk: Option<FileState>, seen: &[Option<Vec<u8>>]) -> bool {
        self.ops += 1;
        let op = &rec.ops[i];
        let last = i + 1 == rec.ops.len();
        let crashed = last && rec.end == End::Crashed;
        let kind = op_kind(&op.cmd);
        self.states.insert(hash_str(&format!("conc {} {} {} {}", kind, version.is_some(), cand.len().min(3), crashed)));
        if last && matches!(rec.end, End::Hang | End::Signal) {
            self.viol(&["C15"], &format!("conc-end-{}", kind), format!("{:?} ends with {:?}; {}", op.cmd, rec.end, op.show()));
            return false;
        }
        let Some(cmd) = op.cmd.clone() else {
            if version.is_some() {
                self.viol(&["C15"], "conc-start", "starting a shell changes the file".into());
                return false;
            }
            return true;
        };
        if matches!(cmd, Cmd::Exit) && version.is_none() {
            return true;
        }
        let mut why = String::new();
        let mut keep: Vec<(FileState, bool)> = vec![];
        let mut all = cand.clone();
        if let Some(d) = disk {
            // a program that merges with what is on the disk is fine, too
            for (_, u) in cand.clone() {
                if !all.iter().any(|x| x.0 == d && x.1 == u) {
                    all.push((d.clone(), u));
                }
            }
        }
        for (st, unlocked) in all {
            let s = Sess { mem: st.clone(), unlocked, loaded: true, rekeyed: false };
            let e = match self.expect(op, &s, &rec.spec) {
                Ok(e) => e,
                Err((_, m)) => {
                    if crashed && version.is_none() {
                        keep.push((st, unlocked));
                    } else if crashed {
                        let full = self.full_effects(&cmd, op, &s, &rec.spec);
                        if let Some(a) = full.into_iter().find(|a| self.matches(version.unwrap().as_deref(), a).is_ok()) {
                            keep.push((a, unlocked));
                        } else {
                            why = m;
                        }
                    } else {
                        why = m;
                    }
                    continue;
                }
            };
            match (version, &e.after) {
                (None, None) => {}
                (None, Some(_)) if crashed => {
                    keep.push((st, unlocked));
                    continue;
                }
                (None, Some(a)) => {
                    // a save may bring the very bytes back that another process has just saved
                    if *a != st && !seen.iter().any(|b| b.is_some() && self.matches(b.as_deref(), a).is_ok()) {
                        why = "the change does not take place".into();
                        continue;
                    }
                }
                (Some(_), None) => {
                    why = "the file is changed although there is nothing to change".into();
                    continue;
                }
                (Some(v), Some(a)) => {
                    if let Err(m) = self.matches(v.as_deref(), a) {
                        why = m;
                        continue;
                    }
                }
            }
            if !crashed {
                let n = self.viols.len();
                let v = st.vault().cloned();
                if let Err(m) = self.check_answer(op, &e, v.as_ref(), &rec.spec) {
                    why = m;
                    self.viols.truncate(n);
                    continue;
                }
                let code = match rec.end {
                    End::Exit(c) if last => Some(c),
                    _ => None,
                };
                if rec.spec.mode == Mode::Cli && code != Some(if e.ok { 0 } else { 1 }) {
                    why = format!("ends with {:?}", rec.end);
                    continue;
                }
            }
            keep.push((e.after.unwrap_or(st), e.unlocked));
        }
        if keep.is_empty() {
            let v = version.map(|v| format!("; the file is {}", show(v))).unwrap_or_default();
            self.viol(
                &["C15"],
                &format!("conc-{}{}", kind, if version.is_some() { "-save" } else { "" }),
                format!("{:?} of a concurrent process fits no state of the file: {}; {}{}", cmd, why, op.show(), v),
            );
            return false;
        }
        keep.dedup();
        *cand = keep;
        true
    }

    // ------------------------------------------------------------------------------------------ damage
    fn do_damage(&mut self, dmg: &[Dmg]) {
        let Some(mut b) = self.bytes() else { return };
        let FileState::Vault(v) = self.model.clone() else { return };
        if self.damage.is_none() {
            let Ok(d) = refimpl::decode(&b, &v.primary, self.env.shift, &v.foreign) else { return };
            self.damage = Some(Damage { orig_bytes: b.clone(), orig: self.model.clone(), truth: v, raw: d.raw, hmac: d.hmac, key: d.key, past: vec![], past_aliases: vec![], past_plain: vec![] });
        }
        let key = self.damage.as_ref().unwrap().key.clone();
        let mut removed = false;
        for x in dmg {
            let n = b.len().max(1) as u64;
            match x {
                Dmg::Flip { at, mask } => {
                    if !b.is_empty() {
                        b[(at % n) as usize] ^= (*mask).max(1);
                    }
                }
                Dmg::Truncate { at } => b.truncate((at % n) as usize),
                Dmg::Zero { at, len } => b.iter_mut().skip((at % n) as usize).take(*len as usize).for_each(|c| *c = 0),
                Dmg::Garbage { at, len, seed } => {
                    let mut r = Rng::new(*seed);
                    b.iter_mut().skip((at % n) as usize).take(*len as usize).for_each(|c| *c = r.next() as u8);
                }
                Dmg::DeleteRange { at, len } => {
                    let a = (at % n) as usize;
                    let e = (a + *len as usize).min(b.len());
                    b.drain(a.min(e)..e);
                }
                Dmg::Append { bytes } => b.extend_from_slice(bytes),
                Dmg::Replace { bytes } => b = bytes.clone(),
                Dmg::Remove => removed = true,
                Dmg::Entry { .. } | Dmg::Swap { .. } | Dmg::Drop { .. } => {
                    let Ok(mut m) = refimpl::raw_map(&b) else { continue };
                    let keys: Vec<String> = m.keys().cloned().collect();
                    if keys.is_empty() {
                        continue;
                    }
                    let at = |i: &u64| keys[(i % keys.len() as u64) as usize].clone();
                    match x {
                        Dmg::Drop { nth } => {
                            m.remove(&at(nth));
                        }
                        Dmg::Swap { n, m: o } => {
                            let (p, q) = (m[&at(n)].clone(), m[&at(o)].clone());
                            m.insert(at(n), q);
                            m.insert(at(o), p);
                        }
                        Dmg::Entry { nth, how } => {
                            let k = at(nth);
                            let s = m[&k].clone();
                            let l = s.len().max(1) as u64;
                            let new = match how {
                                EDmg::FlipChar { at } => {
                                    let mut c = s.into_bytes();
                                    let i = (at % l) as usize;
                                    if let Some(x) = c.get_mut(i) {
                                        *x = if *x == b'A' { b'B' } else { b'A' };
                                    }
                                    String::from_utf8(c).unwrap_or_default()
                                }
                                EDmg::Cut { at } => s.chars().take((at % l) as usize).collect(),
                                EDmg::Nonce { len } => {
                                    let c = s.split_once('_').map_or("", |x| x.1);
                                    format!("{}_{}", base64::encode(vec![7u8; *len as usize]), c)
                                }
                                EDmg::Empty => String::new(),
                                EDmg::NoUnderscore => s.replace('_', ""),
                                EDmg::Text(t) => t.clone(),
                                // a well encrypted secret is not damaged
                                EDmg::Plain(_) if k == "hmac-secret" => String::new(),
                                EDmg::Plain(t) => {
                                    // "@" and an object: fields to be replaced
                                    let old = refimpl::dec(&key, &s).and_then(|b| serde_json::from_slice::<serde_json::Value>(&b.1).ok());
                                    let patch = t.strip_prefix('@').map(|t| serde_json::from_str::<serde_json::Map<_, _>>(t).unwrap());
                                    let t = &match (old, patch) {
                                        (Some(serde_json::Value::Object(mut o)), Some(p)) => {
                                            o.extend(p);
                                            serde_json::Value::Object(o).to_string()
                                        }
                                        _ => t.clone(),
                                    };
                                    let mut nonce = [0u8; 12];
                                    Rng::new(*nth ^ hash_str(t)).fill(&mut nonce);
                                    refimpl::enc(&key, &nonce, t.as_bytes())
                                }
                            };
                            m.insert(k, new);
                        }
                        _ => {}
                    }
                    let v = serde_json::json!({"application": "pfp", "format": 3, "data": m});
                    b = v.to_string().into_bytes();
                }
            }
        }
        let real = self.real.clone();
        if removed {
            if let Ok(w) = self.env.w.fs.resolve(ROOT, &real, true) {
                let _ = self.env.w.fs.unlink(w.dir, &w.name, false);
            }
            self.env.w.fs.sync_all();
        } else {
            self.env.w.fs.overwrite(&real, &b);
        }
        for x in dmg {
            let n = format!("{:?}", x);
            self.env.w.stats.fault(&format!("damage {}", n.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")));
        }
        self.env.w.note(&format!("damage {:?}", dmg));
    }

    fn run_damaged(&mut self, spec: &Spec) {
        let d = self.damage.as_ref().unwrap();
        let primary = d.truth.primary.clone();
        let rec = exec::run(&mut self.env, spec, &primary, &self.plan.path);
        let n = rec.ops.len();
        let mut handle = HandleState { loaded: spec.mode != Mode::Lib, raw: None };
        for (i, op) in rec.ops.iter().enumerate() {
            if !self.damaged_op(&rec, op, i + 1 == n, &mut handle) {
                return;
            }
            if self.damage.is_none() {
                // there is a new vault
                let mut s = Sess { mem: self.model.clone(), unlocked: true, loaded: true, rekeyed: false };
                for (j, op) in rec.ops.iter().enumerate().skip(i + 1) {
                    if !self.judge_op(&rec, op, &mut s, j + 1 == n, false) {
                        return;
                    }
                }
                break;
            }
        }
        self.after_process(&rec);
    }

    fn damaged_op(&mut self, rec: &ProcRec, op: &OpRec, last: bool, h: &mut HandleState) -> bool {
        self.ops += 1;
        let spec = &rec.spec;
        let kind = op_kind(&op.cmd);
        let d = self.damage.as_ref().unwrap();
        let truth = d.truth.clone();
        let shift = self.env.shift;
        let cur = op.before.as_deref().and_then(|b| refimpl::raw_map(b).ok());
        self.states.insert(hash_str(&format!(
            "damaged {:?} {} {:?}",
            spec.mode,
            kind,
            cur.as_ref().map(|c| (c.get("salt") == d.raw.get("salt"), c.get("hmac-secret") == d.raw.get("hmac-secret"),
                d.raw.iter().filter(|(k, v)| c.get(*k) != Some(v)).count().min(3)))
        )));
        if last && matches!(rec.end, End::Hang | End::Signal) {
            let what = if rec.end == End::Hang { "hang" } else { "panic" };
            self.viol(&["C10"], &format!("damaged-{}-{}", what, kind), format!("{:?} on a damaged vault: {}; {}", op.cmd, what, op.show()));
            return false;
        }
        let changed = op.before.as_deref() != op.after.as_deref();
        let Some(cmd) = op.cmd.clone() else {
            if changed {
                self.viol(&["C10"], "damaged-start", "starting a shell changes a damaged vault".into());
            }
            return !changed;
        };
        let text = op.text();
        let code = match rec.end {
            End::Exit(c) if last => Some(c),
            _ => None,
        };
        let lib: Option<serde_json::Value> =
            if spec.mode == Mode::Lib { serde_json::from_str(text.trim()).ok() } else { None };
        let out = strip_prompts(&text);
        let success = match spec.mode {
            Mode::Lib => lib.as_ref().map_or(false, |v| v.get("ok").is_some()),
            Mode::Cli => code == Some(0),
            Mode::Shell => op.done && op.err.is_empty() && !(last && matches!(rec.end, End::Exit(_))),
        };
        let agreed = match &cmd {
            Cmd::SetPrimary { yes, .. } | Cmd::Add { yes, .. } | Cmd::Store { yes, .. } if *yes => true,
            _ => op.prompts.iter().any(|p| match &p.got {
                Got::Text(t) | Got::Bad(t) if p.ask == Ask::Question => yes_(t).unwrap_or(false),
                _ => false,
            }),
        };
        if !success && spec.mode == Mode::Cli && op.err.is_empty() {
            self.viol(&["C10", "C21"], &format!("damaged-mute-{}", kind), format!("{:?} fails without a message; {}", cmd, op.show()));
            return false;
        }
        macro_rules! bad {
            ($t:expr, $s:expr, $m:expr) => {{
                let m: String = $m;
                self.viol($t, &format!("damaged-{}-{}", $s, kind), format!("{:?} on a damaged vault: {}; {}", cmd, m, op.show()));
                return false;
            }};
        }
        // ---- sessions of the library
        if spec.mode == Mode::Lib {
            if cmd == Cmd::Load {
                h.loaded = success;
                h.raw = cur.clone();
                if success && op.before.is_some() && cur.is_none() {
                    bad!(&["C10"], "load", "loads although the file is no vault".into());
                }
                return true;
            }
            if !h.loaded {
                return true;
            }
        }
        if let Cmd::SetPrimary { pw, .. } = &cmd {
            if changed {
                if spec.mode != Mode::Lib && op.before.is_some() && !agreed {
                    bad!(&["C10", "C14"], "reinit", "is re-initialised without consent".into());
                }
                let v = FileState::Vault(Vault { primary: if spec.mode == Mode::Lib { pw.clone() } else { pw.trim().into() }, ..Default::default() });
                if let Err(m) = self.matches(op.after.as_deref().map(|b| &b[..]), &v) {
                    bad!(&["C10", "C21"], "reinit-state", m);
                }
                self.damage = None;
                self.past.push(std::mem::replace(&mut self.model, v));
            } else if out.contains("New primary password set") {
                bad!(&["C10", "C21"], "reinit-lie", "claims to have a new primary password".into());
            }
            return true;
        }
        let cur = if spec.mode == Mode::Cli || h.raw.is_none() { cur } else { h.raw.clone() };
        let root_ok = cur.as_ref().map_or(false, |c| c.get("salt") == d.raw.get("salt") && c.get("hmac-secret") == d.raw.get("hmac-secret"));
        let intact = |k: &str| root_ok && cur.as_ref().unwrap().get(k) == d.raw.get(k) && d.raw.contains_key(k);
        // as good as never touched: the same, or absent as it should be
        let untouched = |k: &str| root_ok && cur.as_ref().unwrap().get(k) == d.raw.get(k);
        let neutral = matches!(cmd, Cmd::Lock | Cmd::Exit | Cmd::Raw { .. } | Cmd::Bad { .. });
        // Base64 without its padding means the same
        let means = |k: &str| {
            let bits = |v: Option<&String>| v.map(|v| v.split('_').map(|p| base64::decode(p).map_err(|_| p.to_string())).collect::<Vec<_>>());
            cur.as_ref().map_or(false, |c| bits(c.get(k)) == bits(d.raw.get(k)))
        };
        if success && !root_ok && !neutral && !(means("salt") && means("hmac-secret")) {
            bad!(&["C10"], "opens", "works although its key material is damaged".into());
        }
        let hm = d.hmac.clone();
        let sk = |s: &str| refimpl::site_key(&hm, s);
        let pk = |i: &Id| refimpl::pw_key(&hm, &i.0, &i.1, &i.2);
        match &cmd {
            Cmd::Show { site, name, rev, .. } | Cmd::Notes { site, name, rev, set: None } => {
                if changed {
                    bad!(&["C10", "C06"], "writes", "a reading command changes the file".into());
                }
                let id = truth.id(site, name, rev);
                let is_show = matches!(cmd, Cmd::Show { .. });
                let want = truth.pws.get(&id).map(|p| if is_show { truth.value(&id, shift).unwrap() } else { p.notes.clone() });
                if success {
                    let good = want.as_ref().map_or(false, |w| match &lib {
                        Some(l) => l["ok"].as_str() == Some(w),
                        None if matches!(cmd, Cmd::Show { qr: true, .. }) => qr_as_text(&out) == format!("Password retrieved.{}\n", w),
                        None if is_show => out == format!("Password retrieved.{}\n", w),
                        None if w.is_empty() => out.starts_with("Currently no notes"),
                        None => out == format!("Notes for this password: {}\n", w),
                    });
                    if !good {
                        bad!(&["C10"], "wrong", format!("answers something else than {:?}", want));
                    }
                } else if want.is_some() && intact(&pk(&id)) && untouched(&sk(&norm_site(site))) && self.reachable(spec, rec, op) {
                    bad!(&["C10"], "lost", "an undamaged entry cannot be read".into());
                }
                return true;
            }
            Cmd::Has { site, name, rev } => {
                let id = truth.id(site, name, rev);
                if success && untouched(&pk(&id)) && untouched(&sk(&norm_site(site)))
                    && lib.as_ref().map_or(false, |l| l["ok"].as_bool() != Some(truth.pws.contains_key(&id)))
                {
                    bad!(&["C10"], "has", "wrong answer about an undamaged entry".into());
                }
                return true;
            }
            Cmd::Alias { site, target: None, remove: false } => {
                let n = norm_site(site);
                let want = truth.sites.get(&n).cloned().flatten();
                if success {
                    let good = want.as_ref().map_or(false, |w| match &lib {
                        Some(l) => l["ok"].as_str() == Some(w),
                        None => out == format!("'{}' is an alias for '{}'.\n", site, w),
                    });
                    if !good {
                        bad!(&["C10"], "wrong", format!("answers something else than {:?}", want));
                    }
                } else if want.is_some() && intact(&sk(&n)) && self.reachable(spec, rec, op) {
                    bad!(&["C10"], "lost", "an undamaged alias cannot be read".into());
                }
                return true;
            }
            Cmd::List { site, name, show, .. } => {
                if success {
                    let must: Vec<Id> = truth
                        .pws
                        .keys()
                        .filter(|i| wild(site, &i.0) && wild(name, &i.1) && intact(&pk(i)) && intact(&sk(&i.0)))
                        .cloned()
                        .collect();
                    let known = Known { v: &truth, past: &d.past, past_aliases: &d.past_aliases };
                    let r = match &lib {
                        Some(l) => list_lib_true(&l["ok"], &known, &must),
                        None => list_text_true(&out, &known, &must, *show, shift),
                    };
                    if let Err(m) = r {
                        bad!(&["C10"], "list", m);
                    }
                } else if root_ok && cur.as_ref() == Some(&d.raw) && self.reachable(spec, rec, op) {
                    bad!(&["C10"], "lost", "listing fails though nothing known is damaged".into());
                }
                if changed {
                    // clean-up: only site records
                    let (Some(b), Some(a)) = (&cur, op.after.as_deref().and_then(|b| refimpl::raw_map(b).ok())) else {
                        bad!(&["C10"], "spread", "clean-up leaves no proper file".into());
                    };
                    let gone: Vec<&String> = b.keys().filter(|k| a.get(*k) != b.get(*k)).collect();
                    let allowed = |k: &String| {
                        truth.sites.iter().any(|(s, al)| al.is_none() && sk(s) == **k
                            && !truth.pws.keys().any(|i| i.0 == *s && intact(&pk(i))))
                            || d.past_plain.iter().any(|s| sk(s) == **k)
                            || !d.raw.contains_key(k)
                    };
                    if let Some(k) = gone.iter().find(|k| a.contains_key(**k) || !allowed(k)) {
                        let of = truth.sites.keys().find(|s| sk(s) == **k);
                        bad!(&["C10"], "spread", format!("clean-up changes {}, the record of {:?}", k, of));
                    }
                    if a.keys().any(|k| !b.contains_key(k)) {
                        bad!(&["C10"], "spread", "clean-up adds something".into());
                    }
                    let gone: Vec<String> = gone.into_iter().cloned().collect();
                    let dm = self.damage.as_mut().unwrap();
                    for k in &gone {
                        dm.raw.remove(k);
                        dm.truth.sites.retain(|s, _| refimpl::site_key(&dm.hmac, s) != **k);
                    }
                    if h.raw.is_some() {
                        h.raw = Some(a);
                    }
                }
                return true;
            }
            _ => {}
        }
        // ---- changes
        let Some(_) = success_text(&cmd, "") else {
            if changed && !neutral {
                bad!(&["C10"], "writes", "changes the file".into());
            }
            return true;
        };
        if !changed {
            let noop = matches!((&cmd, success), (Cmd::Add { .. } | Cmd::Store { .. }, true)) && !agreed && !out.contains("Password added");
            if success && !noop && spec.mode != Mode::Shell {
                bad!(&["C10", "C21"], "lie", "claims success without any effect".into());
            }
            return true;
        }
        let (Some(b), Some(a)) = (cur.clone(), op.after.as_deref().and_then(|b| refimpl::raw_map(b).ok())) else {
            bad!(&["C10"], "spread", "writes to or over a file that is no vault".into());
        };
        if !success {
            bad!(&["C10", "C21"], "effect", "reports failure but changes the file".into());
        }
        // which entry was it: through the alias or, if its record is damaged, by the plain name
        let mut allowed: BTreeSet<String> = BTreeSet::new();
        let mut ids: Vec<Id> = vec![];
        match &cmd {
            Cmd::Add { site, name, rev, .. } | Cmd::Store { site, name, rev, .. } | Cmd::Remove { site, name, rev }
            | Cmd::Notes { site, name, rev, .. } => {
                let id = truth.id(site, name, rev);
                let plain = (norm_site(site), name.clone(), norm_rev(rev));
                ids.push(id.clone());
                if plain != id && !intact(&sk(&plain.0)) {
                    ids.push(plain);
                }
                for i in &ids {
                    allowed.insert(pk(i));
                    if matches!(cmd, Cmd::Add { .. } | Cmd::Store { .. }) && (b.get(&sk(&i.0)).is_none() || !intact(&sk(&i.0))) {
                        allowed.insert(sk(&i.0));
                    }
                }
            }
            Cmd::Alias { site, .. } => {
                allowed.insert(sk(&norm_site(site)));
                for (s, al) in &truth.sites {
                    if al.as_deref() == Some(&norm_site(site)) {
                        allowed.insert(sk(s));
                    }
                }
            }
            _ => {}
        }
        for k in a.keys().chain(b.keys()) {
            if a.get(k) != b.get(k) && !allowed.contains(k) {
                bad!(&["C10", "C06"], "spread", format!("changes {}", k));
            }
        }
        if let Cmd::Add { .. } | Cmd::Store { .. } = &cmd {
            for i in &ids {
                let k = pk(i);
                if b.contains_key(&k) && a.get(&k) != b.get(&k) && !agreed && spec.mode != Mode::Lib {
                    bad!(&["C10", "C14"], "overwrite", "overwrites without consent".into());
                }
            }
        }
        // the new entry has to be right
        let mut next = truth.clone();
        match &cmd {
            Cmd::Alias { site, target, .. } => {
                // resolution of the target may have gone either way
                let n = norm_site(site);
                match target {
                    Some(t) => {
                        let got = a.get(&sk(&n)).and_then(|s| refimpl::dec(&d.key, s)).map(|x| String::from_utf8_lossy(&x.1).into_owned()).unwrap_or_default();
                        let j: serde_json::Value = serde_json::from_str(&got).unwrap_or_default();
                        let al = j["alias"].as_str().unwrap_or("").to_string();
                        if j["site"].as_str() != Some(&n) || (al != truth.resolve(t) && (al != norm_site(t) || intact(&sk(&norm_site(t))))) {
                            bad!(&["C10"], "state", format!("the alias is {}", j));
                        }
                        for x in next.sites.values_mut() {
                            if x.as_deref() == Some(&n) {
                                *x = Some(al.clone());
                            }
                        }
                        next.sites.insert(n, Some(al));
                    }
                    None => {
                        next.sites.remove(&n);
                    }
                }
            }
            _ => {
                let Some(id) = ids.iter().find(|i| a.get(&pk(i)) != b.get(&pk(i))).cloned() else {
                    bad!(&["C10"], "state", "the entry is not changed".into());
                };
                let mut c = cmd.clone();
                if let Cmd::Store { pw, .. } = &mut c {
                    if spec.mode != Mode::Lib {
                        *pw = pw.trim().to_string();
                    }
                }
                let put = match &c {
                    Cmd::Add { len, cs, .. } => Some(Pw { kind: PwKind::Gen { len: *len, cs: *cs }, notes: String::new() }),
                    Cmd::Store { pw, .. } => Some(Pw { kind: PwKind::Stored(pw.clone()), notes: String::new() }),
                    Cmd::Notes { set: Some(t), .. } => truth.pws.get(&id).map(|p| Pw { kind: p.kind.clone(), notes: t.clone() }),
                    _ => None,
                };
                match put {
                    Some(p) => {
                        let mut only: BTreeMap<String, String> = BTreeMap::new();
                        for k in ["salt", "hmac-secret"] {
                            only.insert(k.into(), a[k].clone());
                        }
                        only.insert(pk(&id), a.get(&pk(&id)).cloned().unwrap_or_default());
                        let j = serde_json::json!({"application": "pfp", "format": 3, "data": only}).to_string();
                        let got = refimpl::decode(j.as_bytes(), &truth.primary, shift, &BTreeMap::new());
                        match got {
                            Ok(g) if g.vault.pws.get(&id) == Some(&p) => self.register(&g),
                            // its parameters stay as unusable as they were
                            Ok(g) if !intact(&pk(&id))
                                && matches!(cmd, Cmd::Notes { .. })
                                && g.vault.pws.get(&id).map_or(false, |q| {
                                    q.notes == p.notes && matches!(q.kind, PwKind::Gen { len: 0, .. } | PwKind::Gen { cs: 0, .. })
                                }) =>
                            {
                                self.register(&g);
                                allowed.remove(&pk(&id));
                            }
                            Ok(g) => bad!(&["C10"], "state", format!("the entry is {:?} instead of {:?}", g.vault.pws, p)),
                            Err(e) => bad!(&["C10"], "state", e),
                        }
                        // the site's record is new, or it is damaged and the site was taken as it is
                        next.sites.insert(id.0.clone(), None);
                        next.pws.insert(id, p);
                    }
                    None => {
                        if a.contains_key(&pk(&id)) {
                            bad!(&["C10"], "state", "the entry is still there".into());
                        }
                        next.pws.remove(&id);
                    }
                }
            }
        }
        let dm = self.damage.as_mut().unwrap();
        for (i, p) in &dm.truth.pws {
            if next.pws.get(i) != Some(p) {
                dm.past.push((i.clone(), p.clone()));
            }
        }
        for (s, a) in &dm.truth.sites {
            if next.sites.get(s) != Some(a) {
                match a {
                    Some(x) => dm.past_aliases.push((s.clone(), x.clone())),
                    None => dm.past_plain.push(s.clone()),
                }
            }
        }
        dm.truth = next;
        for k in allowed {
            if a.get(&k) != b.get(&k) {
                match a.get(&k) {
                    Some(v) => dm.raw.insert(k, v.clone()),
                    None => dm.raw.remove(&k),
                };
            }
        }
        if h.raw.is_some() {
            h.raw = Some(a);
        }
        true
    }

    /// Was the right password given (so that a refusal is the program's fault)?
    fn reachable(&self, spec: &Spec, rec: &ProcRec, op: &OpRec) -> bool {
        match spec.mode {
            Mode::Lib => {
                let mut un = false;
                for o in rec.ops.iter().take_while(|o| !std::ptr::eq(*o, op)) {
                    match &o.cmd {
                        Some(Cmd::Unlock { .. }) => un |= o.text().contains("\"ok\""),
                        Some(Cmd::Lock | Cmd::Load) => un = false,
                        _ => {}
                    }
                }
                un
            }
            // the library takes primary passwords that the command line does not
            _ => {
                let p = self.primary();
                p.trim().len() >= 6 && same_primary(p.trim(), &p)
            }
        }
    }

    // ------------------------------------------------------------------------------------------ secrets on disk
    fn judge_writes(&mut self) {
        if let (Some(m), FileState::Vault(v)) = (self.bytes().and_then(|b| refimpl::raw_map(&b).ok()), &self.model) {
            let foreign = v.foreign.clone();
            for k in m.keys().filter(|k| !foreign.contains_key(*k) && *k != "salt" && *k != "hmac-secret") {
                let good = k.strip_prefix("site:").map_or(false, |r| r.split(':').all(|p| base64::decode(p).map_or(false, |b| b.len() == 32)));
                if !good {
                    self.viol(&["C08"], "key-shape", format!("the key {:?} in the file is no digest", k));
                    return;
                }
            }
        }
        let chunks = self.env.w.writes.take().unwrap_or_default();
        let mut all: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
        for (ino, c) in &chunks {
            all.entry(*ino).or_default().extend_from_slice(c);
        }
        let mut needles: Vec<(String, Vec<u8>, bool)> = vec![];
        for s in self.plan_secrets() {
            needles.push((format!("the secret {:?}", s), s.into_bytes(), true));
        }
        let mut names: BTreeSet<String> = BTreeSet::new();
        let mut gens: BTreeSet<String> = BTreeSet::new();
        let mut states: Vec<Vault> = self.past.iter().chain(Some(&self.model)).filter_map(|s| s.vault().cloned()).collect();
        states.dedup();
        for v in &states {
            names.extend(v.sites.keys().cloned());
            for (id, p) in &v.pws {
                names.insert(id.1.clone());
                if let PwKind::Gen { .. } = p.kind {
                    gens.extend(v.value(id, self.env.shift));
                }
            }
        }
        for g in gens {
            if g.len() >= 6 {
                needles.push((format!("the generated password {:?}", g), g.into_bytes(), true));
            }
        }
        for (k, _) in self.nonces.keys() {
            needles.push(("an encryption key".into(), k.clone(), true));
        }
        for (_, h) in &self.salts {
            needles.push(("an HMAC secret".into(), h.clone(), true));
        }
        for n in names {
            if n.len() >= 6 {
                needles.push((format!("the name {:?}", n), n.into_bytes(), false));
            }
        }
        needles.sort();
        needles.dedup();
        let mut paths: Vec<u8> = vec![];
        for (p, n) in self.env.w.fs.mem.walk() {
            if !matches!(n.kind, Kind::Dir(_)) {
                paths.extend(p.bytes());
                paths.push(0);
            }
        }
        let typed = self.typed().into_bytes();
        for (what, n, everywhere) in needles {
            for f in forms(&n) {
                if find(&paths, &f) {
                    self.viol(&["C08"], "file-name", format!("{} is in a file name", what));
                    return;
                }
                for (ino, data) in &all {
                    if self.hist_inos.contains(ino) && (!everywhere || find(&typed, &n)) {
                        continue;
                    }
                    if find(data, &f) {
                        let w = if self.hist_inos.contains(ino) { "the history" } else { "a file" };
                        self.viol(&["C08"], "clear-text", format!("{} is written to {} (as {:?})", what, w, String::from_utf8_lossy(&f)));
                        return;
                    }
                }
            }
        }
    }
}

struct HandleState {
    loaded: bool,
    raw: Option<BTreeMap<String, String>>,
}

fn yes_(a: &str) -> Option<bool> {
    yes(a)
}
fn show(b: &Option<Vec<u8>>) -> String {
    match b {
        None => "absent".into(),
        Some(b) => format!("{} bytes {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(50)])),
    }
}
fn find(hay: &[u8], n: &[u8]) -> bool {
    !n.is_empty() && hay.len() >= n.len() && hay.windows(n.len()).any(|w| w == n)
}
/// A text as it is, in hexadecimal and in Base64 at any alignment.
pub fn forms(n: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![n.to_vec()];
    let hex: String = n.iter().map(|b| format!("{:02x}", b)).collect();
    v.push(hex.to_uppercase().into_bytes());
    v.push(hex.into_bytes());
    for skip in 0..3usize {
        let mut padded = vec![0u8; skip];
        padded.extend_from_slice(n);
        let e = base64::encode_config(&padded, base64::STANDARD_NO_PAD).into_bytes();
        // characters that depend on the neighbours are dropped
        let lead = [0, 2, 3][skip];
        let tail = if padded.len() % 3 == 0 { 0 } else { 1 };
        let core = e[lead..e.len() - tail].to_vec();
        if core.len() >= 6 {
            v.push(core);
        }
    }
    let mut rev = n.to_vec();
    rev.reverse();
    if rev != n {
        v.push(rev);
    }
    v
}

struct Known<'a> {
    v: &'a Vault,
    past: &'a [(Id, Pw)],
    past_aliases: &'a [(String, String)],
}
impl Known<'_> {
    fn alias(&self, s: &str, to: &str) -> bool {
        self.v.sites.get(s).cloned().flatten().as_deref() == Some(to) || self.past_aliases.iter().any(|(a, b)| a == s && b == to)
    }
    fn pws(&self) -> impl Iterator<Item = (&Id, &Pw)> {
        self.v.pws.iter().chain(self.past.iter().map(|(i, p)| (i, p)))
    }
}

fn list_lib_true(l: &serde_json::Value, v: &Known, must: &[Id]) -> Result<(), String> {
    let mut seen: BTreeSet<Id> = BTreeSet::new();
    for x in l.as_array().ok_or("no list")? {
        let s = x[0].as_str().unwrap_or("").to_string();
        if let Some(al) = x[1].as_str() {
            if !v.alias(&s, al) {
                return Err(format!("lists alias {} for {:?}", x[1], s));
            }
            continue;
        }
        for p in x[2].as_array().ok_or("no list")? {
            let id = (s.clone(), p[0].as_str().unwrap_or("?").to_string(), p[1].as_str().unwrap_or("?").to_string());
            let j = &p[2];
            let mut found = v.pws().filter(|x| *x.0 == id).peekable();
            if found.peek().is_none() {
                return Err(format!("lists {:?}, which does not exist", id));
            }
            let ok = |w: &Pw| {
                let same = match &w.kind {
                    PwKind::Gen { len, cs } => {
                        let c: Vec<bool> = (0..4).map(|i| cs >> i & 1 == 1).collect();
                        // (unusable parameters are shown as they are)
                        (j["len"] == serde_json::json!(len) || j["len"] == serde_json::json!(0))
                            && (j["cs"] == serde_json::json!(c) || j["cs"] == serde_json::json!([false, false, false, false]))
                    }
                    PwKind::Stored(t) => j["pw"].as_str() == Some(t),
                };
                same && j["notes"].as_str() == Some(&w.notes)
            };
            if !found.any(|x| ok(x.1)) {
                return Err(format!("lists {:?} as {}", id, j));
            }
            seen.insert(id);
        }
    }
    match must.iter().find(|i| !seen.contains(*i)) {
        Some(i) => Err(format!("does not list the undamaged {:?}", i)),
        None => Ok(()),
    }
}

fn list_text_true(out: &str, v: &Known, must: &[Id], show: bool, shift: u32) -> Result<(), String> {
    let mut site = String::new();
    let mut seen: BTreeSet<Id> = BTreeSet::new();
    let mut lines = out.lines().peekable();
    while let Some(l) = lines.next() {
        if let Some(s) = l.strip_prefix("Passwords for ") {
            site = s.strip_suffix(':').unwrap_or(s).to_string();
            continue;
        }
        if l == "No matching passwords found." {
            continue;
        }
        if let Some(t) = l.strip_prefix("    Aliases: ").or(l.strip_prefix("             ")) {
            let t = t.strip_suffix(',').unwrap_or(t);
            if !v.alias(t, &site) {
                return Err(format!("lists {:?} as an alias of {:?}", t, site));
            }
            continue;
        }
        let Some(t) = l.strip_prefix("    ") else { return Err(format!("prints {:?}", l)) };
        let mut why = Err(format!("lists {:?} for {:?}, which does not exist", t, site));
        for (id, p) in v.pws() {
            let ty = if matches!(p.kind, PwKind::Gen { .. }) { "generated" } else { "stored" };
            let line = if id.2.is_empty() { format!("{} ({})", id.1, ty) } else { format!("{} ({}, revision: {})", id.1, ty, id.2) };
            if id.0 != site || t != line {
                continue;
            }
            let mut ahead = lines.clone();
            why = entry_true(&mut ahead, id, p, &v.v.primary, show, shift);
            if why.is_err() && show {
                // a leftover of an entry which was replaced: listed with the value that the entry has
                let mut skip = lines.clone();
                let got = skip.next().and_then(|l| l.strip_prefix("        "));
                if got.is_some() && got == v.v.value(id, shift).as_deref() {
                    why = entry_true(&mut skip, id, p, &v.v.primary, false, shift);
                    ahead = skip;
                }
            }
            if why.is_ok() {
                seen.insert(id.clone());
                lines = ahead;
                break;
            }
        }
        why?;
    }
    match must.iter().find(|i| !seen.contains(*i)) {
        Some(i) => Err(format!("does not list the undamaged {:?}", i)),
        None => Ok(()),
    }
}

/// What is printed about an entry below its name.
fn entry_true(
    lines: &mut std::iter::Peekable<std::str::Lines>, id: &Id, w: &Pw, primary: &str, show: bool, shift: u32,
) -> Result<(), String> {
    if show {
        let got = lines.next().unwrap_or("").strip_prefix("        ").unwrap_or("?");
        let want = match &w.kind {
            PwKind::Gen { len, cs } => refimpl::generate(primary, &id.0, &id.1, &id.2, *len as usize, *cs, shift),
            PwKind::Stored(s) => s.clone(),
        };
        if got != want {
            return Err(format!("shows {:?} for {:?} instead of {:?}", got, id, want));
        }
    }
    // what -v and -r add
    let mut code = None::<String>;
    while let Some(t) = lines.peek().and_then(|l| l.strip_prefix("        ")) {
        let ok = match (&w.kind, &mut code) {
            (_, Some(c)) if !t.starts_with("Notes: ") => {
                c.push_str(t);
                c.push('\n');
                true
            }
            (PwKind::Stored(_), c @ None) if t == "Recovery code:" => {
                *c = Some(String::new());
                true
            }
            (PwKind::Gen { len, .. }, _) if t.starts_with("Length: ") => t == format!("Length: {}", len) || t == "Length: 0",
            (PwKind::Gen { cs, .. }, _) if t.starts_with("Allowed characters: ") => {
                let all = ["abc", "ABC", "789", "+^;"];
                let c: Vec<&str> = (0..4).filter(|i| cs >> i & 1 == 1).map(|i| all[i]).collect();
                t == format!("Allowed characters: {}", c.join(" ")) || t == "Allowed characters: "
            }
            _ => t.strip_prefix("Notes: ") == Some(&w.notes),
        };
        if !ok {
            return Err(format!("prints {:?} about {:?}, which is {:?}", t, id, w));
        }
        lines.next();
    }
    if let (Some(c), PwKind::Stored(p)) = (code, &w.kind) {
        match refimpl::recovery_decode(&c, primary, shift) {
            Some((_, _, x)) if x == *p => {}
            x => return Err(format!("prints a recovery code of {:?} that gives {:?}", id, x.map(|x| x.2))),
        }
    }
    Ok(())
}
