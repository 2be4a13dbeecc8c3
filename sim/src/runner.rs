//! Workers, the search, shrinking, replay and evidence.
use crate::exec::Zygotes;
use crate::kernel::Stats;
use crate::oracle::{execute, Outcome, Viol};
use crate::plan::*;
use crate::rng::{hash_str, mix};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize)]
struct Report {
    i: u64,
    seed: u64,
    trace: u64,
    states: Vec<u64>,
    ops: u64,
    syscalls: u64,
    procs: u64,
    sim_ns: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    unsupported: BTreeMap<u32, u64>,
    viols: Vec<Viol>,
    #[serde(default)]
    twice: Option<bool>,
    /// what the run needed beyond starting a program (see `nontrivial`)
    nontrivial: bool,
    shape: u64,
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub sig: String,
    pub violation: String,
    pub trace: u64,
    pub plan: Plan,
    #[serde(default)]
    pub log: Vec<String>,
}

pub fn plan_seed(root: u64, prop: &str, i: u64) -> u64 {
    mix(mix(root.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ hash_str(prop)).wrapping_add(i)) >> 1
}

fn shape(p: &Plan) -> u64 {
    let mut q = p.clone();
    q.seed = 0;
    hash_str(&serde_json::to_string(&q).unwrap())
}

pub struct Args {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub dir: String,
    pub workers: u64,
    pub count: u64,
    pub seconds: u64,
    pub verif: String,
}

pub fn worker(a: &Args, k: u64) {
    crate::chan::pin_cpu(k as usize);
    let mut z = Zygotes::new(&a.dir);
    let out = std::io::stdout();
    let start = Instant::now();
    let mut i = k;
    while i < a.count && start.elapsed().as_secs() < a.seconds {
        let seed = plan_seed(a.seed, &a.property, i);
        let plan = crate::gen::plan(&a.property, seed);
        let o = execute(&mut z, &plan, false);
        let twice = if i < a.workers * 2 {
            let o2 = execute(&mut z, &plan, false);
            Some(o.trace == o2.trace && o.viols == o2.viols)
        } else {
            None
        };
        let Stats { syscalls, procs, faults, unsupported, sim_ns, probes } = o.stats;
        let r = Report {
            i,
            seed,
            trace: o.trace,
            states: o.states.into_iter().collect(),
            ops: o.ops,
            syscalls,
            procs,
            sim_ns,
            nontrivial: o.ops >= 2 || !faults.is_empty(),
            faults,
            probes,
            unsupported,
            viols: o.viols,
            twice,
            shape: shape(&plan),
        };
        let mut l = out.lock();
        if writeln!(l, "{}", serde_json::to_string(&r).unwrap()).is_err() {
            return;
        }
        let _ = l.flush();
        i += a.workers;
    }
}

fn hits<'v>(o: &'v [Viol], prop: &str, sig: &str) -> Option<&'v Viol> {
    o.iter().find(|v| v.sig == sig && v.props.iter().any(|p| p == prop))
}

/// Removes from the plan whatever the violation does not need.
pub fn shrink(z: &mut Zygotes, plan: &Plan, prop: &str, sig: &str, limit: Duration) -> (Plan, u64) {
    let start = Instant::now();
    let mut best = plan.clone();
    let mut tried = 0;
    let mut fails = |p: &Plan, tried: &mut u64| -> bool {
        *tried += 1;
        let o = execute(z, p, false);
        hits(&o.viols, prop, sig).is_some()
    };
    // nothing after the violating step matters
    loop {
        let before = best.clone();
        for cand in candidates(&best) {
            if start.elapsed() > limit {
                return (best, tried);
            }
            // candidates are made from `before`-like states: only take those that still apply
            if fails(&cand, &mut tried) {
                best = cand;
                break;
            }
        }
        if best == before {
            return (best, tried);
        }
    }
}

fn candidates(p: &Plan) -> Vec<Plan> {
    let mut v: Vec<Plan> = vec![];
    let mut with = |f: &dyn Fn(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        if &q != p {
            v.push(q);
        }
    };
    let n = p.steps.len();
    let mut size = n / 2;
    while size >= 1 {
        let mut i = 0;
        while i < n {
            let j = (i + size).min(n);
            with(&|q| {
                q.steps.drain(i..j);
            });
            i = j;
        }
        size /= 2;
    }
    with(&|q| q.twin = false);
    with(&|q| q.initial = None);
    for i in 0..n {
        match &p.steps[i] {
            Step::Run(s) => {
                for f in spec_edits(s) {
                    with(&|q| {
                        if let Step::Run(s) = &mut q.steps[i] {
                            f(s);
                        }
                    });
                }
            }
            Step::Conc { procs, sched } => {
                for k in 0..procs.len() {
                    if procs.len() > 2 {
                        with(&|q| {
                            if let Step::Conc { procs, .. } = &mut q.steps[i] {
                                procs.remove(k);
                            }
                        });
                    }
                    for f in spec_edits(&procs[k]) {
                        with(&|q| {
                            if let Step::Conc { procs, .. } = &mut q.steps[i] {
                                f(&mut procs[k]);
                            }
                        });
                    }
                }
                let mut size = sched.len() / 2;
                while size >= 1 {
                    let mut k = 0;
                    while k < sched.len() {
                        let e = (k + size).min(sched.len());
                        with(&|q| {
                            if let Step::Conc { sched, .. } = &mut q.steps[i] {
                                sched.drain(k..e);
                            }
                        });
                        k = e;
                    }
                    size /= 2;
                }
            }
            Step::Damage(d) => {
                for k in 0..d.len() {
                    with(&|q| {
                        if let Step::Damage(d) = &mut q.steps[i] {
                            d.remove(k);
                        }
                    });
                }
            }
            _ => {}
        }
    }
    if let Some(init) = &p.initial {
        for k in 0..init.pws.len() {
            with(&|q| {
                q.initial.as_mut().unwrap().pws.remove(k);
            });
        }
        for k in 0..init.sites.len() {
            with(&|q| {
                let init = q.initial.as_mut().unwrap();
                let gone = init.sites.remove(k).0;
                init.pws.retain(|p| p.site != gone);
            });
        }
        for k in 0..init.foreign.len() {
            with(&|q| {
                q.initial.as_mut().unwrap().foreign.remove(k);
            });
        }
        with(&|q| q.initial.as_mut().unwrap().fancy = false);
    }
    with(&|q| q.mode = None);
    with(&|q| {
        q.link_to = None;
        q.via.clear()
    });
    v
}

type Edit = Box<dyn Fn(&mut Spec)>;
fn spec_edits(s: &Spec) -> Vec<Edit> {
    let mut v: Vec<Edit> = vec![];
    if s.cmds.len() > 1 {
        for k in 0..s.cmds.len() {
            v.push(Box::new(move |s| {
                s.cmds.remove(k);
                s.keys.retain(|x| x.line != k as u32);
                s.keys.iter_mut().filter(|x| x.line > k as u32).for_each(|x| x.line -= 1);
            }));
        }
    }
    for k in 0..s.faults.len() {
        v.push(Box::new(move |s| {
            s.faults.remove(k);
        }));
    }
    for k in 0..s.infaults.len() {
        v.push(Box::new(move |s| {
            s.infaults.remove(k);
        }));
    }
    for k in 0..s.unlock.len() {
        v.push(Box::new(move |s| {
            s.unlock.remove(k);
        }));
    }
    for k in 0..s.keys.len() {
        v.push(Box::new(move |s| {
            s.keys.remove(k);
        }));
    }
    v.push(Box::new(|s| s.crash = None));
    v.push(Box::new(|s| {
        s.raw = false;
        s.keys.clear();
    }));
    v.push(Box::new(|s| {
        s.tty = false;
        s.raw = false;
        s.keys.clear();
    }));
    v.push(Box::new(|s| s.history = None));
    v
}

pub fn replay(dir: &str, file: &str, quiet: bool) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => crate::harness(&format!("{}: {}", file, e)),
    };
    let r: Replay = serde_json::from_str(&text).unwrap_or_else(|e| crate::harness(&format!("{}: {}", file, e)));
    let mut z = Zygotes::new(dir);
    let o = execute(&mut z, &r.plan, true);
    if !quiet {
        for l in &o.log {
            println!("{}", l);
        }
        for v in &o.viols {
            println!("-> {} {:?}: {}", v.sig, v.props, v.msg);
        }
        println!("trace {:016x}, recorded {:016x}", o.trace, r.trace);
    }
    if hits(&o.viols, &r.property, &r.sig).is_some() {
        println!("VIOLATION property={} replay={}", r.property, file);
        1
    } else {
        println!("not reproduced: {} {}", r.property, r.sig);
        0
    }
}

pub struct Known {
    pub sig: String,
    pub text: String,
    pub replay: Option<String>,
}
/// `KNOWN-FINDING: property=<id> sig=<signature> [replay=<file>] <what fails>`
pub fn known(verif: &str, prop: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", verif)).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        let l = match l.strip_prefix("KNOWN-FINDING: ") {
            Some(l) => l,
            None => continue,
        };
        let mut sig = String::new();
        let mut replay = None;
        let mut mine = false;
        let mut rest = vec![];
        for w in l.split_whitespace() {
            if let (Some(p), true) = (w.strip_prefix("property="), rest.is_empty()) {
                mine = p == prop;
            } else if let (Some(s), true) = (w.strip_prefix("sig="), rest.is_empty()) {
                sig = s.to_string();
            } else if let (Some(s), true) = (w.strip_prefix("replay="), rest.is_empty()) {
                replay = Some(s.to_string());
            } else {
                rest.push(w);
            }
        }
        if mine {
            out.push(Known { sig, replay, text: rest.join(" ") });
        }
    }
    out
}

fn spawn_worker(a: &Args, k: u64) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args([
            "worker",
            &a.property,
            &a.tier,
            &a.seed.to_string(),
            &a.dir,
            &a.workers.to_string(),
            &a.count.to_string(),
            &a.seconds.to_string(),
            &k.to_string(),
        ])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| crate::harness(&e.to_string()))
}

pub fn check(a: &Args) -> i32 {
    let start = Instant::now();
    let prop = &a.property;
    let known = known(&a.verif, prop);
    let (tx, rx) = std::sync::mpsc::channel();
    let mut kids = vec![];
    for k in 0..a.workers {
        let mut c = spawn_worker(a, k);
        let out = BufReader::new(c.stdout.take().unwrap());
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in out.lines() {
                match l {
                    Ok(l) => {
                        if tx.send(Ok((k, l))).is_err() {
                            return;
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send(Err(k));
        });
        kids.push(c);
    }
    drop(tx);
    let mut live = a.workers;
    let mut stats = Stats::default();
    let mut traces = BTreeSet::new();
    let mut nontrivial = BTreeSet::new();
    let mut shapes = BTreeSet::new();
    let mut states = BTreeSet::new();
    let mut ops = 0;
    let mut runs = 0u64;
    let (mut twice, mut repeated) = (0u64, 0u64);
    let mut found: BTreeMap<String, (u64, u64, Viol)> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut other: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut samples: Vec<u64> = vec![];
    let mut stop_at: Option<Instant> = None;
    let mut killed = false;
    let mut last = Instant::now();
    let mut heard: Vec<Option<Instant>> = vec![Some(last); kids.len()];
    let mut unpinned = 0u64;
    let mut stuck = false;
    while live > 0 {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Ok((k, l))) => {
                last = Instant::now();
                heard[k as usize] = Some(last);
                let r: Report = match serde_json::from_str(&l) {
                    Ok(r) => r,
                    Err(_) => continue,
                };
                runs += 1;
                stats.syscalls += r.syscalls;
                stats.procs += r.procs;
                stats.sim_ns += r.sim_ns;
                for (k, v) in r.faults {
                    *stats.faults.entry(k).or_default() += v;
                }
                for (k, v) in r.probes {
                    *stats.probes.entry(k).or_default() += v;
                }
                for (k, v) in r.unsupported {
                    *stats.unsupported.entry(k).or_default() += v;
                }
                ops += r.ops;
                traces.insert(r.trace);
                shapes.insert(r.shape);
                if r.nontrivial {
                    nontrivial.insert(r.trace);
                    if samples.len() < 3 {
                        samples.push(r.seed);
                    }
                }
                states.extend(r.states);
                if let Some(t) = r.twice {
                    twice += 1;
                    repeated += t as u64;
                }
                for v in r.viols {
                    if !v.props.iter().any(|p| p == prop) {
                        let e = other.entry(format!("{:?} {}", v.props, v.sig)).or_insert((0, r.seed));
                        e.0 += 1;
                        continue;
                    }
                    if known.iter().any(|k| k.sig == v.sig) {
                        *known_hits.entry(v.sig.clone()).or_default() += 1;
                        continue;
                    }
                    let e = found.entry(v.sig.clone()).or_insert((r.i, r.seed, v.clone()));
                    if r.i < e.0 {
                        *e = (r.i, r.seed, v);
                    }
                    // let the others catch up a little, so that what is reported depends less on timing
                    stop_at.get_or_insert(Instant::now() + Duration::from_millis(1500));
                }
            }
            Ok(Err(k)) => {
                heard[k as usize] = None;
                live -= 1
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        for (k, h) in heard.iter_mut().enumerate() {
            // a processor shared with other work can leave one worker without any time of its own
            if h.map_or(false, |t| t.elapsed().as_secs() >= 3) {
                crate::chan::unpin(kids[k].id() as i32);
                *h = Some(Instant::now());
                unpinned += 1;
            }
        }
        let over = stop_at.map_or(false, |t| Instant::now() > t);
        let hung = last.elapsed().as_secs() > 100;
        if (over || hung) && !killed {
            killed = true;
            stuck = hung && !over;
            for c in &mut kids {
                crate::chan::unpin(c.id() as i32);
                let _ = c.kill();
            }
        }
    }
    let mut failed = vec![];
    for (k, c) in kids.iter_mut().enumerate() {
        let st = c.wait();
        if !killed && !st.as_ref().map_or(false, |s| s.success()) {
            failed.push(format!("worker {}: {:?}", k, st));
        }
    }
    if unpinned > 0 {
        println!("({} times a worker was silent for 3 s and let go of its processor)", unpinned);
    }
    if stuck {
        crate::harness("the workers stand still");
    }
    if runs == 0 || (!failed.is_empty() && found.is_empty()) {
        crate::harness(&format!("{} runs; {:?}", runs, failed));
    }
    let search_s = start.elapsed().as_secs_f64();

    // known findings: are they still there?
    let mut z = Zygotes::new(&a.dir);
    let mut known_state = vec![];
    for k in &known {
        let mut still = known_hits.get(&k.sig).copied().unwrap_or(0) > 0;
        if let (false, Some(f)) = (still, &k.replay) {
            if let Ok(t) = std::fs::read_to_string(format!("{}/{}", a.verif, f)) {
                if let Ok(r) = serde_json::from_str::<Replay>(&t) {
                    let o = execute(&mut z, &r.plan, false);
                    still = hits(&o.viols, prop, &k.sig).is_some();
                }
            }
        }
        println!("KNOWN-FINDING: property={} {}", prop, k.text);
        known_state.push(json!({"sig": k.sig, "seen_in_this_run": still, "what": k.text}));
    }

    // the violations: smallest plan, replay file, reproduced in a process of its own
    let mut lines = vec![];
    let mut unreproduced = vec![];
    let mut minimised = vec![];
    let n = found.len().max(1) as u64;
    for (sig, (_, seed, v)) in &found {
        if lines.len() >= 4 {
            break;
        }
        let plan = crate::gen::plan(prop, *seed);
        let o = execute(&mut z, &plan, false);
        if hits(&o.viols, prop, sig).is_none() {
            eprintln!("not reproduced: seed {} {} {}", seed, sig, v.msg);
            unreproduced.push(json!({"seed": seed, "sig": sig, "msg": v.msg}));
            continue;
        }
        let (small, tried) = shrink(&mut z, &plan, prop, sig, Duration::from_secs((40 / n).max(10)));
        let o = execute(&mut z, &small, true);
        let v2 = hits(&o.viols, prop, sig).cloned().unwrap_or(v.clone());
        let file = format!("{}/replays/{}-{}-{}.json", a.verif, prop, sig.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), seed);
        let _ = std::fs::create_dir_all(format!("{}/replays", a.verif));
        let r = Replay { property: prop.clone(), sig: sig.clone(), violation: v2.msg.clone(), trace: o.trace, plan: small, log: o.log };
        std::fs::write(&file, serde_json::to_string_pretty(&r).unwrap()).unwrap_or_else(|e| crate::harness(&e.to_string()));
        let again = Command::new(std::env::current_exe().unwrap())
            .args(["replay", &a.dir, &file])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .status();
        if again.map_or(false, |s| s.code() == Some(1)) {
            eprintln!("{}: {} (seed {}, {} plans tried to minimise it)", sig, v2.msg, seed, tried);
            lines.push(format!("VIOLATION property={} replay={}", prop, file));
            minimised.push(json!({"sig": sig, "msg": v2.msg, "seed": seed, "replay": file, "plans_tried": tried}));
        } else {
            eprintln!("not reproduced from {}", file);
            unreproduced.push(json!({"seed": seed, "sig": sig, "msg": v2.msg}));
        }
    }

    let sample_plans: Vec<_> = samples
        .iter()
        .map(|s| {
            let p = crate::gen::plan(prop, *s);
            let o = execute(&mut z, &p, true);
            let mut log = o.log;
            log.truncate(60);
            json!({"seed": s, "plan": p, "trace": log})
        })
        .collect();
    let wall = start.elapsed().as_secs_f64();
    let per_hour = |n: u64| (n as f64 * 3600.0 / search_s.max(0.001)) as u64;
    let has_conc = stats.faults.keys().any(|k| k.contains("switch"));
    let ev = json!({
        "property": prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nontrivial.len(),
            "rule": "one evaluation is one simulated run of a plan drawn from its seed: a history of commands by the real pfp-cli binary (and, for some sessions, the real pfp library) on a simulated system, with the faults, crashes, damage and interleavings the plan names. Distinct: a different hash over every system call, its result, every fault and every byte on standard output and error of the run. Non-trivial: at least two commands judged, or one fault injected.",
            "samples": sample_plans,
            "runs_per_hour": per_hour(runs),
            "seeds_per_hour": per_hour(runs),
            "distinct_plans": shapes.len(),
            "distinct_traces": traces.len(),
            "distinct_storage_states": states.len(),
            "states_measure": "hash of what the storage means (primary password, sites, aliases, passwords, notes) and of the damage or fault context it was reached in",
            "commands_judged": ops,
            "processes_simulated": stats.procs,
            "system_calls_simulated": stats.syscalls,
            "simulated_seconds": stats.sim_ns / 1_000_000_000,
            "faults_injected": stats.faults,
            "interleavings": if has_conc { json!(traces.len()) } else { json!("one process at a time") },
            "reached": stats.probes,
            "unsupported_system_calls": stats.unsupported,
            "executed_twice": twice,
            "executed_twice_identically": repeated,
            "violations_of_other_properties_ignored_here": other.iter().map(|(k, v)| json!({"what": k, "runs": v.0, "seed": v.1})).collect::<Vec<_>>(),
            "known_findings": known_state,
            "known_finding_runs": known_hits,
            "unreproduced": unreproduced,
            "violations": minimised,
            "search_seconds": search_s,
            "real_code": ["pfp-cli binary (argument parsing, prompts, shell, all processors)", "pfp library (storage, crypto, recovery codes, JSON)", "clap, rustyline, rpassword, question, serde_json, aes-gcm, scrypt (its cost parameter lowered for speed by an environment variable), Rust std and libc above the system call boundary"],
            "stubbed": ["kernel: files, directories, terminal, clock, entropy and process identity are simulated at the system call boundary", "scrypt's work factor is reduced through an environment variable in all but a few runs (parameters as requested are recorded); the derivation itself is the real one"],
        },
        "assumptions": [
            "the simulated kernel follows Linux for the calls the programs make; unsupported calls fail with ENOSYS and are counted",
            "a power loss keeps what was synced and any prefix, subset or torn version of the rest that the chosen file system personality allows",
        ],
        "wall_s": wall,
        "violations": lines.len(),
    });
    let dir = format!("{}/evidence", a.verif);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, prop), serde_json::to_string_pretty(&ev).unwrap())
        .unwrap_or_else(|e| crate::harness(&e.to_string()));
    println!(
        "{}: {} runs, {} distinct, {} commands, {} system calls, {} faults in {:.1} s; repeated identically {}/{}",
        prop,
        runs,
        traces.len(),
        ops,
        stats.syscalls,
        stats.faults.values().sum::<u64>(),
        search_s,
        repeated,
        twice
    );
    for l in &lines {
        println!("{}", l);
    }
    (!lines.is_empty()) as i32
}

pub fn one(dir: &str, prop: &str, seed: u64, log: bool) -> Outcome {
    let mut z = Zygotes::new(dir);
    let plan = crate::gen::plan(prop, seed);
    if log {
        println!("{}", serde_json::to_string(&plan).unwrap());
    }
    let o = execute(&mut z, &plan, log);
    for l in &o.log {
        println!("{}", l);
    }
    for v in &o.viols {
        println!("-> {} {:?}: {}", v.sig, v.props, v.msg);
    }
    o
}

/// Development: all violations of some seeds, whatever the property, by signature.
pub fn survey(a: &Args) {
    let mut by: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let (tx, rx) = std::sync::mpsc::channel();
    let mut kids = vec![];
    for k in 0..a.workers {
        let mut c = spawn_worker(a, k);
        let out = BufReader::new(c.stdout.take().unwrap());
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in out.lines().map_while(Result::ok) {
                let _ = tx.send(l);
            }
        });
        kids.push(c);
    }
    drop(tx);
    let start = Instant::now();
    let (mut n, mut bad, mut diff, mut ops) = (0u64, 0u64, 0u64, 0u64);
    let mut stats = Stats::default();
    for l in rx {
        let r: Report = serde_json::from_str(&l).unwrap();
        n += 1;
        ops += r.ops;
        bad += (!r.viols.is_empty()) as u64;
        diff += (r.twice == Some(false)) as u64;
        for (k, v) in r.faults {
            *stats.faults.entry(k).or_default() += v;
        }
        for (k, v) in r.probes {
            *stats.probes.entry(k).or_default() += v;
        }
        for (k, v) in r.unsupported {
            *stats.unsupported.entry(k).or_default() += v;
        }
        for v in r.viols {
            let e = by.entry(format!("{} {:?}", v.sig, v.props)).or_insert((0, r.seed, v.msg.clone()));
            e.0 += 1;
        }
    }
    for mut c in kids {
        let _ = c.wait();
    }
    println!("{}: {} runs, {} ops in {:.1}s, {} with violations, {} not repeatable", a.property, n, ops, start.elapsed().as_secs_f64(), bad, diff);
    for (k, v) in by {
        let m: String = v.2.chars().take(500).collect();
        println!("  {:5} {} (seed {}): {}", v.0, k, v.1, m);
    }
    println!("  faults {:?}\n  probes {:?}\n  unsupported {:?}", stats.faults, stats.probes, stats.unsupported);
}
