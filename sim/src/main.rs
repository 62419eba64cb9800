//! Deterministic simulation of interchain-account controllers with fault injection.
//!
//! icasim check --property Cxx [--tier quick|thorough] [--runs N]
//! icasim replay FILE
//! icasim show SEED PROFILE [PROPERTY]

#![allow(dead_code)]

mod exec;
mod gen;
mod host;
mod lean;
mod rng;
mod seam;
mod settle;
mod spec;
mod step;
mod world;

use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use gen::{Gen, Profile};
use rng::{fnv, mix, FNV0};
use step::{Cfg, HostDo, Step, XMsg};
use world::{Violation, World};

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    violation: Violation,
    history_hash: String,
    seed: u64,
    profile: String,
    original_steps: usize,
    lean: bool,
    cfg: Cfg,
    steps: Vec<Step>,
    trace: Vec<String>,
}

fn mix_for(prop: &str) -> &'static [(Profile, u64)] {
    use Profile::*;
    match prop {
        "C01" => &[(Auth, 5), (Mixed, 2), (Channels, 2), (Callbacks, 1), (Migration, 1)],
        "C02" => &[(Auth, 7), (Mixed, 1), (Migration, 2), (Deploy, 1)],
        "C03" => &[(Handshake, 4), (Channels, 3), (Auth, 2), (Migration, 1), (Mixed, 1)],
        "C04" => &[(Handshake, 7), (Mixed, 2), (Channels, 1)],
        "C05" => &[(Channels, 5), (Handshake, 3), (Mixed, 2), (Callbacks, 1)],
        "C06" => &[(Channels, 6), (Packets, 3), (Mixed, 2), (Long, 1), (Callbacks, 1)],
        "C07" => &[(Content, 7), (Packets, 2), (Channels, 1), (Mixed, 1)],
        "C08" => &[(Content, 4), (Queries, 5), (Mixed, 1), (Channels, 1)],
        "C09" => &[(Content, 4), (Packets, 5), (Mixed, 1)],
        "C10" => &[(Queries, 5), (Channels, 3), (Packets, 2), (Callbacks, 1), (Migration, 1), (Mixed, 1), (Long, 1)],
        "C11" => &[(Queries, 6), (Content, 4), (Packets, 1)],
        "C12" => &[(Callbacks, 5), (Queries, 2), (Packets, 2), (Handshake, 1), (Channels, 2), (Mixed, 1)],
        "C13" => &[(Callbacks, 7), (Handshake, 2), (Mixed, 1)],
        "C14" => &[(Channels, 4), (Handshake, 4), (Mixed, 2), (Migration, 1), (Callbacks, 1), (Calm, 1)],
        "C15" => &[(Packets, 5), (Channels, 3), (Mixed, 2), (Callbacks, 1), (Migration, 1), (Calm, 1)],
        "C16" => &[(Handshake, 5), (Channels, 3), (Deploy, 2), (Migration, 1)],
        "C17" => &[(Migration, 9), (Deploy, 1)],
        "C18" => &[(Mixed, 3), (Channels, 2), (Auth, 2), (Migration, 2), (Handshake, 2), (Callbacks, 1)],
        "C19" => &[(Queries, 4), (Packets, 3), (Long, 2), (Channels, 2), (Callbacks, 1), (Migration, 1)],
        "C20" => &[(Packets, 5), (Queries, 3), (Channels, 2), (Mixed, 1)],
        "C21" => &[(Deploy, 8), (Migration, 1), (Mixed, 1)],
        "C22" => &[(Deploy, 4), (Callbacks, 3), (Queries, 3), (Packets, 1)],
        "C23" => &[(Mixed, 2), (Queries, 2), (Content, 2), (Callbacks, 1), (Migration, 1), (Deploy, 1), (Channels, 1)],
        "C24" => &[(Deploy, 1)],
        _ => &[(Mixed, 1)],
    }
}

fn profile_of(prop: &str, seed: u64) -> Profile {
    // a few runs repeat one thing very often
    if mix(seed ^ 0x7272) % 1000 < if matches!(prop, "C07" | "C08" | "C09" | "C11") { 15 } else { 40 } {
        return Profile::Crowd;
    }
    let m = mix_for(prop);
    let total: u64 = m.iter().map(|x| x.1).sum();
    let mut x = mix(seed ^ 0x5151) % total;
    for (p, w) in m {
        if x < *w {
            return *p;
        }
        x -= w;
    }
    Profile::Mixed
}

fn profile_named(s: &str) -> Profile {
    *Profile::ALL.iter().find(|p| format!("{p:?}") == s).unwrap_or(&Profile::Mixed)
}

fn first<'a>(w: &'a World, prop: &str) -> Option<&'a Violation> {
    w.violations.iter().find(|v| v.tags.iter().any(|t| t == prop))
}

/// Runs one simulation on a thread of its own, so that thread-local state of the standard library
/// (hash seeds) or of the code under test starts the same way in every run.
fn fresh<T: Send>(f: impl FnOnce() -> T + Send) -> std::thread::Result<T> {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, f).expect("thread").join())
}

/// Runs a fixed step list.
fn execute(cfg: &Cfg, steps: &[Step], trace: bool, stop: &(dyn Fn(&World) -> bool + Sync)) -> Option<World> {
    fresh(|| {
        let mut w = World::new(cfg.clone());
        if trace {
            w.trace = Some(vec![]);
        }
        for s in steps {
            w.apply_step(s);
            if stop(&w) {
                break;
            }
        }
        w
    })
    .ok()
}

/// The same steps, executed again from the same state by fresh replicas: every history must agree.
fn diverges(cfg: &Cfg, steps: &[Step]) -> Option<Violation> {
    let mut seen: Option<u64> = None;
    for n in 0..4 {
        let h = execute(cfg, steps, false, &|_| false)?.hash;
        if *seen.get_or_insert(h) != h {
            let msg = format!("execution {n} of the same transactions from the same state took a different course");
            return Some(Violation { tags: vec!["C23".into()], kind: DIVERGED.into(), msg, step: steps.len().saturating_sub(1) });
        }
    }
    None
}
const DIVERGED: &str = "replica divergence";

struct Failure {
    index: usize,
    seed: u64,
    profile: Profile,
    cfg: Cfg,
    steps: Vec<Step>,
    v: Violation,
}

fn shrink(f: &Failure, prop: &str, budget: Duration) -> (Cfg, Vec<Step>) {
    let t0 = Instant::now();
    let fails = |cfg: &Cfg, steps: &[Step]| {
        if f.v.kind == DIVERGED {
            return diverges(cfg, steps).is_some();
        }
        execute(cfg, steps, false, &|w| first(w, prop).is_some()).is_some_and(|w| first(&w, prop).is_some_and(|v| v.kind == f.v.kind))
    };
    let mut cfg = f.cfg.clone();
    let mut steps = f.steps.clone();
    if !fails(&cfg, &steps) {
        return (cfg, steps);
    }
    steps.truncate(f.v.step + 1);
    if !fails(&cfg, &steps) {
        steps = f.steps.clone();
    }
    for (b, d, h) in [(0, 0, false), (1, 0, false), (0, 1, false), (2, 0, false), (0, 0, true)] {
        let mut c = cfg.clone();
        if c.battery < b || c.det < d {
            continue;
        }
        (c.battery, c.det, c.helper_queries) = (b, d, c.helper_queries && h);
        if fails(&c, &steps) {
            cfg = c;
            break;
        }
    }
    loop {
        let before = steps.len();
        let mut size = (steps.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < steps.len() {
                if t0.elapsed() > budget {
                    return (cfg, steps);
                }
                let mut cand = steps.clone();
                cand.drain(i..(i + size).min(cand.len()));
                if fails(&cfg, &cand) {
                    steps = cand;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        if steps.len() == before {
            break;
        }
    }
    for i in 0..steps.len() {
        loop {
            let mut progress = false;
            for cand in simpler(&steps[i]) {
                if t0.elapsed() > budget {
                    return (cfg, steps);
                }
                let old = std::mem::replace(&mut steps[i], cand);
                if fails(&cfg, &steps) {
                    progress = true;
                    break;
                }
                steps[i] = old;
            }
            if !progress {
                break;
            }
        }
    }
    (cfg, steps)
}

/// Simpler variants of one step.
fn simpler(s: &Step) -> Vec<Step> {
    let mut v = vec![];
    match s {
        Step::Exec { ctl, by, msg, helper, oog } => {
            if oog.is_some() {
                v.push(Step::Exec { ctl: *ctl, by: by.clone(), msg: msg.clone(), helper: *helper, oog: None });
            }
            if *helper {
                v.push(Step::Exec { ctl: *ctl, by: by.clone(), msg: msg.clone(), helper: false, oog: *oog });
            }
            if let XMsg::SendCosmosMsgs(sp) = msg {
                let mk = |sp| Step::Exec { ctl: *ctl, by: by.clone(), msg: XMsg::SendCosmosMsgs(sp), helper: *helper, oog: *oog };
                for i in 0..sp.messages.len() {
                    let mut n = sp.clone();
                    n.messages.remove(i);
                    v.push(mk(n));
                }
                for i in 0..sp.queries.len() {
                    let mut n = sp.clone();
                    n.queries.remove(i);
                    v.push(mk(n));
                }
                if sp.packet_memo.is_some() {
                    let mut n = sp.clone();
                    n.packet_memo = None;
                    v.push(mk(n));
                }
                if sp.timeout_seconds.is_some() {
                    let mut n = sp.clone();
                    n.timeout_seconds = None;
                    v.push(mk(n));
                }
            }
        }
        Step::Recv { chan, seq, host } if *host != HostDo::Normal => v.push(Step::Recv { chan: chan.clone(), seq: *seq, host: HostDo::Normal }),
        Step::Ack { chan, seq, rly, oog: Some(_) } => v.push(Step::Ack { chan: chan.clone(), seq: *seq, rly: *rly, oog: None }),
        Step::Timeout { chan, seq, rly, on_close, oog: Some(_) } => v.push(Step::Timeout { chan: chan.clone(), seq: *seq, rly: *rly, on_close: *on_close, oog: None }),
        Step::OpenAck { bchan, rly, oog: Some(_) } => v.push(Step::OpenAck { bchan: bchan.clone(), rly: *rly, oog: None }),
        Step::Batch { probe, items, fail } => {
            for i in 0..items.len() {
                let mut n = items.clone();
                n.remove(i);
                v.push(Step::Batch { probe: *probe, items: n, fail: *fail });
            }
        }
        _ => {}
    }
    v
}

#[derive(Default)]
struct Totals {
    runs: u64,
    steps: u64,
    calls: u64,
    prop_evals: u64,
    nontrivial: BTreeSet<u64>,
    hashes: BTreeSet<u64>,
    states: BTreeSet<u64>,
    schedules: BTreeSet<u64>,
    sim_nanos: u128,
    stats: BTreeMap<&'static str, u64>,
    kinds: BTreeMap<&'static str, u64>,
    profiles: BTreeMap<String, u64>,
    samples: BTreeMap<usize, Value>,
    panics: Vec<(u64, String)>,
    redo: u64,
    redo_bad: u64,
}

fn seed_for(base: u64, prop: &str, i: usize) -> u64 {
    mix(mix(base).wrapping_add(fnv(prop.as_bytes(), FNV0)).wrapping_add(i as u64))
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn load_lean() -> bool {
    if std::env::var("ICASIM_LEAN").as_deref() == Ok("0") {
        return false;
    }
    let mut cands = vec![];
    if let Ok(p) = std::env::var("ICASIM_LEAN") {
        cands.push(p);
    }
    if let Some(d) = std::env::current_exe().ok().and_then(|p| p.parent().map(std::path::Path::to_path_buf)) {
        cands.push(d.join("libicalean.so").display().to_string());
    }
    for c in cands {
        if std::path::Path::new(&c).exists() && lean::load(&c) && lean::available() {
            return true;
        }
    }
    false
}

fn check(args: &[String]) -> i32 {
    let t0 = Instant::now();
    let prop = arg(args, "--property").expect("--property");
    let tier = arg(args, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let dir = arg(args, "--out").unwrap_or_else(|| "/verif".into());
    let quick = tier != "thorough";
    let runs: usize = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if quick { 14_000 } else { 1_500_000 });
    let cap = Duration::from_secs(arg(args, "--cap").and_then(|s| s.parse().ok()).unwrap_or(if quick { 150 } else { 600 }));
    let wants_lean = matches!(prop.as_str(), "C21" | "C22" | "C24");
    let has_lean = wants_lean && load_lean();
    if wants_lean && !has_lean {
        eprintln!("feature-lean build of the owner contract is not available");
        return 2;
    }
    let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).min(16);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Totals::default());
    let failures: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let all_kinds = args.iter().any(|a| a == "--survey");
    let survey: Mutex<BTreeMap<String, (u64, u64, String, String)>> = Mutex::new(BTreeMap::new());
    let redo_every = (runs / 400).max(1);

    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| {
                let mut t = Totals::default();
                loop {
                    if stop.load(Ordering::Relaxed) || t0.elapsed() > cap {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= runs {
                        break;
                    }
                    let seed = seed_for(base, &prop, i);
                    let profile = profile_of(&prop, seed);
                    let stopf = |w: &World| !all_kinds && first(w, &prop).is_some();
                    let made = fresh(|| {
                        let mut g = Gen::new(seed, profile, &prop, &stopf);
                        g.run();
                        (g.w, g.steps)
                    });
                    let (w, steps) = match made {
                        Ok(x) => x,
                        Err(e) => {
                            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_default();
                            t.panics.push((seed, m));
                            continue;
                        }
                    };
                    t.runs += 1;
                    t.steps += steps.len() as u64;
                    t.calls += w.calls;
                    let ev = w.evals.get(prop.as_str()).copied().unwrap_or(0);
                    t.prop_evals += ev;
                    if ev > 0 {
                        t.nontrivial.insert(w.hash);
                    }
                    t.hashes.insert(w.hash);
                    t.states.extend(w.states.iter());
                    let mut sh = FNV0;
                    for s in &steps {
                        sh = fnv(s.kind().as_bytes(), sh);
                        *t.kinds.entry(s.kind()).or_default() += 1;
                    }
                    t.schedules.insert(sh);
                    t.sim_nanos += u128::from(w.a.time - w.min_time);
                    for (k, n) in &w.stats {
                        *t.stats.entry(k).or_default() += n;
                    }
                    *t.profiles.entry(format!("{profile:?}")).or_default() += 1;
                    if i < 3 {
                        let brief: Vec<String> = steps.iter().map(|s| world::short(&serde_json::to_string(s).unwrap())).collect();
                        t.samples.insert(i, json!({"seed": seed, "profile": format!("{profile:?}"), "history_hash": format!("{:016x}", w.hash), "steps": brief}));
                    }
                    if all_kinds {
                        let mut s = survey.lock().unwrap();
                        for v in &w.violations {
                            let e = s.entry(format!("{:?} {}", v.tags, v.kind)).or_insert((0, seed, format!("{profile:?}"), v.msg.clone()));
                            e.0 += 1;
                        }
                    }
                    // determinism of the simulator itself: same seed, and same step list, same history
                    if i % redo_every == 0 && first(&w, &prop).is_none() {
                        t.redo += 1;
                        let again = execute(&w.cfg, &steps, false, &stopf);
                        if again.map(|x| x.hash) != Some(w.hash) {
                            t.redo_bad += 1;
                            if let Some(v) = (prop == "C23").then(|| diverges(&w.cfg, &steps)).flatten() {
                                failures.lock().unwrap().push(Failure { index: i, seed, profile, cfg: w.cfg.clone(), steps: steps.clone(), v });
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    if let Some(v) = first(&w, &prop) {
                        if !all_kinds {
                            failures.lock().unwrap().push(Failure { index: i, seed, profile, cfg: w.cfg.clone(), steps, v: v.clone() });
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                let mut g = total.lock().unwrap();
                g.runs += t.runs;
                g.steps += t.steps;
                g.calls += t.calls;
                g.prop_evals += t.prop_evals;
                g.nontrivial.extend(t.nontrivial);
                g.hashes.extend(t.hashes);
                g.states.extend(t.states);
                g.schedules.extend(t.schedules);
                g.sim_nanos += t.sim_nanos;
                g.redo += t.redo;
                g.redo_bad += t.redo_bad;
                g.panics.extend(t.panics);
                g.samples.extend(t.samples);
                for (k, n) in t.stats {
                    *g.stats.entry(k).or_default() += n;
                }
                for (k, n) in t.kinds {
                    *g.kinds.entry(k).or_default() += n;
                }
                for (k, n) in t.profiles {
                    *g.profiles.entry(k).or_default() += n;
                }
            });
        }
    });

    let t = total.into_inner().unwrap();
    if all_kinds {
        for (k, (n, seed, p, m)) in survey.into_inner().unwrap() {
            println!("{n:7} {k}\n        seed {seed} {p}: {m}");
        }
        println!("runs {} wall {:?} calls {} panics {:?} redo {}/{}", t.runs, t0.elapsed(), t.calls, t.panics.iter().take(3).collect::<Vec<_>>(), t.redo_bad, t.redo);
        return 0;
    }
    let search = t0.elapsed().as_secs_f64();
    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|f| f.index);
    let mut code = 0;
    let nviol = failures.len();
    let mut reported = Value::Null;
    if let Some(f) = failures.first() {
        let (cfg, steps) = shrink(f, &prop, Duration::from_secs(40));
        let w = execute(&cfg, &steps, true, &|w| first(w, &prop).is_some());
        let (v, hash, trace) = match &w {
            Some(w) => (first(w, &prop).cloned().unwrap_or_else(|| f.v.clone()), w.hash, w.trace.clone().unwrap_or_default()),
            None => (f.v.clone(), 0, vec![]),
        };
        let rd = format!("{dir}/replays");
        let _ = std::fs::create_dir_all(&rd);
        let path = format!("{rd}/{prop}-{:016x}.json", f.seed);
        let r = Replay {
            property: prop.clone(),
            violation: v.clone(),
            history_hash: format!("{hash:016x}"),
            seed: f.seed,
            profile: format!("{:?}", f.profile),
            original_steps: f.steps.len(),
            lean: has_lean,
            cfg,
            steps,
            trace,
        };
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()) {
            eprintln!("cannot write {path}: {e}");
        }
        println!("seed {} ({:?}), {} steps minimised to {}", f.seed, f.profile, f.steps.len(), r.steps.len());
        for s in &r.steps {
            println!("  {}", world::short(&serde_json::to_string(s).unwrap()));
        }
        println!("{}: {}", v.kind, v.msg);
        // a fresh process must fail the same way
        let again = std::env::current_exe().ok().and_then(|x| std::process::Command::new(x).arg("replay").arg(&path).output().ok());
        let ok = again.as_ref().is_some_and(|o| o.status.code() == Some(1));
        println!("replayed in a fresh process: {}", if ok { "same violation" } else { "NOT reproduced" });
        println!("VIOLATION property={prop} replay={path}");
        reported = json!({"kind": v.kind, "message": v.msg, "seed": f.seed, "replay": path, "steps": r.steps.len(), "original_steps": f.steps.len(), "reproduced_in_fresh_process": ok});
        code = 1;
    } else if !t.panics.is_empty() {
        eprintln!("harness panic, seed {}: {}", t.panics[0].0, t.panics[0].1);
        code = 2;
    } else if t.redo_bad > 0 && prop == "C23" {
        // in-run comparison saw nothing, yet histories of equal inputs differ
        eprintln!("{} of {} histories differ when re-executed", t.redo_bad, t.redo);
        code = 2;
    }
    let per_hour = |n: u64| (n as f64 / search.max(0.001) * 3600.0) as u64;
    let evidence = json!({
        "property": prop,
        "tier": if quick { "quick" } else { "thorough" },
        "seed": base,
        "level": "exploration",
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": nviol,
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": format!("one evaluation is one simulated run of two chains, made from one seed (configuration, workload, interleaving and faults all drawn from it); it is non-trivial if the oracle of {prop} judged at least one call or state in it, and distinct if its history hash (step kinds, outcomes, every byte of controller storage after every step) is"),
            "samples": t.samples.values().collect::<Vec<_>>(),
            "oracle_judgements_of_this_property": t.prop_evals,
            "controller_calls": t.calls,
            "steps": t.steps,
            "steps_by_kind": t.kinds,
            "runs_by_profile": t.profiles,
            "runs_per_hour": per_hour(t.runs),
            "seeds_per_hour": per_hour(t.runs),
            "simulated_seconds": (t.sim_nanos / 1_000_000_000) as u64,
            "faults_injected": t.stats,
            "distinct_histories": t.hashes.len(),
            "distinct_schedules": t.schedules.len(),
            "distinct_abstract_states": t.states.len(),
            "measure": "schedule: sequence of step kinds; abstract state: channel status, times opened (capped), ordering, pending owner, callback set, migrations, channels in INIT, packets in flight with and without queries and resolved (capped at 4)",
            "determinism_rechecks": t.redo,
            "determinism_mismatches": t.redo_bad,
            "components_real": ["cw-ica-controller (all entry points, library helpers)", "callback-counter contract and the receiver macro", if has_lean { "cw-ica-owner contract (separate build without query and staking features)" } else { "cw-ica-owner not loaded in this check" }],
            "components_stub": ["wasm runtime (message dispatch, replies, rollback, gas cut-off)", "IBC core on both chains", "interchain-accounts host module and its query answers", "relayers", "harness callback contracts"],
            "reported": reported,
        },
        "assumptions": ["the stubs behave as wasmd, ibc-go and the ICS-27 host specify", "a clean batch is evidence over the explored seeds, not proof"],
    });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    if let Err(e) = std::fs::write(format!("{dir}/evidence/{prop}.json"), serde_json::to_string_pretty(&evidence).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        if code == 0 {
            code = 2;
        }
    }
    println!("{prop} {tier}: {} runs, {} non-trivial, {} judgements, {:.1} s, {}", t.runs, t.nontrivial.len(), t.prop_evals, t0.elapsed().as_secs_f64(), if code == 0 { "held" } else { "see above" });
    code
}

fn replay(args: &[String]) -> i32 {
    let Some(path) = args.first() else { return 2 };
    let Some(r) = std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str::<Replay>(&s).ok()) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    if r.lean && !load_lean() {
        eprintln!("feature-lean build of the owner contract is not available");
        return 2;
    }
    let Some(w) = execute(&r.cfg, &r.steps, true, &|w| first(w, &r.property).is_some()) else {
        eprintln!("harness panic");
        return 2;
    };
    for l in w.trace.iter().flatten() {
        println!("{}", l);
    }
    if r.violation.kind == DIVERGED {
        let again = diverges(&r.cfg, &r.steps);
        println!("{}", again.as_ref().map_or("not reproduced", |_| "VIOLATION property=C23"));
        return i32::from(again.is_some());
    }
    match first(&w, &r.property) {
        Some(v) => {
            let same = *v == r.violation && format!("{:016x}", w.hash) == r.history_hash;
            println!("{}: {}", v.kind, v.msg);
            println!("VIOLATION property={} replay={path}{}", r.property, if same { "" } else { " (a different violation or history than recorded)" });
            if same {
                1
            } else {
                4
            }
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

fn show(args: &[String]) -> i32 {
    let seed: u64 = args[0].parse().unwrap();
    let prop = args.get(2).cloned().unwrap_or_default();
    if matches!(prop.as_str(), "C21" | "C22" | "C24") {
        load_lean();
    }
    let stopf = |_: &World| false;
    let mut g = Gen::new(seed, profile_named(&args[1]), &prop, &stopf);
    g.w.trace = Some(vec![]);
    g.run();
    println!("{}", serde_json::to_string(&g.w.cfg).unwrap());
    for l in g.w.trace.iter().flatten() {
        println!("{l}");
    }
    for v in &g.w.violations {
        println!("step {} {:?} {}: {}", v.step, v.tags, v.kind, v.msg);
    }
    println!("hash {:016x} {:?}", g.w.hash, g.w.stats);
    0
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let rest = args.get(1..).unwrap_or(&[]).to_vec();
    if std::env::var("ICASIM_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let code = match args.first().map(String::as_str) {
        Some("check") => check(&rest),
        Some("replay") => replay(&rest),
        Some("show") => show(&rest),
        _ => {
            eprintln!("usage: icasim check --property Cxx [--tier quick|thorough] | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
