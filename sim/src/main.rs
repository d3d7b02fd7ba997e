#![recursion_limit = "256"]
#![feature(alloc_error_hook)]
#![allow(dead_code)]
//! Deterministic simulation of frozen-collections: see /verif/DESIGN.md.

mod bounds;
mod coll;
mod env;
mod exec;
mod gen;
mod mini;
mod plan;
mod run;
mod sched;

use env::*;
use plan::*;
use run::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write as _};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub class: String,
    pub message: String,
    /// hash of everything observed and of every scheduling decision up to the violation
    pub fingerprint: u64,
    pub schedule_hash: u64,
    pub steps: u64,
    pub plan: Plan,
}

#[derive(Serialize, Deserialize, Default)]
struct Report {
    seeds: u64,
    runs: u64,
    steps: u64,
    distinct: Vec<u64>,
    schedules: Vec<u64>,
    nontrivial: u64,
    multi: u64,
    fired: BTreeMap<String, u64>,
    counters: BTreeMap<String, u64>,
    kinds: BTreeMap<String, u64>,
    edges: Vec<u32>,
    other: BTreeMap<String, u64>,
    other_samples: Vec<String>,
    known: BTreeMap<String, u64>,
    unconfirmed: Vec<String>,
    trouble: Vec<String>,
    det_checked: u64,
    det_mismatch: u64,
    det_samples: Vec<String>,
    ratios: Vec<f32>,
    samples: Vec<serde_json::Value>,
    bh_modes: BTreeMap<String, u64>,
    os_modes: BTreeMap<String, u64>,
    sources: BTreeMap<String, u64>,
    violations: u64,
    slowest: (u64, u64, u32),
}

/// Does a violation of this class speak about this property?
fn relevant(prop: &str, class: &str, multi: bool) -> bool {
    let c = class.split('/').next().unwrap_or("");
    match c {
        "crash" | "memory" | "ledger" | "steps" => true,
        "panic" => prop != "C04",
        "hang" => !multi || matches!(prop, "C02" | "C12"),
        "leak" => matches!(prop, "C04" | "C05"),
        "contents" => matches!(prop, "C01" | "C02" | "C03" | "C05" | "C06" | "C07" | "C10"),
        "lookup" => matches!(prop, "C01" | "C02" | "C03" | "C05" | "C06" | "C10"),
        "containment" | "aliasing" => matches!(prop, "C01" | "C02" | "C03" | "C05" | "C06"),
        "many" => matches!(prop, "C03" | "C05" | "C06"),
        "iteration" => matches!(prop, "C02" | "C03" | "C05" | "C07"),
        "algebra" | "relation" => matches!(prop, "C02" | "C03" | "C08") || (prop == "C09" && class == "relation/wrong"),
        "equality" => matches!(prop, "C02" | "C03" | "C09"),
        "format" => matches!(prop, "C02" | "C03" | "C11"),
        "build" => matches!(prop, "C10"),
        "callbacks" => matches!(prop, "C12"),
        _ => true,
    }
}
/// Properties that speak about what a fault or another thread does to a run: a run that goes wrong without
/// them as well is some other defect.
fn needs_cause(prop: &str, class: &str) -> bool {
    match prop {
        "C02" | "C03" => true,
        // memory safety, containment and aliasing are promised however keys behave, well included
        "C05" => !matches!(class.split('/').next().unwrap_or(""), "crash" | "memory" | "ledger" | "leak" | "containment" | "aliasing"),
        _ => false,
    }
}

struct Known(Vec<(String, String, String)>);
fn root() -> String {
    std::env::var("FSIM_ROOT").unwrap_or_else(|_| "/verif".into())
}
impl Known {
    /// lines "finding: property=<id> class=<class> match=<text of the message>"
    fn load() -> Known {
        let mut v = Vec::new();
        for l in std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default().lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                if let Some((p, r)) = r.split_once(" class=") {
                    if let Some((c, m)) = r.split_once(" match=") {
                        v.push((p.into(), c.into(), m.into()));
                    }
                }
            }
        }
        Known(v)
    }
    fn is(&self, prop: &str, class: &str, msg: &str) -> Option<String> {
        self.0.iter().find(|k| k.0 == prop && k.1 == class && msg.contains(&k.2)).map(|k| format!("{} {}", k.1, k.2))
    }
}

pub fn with_recorded_schedule(p: &Plan) -> Plan {
    let m = shm();
    let mut q = p.clone();
    if q.clients.len() > 1 {
        q.sched = Sched::Explicit(m.sw[..m.nsw as usize].to_vec());
    }
    q
}

fn seq_no_faults(p: &Plan) -> Plan {
    let mut q = p.clone();
    q.faults.clear();
    q.sched = Sched::Seq;
    q
}

/// Some workers run without AddressSanitizer's quarantine, so that addresses come round again.
const REUSE: &str = "quarantine_size_mb=0:thread_local_quarantine_size_kb=0";
fn reuse_worker(idx: u64) -> bool {
    idx % 4 == 3
}

fn worker(prop: &str, thorough: bool, seed: u64, idx: u64, n: u64, secs: f64, max_seeds: u64, out: &str) {
    let t0 = Instant::now();
    let known = Known::load();
    let runner = Runner::new(&format!("w{idx}"));
    let mut rep = Report {
        ratios: vec![0.0; 16],
        ..Default::default()
    };
    let mut distinct = BTreeSet::new();
    let mut schedules = BTreeSet::new();
    let mut seen_classes: BTreeSet<String> = BTreeSet::new();
    let mut i = 0u64;
    let nvar = gen::variants(prop) as u32 * if thorough { 4 } else { 1 };
    'outer: while t0.elapsed().as_secs_f64() < secs && idx + i * n < max_seeds {
        let s = mix(mix(seed ^ 0x5eed_0000_0000) ^ mix(idx + i * n)) >> 12;
        i += 1;
        rep.seeds += 1;
        let mut base = gen::plan(prop, s, thorough);
        base.sched = Sched::Seq;
        base.reuse = reuse_worker(idx);
        let mut prof: Vec<OpProf> = Vec::new();
        let mut slow = false;
        for v in 0..=nvar {
            let p = if v == 0 { base.clone() } else { gen::variant(&base, &gen::Prof(&prof), v - 1) };
            if v > 0 && p.faults.is_empty() && p.sched == Sched::Seq && p.os == base.os {
                continue;
            }
            if v > 0 && t0.elapsed().as_secs_f64() > secs * 1.1 + 10.0 {
                break 'outer;
            }
            if v > 0 && slow && (v as u64 + s) % 3 != 0 {
                continue;
            }
            let t1 = Instant::now();
            let o = runner.run(&p);
            let m = shm();
            let ms = t1.elapsed().as_millis() as u64;
            if ms > rep.slowest.0 {
                rep.slowest = (ms, s, v);
            }
            rep.runs += 1;
            rep.steps += m.total;
            if v == 0 {
                // plans that take seconds get fewer variants
                slow = ms > 1500;
                prof = m.prof.to_vec();
            }
            let id = mix(m.fingerprint ^ mix(m.sched_hash) ^ mix(m.total));
            for k in 0..NK {
                for a in 0..NACT {
                    if m.fired[k][a] > 0 {
                        *rep.fired.entry(format!("{} in {}", ACT_NAMES[a], CB_NAMES[k])).or_default() += m.fired[k][a] as u64;
                    }
                }
            }
            for (j, name) in CNT_NAMES.iter().enumerate() {
                let e = rep.counters.entry(name.to_string()).or_default();
                if j == C::MaxSteps as usize {
                    *e = (*e).max(m.cnt[j])
                } else {
                    *e += m.cnt[j]
                }
            }
            for j in 0..16 {
                rep.ratios[j] = rep.ratios[j].max(m.maxratio[j]);
            }
            let mut hostile = m.nontrivial != 0 || p.os.0 != 0;
            for op in p.setup.iter().chain(p.clients.iter().flatten()).chain(p.teardown.iter()) {
                if let OpK::Build { spec, .. } = &op.k {
                    *rep.kinds.entry(spec.kind.clone()).or_default() += 1;
                    if coll::kind(&spec.kind).sim_bh {
                        *rep.bh_modes.entry(spec.bh.0.to_string()).or_default() += 1;
                        hostile |= spec.bh.0 >= 2;
                    }
                    if spec.ctor == Ctor::Iter {
                        *rep.sources.entry(format!("{:?}{}", spec.hint, if spec.end_at.is_some() { ", ends early and resumes" } else { "" })).or_default() += 1;
                        hostile |= spec.hint != HintLie::Exact || spec.end_at.is_some();
                    }
                    hostile |= spec.refuse;
                }
            }
            *rep.os_modes.entry(["varied", "all zero", "all ones", "one repeated byte"][p.os.0.min(3) as usize].into()).or_default() += 1;
            if p.clients.len() > 1 {
                rep.multi += 1;
                schedules.insert(m.sched_hash);
            }
            if hostile && distinct.insert(id) {
                rep.nontrivial += 1;
            }
            if rep.samples.len() < 2 && v == nvar / 2 + 1 && o.class.is_none() {
                rep.samples.push(sample(&p));
            }
            // the same plan once more has to be the same execution
            if rep.runs % 97 == 1 && o.class.is_none() {
                let (f, h, t) = (m.fingerprint, m.sched_hash, m.total);
                runner.run(&p);
                let m = shm();
                rep.det_checked += 1;
                if (f, h, t) != (m.fingerprint, m.sched_hash, m.total) {
                    rep.det_mismatch += 1;
                    if rep.det_samples.len() < 3 {
                        rep.det_samples.push(format!("seed {s} variant {v}: {:x}/{:x}/{t} against {:x}/{:x}/{}", f, h, m.fingerprint, m.sched_hash, m.total));
                    }
                }
                continue;
            }
            let Some(class) = o.class.clone() else { continue };
            if o.harness {
                if rep.trouble.len() < 5 {
                    rep.trouble.push(format!("seed {s} variant {v}: {}", o.msg));
                }
                continue;
            }
            // a violation: again, twice
            let q = with_recorded_schedule(&p);
            let mut again = 0;
            for _ in 0..2 {
                if runner.run(&q).class.as_ref() == Some(&class) {
                    again += 1;
                }
            }
            let r = Replay {
                property: prop.into(),
                seed: s,
                class: class.clone(),
                message: o.msg.clone(),
                fingerprint: shm().fingerprint,
                schedule_hash: shm().sched_hash,
                steps: shm().total,
                plan: q.clone(),
            };
            if again < 2 {
                if rep.unconfirmed.len() < 5 {
                    rep.unconfirmed.push(format!("seed {s} variant {v}: {class} {}", o.msg));
                }
                continue;
            }
            let foreign = !relevant(prop, &class, p.clients.len() > 1) || (needs_cause(prop, &class) && (v == 0 || runner.run(&seq_no_faults(&p)).class.is_some()));
            if foreign {
                *rep.other.entry(class.clone()).or_default() += 1;
                if rep.other_samples.len() < 3 {
                    rep.other_samples.push(format!("seed {s} variant {v}: {class}: {}", o.msg));
                }
                if v == 0 {
                    break;
                }
                continue;
            }
            if let Some(k) = known.is(prop, &class, &o.msg) {
                *rep.known.entry(k).or_default() += 1;
                if v == 0 {
                    break;
                }
                continue;
            }
            rep.violations += 1;
            if seen_classes.insert(class.clone()) {
                let path = format!("{out}.viol{}.json", seen_classes.len());
                std::fs::write(&path, serde_json::to_string(&r).unwrap()).unwrap();
                println!("VIOL {path}");
                let _ = std::io::stdout().flush();
            }
            if seen_classes.len() >= 2 || rep.violations >= 4 {
                break 'outer;
            }
            if v == 0 {
                break;
            }
        }
    }
    rep.distinct = distinct.into_iter().collect();
    rep.schedules = schedules.into_iter().collect();
    rep.edges = cov_edges();
    std::fs::write(out, serde_json::to_string(&rep).unwrap()).unwrap();
}

fn sample(p: &Plan) -> serde_json::Value {
    let ops = |v: &[Op]| -> Vec<String> { v.iter().take(12).map(|o| format!("{}: {}", o.id, exec::short(o))).collect() };
    serde_json::json!({
        "seed": p.seed, "variant": p.variant, "setup": ops(&p.setup),
        "clients": p.clients.iter().map(|c| ops(c)).collect::<Vec<_>>(),
        "teardown": ops(&p.teardown),
        "faults": p.faults.iter().map(|f| format!("{f:?}")).collect::<Vec<_>>(),
        "schedule": format!("{:?}", p.sched).chars().take(300).collect::<String>(),
    })
}

fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = std::env::var("FSIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600.0 } else { 90.0 });
    let max_seeds: u64 = std::env::var("FSIM_SEEDS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 16) as u64;
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    let tmp = std::env::temp_dir().join(format!("fsim-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let mut violations: Vec<Replay> = Vec::new();

    // compile-time facts the schedules rely on
    if prop == "C02" {
        for (ty, ok) in coll::sync_probe() {
            if !ok {
                violations.push(Replay {
                    property: prop.into(),
                    seed: 0,
                    class: "sharing/not-sync".into(),
                    message: format!("{ty} cannot be shared between threads: it is not Send + Sync"),
                    fingerprint: 0,
                    schedule_hash: 0,
                    steps: 0,
                    plan: gen::plan("C02", 1, false),
                });
            }
        }
    }

    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = std::sync::mpsc::channel::<String>();
    let mut kids = Vec::new();
    for w in 0..n {
        let out = tmp.join(format!("w{w}.json"));
        let mut c = Command::new(&exe);
        if reuse_worker(w) {
            c.env("ASAN_OPTIONS", REUSE);
        }
        let mut c = c
            .args(["worker", prop, tier, &seed.to_string(), &w.to_string(), &n.to_string(), &secs.to_string(), &max_seeds.to_string()])
            .arg(&out)
            .env("TMPDIR", &tmp)
            .stdout(Stdio::piped())
            .spawn()
            .expect("worker");
        let so = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines().map_while(Result::ok) {
                if let Some(p) = l.strip_prefix("VIOL ") {
                    let _ = tx.send(p.to_string());
                }
            }
        });
        kids.push((c, out));
    }
    drop(tx);
    let mut found: Vec<String> = Vec::new();
    let hard = Instant::now() + Duration::from_secs_f64(secs * 1.5 + 60.0);
    let mut died = Vec::new();
    loop {
        while let Ok(p) = rx.try_recv() {
            found.push(p);
        }
        let mut running = false;
        for (c, _) in kids.iter_mut() {
            match c.try_wait() {
                Ok(None) => running = true,
                Ok(Some(_)) | Err(_) => {}
            }
        }
        if !running {
            break;
        }
        if !found.is_empty() {
            // give the others a moment: a shorter or clearer failure may turn up
            std::thread::sleep(Duration::from_millis(1500));
            while let Ok(p) = rx.try_recv() {
                found.push(p);
            }
            for (c, _) in kids.iter_mut() {
                let _ = c.kill();
            }
            for (c, _) in kids.iter_mut() {
                let _ = c.wait();
            }
            break;
        }
        if Instant::now() > hard {
            for (c, _) in kids.iter_mut() {
                let _ = c.kill();
            }
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    std::thread::sleep(Duration::from_millis(50));
    while let Ok(p) = rx.try_recv() {
        found.push(p);
    }
    let mut tot = Report {
        ratios: vec![0.0; 16],
        ..Default::default()
    };
    let mut distinct = BTreeSet::new();
    let mut schedules = BTreeSet::new();
    let mut edges = BTreeSet::new();
    for (w, (_, out)) in kids.iter().enumerate() {
        let r: Report = match std::fs::read_to_string(out).ok().and_then(|s| serde_json::from_str(&s).ok()) {
            Some(r) => r,
            None => {
                died.push(w);
                continue;
            }
        };
        tot.seeds += r.seeds;
        tot.runs += r.runs;
        tot.steps += r.steps;
        tot.multi += r.multi;
        tot.det_checked += r.det_checked;
        tot.det_mismatch += r.det_mismatch;
        tot.violations += r.violations;
        tot.slowest = tot.slowest.max(r.slowest);
        distinct.extend(r.distinct);
        schedules.extend(r.schedules);
        edges.extend(r.edges);
        let add = |a: &mut BTreeMap<String, u64>, b: BTreeMap<String, u64>, max: bool| {
            for (k, v) in b {
                let m = max && k == "max_steps_of_one_operation";
                let e = a.entry(k).or_default();
                *e = if m { (*e).max(v) } else { *e + v };
            }
        };
        add(&mut tot.fired, r.fired, false);
        add(&mut tot.counters, r.counters, true);
        add(&mut tot.kinds, r.kinds, false);
        add(&mut tot.other, r.other, false);
        add(&mut tot.known, r.known, false);
        add(&mut tot.bh_modes, r.bh_modes, false);
        add(&mut tot.os_modes, r.os_modes, false);
        add(&mut tot.sources, r.sources, false);
        tot.other_samples.extend(r.other_samples);
        tot.unconfirmed.extend(r.unconfirmed);
        tot.trouble.extend(r.trouble);
        tot.det_samples.extend(r.det_samples);
        for j in 0..16 {
            tot.ratios[j] = tot.ratios[j].max(r.ratios[j]);
        }
        if tot.samples.len() < 3 {
            tot.samples.extend(r.samples);
        }
    }
    let search_s = t0.elapsed().as_secs_f64();

    // shortest first, minimised, and confirmed by a fresh process
    let mut cand: Vec<Replay> = found.iter().filter_map(|p| std::fs::read_to_string(p).ok()).filter_map(|s| serde_json::from_str(&s).ok()).collect();
    cand.sort_by_key(|r: &Replay| {
        let ops = r.plan.setup.len() + r.plan.clients.iter().map(|c| c.len()).sum::<usize>() + r.plan.teardown.len();
        (r.class.starts_with("hang"), r.plan.clients.len() > 1, ops)
    });
    let mut printed = BTreeSet::new();
    let mut lines = Vec::new();
    for v in &violations {
        let path = format!("{dir}/{prop}-{}.json", v.class.replace('/', "-"));
        std::fs::write(&path, serde_json::to_string_pretty(v).unwrap()).unwrap();
        eprintln!("{}: {}", v.class, v.message);
        if printed.insert(v.class.clone()) {
            lines.push(format!("VIOLATION property={prop} replay={path}"));
        }
    }
    for r in cand {
        if printed.len() >= 2 || printed.contains(&r.class) {
            continue;
        }
        let raw = tmp.join("raw.json");
        let path = format!("{dir}/{prop}-{}-{}.json", r.seed, r.class.replace('/', "-"));
        std::fs::write(&raw, serde_json::to_string(&r).unwrap()).unwrap();
        let st = Command::new(&exe).arg("minimise").arg(&raw).arg(&path).arg("25").env("TMPDIR", &tmp).stdout(Stdio::null()).status();
        let mut ok = false;
        if st.is_ok_and(|s| s.success()) {
            ok = replays(&exe, &path, &tmp);
        }
        if !ok {
            std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
            ok = replays(&exe, &path, &tmp);
        }
        if !ok {
            tot.unconfirmed.push(format!("seed {}: {} {} (not reproduced by a fresh process)", r.seed, r.class, r.message));
            let _ = std::fs::remove_file(&path);
            continue;
        }
        let m: Replay = serde_json::from_str(&std::fs::read_to_string(&path).unwrap()).unwrap();
        eprintln!("seed {}: {}: {}", m.seed, m.class, m.message);
        eprintln!("{}", describe(&m.plan));
        printed.insert(m.class.clone());
        lines.push(format!("VIOLATION property={prop} replay={path}"));
    }
    let _ = std::fs::remove_dir_all(&tmp);
    for k in tot.known.keys() {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    let wall = t0.elapsed().as_secs_f64();
    let hours = (search_s / 3600.0).max(1e-9);
    let (api, keytypes) = (tot.kinds.len(), tot.kinds.clone());
    let ratios: BTreeMap<&str, f32> = bounds::CLASS_NAMES.iter().zip(tot.ratios.iter()).filter(|x| *x.1 > 0.0).map(|(a, b)| (*a, *b)).collect();
    let ev = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot.runs,
            "distinct_nontrivial": distinct.len(),
            "rule": "One evaluation is one simulated run of a plan (collections, client programs, fault list, schedule), all derived from VERIF_SEED. Non-trivial: a fault fired, a thread was switched out inside a library call, or the run used a colliding hash builder, degenerate OS randomness, a misreporting source or entries that must be refused. Distinct: different hash over every answer observed, every scheduling decision and the number of library steps.",
            "samples": tot.samples.into_iter().take(3).collect::<Vec<_>>(),
            "seeds": tot.seeds,
            "runs_per_hour": (tot.runs as f64 / hours) as u64,
            "seeds_per_hour": (tot.seeds as f64 / hours) as u64,
            "simulated_time_library_steps": tot.steps,
            "multi_client_runs": tot.multi,
            "distinct_interleavings": schedules.len(),
            "interleaving_measure": "hash of the sequence of executed hand-overs (client, operation, step within the operation)",
            "library_code_edges_reached": edges.len(),
            "faults_injected": tot.fired,
            "hash_builder_modes": tot.bh_modes,
            "os_randomness": tot.os_modes,
            "sources": tot.sources,
            "operations": tot.counters,
            "collection_types": api,
            "collections_planned_per_type": keytypes,
            "steps_over_bound_polynomial_max": ratios,
            "determinism_rechecks": tot.det_checked,
            "determinism_mismatches": tot.det_mismatch,
            "determinism_samples": tot.det_samples,
            "findings_of_other_properties": tot.other,
            "findings_of_other_properties_samples": tot.other_samples,
            "unconfirmed": tot.unconfirmed,
            "harness_trouble": tot.trouble,
            "workers_lost": died.len(),
            "slowest_run_ms_seed_variant": tot.slowest,
            "known_findings_hit": tot.known,
            "components": {
                "real": ["frozen-collections crate, all code, built from /repo's working tree", "hashbrown, core, alloc and std as linked", "OS threads (one runs at a time)"],
                "simulated": ["thread scheduling", "global allocator failures", "operating-system randomness (getrandom)", "hash builders, keys, values, their callbacks", "source iterators", "formatting sinks", "caller closures"],
                "stubbed": []
            }
        },
        "assumptions": [
            "Preemption points are the coverage edges, loads and stores of monomorphised library code, and every callback; sequentially consistent interleavings only, no weak-memory effects.",
            "Memory safety is judged by AddressSanitizer, ledger tokens and debug assertions during the run, not by a formal aliasing model.",
            "Seeded sampling: absence of a violation is evidence for the runs made, not a proof."
        ],
        "wall_s": wall,
        "violations": lines.len(),
    });
    std::fs::write(format!("{}/evidence/{prop}.json", root()), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{prop} {tier}: {} runs of {} seeds in {:.0} s, {} distinct non-trivial, {} interleavings, {} violations", tot.runs, tot.seeds, wall, distinct.len(), schedules.len(), lines.len());
    for l in &lines {
        println!("{l}");
    }
    if !lines.is_empty() {
        return 1;
    }
    if tot.runs == 0 {
        eprintln!("no run was made: {:?}", tot.trouble);
        return 3;
    }
    0
}

fn replays(exe: &std::path::Path, path: &str, tmp: &std::path::Path) -> bool {
    Command::new(exe)
        .arg("replay")
        .arg(path)
        .env("TMPDIR", tmp)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .is_ok_and(|s| s.code() == Some(1))
}

pub fn describe(p: &Plan) -> String {
    let mut s = String::new();
    let ops = |s: &mut String, n: &str, v: &[Op]| {
        for o in v.iter().take(30) {
            *s += &format!("  {n} {}: {}\n", o.id, exec::short(o));
        }
    };
    ops(&mut s, "setup", &p.setup);
    for (i, c) in p.clients.iter().enumerate() {
        ops(&mut s, &format!("client {}", i + 1), c);
    }
    ops(&mut s, "teardown", &p.teardown);
    for f in &p.faults {
        s += &format!("  fault {f:?}\n");
    }
    if let Sched::Explicit(l) = &p.sched {
        s += &format!("  schedule: {} hand-overs {:?}\n", l.len(), l.iter().take(12).collect::<Vec<_>>());
    }
    s
}

fn replay(path: &str) -> i32 {
    let r: Replay = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 3;
        }
    };
    if r.class == "sharing/not-sync" {
        let bad: Vec<_> = coll::sync_probe().into_iter().filter(|x| !x.1).collect();
        for b in &bad {
            println!("not Send + Sync: {}", b.0);
        }
        return !bad.is_empty() as i32;
    }
    let runner = Runner::new("replay");
    let o = runner.run(&r.plan);
    let m = shm();
    match o.class {
        Some(c) if c == r.class => {
            let exact = (m.fingerprint, m.sched_hash, m.total) == (r.fingerprint, r.schedule_hash, r.steps);
            println!("reproduced {}: {}{}", c, o.msg, if exact { " (identical execution)" } else { "" });
            1
        }
        Some(c) => {
            println!("a different failure: {c}: {}", o.msg);
            2
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn no_aslr() {
    if std::env::var_os("FSIM_FIXED").is_some() {
        return;
    }
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && libc::personality(p as libc::c_ulong | 0x0040000) >= 0 {
            use std::os::unix::process::CommandExt;
            let e = Command::new(std::env::current_exe().unwrap()).args(std::env::args_os().skip(1)).env("FSIM_FIXED", "1").env("RUST_BACKTRACE", "0").exec();
            eprintln!("{e}");
        }
    }
}

/// A plan that wants its addresses reused needs a process started that way.
fn no_quarantine(path: &str) {
    if std::env::var_os("ASAN_OPTIONS").is_some() {
        return;
    }
    let reuse = std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str::<Replay>(&s).ok()).is_some_and(|r| r.plan.reuse);
    if reuse {
        use std::os::unix::process::CommandExt;
        let e = Command::new(std::env::current_exe().unwrap()).args(std::env::args_os().skip(1)).env("ASAN_OPTIONS", REUSE).exec();
        eprintln!("{e}");
    }
}

fn main() {
    no_aslr();
    let a: Vec<String> = std::env::args().collect();
    if matches!(a.get(1).map(|s| s.as_str()), Some("replay" | "minimise")) {
        no_quarantine(a.get(2).map(|s| s.as_str()).unwrap_or(""));
    }
    let g = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| g(i).parse::<f64>().unwrap_or(0.0);
    let code = match g(1) {
        "check" => check(g(2), if g(3).is_empty() { "quick" } else { g(3) }),
        "worker" => {
            worker(g(2), g(3) == "thorough", g(4).parse().unwrap(), num(5) as u64, num(6) as u64, num(7), g(8).parse().unwrap(), g(9));
            0
        }
        "replay" => replay(g(2)),
        "minimise" => mini::minimise(g(2), g(3), num(4)),
        "one" => {
            // fsim one <prop> <seed> <variant>: a single run, for debugging
            let s: u64 = g(3).parse().unwrap();
            let v: u32 = g(4).parse().unwrap_or(0);
            let runner = Runner::new("one");
            let base = gen::plan(g(2), s, false);
            let mut o = runner.run(&base);
            let mut p = base.clone();
            if v > 0 {
                let prof = shm().prof.to_vec();
                p = gen::variant(&base, &gen::Prof(&prof), v - 1);
                o = runner.run(&p);
            }
            println!("{}", describe(&p));
            println!("{o:?} steps {} switches {}", shm().total, shm().nsw);
            0
        }
        _ => {
            eprintln!("usage: fsim check <property> [quick|thorough] | replay <file> | minimise <in> <out> <seconds> | one <property> <seed> <variant>");
            2
        }
    };
    std::process::exit(code)
}
