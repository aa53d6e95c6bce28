#![allow(dead_code)]
//! hsim: deterministic simulation with fault injection for hibou_label.
//!   hsim check <property> [--tier quick|thorough] [--seed N] [--runs N] [--from N]
//!   hsim replay <file>
//!   hsim selftest
mod case;
mod gen;
mod json;
mod oracle;
mod props;
mod reader;
mod refsem;
mod rng;
mod selftest;
mod sut;
mod term;

use case::Case;
use json::J;
use props::*;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use sut::Worker;

pub struct Env {
    pub verif: PathBuf,
    pub bin: PathBuf,
    pub shim: PathBuf,
    pub dots: PathBuf,
    pub scratch: PathBuf,
}
fn env() -> Env {
    let verif = PathBuf::from(std::env::var("HSIM_VERIF").unwrap_or_else(|_| "/verif".into()));
    let get = |k: &str| PathBuf::from(std::env::var(k).unwrap_or_else(|_| panic!("{} not set", k)));
    let scratch = std::env::temp_dir().join(format!("hsim.{}", std::process::id()));
    Env { bin: get("HSIM_BIN"), shim: get("HSIM_SHIM"), dots: get("HSIM_DOTS"), scratch, verif }
}

/// one execution of a case, isolated from panics of the harness itself (a panic is a harness error)
fn execute(p: &Prop, c: &Case, w: &mut Worker, st: &mut Stats) -> Res {
    let mut ctx = Ctx { w, st };
    (p.exec)(c, &mut ctx)
}

fn minimise(p: &Prop, c: &Case, why: &str, w: &mut Worker, budget: Duration) -> (Case, String, u64) {
    let t0 = Instant::now();
    let mut cur = c.clone();
    let mut cw = why.to_string();
    let mut n = 0;
    w.deadline = Some(t0 + budget);
    let class = |s: &str| s.split(|x: char| x == ':' || x == '(').next().unwrap_or("").chars().take(24).collect::<String>();
    'outer: loop {
        for k in cur.shrink() {
            if t0.elapsed() > budget {
                break 'outer;
            }
            n += 1;
            let mut st = Stats::default();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| execute(p, &k, w, &mut st)));
            if let Ok(Err(x)) = r {
                // stay with the same kind of violation
                if class(&x) == class(&cw) && size(&k) < size(&cur) {
                    cur = k;
                    cw = x;
                    continue 'outer;
                }
            }
        }
        break;
    }
    w.deadline = None;
    (cur, cw, n)
}
fn size(c: &Case) -> (usize, usize) {
    (c.f.iter().map(|(k, v)| if k == "os" { v.matches("fault=").count() * 20 + v.len() } else { v.len() }).sum(), 0)
}

/// findings listed in known/findings.json: (what, class, the case that fails)
fn known(e: &Env, prop: &str) -> Vec<(String, String, Case)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(e.verif.join("known/findings.json")) {
        if let Some(J::A(l)) = json::parse(&t).and_then(|j| j.get("findings").cloned()) {
            for f in l {
                if f.get("property").and_then(|x| x.str()) == Some(prop) {
                    let what = f.get("what").and_then(|x| x.str()).unwrap_or("").to_string();
                    if let Some(c) = f.get("replay").and_then(Case::from_json) {
                        let class = f.get("class").and_then(|x| x.str()).unwrap_or("-").to_string();
                        v.push((what, class, c));
                    }
                }
            }
        }
    }
    v
}

fn check(args: &[String]) -> i32 {
    let e = env();
    let id = args[0].clone();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut runs = None;
    let mut from = 0u64;
    let mut all_v = 1usize;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => tier = args[i + 1].clone(),
            "--seed" => seed = args[i + 1].parse().unwrap(),
            "--runs" => runs = Some(args[i + 1].parse::<u64>().unwrap()),
            "--from" => from = args[i + 1].parse().unwrap(),
            "--max-violations" => all_v = args[i + 1].parse().unwrap(),
            x => {
                eprintln!("unknown option {}", x);
                return 2;
            }
        }
        i += 2;
    }
    let ps = all();
    let p = match ps.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property {}", id);
            return 2;
        }
    };
    let thorough = tier == "thorough";
    let total = runs.unwrap_or(if thorough { p.thorough } else { p.quick });
    let cap = Duration::from_secs(if thorough { 3600 } else { 420 });
    let slow: u64 = std::env::var("HSIM_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    let t0 = Instant::now();
    let nthreads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    let next = AtomicU64::new(from);
    let stop = AtomicBool::new(false);
    let halt = std::sync::Arc::new(Mutex::new(None::<Instant>));
    let found: Mutex<Vec<(u64, Case, String)>> = Mutex::new(vec![]);
    let stats = Mutex::new(Stats::default());
    let sut = Mutex::new((0u64, 0u64, std::collections::BTreeMap::<String, u64>::new()));
    let done = AtomicU64::new(0);
    let harness_err = Mutex::new(None::<String>);
    let _ = std::fs::create_dir_all(&e.scratch);
    let knowns = known(&e, &id);
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::scope(|sc| {
        for k in 0..nthreads {
            let (next, stop, halt, found, stats, sut, done, harness_err, e, knowns) = (&next, &stop, &halt, &found, &stats, &sut, &done, &harness_err, &e, &knowns);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let mut w = Worker::new(&e.scratch, k, &e.bin, &e.shim, &e.dots);
                    w.deadline = Some(t0 + cap + Duration::from_secs(20));
                    w.stop = Some(halt.clone());
                    let mut st = Stats::default();
                    loop {
                        if stop.load(Ordering::Relaxed) || t0.elapsed() > cap {
                            break;
                        }
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= from + total {
                            break;
                        }
                        let mut r = rng::Rng::for_run(p.id, seed, idx);
                        let mut last = None;
                        let t1 = Instant::now();
                        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            let c = (p.gen)(&mut r, idx);
                            last = Some(c.clone());
                            let x = execute(p, &c, &mut w, &mut st);
                            (c, x)
                        }));
                        done.fetch_add(1, Ordering::Relaxed);
                        if slow > 0 && t1.elapsed().as_millis() as u64 > slow {
                            eprintln!("slow: run {} {} ms {:?}", idx, t1.elapsed().as_millis(), last.as_ref().map(|c: &Case| c.to_json().pretty()));
                        }
                        match res {
                            Ok((_, Ok(()))) => {}
                            Ok((_, Err(why))) if knowns.iter().any(|(_, k, _)| why.starts_with(&format!("known[{}]:", k))) => {
                                st.count(&format!("{}_met", why.split(':').next().unwrap_or("")));
                            }
                            Ok((c, Err(why))) => {
                                let mut f = found.lock().unwrap();
                                f.push((idx, c, why));
                                if f.len() >= all_v {
                                    stop.store(true, Ordering::Relaxed);
                                    // let the runs under way end, unless they are very slow
                                    halt.lock().unwrap().get_or_insert(Instant::now() + Duration::from_secs(15));
                                }
                            }
                            Err(pn) if pn.is::<sut::Abandoned>() => st.count("abandoned"),
                            Err(pn) => {
                                let m = pn
                                    .downcast_ref::<String>()
                                    .cloned()
                                    .or(pn.downcast_ref::<&str>().map(|x| x.to_string()))
                                    .unwrap_or_default();
                                *harness_err.lock().unwrap() = Some(format!("run {}: {} in {:?}", idx, m, last));
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    stats.lock().unwrap().merge(st);
                    let mut s = sut.lock().unwrap();
                    s.0 += w.runs;
                    s.1 += w.virt_ns;
                    for (k, v) in w.faults {
                        *s.2.entry(k).or_insert(0) += v;
                    }
                })
                .unwrap();
        }
    });
    let herr = harness_err.into_inner().unwrap();
    if let Some(m) = &herr {
        eprintln!("hsim: internal error: {}", m);
        if found.lock().unwrap().is_empty() {
            let _ = std::fs::remove_dir_all(&e.scratch);
            return 4;
        }
    }
    let mut viol = found.into_inner().unwrap();
    viol.sort_by_key(|x| x.0);
    let st = stats.into_inner().unwrap();
    let (sruns, virt, sfaults) = sut.into_inner().unwrap();
    let mut code = 0;
    let mut w = Worker::new(&e.scratch, 99, &e.bin, &e.shim, &e.dots);
    // ---- known findings: replayed, so that their disappearance is seen
    for (what, class, c) in &knowns {
        let mut s2 = Stats::default();
        if execute(p, c, &mut w, &mut s2).is_err_and(|x| class == "-" || x.starts_with(&format!("known[{}]", class))) {
            println!("KNOWN-FINDING: property={} {}", id, what);
        } else {
            println!("note: known finding no longer reproduces: {}", what);
        }
    }
    let mut unconfirmed = 0;
    let mut reported = vec![];
    for (idx, c, why) in &viol {
        if all_v == 1 && reported.len() == 1 {
            // one is what was asked for
            break;
        }
        // confirm: the same case must fail again in the same way
        let mut s2 = Stats::default();
        w.deadline = Some(Instant::now() + Duration::from_secs(150));
        let again = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| execute(p, c, &mut w, &mut s2)));
        w.deadline = None;
        let (m, mw, tries) = match again {
            Ok(Ok(())) => {
                unconfirmed += 1;
                eprintln!("hsim: run {} did not repeat: {}", idx, why);
                continue;
            }
            Ok(Err(x)) => minimise(p, c, &x, &mut w, Duration::from_secs(if all_v > 1 { 20 } else { 60 })),
            // repeating it takes too long (the tool is very slow on it): as it is
            Err(_) => (c.clone(), why.clone(), 0),
        };
        if knowns.iter().any(|(_, _, k)| k == &m || k == c) {
            continue;
        }
        let dir = e.verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.json", id, seed, idx));
        let mut j = m.to_json();
        if let J::O(v) = &mut j {
            v.push(("violation".into(), json::s(&mw)));
            v.push(("seed".into(), json::n(seed)));
            v.push(("run".into(), json::n(*idx)));
            v.push(("minimisation_attempts".into(), json::n(tries)));
            v.push(("original".into(), c.to_json().get("case").unwrap().clone()));
        }
        let _ = std::fs::write(&path, j.pretty());
        println!("violation: {}", mw);
        println!("replay it with: bash {}/check.sh replay {}", e.verif.display(), path.display());
        println!("VIOLATION property={} replay={}", id, path.display());
        reported.push(path.display().to_string());
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let dn = done.load(Ordering::Relaxed);
    // ---- evidence
    let per_h = |n: u64| (n as f64 / wall.max(0.001) * 3600.0).round();
    let mut faults = st.world_faults.clone();
    for (k, v) in sfaults {
        *faults.entry(format!("os-{}", k)).or_insert(0) += v;
    }
    let ev = J::O(vec![
        ("property".into(), json::s(&id)),
        ("tier".into(), json::s(&tier)),
        ("seed".into(), json::n(seed)),
        ("level".into(), json::s("exploration")),
        (
            "coverage".into(),
            J::O(vec![
                ("evaluations".into(), json::n(dn)),
                ("distinct_nontrivial".into(), json::n(st.nontrivial.len() as u64)),
                (
                    "rule".into(),
                    json::s("an evaluation is one simulated execution (system, schedule, faults, commands, simulated OS) drawn from (seed, run number); it is non-trivial when the property's antecedent held and a verdict or output of the tool was judged; two are distinct when any part of the execution differs"),
                ),
                ("samples".into(), J::A(st.samples.iter().take(4).map(|x| json::s(x)).collect())),
                ("runs_per_hour_one_seed_each".into(), J::N(per_h(dn))),
                ("tool_processes".into(), json::n(sruns)),
                ("tool_processes_per_hour".into(), J::N(per_h(sruns))),
                ("simulated_system_instants".into(), json::n(st.ticks)),
                ("simulated_process_time_ns".into(), json::n(virt)),
                ("fault_kinds_injected".into(), json::map(&faults)),
                ("distinct_executions".into(), json::n(st.execs.len() as u64)),
                ("distinct_measure".into(), json::s("64-bit digest of the whole execution description")),
                ("outcomes".into(), json::map(&st.counters)),
                ("unconfirmed".into(), json::n(unconfirmed)),
                ("known_findings".into(), json::n(knowns.len() as u64)),
                (
                    "real_components".into(),
                    json::s("the hibou_label binary built from /repo's working tree (parsers, analyses, explorations, rewriting, automata, slicing, mutation, file output), libc, and the file system below a scratch directory"),
                ),
                (
                    "stub_components".into(),
                    json::s("the observed distributed system and its log collectors (reference model in hsim); clocks, entropy, file-operation failures, allocation failures (preloaded shim); graphviz 'dot' (stand-in that writes its output file)"),
                ),
                ("target_runs".into(), json::n(total)),
                ("replay_files".into(), J::A(reported.iter().map(|x| json::s(x)).collect())),
            ]),
        ),
        ("wall_s".into(), J::N(wall)),
        ("violations".into(), json::n(reported.len() as u64)),
    ]);
    let evd = e.verif.join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    let _ = std::fs::write(evd.join(format!("{}.json", id)), ev.pretty());
    println!(
        "{} {}: {} simulated runs, {} non-trivial, {} tool processes, {:.1}s, outcomes {:?}",
        id,
        p.what,
        dn,
        st.nontrivial.len(),
        sruns,
        wall,
        st.counters
    );
    let _ = std::fs::remove_dir_all(&e.scratch);
    code
}

fn replay(file: &str) -> i32 {
    let e = env();
    let t = std::fs::read_to_string(file).expect("replay file");
    let j = json::parse(&t).expect("replay file is not JSON");
    let c = Case::from_json(&j).expect("not a replay file");
    let ps = all();
    let p = ps.iter().find(|p| p.id == c.prop).expect("property");
    let _ = std::fs::create_dir_all(&e.scratch);
    let mut w = Worker::new(&e.scratch, 0, &e.bin, &e.shim, &e.dots);
    let mut st = Stats::default();
    let r = execute(p, &c, &mut w, &mut st);
    if std::env::var("HSIM_KEEP").is_ok() {
        println!("scratch kept in {}", w.jail().display());
    } else {
        let _ = std::fs::remove_dir_all(&e.scratch);
    }
    match r {
        Ok(()) => {
            println!("replay: property {} held", c.prop);
            0
        }
        Err(x) => {
            println!("violation: {}", x);
            println!("VIOLATION property={} replay={}", c.prop, file);
            1
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || match a.first().map(|x| x.as_str()) {
            Some("check") => check(&a[1..]),
            Some("replay") => replay(&a[1]),
            Some("selftest") => selftest::run(
                a.get(1).and_then(|x| x.parse().ok()).unwrap_or(3000),
                a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1),
            ),
            _ => {
                eprintln!("usage: hsim check <property> | replay <file> | selftest [runs [seed]]");
                2
            }
        })
        .unwrap()
        .join()
        .unwrap_or(4);
    std::process::exit(code);
}
