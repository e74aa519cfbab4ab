mod back;
mod ctx;
mod edits;
mod gen;
mod lsp;
mod model;
mod node;
mod props;
mod tape;
mod text;
mod world;

use crate::ctx::{Ctx, Stats};
use crate::lsp::{Fail, Res};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub struct Prop {
    pub id: &'static str,
    /// cases (servers) of the quick and the thorough tier
    pub quick: u32,
    pub thorough: u32,
    /// documents or histories per case
    pub batch: usize,
    /// length of the tape of each
    pub tape: usize,
    pub threads: usize,
    /// time limit of minimisation
    pub shrink_s: u64,
    pub run: fn(&Ctx, &[Vec<u32>], &mut Stats) -> Res<()>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

struct Found {
    message: String,
    tapes: Vec<Vec<u32>>,
}

/// Smaller tapes that still violate the property
fn minimise(p: &Prop, ctx: &Ctx, mut best: Found) -> Found {
    let seconds = std::env::var("VERIF_MINIMISE_S").ok().and_then(|s| s.parse().ok());
    let end = Instant::now() + std::time::Duration::from_secs(seconds.unwrap_or(p.shrink_s));
    let mut try_it = |best: &mut Found, tapes: Vec<Vec<u32>>| -> bool {
        if Instant::now() > end {
            return false;
        }
        match (p.run)(ctx, &tapes, &mut Stats::default()) {
            Err(Fail::Violation(message)) => {
                *best = Found { message, tapes };
                true
            }
            _ => false,
        }
    };
    // one history is enough, usually
    for i in 0..best.tapes.len() {
        let one = vec![best.tapes[i].clone()];
        if best.tapes.len() > 1 && try_it(&mut best, one) {
            break;
        }
    }
    let mut i = 0;
    while best.tapes.len() > 1 && i < best.tapes.len() {
        let mut t = best.tapes.clone();
        t.remove(i);
        if !try_it(&mut best, t) {
            i += 1;
        }
    }
    loop {
        let before = best.tapes.clone();
        for k in 0..best.tapes.len() {
            let mut size = best.tapes[k].len();
            while size > 0 {
                let mut at = 0;
                while at < best.tapes[k].len() {
                    let to = (at + size).min(best.tapes[k].len());
                    let mut t = best.tapes.clone();
                    t[k].drain(at..to);
                    if try_it(&mut best, t) {
                        continue;
                    }
                    if best.tapes[k][at..to].iter().any(|v| *v != 0) {
                        let mut t = best.tapes.clone();
                        t[k][at..to].fill(0);
                        try_it(&mut best, t);
                    }
                    at += size;
                }
                size /= 2;
            }
            for at in 0..best.tapes[k].len() {
                for shift in [4, 1] {
                    while at < best.tapes[k].len() && best.tapes[k][at] > 0 {
                        let mut t = best.tapes.clone();
                        t[k][at] >>= shift;
                        if !try_it(&mut best, t) {
                            break;
                        }
                    }
                }
            }
        }
        if best.tapes == before || Instant::now() > end {
            return best;
        }
    }
}

fn seed_bytes(seed: u64, thread: u64, id: &str) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..16].copy_from_slice(&thread.to_le_bytes());
    for (i, c) in id.bytes().enumerate().take(16) {
        b[16 + i] = c;
    }
    b
}

fn scratch() -> PathBuf {
    std::env::temp_dir().join(format!("jinja-lsp-verif-{}", std::process::id()))
}

fn run_prop(p: &'static Prop, thorough: bool, seed: u64, verif: &Path, repo: &Path) -> i32 {
    let started = Instant::now();
    let mut cases = if thorough { p.thorough } else { p.quick };
    if let Some(n) = std::env::var("VERIF_CASES").ok().and_then(|n| n.parse().ok()) {
        cases = n;
    }
    let threads = p.threads.min(cases.max(1) as usize);
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<Found>>> = Arc::new(Mutex::new(None));
    let infra: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let total = Arc::new(Mutex::new(Stats::default()));
    let dir = scratch();
    std::thread::scope(|s| {
        for thread in 0..threads {
            let (stop, found, infra, total) = (stop.clone(), found.clone(), infra.clone(), total.clone());
            let dir = dir.join(format!("t{thread}"));
            s.spawn(move || {
                let ctx = Ctx::new(dir, repo);
                let n = cases / threads as u32 + u32::from((thread as u32) < cases % threads as u32);
                let config = Config {
                    cases: n,
                    failure_persistence: None,
                    // the tapes are minimised below
                    max_shrink_iters: 0,
                    max_global_rejects: 1 << 20,
                    ..Config::default()
                };
                let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, thread as u64, p.id));
                let mut runner = TestRunner::new_with_rng(config, rng);
                let tape = proptest::collection::vec(proptest::num::u32::ANY, p.tape / 6..=p.tape);
                let strategy = proptest::collection::vec(tape, p.batch.div_ceil(2)..=p.batch);
                let stats = std::cell::RefCell::new(Stats {
                    recording: true,
                    ..Default::default()
                });
                let mine = std::cell::Cell::new(false);
                let result = runner.run(&strategy, |tapes| {
                    if stop.load(Ordering::Relaxed) && !mine.get() {
                        return Ok(());
                    }
                    let r = (p.run)(&ctx, &tapes, &mut stats.borrow_mut());
                    match r {
                        Ok(()) => Ok(()),
                        Err(Fail::Violation(m)) => {
                            if !mine.get() {
                                // only one thread minimises
                                if stop.swap(true, Ordering::SeqCst) {
                                    return Ok(());
                                }
                                mine.set(true);
                                stats.borrow_mut().recording = false;
                            }
                            Err(TestCaseError::fail(m))
                        }
                        Err(Fail::Infra(m)) => {
                            if !mine.get() {
                                stop.store(true, Ordering::SeqCst);
                                infra.lock().unwrap().get_or_insert(m);
                            }
                            Ok(())
                        }
                    }
                });
                if let Err(e) = result {
                    match e {
                        TestError::Fail(reason, tapes) => {
                            let f = Found {
                                message: reason.message().to_string(),
                                tapes,
                            };
                            *found.lock().unwrap() = Some(minimise(p, &ctx, f));
                        }
                        TestError::Abort(m) => {
                            infra.lock().unwrap().get_or_insert(m.message().to_string());
                        }
                    }
                }
                total.lock().unwrap().merge(stats.into_inner());
            });
        }
    });
    let mut exit = 0;
    let mut violations = 0;
    if let Some(f) = found.lock().unwrap().take() {
        violations = 1;
        exit = 1;
        let replay = write_replay(p, &f, verif, &dir, repo);
        println!("{}", f.message);
        println!("VIOLATION property={} replay={}", p.id, replay.display());
    } else if let Some(m) = infra.lock().unwrap().take() {
        println!("ERROR: {m}");
        exit = 2;
    }
    let _ = std::fs::remove_dir_all(&dir);
    let stats = std::mem::take(&mut *total.lock().unwrap());
    let samples: Vec<&String> = stats.samples.iter().take(4).collect();
    let evidence = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.evaluations,
            "distinct_nontrivial": stats.distinct.len(),
            "rule": p.rule,
            "samples": samples,
            "discarded": stats.discarded,
            "classes": stats.classes,
            "servers_or_runs": cases,
            "threads": threads,
        },
        "assumptions": p.assumptions,
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let path = verif.join("evidence").join(format!("{}.json", p.id));
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&evidence).unwrap() + "\n") {
        println!("ERROR: {path:?}: {e}");
        exit = if exit == 0 { 2 } else { exit };
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} discarded, {:.1} s",
        p.id,
        stats.evaluations,
        stats.distinct.len(),
        stats.discarded,
        started.elapsed().as_secs_f64()
    );
    if exit == 0 && stats.evaluations == 0 {
        println!("ERROR: nothing was evaluated");
        exit = 2;
    }
    exit
}

fn write_replay(p: &Prop, f: &Found, verif: &Path, dir: &Path, repo: &Path) -> PathBuf {
    let ctx = Ctx::new(dir.join("replay"), repo);
    crate::lsp::RECORD.with(|r| *r.borrow_mut() = Some(vec![]));
    let again = (p.run)(&ctx, &f.tapes, &mut Stats::default());
    let messages = crate::lsp::RECORD.with(|r| r.borrow_mut().take()).unwrap_or_default();
    let again = match again {
        Ok(()) => "not reproduced".to_string(),
        Err(Fail::Violation(m)) | Err(Fail::Infra(m)) => m,
    };
    let v = json!({"property": p.id, "message": f.message, "again": again,
        "tapes": f.tapes, "messages": messages});
    let text = serde_json::to_string_pretty(&v).unwrap();
    let path = verif.join("replays").join(format!("{}.json", p.id));
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    let _ = std::fs::write(&path, text);
    path
}

fn replay(path: &str, repo: &Path) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap_or("");
    let Some(p) = props::all().iter().find(|p| p.id == id) else {
        println!("unknown property {id}");
        return 2;
    };
    let tapes: Vec<Vec<u32>> = serde_json::from_value(v["tapes"].clone()).expect("tapes");
    let dir = scratch();
    let ctx = Ctx::new(dir.join("replay"), repo);
    let r = (p.run)(&ctx, &tapes, &mut Stats::default());
    drop(ctx);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Ok(()) => {
            println!("{id}: holds for this case");
            0
        }
        Err(Fail::Violation(m)) => {
            println!("{m}\nVIOLATION property={id} replay={path}");
            1
        }
        Err(Fail::Infra(m)) => {
            println!("ERROR: {m}");
            2
        }
    }
}


fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    let repo = PathBuf::from(std::env::var("REPO_DIR").unwrap_or("/repo".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let id = args.get(2).map(|s| s.as_str()).unwrap_or("");
            let thorough = args.get(3).is_some_and(|t| t == "thorough");
            match props::all().iter().find(|p| p.id == id) {
                Some(p) => run_prop(p, thorough, seed, &verif, &repo),
                None => {
                    println!("unknown property {id}");
                    2
                }
            }
        }
        Some("replay") => replay(&args[2], &repo),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            println!("usage: harness run ID quick|thorough | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
