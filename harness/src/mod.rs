//! Replay search and bounded stand-in: runs the real code of /repo against independent oracles.
//!
//!   harness check <prop> --seed N --millis N --out FILE     explore
//!   harness replay <prop> FILE                              rerun one recorded case
//!   HARNESS_CLI=1 harness <args>                            the real command line program
pub mod gen;
pub mod p_cli;
pub mod p_lattice;
pub mod p_model;
pub mod p_py;
pub mod p_tok;
pub mod p_train;
pub mod util;

use self::util::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{
    atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
    Arc, Mutex,
};
use std::time::{Duration, Instant};

/// What one run of one case says.
pub enum Out {
    /// held; true when the case was non-trivial by the property's rule
    Held(bool),
    /// the property is broken
    Broken(String),
}
pub use Out::*;

pub trait Prop {
    type Case: Serialize + DeserializeOwned + Send;
    const RULE: &'static str;
    /// Case number i; small numbers enumerate the fixed corner cases.
    fn gen(r: &mut Rng, i: u64) -> Self::Case;
    fn run(c: &Self::Case) -> Out;
    /// Smaller variants of a failing case, tried greedily.
    fn shrink(_c: &Self::Case) -> Vec<Self::Case> {
        vec![]
    }
    fn threads() -> usize {
        8
    }
    fn hang_secs() -> u64 {
        20
    }
}

struct Dyn {
    rule: &'static str,
    threads: usize,
    hang: u64,
    gen: fn(&mut Rng, u64) -> Box<dyn DynCase>,
    parse: fn(&Value) -> Result<Box<dyn DynCase>, String>,
}

trait DynCase: Send {
    fn run(&self) -> Out;
    fn json(&self) -> Value;
    fn shrink(&self) -> Vec<Box<dyn DynCase>>;
}

struct Wrap<P: Prop>(P::Case);
impl<P: Prop + 'static> DynCase for Wrap<P> {
    fn run(&self) -> Out {
        P::run(&self.0)
    }
    fn json(&self) -> Value {
        serde_json::to_value(&self.0).unwrap()
    }
    fn shrink(&self) -> Vec<Box<dyn DynCase>> {
        P::shrink(&self.0)
            .into_iter()
            .map(|c| Box::new(Wrap::<P>(c)) as Box<dyn DynCase>)
            .collect()
    }
}

fn dynp<P: Prop + 'static>() -> Dyn {
    Dyn {
        rule: P::RULE,
        threads: P::threads(),
        hang: P::hang_secs(),
        gen: |r, i| Box::new(Wrap::<P>(P::gen(r, i))),
        parse: |v| {
            serde_json::from_value::<P::Case>(v.clone())
                .map(|c| Box::new(Wrap::<P>(c)) as Box<dyn DynCase>)
                .map_err(|e| e.to_string())
        },
    }
}

fn prop(id: &str) -> Option<Dyn> {
    Some(match id {
        "C01" => dynp::<p_model::C01>(),
        "C02" => dynp::<p_model::C02>(),
        "C03" => dynp::<p_model::C03>(),
        "C04" => dynp::<p_tok::C04>(),
        "C05" => dynp::<p_model::C05>(),
        "C06" => dynp::<p_tok::C06>(),
        "C07" => dynp::<p_tok::C07>(),
        "C08" => dynp::<p_tok::C08>(),
        "C09" => dynp::<p_tok::C09>(),
        "C10" => dynp::<p_lattice::C10>(),
        "C11" => dynp::<p_train::C11>(),
        "C12" => dynp::<p_train::C12>(),
        "C13" => dynp::<p_train::C13>(),
        "C14" => dynp::<p_train::C14>(),
        "C15" => dynp::<p_train::C15>(),
        "C16" => dynp::<p_tok::C16>(),
        "C17" => dynp::<p_cli::C17>(),
        "C18" => dynp::<p_lattice::C18>(),
        "C19" => dynp::<p_cli::C19>(),
        "C20" => dynp::<p_cli::C20>(),
        "C21" => dynp::<p_lattice::C21>(),
        "C22" => dynp::<p_py::C22>(),
        _ => return None,
    })
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
static ANY_PANIC: Mutex<String> = Mutex::new(String::new());

/// Runs the code under test; a panic becomes its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

fn run_case(c: &dyn DynCase) -> Out {
    match guarded(|| c.run()) {
        Ok(o) => o,
        Err(m) => Broken(format!("panic: {m}")),
    }
}

struct Slot {
    started: Mutex<Option<(Instant, Value)>>,
}

pub fn run() {
    if std::env::var_os("HARNESS_CLI").is_some() {
        crate::cli_main();
        return;
    }
    util::exempt_this_thread();
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(
            &a[2],
            opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
            opt("--millis").and_then(|s| s.parse().ok()).unwrap_or(5000),
            &opt("--out").expect("--out"),
        ),
        Some("replay") => replay(&a[2], &a[3]),
        // does the listed finding still fail? exit 1 if so
        Some("known") => std::process::exit(p_tok::C08::known(&a[3]) as i32),
        Some("find-known") => println!("{:?}", p_tok::C08::find_known()),
        _ => {
            eprintln!("usage");
            std::process::exit(2)
        }
    }
}

fn write_out(path: &str, v: &Value) {
    std::fs::write(path, serde_json::to_string_pretty(v).unwrap()).unwrap();
}

/// Runs one case with a time limit on a fresh thread.
fn run_limited(c: Box<dyn DynCase>, secs: u64) -> (Option<Box<dyn DynCase>>, Out) {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let o = run_case(&*c);
            let _ = tx.send((c, o));
        })
        .unwrap();
    let t0 = Instant::now();
    loop {
        match rx.recv_timeout(Duration::from_millis(100)) {
            Ok((c, o)) => return (Some(c), o),
            Err(_) => {
                if util::runaway() {
                    return (None, Broken("runaway memory use (does not terminate)".into()));
                }
                if t0.elapsed().as_secs() >= secs {
                    return (None, Broken(format!("did not finish within {secs} s")));
                }
            }
        }
    }
}

fn shrink_case(d: &Dyn, case: Value, msg: String) -> (Value, String) {
    if msg.contains("did not finish") || msg.contains("runaway") {
        return (case, msg);
    }
    let t0 = Instant::now();
    let (mut case, mut msg) = (case, msg);
    'outer: loop {
        let Ok(c) = (d.parse)(&case) else { break };
        for s in c.shrink() {
            if t0.elapsed().as_secs() > 10 {
                break 'outer;
            }
            let v = s.json();
            if let (_, Broken(m)) = run_limited(s, d.hang) {
                if m.contains("did not finish") || m.contains("runaway") {
                    continue;
                }
                case = v;
                msg = m;
                continue 'outer;
            }
        }
        break;
    }
    (case, msg)
}

fn check(id: &str, seed: u64, millis: u64, out: &str) {
    let Some(d) = prop(id) else {
        eprintln!("no such property");
        std::process::exit(2)
    };
    let d = Arc::new(d);
    let t0 = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let evals = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<(Value, String, u64)>>> = Arc::new(Mutex::new(None));
    let distinct: Arc<Mutex<HashSet<u64>>> = Arc::new(Mutex::new(HashSet::new()));
    let samples: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(vec![]));
    let slots: Arc<Vec<Slot>> = Arc::new((0..d.threads).map(|_| Slot { started: Mutex::new(None) }).collect());
    let mut hs = vec![];
    for t in 0..d.threads {
        let (d, next, evals, stop, found, distinct, samples, slots) = (
            d.clone(), next.clone(), evals.clone(), stop.clone(), found.clone(), distinct.clone(), samples.clone(), slots.clone(),
        );
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    while !stop.load(SeqCst) && t0.elapsed().as_millis() < millis as u128 {
                        let i = next.fetch_add(1, SeqCst);
                        let mut r = Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03));
                        let c = (d.gen)(&mut r, i);
                        let v = c.json();
                        let h = util::hash(&v);
                        *slots[t].started.lock().unwrap() = Some((Instant::now(), v));
                        let o = run_case(&*c);
                        let v = slots[t].started.lock().unwrap().take().unwrap().1;
                        evals.fetch_add(1, SeqCst);
                        match o {
                            Held(nt) => {
                                if nt {
                                    let mut g = distinct.lock().unwrap();
                                    if g.len() < 5_000_000 {
                                        g.insert(h);
                                    }
                                    drop(g);
                                    let mut s = samples.lock().unwrap();
                                    if s.len() < 3 && i >= 20 && v.to_string().len() < 600 {
                                        s.push(v);
                                    }
                                }
                            }
                            Broken(m) => {
                                let mut f = found.lock().unwrap();
                                if f.as_ref().map_or(true, |x| x.2 > i) {
                                    *f = Some((v, m, i));
                                }
                                stop.store(true, SeqCst);
                            }
                        }
                    }
                })
                .unwrap(),
        );
    }
    // watchdog
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        let mem = util::runaway();
        let mut worst: Option<(u64, Value)> = None;
        for s in slots.iter() {
            if let Ok(g) = s.started.try_lock() {
                if let Some((t, v)) = g.as_ref() {
                    let e = t.elapsed().as_millis() as u64;
                    if worst.as_ref().map_or(true, |w| e > w.0) {
                        worst = Some((e, v.clone()));
                    }
                }
            }
        }
        if let Some((e, v)) = worst {
            if mem || e > d.hang * 1000 {
                let m = if mem {
                    "runaway memory use (does not terminate)".to_string()
                } else {
                    format!("did not finish within {} s", d.hang)
                };
                report(id, &d, out, seed, t0, evals.load(SeqCst), &distinct, &samples, Some((v, m)));
            }
        }
        if stop.load(SeqCst) {
            // give the other workers a moment, then report what was found
            std::thread::sleep(Duration::from_millis(200));
            break;
        }
    }
    let f = found.lock().unwrap().clone().map(|(v, m, _)| (v, m));
    let f = f.map(|(v, m)| shrink_case(&d, v, m));
    report(id, &d, out, seed, t0, evals.load(SeqCst), &distinct, &samples, f);
}

#[allow(clippy::too_many_arguments)]
fn report(
    id: &str,
    d: &Dyn,
    out: &str,
    seed: u64,
    t0: Instant,
    evals: u64,
    distinct: &Arc<Mutex<HashSet<u64>>>,
    samples: &Arc<Mutex<Vec<Value>>>,
    f: Option<(Value, String)>,
) -> ! {
    let v = json!({
        "property": id, "seed": seed, "evaluations": evals,
        "distinct_nontrivial": distinct.lock().unwrap().len(),
        "rule": d.rule,
        "samples": *samples.lock().unwrap(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "broken": f.as_ref().map(|(c, m)| json!({"case": c, "message": m})),
    });
    write_out(out, &v);
    if let Some((_, m)) = f {
        println!("BROKEN {m}");
        std::process::exit(1);
    }
    println!("HELD {evals} cases");
    std::process::exit(0);
}

fn replay(id: &str, file: &str) {
    let d = prop(id).expect("property");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let case = v.get("case").unwrap_or(&v);
    for _ in 0..20 {
        let c = (d.parse)(case).expect("case");
        if let (_, Broken(m)) = run_limited(c, d.hang) {
            println!("BROKEN {m}");
            std::process::exit(1);
        }
    }
    println!("HELD");
    std::process::exit(0);
}
