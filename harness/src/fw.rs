//! Driver: runs generated cases of a property on worker threads, shrinks the first failure,
//! writes replay files and evidence. Every random choice of a run derives from VERIF_SEED.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

pub const WORKERS: usize = 8;

/// What one case reports about itself.
#[derive(Default, Clone)]
pub struct Obs {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    /// elementary oracle comparisons made by the case
    pub elems: u64,
}
impl Obs {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn nt(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn n(&mut self, k: usize) {
        self.elems += k as u64;
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
    }};
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wrapped<C> {
    /// seeds the operating-system entropy the code under test sees
    pub entropy: u64,
    pub case: C,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct ReplayFile {
    pub property: String,
    pub sub: String,
    pub message: String,
    pub case: serde_json::Value,
}

#[derive(Default)]
struct SubStat {
    name: String,
    rule: String,
    evaluations: u64,
    elems: u64,
    nontrivial: HashSet<u64>,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
}

pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    pub scratch: PathBuf,
    pub replay: Option<ReplayFile>,
    pub only: Option<String>,
    pub replayed: bool,
    pub failure: Option<ReplayFile>,
    stats: Vec<SubStat>,
    start: std::time::Instant,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        PANIC_MSG.with(|m| *m.borrow_mut() = s);
        if std::env::var("VERIF_LOUD").is_ok() {
            eprintln!("{}", info);
        }
    }));
}

fn h64<T: Hash>(t: &T) -> u64 {
    // SipHash with fixed keys: stable within a toolchain, only used for seeding and dedup
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// True if calling `f` panics. Used where a documented refusal is the expected outcome.
pub fn refuses<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        let _ = f();
    }))
    .is_err()
}

fn exec<C: Sync>(
    w: &Wrapped<C>,
    test: &(impl Fn(&C, &mut Obs) -> Res + Sync),
) -> Result<Obs, String> {
    // A fresh thread per case: thread-local generators of the code under test restart from the
    // case's entropy, so a case is a function of its own content.
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(32 << 20)
            .spawn_scoped(s, || {
                getrandom::verif_seed(w.entropy);
                let mut o = Obs::default();
                let r = catch_unwind(AssertUnwindSafe(|| test(&w.case, &mut o)));
                match r {
                    Ok(Ok(())) => Ok(o),
                    Ok(Err(m)) => Err(m),
                    Err(_) => Err(format!(
                        "unexpected panic: {}",
                        PANIC_MSG.with(|m| m.borrow().clone())
                    )),
                }
            })
            .expect("spawn")
            .join()
            .expect("join")
    })
}

/// Longest time a single case may take. Cases take milliseconds, the slowest ones seconds; a case that
/// runs for this long is an operation that does not return.
fn hang_s() -> u64 {
    std::env::var("VERIF_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(300)
}

fn report_hang(root: &std::path::Path, prop: &str, seed: u64, cur: &std::path::Path) -> ! {
    let Some(mut rf) = std::fs::read_to_string(cur).ok().and_then(|t| serde_json::from_str::<ReplayFile>(&t).ok()) else {
        std::process::exit(3)
    };
    rf.message = format!("an operation did not return within {} s", hang_s());
    let p = write_replay(root, &rf);
    let ev = serde_json::json!({
        "property": prop, "tier": "quick", "seed": seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1,
            "rule": "run ended because an operation did not return; only that case is reported", "samples": [rf.case]},
        "wall_s": hang_s() as f64, "violations": 1});
    let _ = std::fs::create_dir_all(root.join("evidence"));
    let _ = std::fs::write(root.join("evidence").join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap());
    println!("{}/{}: {}", rf.property, rf.sub, rf.message);
    println!("VIOLATION property={} replay={}", prop, p.display());
    std::process::exit(1)
}

impl Ctx {
    pub fn new(prop: &'static str, tier: Tier, seed: u64, root: PathBuf, scratch: PathBuf) -> Self {
        Ctx {
            prop,
            tier,
            seed,
            root,
            scratch,
            replay: None,
            only: None,
            replayed: false,
            failure: None,
            stats: vec![],
            start: std::time::Instant::now(),
        }
    }

    /// One oracle of the property: `quick`/`thorough` generated cases of `strat` through `test`.
    pub fn sub<C>(
        &mut self,
        name: &str,
        rule: &str,
        quick: u32,
        thorough: u32,
        strat: impl Fn() -> BoxedStrategy<C> + Sync,
        test: impl Fn(&C, &mut Obs) -> Res + Sync,
    ) where
        C: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static,
    {
        if let Some(r) = &self.replay {
            if r.sub != name {
                return;
            }
            self.replayed = true;
            let w: Wrapped<C> =
                serde_json::from_value(r.case.clone()).expect("replay case does not parse");
            match exec(&w, &test) {
                Ok(_) => println!("replay {}/{}: property holds on this case", self.prop, name),
                Err(m) => {
                    self.failure = Some(ReplayFile {
                        property: self.prop.into(),
                        sub: name.into(),
                        message: m,
                        case: serde_json::to_value(&w).unwrap(),
                    })
                }
            }
            return;
        }
        if self.failure.is_some() {
            return;
        }
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
        }
        let t0 = std::time::Instant::now();
        let total = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        // development aid: fewer cases (never set by the registered commands)
        let div: u32 = std::env::var("VERIF_DIV").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let total = (total / div).max(8);
        let per = total.div_ceil(WORKERS as u32);
        // start of the case each worker is running, to notice operations that never return
        let running: Vec<Mutex<Option<std::time::Instant>>> = (0..WORKERS).map(|_| Mutex::new(None)).collect();
        let over = AtomicBool::new(false);
        let stop = AtomicBool::new(false);
        let stat = Mutex::new(SubStat {
            name: name.into(),
            rule: rule.into(),
            ..Default::default()
        });
        let fail: Mutex<Option<(usize, ReplayFile)>> = Mutex::new(None);
        let (prop, seed, scratch) = (self.prop, self.seed, self.scratch.clone());
        std::thread::scope(|s| {
            let (running, over, root, only_dir) = (&running, &over, self.root.clone(), self.scratch.clone());
            let hang = hang_s();
            s.spawn(move || {
                while !over.load(Ordering::Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(25));
                    for (w, r) in running.iter().enumerate() {
                        let late = r.lock().unwrap().is_some_and(|t| t.elapsed() > std::time::Duration::from_secs(hang));
                        if late {
                            report_hang(&root, prop, seed, &only_dir.join(format!("{w}.json")));
                        }
                    }
                }
            });
            let handles: Vec<_> = (0..WORKERS).map(|w| {
                let (stop, stat, fail, strat, test, scratch) =
                    (&stop, &stat, &fail, &strat, &test, &scratch);
                s.spawn(move || {
                    let worker = w;
                    let mut seed32 = [0u8; 32];
                    for i in 0..4u64 {
                        let v = h64(&(seed, prop, name, w as u64, i));
                        seed32[i as usize * 8..][..8].copy_from_slice(&v.to_le_bytes());
                    }
                    let cfg = Config {
                        cases: per,
                        failure_persistence: None,
                        max_shrink_iters: if std::env::var("VERIF_NOSHRINK").is_ok() { 0 } else { 2000 },
                        max_shrink_time: 40_000,
                        max_global_rejects: 1,
                        ..Config::default()
                    };
                    let mut runner = TestRunner::new_with_rng(
                        cfg,
                        TestRng::from_seed(RngAlgorithm::ChaCha, &seed32),
                    );
                    use proptest::prelude::any;
                    let ws = (any::<u64>().no_shrink(), strat())
                        .prop_map(|(entropy, case)| Wrapped { entropy, case });
                    let cur = scratch.join(format!("{}.json", w));
                    let failed_here = std::cell::Cell::new(false);
                    let mut last_msg = String::new();
                    let msg_cell = RefCell::new(String::new());
                    let r = runner.run(&ws, |w| {
                        if stop.load(Ordering::Relaxed) && !failed_here.get() {
                            return Ok(());
                        }
                        let text = serde_json::to_string(&ReplayFile {
                            property: prop.into(),
                            sub: name.into(),
                            message: "process aborted while running this case".into(),
                            case: serde_json::to_value(&w).unwrap(),
                        })
                        .unwrap();
                        let _ = std::fs::write(&cur, &text);
                        *running[worker].lock().unwrap() = Some(std::time::Instant::now());
                        let result = exec(&w, test);
                        *running[worker].lock().unwrap() = None;
                        match result {
                            Ok(o) => {
                                if !failed_here.get() {
                                    let hash = h64(&text);
                                    let mut st = stat.lock().unwrap();
                                    st.evaluations += 1;
                                    st.elems += o.elems;
                                    st.distinct.insert(hash);
                                    if o.nontrivial {
                                        st.nontrivial.insert(hash);
                                        if st.samples.len() < 2 {
                                            let mut t = serde_json::to_string(&w).unwrap();
                                            if t.len() > 900 {
                                                t = t.chars().take(900).collect();
                                                t.push_str("...");
                                            }
                                            st.samples.push(t);
                                        }
                                    }
                                    for l in o.labels {
                                        *st.labels.entry(l).or_insert(0) += 1;
                                    }
                                }
                                Ok(())
                            }
                            Err(m) => {
                                failed_here.set(true);
                                stop.store(true, Ordering::Relaxed);
                                *msg_cell.borrow_mut() = m.clone();
                                Err(TestCaseError::fail(m))
                            }
                        }
                    });
                    if let Err(TestError::Fail(reason, w_min)) = r {
                        last_msg = format!("{}", reason.message());
                        let rf = ReplayFile {
                            property: prop.into(),
                            sub: name.into(),
                            message: last_msg.clone(),
                            case: serde_json::to_value(&w_min).unwrap(),
                        };
                        let mut f = fail.lock().unwrap();
                        if f.as_ref().map_or(true, |(i, _)| w < *i) {
                            *f = Some((w, rf));
                        }
                    }
                    let _ = last_msg;
                })
            }).collect();
            for h in handles {
                h.join().expect("worker");
            }
            over.store(true, Ordering::Relaxed);
        });
        let st = stat.into_inner().unwrap();
        eprintln!(
            "[{}] {:<28} {:>7} cases, {:>7} distinct non-trivial, {:>9} comparisons, {:.1}s",
            self.prop,
            name,
            st.evaluations,
            st.nontrivial.len(),
            st.elems,
            t0.elapsed().as_secs_f64()
        );
        if std::env::var("VERIF_LABELS").is_ok() {
            eprintln!("    {:?}", st.labels);
        }
        self.stats.push(st);
        if let Some((_, rf)) = fail.into_inner().unwrap() {
            self.failure = Some(rf);
        }
    }

    pub fn finish(&self) -> i32 {
        if self.replay.is_some() {
            if let Some(f) = &self.failure {
                println!("replay fails: {}", f.message);
                return 1;
            }
            if !self.replayed {
                println!("replay names an unknown sub-check");
                return 2;
            }
            return 0;
        }
        let evals: u64 = self.stats.iter().map(|s| s.evaluations).sum();
        let nontriv: usize = self.stats.iter().map(|s| s.nontrivial.len()).sum();
        let elems: u64 = self.stats.iter().map(|s| s.elems).sum();
        let rule = self
            .stats
            .iter()
            .map(|s| format!("{}: {}", s.name, s.rule))
            .collect::<Vec<_>>()
            .join(" | ");
        let samples: Vec<serde_json::Value> = self
            .stats
            .iter()
            .flat_map(|s| {
                s.samples
                    .iter()
                    .map(|t| serde_json::json!({"sub": s.name, "case": t}))
            })
            .collect();
        let subs: Vec<serde_json::Value> = self
            .stats
            .iter()
            .map(|s| {
                serde_json::json!({
                    "name": s.name, "evaluations": s.evaluations,
                    "distinct": s.distinct.len(), "distinct_nontrivial": s.nontrivial.len(),
                    "oracle_comparisons": s.elems, "classes": s.labels,
                })
            })
            .collect();
        let ev = serde_json::json!({
            "property": self.prop,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": nontriv,
                "oracle_comparisons": elems,
                "rule": rule,
                "samples": samples,
                "subchecks": subs,
                "exhaustive": false,
            },
            "assumptions": [
                "generated-input search: absence of violations outside the generated cases is not established",
                "reference arithmetic in /verif/harness (u128 and num-bigint) is correct",
            ],
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": if self.failure.is_some() { 1 } else { 0 },
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            dir.join(format!("{}.json", self.prop)),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("cannot write evidence");
        if let Some(f) = &self.failure {
            let path = write_replay(&self.root, f);
            println!("{}/{}: {}", f.property, f.sub, f.message);
            println!("case: {}", trunc(&f.case.to_string(), 1500));
            println!("VIOLATION property={} replay={}", self.prop, path.display());
            return 1;
        }
        println!(
            "{}: held on {} generated cases ({} distinct non-trivial, {} comparisons), seed {}",
            self.prop, evals, nontriv, elems, self.seed
        );
        0
    }
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

pub fn write_replay(root: &std::path::Path, f: &ReplayFile) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let text = serde_json::to_string_pretty(f).unwrap();
    let path = dir.join(format!("{}-{}-{:016x}.json", f.property, f.sub, h64(&text)));
    std::fs::write(&path, text).expect("cannot write replay");
    path
}
