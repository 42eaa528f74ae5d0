//! Generation, shrinking, counting, evidence and replay.

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub const SHARDS: u64 = 8;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a check reports about one case.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub classes: BTreeMap<&'static str, u64>,
}
impl Ctx {
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.class(c);
        }
    }
    pub fn count(&mut self, c: &'static str, n: u64) {
        *self.classes.entry(c).or_insert(0) += n;
    }
}

pub trait Case: Serialize + DeserializeOwned + Clone + Debug + Hash + Send + 'static {
    /// Simpler candidates, for minimisation of a failing case.
    fn shrinks(&self) -> Vec<Self> {
        Vec::new()
    }
}

pub struct Section<C: Case> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strategy: fn(Tier) -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Ctx) -> Result<(), String>,
    /// Stack of the threads that run this section.
    pub stack: usize,
}

pub const BIG_STACK: usize = 1 << 30;

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub nontrivial_total: u64,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
}

pub struct Failure {
    pub section: &'static str,
    pub case: Value,
    pub msg: String,
}

pub struct RunArgs {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub journal: Option<PathBuf>,
    pub scale: f64,
    pub only: Option<String>,
}

pub trait DynSection: Sync {
    fn name(&self) -> &'static str;
    fn stack(&self) -> usize;
    fn run(&self, args: &RunArgs, shard: u64, stats: &mut Stats, stop: &AtomicBool) -> Option<Failure>;
    fn replay(&self, case: &Value) -> Result<(), String>;
    fn minimise(&self, case: &Value, time: Duration) -> (Value, String);
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
    pub sections: Vec<Box<dyn DynSection>>,
}

fn hash64<T: Hash>(t: &T) -> u64 {
    // SipHash with fixed keys.
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn seed_bytes(args: &RunArgs, section: &str, shard: u64) -> [u8; 32] {
    let mut out = [0; 32];
    for (i, c) in out.chunks_mut(8).enumerate() {
        c.copy_from_slice(&hash64(&(args.seed, &args.id, section, shard, i as u64)).to_le_bytes());
    }
    out
}

/// When the case in work in each thread began, in milliseconds, or zero.
static BEGAN: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static SLOT: usize = NEXT_SLOT.fetch_add(1, Ordering::Relaxed) % BEGAN.len();
}

/// Milliseconds since the process began.
fn now() -> u64 {
    static ZERO: OnceLock<Instant> = OnceLock::new();
    u64::try_from(ZERO.get_or_init(Instant::now).elapsed().as_millis()).expect("time") + 1
}

/// No case takes anywhere near this long, unless it never ends.
const STUCK: u64 = 120_000;
/// Exit code when a case seems to never end.
pub const STUCK_CODE: i32 = 3;

/// End the process when a case seems to never end.
fn watch() {
    now();
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let t = now();
        if BEGAN.iter().map(|b| b.load(Ordering::Relaxed)).any(|b| b != 0 && t > b + STUCK) {
            std::process::exit(STUCK_CODE);
        }
    });
}

/// The case in work makes progress.
pub fn alive() {
    std::mem::forget(Working::begin());
}

struct Working;
impl Working {
    fn begin() -> Self {
        SLOT.with(|s| BEGAN[*s].store(now(), Ordering::Relaxed));
        Self
    }
}
impl Drop for Working {
    fn drop(&mut self) {
        SLOT.with(|s| BEGAN[*s].store(0, Ordering::Relaxed));
    }
}

fn checked<C: Case>(s: &Section<C>, case: &C, ctx: &mut Ctx) -> Result<(), String> {
    let _working = Working::begin();
    crate::node::depth_start(s.stack);
    let r = catch_unwind(AssertUnwindSafe(|| (s.check)(case, ctx)));
    if crate::node::too_deep() {
        // A limit of the harness, not of what is checked.
        *ctx = Ctx::default();
        ctx.class("given up: recursion deeper than the stack of the harness");
        return Ok(());
    }
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected {:?}", crate::variants::Out::<()>::from_panic(p))),
    }
}

impl<C: Case> DynSection for Section<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn stack(&self) -> usize {
        self.stack
    }
    fn run(&self, args: &RunArgs, shard: u64, stats: &mut Stats, stop: &AtomicBool) -> Option<Failure> {
        let total = match args.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let total = ((total as f64 * args.scale).ceil() as u64).max(1);
        let mine = total / SHARDS + u64::from(shard < total % SHARDS);
        if mine == 0 {
            return None;
        }
        let config = Config {
            cases: mine.try_into().expect("number of cases"),
            failure_persistence: None,
            max_shrink_iters: 4000,
            max_shrink_time: 20_000,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(args, self.name, shard));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let cell = RefCell::new((stats, false));
        let journal = args.journal.as_ref().map(|d| d.join(format!("{}-{shard}.json", self.name)));
        let r = runner.run(&(self.strategy)(args.tier), |case| {
            let mut b = cell.borrow_mut();
            let (stats, failed) = &mut *b;
            if stop.load(Ordering::Relaxed) && !*failed {
                return Ok(());
            }
            if let Some(j) = &journal {
                let v = json!({"property": args.id, "section": self.name, "case": case});
                std::fs::write(j, v.to_string()).expect("journal");
            }
            let mut ctx = Ctx::default();
            let r = checked(self, &case, &mut ctx);
            if !*failed {
                stats.evaluations += 1;
                for (k, n) in &ctx.classes {
                    *stats.classes.entry(k).or_insert(0) += n;
                }
                if ctx.nontrivial {
                    stats.nontrivial_total += 1;
                    let fresh = stats.nontrivial.insert(hash64(&(self.name, &case)));
                    let n = stats.nontrivial.len();
                    if fresh && shard == 0 && stats.samples.len() < 3 && (n == 1 || n == 12 || n % 40 == 0) {
                        let v = serde_json::to_value(&case).expect("case");
                        if v.to_string().len() < 2500 {
                            stats.samples.push(json!({"section": self.name, "case": v}));
                        }
                    }
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(m) => {
                    *failed = true;
                    stop.store(true, Ordering::Relaxed);
                    Err(TestCaseError::fail(m))
                }
            }
        });
        if let Some(j) = &journal {
            let _ = std::fs::remove_file(j);
        }
        match r {
            Ok(()) => None,
            Err(TestError::Fail(why, case)) => {
                let v = serde_json::to_value(&case).expect("case");
                let (v, msg) = self.minimise(&v, Duration::from_secs(25));
                let msg = if msg.is_empty() { format!("{why}") } else { msg };
                Some(Failure { section: self.name, case: v, msg })
            }
            Err(TestError::Abort(why)) => panic!("generation failed: {why}"),
        }
    }
    fn replay(&self, case: &Value) -> Result<(), String> {
        let case: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad replay file: {e}"))?;
        checked(self, &case, &mut Ctx::default())
    }
    fn minimise(&self, case: &Value, time: Duration) -> (Value, String) {
        let mut best: C = serde_json::from_value(case.clone()).expect("case");
        let start = Instant::now();
        let mut msg = match checked(self, &best, &mut Ctx::default()) {
            Err(m) => m,
            Ok(()) => return (case.clone(), String::new()),
        };
        'outer: while start.elapsed() < time {
            for c in best.shrinks() {
                if start.elapsed() >= time {
                    break 'outer;
                }
                if let Err(m) = checked(self, &c, &mut Ctx::default()) {
                    best = c;
                    msg = m;
                    continue 'outer;
                }
            }
            break;
        }
        (serde_json::to_value(&best).expect("case"), msg)
    }
}

thread_local! {
    static SHARD: Cell<u64> = const { Cell::new(0) };
}
/// Which shard the current thread is.
pub fn shard() -> u64 {
    SHARD.with(Cell::get)
}

fn in_threads(stack: usize, f: impl Fn(u64) + Sync) {
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..SHARDS)
            .map(|i| {
                let f = &f;
                std::thread::Builder::new().stack_size(stack).name(format!("shard-{i}")).spawn_scoped(s, move || {
                    SHARD.with(|s| s.set(i));
                    f(i);
                }).expect("thread")
            })
            .collect();
        for h in hs {
            h.join().expect("shard");
        }
    });
}

pub fn run_prop(prop: &Prop, args: &RunArgs, evidence: &Path, replays: &Path) -> i32 {
    watch();
    let start = Instant::now();
    let stop = AtomicBool::new(false);
    let mut all = Stats::default();
    let mut failures: Vec<Failure> = Vec::new();
    let mut sections = Vec::new();
    for s in &prop.sections {
        if matches!(&args.only, Some(o) if o != s.name()) {
            continue;
        }
        let t = Instant::now();
        let out: Mutex<(Vec<(u64, Stats)>, Vec<(u64, Failure)>)> = Mutex::new((Vec::new(), Vec::new()));
        in_threads(s.stack(), |shard| {
            let mut stats = Stats::default();
            let f = s.run(args, shard, &mut stats, &stop);
            let mut o = out.lock().expect("lock");
            o.0.push((shard, stats));
            if let Some(f) = f {
                o.1.push((shard, f));
            }
        });
        let (mut stats, mut fails) = out.into_inner().expect("lock");
        stats.sort_by_key(|x| x.0);
        fails.sort_by_key(|x| x.0);
        let mut ev = 0;
        let mut nt = HashSet::new();
        for (_, st) in stats {
            ev += st.evaluations;
            nt.extend(st.nontrivial);
            all.nontrivial_total += st.nontrivial_total;
            for (k, n) in st.classes {
                *all.classes.entry(k).or_insert(0) += n;
            }
            all.samples.extend(st.samples);
        }
        sections.push(json!({"section": s.name(), "evaluations": ev, "distinct_nontrivial": nt.len(),
                             "wall_s": (t.elapsed().as_secs_f64() * 10.0).round() / 10.0}));
        all.evaluations += ev;
        all.nontrivial.extend(nt);
        failures.extend(fails.into_iter().map(|x| x.1));
        if !failures.is_empty() {
            break;
        }
    }
    let mut code = 0;
    let n_fail = failures.len();
    let mut fail_json = Vec::new();
    if let Some(f) = failures.into_iter().next() {
        code = 1;
        let body = json!({"property": prop.id, "section": f.section, "message": f.msg, "seed": args.seed, "case": f.case});
        let _ = std::fs::create_dir_all(replays);
        let path = replays.join(format!("{}-{:016x}.json", prop.id, hash64(&body.to_string())));
        std::fs::write(&path, serde_json::to_string(&body).expect("json")).expect("replay file");
        println!("{}: section {}: {}", prop.id, f.section, f.msg);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        fail_json.push(json!({"section": f.section, "message": f.msg, "replay": path.display().to_string()}));
    }
    let mut size = 0;
    let samples: Vec<&Value> = all
        .samples
        .iter()
        .filter(|v| {
            size += v.to_string().len();
            size < 24_000
        })
        .collect();
    let ev = json!({
        "property": prop.id,
        "tier": if args.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": args.seed,
        "level": prop.level,
        "coverage": {
            "evaluations": all.evaluations,
            "distinct_nontrivial": all.nontrivial.len(),
            "rule": prop.rule,
            "samples": samples,
            "classes": all.classes,
            "sections": sections,
            "violations_found": fail_json,
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": n_fail,
    });
    if args.only.is_none() {
        if let Some(d) = evidence.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(evidence, serde_json::to_string_pretty(&ev).expect("json")).expect("evidence");
    }
    println!(
        "{} {}: {} evaluations, {} distinct non-trivial, {:.1} s",
        prop.id,
        if code == 0 { "held" } else { "VIOLATED" },
        all.evaluations,
        all.nontrivial.len(),
        start.elapsed().as_secs_f64()
    );
    code
}

pub fn replay(props: &[Prop], file: &Path) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let id = v["property"].as_str().expect("property");
    let section = v["section"].as_str().expect("section");
    for p in props.iter().filter(|p| p.id == id) {
        for s in p.sections.iter().filter(|s| s.name() == section) {
            let r = Mutex::new(Ok(()));
            std::thread::scope(|sc| {
                let h = std::thread::Builder::new()
                    .stack_size(s.stack())
                    .spawn_scoped(sc, || *r.lock().expect("lock") = s.replay(&v["case"]))
                    .expect("thread");
                h.join().expect("replay");
            });
            return match r.into_inner().expect("lock") {
                Ok(()) => {
                    println!("{id}: section {section}: held on this case");
                    0
                }
                Err(m) => {
                    println!("{id}: section {section}: {m}");
                    println!("VIOLATION property={id} replay={}", file.display());
                    1
                }
            };
        }
    }
    eprintln!("unknown property or section");
    2
}
