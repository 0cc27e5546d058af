//! Check engine: registration, deterministic proptest driving, counting,
//! shrinking, replay files and crash tracing.
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What one evaluated case amounted to.
#[derive(Clone, Debug)]
pub struct Verdict {
    pub nontrivial: bool,
    pub class: String,
    /// observed error / allowed error (0 when the oracle is exact)
    pub ratio: f64,
}
pub fn nt(class: impl Into<String>) -> Verdict {
    Verdict { nontrivial: true, class: class.into(), ratio: 0.0 }
}
pub fn triv(class: impl Into<String>) -> Verdict {
    Verdict { nontrivial: false, class: class.into(), ratio: 0.0 }
}
impl Verdict {
    pub fn r(mut self, ratio: f64) -> Self {
        self.ratio = self.ratio.max(ratio);
        self
    }
}
pub type Res = Result<Verdict, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

#[derive(Serialize, Default, Clone)]
pub struct SubReport {
    pub sub: String,
    pub rule: String,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub classes: BTreeMap<String, u64>,
    pub max_ratio: f64,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    pub known: Vec<String>,
    pub error: Option<String>,
    pub secs: f64,
}
#[derive(Serialize, Clone)]
pub struct Failure {
    pub sub: String,
    pub reason: String,
    pub case: serde_json::Value,
}

pub struct Env {
    pub prop: String,
    pub config: String,
    pub seed: u64,
    pub thorough: bool,
    pub trace: Option<String>,
}

type RunFn = Box<dyn Fn(&Env) -> SubReport>;
type ReplayFn = Box<dyn Fn(&serde_json::Value) -> Result<Res, String>>;
pub struct Sub {
    pub name: String,
    pub serial: bool,
    pub run: RunFn,
    pub replay: ReplayFn,
}

#[derive(Default)]
pub struct Reg {
    pub subs: Vec<Sub>,
    pub thorough: bool,
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn seed_bytes(seed: u64, tag: &str) -> [u8; 32] {
    let mut s = seed.wrapping_mul(0x2545F4914F6CDD1D) ^ fnv(tag);
    let mut out = [0u8; 32];
    for c in out.chunks_mut(8) {
        c.copy_from_slice(&splitmix(&mut s).to_le_bytes());
    }
    out
}

struct HashWrite(std::collections::hash_map::DefaultHasher);
impl std::io::Write for HashWrite {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.write(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
thread_local! {
    /// Source file of this thread's last panic.
    pub static PANIC_FILE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let f = i.location().map_or(String::new(), |l| l.file().to_string());
        PANIC_FILE.with(|p| *p.borrow_mut() = f);
    }));
}
/// Run a call that must not panic; a panic becomes an Err text.
pub fn no_panic<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| format!("{what} panicked: {}", panic_text(e)))
}

struct Counter {
    rep: SubReport,
    seen: HashSet<u64>,
    stop: bool,
}
impl Counter {
    fn record<C: Serialize + Debug>(&mut self, c: &C, v: &Verdict) {
        self.rep.evaluations += 1;
        *self.rep.classes.entry(v.class.clone()).or_insert(0) += 1;
        if v.ratio > self.rep.max_ratio {
            self.rep.max_ratio = v.ratio;
        }
        if v.nontrivial {
            let mut h = HashWrite(Default::default());
            let _ = serde_json::to_writer(&mut h, c);
            let mut hh = h.0;
            0u8.hash(&mut hh);
            if self.seen.insert(hh.finish()) && self.rep.samples.len() < 2 {
                let mut s = serde_json::to_string(c).unwrap_or_default();
                if s.len() > 400 {
                    s.truncate(400);
                    s.push_str("...");
                }
                self.rep.samples.push(s);
            }
        }
    }
}

fn trace_case<C: Serialize>(env: &Env, sub: &str, c: &C) {
    if let Some(p) = &env.trace {
        let v = serde_json::json!({"sub": sub, "case": c});
        let _ = std::fs::write(p, v.to_string());
    }
}

/// The case a thread is working on, for the watchdog.
struct Busy {
    since: u64,
    sub: *const str,
    case: *const (),
    json: unsafe fn(*const ()) -> serde_json::Value,
}
// read only while the slot is locked, and the owner cannot leave the case before clearing it
unsafe impl Send for Busy {}
type Slot = std::sync::Arc<std::sync::Mutex<Option<Busy>>>;
static SLOTS: std::sync::Mutex<Vec<Slot>> = std::sync::Mutex::new(Vec::new());
static TICK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
thread_local! {
    static SLOT: Slot = {
        let s = Slot::default();
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
}
unsafe fn json_of<C: Serialize>(p: *const ()) -> serde_json::Value {
    serde_json::to_value(&*(p as *const C)).unwrap_or_default()
}
/// Seconds (of ticks, so a paused machine does not count) one case may take; they normally take far less than one.
pub const HANG: u64 = 120;
/// Ends the process with a failure report when a call of the code under test does not come back.
pub fn watchdog(out: Option<String>) {
    use std::sync::atomic::Ordering;
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let now = TICK.fetch_add(1, Ordering::SeqCst) + 1;
        for s in SLOTS.lock().unwrap().iter() {
            let g = s.lock().unwrap();
            if let Some(b) = g.as_ref().filter(|b| now - b.since > HANG) {
                let (sub, case) = unsafe { ((*b.sub).to_string(), (b.json)(b.case)) };
                let reason = format!("no answer within {HANG} s");
                println!("FAIL {sub}: {reason}");
                if let Some(o) = &out {
                    let failure = Some(Failure { sub: sub.clone(), reason, case });
                    let _ = std::fs::write(o, serde_json::to_string(&[SubReport { sub, failure, ..Default::default() }]).unwrap());
                }
                std::process::exit(1);
            }
        }
    });
}

fn eval<C: Debug + Serialize, F: Fn(&C) -> Res>(sub: &str, f: &F, c: &C) -> Res {
    let busy = Busy { since: TICK.load(std::sync::atomic::Ordering::SeqCst), sub, case: c as *const C as *const (), json: json_of::<C> };
    SLOT.with(|s| *s.lock().unwrap() = Some(busy));
    let r = eval_case(f, c);
    SLOT.with(|s| *s.lock().unwrap() = None);
    r
}
fn eval_case<C: Debug, F: Fn(&C) -> Res>(f: &F, c: &C) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(c))) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", panic_text(e))),
    }
}

fn run_cases<C, S, F>(
    env: &Env,
    name: &str,
    tag: &str,
    cases: u32,
    strat: &S,
    f: &F,
    cnt: &RefCell<Counter>,
) where
    C: Debug + Clone + Serialize + DeserializeOwned + 'static,
    S: Strategy<Value = C>,
    F: Fn(&C) -> Res,
{
    let rng = TestRng::from_seed(
        RngAlgorithm::ChaCha,
        &seed_bytes(env.seed, &format!("{}/{}/{}/{}", env.prop, env.config, name, tag)),
    );
    let cfg = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 4000,
        max_shrink_time: 40_000,
        verbose: 0,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(cfg, rng);
    let res = runner.run(strat, |c| {
        trace_case(env, name, &c);
        let r = eval(name, f, &c);
        let mut k = cnt.borrow_mut();
        match r {
            Ok(v) => {
                if !k.stop {
                    k.record(&c, &v);
                }
                Ok(())
            }
            Err(e) => {
                k.stop = true;
                Err(TestCaseError::fail(e))
            }
        }
    });
    match res {
        Ok(()) => {}
        Err(TestError::Fail(_, c)) => {
            let reason = match eval(name, f, &c) {
                Err(e) => e,
                Ok(_) => "failure did not reproduce on the shrunk case".into(),
            };
            cnt.borrow_mut().rep.failure = Some(Failure {
                sub: name.into(),
                reason,
                case: serde_json::to_value(&c).unwrap(),
            });
        }
        Err(TestError::Abort(r)) => {
            cnt.borrow_mut().rep.error = Some(format!("proptest aborted: {r}"));
        }
    }
}

impl Reg {
    /// `cases` random cases from `strat`.
    pub fn prop<C, S, F>(&mut self, name: &str, rule: &str, cases: u32, strat: S, f: F)
    where
        C: Debug + Clone + Serialize + DeserializeOwned + 'static,
        S: Strategy<Value = C> + 'static,
        F: Fn(&C) -> Res + Clone + 'static,
    {
        self.add(name, rule, false, move |_env: &Env, go: &mut dyn FnMut(&str, u32, &S) -> bool| { go("r", cases, &strat); }, f)
    }
    pub fn prop_serial<C, S, F>(&mut self, name: &str, rule: &str, cases: u32, strat: S, f: F)
    where
        C: Debug + Clone + Serialize + DeserializeOwned + 'static,
        S: Strategy<Value = C> + 'static,
        F: Fn(&C) -> Res + Clone + 'static,
    {
        self.add(name, rule, true, move |_env: &Env, go: &mut dyn FnMut(&str, u32, &S) -> bool| { go("r", cases, &strat); }, f)
    }
    /// For every index value of `over` in order, `per` cases from `mk(index)`.
    pub fn sweep<C, S, F, M>(&mut self, name: &str, rule: &str, over: Vec<usize>, per: u32, mk: M, f: F)
    where
        C: Debug + Clone + Serialize + DeserializeOwned + 'static,
        S: Strategy<Value = C> + 'static,
        M: Fn(usize) -> S + 'static,
        F: Fn(&C) -> Res + Clone + 'static,
    {
        let g = move |_env: &Env, go: &mut dyn FnMut(&str, u32, &S) -> bool| {
            for &n in &over {
                if !go(&format!("n{n}"), per, &mk(n)) {
                    break;
                }
            }
        };
        self.add(name, rule, false, g, f)
    }
    fn add<C, S, F, G>(&mut self, name: &str, rule: &str, serial: bool, groups: G, f: F)
    where
        C: Debug + Clone + Serialize + DeserializeOwned + 'static,
        S: Strategy<Value = C> + 'static,
        F: Fn(&C) -> Res + Clone + 'static,
        G: Fn(&Env, &mut dyn FnMut(&str, u32, &S) -> bool) + 'static,
    {
        let nm = name.to_string();
        let rule = rule.to_string();
        let f2 = f.clone();
        let nm2 = nm.clone();
        self.subs.push(Sub {
            name: name.to_string(),
            serial,
            run: Box::new(move |env| {
                let t0 = std::time::Instant::now();
                let cnt = RefCell::new(Counter {
                    rep: SubReport { sub: nm.clone(), rule: rule.clone(), ..Default::default() },
                    seen: HashSet::new(),
                    stop: false,
                });
                groups(env, &mut |tag, cases, strat| {
                    let cases = cases.saturating_mul(factor(env));
                    run_cases(env, &nm, tag, cases, strat, &f, &cnt);
                    let k = cnt.borrow();
                    k.rep.failure.is_none() && k.rep.error.is_none()
                });
                let mut k = cnt.into_inner();
                k.rep.distinct_nontrivial = k.seen.len() as u64;
                k.rep.secs = t0.elapsed().as_secs_f64();
                k.rep
            }),
            replay: Box::new(move |v| {
                let c: C = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
                Ok(eval(&nm2, &f2, &c))
            }),
        });
    }
}
/// How often the stated number of cases is run: more where a case is cheap, and
/// most in the plain configuration.
fn factor(env: &Env) -> u32 {
    let quick = match env.prop.as_str() {
        "C01" | "C02" | "C15" | "C29" | "C30" | "C31" | "C32" | "C35" => 1,
        "C08" | "C13" | "C14" | "C16" => 2,
        "C03" | "C04" | "C10" | "C11" | "C27" => 3,
        _ => 6,
    };
    let quick = if env.config == "std" { quick } else { (quick + 1) / 2 };
    if env.thorough { quick * THOROUGH_FACTOR } else { quick }
}
pub const THOROUGH_FACTOR: u32 = 6;
