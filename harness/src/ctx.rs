//! Run context: counters, distinct-case accounting, samples, verdicts, the
//! panic monitor and the parallel case runner.

use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value as Json};

use crate::gen::Rng;

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub scratch: PathBuf,
    pub only: Option<(String, u64)>,
    started: Instant,
    evals: AtomicU64,
    distinct: Vec<Mutex<HashSet<u64>>>,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<Json>>,
    sample_kinds: Mutex<BTreeMap<String, u32>>,
    violations: Mutex<Vec<Json>>,
    violation_count: AtomicU64,
    errors: Mutex<Vec<String>>,
    required: Mutex<BTreeMap<String, u64>>,
    dirs: AtomicU64,
    pub case_limit: AtomicU64,
}

#[derive(Debug, Clone)]
pub struct PanicRecord {
    pub thread: String,
    pub file: String,
    pub line: u32,
    pub message: String,
}

/// Cases being executed: id -> (kind, index, start, limit).
static RUNNING: Mutex<BTreeMap<u64, (String, u64, Instant, Duration)>> = Mutex::new(BTreeMap::new());
static NEXT_RUNNING: AtomicU64 = AtomicU64::new(0);

/// Seconds a case may take (cases take milliseconds to a few seconds).
pub const CASE_LIMIT: u64 = 150;

/// A case that does not end is an observation too: a call that never
/// returns, a lock never released. The watchdog then writes the report and
/// ends the process.
pub fn start_watchdog(ctx: std::sync::Arc<Ctx>, finish: impl Fn(&Ctx) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let late = RUNNING.lock().unwrap().values()
            .find(|(_, _, start, limit)| start.elapsed() > *limit)
            .cloned();
        if let Some((kind, index, start, _)) = late {
            ctx.violation(&kind, index, "an operation did not return", json!({ "seconds": start.elapsed().as_secs() }));
            finish(&ctx);
            std::process::exit(0);
        }
    });
}

static PANICS: Mutex<Vec<PanicRecord>> = Mutex::new(Vec::new());
static QUIET: AtomicBool = AtomicBool::new(false);

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<PanicRecord>> = const { std::cell::RefCell::new(None) };
    static CURRENT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Marker payload of panics the harness raises on purpose inside callbacks.
pub const PLANNED: &str = "hv-planned-panic";

pub fn install_panic_monitor() {
    std::panic::set_hook(Box::new(|info| {
        let message = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());

        if message.contains(PLANNED) {
            return;
        }

        let (file, line) = info.location()
            .map(|l| (l.file().to_string(), l.line()))
            .unwrap_or(("?".into(), 0));

        let record = PanicRecord {
            thread: std::thread::current().name().unwrap_or("?").to_string(),
            file,
            line,
            message,
        };

        if !QUIET.load(Ordering::Relaxed) {
            eprintln!("panic: {}:{}: {} [{}]", record.file, record.line, record.message, CURRENT.with(|c| c.borrow().clone()));
        }

        LAST_PANIC.with(|p| *p.borrow_mut() = Some(record.clone()));

        if let Ok(mut panics) = PANICS.lock() {
            if panics.len() < 1000 {
                panics.push(record);
            }
        }
    }));
}

impl PanicRecord {
    /// Panics raised by the harness's own sources are errors of the check,
    /// everything else (the library, its dependencies) is behaviour of the
    /// code under test.
    pub fn is_harness(&self) -> bool {
        self.file.starts_with("src/") || self.file.contains("/verif/harness/")
    }
}

pub fn hash_of(value: &impl Hash) -> u64 {
    let mut hasher = std::collections::hash_map::DefaultHasher::new();
    value.hash(&mut hasher);
    hasher.finish()
}

pub struct Job<'a> {
    pub ctx: &'a Ctx,
    pub kind: &'a str,
    pub index: u64,
    pub rng: Rng,
}

impl Job<'_> {
    /// Report a violation of the property in this case.
    pub fn fail(&self, what: impl Into<String>, detail: Json) {
        self.ctx.violation(self.kind, self.index, what, detail);
    }

    pub fn check(&self, ok: bool, what: &str, detail: impl FnOnce() -> Json) -> bool {
        if !ok {
            self.fail(what, detail());
        }
        ok
    }
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64, scratch: PathBuf, only: Option<(String, u64)>) -> Self {
        Self {
            prop: prop.to_string(),
            thorough,
            seed,
            scratch,
            only,
            started: Instant::now(),
            evals: AtomicU64::new(0),
            distinct: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            counters: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(Vec::new()),
            sample_kinds: Mutex::new(BTreeMap::new()),
            violations: Mutex::new(Vec::new()),
            violation_count: AtomicU64::new(0),
            errors: Mutex::new(Vec::new()),
            required: Mutex::new(BTreeMap::new()),
            dirs: AtomicU64::new(0),
            case_limit: AtomicU64::new(CASE_LIMIT),
        }
    }

    /// Amount of work for the tier. Runs under sanitizers do a share of it.
    pub fn scale(&self, quick: u64, thorough: u64) -> u64 {
        let amount = if self.thorough { thorough } else { quick };
        let percent = std::env::var("HV_SCALE").ok().and_then(|v| v.parse::<u64>().ok()).unwrap_or(100);

        (amount * percent / 100).max(1)
    }

    pub fn rng(&self, kind: &str, index: u64) -> Rng {
        Rng::new(self.seed, &format!("{}/{}", self.prop, kind), index)
    }

    /// One case generated / execution run / input tried.
    pub fn eval(&self) {
        self.evals.fetch_add(1, Ordering::Relaxed);
    }

    /// Mark a non-trivial case; equal keys count once.
    pub fn nontrivial(&self, key: &impl Hash) {
        let hash = hash_of(key);
        self.distinct[(hash % 64) as usize].lock().unwrap().insert(hash);
    }

    /// One oracle decision inside a case, counted as an execution of its own.
    pub fn observe(&self, key: &impl Hash) {
        self.eval();
        self.nontrivial(key);
    }

    pub fn count(&self, name: &str, n: u64) {
        let mut counters = self.counters.lock().unwrap();
        if let Some(value) = counters.get_mut(name) {
            *value += n;
        } else {
            counters.insert(name.to_string(), n);
        }
    }

    pub fn counter(&self, name: &str) -> u64 {
        self.counters.lock().unwrap().get(name).copied().unwrap_or(0)
    }

    /// The run is inconclusive if this counter ends below `min`.
    pub fn require(&self, name: &str, min: u64) {
        if self.only.is_none() {
            self.required.lock().unwrap().insert(name.to_string(), min);
        }
    }

    pub fn sample(&self, kind: &str, value: impl FnOnce() -> Json) {
        let mut kinds = self.sample_kinds.lock().unwrap();
        let n = kinds.entry(kind.to_string()).or_insert(0);
        if *n >= 2 {
            return;
        }
        *n += 1;
        drop(kinds);
        let value = value();
        let mut samples = self.samples.lock().unwrap();
        if samples.len() < 40 {
            samples.push(json!({ "kind": kind, "case": clip(value) }));
        }
    }

    pub fn violation(&self, kind: &str, index: u64, what: impl Into<String>, detail: Json) {
        self.violation_count.fetch_add(1, Ordering::Relaxed);
        let mut violations = self.violations.lock().unwrap();
        if violations.len() < 25 {
            violations.push(json!({
                "case": kind,
                "index": index,
                "what": what.into(),
                "detail": clip(detail),
            }));
        }
    }

    pub fn violated(&self) -> bool {
        self.violation_count.load(Ordering::Relaxed) > 0
    }

    /// Something the harness itself could not do.
    pub fn error(&self, what: impl Into<String>) {
        let mut errors = self.errors.lock().unwrap();
        if errors.len() < 25 {
            errors.push(what.into());
        }
    }

    pub fn fresh_dir(&self, name: &str) -> PathBuf {
        let n = self.dirs.fetch_add(1, Ordering::Relaxed);
        let path = self.scratch.join(format!("{name}-{}-{n}", std::process::id()));
        if let Err(err) = std::fs::create_dir_all(&path) {
            self.error(format!("cannot create scratch folder {path:?}: {err}"));
        }
        path
    }

    pub fn elapsed(&self) -> Duration {
        self.started.elapsed()
    }

    pub fn threads(&self) -> usize {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
    }

    /// Run `n` independent cases in parallel; a panic from outside the
    /// harness in a case is a violation when `panics_violate`.
    pub fn cases(&self, kind: &str, n: u64, body: impl Fn(&mut Job) + Sync) {
        self.cases_on(self.threads(), kind, n, body)
    }

    pub fn cases_on(&self, threads: usize, kind: &str, n: u64, body: impl Fn(&mut Job) + Sync) {
        if let Some((only, index)) = &self.only {
            if only == kind {
                self.one(kind, *index, &body);
            }
            return;
        }

        let next = AtomicU64::new(0);

        std::thread::scope(|scope| {
            for _ in 0..threads.max(1) {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, || {
                        loop {
                            let index = next.fetch_add(1, Ordering::Relaxed);
                            if index >= n || self.violation_count.load(Ordering::Relaxed) > 200 {
                                break;
                            }
                            self.one(kind, index, &body);
                        }
                    })
                    .expect("spawn");
            }
        });
    }

    fn one(&self, kind: &str, index: u64, body: &(impl Fn(&mut Job) + Sync)) {
        CURRENT.with(|c| *c.borrow_mut() = format!("{kind}#{index}"));
        self.eval();

        let mut job = Job { ctx: self, kind, index, rng: self.rng(kind, index) };

        LAST_PANIC.with(|p| *p.borrow_mut() = None);

        let id = NEXT_RUNNING.fetch_add(1, Ordering::Relaxed);
        RUNNING.lock().unwrap().insert(id, (kind.to_string(), index, Instant::now(), Duration::from_secs(self.case_limit.load(Ordering::Relaxed))));

        let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(&mut job)));

        RUNNING.lock().unwrap().remove(&id);

        if result.is_err() {
            match LAST_PANIC.with(|p| p.borrow_mut().take()) {
                Some(record) if record.is_harness() => {
                    self.error(format!("harness panic in {kind}#{index}: {record:?}"));
                }
                Some(record) => {
                    self.violation(kind, index, format!("panic at {}:{}", record.file, record.line), json!({ "message": record.message }));
                }
                None => self.error(format!("unknown panic in {kind}#{index}")),
            }
        }
    }

    /// Run `f`, turning a panic of the code under test into Err(message).
    pub fn guard<T>(&self, f: impl FnOnce() -> T) -> Result<T, PanicRecord> {
        LAST_PANIC.with(|p| *p.borrow_mut() = None);
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
            .map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take())
                .unwrap_or(PanicRecord { thread: "?".into(), file: "?".into(), line: 0, message: "?".into() }))
    }

    pub fn report(&self) -> Json {
        // panics of background tasks: nobody re-raised them, but they are
        // observations of the code under test all the same
        for record in PANICS.lock().unwrap().iter() {
            if record.is_harness() {
                self.error(format!("harness panic: {record:?}"));
            } else if !self.violated() {
                self.violation("panic-monitor", 0, format!("panic at {}:{}", record.file, record.line), json!({ "message": record.message, "thread": record.thread }));
            }
        }

        let counters = self.counters.lock().unwrap().clone();
        let mut errors = self.errors.lock().unwrap().clone();

        if self.only.is_none() && !self.violated() {
            for (name, min) in self.required.lock().unwrap().iter() {
                let got = counters.get(name).copied().unwrap_or(0);
                if got < *min {
                    errors.push(format!("observed too little: {name} = {got}, needs at least {min}"));
                }
            }
        }

        json!({
            "evaluations": self.evals.load(Ordering::Relaxed),
            "distinct_nontrivial": self.distinct.iter().map(|s| s.lock().unwrap().len() as u64).sum::<u64>(),
            "observed": counters,
            "samples": *self.samples.lock().unwrap(),
            "violations": *self.violations.lock().unwrap(),
            "violation_count": self.violation_count.load(Ordering::Relaxed),
            "errors": errors,
            "wall_s": self.started.elapsed().as_secs_f64(),
        })
    }
}

/// Keep evidence and replay files readable.
fn clip(value: Json) -> Json {
    match value {
        Json::String(s) if s.len() > 2000 => {
            let mut end = 1500;
            while !s.is_char_boundary(end) {
                end -= 1;
            }
            json!(format!("{}… ({} bytes)", &s[..end], s.len()))
        }
        Json::Array(a) if a.len() > 200 => {
            let n = a.len();
            let mut a: Vec<Json> = a.into_iter().take(200).map(clip).collect();
            a.push(json!(format!("… ({n} items)")));
            Json::Array(a)
        }
        Json::Array(a) => Json::Array(a.into_iter().map(clip).collect()),
        Json::Object(o) => Json::Object(o.into_iter().map(|(k, v)| (k, clip(v))).collect()),
        other => other,
    }
}

pub fn hex(bytes: &[u8]) -> String {
    let mut out = String::with_capacity(bytes.len().min(300) * 2 + 16);
    for b in bytes.iter().take(300) {
        out.push_str(&format!("{b:02x}"));
    }
    if bytes.len() > 300 {
        out.push_str(&format!("…({} bytes)", bytes.len()));
    }
    out
}

/// A current-thread runtime for one case.
pub fn block_on<F: std::future::Future>(future: F) -> F::Output {
    thread_local! {
        static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread()
            .enable_all()
            .build()
            .expect("runtime");
    }
    RT.with(|rt| rt.block_on(future))
}

/// Drop the future when it has been pending that many times, as happens when
/// a caller goes away.
pub async fn abandon<F: std::future::Future>(future: F, mut patience: u64) -> Option<F::Output> {
    let mut future = Box::pin(future);
    std::future::poll_fn(move |cx| match future.as_mut().poll(cx) {
        std::task::Poll::Ready(value) => std::task::Poll::Ready(Some(value)),
        std::task::Poll::Pending if patience <= 1 => std::task::Poll::Ready(None),
        std::task::Poll::Pending => {
            patience -= 1;
            std::task::Poll::Pending
        }
    }).await
}

/// Poll all futures in one task until every one is done.
pub async fn join_all<F: std::future::Future>(futures: Vec<F>) -> Vec<F::Output> {
    let mut futures: Vec<_> = futures.into_iter().map(|f| Some(Box::pin(f))).collect();
    let mut results: Vec<Option<F::Output>> = futures.iter().map(|_| None).collect();
    std::future::poll_fn(move |cx| {
        let mut pending = false;
        for (slot, result) in futures.iter_mut().zip(results.iter_mut()) {
            if let Some(future) = slot {
                match future.as_mut().poll(cx) {
                    std::task::Poll::Ready(value) => {
                        *result = Some(value);
                        *slot = None;
                    }
                    std::task::Poll::Pending => pending = true,
                }
            }
        }
        if pending {
            std::task::Poll::Pending
        } else {
            std::task::Poll::Ready(results.iter_mut().map(|r| r.take().expect("result")).collect())
        }
    }).await
}
