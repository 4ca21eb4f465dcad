//! Drives generated cases: sharded, seeded, shrinking, with replay files and evidence.

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

enum Mode {
    Run,
    Replay { section: String, spec: serde_json::Value },
}

/// What one case reports about itself.
#[derive(Default)]
pub struct Tally {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub inner: u64,
    pub note: Option<String>,
}
impl Tally {
    pub fn l(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn nt(&mut self, b: bool) {
        self.nontrivial = b;
    }
    /// executions of the code under test inside this case beyond the first
    pub fn inner(&mut self, n: u64) {
        self.inner += n;
    }
}

#[derive(Default)]
struct Acc {
    evals: u64,
    inner: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
}

pub struct Run {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    mode: Mode,
    rule: &'static str,
    only: Option<String>,
    scale: f64,
    sections: Vec<serde_json::Value>,
    total: Acc,
    samples: Vec<serde_json::Value>,
    violations: Vec<(String, String)>,
    start: Instant,
    exhaustive: bool,
    assumptions: Vec<String>,
    replayed: bool,
}

pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }
    })
}
/// true if `f` panicked or returned false
pub fn refused(f: impl FnOnce() -> bool) -> bool {
    !matches!(quiet(f), Ok(true))
}

fn root() -> std::path::PathBuf {
    std::env::var("GSV_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn seed_bytes(parts: &[&[u8]]) -> [u8; 32] {
    // FNV-style mixing followed by splitmix: only needs to separate shards
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in *p {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[i * 8..i * 8 + 8].copy_from_slice(&crate::eng::splitmix(&mut h).to_le_bytes());
    }
    out
}

impl Run {
    /// `prog [replay FILE | --only SECTION_SUBSTRING]`
    pub fn from_args(id: &'static str, rule: &'static str) -> Run {
        let args: Vec<String> = std::env::args().collect();
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let scale = std::env::var("GSV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let mut mode = Mode::Run;
        let mut only = None;
        if args.get(1).map(|s| s.as_str()) == Some("replay") {
            let f = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&f).expect("replay json");
            mode = Mode::Replay { section: v["section"].as_str().unwrap().into(), spec: v["spec"].clone() };
        } else if args.get(1).map(|s| s.as_str()) == Some("--only") {
            only = Some(args[2].clone());
        }
        if std::env::var_os("GSV_CHILD").is_none() {
            supervise(id, seed);
        }
        std::panic::set_hook(Box::new(|_| {}));
        Run {
            id,
            tier,
            seed,
            mode,
            rule,
            only,
            scale,
            sections: vec![],
            total: Acc::default(),
            samples: vec![],
            violations: vec![],
            start: Instant::now(),
            exhaustive: false,
            assumptions: vec![],
            replayed: false,
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// One generated check. `quick` / `thorough`: number of cases.
    pub fn section<S, G, C>(&mut self, name: &str, quick: u64, thorough: u64, strat: G, check: C)
    where
        S: Debug + Clone + Serialize + DeserializeOwned + Hash + Sync + Send + 'static,
        G: Fn() -> BoxedStrategy<S> + Sync,
        C: Fn(&S, &mut Tally) -> Result<(), String> + Sync,
    {
        let guarded = |s: &S, t: &mut Tally| -> Result<(), String> {
            match quiet(|| check(s, t)) {
                Ok(r) => r,
                Err(p) => Err(format!("unexpected panic: {p}")),
            }
        };
        if let Mode::Replay { section, spec } = &self.mode {
            if section != name {
                return;
            }
            self.replayed = true;
            let s: S = serde_json::from_value(spec.clone()).expect("spec does not parse");
            let r = pool(1).install(|| guarded(&s, &mut Tally::default()));
            let r = r.and_then(|_| pool(4).install(|| guarded(&s, &mut Tally::default())));
            match r {
                Ok(()) => println!("REPLAY property={} section={name}: holds", self.id),
                Err(e) => {
                    println!("REPLAY property={} section={name}: FAILS: {e}", self.id);
                    self.violations.push((name.into(), e));
                }
            }
            return;
        }
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        if self.give_up() {
            return;
        }
        let cases = ((if self.thorough() { thorough } else { quick }) as f64 * self.scale) as u64;
        if cases == 0 {
            return;
        }
        let t0 = Instant::now();
        const SHARDS: usize = 32;
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let accs: Mutex<Vec<(usize, Acc)>> = Mutex::new(vec![]);
        let fails: Mutex<Vec<(usize, S, String)>> = Mutex::new(vec![]);
        let (start, budget) = (self.start, self.budget_s());
        let (id, seed, tier) = (self.id, self.seed, if self.thorough() { 1u8 } else { 0 });
        let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8);
        // a case normally takes milliseconds: one that does not return at all is a failure too
        let running: Vec<Mutex<Option<(Instant, S)>>> = (0..SHARDS).map(|_| Mutex::new(None)).collect();
        let active = AtomicUsize::new(workers);
        std::thread::scope(|sc| {
            sc.spawn(|| {
                let mut ticks = 0u64;
                while active.load(Ordering::SeqCst) > 0 {
                    std::thread::sleep(std::time::Duration::from_millis(if ticks < 100 { 2 } else { 50 }));
                    ticks += 1;
                    if ticks % 40 != 0 {
                        continue;
                    }
                    for slot in &running {
                        let hung = match &*slot.lock().unwrap() {
                            Some((t, s)) if t.elapsed().as_secs() > HANG_S => Some(s.clone()),
                            _ => None,
                        };
                        if let Some(s) = hung {
                            // the supervisor tries this case on its own and decides
                            let v = serde_json::json!({"section": name, "spec": s});
                            std::fs::write(hang_file(std::process::id()), v.to_string()).ok();
                            std::process::exit(HANG_CODE);
                        }
                    }
                }
            });
            for _ in 0..workers {
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, || {
                    loop {
                        let sh = next.fetch_add(1, Ordering::SeqCst);
                        if sh >= SHARDS || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let n = cases / SHARDS as u64 + ((sh as u64) < cases % SHARDS as u64) as u64;
                        if n == 0 {
                            continue;
                        }
                        let rng = TestRng::from_seed(
                            RngAlgorithm::ChaCha,
                            &seed_bytes(&[id.as_bytes(), name.as_bytes(), &seed.to_le_bytes(), &[tier, sh as u8]]),
                        );
                        let mut runner = TestRunner::new_with_rng(
                            Config {
                                cases: n as u32,
                                failure_persistence: None,
                                max_shrink_iters: 400,
                                max_shrink_time: 45_000,
                                ..Config::default()
                            },
                            rng,
                        );
                        let acc = std::cell::RefCell::new(Acc::default());
                        let failed = std::cell::Cell::new(false);
                        // the library's internal parallelism runs inside a private pool: mostly one
                        // worker (no contention between shards), sometimes several
                        let threads = if sh % 4 == 3 { 3 } else { 1 };
                        let strat = strat();
                        let res = {
                            let pool = pool(threads);
                            runner.run(&strat, |s| {
                                if (stop.load(Ordering::SeqCst) || start.elapsed().as_secs() > budget) && !failed.get() {
                                    return Ok(());
                                }
                                trace(sh, name, &s);
                                let mut t = Tally::default();
                                *running[sh].lock().unwrap() = Some((Instant::now(), s.clone()));
                                let r = pool.install(|| guarded(&s, &mut t));
                                *running[sh].lock().unwrap() = None;
                                if !failed.get() {
                                    let mut a = acc.borrow_mut();
                                    a.evals += 1;
                                    a.inner += t.inner;
                                    for l in t.labels {
                                        *a.labels.entry(l).or_default() += 1;
                                    }
                                    if t.nontrivial {
                                        a.nontrivial.insert(hash_of(&s));
                                        if a.samples.len() < 2 {
                                            let mut v = serde_json::to_value(&s).unwrap();
                                            if let Some(n) = t.note {
                                                v = serde_json::json!({"case": v, "note": n});
                                            }
                                            if v.to_string().len() < 1500 || a.evals + 1 >= n {
                                                a.samples.push(v);
                                            }
                                        }
                                    }
                                }
                                r.map_err(|e| {
                                    failed.set(true);
                                    TestCaseError::fail(e)
                                })
                            })
                        };
                        match res {
                            Ok(()) => {}
                            Err(TestError::Fail(why, s)) => {
                                stop.store(true, Ordering::SeqCst);
                                fails.lock().unwrap().push((sh, s, why.to_string()));
                            }
                            Err(TestError::Abort(why)) => {
                                eprintln!("generator aborted in {name}: {why}");
                                std::process::exit(3);
                            }
                        }
                        accs.lock().unwrap().push((sh, acc.into_inner()));
                    }
                    active.fetch_sub(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
        });
        let mut accs = accs.into_inner().unwrap();
        accs.sort_by_key(|a| a.0);
        let mut sec = Acc::default();
        for (_, a) in accs {
            sec.evals += a.evals;
            sec.inner += a.inner;
            sec.nontrivial.extend(a.nontrivial);
            for (k, v) in a.labels {
                *sec.labels.entry(k).or_default() += v;
            }
            sec.samples.extend(a.samples);
        }
        if let Some(s) = sec.samples.first() {
            self.samples.push(serde_json::json!({"section": name, "input": s}));
        }
        println!(
            "{} {name}: {} cases ({} distinct non-trivial, {} inner executions) {:.1}s",
            self.id,
            sec.evals,
            sec.nontrivial.len(),
            sec.inner,
            t0.elapsed().as_secs_f64()
        );
        self.sections.push(serde_json::json!({
            "section": name, "cases": sec.evals, "distinct_nontrivial": sec.nontrivial.len(),
            "inner_executions": sec.inner, "classes": sec.labels, "wall_s": t0.elapsed().as_secs_f64(),
        }));
        self.total.evals += sec.evals;
        self.total.inner += sec.inner;
        // distinct over (section, input)
        for h in sec.nontrivial {
            self.total.nontrivial.insert(hash_of(&(name, h)));
        }
        let mut fails = fails.into_inner().unwrap();
        fails.sort_by_key(|f| f.0);
        if let Some((_, s, why)) = fails.into_iter().next() {
            self.report(name, serde_json::to_value(&s).unwrap(), why);
        }
    }

    /// A deterministic or enumerated check (no generator): `body` returns a failing spec.
    pub fn fixed<S, C>(&mut self, name: &str, items: Vec<S>, check: C)
    where
        S: Debug + Clone + Serialize + DeserializeOwned + Hash + Sync + Send + 'static,
        C: Fn(&S, &mut Tally) -> Result<(), String> + Sync,
    {
        let guarded = |s: &S, t: &mut Tally| match quiet(|| check(s, t)) {
            Ok(r) => r,
            Err(p) => Err(format!("unexpected panic: {p}")),
        };
        if let Mode::Replay { section, spec } = &self.mode {
            if section != name {
                return;
            }
            self.replayed = true;
            let s: S = serde_json::from_value(spec.clone()).expect("spec does not parse");
            match pool(1).install(|| guarded(&s, &mut Tally::default())) {
                Ok(()) => println!("REPLAY property={} section={name}: holds", self.id),
                Err(e) => {
                    println!("REPLAY property={} section={name}: FAILS: {e}", self.id);
                    self.violations.push((name.into(), e));
                }
            }
            return;
        }
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        if self.give_up() {
            return;
        }
        let t0 = Instant::now();
        let (start, budget) = (self.start, self.budget_s());
        let next = AtomicUsize::new(0);
        let acc = Mutex::new(Acc::default());
        let fail: Mutex<Option<(usize, S, String)>> = Mutex::new(None);
        let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8);
        std::thread::scope(|sc| {
            for _ in 0..workers {
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, || {
                        let pool = pool(1);
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= items.len() || start.elapsed().as_secs() > budget {
                                break;
                            }
                            trace(i, name, &items[i]);
                            let mut t = Tally::default();
                            let r = pool.install(|| guarded(&items[i], &mut t));
                            let mut a = acc.lock().unwrap();
                            a.evals += 1;
                            a.inner += t.inner;
                            for l in t.labels {
                                *a.labels.entry(l).or_default() += 1;
                            }
                            if t.nontrivial {
                                a.nontrivial.insert(hash_of(&items[i]));
                            }
                            if let Err(e) = r {
                                let mut f = fail.lock().unwrap();
                                if f.as_ref().map(|x| x.0 > i).unwrap_or(true) {
                                    *f = Some((i, items[i].clone(), e));
                                }
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let sec = acc.into_inner().unwrap();
        println!(
            "{} {name}: {} enumerated ({} non-trivial, {} inner executions) {:.1}s",
            self.id,
            sec.evals,
            sec.nontrivial.len(),
            sec.inner,
            t0.elapsed().as_secs_f64()
        );
        self.sections.push(serde_json::json!({
            "section": name, "cases": sec.evals, "distinct_nontrivial": sec.nontrivial.len(), "enumerated": true,
            "inner_executions": sec.inner, "classes": sec.labels, "wall_s": t0.elapsed().as_secs_f64(),
        }));
        if let Some(s) = items.first() {
            self.samples.push(serde_json::json!({"section": name, "input": serde_json::to_value(s).unwrap()}));
        }
        self.total.evals += sec.evals;
        self.total.inner += sec.inner;
        for h in sec.nontrivial {
            self.total.nontrivial.insert(hash_of(&(name, h)));
        }
        if let Some((_, s, why)) = fail.into_inner().unwrap() {
            self.report(name, serde_json::to_value(&s).unwrap(), why);
        }
    }

    /// checks that have found something, or used up their time, do not start further sections
    fn give_up(&self) -> bool {
        let t = self.start.elapsed().as_secs();
        t > self.budget_s() || (!self.violations.is_empty() && !self.thorough() && t > 240)
    }
    fn budget_s(&self) -> u64 {
        if self.thorough() {
            4 * 3600
        } else {
            600
        }
    }

    fn report(&mut self, section: &str, spec: serde_json::Value, why: String) {
        write_replay(self.id, self.seed, section, spec, &why);
        self.violations.push((section.into(), why));
    }

    pub fn finish(self) -> ! {
        if matches!(self.mode, Mode::Replay { .. }) {
            if !self.replayed {
                eprintln!("no such section");
                std::process::exit(2);
            }
            std::process::exit(if self.violations.is_empty() { 0 } else { 1 });
        }
        let ev = serde_json::json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.total.evals,
                "distinct_nontrivial": self.total.nontrivial.len(),
                "inner_executions": self.total.inner,
                "rule": self.rule,
                "samples": self.samples,
                "sections": self.sections,
                "exhaustive": self.exhaustive,
            },
            "assumptions": self.assumptions,
            "truncated_by_time": self.start.elapsed().as_secs() > self.budget_s(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.len(),
        });
        let dir = root().join("evidence");
        std::fs::create_dir_all(&dir).ok();
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
        println!(
            "{}: {} cases, {} distinct non-trivial, {} violations, {:.1}s",
            self.id,
            self.total.evals,
            self.total.nontrivial.len(),
            self.violations.len(),
            self.start.elapsed().as_secs_f64()
        );
        if self.violations.is_empty() && self.only.is_none() && self.total.nontrivial.is_empty() {
            eprintln!("no non-trivial case was generated: inconclusive");
            std::process::exit(4);
        }
        std::process::exit(if self.violations.is_empty() { 0 } else { 1 });
    }
}

pub fn pool(threads: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(threads).stack_size(32 << 20).build().expect("thread pool")
}

/// a case that has not returned after this long (they take milliseconds) is tried again alone
const HANG_S: u64 = 150;
const HANG_CODE: i32 = 77;
fn hang_file(pid: u32) -> std::path::PathBuf {
    std::env::temp_dir().join(format!("gsv-hang-{pid}.json"))
}

fn write_replay(id: &str, seed: u64, section: &str, spec: serde_json::Value, why: &str) {
    let body = serde_json::json!({
        "property": id, "section": section, "seed": seed, "why": why, "spec": spec,
        "how": format!("./check.sh {id} replay <this file>"),
    });
    let text = serde_json::to_string_pretty(&body).unwrap();
    let dir = root().join("replays").join(id);
    std::fs::create_dir_all(&dir).ok();
    let f = dir.join(format!("{}-{:016x}.json", section.replace(['/', ' '], "_"), hash_of(&text)));
    std::fs::write(&f, &text).expect("write replay");
    println!("VIOLATION property={id} replay={}", f.display());
    println!("  section {section}: {why}");
}

/// notes the case about to be run, when the supervisor is looking for one that ends the process
fn trace<S: Serialize>(slot: usize, section: &str, s: &S) {
    static DIR: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
    if let Some(d) = DIR.get_or_init(|| std::env::var("GSV_TRACE").ok()) {
        let v = serde_json::json!({"section": section, "spec": s});
        std::fs::write(format!("{d}/{slot}.json"), v.to_string()).ok();
    }
}

/// Runs the check in a child process, so that code under test that ends the process (abort on a failed
/// allocation, stack overflow) is reported like any other failure.
fn supervise(id: &'static str, seed: u64) -> ! {
    use std::io::{BufRead, Write};
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("own path");
    let args: Vec<String> = std::env::args().skip(1).collect();
    let replaying = args.first().map(|s| s.as_str()) == Some("replay");
    // exit status (None: killed after `limit` seconds), process id, violation seen
    let run = |args: &[String], trace: Option<&str>, show: bool, limit: Option<u64>| {
        let mut c = std::process::Command::new(&exe);
        c.args(args).env("GSV_CHILD", "1").stdout(std::process::Stdio::piped()).stderr(if show { std::process::Stdio::inherit() } else { std::process::Stdio::null() });
        if let Some(t) = trace {
            c.env("GSV_TRACE", t);
        }
        let mut ch = c.spawn().expect("start the check");
        let pid = ch.id();
        let mut out = std::io::BufReader::new(ch.stdout.take().unwrap());
        let reader = std::thread::spawn(move || {
            let mut seen = false;
            let mut l = vec![];
            while let Ok(n) = out.read_until(b'\n', &mut l) {
                if n == 0 {
                    break;
                }
                seen |= l.starts_with(b"VIOLATION ");
                if show {
                    let mut o = std::io::stdout().lock();
                    o.write_all(&l).ok();
                    o.flush().ok();
                }
                l.clear();
            }
            seen
        });
        let t0 = Instant::now();
        let st = loop {
            if let Some(st) = ch.try_wait().expect("wait for the check") {
                break Some(st);
            }
            if limit.is_some_and(|l| t0.elapsed().as_secs() > l) {
                ch.kill().ok();
                ch.wait().ok();
                break None;
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
        };
        (st, pid, reader.join().unwrap_or(false))
    };
    let (st, pid, seen) = run(&args, None, true, if replaying { Some(2 * HANG_S) } else { None });
    let st = match st {
        Some(st) => st,
        None => {
            println!("REPLAY property={id}: FAILS: no result within {} s", 2 * HANG_S);
            std::process::exit(1);
        }
    };
    if st.code() == Some(HANG_CODE) {
        let f = hang_file(pid);
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        let v = serde_json::from_str::<serde_json::Value>(&text).unwrap_or_default();
        let alone = run(&["replay".into(), f.to_str().unwrap().into()], None, false, Some(HANG_S)).0;
        std::fs::remove_file(&f).ok();
        if alone.is_none() {
            write_replay(id, seed, v["section"].as_str().unwrap_or("?"), v["spec"].clone(), &format!("does not return: no result within {HANG_S} s, twice"));
            std::process::exit(1);
        }
        eprintln!("{id}: a case did not return within {HANG_S} s, but does so on its own: no answer");
        std::process::exit(if seen { 1 } else { 5 });
    }
    if let Some(code) = st.code() {
        std::process::exit(code);
    }
    let sig = st.signal().unwrap_or(0);
    if replaying {
        println!("REPLAY property={id}: FAILS: the process was ended by signal {sig}");
        std::process::exit(1);
    }
    if seen {
        println!("{id}: the process was ended by signal {sig} after a violation had been found");
        std::process::exit(1);
    }
    if ![4, 6, 7, 8, 11].contains(&sig) {
        eprintln!("{id}: the check was killed by signal {sig}: no answer");
        std::process::exit(5);
    }
    // once more, noting every case before it is run; then each case that was under way on its own
    let dir = std::env::temp_dir().join(format!("gsv-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let d = dir.to_str().unwrap().to_string();
    let again = run(&args, Some(&d), false, None).0.is_some_and(|s| s.code().is_none());
    let mut found = None;
    if again {
        let mut fs: Vec<_> = std::fs::read_dir(&dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
        fs.sort_by_key(|f| std::cmp::Reverse(std::fs::metadata(f).and_then(|m| m.modified()).ok()));
        for f in fs.iter().take(24) {
            let a = vec!["replay".to_string(), f.to_str().unwrap().to_string()];
            if run(&a, None, false, Some(HANG_S)).0.is_some_and(|s| s.code().is_none()) {
                found = std::fs::read_to_string(f).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok());
                break;
            }
        }
    }
    std::fs::remove_dir_all(&dir).ok();
    if !again {
        eprintln!("{id}: the check was ended by signal {sig} once, not when run again: no answer");
        std::process::exit(5);
    }
    let why = format!("the code under test ends the process with signal {sig}");
    match found {
        Some(v) => write_replay(id, seed, v["section"].as_str().unwrap_or("?"), v["spec"].clone(), &why),
        None => write_replay(id, seed, "whole run", serde_json::Value::Null, &format!("{why} (no single case does: re-run the check with this seed)")),
    }
    std::process::exit(1)
}
