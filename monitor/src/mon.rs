//! Case runner: executes monitored cases, collects what was observed, turns
//! oracle failures and panics of the monitored crate into violations.

use crate::rng::{splitmix, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

/// An oracle's verdict "violated", with the witness.
#[derive(Debug, Clone)]
pub struct Fail(pub String);
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::mon::Fail(format!($($a)*))) };
}

/// Property-level oracle assertion.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::mon::Fail(format!($($a)*))) } };
}

thread_local! {
    static IN_RASP: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<Option<(String, String, bool)>> = const { RefCell::new(None) };
}

/// Marks the extent of a call into the monitored crate, so that a panic in it
/// (also one located in std code it called) is attributed to the crate.
#[inline(always)]
pub fn rasp<R>(f: impl FnOnce() -> R) -> R {
    IN_RASP.with(|c| c.set(true));
    let r = f();
    IN_RASP.with(|c| c.set(false));
    r
}

/// Runs `f`, returning the panic message if the monitored crate panicked.
/// A panic of the monitor itself is passed on.
pub fn catch_rasp<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    IN_RASP.with(|c| c.set(false));
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let (loc, msg, in_rasp) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or((String::from("?"), String::from("?"), false));
            IN_RASP.with(|c| c.set(false));
            if in_rasp || loc.starts_with("/repo/") {
                Err(format!("the monitored crate panicked at {}: {}", loc, msg))
            } else {
                HARNESS.lock().unwrap().push(format!("monitor panicked at {}: {}", loc, msg));
                panic::resume_unwind(e)
            }
        }
    }
}

static HARNESS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let in_rasp = IN_RASP.with(|c| c.get());
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg, in_rasp)));
    }));
}

/// One monitored execution.
pub struct Case {
    pub rng: Rng,
    /// Case index within its section (for enumerating sections).
    pub index: usize,
    /// Multiplies run lengths (1 in quick, more in thorough).
    pub depth: usize,
    pub desc: String,
    pub nontrivial: bool,
    pub tracing: bool,
    pub log: Vec<String>,
    sig: u64,
    ev: BTreeMap<&'static str, u64>,
}

impl Case {
    pub fn new(seed: u64, index: usize, depth: usize, tracing: bool) -> Case {
        Case {
            rng: Rng::new(seed),
            index,
            depth,
            desc: String::new(),
            nontrivial: false,
            tracing,
            log: Vec::new(),
            sig: 0xcbf2_9ce4_8422_2325,
            ev: BTreeMap::new(),
        }
    }

    /// Counts observed events of a kind.
    #[inline]
    pub fn seen(&mut self, what: &'static str, n: u64) {
        *self.ev.entry(what).or_insert(0) += n;
    }

    /// Mixes something that distinguishes this execution into its signature.
    #[inline]
    pub fn mix(&mut self, x: u64) {
        self.sig = (self.sig ^ x).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23);
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            if self.log.len() >= 400 {
                self.log.drain(0..200);
            }
            self.log.push(f());
        }
    }
}

#[derive(Clone, Copy)]
pub struct Section {
    pub name: &'static str,
    pub run: fn(&mut Case) -> Res,
    pub quick: usize,
    pub thorough: usize,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub sections: Vec<Section>,
    /// Events that must have been observed for a verdict.
    pub require: &'static [&'static str],
}

pub struct Violation {
    pub section: String,
    pub index: usize,
    pub seed: u64,
    pub what: String,
    pub desc: String,
    pub log: Vec<String>,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub events: BTreeMap<&'static str, u64>,
    pub sections: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub harness: Vec<String>,
}

pub fn case_seed(seed: u64, prop: &str, section: &str, index: usize) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ seed.wrapping_mul(0x2545_F491_4F6C_DD1D);
    for b in prop.bytes().chain(section.bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^= (index as u64).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut h)
}

/// Runs one case; Ok(None) = held, Ok(Some) = violated, Err = monitor broken.
pub fn run_case(s: &Section, case: &mut Case) -> Result<Option<String>, ()> {
    let r = panic::catch_unwind(AssertUnwindSafe(|| catch_rasp(|| (s.run)(case))));
    match r {
        Ok(Ok(Ok(()))) => Ok(None),
        Ok(Ok(Err(Fail(w)))) => Ok(Some(w)),
        Ok(Err(p)) => Ok(Some(p)),
        Err(_) => Err(()),
    }
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub depth: usize,
    pub scale: f64,
    pub threads: usize,
    pub only: Option<String>,
    pub watch: bool,
}

/// A call that does not return is reported by a watchdog.
static RUNNING: Mutex<Vec<(std::thread::ThreadId, &'static str, usize, u64, std::time::Instant)>> = Mutex::new(Vec::new());

fn begin(section: &'static str, index: usize, seed: u64) {
    let id = std::thread::current().id();
    let mut r = RUNNING.lock().unwrap();
    let e = (id, section, index, seed, std::time::Instant::now());
    match r.iter_mut().find(|x| x.0 == id) {
        Some(x) => *x = e,
        None => r.push(e),
    }
}
fn end() {
    let id = std::thread::current().id();
    RUNNING.lock().unwrap().retain(|x| x.0 != id);
}

/// Starts the watchdog: `report` gets (section, index, seed, seconds).
pub fn watchdog(limit: u64, report: impl Fn(&str, usize, u64, u64) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let late = RUNNING.lock().unwrap().iter().find(|x| x.4.elapsed().as_secs() >= limit).map(|x| (x.1, x.2, x.3, x.4.elapsed().as_secs()));
        if let Some((s, i, d, t)) = late {
            report(s, i, d, t);
        }
    });
}

pub fn run_prop(p: &Prop, o: &Opts) -> Report {
    let total = Mutex::new(Report::default());
    for s in &p.sections {
        if let Some(only) = &o.only {
            if !s.name.contains(only.as_str()) {
                continue;
            }
        }
        let n = if o.thorough { s.thorough } else { s.quick };
        let n = ((n as f64 * o.scale).ceil() as usize).max(1);
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let work = || {
            let mut local = Report::default();
            loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n || stop.load(Ordering::Relaxed) {
                    break;
                }
                let seed = case_seed(o.seed, p.id, s.name, i);
                let mut c = Case::new(seed, i, o.depth, false);
                if o.watch {
                    begin(s.name, i, seed);
                }
                let r = run_case(s, &mut c);
                if o.watch {
                    end();
                }
                local.evaluations += 1;
                *local.sections.entry(s.name).or_insert(0) += 1;
                for (k, v) in &c.ev {
                    *local.events.entry(k).or_insert(0) += v;
                }
                if c.nontrivial {
                    local.distinct.insert(c.sig);
                }
                if i < 2 && !c.desc.is_empty() {
                    local.samples.push(format!("{}#{}: {}", s.name, i, c.desc));
                }
                match r {
                    Ok(None) => {}
                    Ok(Some(what)) => {
                        // Re-execute with tracing on to record the history.
                        let mut t = Case::new(seed, i, o.depth, true);
                        let again = run_case(s, &mut t);
                        let what = match again {
                            Ok(Some(w)) => w,
                            _ => format!("{} (not reproduced on re-execution)", what),
                        };
                        local.violations.push(Violation {
                            section: s.name.to_string(),
                            index: i,
                            seed,
                            what,
                            desc: t.desc.clone(),
                            log: t.log.clone(),
                        });
                        stop.store(true, Ordering::Relaxed);
                    }
                    Err(()) => {
                        local.harness.push(format!("{}#{} seed {}", s.name, i, seed));
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            }
            let mut t = total.lock().unwrap();
            t.evaluations += local.evaluations;
            t.distinct.extend(local.distinct);
            for (k, v) in local.events {
                *t.events.entry(k).or_insert(0) += v;
            }
            for (k, v) in local.sections {
                *t.sections.entry(k).or_insert(0) += v;
            }
            t.samples.extend(local.samples);
            t.violations.extend(local.violations);
            t.harness.extend(local.harness);
        };
        if o.threads <= 1 {
            work();
        } else {
            std::thread::scope(|sc| {
                for _ in 0..o.threads {
                    sc.spawn(work);
                }
            });
        }
    }
    let mut r = total.into_inner().unwrap();
    r.harness.extend(HARNESS.lock().unwrap().drain(..));
    r.violations.sort_by(|a, b| (a.section.as_str(), a.index).cmp(&(b.section.as_str(), b.index)));
    r.samples.sort();
    r
}
