//! Exhaustive explorer: runs a family on every choice sequence within its deviation budget, on all
//! cores, and records what was covered.
use crate::choose::Chooser;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum V {
    Ok,
    /// Deviation explained exactly by a documented defect of the implementation.
    Known(&'static str, String),
    Bad(String),
}

#[derive(Clone, Debug)]
pub struct Report {
    /// Model/implementation steps taken in this execution.
    pub steps: u64,
    /// Hash of the observed outcome.
    pub class: u64,
    /// True when the execution exercised nothing of the property.
    pub trivial: bool,
    pub verdict: V,
}

pub fn hash<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub struct Family {
    pub name: &'static str,
    pub budget: u32,
    #[allow(clippy::type_complexity)]
    pub run: Box<dyn Fn(&mut Chooser) -> Report + Sync + Send>,
}

pub fn family(name: &'static str, budget: u32, run: impl Fn(&mut Chooser) -> Report + Sync + Send + 'static) -> Family {
    Family { name, budget, run: Box::new(run) }
}

#[derive(Clone, Debug)]
pub struct Found {
    pub family: &'static str,
    pub budget: u32,
    pub choices: Vec<u32>,
    pub used: u32,
    pub what: String,
    pub input: String,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub steps: u64,
    pub classes: HashSet<u64>,
    pub bad: Vec<Found>,
    pub known: BTreeMap<&'static str, (u64, Found)>,
    pub samples: Vec<String>,
    pub complete: bool,
    pub families: Vec<(String, u64, usize, bool)>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

/// Runs `f`, turning a panic into an error carrying its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// One execution. A panic that escapes the family (from the implementation or the harness) is a
/// violation: nothing on these paths may panic.
pub fn run_one(f: &Family, prefix: &[u32], verbose: bool) -> (Chooser, Report) {
    let mut ch = Chooser::new(prefix, f.budget);
    ch.verbose = verbose;
    let r = guarded(|| (f.run)(&mut ch));
    let r = match r {
        Ok(r) => r,
        Err(m) => Report { steps: 0, class: hash(&m), trivial: false, verdict: V::Bad(m) },
    };
    (ch, r)
}

struct Shared {
    stack: Mutex<Vec<Vec<u32>>>,
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
}

pub struct Slots {
    pub files: Vec<std::fs::File>,
    pub start: Vec<AtomicU64>,
    pub cur: Vec<Mutex<(usize, Vec<u32>)>>,
    pub t0: Instant,
}

impl Slots {
    pub fn new(dir: &std::path::Path, n: usize) -> Slots {
        std::fs::create_dir_all(dir).unwrap();
        Slots {
            files: (0..n).map(|i| std::fs::File::create(dir.join(format!("slot{i}"))).unwrap()).collect(),
            start: (0..n).map(|_| AtomicU64::new(0)).collect(),
            cur: (0..n).map(|_| Mutex::new((0, vec![]))).collect(),
            t0: Instant::now(),
        }
    }
    fn enter(&self, w: usize, fam: usize, prefix: &[u32]) {
        let mut s = String::with_capacity(prefix.len() * 3 + 16);
        s.push_str(&fam.to_string());
        for p in prefix {
            s.push(' ');
            s.push_str(&p.to_string());
        }
        s.push_str(" ;\n");
        let _ = self.files[w].write_at(s.as_bytes(), 0);
        {
            let mut c = self.cur[w].lock().unwrap();
            c.0 = fam;
            c.1.clear();
            c.1.extend_from_slice(prefix);
        }
        self.start[w].store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
    }
    fn leave(&self, w: usize) {
        self.start[w].store(0, Ordering::Relaxed);
    }
}

pub const THREADS: usize = 8;
fn max_bad() -> usize {
    std::env::var("MC_MAX_BAD").ok().and_then(|s| s.parse().ok()).unwrap_or(400)
}

/// Explores one family completely (or until `deadline`, in which case `complete` is false).
pub fn explore(fi: usize, f: &Family, slots: &Slots, deadline: Instant, total: &mut Stats) {
    let sh = Shared { stack: Mutex::new(vec![vec![]]), cv: Condvar::new(), idle: AtomicUsize::new(0), stop: AtomicBool::new(false) };
    let capped = AtomicBool::new(false);
    let bads = AtomicUsize::new(0);
    let results: Vec<Stats> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..THREADS)
            .map(|w| {
                let (sh, capped, bads) = (&sh, &capped, &bads);
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, move || {
                        let mut st = Stats::default();
                        let mut local: Vec<Vec<u32>> = vec![];
                        loop {
                            let p = match local.pop() {
                                Some(p) => p,
                                None => {
                                    let mut g = sh.stack.lock().unwrap();
                                    loop {
                                        if sh.stop.load(Ordering::SeqCst) {
                                            return st;
                                        }
                                        if let Some(p) = g.pop() {
                                            break p;
                                        }
                                        if sh.idle.fetch_add(1, Ordering::SeqCst) + 1 == THREADS {
                                            sh.stop.store(true, Ordering::SeqCst);
                                            sh.cv.notify_all();
                                            return st;
                                        }
                                        g = sh.cv.wait(g).unwrap();
                                        sh.idle.fetch_sub(1, Ordering::SeqCst);
                                    }
                                }
                            };
                            if Instant::now() > deadline {
                                capped.store(true, Ordering::SeqCst);
                                sh.stop.store(true, Ordering::SeqCst);
                                sh.cv.notify_all();
                                return st;
                            }
                            if sh.stop.load(Ordering::Relaxed) {
                                return st;
                            }
                            slots.enter(w, fi, &p);
                            let (ch, r) = run_one(f, &p, false);
                            slots.leave(w);
                            st.evaluations += 1;
                            st.steps += r.steps;
                            if !r.trivial {
                                st.nontrivial += 1
                            }
                            st.classes.insert(r.class);
                            // schedule the alternatives that branch off after the prefix
                            let mut used: u32 = ch.trace[..p.len()].iter().map(|t| if t.0 != 0 { t.2 } else { 0 }).sum();
                            for i in p.len()..ch.trace.len() {
                                let (c, n, cost) = ch.trace[i];
                                debug_assert_eq!(c, 0);
                                if used + cost <= f.budget {
                                    for alt in (1..n).rev() {
                                        let mut np: Vec<u32> = ch.trace[..i].iter().map(|t| t.0).collect();
                                        np.push(alt);
                                        local.push(np);
                                    }
                                }
                                used += 0;
                            }
                            // share work
                            if local.len() > 16 && sh.idle.load(Ordering::Relaxed) > 0 {
                                let half = local.len() / 2;
                                let give: Vec<_> = local.drain(..half).collect();
                                sh.stack.lock().unwrap().extend(give);
                                sh.cv.notify_all();
                            }
                            match r.verdict {
                                V::Ok => {
                                    if st.samples.is_empty() && !r.trivial && st.evaluations > 20 {
                                        let (ch, _) = run_one(f, &p, true);
                                        st.samples.push(format!("[{}] {}", f.name, ch.desc));
                                    }
                                }
                                V::Known(id, what) => {
                                    let e = st.known.get_mut(id);
                                    let better = match &e {
                                        None => true,
                                        Some(o) => (ch.used(), ch.trace.len()) < (o.1.used, o.1.choices.len()),
                                    };
                                    let n = e.map(|e| e.0).unwrap_or(0) + 1;
                                    if better {
                                        let (ch, _) = run_one(f, &p, true);
                                        st.known.insert(
                                            id,
                                            (n, Found { family: f.name, budget: f.budget, choices: ch.choices(), used: ch.used(), what, input: ch.desc.clone() }),
                                        );
                                    } else {
                                        st.known.get_mut(id).unwrap().0 = n
                                    }
                                }
                                V::Bad(what) => {
                                    let (ch, r2) = run_one(f, &p, true);
                                    let mut what = what;
                                    // the same choices must fail again, with the same observation
                                    match r2.verdict {
                                        V::Bad(w2) if w2 == what => {}
                                        v => what = format!("{what}\n(not the same on replay: {v:?})"),
                                    }
                                    st.bad.push(Found { family: f.name, budget: f.budget, choices: ch.choices(), used: ch.used(), what, input: ch.desc.clone() });
                                    if bads.fetch_add(1, Ordering::SeqCst) >= max_bad() {
                                        sh.stop.store(true, Ordering::SeqCst);
                                        sh.cv.notify_all();
                                    }
                                }
                            }
                        }
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut evals = 0;
    let mut classes = HashSet::new();
    let complete = !capped.load(Ordering::SeqCst) && bads.load(Ordering::SeqCst) <= max_bad();
    for st in results {
        evals += st.evaluations;
        total.evaluations += st.evaluations;
        total.nontrivial += st.nontrivial;
        total.steps += st.steps;
        for c in st.classes {
            classes.insert(c);
            total.classes.insert(c);
        }
        total.bad.extend(st.bad);
        for (k, v) in st.known {
            match total.known.get_mut(k) {
                Some(o) => {
                    o.0 += v.0;
                    if (v.1.used, v.1.choices.len()) < (o.1.used, o.1.choices.len()) {
                        o.1 = v.1
                    }
                }
                None => {
                    total.known.insert(k, v);
                }
            }
        }
        if total.samples.len() < 12 {
            if let Some(s) = st.samples.into_iter().next() {
                if !total.samples.iter().any(|x| x.starts_with(&format!("[{}]", f.name))) || total.samples.len() < 4 {
                    total.samples.push(s)
                }
            }
        }
    }
    total.families.push((format!("{} (deviations <= {})", f.name, f.budget), evals, classes.len(), complete));
    total.complete &= complete;
    let _ = std::io::stdout().flush();
}

/// Aborts the process with a violation when one execution runs for too long.
pub fn watchdog(slots: &Slots, limit: Duration, report: impl Fn(usize, Vec<u32>)) {
    loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = slots.t0.elapsed().as_millis() as u64;
        for (w, s) in slots.start.iter().enumerate() {
            let t = s.load(Ordering::Relaxed);
            if t != 0 && now > t && now - t > limit.as_millis() as u64 {
                let c = slots.cur[w].lock().unwrap().clone();
                report(c.0, c.1);
                return;
            }
        }
    }
}
