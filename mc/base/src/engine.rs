//! The explorer: enumerates every case of every declared space, runs the real code on it, compares
//! with the reference model, and reports the lowest-numbered violation of the first failing space.

use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Measured coverage.
#[derive(Default)]
pub struct Ctx {
    /// distinct model states visited (lines, or (line, selection) pairs, or schedules' states)
    pub states: u64,
    /// operations of the real code executed from those states and compared with the model
    pub transitions: u64,
    /// hashes of distinct observed outcomes
    pub outcomes: HashSet<u64>,
    pub findings: Vec<(String, String)>,
}

const OUTCOME_CAP: usize = 200_000;

impl Ctx {
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < OUTCOME_CAP {
            self.outcomes.insert(h);
        }
    }
    /// A behaviour that contradicts the property on one specific listed input (see known_findings.json).
    pub fn finding(&mut self, key: &str, what: String) {
        if !self.findings.iter().any(|(k, _)| k == key) {
            self.findings.push((key.to_string(), what));
        }
    }
}

pub type Run = Box<dyn Fn(u64, &mut Ctx) -> Result<(), String> + Sync + Send>;

pub struct Space {
    pub name: String,
    /// what is enumerated
    pub rule: String,
    pub size: u64,
    pub describe: Box<dyn Fn(u64) -> String + Sync + Send>,
    pub run: Run,
}

impl Space {
    pub fn new<T: 'static>(
        name: &str,
        rule: &str,
        size: u64,
        decode: impl Fn(u64) -> T + Sync + Send + 'static,
        describe: impl Fn(&T) -> String + Sync + Send + 'static,
        run: impl Fn(&T, &mut Ctx) -> Result<(), String> + Sync + Send + 'static,
    ) -> Space {
        let decode = Arc::new(decode);
        let d2 = decode.clone();
        Space {
            name: name.to_string(),
            rule: rule.to_string(),
            size,
            describe: Box::new(move |i| describe(&decode(i))),
            run: Box::new(move |i, c| run(&d2(i), c)),
        }
    }
}

#[derive(Clone)]
pub struct Violation {
    pub space: String,
    pub index: u64,
    pub case: String,
    pub message: String,
}

#[derive(Default, Clone)]
pub struct Report {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: usize,
    pub outcomes_capped: bool,
    pub spaces: Vec<(String, String, u64)>,
    pub samples: Vec<String>,
    pub findings: Vec<(String, String)>,
    pub violation: Option<Violation>,
    /// the space in which the exploration ran out of time, if it did
    pub stopped: Option<String>,
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

pub fn run_one(space: &Space, index: u64, ctx: &mut Ctx) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| (space.run)(index, ctx))) {
        Ok(r) => r,
        Err(e) => Err(format!("the code panicked: {}", panic_text(e))),
    }
}

struct Slot {
    /// index + 1 of the running case, 0 when idle
    index: AtomicU64,
    since_ms: AtomicU64,
}

fn rss_bytes() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|v| v.parse::<u64>().ok()))
        .map_or(0, |p| p * 4096)
}

pub const CASE_TIMEOUT: Duration = Duration::from_secs(90);
/// Cases of very long lines ("huge") come last and are not judged by their time: code may be slow.
const HUGE_TIMEOUT: Duration = Duration::from_secs(240);
const RSS_CAP: u64 = 12 << 30;

/// With MC_TRACE_DIR set, each worker keeps the number of the case it is running in a file of its own, so that
/// a case that takes the whole process down can be named afterwards.
fn trace_file(worker: usize) -> Option<std::fs::File> {
    let dir = std::env::var_os("MC_TRACE_DIR")?;
    std::fs::File::create(std::path::Path::new(&dir).join(format!("{}", worker))).ok()
}

/// Explores all spaces. `on_hang` is called (and must not return) when one case exceeds its limits, `on_stop` (which
/// must not return either) when the time is over and a case is still running.
pub fn explore(
    spaces: &[Space],
    threads: usize,
    time: Duration,
    on_hang: &(dyn Fn(Violation) + Sync),
    on_stop: &(dyn Fn(Report) + Sync),
) -> Report {
    let mut rep = Report::default();
    let start = Instant::now();
    let mut all_outcomes: HashSet<u64> = HashSet::new();
    let huge = |s: &Space| s.name.contains("huge");
    for space in spaces.iter().filter(|s| !huge(s)).chain(spaces.iter().filter(|s| huge(s))) {
        if let Some(only) = std::env::var_os("MC_ONLY_SPACE") {
            if only != *space.name {
                continue;
            }
        }
        let t0 = Instant::now();
        let chunk = (space.size / (threads as u64 * 64)).clamp(1, 4096);
        let next = AtomicU64::new(0);
        let best = AtomicU64::new(u64::MAX);
        let found: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let slots: Vec<Slot> = (0..threads)
            .map(|_| Slot { index: AtomicU64::new(0), since_ms: AtomicU64::new(0) })
            .collect();
        let done = AtomicBool::new(false);
        let total = Mutex::new(Ctx::default());
        let cases = AtomicU64::new(0);
        let late = AtomicBool::new(false);
        let so_far = Report { outcomes: all_outcomes.len(), stopped: Some(space.name.clone()), ..rep.clone() };
        std::thread::scope(|sc| {
            let handles: Vec<_> = slots
                .iter()
                .enumerate()
                .map(|(k, slot)| {
                    let trace = trace_file(k);
                    let (next, best, found, total, cases, late) = (&next, &best, &found, &total, &cases, &late);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let mut ctx = Ctx::default();
                            let mut n = 0u64;
                            loop {
                                let lo = next.fetch_add(chunk, SeqCst);
                                if lo >= space.size || lo > best.load(SeqCst) || late.load(SeqCst) {
                                    break;
                                }
                                for i in lo..(lo + chunk).min(space.size) {
                                    if i > best.load(SeqCst) || late.load(SeqCst) {
                                        break;
                                    }
                                    slot.since_ms.store(start.elapsed().as_millis() as u64, SeqCst);
                                    slot.index.store(i + 1, SeqCst);
                                    if let Some(f) = &trace {
                                        use std::os::unix::fs::FileExt;
                                        let _ = f.write_all_at(format!("{:<20} {:<40}\n", i, space.name).as_bytes(), 0);
                                    }
                                    let r = run_one(space, i, &mut ctx);
                                    n += 1;
                                    if let Err(m) = r {
                                        let mut f = found.lock().unwrap();
                                        if f.as_ref().map_or(true, |(j, _)| i < *j) {
                                            *f = Some((i, m));
                                            best.store(i, SeqCst);
                                        }
                                    }
                                }
                                slot.index.store(0, SeqCst);
                            }
                            slot.index.store(0, SeqCst);
                            cases.fetch_add(n, SeqCst);
                            let mut t = total.lock().unwrap();
                            t.states += ctx.states;
                            t.transitions += ctx.transitions;
                            t.outcomes.extend(ctx.outcomes);
                            for (k, w) in ctx.findings {
                                t.finding(&k, w);
                            }
                        })
                        .unwrap()
                })
                .collect();
            let (slots, done, late, found, so_far) = (&slots, &done, &late, &found, &so_far);
            sc.spawn(move || {
                while !done.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = start.elapsed().as_millis() as u64;
                    let big = rss_bytes() > RSS_CAP;
                    let over = now > time.as_millis() as u64;
                    if over {
                        late.store(true, SeqCst);
                    }
                    let worst = slots
                        .iter()
                        .filter(|s| s.index.load(SeqCst) != 0)
                        .max_by_key(|s| now.saturating_sub(s.since_ms.load(SeqCst)));
                    if let Some(w) = worst {
                        let age = now.saturating_sub(w.since_ms.load(SeqCst));
                        let index = w.index.load(SeqCst).wrapping_sub(1);
                        if index == u64::MAX {
                            continue;
                        }
                        if (huge(space) && age > HUGE_TIMEOUT.as_millis() as u64) || (over && age > 20_000) {
                            match found.lock().unwrap().clone() {
                                Some((index, message)) => {
                                    on_hang(Violation { space: space.name.clone(), index, case: (space.describe)(index), message })
                                }
                                None => on_stop(so_far.clone()),
                            }
                        }
                        if (!huge(space) && age > CASE_TIMEOUT.as_millis() as u64) || (big && age > 500) {
                            on_hang(Violation {
                                space: space.name.clone(),
                                index,
                                case: (space.describe)(index),
                                message: format!(
                                    "the case does not terminate (running for {} ms, {} MB in use)",
                                    age,
                                    rss_bytes() >> 20
                                ),
                            });
                        }
                    }
                }
            });
            for h in handles {
                h.join().unwrap();
            }
            done.store(true, SeqCst);
        });
        let t = total.into_inner().unwrap();
        rep.states += t.states;
        rep.transitions += t.transitions;
        for (k, w) in t.findings {
            if !rep.findings.iter().any(|(k2, _)| *k2 == k) {
                rep.findings.push((k, w));
            }
        }
        let n = cases.load(SeqCst);
        rep.traces += n;
        all_outcomes.extend(t.outcomes);
        rep.spaces.push((space.name.clone(), space.rule.clone(), n));
        if space.size > 0 {
            let mut picks = vec![0, space.size / 2, space.size - 1];
            picks.dedup();
            for i in picks {
                let mut d = (space.describe)(i);
                if d.len() > 400 {
                    d = d.chars().take(400).collect::<String>() + " ...";
                }
                rep.samples.push(format!("{}#{}: {}", space.name, i, d));
            }
        }
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!(
                "  {:<28} cases={:<10} states={:<10} transitions={:<12} outcomes={:<8} {:.1}s",
                space.name, n, t.states, t.transitions, all_outcomes.len(), t0.elapsed().as_secs_f64()
            );
        }
        let found = found.into_inner().unwrap();
        if found.is_none() && late.load(SeqCst) {
            rep.stopped = Some(space.name.clone());
            break;
        }
        if let Some((index, message)) = found {
            rep.violation = Some(Violation {
                space: space.name.clone(),
                index,
                case: (space.describe)(index),
                message,
            });
            break;
        }
    }
    rep.outcomes = all_outcomes.len();
    rep.outcomes_capped = all_outcomes.len() >= OUTCOME_CAP;
    rep
}

/// Mixed-radix decoding of a case index.
pub struct Dec(pub u64);

impl Dec {
    pub fn take(&mut self, n: u64) -> u64 {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
    pub fn pick<'a, T>(&mut self, menu: &'a [T]) -> &'a T {
        &menu[self.take(menu.len() as u64) as usize]
    }
}

/// Number of sequences over `k` symbols with length in `lo..=hi`.
pub fn seqs(k: u64, lo: u32, hi: u32) -> u64 {
    (lo..=hi).map(|l| k.pow(l)).sum()
}

/// Decodes sequence number `i` (shortest first) over `k` symbols, lengths starting at `lo`.
pub fn seq_at(k: u64, lo: u32, mut i: u64) -> Vec<usize> {
    let mut l = lo;
    while i >= k.pow(l) {
        i -= k.pow(l);
        l += 1;
    }
    let mut out = vec![0usize; l as usize];
    for s in out.iter_mut().rev() {
        *s = (i % k) as usize;
        i /= k;
    }
    out
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = (a ^ b.rotate_left(29)).wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_add(b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hstr(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| mix(h, b as u64 + 1))
}
