//! Case execution: one case = one closure over a choice tape.
use crate::tape::{Rng, Tape, mix};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Outcome of one case: Err is a broken property
pub type R = Result<(), String>;

/// Context of one case
pub struct Cx<'a> {
    pub t: &'a mut Tape,
    pub tier: Tier,
    pub info: Info,
}

/// What a case says about itself
#[derive(Default)]
pub struct Info {
    pub classes: Vec<Cow<'static, str>>,
    pub nontrivial: bool,
    pub key: u64,
    pub sample: Option<String>,
    pub known: Vec<&'static str>,
    /// Additional executions (cut points, reader plans, ...) inside this case
    pub execs: u64,
    /// The concrete input, for the replay file
    pub input: Option<Vec<u8>>,
}

impl<'a> Cx<'a> {
    pub fn new(t: &'a mut Tape, tier: Tier) -> Self {
        Cx { t, tier, info: Info::default() }
    }
    pub fn class(&mut self, c: impl Into<Cow<'static, str>>) {
        let c = c.into();
        if !self.info.classes.contains(&c) {
            self.info.classes.push(c);
        }
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.class(c);
        }
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.info.nontrivial |= b;
    }
    /// Identify the case, for counting distinct ones
    pub fn key<T: Hash>(&mut self, x: T) {
        let mut h = DefaultHasher::new();
        self.info.key.hash(&mut h);
        x.hash(&mut h);
        self.info.key = h.finish();
    }
    pub fn input(&mut self, b: &[u8]) {
        self.info.input = Some(b.to_vec());
        self.key(b);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        self.info.sample = Some(s());
    }
    /// A listed known finding showed up (and nothing else did)
    pub fn known(&mut self, id: &'static str) {
        if !self.info.known.contains(&id) {
            self.info.known.push(id);
        }
    }
    pub fn exec(&mut self) {
        self.info.execs += 1;
    }
}

/// A property check
pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    /// How cases are made and which are non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Number of random cases
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Cx) -> R,
    /// Number of enumerated cases (regressions, exhaustive parts)
    pub enum_n: fn(Tier) -> u64,
    pub enum_run: fn(&mut Cx, u64) -> R,
    /// Classes of which at least one case must occur, otherwise the run is
    /// an error of the check
    pub must: &'static [&'static str],
}

pub fn no_enum(_: Tier) -> u64 {
    0
}
pub fn no_enum_run(_: &mut Cx, _: u64) -> R {
    Ok(())
}

/// Identity of a case
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum CaseId {
    Enum(u64),
    Rand(u64),
}

pub fn case_seed(id: &str, seed: u64, n: u64) -> u64 {
    let mut h = 0xCBF2_9CE4_8422_2325u64;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01B3);
    }
    mix(mix(h, seed), n)
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Keep panics quiet and remember their message
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

pub fn take_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "?".into())
}

/// Run code which must not panic
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic in {what}: {}", take_panic()))
}

/// Execute one case on a tape
pub fn run_case(p: &Prop, cid: CaseId, tier: Tier, tape: &mut Tape) -> (R, Info) {
    let mut cx = Cx::new(tape, tier);
    let r = catch_unwind(AssertUnwindSafe(|| match cid {
        CaseId::Enum(i) => (p.enum_run)(&mut cx, i),
        CaseId::Rand(_) => (p.run)(&mut cx),
    }));
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", take_panic())),
    };
    (r, cx.info)
}

pub fn tape_for(p: &Prop, seed: u64, cid: CaseId) -> Tape {
    match cid {
        CaseId::Enum(i) => Tape::random(case_seed(p.id, 0x5EED, i)),
        CaseId::Rand(n) => Tape::random(case_seed(p.id, seed, n)),
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub execs: u64,
    pub nontrivial: u64,
    pub keys: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub known: BTreeMap<&'static str, u64>,
    /// (priority, text)
    pub samples: BTreeMap<u64, String>,
    /// CPU time in ns, and the case
    pub slowest: (u64, Option<CaseId>),
}

const SAMPLES: usize = 8;

impl Stats {
    pub fn add(&mut self, cid: CaseId, info: Info) {
        self.evaluations += 1;
        self.execs += info.execs;
        if info.nontrivial {
            self.nontrivial += 1;
            self.keys.insert(info.key);
        }
        for c in info.classes {
            if let Some(n) = self.classes.get_mut(c.as_ref()) {
                *n += 1;
            } else {
                self.classes.insert(c.into_owned(), 1);
            }
        }
        for k in info.known {
            *self.known.entry(k).or_default() += 1;
        }
        if let (Some(s), true) = (info.sample, info.nontrivial) {
            let n = match cid {
                CaseId::Enum(i) => i,
                CaseId::Rand(i) => i + (1 << 40),
            };
            let pri = Rng(n).next();
            self.samples.insert(pri, s);
            while self.samples.len() > SAMPLES {
                self.samples.pop_last();
            }
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.execs += o.execs;
        self.nontrivial += o.nontrivial;
        self.keys.extend(o.keys);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        self.slowest = std::mem::take(&mut self.slowest).max(o.slowest);
        self.samples.extend(o.samples);
        while self.samples.len() > SAMPLES {
            self.samples.pop_last();
        }
    }
}

/// Shrink a failing tape: delete spans, zero spans, lower values
pub fn shrink(p: &Prop, tier: Tier, first: Vec<u64>, msg: String, budget: std::time::Duration) -> (Vec<u64>, String) {
    let mut best = first;
    let mut best_msg = msg;
    let start = std::time::Instant::now();
    let mut tries = 0;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String| -> bool {
        if tries > 4000 || start.elapsed() > budget {
            return false;
        }
        tries += 1;
        let mut t = Tape::values(cand);
        let (r, _) = run_case(p, CaseId::Rand(0), tier, &mut t);
        if let Err(m) = r {
            // normalised tape, only accept real progress
            let mut rec = t.rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            let smaller = (rec.len(), &rec) < (best.len(), &*best);
            if smaller {
                *best = rec;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete spans
        let mut size = (best.len() / 2).max(1);
        while size > 0 {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[end..]);
                if !attempt(c, &mut best, &mut best_msg) {
                    i += size;
                }
            }
            size /= 2;
        }
        // zero spans, lower values
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(c, &mut best, &mut best_msg) {
                    let (mut lo, mut hi) = (0, best.get(i).copied().unwrap_or(0));
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt(c, &mut best, &mut best_msg) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || start.elapsed() > budget {
            break;
        }
    }
    (best, best_msg)
}
