//! Exhaustive exploration of bounded choice trees over the real code.
//!
//! A *driver* is a closure that makes choices with [`Ctx::pick`], calls the
//! code under test, and returns `Err` when an observation differs from the
//! reference model. [`Report::explore`] runs it once for every path of the
//! choice tree. There is no sampling: a space is finished only when its tree
//! is exhausted, and the evidence says so.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

/// One run of a single case may not take longer than this.
const HANG: Duration = Duration::from_secs(100);
/// One thread may not hold more memory than this.
const MEMORY: isize = 2 << 30;
/// A breadth-first search stops (and the check fails) when the process is
/// larger than this.
const FRONTIER: u64 = 12 << 30;

// ---------------------------------------------------------------- allocator

struct Guard;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
    static CURRENT: RefCell<(String, Vec<u32>)> = const { RefCell::new((String::new(), Vec::new())) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|v| {
            let n = v.get() + l.size() as isize;
            v.set(n);
            if n > MEMORY && IN_CASE.with(|c| c.replace(false)) {
                let (space, choices) = CURRENT.with(|c| c.borrow().clone());
                die_violation(&space, &choices, "runaway memory allocation", "");
            }
        });
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|v| v.set(v.get() - l.size() as isize));
        System.dealloc(p, l)
    }
}

#[global_allocator]
static GUARD: Guard = Guard;

// ---------------------------------------------------------------- context

/// What a driver sees: the choice oracle and the counters.
pub struct Ctx {
    choices: Vec<u32>,
    arity: Vec<u32>,
    pos: usize,
    budget: u32,
    trace_on: bool,
    trace: Vec<String>,
    calls: u64,
    bulk_states: u64,
    states: Vec<u64>,
    sample: Option<String>,
    known: Vec<(String, String)>,
}

impl Ctx {
    fn new(choices: Vec<u32>) -> Self {
        Ctx {
            choices,
            arity: Vec::new(),
            pos: 0,
            budget: 0,
            trace_on: false,
            trace: Vec::new(),
            calls: 0,
            bulk_states: 0,
            states: Vec::new(),
            sample: None,
            known: Vec::new(),
        }
    }

    /// Chooses one of `n` alternatives; all of them get explored.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0 && n <= u32::MAX as usize, "harness: empty choice");
        if n == 1 {
            return 0;
        }
        if self.pos == self.choices.len() {
            self.choices.push(0);
        }
        let v = self.choices[self.pos];
        assert!((v as usize) < n, "the code behaves differently when the same steps are repeated");
        self.arity.push(n as u32);
        self.pos += 1;
        v as usize
    }

    /// Chooses a value of a slice.
    pub fn of<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.pick(v.len())]
    }

    /// Chooses a value of an inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.pick(hi - lo + 1)
    }

    /// Sets the number of deviations from the default allowed in this run.
    pub fn deviations(&mut self, n: u32) {
        self.budget = n;
    }

    /// Like `pick`, but a choice other than 0 uses up one deviation.
    pub fn pick_dev(&mut self, n: usize) -> usize {
        if self.budget == 0 {
            return 0;
        }
        let v = self.pick(n);
        if v != 0 {
            self.budget -= 1;
        }
        v
    }

    /// Counts `n` calls into the code under test.
    pub fn call(&mut self, n: u64) {
        self.calls += n;
    }

    /// Records a state (model + implementation) that was reached.
    pub fn state<T: std::hash::Hash + ?Sized>(&mut self, v: &T) {
        self.states.push(hash(v));
    }

    /// Records `n` states which are distinct by construction (an inner loop
    /// over a domain).
    pub fn bulk(&mut self, n: u64) {
        self.bulk_states += n;
    }

    /// Adds a line to the trace shown with a counterexample.
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.trace_on {
            let s = f();
            self.trace.push(s);
        }
    }

    /// Describes the case for the evidence file.
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.trace_on && self.sample.is_none() {
            self.sample = Some(f());
        }
    }

    /// Reports that a behaviour listed in known-findings.txt was observed.
    pub fn known(&mut self, key: &str, what: &str) {
        if !self.known.iter().any(|k| k.0 == key) {
            self.known.push((key.to_string(), what.to_string()));
        }
    }
}

pub fn hash<T: std::hash::Hash + ?Sized>(v: &T) -> u64 {
    use std::hash::Hasher;
    struct H(u64, u64);
    impl Hasher for H {
        fn write(&mut self, b: &[u8]) {
            let mut it = b.chunks_exact(8);
            for c in &mut it {
                self.write_u64(u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
            }
            let mut x = 0u64;
            for (i, &c) in it.remainder().iter().enumerate() {
                x |= u64::from(c) << (8 * i);
            }
            self.write_u64(x ^ ((b.len() as u64) << 56));
        }
        fn write_u64(&mut self, x: u64) {
            self.0 = (self.0 ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
            self.1 = (self.1.wrapping_add(x)).wrapping_mul(0xD6E8_FEB8_6659_FD93).rotate_left(31) ^ self.0;
        }
        fn write_u8(&mut self, x: u8) {
            self.write_u64(x.into())
        }
        fn write_u16(&mut self, x: u16) {
            self.write_u64(x.into())
        }
        fn write_u32(&mut self, x: u32) {
            self.write_u64(x.into())
        }
        fn write_usize(&mut self, x: usize) {
            self.write_u64(x as u64)
        }
        fn finish(&self) -> u64 {
            let mut x = self.0 ^ self.1.rotate_left(17);
            x ^= x >> 32;
            x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
            x ^ (x >> 29)
        }
    }
    let mut h = H(0x1234_5678_9ABC_DEF0, 0x0FED_CBA9_8765_4321);
    v.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- report

#[derive(Default)]
struct Space {
    runs: u64,
    calls: u64,
    points: u64,
    depth: usize,
    wall: f64,
}

/// Collects what a check explored, and ends it.
pub struct Report {
    id: String,
    tier: String,
    deep: bool,
    seed: i64,
    start: Instant,
    threads: usize,
    replay: Option<(String, Vec<u32>)>,
    states: HashSet<u64>,
    bulk: u64,
    spaces: Vec<(String, Space)>,
    samples: Vec<String>,
    known: BTreeMap<String, String>,
    assumptions: Vec<String>,
    unfinished: Vec<String>,
}

/// Since when (ms after the start, plus 1) the check is between two spaces, 0
/// while it is in one.
static BETWEEN: AtomicU64 = AtomicU64::new(1);
static DYING: AtomicBool = AtomicBool::new(false);
static STOP: AtomicBool = AtomicBool::new(false);
static ID: Mutex<String> = Mutex::new(String::new());
static META: Mutex<(String, i64)> = Mutex::new((String::new(), 0));
static STARTED: Mutex<Option<Instant>> = Mutex::new(None);

/// Whether this is the build without overflow checks and debug assertions.
fn plain() -> bool {
    !cfg!(debug_assertions)
}

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string())
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn die_violation(space: &str, choices: &[u32], what: &str, trace: &str) -> ! {
    if DYING.swap(true, SeqCst) {
        // another thread is reporting
        loop {
            std::thread::sleep(HANG);
        }
    }
    STOP.store(true, SeqCst);
    let id = ID.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let mut h = hash(&(space, choices));
    if choices.is_empty() {
        h = hash(&what);
    }
    let path = format!("{}/{}-{:016x}.json", dir, id, h);
    let list: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let body = format!(
        "{{\n \"property\": {},\n \"build\": \"{}\",\n \"space\": {},\n \"choices\": [{}],\n \"what\": {},\n \"trace\": {}\n}}\n",
        json(&id),
        if plain() { "plain" } else { "checked" },
        json(space),
        list.join(","),
        json(what),
        json(trace)
    );
    let _ = std::fs::write(&path, body);
    let (tier, seed) = META.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let wall = STARTED.lock().map(|s| s.map_or(0.0, |t| t.elapsed().as_secs_f64())).unwrap_or(0.0);
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\"states\": 0, \"transitions\": 0, \"traces_validated_against_impl\": 0, \"exhaustive\": false, \"samples\": [{}], \"note\": \"stopped at a violation\"}},\n \"violations\": 1,\n \"wall_s\": {:.3}\n}}\n",
        json(&id), json(&tier), seed, json(what), wall
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    let _ = std::fs::write(format!("{}/evidence/{}.json", root(), id), ev);
    println!("property {} space {}: {}", id, space, what);
    for l in trace.lines() {
        println!("  {}", l);
    }
    println!("VIOLATION property={} replay={}", id, path);
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}

struct Outcome {
    result: R,
    ctx: Ctx,
}

fn run_case<F: Fn(&mut Ctx) -> R>(space: &str, f: &F, choices: Vec<u32>, trace: bool) -> Outcome {
    CURRENT.with(|c| {
        let mut c = c.borrow_mut();
        if c.0 != space {
            c.0 = space.to_string();
        }
        c.1.clone_from(&choices);
    });
    let mut ctx = Ctx::new(choices);
    ctx.trace_on = trace;
    LIVE.with(|v| v.set(0));
    IN_CASE.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut ctx)));
    IN_CASE.with(|c| c.set(false));
    let result = match r {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    };
    if let Err(e) = &result {
        if e.contains("harness:") {
            eprintln!("harness error: {}", e);
            std::process::exit(3);
        }
    }
    Outcome { result, ctx }
}

/// Runs a closure, giving the panic message if it panics.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", PANIC.with(|p| p.borrow().clone())))
}

struct Queue {
    items: Mutex<(VecDeque<Vec<u32>>, usize)>, // (work, workers busy)
    cond: Condvar,
    hungry: AtomicUsize,
}

struct Slot {
    started: AtomicU64, // ms since engine start, 0 = idle
    choices: Mutex<Vec<u32>>,
}

impl Report {
    /// Whether to use the thorough bounds.
    pub fn thorough(&self) -> bool {
        self.deep || (self.tier == "thorough" && !plain())
    }

    /// Uses the thorough bounds in both tiers: for checks whose whole space is
    /// explored in seconds. The plain build always has the quick bounds.
    pub fn deepen(&mut self) {
        self.deep = !plain();
    }

    /// `q` in the quick tier, `t` in the thorough tier.
    pub fn by<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// Runs `f` on every path of its choice tree.
    pub fn explore<F: Fn(&mut Ctx) -> R + Sync>(&mut self, space: &str, f: F) {
        if let Some((s, choices)) = self.replay.clone() {
            if s == space {
                let o = run_case(space, &f, choices.clone(), true);
                match o.result {
                    Err(e) => die_violation(space, &choices, &e, &o.ctx.trace.join("\n")),
                    Ok(()) => {
                        println!("replay: the property held on this case");
                        for l in &o.ctx.trace {
                            println!("  {}", l);
                        }
                        std::process::exit(0);
                    }
                }
            }
            return;
        }

        let t0 = Instant::now();
        BETWEEN.store(0, SeqCst);
        let queue = Queue {
            items: Mutex::new((VecDeque::from(vec![Vec::new()]), 0)),
            cond: Condvar::new(),
            hungry: AtomicUsize::new(0),
        };
        let slots: Vec<Slot> = (0..self.threads)
            .map(|_| Slot { started: AtomicU64::new(0), choices: Mutex::new(Vec::new()) })
            .collect();
        let failure: Mutex<Option<(Vec<u32>, String)>> = Mutex::new(None);
        let done = AtomicBool::new(false);
        let left = AtomicUsize::new(self.threads);
        let merged: Mutex<(HashSet<u64>, Space, u64, BTreeMap<String, String>)> =
            Mutex::new((std::mem::take(&mut self.states), Space::default(), 0, BTreeMap::new()));
        let now = || t0.elapsed().as_millis() as u64 + 1;

        std::thread::scope(|sc| {
            for slot in &slots {
                let (queue, failure, f, merged, now, left) = (&queue, &failure, &f, &merged, &now, &left);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        worker(space, f, queue, slot, failure, merged, now);
                        left.fetch_sub(1, SeqCst);
                    })
                    .unwrap();
            }
            // watchdog
            let (slots, done, now) = (&slots, &done, &now);
            let wd = sc.spawn(move || {
                while !done.load(SeqCst) {
                    std::thread::park_timeout(Duration::from_millis(200));
                    for s in slots {
                        let st = s.started.load(SeqCst);
                        if st != 0 && now().saturating_sub(st) > HANG.as_millis() as u64 {
                            let ch = s.choices.lock().unwrap_or_else(|e| e.into_inner()).clone();
                            die_violation(space, &ch, "a single case does not terminate", "");
                        }
                    }
                }
            });
            // wait for the workers through the queue
            {
                let mut g = queue.items.lock().unwrap();
                while !(g.0.is_empty() && g.1 == 0) && failure.lock().unwrap().is_none() {
                    g = queue.cond.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                }
            }
            done.store(true, SeqCst);
            wd.thread().unpark();
            // a case that fails may come with another one that never ends
            let t = Instant::now();
            while left.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_micros(200));
                if t.elapsed() > Duration::from_secs(10) {
                    if let Some((choices, what)) = failure.lock().unwrap().clone() {
                        die_violation(space, &choices, &what, "");
                    }
                }
            }
        });

        if let Some((choices, what)) = failure.into_inner().unwrap() {
            self.confirm(space, &f, choices, what);
        }
        // first path again, traced, for the evidence sample
        let first = run_case(space, &f, Vec::new(), true);
        let sample = first.ctx.sample.clone().or_else(|| {
            if first.ctx.trace.is_empty() {
                None
            } else {
                Some(first.ctx.trace.iter().take(6).cloned().collect::<Vec<_>>().join("; "))
            }
        });
        let (states, mut sp, bulk, known) = merged.into_inner().unwrap();
        self.states = states;
        self.bulk += bulk;
        self.known.extend(known);
        sp.wall = t0.elapsed().as_secs_f64();
        BETWEEN.store(self.start.elapsed().as_millis() as u64 + 1, SeqCst);
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{:40} runs {:>10} calls {:>12} {:.2}s", space, sp.runs, sp.calls, sp.wall);
        }
        self.spaces.push((space.to_string(), sp));
        if let Some(s) = sample {
            if self.samples.len() < 24 {
                self.samples.push(format!("{}: {}", space, s));
            }
        }
    }

    /// Breadth-first exploration with state merging: applies every one of
    /// `actions` actions to every distinct state, up to `depth` steps or until
    /// no new state appears. Returns whether a fixpoint was reached.
    pub fn bfs<S, K, T>(&mut self, space: &str, init: Vec<S>, actions: usize, depth: usize, key: K, step: T) -> bool
    where
        S: Send + Sync,
        K: Fn(&S) -> u64 + Sync,
        T: Fn(&S, usize) -> Result<S, String> + Sync,
    {
        if let Some((s, choices)) = self.replay.clone() {
            if s == space {
                let mut owned;
                let mut cur = &init[choices[0] as usize];
                for (i, &a) in choices[1..].iter().enumerate() {
                    println!("  step {} action {}", i, a);
                    match no_panic(|| step(cur, a as usize)).and_then(|r| r) {
                        Ok(n) => owned = n,
                        Err(e) => die_violation(space, &choices, &e, ""),
                    }
                    cur = Box::leak(Box::new(owned));
                }
                println!("replay: the property held on this case");
                std::process::exit(0);
            }
            return false;
        }
        let t0 = Instant::now();
        BETWEEN.store(0, SeqCst);
        let large = AtomicBool::new(false);
        let mut seen: HashSet<u64> = HashSet::new();
        let mut parents: Vec<(u32, u32)> = Vec::new(); // per node: parent node, action
        let mut layer: Vec<(u32, S)> = Vec::new();
        for (i, s) in init.into_iter().enumerate() {
            if seen.insert(key(&s)) {
                parents.push((u32::MAX, i as u32));
                layer.push((parents.len() as u32 - 1, s));
            }
        }
        let path_of = |parents: &Vec<(u32, u32)>, mut n: u32, a: usize| -> Vec<u32> {
            let mut p = vec![a as u32];
            loop {
                let (par, act) = parents[n as usize];
                p.push(act);
                if par == u32::MAX {
                    break;
                }
                n = par;
            }
            p.reverse();
            p
        };
        let mut calls = 0u64;
        let mut done_depth = 0;
        let mut fixpoint = false;
        let mut last_level = 0;
        for level in 0..depth {
            // states of the last level are checked and counted but not kept
            let keep = level + 1 < depth;
            if layer.is_empty() {
                fixpoint = true;
                break;
            }
            done_depth += 1;
            let next = AtomicUsize::new(0);
            let failure: Mutex<Option<(u32, usize, String)>> = Mutex::new(None);
            let fresh: Vec<Mutex<BTreeMap<u64, (u32, u32, S)>>> = (0..64).map(|_| Mutex::new(BTreeMap::new())).collect();
            let ends: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
            let busy: Vec<(AtomicU64, AtomicU64)> = (0..self.threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
            let left = AtomicUsize::new(self.threads);
            std::thread::scope(|sc| {
                for slot in &busy {
                    let (next, failure, fresh, ends, layer, seen, key, step, left) = (&next, &failure, &fresh, &ends, &layer, &seen, &key, &step, &left);
                    let (large, parents, path_of) = (&large, &parents, &path_of);
                    sc.spawn(move || {
                        loop {
                            let i = next.fetch_add(1, SeqCst);
                            if i >= layer.len() || failure.lock().unwrap().is_some() || large.load(SeqCst) {
                                break;
                            }
                            let (node, s) = &layer[i];
                            LIVE.with(|v| v.set(0));
                            CURRENT.with(|c| *c.borrow_mut() = (space.to_string(), path_of(parents, *node, 0)));
                            for a in 0..actions {
                                CURRENT.with(|c| *c.borrow_mut().1.last_mut().unwrap() = a as u32);
                                slot.1.store(((*node as u64) << 32) | a as u64, SeqCst);
                                slot.0.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                                IN_CASE.with(|c| c.set(true));
                                let r = no_panic(|| step(s, a)).and_then(|r| r);
                                IN_CASE.with(|c| c.set(false));
                                match r {
                                    Ok(n) => {
                                        let k = key(&n);
                                        if !keep {
                                            if !seen.contains(&k) {
                                                ends[(k % 64) as usize].lock().unwrap().insert(k);
                                            }
                                        } else if !seen.contains(&k) {
                                            let mut m = fresh[(k % 64) as usize].lock().unwrap();
                                            match m.get(&k) {
                                                // deterministic parent: the smallest
                                                Some(o) if (o.0, o.1) <= (*node, a as u32) => {}
                                                _ => {
                                                    m.insert(k, (*node, a as u32, n));
                                                }
                                            }
                                        }
                                    }
                                    Err(e) => {
                                        let mut g = failure.lock().unwrap();
                                        if g.is_none() {
                                            *g = Some((*node, a, e));
                                        }
                                        break;
                                    }
                                }
                            }
                            slot.0.store(0, SeqCst);
                        }
                        left.fetch_sub(1, SeqCst);
                    });
                }
                let (busy, left, parents, large) = (&busy, &left, &parents, &large);
                sc.spawn(move || {
                    while left.load(SeqCst) > 0 {
                        std::thread::sleep(Duration::from_millis(20));
                        if resident() > FRONTIER {
                            large.store(true, SeqCst);
                        }
                        for (st, at) in busy {
                            let st = st.load(SeqCst);
                            if st != 0 && (t0.elapsed().as_millis() as u64).saturating_sub(st) > HANG.as_millis() as u64 {
                                let at = at.load(SeqCst);
                                let p = path_of(parents, (at >> 32) as u32, (at & 0xFFFF_FFFF) as usize);
                                die_violation(space, &p, "a single step does not terminate", "");
                            }
                        }
                    }
                });
            });
            calls += (layer.len() * actions) as u64;
            if let Some((node, a, e)) = failure.into_inner().unwrap() {
                die_violation(space, &path_of(&parents, node, a), &e, "");
            }
            layer = Vec::new();
            if large.load(SeqCst) {
                self.unfinished.push(space.to_string());
                break;
            }
            let open: usize = ends.iter().map(|m| m.lock().unwrap().len()).sum();
            if !keep {
                last_level = open;
                for m in ends {
                    seen.extend(m.into_inner().unwrap());
                }
                break;
            }
            let mut all: Vec<(u64, (u32, u32, S))> = fresh.into_iter().flat_map(|m| m.into_inner().unwrap()).collect();
            all.sort_by_key(|x| ((x.1).0, (x.1).1));
            for (k, (p, a, s)) in all {
                seen.insert(k);
                parents.push((p, a));
                layer.push((parents.len() as u32 - 1, s));
            }
        }
        if layer.is_empty() && last_level == 0 && !large.load(SeqCst) {
            fixpoint = true;
        }
        let sp = Space {
            runs: seen.len() as u64,
            calls,
            points: seen.len() as u64,
            depth: done_depth,
            wall: t0.elapsed().as_secs_f64(),
        };
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{:40} states {:>8} calls {:>12} depth {} fixpoint {} {:.2}s", space, seen.len(), calls, done_depth, fixpoint, sp.wall);
        }
        self.samples.push(format!(
            "{}: {} states x {} actions, depth {}, {}",
            space, seen.len(), actions, done_depth, if fixpoint { "fixpoint reached" } else { "all sequences of that depth covered" }
        ));
        BETWEEN.store(self.start.elapsed().as_millis() as u64 + 1, SeqCst);
        self.states.extend(seen.iter().map(|k| k ^ hash(space)));
        self.spaces.push((space.to_string(), sp));
        fixpoint
    }

    fn confirm<F: Fn(&mut Ctx) -> R>(&self, space: &str, f: &F, choices: Vec<u32>, what: String) -> ! {
        {
            // shrinking may run into a case that does not end
            let (space, choices, what) = (space.to_string(), choices.clone(), what.clone());
            std::thread::spawn(move || {
                std::thread::sleep(Duration::from_secs(20));
                die_violation(&space, &choices, &what, "");
            });
        }
        let again = run_case(space, f, choices.clone(), true);
        if again.result.is_ok() {
            // not reproducible: depends on uninitialised or process-wide state
            die_violation(space, &choices, &format!("{} (not reproduced by a second run)", what), "");
        }
        // shrink: try smaller values at each position, and shorter prefixes
        let t = Instant::now();
        let mut best = choices;
        let mut progress = true;
        while progress && t.elapsed() < Duration::from_secs(5) {
            progress = false;
            let mut i = 0;
            while i < best.len() && t.elapsed() < Duration::from_secs(5) {
                let cur = best[i];
                let mut cands = vec![0, cur / 2, cur.saturating_sub(1)];
                cands.dedup();
                for v in cands {
                    if v >= best[i] {
                        continue;
                    }
                    let mut c = best.clone();
                    c[i] = v;
                    for cut in [true, false] {
                        let mut c = c.clone();
                        if cut {
                            c.truncate(i + 1);
                        }
                        if let Some(n) = fails(space, f, c) {
                            best = n;
                            progress = true;
                            break;
                        }
                    }
                    if progress && best.get(i).copied() != Some(cur) {
                        break;
                    }
                }
                i += 1;
            }
        }
        let o = run_case(space, f, best.clone(), true);
        let w = o.result.err().unwrap_or(what);
        die_violation(space, &best, &w, &o.ctx.trace.join("\n"));
    }

    /// Findings met that are not in the list.
    fn unlisted(&self) -> Vec<(String, String)> {
        let listed = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
        self.known
            .iter()
            .filter(|(key, _)| {
                let tag = format!("known: property={} key={} ", self.id, key);
                !listed.lines().any(|l| l.starts_with(&tag))
            })
            .map(|(k, w)| (k.clone(), w.clone()))
            .collect()
    }

    /// Writes the evidence and ends the process.
    fn finish(self) -> ! {
        if self.replay.is_some() {
            eprintln!("replay: no such space");
            std::process::exit(3);
        }
        if !self.unfinished.is_empty() {
            eprintln!("{}: not exhausted, too many states: {}", self.id, self.unfinished.join(", "));
            std::process::exit(3);
        }
        let mut o = String::new();
        let wall = self.start.elapsed().as_secs_f64();
        let runs: u64 = self.spaces.iter().map(|s| s.1.runs).sum();
        let calls: u64 = self.spaces.iter().map(|s| s.1.calls).sum();
        let states = self.states.len() as u64 + self.bulk;
        // what the build without checks explored before
        let counts = std::env::var("MC_COUNTS").ok();
        if plain() {
            let line = format!("{{\"build\": \"without overflow checks and debug assertions\", \"states\": {}, \"transitions\": {}, \"traces\": {}, \"wall_s\": {:.2}}}", states, calls, runs, wall);
            if let Some(f) = counts {
                if std::fs::write(&f, line).is_err() {
                    eprintln!("cannot write {}", f);
                    std::process::exit(3);
                }
            }
            let unlisted = self.unlisted();
            if let Some((key, what)) = unlisted.first() {
                die_violation("known-findings", &[], &format!("unlisted finding {}: {}", key, what), "");
            }
            std::process::exit(0);
        }
        let other = counts.and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
        let spaces: Vec<String> = self
            .spaces
            .iter()
            .map(|(n, s)| {
                format!(
                    "{{\"space\": {}, \"runs\": {}, \"calls\": {}, \"choice_points\": {}, \"max_depth\": {}, \"wall_s\": {:.2}}}",
                    json(n), s.runs, s.calls, s.points, s.depth, s.wall
                )
            })
            .collect();
        let samples: Vec<String> = self.samples.iter().map(|s| json(s)).collect();
        let assumptions: Vec<String> = self.assumptions.iter().map(|s| json(s)).collect();
        let known: Vec<String> = self.known.values().map(|s| json(s)).collect();
        let _ = write!(
            o,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": true,\n  \"meaning\": \"states: distinct model/implementation states or distinct inputs reached; transitions: calls into the compiled crate; traces: complete driver runs whose every observation agreed with the reference model\",\n  \"other_builds\": [{}],\n  \"spaces\": [\n   {}\n  ],\n  \"known_findings\": [{}],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"violations\": 0,\n \"wall_s\": {:.3}\n}}\n",
            json(&self.id), json(&self.tier), self.seed, states, calls, runs, other,
            spaces.join(",\n   "), known.join(", "), samples.join(",\n   "),
            assumptions.join(", "), wall
        );
        let dir = format!("{}/evidence", root());
        let path = format!("{}/{}.json", dir, self.id);
        if std::fs::create_dir_all(&dir).and_then(|_| std::fs::write(&path, o)).is_err() {
            eprintln!("cannot write {}", path);
            std::process::exit(3);
        }
        if let Some((key, what)) = self.unlisted().first() {
            die_violation("known-findings", &[], &format!("unlisted finding {}: {}", key, what), "");
        }
        for what in self.known.values() {
            println!("KNOWN-FINDING: property={} {}", self.id, what);
        }
        println!(
            "{}: held on {} runs, {} calls, {} states ({:.1}s)",
            self.id, runs, calls, states, self.start.elapsed().as_secs_f64()
        );
        std::process::exit(0);
    }
}

/// Bytes of memory the process uses.
fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
}

fn fails<F: Fn(&mut Ctx) -> R>(space: &str, f: &F, c: Vec<u32>) -> Option<Vec<u32>> {
    // a shrunk list can be out of range for its new path: not a candidate
    CURRENT.with(|k| *k.borrow_mut() = (space.to_string(), c.clone()));
    let mut ctx = Ctx::new(c);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut ctx)));
    let n = ctx.pos;
    let mut ch = ctx.choices;
    match r {
        Ok(Ok(())) => None,
        Ok(Err(_)) => {
            ch.truncate(n);
            Some(ch)
        }
        Err(_) => {
            if PANIC.with(|p| p.borrow().contains("harness:") || p.borrow().contains("same steps are repeated")) {
                None
            } else {
                ch.truncate(n);
                Some(ch)
            }
        }
    }
}

fn worker<F: Fn(&mut Ctx) -> R + Sync>(
    space: &str,
    f: &F,
    queue: &Queue,
    slot: &Slot,
    failure: &Mutex<Option<(Vec<u32>, String)>>,
    merged: &Mutex<(HashSet<u64>, Space, u64, BTreeMap<String, String>)>,
    now: &(dyn Fn() -> u64 + Sync),
) {
    let mut sp = Space::default();
    let mut bulk = 0u64;
    let mut local: HashSet<u64> = HashSet::new();
    let mut known = BTreeMap::new();
    'outer: loop {
        // take work
        let base = {
            let mut g = queue.items.lock().unwrap();
            queue.hungry.fetch_add(1, SeqCst);
            let r = loop {
                if STOP.load(SeqCst) || failure.lock().unwrap().is_some() {
                    break None;
                }
                if let Some(p) = g.0.pop_front() {
                    g.1 += 1;
                    break Some(p);
                }
                if g.1 == 0 {
                    break None;
                }
                g = queue.cond.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
            };
            queue.hungry.fetch_sub(1, SeqCst);
            r
        };
        let mut choices = match base {
            Some(p) => p,
            None => break,
        };
        let mut floor = choices.len();
        loop {
            if let Ok(mut c) = slot.choices.lock() {
                c.clone_from(&choices);
            }
            slot.started.store(now(), SeqCst);
            let o = run_case(space, f, choices, false);
            slot.started.store(0, SeqCst);
            let ctx = o.ctx;
            sp.runs += 1;
            sp.calls += ctx.calls;
            sp.points += ctx.pos as u64;
            sp.depth = sp.depth.max(ctx.pos);
            bulk += ctx.bulk_states;
            local.extend(ctx.states.iter());
            for (k, w) in ctx.known {
                known.entry(k).or_insert(w);
            }
            choices = ctx.choices;
            if let Err(e) = o.result {
                let mut g = failure.lock().unwrap();
                if g.is_none() {
                    choices.truncate(ctx.pos);
                    *g = Some((choices, e));
                }
                drop(g);
                queue.items.lock().unwrap().1 -= 1;
                queue.cond.notify_all();
                break 'outer;
            }
            if failure.lock().unwrap().is_some() {
                queue.items.lock().unwrap().1 -= 1;
                break 'outer;
            }
            if ctx.pos != choices.len() {
                let e = "the code behaves differently when the same steps are repeated".to_string();
                failure.lock().unwrap().get_or_insert((choices, e));
                queue.items.lock().unwrap().1 -= 1;
                queue.cond.notify_all();
                break 'outer;
            }
            let arity = ctx.arity;
            // give work away: all untried alternatives of the shallowest open level
            if queue.hungry.load(SeqCst) > 0 {
                if let Some(i) = (floor..choices.len()).find(|&i| choices[i] + 1 < arity[i]) {
                    let mut g = queue.items.lock().unwrap();
                    if g.0.len() < 64 {
                        for v in choices[i] + 1..arity[i] {
                            let mut p = choices[..i].to_vec();
                            p.push(v);
                            g.0.push_back(p);
                        }
                        floor = i + 1;
                        queue.cond.notify_all();
                    }
                }
            }
            // next path in this subtree
            let mut i = choices.len();
            while i > floor && choices[i - 1] + 1 >= arity[i - 1] {
                i -= 1;
            }
            if i <= floor {
                break;
            }
            choices.truncate(i);
            choices[i - 1] += 1;
        }
        let mut g = queue.items.lock().unwrap();
        g.1 -= 1;
        queue.cond.notify_all();
    }
    let mut g = merged.lock().unwrap_or_else(|e| e.into_inner());
    g.0.extend(local);
    g.1.runs += sp.runs;
    g.1.calls += sp.calls;
    g.1.points += sp.points;
    g.1.depth = g.1.depth.max(sp.depth);
    g.2 += bulk;
    g.3.extend(known);
}

/// Entry point of a check.
pub fn run(id: &str, body: impl FnOnce(&mut Report)) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = s;
            }
        });
        if std::thread::current().name() == Some("main") && !IN_CASE.with(|c| c.get()) {
            eprintln!("{}", info);
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(0);
    let replay = args.iter().position(|a| a == "--replay").map(|i| {
        let s = std::fs::read_to_string(&args[i + 1]).unwrap_or_else(|e| {
            eprintln!("{}: {}", args[i + 1], e);
            std::process::exit(3)
        });
        parse_replay(&s)
    });
    *ID.lock().unwrap() = id.to_string();
    *META.lock().unwrap() = (tier.to_string(), seed);
    *STARTED.lock().unwrap() = Some(Instant::now());
    let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8)
    });
    let mut r = Report {
        id: id.to_string(),
        tier: tier.to_string(),
        deep: false,
        seed,
        start: Instant::now(),
        threads,
        replay,
        states: HashSet::new(),
        bulk: 0,
        spaces: Vec::new(),
        samples: Vec::new(),
        known: BTreeMap::new(),
        assumptions: Vec::new(),
        unfinished: Vec::new(),
    };
    let start = r.start;
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let t = BETWEEN.load(SeqCst);
        if t != 0 && (start.elapsed().as_millis() as u64).saturating_sub(t) > HANG.as_millis() as u64 {
            die_violation("", &[], "preparing the cases does not terminate", "");
        }
    });
    body(&mut r);
    r.finish()
}

fn parse_replay(s: &str) -> (String, Vec<u32>) {
    let get = |k: &str| -> &str {
        let i = s.find(&format!("\"{}\": ", k)).expect("replay file") + k.len() + 4;
        s[i..].lines().next().unwrap()
    };
    let space = get("space").trim_end_matches(',').trim_matches('"').to_string();
    let list = get("choices");
    let list = &list[1..list.rfind(']').unwrap()];
    let choices = list.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect();
    (space, choices)
}

/// Compares two values, naming them in the message.
pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {:x?}, expected {:x?}", what, got, want))
    }
}

/// Short hex dump for messages.
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 64 {
            let _ = write!(s, "...({} bytes)", b.len());
            break;
        }
        let _ = write!(s, "{:02x}", x);
    }
    s
}
