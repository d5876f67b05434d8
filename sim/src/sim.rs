//! Runs plans: expected outcomes from pristine processes, then one process per
//! simulated run.
use crate::plan::{Act, NoiseGen, Plan, Rules, FRAC};
use serde::{Deserialize, Serialize};
use simcore::rt::{self, Event, Violation};
use simcore::sink::{SinkFault, SinkPlan, Wrap};
use simops::{exec, make_shared, Ctx, Done, Force, Handle, Href, Op, Outcome, Spec, Tag, K};
use std::collections::{BTreeMap, HashMap};

pub const SHM: usize = 16 << 20;

/// Memory shared between a process and the children it forks.
pub struct Shm {
    pub p: *mut u8,
    pub len: usize,
}
impl Shm {
    pub fn new(len: usize) -> Shm {
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
        };
        if p == libc::MAP_FAILED {
            crate::harness_error("mmap");
        }
        Shm { p: p as *mut u8, len }
    }
    pub fn clear(&self) {
        unsafe { *(self.p as *mut u64) = 0 }
    }
    pub fn put(&self, b: &[u8]) {
        unsafe {
            let n = b.len().min(self.len - 9);
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(8), n);
            std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
            *(self.p as *mut u64) = n as u64;
        }
    }
    /// A byte that results never reach.
    pub fn last(&self) -> *mut u8 {
        unsafe { self.p.add(self.len - 1) }
    }
    pub fn get(&self) -> Option<&[u8]> {
        unsafe {
            let n = *(self.p as *const u64) as usize;
            if n == 0 {
                None
            } else {
                Some(std::slice::from_raw_parts(self.p.add(8), n))
            }
        }
    }
}

pub enum End {
    Exit(i32),
    Signal(i32),
}

/// Runs f in a forked child.
pub fn forked(f: impl FnOnce()) -> End {
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            crate::harness_error("fork");
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            f();
            simcore::raw::exit_now(0);
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
            if r < 0 && *libc::__errno_location() != libc::EINTR {
                crate::harness_error("waitpid");
            }
        }
        if libc::WIFSIGNALED(st) {
            End::Signal(libc::WTERMSIG(st))
        } else {
            End::Exit(libc::WEXITSTATUS(st))
        }
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub ops: u64,
    pub compared: u64,
    pub noise: u64,
    pub switches: u64,
    pub freezes: u64,
    pub pauses: u64,
    pub steps: u64,
    pub hot: u64,
    pub futex: u64,
    pub events: u64,
    pub threads: u64,
    pub sim_ns: u64,
    pub fired: [u64; 8],
    pub panics: u64,
    pub refused: u64,
    pub rejected: u64,
    pub nested: u64,
    pub ambient: u64,
    pub reads: [u64; 4],
    pub prints: u64,
    #[serde(default)]
    pub nomem: u64,
    #[serde(default)]
    pub farewells: u64,
    #[serde(default)]
    pub unwinding: u64,
    #[serde(default)]
    pub stale: u64,
    pub allocs: u64,
    pub live: i64,
    /// Threads that lived for a few calls.
    #[serde(default)]
    pub shortlived: u64,
    pub hash: u64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.ops += o.ops;
        self.compared += o.compared;
        self.noise += o.noise;
        self.switches += o.switches;
        self.freezes += o.freezes;
        self.pauses += o.pauses;
        self.steps += o.steps;
        self.hot += o.hot;
        self.futex += o.futex;
        self.events += o.events;
        self.threads += o.threads;
        self.sim_ns += o.sim_ns;
        for k in 0..8 {
            self.fired[k] += o.fired[k];
        }
        self.panics += o.panics;
        self.refused += o.refused;
        self.rejected += o.rejected;
        self.nested += o.nested;
        self.ambient += o.ambient;
        for k in 0..4 {
            self.reads[k] += o.reads[k];
        }
        self.prints += o.prints;
        self.allocs += o.allocs;
        self.nomem += o.nomem;
        self.farewells += o.farewells;
        self.unwinding += o.unwinding;
        self.stale += o.stale;
        self.live = self.live.max(o.live);
        self.shortlived += o.shortlived;
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RunResult {
    pub violation: Option<Violation>,
    pub events: Vec<Event>,
    /// the record of decisions is too long to keep: replayed from the seed
    #[serde(default)]
    pub long: bool,
    pub stats: Stats,
}

// -------------------------------------------------------------------- oracle

/// Runs f on a thread of its own: what the standard library keeps per thread
/// (hash seeds, for one) is new and comes from the simulated surroundings.
fn fresh_thread<R: Send>(stack: usize, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| match std::thread::Builder::new().stack_size(stack).spawn_scoped(s, f) {
        Ok(h) => h.join().unwrap_or_else(|_| crate::harness_error("thread")),
        Err(_) => crate::harness_error("thread"),
    })
}

pub struct Oracle {
    cache: HashMap<(K, Vec<u64>, Vec<i64>, Option<String>, String), Outcome>,
    shm: Shm,
    pub forks: u64,
    pub hits: u64,
}

fn spec_of(op: &Op, specs: &[Spec]) -> Option<Spec> {
    match op.h {
        Href::None => None,
        Href::Shared(n) | Href::Own(n) | Href::Fresh(n) => Some(specs[n as usize].clone()),
    }
}

fn fatal(v: Violation) {
    unsafe {
        if let Some(s) = (*std::ptr::addr_of!(RESULT)).as_ref() {
            let r = RunResult { violation: Some(v), events: vec![], long: false, stats: Stats::default() };
            s.put(&serde_json::to_vec(&r).unwrap());
        }
    }
}
static mut RESULT: Option<Shm> = None;

impl Oracle {
    pub fn new() -> Oracle {
        Oracle { cache: HashMap::new(), shm: Shm::new(1 << 20), forks: 0, hits: 0 }
    }
    /// The outcome of the call when it is the only one of a fresh process.
    /// (This process never calls the library, so its children are fresh.)
    pub fn outcome(&mut self, op: &Op, specs: &[Spec]) -> Outcome {
        if op.k == K::DropHandle {
            return Outcome { tag: Tag::Value, v: vec![], text: vec![], steps: 0, calls: 0 };
        }
        let spec = spec_of(op, specs);
        let key = (
            op.k,
            op.f.clone(),
            op.i.clone(),
            spec.as_ref().map(|s| format!("{:?}", s)),
            if op.k.is_render() { format!("{:?} {}", op.sink.wrap, op.sink.style) } else { String::new() },
        );
        if let Some(o) = self.cache.get(&key) {
            self.hits += 1;
            return o.clone();
        }
        self.shm.clear();
        self.forks += 1;
        let mut o = op.clone();
        o.amb = None;
        o.unwind = None;
        o.sink = SinkPlan { wrap: op.sink.wrap, style: op.sink.style, ..Default::default() };
        o.h = if spec.is_some() { Href::Fresh(0) } else { Href::None };
        let shm = &self.shm;
        let end = forked(|| {
            if op.amb.is_some() {
                simcore::interpose::trap_tsc();
            }
            unsafe { libc::alarm(120) };
            let out = fresh_thread(8 << 20, || {
                rt::setup_thread(rt::ORACLE);
                let specs: Vec<Spec> = spec.into_iter().collect();
                let shared = Force(vec![]);
                let mut ctx = Ctx { specs: &specs, shared: &shared, own: BTreeMap::new(), last: 0, nested: None };
                exec(&o, 0, &mut ctx, u64::MAX).out
            });
            shm.put(&serde_json::to_vec(&out).unwrap());
        });
        let out = match (end, self.shm.get()) {
            (End::Exit(0), Some(b)) => serde_json::from_slice(b).unwrap_or_else(|_| crate::harness_error("oracle result")),
            // the call ends its process: nothing can be compared with it
            _ => Outcome { tag: Tag::NoHandle, v: vec![], text: vec![], steps: 0, calls: 0 },
        };
        if self.cache.len() > 200_000 {
            self.cache.clear();
        }
        self.cache.insert(key, out.clone());
        out
    }
    pub fn expect(&mut self, plan: &Plan) -> Vec<Outcome> {
        plan.ops.iter().map(|o| self.outcome(o, &plan.specs)).collect()
    }
}

/// Turns fractional fault positions into write numbers.
pub fn resolve(plan: &mut Plan, exp: &[Outcome]) {
    for (o, e) in plan.ops.iter_mut().zip(exp.iter()) {
        let calls = e.calls.max(1);
        let len = e.text.len() as u32;
        for f in o.sink.faults.iter_mut() {
            if f.0 >= FRAC {
                f.0 = (f.0 - FRAC) % calls;
            }
        }
        for f in o.sink.nested.iter_mut() {
            if f.0 >= FRAC {
                f.0 = (f.0 - FRAC) % calls;
            }
        }
        if let Some(c) = o.sink.cap {
            if c >= FRAC {
                o.sink.cap = Some((c - FRAC) % len.max(1));
            }
        }
    }
}

// --------------------------------------------------------------------- judge

fn clip(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.chars().count() > 300 {
        format!("{:?}...", s.chars().take(300).collect::<String>())
    } else {
        format!("{:?}", s)
    }
}

/// None if what happened is what the rules demand.
pub fn judge(op: &Op, d: &Done, exp: &Outcome, rules: &Rules) -> Option<(&'static str, String)> {
    if exp.tag == Tag::NoHandle || op.mute {
        return None;
    }
    if let Some(log) = &d.sink {
        let prefix = exp.text.starts_with(&d.out.text);
        if log.panicked {
            if (rules.text || rules.sink) && !prefix {
                return Some(("text", format!("before its sink panicked, {} delivered {} which is no prefix of {}", op.describe(), clip(&d.out.text), clip(&exp.text))));
            }
            return None;
        }
        if log.refused {
            if rules.sink {
                let ok = d.out.tag == Tag::Error(31) || (d.out.tag == Tag::Panic && exp.tag == Tag::Panic);
                if !ok {
                    return Some(("sink", format!("the sink of {} refused a write, but rendering ended with {:?}", op.describe(), d.out.tag)));
                }
                if log.after_refusal > 0 && matches!(op.sink.wrap, Wrap::Fmt | Wrap::Direct) {
                    return Some(("sink", format!("{} wrote {} more times to a sink that had refused a write", op.describe(), log.after_refusal)));
                }
            }
            if (rules.text || rules.sink) && !prefix {
                return Some(("text", format!("before its sink refused, {} delivered {} which is no prefix of {}", op.describe(), clip(&d.out.text), clip(&exp.text))));
            }
            return None;
        }
        if rules.text || rules.sink {
            if d.out.tag != exp.tag {
                return Some(("outcome", format!("{} ended with {:?}; alone in a fresh process: {:?}", op.describe(), d.out.tag, exp.tag)));
            }
            if d.out.text != exp.text {
                return Some(("text", format!("{} delivered {}; alone in a fresh process: {}", op.describe(), clip(&d.out.text), clip(&exp.text))));
            }
        }
        return None;
    }
    if rules.values && !d.out.same(exp) {
        let class = if d.out.tag == exp.tag { "value" } else { "outcome" };
        return Some((class, format!("{} gave {}; alone in a fresh process: {}", op.describe(), d.out.show(), exp.show())));
    }
    None
}

// ----------------------------------------------------------------------- run

struct Shared {
    plan: Plan,
    exp: Vec<Outcome>,
    handles: Force<Vec<Option<Box<Handle>>>>,
}

struct StatCell(std::cell::UnsafeCell<Stats>);
unsafe impl Sync for StatCell {}
static STATS: StatCell = StatCell(std::cell::UnsafeCell::new(Stats {
    ops: 0, compared: 0, noise: 0, switches: 0, freezes: 0, pauses: 0, steps: 0, hot: 0, futex: 0, events: 0, threads: 0,
    sim_ns: 0, fired: [0; 8], panics: 0, refused: 0, rejected: 0, nested: 0, ambient: 0, reads: [0; 4], prints: 0, nomem: 0, farewells: 0, unwinding: 0, stale: 0,
    allocs: 0, live: 0, hash: 0, shortlived: 0,
}));
/// Only touched by the holder of the baton, outside library calls.
#[allow(clippy::mut_from_ref)]
fn stats() -> &'static mut Stats {
    unsafe { &mut *STATS.0.get() }
}

fn limit(rules: &Rules, exp: &Outcome) -> u64 {
    exp.steps.saturating_mul(rules.mul).saturating_add(rules.add)
}

fn note(d: &Done, op: &Op) {
    let s = stats();
    s.ops += 1;
    match d.out.tag {
        Tag::Panic => s.panics += 1,
        Tag::Error(31) => s.refused += 1,
        Tag::Error(_) => s.rejected += 1,
        _ => (),
    }
    if let Some(l) = &d.sink {
        for k in 0..8 {
            s.fired[k] += l.fired[k] as u64;
        }
    }
    if op.amb.is_some() {
        s.ambient += 1;
    }
}

fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0).saturating_sub(simcore::world::held())
}

fn thread_main(sh: &'static Shared, tid: usize) {
    let plan = &sh.plan;
    let nested_count = std::cell::Cell::new(0u32);
    let nest = |n: u32| {
        let op = &plan.ops[n as usize];
        let exp = &sh.exp[n as usize];
        let unwinding = std::thread::panicking();
        if unwinding && exp.tag == Tag::NoHandle {
            return;
        }
        let id = 0x4000_0000 | (tid as u32) << 20 | nested_count.get();
        nested_count.set((nested_count.get() + 1) & 0xfffff);
        let mut ctx = Ctx { specs: &plan.specs, shared: &sh.handles, own: BTreeMap::new(), last: 0, nested: None };
        let d = exec(op, id, &mut ctx, limit(&plan.rules, exp));
        if unwinding {
            stats().unwinding += 1;
        } else {
            stats().nested += 1;
        }
        note(&d, op);
        stats().compared += 1;
        if let Some((class, msg)) = judge(op, &d, exp, &plan.rules) {
            rt::set_op(id);
            rt::violate(class, format!("{}: {}", if unwinding { "while a panic unwinds" } else { "inside a sink" }, msg));
        }
    };
    if let Some((n, true)) = plan.threads[tid].farewell {
        FAREWELL.with(|f| *f.0.borrow_mut() = Some((sh, tid, n)));
    }
    let mut ctx = Ctx { specs: &plan.specs, shared: &sh.handles, own: BTreeMap::new(), last: 0, nested: Some(&nest) };
    for (n, step) in plan.threads[tid].steps.iter().enumerate() {
        match &step.act {
            Act::Do { op, times } => {
                let o = &plan.ops[*op as usize];
                let exp = &sh.exp[*op as usize];
                if let Some((k, f)) = plan.threads[tid].freeze {
                    if k as usize == n {
                        rt::freeze_next_at(1 + ((exp.steps as u128 * f as u128) >> 31) as u64);
                    }
                }
                for k in 0..*times {
                    let id = step.id + k;
                    let d = exec(o, id, &mut ctx, limit(&plan.rules, exp));
                    note(&d, o);
                    stats().compared += 1;
                    if let Some((class, msg)) = judge(o, &d, exp, &plan.rules) {
                        rt::set_op(id);
                        rt::violate(class, msg);
                    }
                }
            }
            Act::Noise { seed, count, panicky, fresh, churn, sweep } => {
                let mut g = NoiseGen::new(*seed, *panicky);
                g.fresh = *fresh;
                g.sweep = *sweep;
                if *churn > 0 {
                    let mut k = 0;
                    while k < *count {
                        let v: Vec<(u32, Op)> = (k..(k + churn).min(*count)).map(|k| (step.id + k, g.next(&plan.ops))).collect();
                        k += churn;
                        short_lived(plan, &ctx, v);
                    }
                    continue;
                }
                for k in 0..*count {
                    let o = g.next(&plan.ops);
                    let d = exec(&o, step.id + k, &mut ctx, 200_000_000);
                    note(&d, &o);
                    stats().noise += 1;
                }
            }
            Act::Soak { seed, phase, bound, max_steps, churn } => {
                soak(plan, &mut ctx, step.id, *seed, *phase, *bound, *max_steps, *churn)
            }
        }
    }
    if let Some((n, false)) = plan.threads[tid].farewell {
        FAREWELL.with(|f| *f.0.borrow_mut() = Some((sh, tid, n)));
    }
}

thread_local! { static FAREWELL: Farewell = const { Farewell(std::cell::RefCell::new(None)) } }
/// Thread-local data of the caller whose destructor makes a call.
struct Farewell(std::cell::RefCell<Option<(&'static Shared, usize, u32)>>);
impl Drop for Farewell {
    fn drop(&mut self) {
        let Some((sh, tid, n)) = self.0.borrow_mut().take() else { return };
        rt::outside(|| {
            let (plan, op, exp) = (&sh.plan, &sh.plan.ops[n as usize], &sh.exp[n as usize]);
            let id = 0x5000_0000 | tid as u32;
            let mut ctx = Ctx { specs: &plan.specs, shared: &sh.handles, own: BTreeMap::new(), last: 0, nested: None };
            let d = exec(op, id, &mut ctx, limit(&plan.rules, exp));
            note(&d, op);
            stats().farewells += 1;
            stats().compared += 1;
            if let Some((class, msg)) = judge(op, &d, exp, &plan.rules) {
                rt::set_op(id);
                rt::violate(class, format!("while the thread ends: {}", msg));
            }
        });
    }
}

/// Makes calls on a thread that ends after them.  Returns their steps.
fn short_lived(plan: &Plan, ctx: &Ctx, ops: Vec<(u32, Op)>) -> u64 {
    let shared = ctx.shared;
    let n = ops.len() as u64;
    let t = std::thread::scope(|s| {
        s.spawn(move || {
            rt::setup_thread(rt::ORACLE);
            let mut c = Ctx { specs: &plan.specs, shared, own: BTreeMap::new(), last: 0, nested: None };
            let mut steps = 0;
            for (id, o) in &ops {
                let d = exec(o, *id, &mut c, 200_000_000);
                steps += d.out.steps;
                note(&d, o);
            }
            steps
        })
        .join()
    });
    stats().noise += n;
    stats().shortlived += 1;
    match t {
        Ok(x) => x,
        Err(_) => crate::harness_error("short-lived thread"),
    }
}

#[allow(clippy::too_many_arguments)]
fn soak(plan: &Plan, ctx: &mut Ctx, id: u32, seed: u64, phase: u32, bound: i64, max_steps: u64, churn: u32) {
    use simcore::alloc::LIVE;
    use std::sync::atomic::Ordering::Relaxed;
    let mut g = NoiseGen::new(seed, false);
    if seed & 1 == 1 {
        // whatever file the library opens exists
        rt::set_ambient(&rt::Ambient { files: seed, ..Default::default() });
    }
    let fd0 = fds();
    let th0 = unsafe { simcore::interpose::THREADS_MADE };
    let mut marks: Vec<i64> = vec![];
    let mut steps = 0u64;
    let mut calls = 0u64;
    let mut next = plan.ops.iter().cycle();
    loop {
        let mut batch = vec![];
        for k in 0..phase {
            // the plan's own operations and their neighbours
            let o = if calls % 3 == 0 { next.next().unwrap().clone() } else { g.next(&plan.ops) };
            calls += 1;
            if churn > 0 {
                batch.push((id, o));
                if batch.len() as u32 == churn || k + 1 == phase {
                    // a thread costs far more than a call
                    steps += 300_000 + short_lived(plan, ctx, std::mem::take(&mut batch));
                }
                continue;
            }
            let d = exec(&o, id, ctx, 200_000_000);
            steps += d.out.steps;
            note(&d, &o);
            stats().noise += 1;
        }
        let live = LIVE.load(Relaxed);
        marks.push(live);
        let fd = fds();
        let th = unsafe { simcore::interpose::THREADS_MADE };
        if fd > fd0 + 4 || th > th0 + 16 {
            rt::set_op(id);
            rt::violate("retained", format!("after {} calls, {} more files are open and {} threads were started", calls, fd.saturating_sub(fd0), th - th0));
        }
        let n = marks.len();
        if live > marks[0] + bound {
            rt::set_op(id);
            rt::violate("retained", format!("library calls retain memory: {} bytes after {} calls, {} bytes after {} calls", marks[0], phase, live, calls));
        }
        // stop when memory was flat over the last two thirds of the calls (so
        // that a growing buffer cannot hide between two doublings)
        if n >= 6 && live <= marks[(n - 1) / 3] {
            return;
        }
        if steps > max_steps {
            // not flat: steady growth is retention, a filling cache slows down
            let (a, b, c) = (marks[n / 3], marks[2 * n / 3], marks[n - 1]);
            if n >= 6 && c - a > bound / 8 && c - b > (b - a) / 2 {
                rt::set_op(id);
                rt::violate("retained", format!("library calls retain memory: {}, {}, {} bytes after a third, two thirds, all of {} calls", a, b, c, calls));
            }
            return;
        }
    }
}

/// Body of a forked run: never returns.
fn run_child(plan: &Plan, exp: &[Outcome], replay: Option<Vec<Event>>) -> ! {
    unsafe {
        // real time is never part of a run; this only ends a process stuck in the kernel
        libc::alarm(300);
        rt::FATAL = fatal;
        rt::FINISH = finish;
        rt::SHORT = (*std::ptr::addr_of!(RESULT)).as_ref().unwrap().last();
    }
    if plan.ops.iter().any(|o| o.amb.is_some()) {
        simcore::interpose::trap_tsc();
    }
    let afters: Vec<Option<usize>> = plan.threads.iter().map(|t| t.after).collect();
    rt::init(plan.explore.clone(), replay, &afters);
    rt::setup_thread(rt::PRELUDE);
    let used: Vec<bool> = {
        let mut u = vec![false; plan.specs.len()];
        for o in &plan.ops {
            if let Href::Shared(n) = o.h {
                u[n as usize] = true;
            }
        }
        u
    };
    let handles = fresh_thread(512 * 1024, || {
        rt::setup_thread(rt::PRELUDE);
        let mut handles = vec![];
        for (n, s) in plan.specs.iter().enumerate() {
            handles.push(if used[n] {
                let sv = rt::begin_op(0x3000_0000 + n as u32, simops::HANDLE_LIMIT);
                let h = make_shared(s);
                rt::end_op(sv);
                Some(h)
            } else {
                None
            });
        }
        Force(handles)
    });
    let sh: &'static Shared = Box::leak(Box::new(Shared { plan: plan.clone(), exp: exp.to_vec(), handles }));
    let mut joins = vec![];
    for t in 0..plan.threads.len() {
        let mut b = std::thread::Builder::new().stack_size(512 * 1024);
        if let Some(n) = &plan.threads[t].name {
            b = b.name(n.clone());
        }
        match b.spawn(move || rt::thread_body(t, || thread_main(sh, t))) {
            Ok(h) => joins.push(Some(h)),
            Err(_) => crate::harness_error("thread"),
        }
    }
    stats().threads = plan.threads.len() as u64;
    rt::drive(joins);
    finish();
    simcore::raw::exit_now(0)
}

fn finish() {
    let r = rt::rt();
    let s = stats();
    s.switches = r.n.switches;
    s.freezes = r.n.freezes;
    s.pauses = r.n.pauses;
    s.steps = r.n.steps;
    s.hot = r.n.hot;
    s.futex = r.n.futex_waits;
    s.events = r.record.len() as u64;
    s.sim_ns = r.now;
    s.hash = r.n.sched_hash;
    let a = rt::amb();
    s.reads = [a.reads_clock, a.reads_env, a.reads_rand, a.reads_file];
    s.prints = a.prints;
    s.nomem = a.failed;
    s.stale = r.n.stale;
    s.allocs = simcore::alloc::TOTAL.load(std::sync::atomic::Ordering::Relaxed);
    s.live = simcore::alloc::LIVE.load(std::sync::atomic::Ordering::Relaxed);
    let long = r.record.len() > 50_000;
    let res = RunResult { violation: r.violation.clone(), events: if r.violation.is_some() && !long { r.record.clone() } else { vec![] }, long, stats: s.clone() };
    unsafe {
        (*std::ptr::addr_of!(RESULT)).as_ref().unwrap().put(&serde_json::to_vec(&res).unwrap());
    }
}

pub fn init_results() {
    unsafe { RESULT = Some(Shm::new(SHM)) }
}

/// One simulated run in a process of its own.
pub fn run(plan: &Plan, exp: &[Outcome], replay: Option<Vec<Event>>) -> RunResult {
    let shm = unsafe { (*std::ptr::addr_of!(RESULT)).as_ref().unwrap() };
    shm.clear();
    unsafe { *shm.last() = 0 };
    let end = forked(|| run_child(plan, exp, replay));
    let viol = |class: &str, msg: String| RunResult {
        violation: Some(Violation { class: class.into(), op: 0, thread: -1, step: 0, msg }),
        events: vec![],
        long: false,
        stats: Stats::default(),
    };
    match end {
        End::Exit(0) | End::Exit(97) => match shm.get() {
            Some(b) => serde_json::from_slice(b).unwrap_or_else(|e| crate::harness_error(&format!("run result: {}", e))),
            None => viol("crash", "the process ended with status 0 in the middle of library calls".into()),
        },
        End::Exit(c) if c == crate::HARNESS => simcore::raw::exit_now(crate::HARNESS),
        End::Exit(c) => viol("crash", format!("the process ended with status {} in the middle of library calls", c)),
        // a call may give up for want of memory
        End::Signal(libc::SIGABRT) if unsafe { *shm.last() } == 1 => RunResult { violation: None, events: vec![], long: false, stats: Stats::default() },
        End::Signal(libc::SIGALRM) => viol("hang", "the run did not finish".into()),
        End::Signal(libc::SIGKILL) => crate::harness_error("run killed"),
        End::Signal(s) => viol("crash", format!("the process was ended by signal {} in the middle of library calls", s)),
    }
}

/// The operations a plan performs.
pub fn needed(plan: &Plan) -> Vec<bool> {
    let mut used = vec![false; plan.ops.len()];
    for t in &plan.threads {
        if let Some((op, _)) = t.farewell {
            used[op as usize] = true;
        }
        for s in &t.steps {
            match s.act {
                Act::Do { op, .. } => used[op as usize] = true,
                _ => used.iter_mut().for_each(|u| *u = true),
            }
        }
    }
    for k in 0..plan.ops.len() {
        if used[k] {
            for (_, n) in plan.ops[k].sink.nested.clone() {
                used[n as usize] = true;
            }
        }
    }
    for k in 0..plan.ops.len() {
        if let (true, Some(n)) = (used[k], plan.ops[k].unwind) {
            used[n as usize] = true;
        }
    }
    used
}

/// Removes from a plan the operations not marked.
pub fn keep(plan: &mut Plan, used: &[bool]) {
    let mut map = vec![0u32; plan.ops.len()];
    let mut n = 0;
    for k in 0..used.len() {
        map[k] = n;
        if used[k] {
            n += 1;
        }
    }
    let mut k = 0;
    plan.ops.retain(|_| {
        k += 1;
        used[k - 1]
    });
    for o in plan.ops.iter_mut() {
        for x in o.sink.nested.iter_mut() {
            x.1 = map[x.1 as usize];
        }
        o.unwind = o.unwind.filter(|x| used[*x as usize]).map(|x| map[x as usize]);
    }
    for t in plan.threads.iter_mut() {
        if let Some((x, _)) = &mut t.farewell {
            *x = map[*x as usize];
        }
        for s in t.steps.iter_mut() {
            if let Act::Do { op, .. } = &mut s.act {
                *op = map[*op as usize];
            }
        }
    }
}

pub fn sink_fault_count(p: &SinkPlan) -> usize {
    p.faults.iter().filter(|f| !matches!(f.1, SinkFault::Slow(_))).count()
}
