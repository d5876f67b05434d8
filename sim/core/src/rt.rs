//! Scheduler: real OS threads, exactly one of which holds the baton.  Every
//! hand-over is decided here, from a seeded generator or from a replay list.
use crate::raw::{exit_now, Gate};
use crate::rng::{mix, Rng};
use crate::weak::Weak;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;

pub const ORACLE: i32 = -1;
pub const PRELUDE: i32 = -2;

/// Pseudo operation numbers used to key decisions taken outside operations.
pub const KEY_START: u32 = 0xffff_0000;
pub const KEY_EXIT: u32 = 0xfffd_0000;
pub const KEY_AWAIT: u32 = 0xfffe_0000;
pub const KEY_JOIN: u32 = 0xfffe_8000;
/// Steps a thread's destructors may take.
const EXIT_LIMIT: u64 = 20_000_000;

pub const FAIR: u64 = 50_000;

pub struct Tls {
    pub on: Cell<u32>,
    steps: Cell<u64>,
    next: Cell<u64>,
    limit: Cell<u64>,
    acct: Cell<u64>,
    lo: Cell<usize>,
    hi: Cell<usize>,
    tid: Cell<i32>,
    op: Cell<u32>,
    /// Step of this operation at which the thread stops for ever; 0: none.
    die: Cell<u64>,
    arm: Cell<u64>,
    /// Inside the model of memory.
    busy: Cell<bool>,
}

thread_local! {
    static TLS: Tls = const { Tls {
        on: Cell::new(0), steps: Cell::new(0), next: Cell::new(u64::MAX), limit: Cell::new(u64::MAX),
        acct: Cell::new(0), lo: Cell::new(0), hi: Cell::new(0), tid: Cell::new(-9), op: Cell::new(0),
        die: Cell::new(0), arm: Cell::new(0), busy: Cell::new(false) } };
}

#[inline(always)]
pub fn tls<R>(f: impl FnOnce(&Tls) -> R) -> R {
    TLS.with(|t| f(t))
}

#[inline]
pub fn in_op() -> bool {
    tls(|t| t.on.get() != 0)
}

pub fn is_sim_thread() -> bool {
    tls(|t| t.tid.get() >= 0)
}

// ---------------------------------------------------------------- decisions

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    /// Preempted; thread `to` continues.
    Switch(u32),
    /// Frozen for ever; `to` continues.
    Freeze(u32),
    /// Paused for so many simulated nanoseconds; `to` continues.
    Pause(u64, u32),
    /// An atomic load returned the value so many stores back.
    Stale(u64),
    /// The thread gave up the baton (blocked, slept, yielded, ended); `to`
    /// continues.
    Give(u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Event {
    pub op: u32,
    pub step: u64,
    pub act: Act,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Explore {
    pub seed: u64,
    /// Mean number of steps between preemptions; 0: none.
    pub mean_gap: f64,
    /// Probability of preempting at an access to memory shared between calls.
    pub p_hot: f64,
    /// Probability of preempting at the start of an operation.
    pub p_boundary: f64,
    /// Probability that a preemption freezes the thread for ever.
    pub p_freeze: f64,
    pub max_freeze: u32,
    /// Probability that a preemption pauses the thread in simulated time.
    pub p_pause: f64,
    pub max_switches: u32,
    /// Probability that an atomic load returns an older value, where the
    /// memory model allows one.
    #[serde(default)]
    pub p_stale: f64,
    /// Nonzero: whenever thread 0 has made so many steps, thread 1 makes one
    /// whole call.
    #[serde(default)]
    pub lockstep: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub class: String,
    pub op: u32,
    pub thread: i32,
    pub step: u64,
    pub msg: String,
}

#[derive(Clone, Debug, PartialEq)]
enum St {
    New,
    Ready,
    Blocked(usize, Option<u64>),
    Paused(u64),
    Frozen,
    /// Its work is done; another thread is in the middle of its exit.
    Await,
    Done,
}

struct Th {
    st: St,
    gate: Gate,
    after: Option<usize>,
    timed_out: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Counters {
    pub switches: u64,
    pub freezes: u64,
    pub pauses: u64,
    pub steps: u64,
    pub hot: u64,
    pub futex_waits: u64,
    pub stale: u64,
    pub sched_hash: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Msg {
    None,
    Join(usize),
    Finished,
    Violated,
}

pub struct Rt {
    threads: Vec<Th>,
    cur: usize,
    main_gate: Gate,
    msg: Msg,
    rng: Rng,
    cfg: Explore,
    replay: Option<BTreeMap<u32, Vec<Event>>>,
    pub record: Vec<Event>,
    pub now: u64,
    pub violation: Option<Violation>,
    pub n: Counters,
    pub foreign: u64,
    hot_tab: [usize; HOT],
    hot_len: usize,
    frozen: u32,
    weak: Option<Weak>,
    /// The thread running its destructors, which main joins.
    exiting: Option<usize>,
}

static mut RT: *mut Rt = std::ptr::null_mut();

#[allow(static_mut_refs)]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}
fn have_rt() -> bool {
    unsafe { !RT.is_null() }
}

pub fn init(cfg: Explore, replay: Option<Vec<Event>>, afters: &[Option<usize>]) {
    let stale = match &replay {
        Some(v) => v.iter().any(|e| matches!(e.act, Act::Stale(_))),
        None => cfg.p_stale > 0.0,
    };
    let replay = replay.map(|v| {
        let mut m: BTreeMap<u32, Vec<Event>> = BTreeMap::new();
        for e in v {
            m.entry(e.op).or_default().push(e);
        }
        m
    });
    let r = Rt {
        threads: afters
            .iter()
            .map(|a| Th { st: St::New, gate: Gate::new(), after: *a, timed_out: false })
            .collect(),
        cur: usize::MAX,
        main_gate: Gate::new(),
        msg: Msg::None,
        rng: Rng::new(cfg.seed),
        cfg,
        replay,
        record: Vec::new(),
        exiting: None,
        now: 0,
        violation: None,
        n: Counters::default(),
        foreign: 0,
        hot_tab: [0; HOT],
        hot_len: 0,
        frozen: 0,
        weak: None,
    };
    unsafe { RT = Box::into_raw(Box::new(r)) }
    if stale {
        rt().weak = Some(Weak::new(afters.len()));
    }
}

// ------------------------------------------------------------------ ambient

/// What a call would see if it looked around.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Ambient {
    /// Wall clock, ns since 1970; 0: the baseline.
    pub clock: u64,
    /// Nonzero: every further clock reading jumps pseudo-randomly.
    pub jumps: u64,
    /// Nonzero: every environment variable asked for is set.
    pub env: u64,
    /// Process randomness.
    pub rand: u64,
    /// Nonzero: every file asked for exists, with generated contents.
    pub files: u64,
    /// Fill for fresh heap memory and unused stack.
    pub paint: Option<u8>,
    /// Nonzero: some allocations fail.
    #[serde(default)]
    pub mem: u64,
    /// Nonzero: where its stack frame and its heap blocks lie.
    #[serde(default)]
    pub place: u64,
}

pub const BASE_CLOCK: u64 = 1_704_067_200_000_000_000;

#[derive(Default)]
pub struct AmbState {
    pub amb: Ambient,
    pub allocs: u64,
    pub places: u64,
    pub failed: u64,
    pub reads_clock: u64,
    pub reads_env: u64,
    pub reads_rand: u64,
    pub reads_file: u64,
    pub prints: u64,
    pub rng: u64,
}
static mut AMB: *mut AmbState = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn amb() -> &'static mut AmbState {
    unsafe {
        if AMB.is_null() {
            AMB = Box::into_raw(Box::new(AmbState::default()));
        }
        &mut *AMB
    }
}
pub fn set_ambient(a: &Ambient) {
    let s = amb();
    s.rng = mix(a.rand ^ 0x1234_5678);
    crate::interpose::set_environ(a.env);
    s.amb = a.clone();
}
pub fn paint_byte() -> Option<u8> {
    unsafe {
        if AMB.is_null() {
            None
        } else {
            (*AMB).amb.paint
        }
    }
}
/// How far a block of a library call is moved up, in steps of 16 bytes.
pub fn heap_shift() -> usize {
    unsafe {
        if AMB.is_null() || (*AMB).amb.place == 0 {
            return 0;
        }
        (*AMB).places += 1;
        mix((*AMB).amb.place ^ (*AMB).places) as usize % 64
    }
}
/// Set (in memory shared with the parent) when an allocation has failed.
pub static mut SHORT: *mut u8 = std::ptr::null_mut();

/// Does this allocation of a library call fail?
pub fn no_memory(size: usize) -> bool {
    unsafe {
        if AMB.is_null() || (*AMB).amb.mem == 0 || SHORT.is_null() {
            return false;
        }
        (*AMB).allocs += 1;
        let h = mix((*AMB).amb.mem ^ (*AMB).allocs);
        // all of them, or the large ones, or every other one
        let fail = match (*AMB).amb.mem % 3 {
            0 => true,
            1 => size >= 256,
            _ => h & 1 == 0,
        };
        if fail {
            (*AMB).failed += 1;
            *SHORT = 1;
        }
        fail
    }
}
/// Simulated wall clock as seen by a library call.
pub fn wall_clock() -> u64 {
    let s = amb();
    s.reads_clock += 1;
    let base = if s.amb.clock == 0 { BASE_CLOCK } else { s.amb.clock };
    let now = if have_rt() { rt().now } else { 0 };
    let mut t = base.wrapping_add(now);
    if s.amb.jumps != 0 {
        let h = mix(s.amb.jumps ^ s.reads_clock);
        // jumps of up to +-100 years, of days, of seconds
        let span = [3_155_760_000u64, 86_400_000, 10][(h % 3) as usize] * 1_000_000_000;
        let j = (h >> 8) % span;
        t = if h & 128 == 0 { t.wrapping_add(j) } else { t.saturating_sub(j) };
    }
    t
}
pub fn now() -> u64 {
    if have_rt() {
        rt().now
    } else {
        0
    }
}
pub fn advance(ns: u64) {
    if have_rt() {
        rt().now += ns;
    }
}

/// Dirties the unused stack below the caller.
#[inline(never)]
pub fn paint_stack(b: u8) {
    let mut a = [0u8; 24 * 1024];
    for x in a.iter_mut() {
        unsafe { std::ptr::write_volatile(x, b) };
    }
    std::hint::black_box(&a);
}

// --------------------------------------------------------------- coverage

pub static mut EDGES: *mut u8 = std::ptr::null_mut();
pub static mut EDGE_COUNT: usize = 0;
pub const EDGE_MAX: usize = 1 << 16;

// --------------------------------------------------------------- callbacks

#[inline(always)]
fn tick(t: &Tls) {
    let s = t.steps.get() + 1;
    t.steps.set(s);
    if s >= t.next.get() {
        slow(t);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        EDGE_COUNT += 1;
        *p = EDGE_COUNT.min(EDGE_MAX - 1) as u32;
        p = p.add(1);
    }
}

/// Tables of (address, flags), in the order of the guards.
pub static mut PCS: Vec<(usize, usize)> = Vec::new();

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *const usize, stop: *const usize) {
    let t = &mut *std::ptr::addr_of_mut!(PCS);
    if !t.iter().any(|x| x.0 == start as usize) {
        t.push((start as usize, stop as usize));
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    tls(|t| {
        if t.on.get() != 0 {
            if !EDGES.is_null() {
                *EDGES.add(*g as usize) = 1;
            }
            tick(t);
        }
    })
}

macro_rules! mem_cb {
    ($ld:ident,$st:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $ld(p: usize) {
            tls(|t| {
                if t.on.get() != 0 {
                    tick(t);
                    if p < t.lo.get() || p >= t.hi.get() {
                        warm(t, p);
                    }
                }
            })
        }
        #[no_mangle]
        pub unsafe extern "C" fn $st(p: usize) {
            tls(|t| {
                if t.on.get() != 0 {
                    tick(t);
                    if p < t.lo.get() || p >= t.hi.get() {
                        hot(t, p);
                    }
                }
            })
        }
    };
}
mem_cb!(__sanitizer_cov_load1, __sanitizer_cov_store1);
mem_cb!(__sanitizer_cov_load2, __sanitizer_cov_store2);
mem_cb!(__sanitizer_cov_load4, __sanitizer_cov_store4);
mem_cb!(__sanitizer_cov_load8, __sanitizer_cov_store8);
mem_cb!(__sanitizer_cov_load16, __sanitizer_cov_store16);

/// An atomic access: a step before it, and perhaps a preemption right after.
pub fn atomic_access<T>(p: usize, store: bool, f: impl FnOnce(&Tls) -> T) -> T {
    tls(|t| {
        let on = t.on.get() != 0;
        if on {
            tick(t);
        }
        let r = f(t);
        if on && t.on.get() != 0 {
            if store {
                hot(t, p);
            } else {
                warm(t, p);
            }
        }
        r
    })
}

/// Before (0) or after (1) part of a copy from `s` (0: a fill) to `d`.  False
/// if the memory concerned is the caller's own stack.
pub fn memory_piece(d: usize, s: usize, after: u8) -> bool {
    tls(|t| {
        let mine = |p: usize| p >= t.lo.get() && p < t.hi.get();
        if t.on.get() == 0 || mine(d) && (s == 0 || mine(s)) {
            return false;
        }
        if after == 0 {
            tick(t);
        } else if !mine(d) {
            hot(t, d);
        } else {
            warm(t, s);
        }
        true
    })
}

/// The model of memory, if it is in force for this access.
fn weak<R>(t: &Tls, f: impl FnOnce(&mut Weak, usize) -> R) -> Option<R> {
    if t.tid.get() < 0 || t.busy.get() || !have_rt() || rt().foreign != 0 {
        return None;
    }
    let w = rt().weak.as_mut()?;
    let on = t.on.replace(0);
    t.busy.set(true);
    let r = f(w, t.tid.get() as usize);
    t.busy.set(false);
    t.on.set(on);
    Some(r)
}
pub fn weak_load(t: &Tls, p: usize, size: u8, mem: u64, o: i32, may: bool) -> u64 {
    if t.on.get() == 0 {
        return mem;
    }
    let (op, s) = (t.op.get(), t.steps.get());
    weak(t, |w, me| {
        let most = w.depth(me, p, size, mem, o);
        let mut back = 0;
        if may && most > 0 {
            let r = rt();
            back = match &mut r.replay {
                Some(m) => {
                    let mut k = 0;
                    if let Some(v) = m.get_mut(&op) {
                        if let Some(i) = v.iter().position(|e| e.step == s && matches!(e.act, Act::Stale(_))) {
                            if let Act::Stale(n) = v.remove(i).act {
                                k = n.min(most);
                            }
                        }
                    }
                    k
                }
                None if r.rng.chance(r.cfg.p_stale) => 1 + r.rng.below(most),
                None => 0,
            };
            if back > 0 {
                r.n.stale += 1;
                r.log(op, s, Act::Stale(back));
            }
        }
        w.load(me, p, back, o)
    })
    .unwrap_or(mem)
}
pub fn weak_store(t: &Tls, p: usize, size: u8, mem: u64, val: u64, o: i32) {
    if t.on.get() != 0 {
        weak(t, |w, me| w.store(me, p, size, mem, val, o));
    }
}
pub fn weak_rmw(t: &Tls, p: usize, size: u8, mem: u64, val: u64, o: i32) {
    if t.on.get() != 0 {
        weak(t, |w, me| w.rmw(me, p, size, mem, val, o));
    }
}
pub fn weak_fence(o: i32) {
    tls(|t| {
        if t.on.get() != 0 {
            weak(t, |w, me| w.fence(me, o));
        }
    })
}
/// Code that is not followed synchronised this thread with others.
pub fn weak_sync() {
    tls(|t| {
        weak(t, |w, me| w.sync(me));
    })
}
/// Memory handed out: what lay there before is forgotten.
pub fn weak_forget(p: usize, n: usize) {
    tls(|t| {
        weak(t, |w, _| w.forget(p, n));
    })
}

const HOT: usize = 4096;

/// Exact set of addresses (so that decisions do not depend on where things
/// happen to lie); it stops growing when half full.
fn hot_find(r: &mut Rt, p: usize, insert: bool) -> bool {
    let mut i = (mix(p as u64) as usize) & (HOT - 1);
    loop {
        if r.hot_tab[i] == p {
            return true;
        }
        if r.hot_tab[i] == 0 {
            if insert && r.hot_len < HOT / 2 {
                r.hot_tab[i] = p;
                r.hot_len += 1;
            }
            return false;
        }
        i = (i + 1) & (HOT - 1);
    }
}

/// Load from memory outside the thread's stack.
#[inline]
fn warm(t: &Tls, p: usize) {
    if t.tid.get() < 0 {
        return;
    }
    let r = rt();
    if r.replay.is_none() && r.hot_len > 0 && hot_find(r, p, false) {
        hot_roll(t, r);
    }
}

/// Store to memory outside the thread's stack: state that outlives the call.
#[inline(never)]
fn hot(t: &Tls, p: usize) {
    if !have_rt() {
        return;
    }
    let r = rt();
    r.n.hot += 1;
    if t.tid.get() < 0 {
        return;
    }
    hot_find(r, p, true);
    if r.replay.is_none() {
        hot_roll(t, r);
    }
}

#[inline(never)]
fn hot_roll(t: &Tls, r: &mut Rt) {
    if r.cfg.p_hot > 0.0 && r.rng.chance(r.cfg.p_hot) {
        // preempt at the very next step, i.e. just after this access
        let n = t.steps.get() + 1;
        if n < t.next.get() {
            t.next.set(n);
        }
    }
}

#[inline(never)]
fn slow(t: &Tls) {
    t.on.set(0);
    if t.steps.get() >= t.limit.get() {
        if t.op.get() >= KEY_EXIT && have_rt() && rt().frozen > 0 {
            // a destructor waits for a call that was stopped for ever
            (unsafe { FINISH })();
            exit_now(0);
        }
        violate("steps", format!("call did not finish within {} of its own steps", t.limit.get()));
    }
    if t.tid.get() >= 0 {
        account(t);
        point(t, false);
        plan_next(t);
    } else {
        t.next.set(t.limit.get());
    }
    t.on.set(1);
}

fn account(t: &Tls) {
    let d = t.steps.get() - t.acct.get();
    t.acct.set(t.steps.get());
    let r = rt();
    r.now += d * 10;
    r.n.steps += d;
}

fn plan_next(t: &Tls) {
    let r = rt();
    let s = t.steps.get();
    let mut n = t.limit.get().min((s / FAIR + 1) * FAIR);
    if r.replay.is_none() {
        if t.die.get() > s {
            n = n.min(t.die.get());
        }
        if r.cfg.lockstep > 0 {
            if t.tid.get() == 0 && r.n.switches < r.cfg.max_switches as u64 {
                n = n.min(s + r.cfg.lockstep);
            }
            t.next.set(n);
            return;
        }
    }
    match &r.replay {
        Some(m) => {
            if let Some(v) = m.get(&t.op.get()) {
                for e in v {
                    if e.step > s && !matches!(e.act, Act::Give(_) | Act::Stale(_)) {
                        n = n.min(e.step);
                    }
                }
            }
        }
        None => {
            if r.cfg.mean_gap > 0.0 && r.n.switches < r.cfg.max_switches as u64 {
                let g = r.rng.gap(r.cfg.mean_gap);
                n = n.min(s + g);
            }
        }
    }
    t.next.set(n);
}

impl Rt {
    fn runnable(&self, i: usize) -> bool {
        match self.threads[i].st {
            St::Ready => true,
            St::New => match self.threads[i].after {
                None => true,
                Some(a) => matches!(self.threads[a].st, St::Done | St::Frozen),
            },
            _ => false,
        }
    }
    fn others(&self, me: usize) -> Vec<usize> {
        (0..self.threads.len()).filter(|&i| i != me && self.runnable(i)).collect()
    }
    fn log(&mut self, op: u32, step: u64, act: Act) {
        let mut h = self.n.sched_hash ^ mix(((op as u64) << 32) ^ step.wrapping_mul(0x9e37));
        h = mix(h ^ match act {
            Act::Switch(t) => t as u64,
            Act::Freeze(t) => t as u64 | 0x100,
            Act::Pause(d, t) => t as u64 | 0x200 | (d << 16),
            Act::Give(t) => t as u64 | 0x300,
            Act::Stale(k) => k | 0x400,
        });
        self.n.sched_hash = h;
        self.record.push(Event { op, step, act });
    }
    /// The thread that continues when the current one cannot: recorded as Give.
    fn choose_forced(&mut self, cands: &[usize], op: u32, step: u64) -> usize {
        let to = match &mut self.replay {
            Some(m) => {
                let mut c = None;
                if let Some(v) = m.get_mut(&op) {
                    if let Some(k) = v.iter().position(|e| e.step == step && matches!(e.act, Act::Give(_))) {
                        if let Act::Give(to) = v[k].act {
                            c = Some(to as usize);
                        }
                        v.remove(k);
                    }
                }
                match c {
                    Some(c) if cands.contains(&c) => c,
                    _ => cands[0],
                }
            }
            None => *self.rng.pick(cands),
        };
        self.log(op, step, Act::Give(to as u32));
        to
    }
    /// Nobody is runnable: let simulated time pass.
    fn elapse(&mut self) -> bool {
        let mut best: Option<(u64, usize)> = None;
        for (i, th) in self.threads.iter().enumerate() {
            let d = match th.st {
                St::Paused(d) => d,
                St::Blocked(_, Some(d)) => d,
                _ => continue,
            };
            if best.map_or(true, |(b, _)| d < b) {
                best = Some((d, i));
            }
        }
        match best {
            None => false,
            Some((d, i)) => {
                self.now = self.now.max(d);
                self.threads[i].timed_out = matches!(self.threads[i].st, St::Blocked(..));
                self.threads[i].st = St::Ready;
                true
            }
        }
    }
    fn wake_due(&mut self) {
        for th in self.threads.iter_mut() {
            match th.st {
                St::Paused(d) if d <= self.now => th.st = St::Ready,
                St::Blocked(_, Some(d)) if d <= self.now => {
                    th.st = St::Ready;
                    th.timed_out = true;
                }
                _ => (),
            }
        }
    }
}

/// A preemption point of the running thread.
fn point(t: &Tls, boundary: bool) {
    let r = rt();
    r.wake_due();
    let me = t.tid.get() as usize;
    let op = t.op.get();
    let s = t.steps.get();
    let act = match &mut r.replay {
        Some(m) => {
            let e = m.get_mut(&op).and_then(|v| {
                v.iter()
                    .position(|e| e.step == s && !matches!(e.act, Act::Give(_) | Act::Stale(_)))
                    .map(|k| v.remove(k).act)
            });
            match e {
                Some(a) => a,
                None if !boundary && s > 0 && s % FAIR == 0 => {
                    let o = r.others(me);
                    if o.is_empty() {
                        return;
                    }
                    let to = r.choose_forced(&o, op, s);
                    switch(me, to);
                    return;
                }
                None => return,
            }
        }
        None => {
            if boundary && r.cfg.lockstep == 0 && !r.rng.chance(r.cfg.p_boundary) {
                return;
            }
            let o = r.others(me);
            if !boundary && s % FAIR == 0 && s > 0 {
                if o.is_empty() {
                    return;
                }
                let to = r.choose_forced(&o, op, s);
                switch(me, to);
                return;
            }
            if !boundary && s == t.die.get() {
                t.die.set(0);
                let to = if o.is_empty() { me } else { *r.rng.pick(&o) };
                Act::Freeze(to as u32)
            } else if r.cfg.lockstep > 0 {
                // thread 1 is only interrupted between its calls
                if me == 1 && !boundary || boundary && me == 0 || me > 1 || !o.contains(&(1 - me)) {
                    return;
                }
                Act::Switch(1 - me as u32)
            } else if !boundary && op < KEY_EXIT && r.frozen < r.cfg.max_freeze && r.rng.chance(r.cfg.p_freeze) {
                let to = if o.is_empty() { me } else { *r.rng.pick(&o) };
                Act::Freeze(to as u32)
            } else if o.is_empty() {
                return;
            } else if r.rng.chance(r.cfg.p_pause) {
                let d = [200, 20_000, 2_000_000, 5_000_000_000][r.rng.below(4) as usize];
                Act::Pause(1 + r.rng.below(d), *r.rng.pick(&o) as u32)
            } else {
                Act::Switch(*r.rng.pick(&o) as u32)
            }
        }
    };
    match act {
        Act::Switch(to) => {
            if to as usize == me || to as usize >= r.threads.len() || !r.runnable(to as usize) {
                return;
            }
            r.n.switches += 1;
            r.log(op, s, act);
            switch(me, to as usize);
        }
        Act::Pause(d, to) => {
            let to = to as usize;
            if to == me || to >= r.threads.len() || !r.runnable(to) {
                return;
            }
            r.n.pauses += 1;
            r.n.switches += 1;
            r.log(op, s, Act::Pause(d, to as u32));
            r.threads[me].st = St::Paused(r.now + d);
            switch(me, to);
        }
        Act::Freeze(to) => {
            r.n.freezes += 1;
            r.frozen += 1;
            r.log(op, s, Act::Freeze(to));
            r.threads[me].st = St::Frozen;
            let to = to as usize;
            if to != me && to < r.threads.len() && r.runnable(to) {
                switch(me, to);
            } else {
                hand_over(me, op, s);
            }
        }
        Act::Give(_) | Act::Stale(_) => (),
    }
}

fn switch(me: usize, to: usize) {
    let r = rt();
    if r.threads[to].st == St::New {
        r.threads[to].st = St::Ready;
    }
    r.cur = to;
    r.threads[to].gate.open();
    rt().threads[me].gate.pass();
}

/// The running thread cannot go on (its state says why): somebody else must.
fn hand_over(me: usize, op: u32, s: u64) {
    let r = rt();
    loop {
        r.wake_due();
        let c: Vec<usize> = (0..r.threads.len()).filter(|&i| r.runnable(i)).collect();
        if !c.is_empty() {
            let to = r.choose_forced(&c, op, s);
            if to == me {
                return;
            }
            switch(me, to);
            return;
        }
        if !r.elapse() {
            break;
        }
    }
    if op >= KEY_EXIT && r.frozen > 0 {
        (unsafe { FINISH })();
        exit_now(0);
    }
    if r.threads.iter().any(|t| matches!(t.st, St::Blocked(..))) {
        blocked_violation();
    }
    if r.exiting.is_some() {
        // the main thread is joining a thread that has stopped for ever
        (unsafe { FINISH })();
        exit_now(0);
    }
    r.msg = Msg::Finished;
    r.main_gate.open();
    r.threads[me].gate.pass();
}

fn blocked_violation() -> ! {
    let r = rt();
    let b: Vec<usize> = (0..r.threads.len()).filter(|&i| matches!(r.threads[i].st, St::Blocked(..))).collect();
    let f: Vec<usize> = (0..r.threads.len()).filter(|&i| r.threads[i].st == St::Frozen).collect();
    violate("blocked", format!("threads {:?} wait for ever inside library calls (frozen threads: {:?})", b, f))
}

/// Reports a violation and stops the run.  Never returns on a simulated
/// thread; on the main thread it unwinds to the runner through exit.
pub fn violate(class: &str, msg: String) -> ! {
    tls(|t| t.on.set(0));
    let (tid, op, step) = tls(|t| (t.tid.get(), t.op.get(), t.steps.get()));
    if !have_rt() || tid < 0 {
        (unsafe { FATAL })(Violation { class: class.into(), op, thread: tid, step, msg });
        exit_now(97);
    }
    let r = rt();
    if r.violation.is_none() {
        r.violation = Some(Violation { class: class.into(), op, thread: tid, step, msg });
    }
    if r.exiting.is_some() {
        // the main thread is busy joining
        (unsafe { FINISH })();
        exit_now(0);
    }
    r.msg = Msg::Violated;
    r.main_gate.open();
    loop {
        r.threads[tid as usize].gate.pass();
    }
}

fn default_fatal(_v: Violation) {}
/// Called for violations outside simulated threads (oracle, prelude).
pub static mut FATAL: fn(Violation) = default_fatal;
/// Delivers the result of the run when the main thread cannot.
pub static mut FINISH: fn() = no_finish;
fn no_finish() {}

// ------------------------------------------------------ operations & threads

pub fn setup_thread(tid: i32) {
    let (lo, hi) = stack_bounds();
    tls(|t| {
        t.tid.set(tid);
        t.lo.set(lo);
        t.hi.set(hi);
    });
}

fn stack_bounds() -> (usize, usize) {
    unsafe {
        let mut a: libc::pthread_attr_t = std::mem::zeroed();
        if libc::pthread_getattr_np(libc::pthread_self(), &mut a) != 0 {
            return (0, 0);
        }
        let mut p: *mut libc::c_void = std::ptr::null_mut();
        let mut n: libc::size_t = 0;
        libc::pthread_attr_getstack(&a, &mut p, &mut n);
        libc::pthread_attr_destroy(&mut a);
        (p as usize, p as usize + n)
    }
}

/// Names the operation a violation reported next is about.
pub fn set_op(op: u32) {
    tls(|t| t.op.set(op))
}

pub struct Saved {
    on: u32,
    steps: u64,
    next: u64,
    limit: u64,
    acct: u64,
    op: u32,
    die: u64,
}

/// The next operation of this thread freezes for ever at that step of its.
pub fn freeze_next_at(step: u64) {
    tls(|t| t.arm.set(step))
}

/// Starts accounting for operation `op` on this thread.
pub fn begin_op(op: u32, limit: u64) -> Saved {
    tls(|t| {
        let s = Saved {
            on: t.on.get(),
            steps: t.steps.get(),
            next: t.next.get(),
            limit: t.limit.get(),
            acct: t.acct.get(),
            op: t.op.get(),
            die: t.die.get(),
        };
        t.on.set(0);
        t.die.set(t.arm.take());
        t.steps.set(0);
        t.acct.set(0);
        t.op.set(op);
        t.limit.set(limit);
        if t.tid.get() >= 0 {
            point(t, true);
            plan_next(t);
        } else {
            t.next.set(limit);
        }
        s
    })
}
pub fn enter() {
    tls(|t| t.on.set(1))
}
pub fn leave() {
    tls(|t| t.on.set(0))
}
/// Ends the operation begun last and returns its number of steps.
pub fn end_op(s: Saved) -> u64 {
    tls(|t| {
        t.on.set(0);
        let n = t.steps.get();
        if t.tid.get() >= 0 {
            account(t);
        }
        t.steps.set(s.steps);
        t.next.set(s.next);
        t.limit.set(s.limit);
        t.acct.set(s.acct);
        t.op.set(s.op);
        t.die.set(s.die);
        t.on.set(s.on);
        n
    })
}

/// Runs harness code in the middle of an operation (a sink, for instance).
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    struct G(u32);
    impl Drop for G {
        fn drop(&mut self) {
            tls(|t| t.on.set(self.0));
        }
    }
    let g = tls(|t| {
        let on = t.on.get();
        if on != 0 {
            tick(t);
        }
        t.on.set(0);
        G(on)
    });
    let r = f();
    drop(g);
    r
}

/// The running thread loses the processor for `ns` of simulated time.
pub fn pause(ns: u64) {
    let (tid, op, s) = tls(|t| (t.tid.get(), t.op.get(), t.steps.get()));
    if !have_rt() || tid < 0 {
        return;
    }
    let r = rt();
    r.n.pauses += 1;
    r.threads[tid as usize].st = St::Paused(r.now + ns);
    hand_over(tid as usize, op, s);
    // resumed: state was set to Ready by elapse/wake_due
}

/// False: there was nobody to let run.
pub fn yield_now() -> bool {
    let (tid, op, s) = tls(|t| (t.tid.get(), t.op.get(), t.steps.get()));
    let r = rt();
    r.wake_due();
    let o = r.others(tid as usize);
    if o.is_empty() {
        // a yield loop must not spin in zero simulated time
        r.now += 1000;
        return false;
    }
    let to = r.choose_forced(&o, op, s);
    switch(tid as usize, to);
    true
}

/// Callers waiting for one another look again.
pub fn wake_all() {
    for th in rt().threads.iter_mut() {
        if let St::Blocked(..) = th.st {
            th.st = St::Ready;
        }
    }
}

pub fn futex_wait(addr: usize, expected: u32, deadline: Option<u64>) -> i64 {
    let (tid, op, s) = tls(|t| (t.tid.get(), t.op.get(), t.steps.get()));
    let r = rt();
    let v = unsafe { std::ptr::read_volatile(addr as *const u32) };
    if v != expected {
        weak_sync();
        return -(libc::EAGAIN as i64);
    }
    r.n.futex_waits += 1;
    let me = tid as usize;
    r.threads[me].st = St::Blocked(addr, deadline);
    r.threads[me].timed_out = false;
    hand_over(me, op, s);
    weak_sync();
    if rt().threads[me].timed_out {
        -(libc::ETIMEDOUT as i64)
    } else {
        0
    }
}

pub fn futex_wake(addr: usize, n: i64) -> i64 {
    let r = rt();
    let mut k = 0;
    for th in r.threads.iter_mut() {
        if k >= n {
            break;
        }
        if let St::Blocked(a, _) = th.st {
            if a == addr {
                th.st = St::Ready;
                k += 1;
            }
        }
    }
    k
}

static STARTED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Body of a simulated thread.
pub fn thread_body(tid: usize, f: impl FnOnce()) {
    setup_thread(tid as i32);
    STARTED.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    rt().threads[tid].gate.pass();
    if let Some(w) = rt().weak.as_mut() {
        w.stacks[tid] = tls(|t| (t.lo.get(), t.hi.get()));
        w.sync(tid);
    }
    f();
    // Its destructors are simulated too: they can be preempted, wait for
    // locks and so on.  One thread exits at a time.
    tls(|t| t.on.set(0));
    begin_op(KEY_EXIT + tid as u32, EXIT_LIMIT);
    while rt().exiting.is_some() {
        rt().threads[tid].st = St::Await;
        hand_over(tid, KEY_AWAIT + tid as u32, 0);
    }
    let r = rt();
    r.exiting = Some(tid);
    r.msg = Msg::Join(tid);
    enter();
    r.main_gate.open();
}

/// Runs the simulated threads to completion (or to a violation).
pub fn drive(mut handles: Vec<Option<std::thread::JoinHandle<()>>>) {
    // a thread's start takes locks of the standard library that an exit takes
    // too: nobody exits before all have started
    while STARTED.load(std::sync::atomic::Ordering::SeqCst) < handles.len() {
        std::thread::yield_now();
    }
    let r = rt();
    let mut key = (KEY_START, 0u64);
    loop {
        // give the baton to somebody
        let mut to = None;
        loop {
            r.wake_due();
            let c: Vec<usize> = (0..r.threads.len()).filter(|&i| r.runnable(i)).collect();
            if !c.is_empty() {
                to = Some(r.choose_forced(&c, key.0, key.1));
                break;
            }
            if !r.elapse() {
                break;
            }
        }
        match to {
            None => {
                if let Some(i) = (0..r.threads.len()).find(|&i| matches!(r.threads[i].st, St::Blocked(..))) {
                    let f: Vec<usize> = (0..r.threads.len()).filter(|&i| r.threads[i].st == St::Frozen).collect();
                    r.violation = Some(Violation {
                        class: "blocked".into(),
                        op: 0,
                        thread: i as i32,
                        step: 0,
                        msg: format!("thread {} waits for ever inside a library call (frozen threads: {:?})", i, f),
                    });
                }
                return;
            }
            Some(t) => {
                if r.threads[t].st == St::New {
                    r.threads[t].st = St::Ready;
                }
                r.cur = t;
                r.threads[t].gate.open();
            }
        }
        r.main_gate.pass();
        match r.msg {
            Msg::Join(t) => {
                if let Some(h) = handles[t].take() {
                    let _ = h.join();
                }
                r.threads[t].st = St::Done;
                r.exiting = None;
                for th in r.threads.iter_mut() {
                    if th.st == St::Await {
                        th.st = St::Ready;
                    }
                }
                key = (KEY_JOIN + t as u32, 0);
            }
            Msg::Finished | Msg::Violated => return,
            Msg::None => unreachable!(),
        }
    }
}
