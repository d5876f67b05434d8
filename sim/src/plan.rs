//! A plan is one simulated run as data: handles, operations, threads, faults,
//! surroundings and the schedule generator's settings.
use crate::gen::{self, Pool};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simcore::rt::{Ambient, Explore};
use simcore::sink::{SinkFault, SinkPlan, Wrap};
use simops::{Href, Op, Spec, K, KINDS};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    /// `times` executions of operation `op`, each compared with its outcome in
    /// a fresh process.
    Do { op: u32, times: u32 },
    /// `count` further calls with generated arguments of the kinds and
    /// neighbourhoods of the plan's operations; not compared.
    /// With `fresh`, none of the plan's own arguments is repeated.
    Noise {
        seed: u64,
        count: u32,
        panicky: bool,
        #[serde(default)]
        fresh: bool,
        /// Nonzero: made by threads that live for so many calls each.
        #[serde(default)]
        churn: u32,
        /// One argument advances by a fixed step from call to call.
        #[serde(default)]
        sweep: bool,
    },
    /// Calls until memory has stopped growing, or has grown past the bound.
    Soak {
        seed: u64,
        phase: u32,
        bound: i64,
        max_steps: u64,
        #[serde(default)]
        churn: u32,
    },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step {
    pub id: u32,
    pub act: Act,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct ThreadPlan {
    /// Starts when that thread has ended.
    pub after: Option<usize>,
    /// In that step (by index) the thread stops for ever, after that part of
    /// the steps which the call takes alone (FRAC: all of them).
    #[serde(default)]
    pub freeze: Option<(u32, u32)>,
    /// An operation that a destructor of the caller's thread-local data
    /// performs when the thread ends, after (true) or before (false) the
    /// destructors of what the library keeps per thread.
    #[serde(default)]
    pub farewell: Option<(u32, bool)>,
    /// The name the caller's thread bears.
    #[serde(default)]
    pub name: Option<String>,
    pub steps: Vec<Step>,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Rules {
    /// Compare values.
    pub values: bool,
    /// Compare delivered text.
    pub text: bool,
    /// Judge how rendering reports sink failures.
    pub sink: bool,
    /// Steps allowed: mul * (steps alone) + add.
    pub mul: u64,
    pub add: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub style: String,
    pub specs: Vec<Spec>,
    pub ops: Vec<Op>,
    pub threads: Vec<ThreadPlan>,
    pub explore: Explore,
    pub rules: Rules,
}

/// Sink-fault positions at or above this are fractions of the number of
/// writes (capacities: of the length) of the undisturbed rendering.
pub const FRAC: u32 = 0x8000_0000;

const LOOSE: Rules = Rules { values: true, text: true, sink: false, mul: 60, add: 3_000_000 };

pub fn kinds_of(prop: &str) -> Vec<(K, u32)> {
    use K::*;
    let c01: Vec<(K, u32)> = vec![
        (Anp, 1), (VecNorm, 1), (VecNormalize, 1), (VecScale, 1), (VecAdd, 1), (VecSub, 1), (VecNeg, 1), (VecDot, 1), (VecAngle, 1), (Prim, 1),
        (MatRotation, 1), (MatCompose, 2), (MatApply, 1), (MatTranspose, 1), (TtFromUt1, 1), (TtFromTai, 1), (TaiFromUtc, 1),
        (TdbFromTt, 1), (Ut1FromTt, 1), (TimeChain, 1), (Epv, 4), (Era, 2), (Pom, 2), (C2T, 4), (C2I, 3), (Pn, 3), (PnInto, 1),
        (PnWith, 2), (Nut, 4), (PrecRate, 2), (Obl, 2), (BiasPrec, 2), (Bias, 1), (NutMat, 2), (C2IBpn, 2), (C2IBpnXy, 2),
        (C2IXys, 2), (XyBpn, 1), (C2TCio, 2), (Cio, 4), (Fund, 3),
    ];
    let c02: Vec<(K, u32)> = vec![(CalcCompute, 12), (MkCalc, 2), (DropHandle, 1), (Epv, 1), (C2T, 1), (Dat, 1), (ConvFwd, 1), (Gd360To, 1), (DefParams, 1)];
    let c03: Vec<(K, u32)> = vec![
        (MkConv, 3), (ConvInv, 6), (ConvFwd, 6), (ConvEl, 1), (GdTo360, 3), (Gd360To, 3), (Zenith, 2), (DropHandle, 1), (MkCalc, 1),
    ];
    let c04: Vec<(K, u32)> = vec![
        (DateNew, 4), (DateToJd, 4), (DateFromJd, 4), (HmsFrom, 3), (HmsTo, 2), (DhmsFrom, 3), (DhmsTo, 3), (Dat, 6),
    ];
    let render: Vec<(K, u32)> = vec![(RDate, 3), (RHms, 3), (RDhms, 3), (RGd, 3), (RGd360, 3), (RBundle, 3), (RBundleH, 3), (RResult, 3), (RErr, 2)];
    match prop {
        "C01" => c01,
        "C02" => c02,
        "C03" => c03,
        "C04" => c04,
        "C06" => render,
        "C07" => {
            let mut v = render.clone();
            v.extend_from_slice(&[(PnDebug, 1), (HmsFrom, 1), (DhmsFrom, 1), (GdTo360, 1), (Anp, 1), (DateNew, 1), (Dat, 1)]);
            v
        }
        _ => {
            let mut v = c01;
            v.extend(c02);
            v.extend(c03);
            v.extend(c04);
            v.extend(render);
            v.push((PnDebug, 1));
            v.sort();
            v.dedup_by_key(|x| x.0);
            v
        }
    }
}

/// The operations a property is about; None: all of them.
pub fn own_kinds(prop: &str) -> Option<Vec<K>> {
    let not: &[K] = match prop {
        "C01" | "C04" => &[],
        "C02" => &[K::Epv, K::C2T, K::Dat, K::ConvFwd, K::Gd360To],
        "C03" => &[K::MkCalc],
        "C07" => &[K::HmsFrom, K::DhmsFrom, K::GdTo360, K::Anp, K::DateNew, K::Dat],
        _ => return None,
    };
    Some(kinds_of(prop).into_iter().map(|k| k.0).filter(|k| !not.contains(k)).collect())
}

/// Rough cost of an operation (for sizing runs).
pub fn cost(k: K) -> u32 {
    match k {
        K::Epv => 12,
        K::C2T | K::C2I | K::Pn | K::PnInto | K::Nut | K::PnDebug => 8,
        K::CalcCompute | K::RBundle | K::RBundleH => 20,
        _ => 1,
    }
}

/// Restricts a batch to some kinds of operation (--only; for investigations).
pub static ONLY: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

/// Operations that could share something.
const GROUPS: &[&[K]] = {
    use K::*;
    &[
        &[TtFromUt1, TtFromTai, TaiFromUtc, TdbFromTt, Ut1FromTt, TimeChain, Era, Dat],
        &[Nut, PrecRate, Obl, BiasPrec, Bias, NutMat, Pn, PnInto, PnWith, PnDebug],
        &[C2T, C2I, Pn, C2IBpn, C2IBpnXy, C2IXys, XyBpn, C2TCio, Cio, Pom, Era],
        &[Cio, Fund, C2IBpnXy, C2IBpn, Nut],
        &[Epv, Era, Pom, MatRotation, C2T],
        &[Anp, VecNorm, VecNormalize, VecScale, VecAdd, VecSub, VecNeg, VecDot, VecAngle, Prim],
        &[MatRotation, MatCompose, MatApply, MatTranspose, Pom, NutMat, C2IXys, C2TCio],
        &[CalcCompute, MkCalc, DropHandle, RBundle, RBundleH, RResult, DefParams],
        &[CalcCompute, MkCalc, Epv, C2T, Dat, Era, TimeChain, VecAngle],
        &[MkConv, ConvInv, ConvFwd, ConvEl, DropHandle],
        &[GdTo360, Gd360To, Zenith, ConvFwd, ConvInv, RGd, RGd360],
        &[DateNew, DateToJd, DateFromJd, DhmsFrom, DhmsTo, Dat, RDate],
        &[HmsFrom, HmsTo, DhmsFrom, DhmsTo, RHms, RDhms],
        &[RDate, RHms, RDhms, RErr],
        &[RGd, RGd360, RBundle, RBundleH, RResult],
    ]
};

fn pick_kinds(prop: &str, r: &mut Rng) -> Vec<K> {
    let mut all = kinds_of(prop);
    if let Some(o) = ONLY.get() {
        all.retain(|k| o.iter().any(|n| *n == format!("{:?}", k.0)));
    }
    if r.chance(0.4) {
        // one part of the library, densely
        let g = *r.pick(GROUPS);
        let some: Vec<(K, u32)> = all.iter().filter(|k| g.contains(&k.0)).cloned().collect();
        if some.len() >= 2 {
            all = some;
        }
    }
    let n = match r.below(6) {
        0 => 1,
        1 | 2 => 2,
        3 => 3,
        4 => 5,
        _ => all.len(),
    };
    if n >= all.len() {
        return all.iter().flat_map(|(k, w)| std::iter::repeat(*k).take(*w as usize)).collect();
    }
    let total: u64 = all.iter().map(|x| x.1 as u64).sum();
    let mut v = vec![];
    for _ in 0..n {
        let mut x = r.below(total);
        for (k, w) in &all {
            if x < *w as u64 {
                v.push(*k);
                break;
            }
            x -= *w as u64;
        }
    }
    v
}

fn is_conv(k: K) -> bool {
    matches!(k, K::ConvInv | K::ConvFwd | K::ConvEl)
}

/// Converters first, calculators after them.
fn gen_specs(p: &Pool, r: &mut Rng) -> Vec<Spec> {
    let few = |r: &mut Rng| if r.chance(0.75) { 2 } else { 1 + r.below(9) };
    let mut v: Vec<Spec> = vec![];
    for calc in [false, true] {
        let lo = v.len();
        for _ in 0..few(r) {
            let s = if v.len() > lo && r.chance(0.5) {
                let n = lo + r.below((v.len() - lo) as u64) as usize;
                gen::near_spec(&v[n].clone(), r)
            } else if calc {
                gen::calc_spec(p, r)
            } else {
                gen::conv_spec(r)
            };
            v.push(s);
        }
    }
    v
}

pub fn gen_href(k: K, specs: &[Spec], r: &mut Rng) -> Href {
    let nc = specs.iter().filter(|s| matches!(s, Spec::Conv { .. })).count() as u64;
    let all = specs.len() as u64;
    let n = match k {
        _ if is_conv(k) => r.below(nc) as u32,
        K::CalcCompute | K::RBundleH => (nc + r.below(all - nc)) as u32,
        K::DropHandle => return Href::Own(r.below(all) as u32),
        _ => return Href::None,
    };
    match r.below(5) {
        0 | 1 | 2 => Href::Shared(n),
        3 => Href::Own(n),
        _ => Href::Fresh(n),
    }
}

fn gen_ops(specs: &[Spec], kinds: &[K], p: &Pool, n: usize, r: &mut Rng) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    while v.len() < n {
        if !v.is_empty() && r.chance(0.55) {
            // a near-duplicate of an existing operation
            let mut o = r.pick(&v).clone();
            if matches!(o.h, Href::None) || r.chance(0.6) {
                gen::mutate(o.k, &mut o.f, &mut o.i, r, p);
            } else {
                o.h = gen_href(o.k, specs, r);
            }
            v.push(o);
            continue;
        }
        let k = *r.pick(kinds);
        let (f, i) = gen::args(k, p, r);
        v.push(Op { k, f, i, h: gen_href(k, specs, r), sink: SinkPlan::default(), amb: None, unwind: None, mute: false });
    }
    v
}

/// A sink that takes everything, but in its own manner.
pub fn benign_sink(r: &mut Rng) -> SinkPlan {
    let mut s = SinkPlan { wrap: gen_wrap(r), ..Default::default() };
    if r.chance(0.25) {
        s.style = simcore::sink::style(r);
    }
    if s.wrap != Wrap::Fmt {
        for _ in 0..r.below(4) {
            let at = FRAC | r.u64() as u32;
            let f = match r.below(2) {
                0 => SinkFault::Short(r.below(6) as u32),
                _ => SinkFault::Intr,
            };
            s.faults.push((at, f));
        }
    }
    if r.chance(0.3) {
        s.faults.push((FRAC | r.u64() as u32, SinkFault::Slow(1 + r.below(1_000_000))));
    }
    s
}

fn gen_wrap(r: &mut Rng) -> Wrap {
    match r.below(6) {
        0 | 1 => Wrap::Fmt,
        2 | 3 => Wrap::Direct,
        4 => Wrap::Buf(*r.pick(&[0, 1, 7, 16, 64, 1024, 8192])),
        _ => Wrap::Line(*r.pick(&[1, 16, 64, 1024])),
    }
}

/// A sink that fails.
pub fn failing_sink(r: &mut Rng, panics: f64) -> SinkPlan {
    let mut s = benign_sink(r);
    s.sticky = r.chance(0.5);
    if r.chance(panics) {
        s.faults.push((FRAC | r.u64() as u32, SinkFault::Panic));
        return s;
    }
    let at = FRAC | r.u64() as u32;
    match r.below(6) {
        0 | 1 => s.faults.push((at, SinkFault::Refuse)),
        2 => s.faults.push((at, SinkFault::Partial(r.below(8) as u32))),
        3 | 4 => s.cap = Some(FRAC | r.u64() as u32),
        _ => s.faults.push((at, if s.wrap == Wrap::Fmt { SinkFault::Refuse } else { SinkFault::Block })),
    }
    s
}

fn gen_explore(r: &mut Rng, threads: usize) -> Explore {
    let mut e = Explore { seed: r.u64(), ..Default::default() };
    if threads > 1 {
        e.mean_gap = match r.below(5) {
            0 => 0.0,
            _ => (1.1 + r.f64() * 9.0).exp(),
        };
        e.p_hot = *r.pick(&[0.0, 0.05, 0.3, 0.7, 1.0]);
        e.p_boundary = *r.pick(&[0.0, 0.1, 0.5, 1.0]);
        e.p_pause = *r.pick(&[0.0, 0.0, 0.1, 0.5]);
        e.max_switches = *r.pick(&[1, 2, 3, 5, 10, 40, 400]);
        e.p_stale = *r.pick(&[0.0, 0.0, 0.1, 0.5, 1.0]);
    }
    e
}

pub fn gen_ambient(r: &mut Rng) -> Ambient {
    let mut a = Ambient::default();
    if r.chance(0.6) {
        // anything from 1970 to 2200, sometimes 0 or the last representable
        a.clock = match r.below(5) {
            0 => 1,
            1 => 7_258_118_400_000_000_000,
            _ => 1 + r.below(7_258_118_400_000_000_000),
        };
    }
    if r.chance(0.3) {
        a.jumps = r.u64() | 1;
    }
    if r.chance(0.6) {
        a.env = r.u64() | 1;
    }
    if r.chance(0.6) {
        a.rand = r.u64() | 1;
    }
    if r.chance(0.4) {
        a.files = r.u64() | 1;
    }
    if r.chance(0.6) {
        a.paint = Some(if r.chance(0.5) { *r.pick(&[0u8, 0xff, 0x7f, 0xaa, 1, 0x40]) } else { r.below(256) as u8 });
    }
    if r.chance(0.2) {
        a.mem = r.u64() | 1;
    }
    if r.chance(0.5) {
        a.place = r.u64() | 1;
    }
    a
}

fn assign_ids(threads: &mut [ThreadPlan]) {
    for (t, th) in threads.iter_mut().enumerate() {
        let mut id = (t as u32) << 20;
        for s in th.steps.iter_mut() {
            s.id = id;
            id += match s.act {
                Act::Do { times, .. } => times,
                Act::Noise { count, .. } => count,
                Act::Soak { .. } => 1,
            };
        }
    }
}
fn st(act: Act) -> Step {
    Step { id: 0, act }
}

fn sprinkle_panics(ops: &mut [Op], p: &Pool, r: &mut Rng, prob: f64) {
    let mut q = 0;
    for o in ops.iter_mut() {
        if r.chance(prob) || (q == 0 && r.chance(0.5)) {
            if o.k.is_render() && r.chance(0.6) {
                o.sink = failing_sink(r, 1.0);
            } else {
                let k = *r.pick(&[K::MatRotation, K::DateToJd, K::MkCalc, K::RBundle, K::DateFromJd, K::RDate, K::RDhms, K::DhmsTo]);
                let mut pp = Pool { panicky: 1.0, ..clone_pool(p) };
                pp.reject = 0.0;
                let (f, i) = gen::args(k, &pp, r);
                *o = Op { k, f, i, h: Href::None, sink: SinkPlan::default(), amb: None, unwind: None, mute: false };
                if k.is_render() && r.chance(0.7) {
                    o.sink = failing_sink(r, 1.0);
                }
            }
            q += 1;
        }
    }
}

pub fn clone_pool(p: &Pool) -> Pool {
    Pool {
        jd: p.jd.clone(),
        split: p.split.clone(),
        angle: p.angle.clone(),
        small: p.small.clone(),
        vec: p.vec.clone(),
        mat: p.mat.clone(),
        date: p.date.clone(),
        frac: p.frac.clone(),
        lat: p.lat.clone(),
        lon: p.lon.clone(),
        height: p.height.clone(),
        offset: p.offset.clone(),
        hms: p.hms.clone(),
        reject: p.reject,
        panicky: p.panicky,
    }
}

/// The plan of run `index` of a property's batch.
pub fn generate(prop: &str, seed: u64, index: u64) -> Plan {
    let mut r = Rng::sub(seed ^ simcore::rng::mix(prop.bytes().fold(7u64, |h, c| h * 131 + c as u64)), index);
    let r = &mut r;
    let mut pool = Pool::new(r);
    let mut rules = LOOSE;
    if prop == "C10" {
        pool.panicky = *r.pick(&[0.0, 0.1, 0.3]);
    } else if r.chance(0.1) {
        pool.panicky = 0.05;
    }
    if prop == "C04" && r.chance(0.5) {
        pool.reject = pool.reject.max(0.3);
    }
    let kinds = pick_kinds(prop, r);
    // the rest of the library goes on around what the property is about
    let own = own_kinds(prop);
    let mut foreign: Vec<K> = vec![];
    if let (Some(own), true) = (&own, ONLY.get().is_none() && r.chance(0.25)) {
        let dear = r.chance(0.45);
        let rest: Vec<K> = KINDS.iter().cloned().filter(|k| !own.contains(k) && *k != K::DropHandle && (dear || cost(*k) <= 5)).collect();
        let some: Vec<K> = (0..1 + r.below(6)).map(|_| *r.pick(&rest)).collect();
        foreign = (0..2 + r.below(9)).map(|_| *r.pick(&some)).collect();
    }
    let heavy = kinds.iter().chain(foreign.iter()).map(|k| cost(*k)).max().unwrap_or(1);
    let specs = gen_specs(&pool, r);

    // ---- shape of the run
    let style = match prop {
        "C06" => *r.pick(&["single", "single", "single", "single", "single", "short", "short", "threads"]),
        "C09" => *r.pick(&["single", "single", "single", "short", "short", "short", "short", "short", "short", "series"]),
        "C11" => "soak",
        "C05" => *r.pick(&["threads", "threads", "threads", "threads", "convoy", "convoy", "convoy", "convoy", "lockstep", "noise", "noise", "series", "long", "crowd"]),
        "C10" => *r.pick(&["short", "short", "threads", "threads", "threads", "threads", "respawn", "respawn", "respawn", "long", "noise", "crowd", "lockstep", "series"]),
        _ => *r.pick(&[
            "short", "short", "short", "short", "threads", "threads", "threads", "threads", "threads", "threads", "threads", "threads",
            "respawn", "respawn", "long", "long", "noise", "noise", "many", "many", "crowd", "lockstep", "series", "series",
        ]),
    };
    // a few histories are longer than 2^16 calls
    let style = if index % (if heavy > 8 { 2000 } else { 200 }) == 199 && matches!(style, "short" | "threads" | "long" | "noise" | "many" | "respawn") {
        "epoch"
    } else {
        style
    };
    let nops = match style {
        "single" => 1,
        "many" => 30 + r.below(if heavy > 5 { 40 } else { 120 }) as usize,
        "soak" => 3 + r.below(8) as usize,
        _ => 2 + r.below(9) as usize,
    };
    let mut ops = gen_ops(&specs, &kinds, &pool, nops, r);
    if let Some(own) = &own {
        for o in ops.iter_mut() {
            o.mute = !own.contains(&o.k);
        }
    }
    if style != "series" {
        let reject = pool.reject;
        pool.reject = pool.reject.max(*r.pick(&[0.0, 0.2, 0.5]));
        for k in foreign {
            let (f, i) = gen::args(k, &pool, r);
            let at = r.below(ops.len() as u64 + 1) as usize;
            ops.insert(at, Op { k, f, i, h: gen_href(k, &specs, r), sink: SinkPlan::default(), amb: None, unwind: None, mute: true });
        }
        pool.reject = reject;
    }
    if style == "series" {
        // each of a few calls again and again, one argument advancing
        ops.truncate(1 + r.below(3) as usize);
        let n = if heavy > 5 { 6 + r.below(20) } else { 10 + r.below(50) } as usize;
        let mut v = vec![];
        for base in &ops {
            let mut s = Sweep::new(base, r);
            for _ in 0..n / ops.len() {
                v.push(s.next());
            }
        }
        ops = v;
    }

    // ---- sinks
    for o in ops.iter_mut() {
        if !o.k.is_render() {
            continue;
        }
        o.sink = match prop {
            "C06" => {
                if r.chance(0.75) {
                    failing_sink(r, 0.0)
                } else {
                    benign_sink(r)
                }
            }
            "C07" => match r.below(5) {
                0 => failing_sink(r, 0.3),
                1 => failing_sink(r, 0.9),
                _ => benign_sink(r),
            },
            "C10" => {
                if r.chance(0.4) {
                    failing_sink(r, 0.9)
                } else {
                    benign_sink(r)
                }
            }
            "C11" => match r.below(3) {
                0 => failing_sink(r, 0.1),
                1 => failing_sink(r, 0.8),
                _ => benign_sink(r),
            },
            _ => {
                if r.chance(0.15) {
                    failing_sink(r, 0.3)
                } else {
                    benign_sink(r)
                }
            }
        };
    }
    if prop == "C10" {
        let q = *r.pick(&[0.15, 0.3, 0.5]);
        sprinkle_panics(&mut ops, &pool, r, q);
    }
    if prop == "C11" && r.chance(0.3) {
        sprinkle_panics(&mut ops, &pool, r, 0.1);
    }
    // ---- operations performed by a sink
    let pn = match prop {
        "C07" => 0.4,
        "C06" => 0.1,
        "C05" | "C10" => 0.2,
        _ => 0.0,
    };
    if pn > 0.0 {
        for a in 0..ops.len() {
            if ops[a].k.is_render() && r.chance(pn) {
                for _ in 0..1 + r.below(2) {
                    let b = r.below(ops.len() as u64) as usize;
                    if ops[b].sink.nested.is_empty() && ops[b].k != K::DropHandle && a != b {
                        ops[a].sink.nested.push((FRAC | r.u64() as u32, b as u32));
                    }
                }
            }
        }
        // nesting is one level deep
        let with: Vec<usize> = (0..ops.len()).filter(|&i| !ops[i].sink.nested.is_empty()).collect();
        for a in 0..ops.len() {
            ops[a].sink.nested.retain(|x| !with.contains(&(x.1 as usize)));
        }
    }
    // inside a nested operation there are no own handles
    for o in ops.iter_mut() {
        if let Href::Own(n) = o.h {
            if pn > 0.0 && o.k != K::DropHandle {
                o.h = Href::Shared(n);
            }
        }
    }
    if prop == "C09" {
        for o in ops.iter_mut() {
            o.amb = Some(gen_ambient(r));
        }
    }
    // ---- calls made while a panic unwinds
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C07" | "C10") && r.chance(if prop == "C10" { 0.5 } else { 0.15 }) {
        for a in 0..ops.len() {
            if r.chance(0.5) {
                let b = r.below(ops.len() as u64) as usize;
                if a != b && ops[b].k != K::DropHandle && ops[b].sink.nested.is_empty() {
                    if let Href::Own(n) = ops[b].h {
                        ops[b].h = Href::Shared(n);
                    }
                    ops[a].unwind = Some(b as u32);
                }
            }
        }
    }

    // ---- nothing is shared: the last handle of a kind can be dropped
    if r.chance(0.25) {
        for k in 0..ops.len() {
            if let Href::Shared(n) = ops[k].h {
                let aside = ops.iter().any(|o| o.unwind == Some(k as u32) || o.sink.nested.iter().any(|x| x.1 == k as u32));
                ops[k].h = if pn > 0.0 || aside || r.chance(0.6) { Href::Fresh(n) } else { Href::Own(n) };
            }
        }
    }

    // ---- threads
    let n = ops.len() as u64;
    let seq = |r: &mut Rng, len: u64, rep: bool| -> Vec<Step> {
        let mut v = vec![];
        for _ in 0..len {
            let times = if rep && r.chance(0.15) { 1 + r.below(4) as u32 } else { 1 };
            v.push(st(Act::Do { op: r.below(n) as u32, times }));
        }
        v
    };
    let mut threads: Vec<ThreadPlan> = vec![];
    match style {
        "single" => threads.push(ThreadPlan { after: None, freeze: None, farewell: None, name: None, steps: vec![st(Act::Do { op: 0, times: 1 })] }),
        "short" => {
            let len = 2 + r.below(14);
            threads.push(ThreadPlan { after: None, freeze: None, farewell: None, name: None, steps: seq(r, len, true) })
        }
        "threads" => {
            let t = 2 + r.below(3);
            for _ in 0..t {
                let most = if r.chance(0.7) { 4 } else { 12 };
                let len = 1 + r.below(most);
                threads.push(ThreadPlan { after: None, freeze: None, farewell: None, name: None, steps: seq(r, len, false) });
            }
        }
        "crowd" => {
            let t = 8 + r.below(17) as usize;
            for a in 0..t {
                let after = if a > 0 && r.chance(0.15) { Some(r.below(a as u64) as usize) } else { None };
                let len = 1 + r.below(3);
                threads.push(ThreadPlan { after, freeze: None, farewell: None, name: None, steps: seq(r, len, false) });
            }
        }
        "convoy" => {
            // several callers stop for ever inside a call; one goes on
            let t = *r.pick(&[1u64, 1, 1, 2, 3, 4, 5, 8, 12, 20]) as usize;
            let same = r.chance(0.6);
            let victim = r.below(n) as u32;
            let at = (r.u64() as u32) & !FRAC;
            for a in 0..t {
                let mut steps = if a == 0 && r.chance(0.4) { seq(r, 3, false) } else { vec![] };
                let op = if same { victim } else { r.below(n) as u32 };
                steps.push(st(Act::Do { op, times: 1 }));
                let f = if same && r.chance(0.8) { at } else { (r.u64() as u32) & !FRAC };
                let after = if a > 0 { Some(a - 1) } else { None };
                threads.push(ThreadPlan { after, freeze: Some((steps.len() as u32 - 1, f)), farewell: None, name: None, steps });
            }
            let mut steps: Vec<Step> = if same { vec![st(Act::Do { op: victim, times: 1 })] } else { vec![] };
            steps.extend((0..n as u32).map(|op| st(Act::Do { op, times: 1 })));
            threads.push(ThreadPlan { after: Some(t - 1), freeze: None, farewell: None, name: None, steps });
        }
        "lockstep" => {
            let a = seq(r, if heavy > 5 { 1 } else { 3 }, false);
            threads.push(ThreadPlan { after: None, freeze: None, farewell: None, name: None, steps: a });
            let times = if heavy > 5 { 60 } else { 1500 };
            let mut b: Vec<Step> = vec![];
            for _ in 0..1 + r.below(3) {
                b.push(st(Act::Do { op: r.below(n) as u32, times: 1 + r.below(times) as u32 }));
            }
            threads.push(ThreadPlan { after: None, freeze: None, farewell: None, name: None, steps: b });
        }
        "respawn" => {
            let t = 3 + r.below(4) as usize;
            for a in 0..t {
                let after = if a > 0 && r.chance(0.7) { Some(r.below(a as u64) as usize) } else { None };
                let len = 1 + r.below(5);
                threads.push(ThreadPlan { after, freeze: None, farewell: None, name: None, steps: seq(r, len, false) });
            }
        }
        "long" => {
            let budget = if heavy > 5 { 1500 } else { 20000 };
            let mut v = seq(r, 4, false);
            for _ in 0..1 + r.below(3) {
                let times = *r.pick(&[10u64, 70, 130, 260, 300, 600, 1100, 5000, 20000]);
                v.push(st(Act::Do { op: r.below(n) as u32, times: times.min(budget) as u32 }));
                v.extend(seq(r, 3, false));
            }
            threads.push(ThreadPlan { after: None, freeze: None, farewell: None, name: None, steps: v });
        }
        "epoch" => {
            let mut v = seq(r, 3, false);
            let count = 65_000 + r.below(2_000) as u32;
            if r.chance(0.6) {
                v.push(st(Act::Do { op: r.below(n) as u32, times: count }));
            } else {
                v.push(st(Act::Noise { seed: r.u64(), count, panicky: false, fresh: r.chance(0.5), churn: 0, sweep: r.chance(0.4) }));
            }
            for op in 0..n as u32 {
                v.push(st(Act::Do { op, times: if r.chance(0.3) { 600 } else { 1 } }));
            }
            threads.push(ThreadPlan { after: None, freeze: None, farewell: None, name: None, steps: v });
        }
        "noise" => {
            let budget = if heavy > 5 { 700 } else { 16000 };
            // often some operations are kept for after the noise, so that they
            // are new to whatever remembers
            let kept = if r.chance(0.6) { 1 + r.below(n - 1) } else { 0 };
            let pick = |r: &mut Rng, len: u64, lo: u64| -> Vec<Step> {
                (0..len).map(|_| st(Act::Do { op: (lo + r.below(n - lo)) as u32, times: 1 })).collect()
            };
            let mut v: Vec<Step> = (0..3).map(|_| st(Act::Do { op: r.below(n - kept) as u32, times: 1 })).collect();
            let two = r.chance(0.3);
            let churn = if !two && r.chance(0.25) { 1 + r.below(6) as u32 } else { 0 };
            let budget = if churn > 0 { budget.min(300 * churn as u64) } else { budget };
            for _ in 0..1 + r.below(3) {
                let c = *r.pick(&[20u64, 100, 300, 1000, 4000, 16000]);
                v.push(st(Act::Noise { seed: r.u64(), count: c.min(budget) as u32, panicky: r.chance(if prop == "C10" { 0.7 } else { 0.1 }), fresh: kept > 0 && r.chance(0.7), churn, sweep: r.chance(0.25) }));
                let lo = if kept > 0 && r.chance(0.7) { n - kept } else { 0 };
                v.extend(pick(r, 4, lo));
            }
            threads.push(ThreadPlan { after: None, freeze: None, farewell: None, name: None, steps: v });
            if two {
                let len = 2 + r.below(6);
                threads.push(ThreadPlan { after: None, freeze: None, farewell: None, name: None, steps: seq(r, len, false) });
            }
        }
        "many" => {
            // every operation, in some order, then again in another
            let mut v = vec![];
            for _ in 0..2 {
                let mut o: Vec<u32> = (0..n as u32).collect();
                for a in (1..o.len()).rev() {
                    let z = r.below(a as u64 + 1) as usize;
                    o.swap(a, z);
                }
                v.extend(o.into_iter().map(|op| st(Act::Do { op, times: 1 })));
            }
            threads.push(ThreadPlan { after: None, freeze: None, farewell: None, name: None, steps: v });
        }
        "series" => {
            let t = *r.pick(&[1u64, 1, 1, 2, 3]);
            for _ in 0..t {
                let mut v: Vec<Step> = vec![];
                for _ in 0..1 + r.below(2) {
                    let part = if r.chance(0.3) { r.below(n) as u32 } else { 0 };
                    let mut o: Vec<u32> = (part..n as u32).collect();
                    if r.chance(0.25) {
                        o.reverse();
                    }
                    if r.chance(0.15) {
                        // two paces at once
                        let h = o.len() / 2;
                        o = (0..h).flat_map(|k| [o[k], o[h + k]]).collect();
                    }
                    v.extend(o.into_iter().map(|op| st(Act::Do { op, times: 1 })));
                }
                threads.push(ThreadPlan { after: None, freeze: None, farewell: None, name: None, steps: v });
            }
        }
        "soak" => {
            let phase = if heavy > 5 { 60 } else { 400 };
            let mut v = vec![];
            v.push(st(Act::Soak { seed: r.u64(), phase: phase * (1 + r.below(3) as u32), bound: 256 * 1024, max_steps: 1_500_000_000, churn: if r.chance(0.2) { 1 + r.below(12) as u32 } else { 0 } }));
            threads.push(ThreadPlan { after: None, freeze: None, farewell: None, name: None, steps: v });
        }
        _ => unreachable!(),
    }
    let mut explore = gen_explore(r, threads.len());
    match style {
        "convoy" => {
            // nothing else happens, or everything does
            if r.chance(0.7) {
                explore = Explore { seed: explore.seed, ..Default::default() };
            }
        }
        "lockstep" => {
            explore.lockstep = *r.pick(&[1, 1, 1, 2, 3, 10, 40]);
            explore.max_switches = 3000;
            explore.p_pause = 0.0;
        }
        _ => (),
    }
    match prop {
        "C05" => {
            explore.p_stale = 0.0;
            rules = Rules { values: false, text: false, sink: false, mul: 3, add: 500 };
            if threads.len() > 1 && !matches!(style, "convoy" | "lockstep") {
                explore.p_freeze = *r.pick(&[0.05, 0.3, 1.0]);
                explore.max_freeze = 1 + r.below(threads.len() as u64 - 1) as u32;
                explore.max_switches = explore.max_switches.max(2);
                if explore.mean_gap == 0.0 && explore.p_hot == 0.0 {
                    explore.mean_gap = 200.0;
                }
            }
        }
        "C06" => rules = Rules { values: false, text: true, sink: true, ..LOOSE },
        "C07" => rules = Rules { values: false, ..LOOSE },
        _ => (),
    }
    if prop != "C11" && style != "convoy" {
        // a stopped thread must not keep others from ending
        for t in threads.iter_mut() {
            if r.chance(0.06) {
                let op = r.below(n) as u32;
                let o = &ops[op as usize];
                if !matches!(o.h, Href::Own(_)) && o.sink.nested.is_empty() {
                    t.farewell = Some((op, r.chance(0.7)));
                }
            }
        }
    }
    for t in threads.iter_mut() {
        if r.chance(0.3) {
            let n = r.below(1000);
            t.name = Some(r.pick(&["main".to_string(), format!("worker-{}", n % 16), "tokio-runtime-worker".into(), format!("{}", n), "".into(), "\u{2609} angle of a long-named thread".into()]).clone());
        }
    }
    assign_ids(&mut threads);
    Plan { style: style.into(), specs, ops, threads, explore, rules }
}

/// One call, again and again, one of its arguments advancing by a fixed step.
pub struct Sweep {
    op: Op,
    j: usize,
    df: f64,
    di: i64,
}
impl Sweep {
    pub fn new(base: &Op, r: &mut Rng) -> Sweep {
        let n = base.f.len() + base.i.len();
        let j = if n > 0 { r.below(n as u64) as usize } else { 0 };
        let df = *r.pick(&[
            1.0, 1.0, 1.0, 0.5, 0.1, 0.25, 7.0, 30.0, 365.25, 36525.0, 1000.0, 1.0 / 24.0, 1.0 / 1440.0, 1.0 / 86400.0, 1e-3, 1e-9, 0.017453292519943295,
        ]);
        let di = *r.pick(&[1i64, 1, 1, 2, 4, 7, 12, 100]);
        let s = if r.chance(0.3) { -1 } else { 1 };
        Sweep { op: base.clone(), j, df: df * s as f64, di: di * s }
    }
    pub fn next(&mut self) -> Op {
        let o = self.op.clone();
        let (j, n) = (self.j, self.op.f.len());
        if j < n {
            self.op.f[j] = (f64::from_bits(self.op.f[j]) + self.df).to_bits();
        } else if j - n < self.op.i.len() {
            self.op.i[j - n] += self.di;
        }
        gen::guard(o.k, &mut self.op.f, &mut self.op.i);
        o
    }
}

/// A generated call for histories: same kinds and neighbourhoods.
pub struct NoiseGen {
    pool: Pool,
    r: Rng,
    panicky: bool,
    pub fresh: bool,
    pub sweep: bool,
    going: Option<Sweep>,
}
impl NoiseGen {
    pub fn new(seed: u64, panicky: bool) -> NoiseGen {
        let mut r = Rng::new(seed);
        let mut pool = Pool::new(&mut r);
        if panicky {
            pool.panicky = 0.05;
        }
        NoiseGen { pool, r, panicky, fresh: false, sweep: false, going: None }
    }
    pub fn next(&mut self, ops: &[Op]) -> Op {
        if let Some(s) = &mut self.going {
            if !self.r.chance(0.0005) {
                return s.next();
            }
            self.going = None;
        }
        let o = self.call(ops);
        if self.sweep && o.k != K::DropHandle {
            self.going = Some(Sweep::new(&o, &mut self.r));
        }
        o
    }
    fn call(&mut self, ops: &[Op]) -> Op {
        let r = &mut self.r;
        if r.chance(0.02) {
            // new neighbourhoods now and then
            self.pool = Pool::new(r);
            if self.panicky {
                self.pool.panicky = 0.05;
            }
        }
        let t = r.pick(ops).clone();
        let mut o = t.clone();
        if self.fresh || !r.chance(0.3) {
            let (f, i) = gen::args(o.k, &self.pool, r);
            o.f = f;
            o.i = i;
        }
        let (pool, k) = (&self.pool, o.k);
        gen::mutate(k, &mut o.f, &mut o.i, r, pool);
        if k.needs_handle() {
            if let Href::Own(n) = o.h {
                if k != K::DropHandle {
                    o.h = if ops.iter().any(|o| o.h == Href::Shared(n)) { Href::Shared(n) } else { Href::Fresh(n) }
                }
            } else if r.chance(0.2) {
                if let Href::Shared(n) = o.h {
                    o.h = Href::Fresh(n)
                }
            }
        }
        o.sink.nested.clear();
        o.unwind = None;
        // positions stay what they were resolved to
        o
    }
}

pub fn all_kinds() -> usize {
    KINDS.len()
}
