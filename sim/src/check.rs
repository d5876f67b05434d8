//! Batches: workers, verdict, minimised replay file, evidence.
use crate::minimise::{minimise, Found};
use crate::plan::{self, Plan};
use crate::sim::{self, Oracle, Shm, Stats};
use crate::tools::{self, ToolPlan, ToolStats, Tools};
use serde::{Deserialize, Serialize};
use serde_json::json;
use simcore::rng::mix;
use simcore::rt::{self, Event, Violation};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Lib { plan: Plan, events: Option<Vec<Event>> },
    Tool { plan: ToolPlan },
    /// The type cannot be shared by reference between threads.
    Shareable { what: String },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub violation: Violation,
    pub summary: Vec<String>,
    pub case: Case,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct WorkerOut {
    runs: u64,
    nontrivial: u64,
    stats: Stats,
    tool: ToolStats,
    styles: BTreeMap<String, u64>,
    kinds: BTreeMap<String, u64>,
    oracle_forks: u64,
    oracle_hits: u64,
    found: Option<(u64, Replay)>,
}

/// Runs of a batch: quick, thorough.
fn runs(prop: &str) -> (u64, u64) {
    let quick = match prop {
        "C01" => 24_000,
        "C02" => 6_000,
        "C03" => 30_000,
        "C04" => 30_000,
        "C05" => 24_000,
        "C06" => 40_000,
        "C07" => 12_000,
        "C08" => 50_000,
        "C09" => 50_000,
        "C10" => 24_000,
        _ => 5_000,
    };
    (quick, quick * 30)
}

fn is_tool(prop: &str, index: u64) -> bool {
    prop == "C08" || (prop == "C09" && index % 4 == 3)
}

fn hash_bytes(b: &[u8]) -> u64 {
    mix(b.iter().fold(0xcbf29ce484222325u64, |h, c| (h ^ *c as u64).wrapping_mul(0x100000001b3)))
}

fn table(n: u64) -> &'static [AtomicU64] {
    let len = (n as usize).max(1) * 8;
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        )
    };
    if p == libc::MAP_FAILED {
        crate::harness_error("mmap");
    }
    unsafe { std::slice::from_raw_parts(p as *const AtomicU64, n.max(1) as usize) }
}

fn describe(plan: &Plan, v: &Violation) -> Vec<String> {
    let mut s = vec![format!("{}: {}", v.class, v.msg)];
    for (n, x) in plan.specs.iter().enumerate() {
        let noise = plan.threads.iter().any(|t| t.steps.iter().any(|s| !matches!(s.act, plan::Act::Do { .. })));
        let used = plan.ops.iter().any(|o| matches!(o.h, simops::Href::Shared(k) | simops::Href::Own(k) | simops::Href::Fresh(k) if k as usize == n));
        if !used && !noise {
            continue;
        }
        let t = match x {
            simops::Spec::Conv { a, f } => format!("converter a={:?} f={:?}", f64::from_bits(*a), f64::from_bits(*f)),
            simops::Spec::Calc { f, i } => format!("calculator lat,lon,height,second={:?} date,hour,minute={:?}", f.map(f64::from_bits), i),
        };
        s.push(format!("handle {}: {}", n, t));
    }
    for (n, o) in plan.ops.iter().enumerate() {
        let mut t = format!("operation {}: {}", n, o.describe());
        if o.k.is_render() {
            let k = &o.sink;
            t += &format!(" to {:?} sink", k.wrap);
            if !k.faults.is_empty() {
                t += &format!(", faults (write, what) {:?}", k.faults);
            }
            if let Some(c) = k.cap {
                t += &format!(", full at {} bytes", c);
            }
            if !k.nested.is_empty() {
                t += &format!(", performing (at write, operation) {:?}", k.nested);
            }
        }
        if let Some(u) = o.unwind {
            t += &format!(", operation {} while it unwinds", u);
        }
        if let Some(a) = &o.amb {
            t += &format!(", surroundings {:?}", a);
        }
        s.push(t);
    }
    for (n, t) in plan.threads.iter().enumerate() {
        if !t.steps.is_empty() || t.farewell.is_some() {
            let v: Vec<String> = t.steps.iter().map(|s| format!("#{:x} {:?}", s.id, s.act)).collect();
            let mut l = format!("thread {}{}: {}", n, t.after.map_or(String::new(), |a| format!(" (after {})", a)), v.join("; "));
            if let Some(n) = &t.name {
                l += &format!("; named {:?}", n);
            }
            if let Some((at, part)) = t.freeze {
                l += &format!("; stops for ever in its step {} after {:.3} of it", at, part as f64 / (1u64 << 31) as f64);
            }
            if let Some((op, late)) = t.farewell {
                l += &format!("; operation {} as it ends, {} the library's thread-local destructors", op, if late { "after" } else { "before" });
            }
            s.push(l);
        }
    }
    s
}

struct Batch {
    prop: String,
    seed: u64,
    from: u64,
    n: u64,
    workers: u64,
    hashes: &'static [AtomicU64],
    logs: &'static [AtomicU64],
    best: &'static [AtomicU64],
}

fn nontrivial(prop: &str, plan: &Plan, s: &Stats) -> bool {
    match prop {
        "C06" => s.fired[..7].iter().any(|x| *x > 0),
        "C09" => s.ambient > 0,
        "C11" => s.noise > 0,
        "C05" => s.freezes > 0 || s.ops > 20,
        "C10" => s.panics > 0 && s.compared > 1,
        _ => s.switches > 0 || s.ops > 1 || plan.threads.len() > 1,
    }
}

fn worker(b: &Batch, w: u64, out: &Shm) {
    sim::init_results();
    let mut oracle = Oracle::new();
    let mut tools = Tools::new();
    let mut r = WorkerOut::default();
    let mut i = b.from + w;
    while i < b.from + b.n {
        if i > b.best[0].load(SeqCst) {
            break;
        }
        let slot = (i - b.from) as usize;
        r.runs += 1;
        if is_tool(&b.prop, i) {
            let mut p = tools::generate(&b.prop, b.seed, i);
            let ph = hash_bytes(&serde_json::to_vec(&p).unwrap());
            *r.styles.entry(format!("tool/{}", p.kind)).or_default() += 1;
            tools.stats.hash = 0;
            let before = tools.stats.fired;
            let v = tools.run(&mut p);
            let fired = (0..8).any(|k| tools.stats.fired[k] > before[k]);
            b.logs[slot].store(mix(ph ^ tools.stats.hash) | 1, SeqCst);
            if fired || p.kind == "records" || p.kind == "surroundings" {
                r.nontrivial += 1;
                b.hashes[slot].store(ph | 1, SeqCst);
            }
            if let Some(v) = v {
                b.best[0].fetch_min(i, SeqCst);
                let rep = Replay { property: b.prop.clone(), seed: b.seed, index: i, violation: v.clone(), summary: vec![v.msg.clone()], case: Case::Tool { plan: p } };
                r.found = Some((i, rep));
                break;
            }
            i += b.workers;
            continue;
        }
        let mut p = plan::generate(&b.prop, b.seed, i);
        let exp = oracle.expect(&p);
        sim::resolve(&mut p, &exp);
        let ph = hash_bytes(&serde_json::to_vec(&p).unwrap());
        *r.styles.entry(p.style.clone()).or_default() += 1;
        for o in &p.ops {
            *r.kinds.entry(format!("{:?}", o.k)).or_default() += 1;
        }
        let res = sim::run(&p, &exp, None);
        b.logs[slot].store(mix(ph ^ mix(res.stats.hash) ^ mix(res.stats.steps ^ (res.stats.switches << 40))) | 1, SeqCst);
        if nontrivial(&b.prop, &p, &res.stats) {
            r.nontrivial += 1;
            b.hashes[slot].store(mix(ph ^ res.stats.hash) | 1, SeqCst);
        }
        r.stats.add(&res.stats);
        if let Some(v) = res.violation {
            b.best[0].fetch_min(i, SeqCst);
            let events = if res.events.is_empty() { None } else { Some(res.events) };
            let rep = Replay { property: b.prop.clone(), seed: b.seed, index: i, violation: v, summary: vec![], case: Case::Lib { plan: p, events } };
            r.found = Some((i, rep));
            break;
        }
        i += b.workers;
    }
    r.tool = tools.stats.clone();
    r.oracle_forks = oracle.forks;
    r.oracle_hits = oracle.hits;
    out.put(&serde_json::to_vec(&r).unwrap());
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|p| args.get(p + 1).cloned())
}

fn shareable_violation(prop: &str, seed: u64) -> Option<Replay> {
    let (calc, conv) = simops::shareable();
    let what = match prop {
        "C02" if !calc => "SunAngleCalculator",
        "C03" if !conv => "EllipsoidConverter",
        _ => return None,
    };
    let msg = format!("{} can no longer be shared by reference between threads", what);
    Some(Replay {
        property: prop.into(),
        seed,
        index: 0,
        violation: Violation { class: "shareable".into(), op: 0, thread: -1, step: 0, msg: msg.clone() },
        summary: vec![msg],
        case: Case::Shareable { what: what.into() },
    })
}

pub fn check(prop: &str, args: &[String]) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = arg(args, "--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    if !(1..=11).any(|k| prop == format!("C{:02}", k)) {
        eprintln!("no such property: {}", prop);
        return 2;
    }
    if let Some(o) = arg(args, "--only") {
        let _ = crate::plan::ONLY.set(o.split(',').map(|s| s.to_string()).collect());
    }
    let (q, th) = runs(prop);
    let n: u64 = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { th } else { q });
    let from: u64 = arg(args, "--from").and_then(|s| s.parse().ok()).unwrap_or(0);
    let workers: u64 = arg(args, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    println!("property={} tier={} seed={} runs={} workers={}", prop, tier, seed, n, workers);

    // reached edges, shared by all processes
    let edges = Shm::new(rt::EDGE_MAX);
    unsafe { rt::EDGES = edges.p };

    let best = table(1);
    best[0].store(u64::MAX, SeqCst);
    let b = Batch { prop: prop.into(), seed, from, n, workers, hashes: table(n), logs: table(n), best };

    let mut found: Option<Replay> = shareable_violation(prop, seed);
    let mut total = WorkerOut::default();
    if found.is_none() {
        let shms: Vec<Shm> = (0..workers).map(|_| Shm::new(sim::SHM)).collect();
        let mut pids = vec![];
        for w in 0..workers {
            unsafe {
                let pid = libc::fork();
                if pid < 0 {
                    crate::harness_error("fork");
                }
                if pid == 0 {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    worker(&b, w, &shms[w as usize]);
                    simcore::raw::exit_now(0);
                }
                pids.push(pid);
            }
        }
        let mut bad = false;
        for pid in pids {
            let mut st = 0;
            unsafe {
                while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
            }
            if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
                bad = true;
            }
        }
        if bad {
            eprintln!("HARNESS ERROR: a worker failed");
            return crate::HARNESS;
        }
        for s in &shms {
            let Some(w) = s.get().and_then(|x| serde_json::from_slice::<WorkerOut>(x).ok()) else {
                eprintln!("HARNESS ERROR: no worker result");
                return crate::HARNESS;
            };
            total.runs += w.runs;
            total.nontrivial += w.nontrivial;
            total.stats.add(&w.stats);
            total.oracle_forks += w.oracle_forks;
            total.oracle_hits += w.oracle_hits;
            total.tool.processes += w.tool.processes;
            total.tool.refusals += w.tool.refusals;
            total.tool.writes += w.tool.writes;
            total.tool.restarts += w.tool.restarts;
            total.tool.complete += w.tool.complete;
            total.tool.cut += w.tool.cut;
            for k in 0..8 {
                total.tool.fired[k] += w.tool.fired[k];
            }
            for k in 0..3 {
                total.tool.reads[k] += w.tool.reads[k];
            }
            for (k, v) in w.styles {
                *total.styles.entry(k).or_default() += v;
            }
            for (k, v) in w.kinds {
                *total.kinds.entry(k).or_default() += v;
            }
            if let Some((i, f)) = w.found {
                if total.found.as_ref().map_or(true, |x| i < x.0) {
                    total.found = Some((i, f));
                }
            }
        }
        found = total.found.take().map(|x| x.1);
    }
    if let Some(f) = arg(args, "--log") {
        let mut s = String::new();
        for (k, h) in b.logs.iter().enumerate() {
            s += &format!("{} {:016x}\n", from + k as u64, h.load(SeqCst));
        }
        if std::fs::write(&f, s).is_err() {
            return crate::HARNESS;
        }
    }
    let explored = t0.elapsed().as_secs_f64();

    let mut code = 0;
    let mut violations = 0;
    if let Some(mut f) = found {
        violations = 1;
        code = 1;
        let mut note = String::new();
        match f.case.clone() {
            Case::Lib { plan, events } => {
                sim::init_results();
                let mut oracle = Oracle::new();
                let (m, tries, ok) = minimise(&mut oracle, Found { plan, events, violation: f.violation.clone() }, 60);
                note = format!("minimised in {} runs", tries);
                if !ok {
                    note = "NOT reproduced by its recorded schedule".into();
                }
                f.summary = describe(&m.plan, &m.violation);
                f.violation = m.violation;
                f.case = Case::Lib { plan: m.plan, events: m.events };
            }
            Case::Tool { plan } => {
                let mut t = Tools::new();
                let (p, v, tries) = tools::minimise(&mut t, plan, f.violation.clone());
                note = format!("minimised in {} runs", tries);
                f.summary = vec![v.msg.clone()];
                f.violation = v;
                f.case = Case::Tool { plan: p };
            }
            Case::Shareable { .. } => (),
        }
        let dir = std::env::var("SIM_REPLAYS").unwrap_or_else(|_| "/verif/replays".into());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-{}.json", dir, prop, seed, f.index);
        if std::fs::write(&path, serde_json::to_vec_pretty(&f).unwrap()).is_err() {
            eprintln!("HARNESS ERROR: cannot write {}", path);
            return crate::HARNESS;
        }
        for s in &f.summary {
            println!("  {}", s);
        }
        if let Case::Lib { events, .. } = &f.case {
            match events {
                Some(e) => println!("  schedule: {} decisions", e.len()),
                None => println!("  schedule: from its seed"),
            }
        }
        println!("  {}", note);
        println!("VIOLATION property={} replay={}", prop, path);
    }

    // ---- evidence
    let mut distinct: HashSet<u64> = HashSet::new();
    for h in b.hashes.iter() {
        let h = h.load(SeqCst);
        if h != 0 {
            distinct.insert(h);
        }
    }
    let reached = (1..rt::EDGE_MAX).filter(|&k| unsafe { *edges.p.add(k) } != 0).count();
    if let Some(path) = arg(args, "--edges") {
        // for addr2line: reached or not, address in the executable
        let base = {
            let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
            maps.lines().next().and_then(|l| usize::from_str_radix(l.split('-').next()?, 16).ok()).unwrap_or(0)
        };
        let mut t = String::new();
        let mut k = 0;
        for &(lo, hi) in unsafe { &*std::ptr::addr_of!(rt::PCS) } {
            for e in (lo..hi).step_by(16) {
                k += 1;
                let (pc, flags) = unsafe { (*(e as *const usize), *((e + 8) as *const usize)) };
                t += &format!("{} {} 0x{:x}\n", unsafe { *edges.p.add(k) }, flags, pc.wrapping_sub(base));
            }
        }
        let _ = std::fs::write(path, t);
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut samples = vec![];
    for k in 0..3u64 {
        let i = from + k * (n / 3).max(1);
        if i >= from + n {
            break;
        }
        samples.push(if is_tool(prop, i) {
            let p = tools::generate(prop, seed, i);
            json!({"index": i, "tool": p.tool, "args": p.args, "kind": p.kind, "faults": p.shim})
        } else {
            let p = plan::generate(prop, seed, i);
            json!({"index": i, "style": p.style, "explore": p.explore,
                   "operations": p.ops.iter().map(|o| o.describe()).take(8).collect::<Vec<_>>(),
                   "threads": p.threads.iter().map(|t| t.steps.iter().map(|s| format!("{:?}", s.act)).take(8).collect::<Vec<_>>()).collect::<Vec<_>>()})
        });
    }
    let s = &total.stats;
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.runs,
            "distinct_nontrivial": distinct.len(),
            "rule": rule(prop),
            "samples": samples,
            "runs_per_hour": (total.runs as f64 / explored * 3600.0) as u64,
            "seeds_per_hour": (total.runs as f64 / explored * 3600.0) as u64,
            "run_seeds": format!("sub-seeds {}..{} of VERIF_SEED {}", from, from + total.runs, seed),
            "simulated_seconds": s.sim_ns as f64 / 1e9,
            "run_shapes": total.styles,
            "operation_kinds_in_plans": total.kinds,
            "operations_executed": s.ops,
            "operations_compared_with_fresh_process": s.compared,
            "history_operations": s.noise,
            "fresh_process_outcomes": {"computed": total.oracle_forks, "reused": total.oracle_hits},
            "simulated_threads": s.threads,
            "scheduler_steps": s.steps,
            "faults_injected": {
                "preemptions inside or between calls": s.switches,
                "threads frozen for ever": s.freezes,
                "threads paused": s.pauses,
                "sink refused": s.fired[0],
                "sink refused after part of a write": s.fired[1],
                "sink panicked": s.fired[2],
                "sink took a short write": s.fired[3],
                "sink interrupted": s.fired[4],
                "sink would block": s.fired[5],
                "sink full": s.fired[6],
                "calls made from inside a sink": s.fired[7],
                "changed surroundings": s.ambient,
                "allocation failed": s.nomem,
                "calls made while a panic unwinds": s.unwinding,
                "calls made while a thread ends": s.farewells,
                "atomic load returned an older value": s.stale,
                "tool output": (0..8).map(|k| (tools::FIRED[k].to_string(), total.tool.fired[k])).collect::<BTreeMap<_,_>>(),
            },
            "outcomes": {"panicked": s.panics, "rendering failed": s.refused, "rejected arguments": s.rejected},
            "tools": {"processes": total.tool.processes, "writes": total.tool.writes, "refusals": total.tool.refusals,
                      "restarts": total.tool.restarts, "exit 0": total.tool.complete, "other exit": total.tool.cut},
            "probes": {
                "stores to memory outside the caller's stack": s.hot,
                "waits on locks": s.futex,
                "library reads of clock/environment/randomness/files": s.reads,
                "tool reads of clock/environment/randomness": total.tool.reads,
                "library prints": s.prints,
                "heap blocks allocated by library calls": s.allocs,
                "threads that lived for a few calls": s.shortlived,
                "largest number of bytes retained by library calls": s.live
            },
            "distinct_interleavings": "distinct_nontrivial counts distinct hashes of (plan, every scheduling decision with operation, step and target)",
            "edges_reached": reached,
            "edges_total": unsafe { rt::EDGE_COUNT },
            "real_code": real_code(prop),
            "stubs": "kernel futexes, clocks, getrandom, getenv, file opening, stdout and output sinks as seen by library calls; nothing of tofas or tofas_extras",
            "nontrivial_runs": total.nontrivial,
        },
        "assumptions": [
            "x86-64, rustc -O2 with debug assertions and overflow checks; code between two instrumented basic blocks or memory accesses is atomic to the scheduler; atomic loads may return any older value the C++20 memory model allows, non-atomic accesses are sequentially consistent",
            "a process forked before any library call stands for a fresh process"
        ],
        "wall_s": wall,
        "violations": violations
    });
    let path = std::env::var("SIM_EVIDENCE").unwrap_or_else(|_| format!("/verif/evidence/{}.json", prop));
    let _ = std::fs::create_dir_all(std::path::Path::new(&path).parent().unwrap());
    if std::fs::write(&path, serde_json::to_vec_pretty(&ev).unwrap()).is_err() {
        eprintln!("HARNESS ERROR: cannot write {}", path);
        return crate::HARNESS;
    }
    println!(
        "{} runs ({} distinct non-trivial), {} operations, {} preemptions, {} steps, {}/{} edges, {:.1} s",
        total.runs,
        distinct.len(),
        s.ops,
        s.switches,
        s.steps,
        reached,
        unsafe { rt::EDGE_COUNT },
        wall
    );
    code
}

fn real_code(prop: &str) -> &'static str {
    match prop {
        "C08" => "the example binaries julian_tool and sun_angle_tool as cargo builds them, with all of tofas and tofas_extras, std and libc",
        "C09" => "all of tofas and tofas_extras, std; every fourth run the example binaries",
        _ => "all of tofas and tofas_extras, on real OS threads, with the real std",
    }
}

fn rule(prop: &str) -> String {
    let base = "run i is a pure function of (VERIF_SEED, property, i): a swarm-drawn subset of operation kinds, arguments drawn from small clusters of equal, nearly equal and partly equal values, handles, threads, faults and a seeded schedule";
    let non = match prop {
        "C05" => "a thread was frozen inside or between calls, or more than 20 calls preceded the last",
        "C06" => "at least one sink fault fired",
        "C08" => "at least one fault fired on standard output, or the run compares a scan with its records",
        "C09" => "at least one call (or tool) ran in changed surroundings",
        "C10" => "at least one call panicked and another was compared",
        "C11" => "calls were repeated until memory was flat",
        _ => "there was a preemption, or more than one operation, or more than one thread",
    };
    format!("{}; non-trivial: {}; distinct: by hash of plan and all scheduling decisions", base, non)
}

pub fn replay(path: &str) -> i32 {
    let Some(rep) = std::fs::read(path).ok().and_then(|b| serde_json::from_slice::<Replay>(&b).ok()) else {
        eprintln!("cannot read {}", path);
        return 2;
    };
    let v = match rep.case {
        Case::Lib { plan, events } => {
            sim::init_results();
            let mut o = Oracle::new();
            let exp = o.expect(&plan);
            sim::run(&plan, &exp, events).violation
        }
        Case::Tool { mut plan } => Tools::new().run(&mut plan),
        Case::Shareable { .. } => shareable_violation(&rep.property, rep.seed).map(|r| r.violation),
    };
    match v {
        Some(v) => {
            println!("  {}: {}", v.class, v.msg);
            if v.class == rep.violation.class && v.op == rep.violation.op && v.step == rep.violation.step {
                println!("  same violation at the same operation and step as recorded");
            } else {
                println!("  recorded: {} at operation {:x} step {}; now operation {:x} step {}", rep.violation.class, rep.violation.op, rep.violation.step, v.op, v.step);
            }
            println!("VIOLATION property={} replay={}", rep.property, path);
            1
        }
        None => {
            println!("no violation: property={} held in this replay", rep.property);
            0
        }
    }
}
