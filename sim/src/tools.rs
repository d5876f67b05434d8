//! Simulated runs of the real command-line tools: their standard output,
//! clock, environment and randomness belong to the preloaded shim.
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simcore::rt::Violation;
use std::collections::HashMap;
use std::fs::File;
use simops::{Op, Outcome, Spec, K};
use std::io::{Read, Write, Seek, SeekFrom};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Shim {
    pub cap: Option<u32>,
    pub sticky: bool,
    /// Fault by number of the write.
    pub faults: Vec<(u32, String)>,
    pub clock: u64,
    pub jumps: u64,
    pub env: u64,
    pub rand: u64,
    #[serde(default)]
    pub files: u64,
    /// Where the process's parts lie in memory.
    #[serde(default)]
    pub layout: u64,
    /// Real environment variables.
    pub vars: Vec<(String, String)>,
}

impl Shim {
    fn text(&self) -> String {
        let mut v = vec![];
        if let Some(c) = self.cap {
            v.push(format!("cap={}", c));
        }
        if self.sticky {
            v.push("sticky".into());
        }
        for (k, f) in &self.faults {
            v.push(format!("w{}={}", k, f));
        }
        for (n, x) in [("clock", self.clock), ("jumps", self.jumps), ("env", self.env), ("rand", self.rand), ("files", self.files)] {
            if x != 0 {
                v.push(format!("{}={}", n, x));
            }
        }
        v.join(";")
    }
    fn harmless(&self) -> bool {
        self.cap.is_none() && self.faults.iter().all(|f| f.1.starts_with("short") || f.1 == "intr")
    }
    fn kills(&self) -> bool {
        self.faults.iter().any(|f| f.1 == "kill")
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ToolPlan {
    /// output: faults on standard output; restart: a scan that is cut short and
    /// started again; records: a scan against its records one by one;
    /// surroundings: clock, environment, randomness; layout: library calls in
    /// processes that lie elsewhere in memory.
    pub kind: String,
    pub tool: String,
    pub args: Vec<String>,
    /// Scan: first offset, step, number of records.
    pub scan: Option<(i64, i64, u32)>,
    pub shim: Shim,
    /// Faults of the second process of a restart.
    pub shim2: Shim,
    /// The calls of a layout run.
    #[serde(default)]
    pub lib: Option<(Vec<Spec>, Vec<Op>)>,
}

/// A command that is placed in memory as the number says.
fn placed(path: &str, layout: u64) -> Command {
    let mut c = if layout & 1 == 1 {
        let mut c = Command::new("/lib64/ld-linux-x86-64.so.2");
        c.arg(path);
        c
    } else {
        Command::new(path)
    };
    unsafe {
        c.pre_exec(move || {
            let old = layout >> 1 & 1;
            libc::personality(libc::ADDR_NO_RANDOMIZE as libc::c_ulong | old * libc::ADDR_COMPAT_LAYOUT as libc::c_ulong);
            let lim = libc::rlimit { rlim_cur: (8 << 20) + (layout >> 2 & 0xfff) * 4096, rlim_max: libc::RLIM_INFINITY };
            if layout != 0 {
                libc::setrlimit(libc::RLIMIT_STACK, &lim);
            }
            Ok(())
        });
    }
    c
}

/// tofas-sim echo: performs calls read from standard input, each in a process
/// of its own, and prints what they give.
pub fn echo() -> i32 {
    let mut t = String::new();
    let _ = std::io::stdin().read_to_string(&mut t);
    let Ok((specs, ops)) = serde_json::from_str::<(Vec<Spec>, Vec<Op>)>(&t) else { return 2 };
    let mut oracle = crate::sim::Oracle::new();
    let v: Vec<Outcome> = ops.iter().map(|o| oracle.outcome(o, &specs)).collect();
    println!("{}", serde_json::to_string(&v).unwrap());
    0
}

#[derive(Clone, Debug)]
pub struct Out {
    pub status: i32,
    pub signal: i32,
    pub out: Vec<u8>,
    pub rep: [u64; 16],
}

pub const FIRED: [&str; 8] = ["short write", "interrupted write", "would block", "I/O error", "broken pipe", "device full", "zero write", "killed"];

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct ToolStats {
    pub processes: u64,
    pub fired: [u64; 8],
    pub refusals: u64,
    pub writes: u64,
    pub reads: [u64; 4],
    pub restarts: u64,
    pub complete: u64,
    pub cut: u64,
    pub hash: u64,
}

pub struct Tools {
    dir: String,
    shim: String,
    /// Where the processes' own files go.
    root: String,
    base: HashMap<(String, Vec<String>), Out>,
    pub stats: ToolStats,
}

fn memfd() -> File {
    let fd = unsafe { libc::memfd_create(c"out".as_ptr(), libc::MFD_CLOEXEC) };
    if fd < 0 {
        crate::harness_error("memfd");
    }
    unsafe { File::from_raw_fd(fd) }
}

impl Drop for Tools {
    fn drop(&mut self) {
        self.wipe()
    }
}

impl Tools {
    pub fn new() -> Tools {
        let dir = std::env::var("SIM_TOOLS").unwrap_or_default();
        let shim = std::env::var("SIM_SHIM").unwrap_or_default();
        static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let root = format!("{}/root.{}.{}", dir, std::process::id(), n);
        Tools { dir, shim, root, base: HashMap::new(), stats: ToolStats::default() }
    }
    /// On a disk as new.
    fn exec(&mut self, tool: &str, args: &[String], shim: &Shim) -> Out {
        self.wipe();
        self.again(tool, args, shim)
    }
    fn wipe(&mut self) {
        if std::path::Path::new(&self.root).exists() {
            let _ = std::fs::remove_dir_all(&self.root);
        }
    }
    /// On the disk as the last process left it.
    fn again(&mut self, tool: &str, args: &[String], shim: &Shim) -> Out {
        let mut out = memfd();
        let mut rep = memfd();
        let rfd = rep.as_raw_fd();
        let path = format!("{}/{}", self.dir, tool);
        let mut c = placed(&path, shim.layout);
        c.args(args)
            .env_clear()
            .env("LD_PRELOAD", &self.shim)
            .env("SIMSHIM", shim.text())
            .env("SIMSHIM_FD", "77")
            .env("SIMSHIM_ROOT", &self.root)
            .stdin(Stdio::null())
            .stderr(Stdio::null())
            .stdout(Stdio::from(out.try_clone().unwrap_or_else(|_| crate::harness_error("dup"))));
        for (k, v) in &shim.vars {
            c.env(k, v);
        }
        unsafe {
            c.pre_exec(move || {
                libc::dup2(rfd, 77);
                libc::alarm(60);
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                Ok(())
            });
        }
        let st = match c.status() {
            Ok(s) => s,
            Err(e) => crate::harness_error(&format!("{}: {}", path, e)),
        };
        let mut o = Out { status: st.code().unwrap_or(-1), signal: st.signal().unwrap_or(0), out: vec![], rep: [0; 16] };
        let _ = out.seek(SeekFrom::Start(0));
        let _ = out.read_to_end(&mut o.out);
        let mut b = vec![];
        let _ = rep.seek(SeekFrom::Start(0));
        let _ = rep.read_to_end(&mut b);
        for k in 0..16 {
            if b.len() >= 8 * (k + 1) {
                o.rep[k] = u64::from_le_bytes(b[8 * k..8 * k + 8].try_into().unwrap());
            }
        }
        if o.status == 114 {
            crate::harness_error("shim could not write");
        }
        let s = &mut self.stats;
        s.processes += 1;
        s.writes += o.rep[0];
        s.refusals += o.rep[2];
        for k in 0..8 {
            s.fired[k] += o.rep[4 + k];
        }
        for k in 0..4 {
            s.reads[k] += o.rep[12 + k];
        }
        s.hash = simcore::rng::mix(
            s.hash ^ o.out.iter().fold(o.status as u64 ^ (o.signal as u64) << 32, |h, c| (h ^ *c as u64).wrapping_mul(0x100000001b3)),
        );
        o
    }
    /// Undisturbed run.
    fn baseline(&mut self, tool: &str, args: &[String]) -> Out {
        let k = (tool.to_string(), args.to_vec());
        if let Some(o) = self.base.get(&k) {
            return o.clone();
        }
        let h = self.stats.hash;
        let other = format!("{}.new", self.root);
        let root = std::mem::replace(&mut self.root, other);
        let o = self.exec(tool, args, &Shim::default());
        self.wipe();
        self.root = root;
        self.stats.hash = h;
        if self.base.len() > 20000 {
            self.base.clear();
        }
        self.base.insert(k, o.clone());
        o
    }

    /// What calls give in a process placed like that.
    fn echo(&mut self, calls: &(Vec<Spec>, Vec<Op>), layout: u64) -> Vec<Outcome> {
        let exe = std::env::current_exe().unwrap_or_default();
        let mut c = placed(&exe.to_string_lossy(), layout);
        c.arg("echo").env_clear().env("SIM_PLACED", "1").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        let mut h = c.spawn().unwrap_or_else(|_| crate::harness_error("echo"));
        if let Some(mut i) = h.stdin.take() {
            let _ = i.write_all(&serde_json::to_vec(calls).unwrap());
        }
        let o = h.wait_with_output().unwrap_or_else(|_| crate::harness_error("echo"));
        self.stats.processes += 1;
        serde_json::from_slice(&o.stdout).unwrap_or_else(|e| crate::harness_error(&format!("echo: {} ({})", e, o.status)))
    }
    fn elsewhere(&mut self, p: &ToolPlan) -> Option<Violation> {
        let calls = p.lib.as_ref()?;
        let a = self.echo(calls, 0);
        let b = self.echo(calls, p.shim.layout);
        for (k, (x, y)) in a.iter().zip(b.iter()).enumerate() {
            if !x.same(y) {
                return viol("layout", format!("{} gives {} in a process that lies elsewhere in memory (layout {:x}); otherwise {}", calls.1[k].describe(), y.show(), p.shim.layout, x.show()));
            }
        }
        None
    }

    pub fn run(&mut self, p: &mut ToolPlan) -> Option<Violation> {
        if p.kind == "layout" {
            return self.elsewhere(p);
        }
        let base = self.baseline(&p.tool, &p.args);
        if base.signal != 0 || base.status == 113 {
            return viol("hang", format!("{} ends with signal {} when nothing disturbs it", show(p), base.signal));
        }
        resolve(&mut p.shim, &base);
        match p.kind.as_str() {
            "records" => self.records(p, &base),
            "surroundings" => {
                let mut o = self.exec(&p.tool, &p.args, &p.shim);
                if std::path::Path::new(&self.root).exists() {
                    // it left files behind: the next process must not care
                    o = self.again(&p.tool, &p.args, &p.shim);
                }
                if o.status != base.status || o.out != base.out {
                    return viol(
                        "surroundings",
                        format!("{} in other surroundings: status {} and {}; otherwise status {} and {}", show(p), o.status, diff(&o.out, &base.out), base.status, ""),
                    );
                }
                None
            }
            _ => {
                let o = self.exec(&p.tool, &p.args, &p.shim);
                if let Some(v) = judge(p, &p.shim, &o, &base) {
                    return Some(v);
                }
                if o.status == 0 {
                    self.stats.complete += 1
                } else {
                    self.stats.cut += 1
                }
                if p.kind == "restart" {
                    return self.restart(p, &base, &o);
                }
                None
            }
        }
    }

    fn restart(&mut self, p: &mut ToolPlan, base: &Out, o: &Out) -> Option<Violation> {
        let (d0, st, n) = p.scan?;
        let all = records(&base.out)?;
        if all.len() != n as usize {
            return None;
        }
        // records delivered completely
        let k = complete(&o.out, &base.out);
        if k >= n as usize {
            return None;
        }
        self.stats.restarts += 1;
        let mut args = p.args.clone();
        if let Some(q) = args.iter().position(|a| a == "--delta0") {
            args[q + 1] = (d0 + k as i64 * st).to_string();
        }
        let again_base = self.baseline(&p.tool, &args);
        resolve(&mut p.shim2, &again_base);
        let o2 = self.again(&p.tool, &args, &p.shim2);
        if o2.status != 0 {
            return viol("restart", format!("{} restarted at {} ends with status {}", show(p), args.join(" "), o2.status));
        }
        let rest = records(&o2.out).unwrap_or_default();
        if rest.len() != all.len() - k || rest.iter().zip(all[k..].iter()).any(|(a, b)| a != b) {
            let i = rest.iter().zip(all[k..].iter()).position(|(a, b)| a != b).unwrap_or(0);
            return viol(
                "restart",
                format!(
                    "{} restarted after {} of {} records delivers {} records; record {} differs: {}",
                    show(p),
                    k,
                    n,
                    rest.len(),
                    k + i,
                    diff(rest.get(i).unwrap_or(&vec![]), &all[k + i])
                ),
            );
        }
        None
    }

    fn records(&mut self, p: &ToolPlan, base: &Out) -> Option<Violation> {
        let (d0, st, n) = p.scan?;
        let all = records(&base.out)?;
        if base.status != 0 || all.len() != n as usize {
            return None;
        }
        for k in 0..all.len() {
            // of a long scan, some
            if all.len() > 8 && k > 1 && k + 1 < all.len() && simcore::rng::mix(k as u64 ^ d0 as u64) % all.len() as u64 > 6 {
                continue;
            }
            let mut args: Vec<String> = p.args.iter().filter(|a| *a != "--scan").cloned().collect();
            let q = args.iter().position(|a| a == "--delta0")?;
            args[q + 1] = (d0 + k as i64 * st).to_string();
            let o = self.exec(&p.tool, &args, &p.shim);
            if o.status != 0 || o.out != all[k] {
                return viol("records", format!("record {} of {} is not what the tool prints for that offset alone: {}", k, show(p), diff(&all[k], &o.out)));
            }
        }
        None
    }
}

fn viol(class: &str, msg: String) -> Option<Violation> {
    Some(Violation { class: class.into(), op: 0, thread: -1, step: 0, msg })
}

fn show(p: &ToolPlan) -> String {
    format!("`{} {}`", p.tool, p.args.join(" "))
}
fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(30).min(v.len())..(i + 30).min(v.len())]).to_string();
    format!("{} bytes instead of {}, first difference at byte {}: {:?} instead of {:?}", a.len(), b.len(), i, cut(a), cut(b))
}

/// Fractional positions become write numbers.
fn resolve(s: &mut Shim, base: &Out) {
    let calls = (base.rep[0] as u32).max(1);
    for f in s.faults.iter_mut() {
        if f.0 >= crate::plan::FRAC {
            // a little beyond the undisturbed number, too: short writes add calls
            f.0 = (f.0 - crate::plan::FRAC) % (calls + 2);
        }
    }
    if let Some(c) = s.cap {
        if c >= crate::plan::FRAC {
            s.cap = Some((c - crate::plan::FRAC) % (base.out.len() as u32).max(1));
        }
    }
}

/// Judges one faulted process.
fn judge(p: &ToolPlan, s: &Shim, o: &Out, base: &Out) -> Option<Violation> {
    if o.signal == libc::SIGALRM || o.status == 113 {
        return viol("loop", format!("{} goes on for ever after its standard output failed ({})", show(p), s.text()));
    }
    if !base.out.starts_with(&o.out) {
        return viol("prefix", format!("{} with standard output faults {}: what was accepted is no prefix of the complete output: {}", show(p), s.text(), diff(&o.out, &base.out)));
    }
    if o.signal == libc::SIGKILL && s.kills() {
        return None;
    }
    if o.status == 0 && o.out != base.out {
        return viol(
            "silent",
            format!("{} with standard output faults {} exits with status 0 although only {} of {} bytes were accepted", show(p), s.text(), o.out.len(), base.out.len()),
        );
    }
    if s.harmless() && (o.status != base.status || o.out != base.out) {
        return viol("benign", format!("{} with nothing but {} on standard output ends with status {} (signal {}); undisturbed: {}", show(p), s.text(), o.status, o.signal, base.status));
    }
    None
}

/// Splits the output of a scan into records; None if it is not one.
fn records(out: &[u8]) -> Option<Vec<Vec<u8>>> {
    let s = std::str::from_utf8(out).ok()?;
    let mut v: Vec<Vec<u8>> = vec![];
    let mut first = true;
    for part in s.split("\n\n") {
        if first {
            first = false;
            continue;
        }
        let mut b = part.as_bytes().to_vec();
        if b.last() != Some(&b'\n') {
            b.push(b'\n');
        }
        v.push(b);
    }
    Some(v)
}

/// Number of records of `base` that `out`, a prefix of it, contains whole.
fn complete(out: &[u8], base: &[u8]) -> usize {
    let all = match records(base) {
        Some(a) => a,
        None => return 0,
    };
    let head = base.windows(2).position(|w| w == b"\n\n").map_or(base.len(), |i| i + 1);
    let mut at = head;
    let mut k = 0;
    for r in &all {
        at += 1 + r.len();
        if out.len() >= at {
            k += 1
        } else {
            break;
        }
    }
    k
}

// ---------------------------------------------------------------- generation

fn s(x: impl ToString) -> String {
    x.to_string()
}

fn gen_faults(r: &mut Rng) -> Shim {
    let mut m = Shim { sticky: r.chance(0.5), ..Default::default() };
    let at = |r: &mut Rng| crate::plan::FRAC | r.u64() as u32;
    for _ in 0..r.below(4) {
        let k = at(r);
        m.faults.push((k, if r.chance(0.6) { format!("short{}", r.below(100)) } else { "intr".into() }));
    }
    match r.below(8) {
        0 => (),
        1 => m.cap = Some(at(r)),
        2 => {
            let k = at(r);
            m.faults.push((k, "kill".into()))
        }
        3 => {
            let k = at(r);
            m.faults.push((k, "zero".into()))
        }
        n => {
            let k = at(r);
            m.faults.push((k, ["again", "eio", "epipe", "full"][n as usize - 4].into()));
        }
    }
    m
}

fn gen_surroundings(r: &mut Rng) -> Shim {
    let a = crate::plan::gen_ambient(r);
    let mut m = Shim { clock: a.clock, jumps: a.jumps, env: a.env, rand: a.rand, files: a.files, ..Default::default() };
    let vars = [
        ("TZ", &["America/New_York", "UTC", "Asia/Kolkata", ":/nonexistent"][..]),
        ("LANG", &["tr_TR.UTF-8", "de_DE.UTF-8", "C", "zz_ZZ"][..]),
        ("LC_ALL", &["de_DE.UTF-8", "C.UTF-8", ""][..]),
        ("LC_NUMERIC", &["de_DE.UTF-8"][..]),
        ("HOME", &["/", "/nonexistent", ""][..]),
        ("COLUMNS", &["1", "80"][..]),
        ("NO_COLOR", &["1"][..]),
        ("TERM", &["dumb", "xterm-256color"][..]),
        ("MALLOC_PERTURB_", &["85", "170", "255"][..]),
        ("SOURCE_DATE_EPOCH", &["0", "4000000000"][..]),
        ("TOFAS_DEBUG", &["1"][..]),
        ("TOFAS_DUT1", &["0.1"][..]),
        ("DEBUG", &["1"][..]),
    ];
    if r.chance(0.3) {
        m.layout = r.u64() & 0x3fff;
    }
    let own = crate::dict::strings();
    if !own.is_empty() && r.chance(0.3) {
        for (k, _) in vars.iter() {
            if r.chance(0.3) {
                m.vars.push((s(k), s(r.pick(&own))));
            }
        }
    }
    for (k, v) in vars.iter() {
        if r.chance(0.3) {
            m.vars.push((s(k), s(r.pick(v))));
        }
    }
    m
}

/// A number within bounds, whole or not, or one the library's source names.
fn number(r: &mut Rng, a: i64, b: i64) -> String {
    let x = match r.below(10) {
        0 => crate::dict::float(r).filter(|x| *x >= a as f64 && *x <= b as f64),
        1 | 2 => Some((a as f64 + (b - a) as f64 * r.f64()) as f32 as f64),
        _ => None,
    };
    x.map_or_else(|| s(r.range(a, b)), s)
}

pub fn generate(prop: &str, seed: u64, index: u64) -> ToolPlan {
    let mut r = Rng::sub(seed ^ simcore::rng::mix(prop.bytes().fold(9u64, |h, c| h * 131 + c as u64)), index);
    let r = &mut r;
    let sun = r.chance(0.6);
    let mut args: Vec<String> = vec![];
    let mut scan = None;
    let mut kind = "output";
    if sun {
        let d = crate::gen::date(r);
        if r.chance(0.9) {
            let y = if r.chance(0.9) { d[0].clamp(1900, 2100) } else { d[0] };
            let y = if r.chance(0.1) { crate::dict::int(r, -4799, 9999).unwrap_or(y) } else { y };
            args.extend([s("--year"), s(y), s("--month"), s(d[1]), s("--day"), s(d[2])]);
        }
        if r.chance(0.7) {
            args.extend([s("--hour"), s(r.below(24)), s("--min"), s(r.below(60)), s("--sec"), s(r.below(60000) as f64 / 1000.0)]);
        }
        if r.chance(0.7) {
            args.extend([s("--lat"), number(r, -90, 90), s("--lon"), number(r, -180, 180), s("--height"), number(r, -100, 9000)]);
        }
        let d0 = match r.below(4) {
            0 => -600,
            1 => 0,
            2 => r.range(-100000, 100000),
            3 if r.chance(0.3) => crate::dict::float(r).map_or(5, |x| x.clamp(-1e9, 1e9) as i64),
            _ => r.range(-400, 400) * 86400,
        };
        args.extend([s("--delta0"), s(d0)]);
        if r.chance(0.75) {
            let st = *r.pick(&[1i64, 60, 60, 3600, 86400]);
            let n = match r.below(20) {
                0 => 1 + r.below(300),
                1 | 2 => 1 + r.below(40),
                _ => 1 + r.below(8),
            };
            args.extend([s("--delta1"), s(d0 + (n as i64 - 1) * st), s("--delta_step"), s(st), s("--scan")]);
            scan = Some((d0, st, n as u32));
            kind = *r.pick(&["output", "output", "restart", "restart", "records"]);
        } else {
            args.extend([s("--delta1"), s(d0 + r.range(0, 100))]);
        }
        if r.chance(0.03) {
            args.push(s("--bogus"));
        }
    } else if r.chance(0.5) {
        args.push(s(*r.pick(&["gregorian", "g"])));
        let d = if r.chance(0.9) { crate::gen::date(r) } else { [r.range(-5000, 3000), r.range(0, 13), r.range(0, 32)] };
        args.extend([s("--year"), s(d[0]), s("--month"), s(d[1]), s("--day"), s(d[2])]);
        if r.chance(0.6) {
            args.extend([s("--hour"), s(r.below(24)), s("--minute"), s(r.below(60)), s("--second"), s(r.below(60000) as f64 / 1000.0)]);
        }
    } else {
        args.push(s(*r.pick(&["julian", "j"])));
        let t = if r.chance(0.9) { crate::gen::jd_total(r) } else { *r.pick(&[-1e6, 2e9, -32000.0]) };
        let (a, b) = crate::gen::split(t, r);
        args.extend([s("--jd"), s(a)]);
        if r.chance(0.7) {
            args.extend([s("--jd2"), s(b)]);
        }
    }
    let mut p = ToolPlan {
        kind: kind.into(),
        tool: if sun { "sun_angle_tool" } else { "julian_tool" }.into(),
        args,
        scan,
        shim: Shim::default(),
        shim2: Shim::default(),
        lib: None,
    };
    if prop == "C09" && r.chance(0.05) {
        let mut q = crate::plan::generate("C09", seed ^ 0x1a70, index);
        q.ops.retain(|o| o.k != K::DropHandle);
        for o in q.ops.iter_mut() {
            o.amb = None;
            o.unwind = None;
            o.sink = simcore::sink::SinkPlan { wrap: o.sink.wrap, style: o.sink.style, ..Default::default() };
        }
        q.ops.truncate(12);
        p.kind = "layout".into();
        p.shim.layout = r.u64() & 0x3fff | 1;
        p.lib = Some((q.specs, q.ops));
        return p;
    }
    if prop == "C09" {
        p.kind = "surroundings".into();
        p.shim = gen_surroundings(r);
        return p;
    }
    p.shim = gen_faults(r);
    match p.kind.as_str() {
        "records" => {
            p.shim.cap = None;
            p.shim.faults.retain(|f| f.1.starts_with("short") || f.1 == "intr");
        }
        "restart" => {
            if p.shim.harmless() {
                p.shim.cap = Some(crate::plan::FRAC | r.u64() as u32);
            }
            p.shim2 = gen_faults(r);
            p.shim2.cap = None;
            p.shim2.faults.retain(|f| f.1.starts_with("short") || f.1 == "intr");
        }
        _ => (),
    }
    p
}

/// Shrinks a failing tool plan.
pub fn minimise(t: &mut Tools, plan: ToolPlan, v: Violation) -> (ToolPlan, Violation, u32) {
    let mut best = (plan, v);
    let mut tries = 0;
    let mut again = true;
    while again && tries < 300 {
        again = false;
        let p = best.0.clone();
        let mut cand: Vec<ToolPlan> = vec![];
        for k in 0..p.shim.faults.len() {
            let mut q = p.clone();
            q.shim.faults.remove(k);
            cand.push(q);
        }
        for k in 0..p.shim2.faults.len() {
            let mut q = p.clone();
            q.shim2.faults.remove(k);
            cand.push(q);
        }
        for k in 0..p.shim.vars.len() {
            let mut q = p.clone();
            q.shim.vars.remove(k);
            cand.push(q);
        }
        if p.shim.cap.is_some() {
            let mut q = p.clone();
            q.shim.cap = None;
            cand.push(q);
        }
        if p.shim.sticky {
            let mut q = p.clone();
            q.shim.sticky = false;
            cand.push(q);
        }
        for (n, x) in [(0, p.shim.clock), (1, p.shim.jumps), (2, p.shim.env), (3, p.shim.rand), (4, p.shim.files)] {
            if x != 0 {
                let mut q = p.clone();
                match n {
                    0 => q.shim.clock = 0,
                    1 => q.shim.jumps = 0,
                    2 => q.shim.env = 0,
                    4 => q.shim.files = 0,
                    _ => q.shim.rand = 0,
                }
                cand.push(q);
            }
        }
        if p.shim.layout != 0 && p.kind != "layout" {
            let mut q = p.clone();
            q.shim.layout = 0;
            cand.push(q);
        }
        if let Some((_, ops)) = &p.lib {
            for k in 0..ops.len() {
                let mut q = p.clone();
                q.lib.as_mut().unwrap().1.remove(k);
                cand.push(q);
            }
        }
        // optional pairs of arguments
        for k in 0..p.args.len().saturating_sub(1) {
            if p.args[k].starts_with("--") && !["--delta0", "--delta1", "--delta_step", "--scan", "--jd", "--year", "--month", "--day"].contains(&p.args[k].as_str()) && p.args[k].len() > 2 {
                let mut q = p.clone();
                q.args.drain(k..k + 2);
                cand.push(q);
            }
        }
        for mut q in cand {
            tries += 1;
            if let Some(v) = t.run(&mut q) {
                if v.class == best.1.class {
                    best = (q, v);
                    again = true;
                    break;
                }
            }
        }
    }
    (best.0, best.1, tries)
}
