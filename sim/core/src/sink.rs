//! Simulated output devices.
use crate::rt;
use serde::{Deserialize, Serialize};
use std::fmt;
use std::io;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SinkFault {
    /// The write is refused.
    Refuse,
    /// So many bytes are taken, then the write is refused.
    Partial(u32),
    /// The sink panics.
    Panic,
    /// io only: so many bytes are taken and the write reports them.
    Short(u32),
    /// io only: the write is interrupted before anything is taken.
    Intr,
    /// io only: the device would block.
    Block,
    /// The caller loses the processor inside the sink for so many ns.
    Slow(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Wrap {
    /// Character sink (fmt::Write).
    Fmt,
    /// Byte stream written directly.
    Direct,
    /// Through a BufWriter of this capacity.
    Buf(u32),
    /// Through a LineWriter of this capacity.
    Line(u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SinkPlan {
    pub wrap: Wrap,
    /// Faults by index of the write call.
    pub faults: Vec<(u32, SinkFault)>,
    /// Capacity of the device in bytes.
    pub cap: Option<u32>,
    /// After the first refusal every later write is refused, too.
    pub sticky: bool,
    /// Nested operations by index of the write call.
    pub nested: Vec<(u32, u32)>,
    /// How the caller formats the value: 0 is `{}`; see [style].
    #[serde(default)]
    pub style: u16,
}

impl Default for SinkPlan {
    fn default() -> Self {
        SinkPlan { wrap: Wrap::Fmt, faults: vec![], cap: None, sticky: false, nested: vec![], style: 0 }
    }
}

pub struct SinkPanic;

pub struct Sink<'a> {
    pub plan: &'a SinkPlan,
    pub out: Vec<u8>,
    pub calls: u32,
    pub refused: bool,
    pub after_refusal: u32,
    pub panicked: bool,
    pub fired: [u32; 8],
    pub nested_op: &'a mut dyn FnMut(u32),
}

pub const F_REFUSE: usize = 0;
pub const F_PARTIAL: usize = 1;
pub const F_PANIC: usize = 2;
pub const F_SHORT: usize = 3;
pub const F_INTR: usize = 4;
pub const F_BLOCK: usize = 5;
pub const F_FULL: usize = 6;
pub const F_NESTED: usize = 7;

enum Res {
    Took(usize),
    Refused,
    Intr,
    Block,
    Full,
    Panic,
}

impl<'a> Sink<'a> {
    pub fn new(plan: &'a SinkPlan, nested_op: &'a mut dyn FnMut(u32)) -> Self {
        Sink {
            plan,
            out: Vec::with_capacity(2048),
            calls: 0,
            refused: false,
            after_refusal: 0,
            panicked: false,
            fired: [0; 8],
            nested_op,
        }
    }

    fn take(&mut self, b: &[u8], io: bool) -> Res {
        let k = self.calls;
        self.calls += 1;
        if self.refused {
            self.after_refusal += 1;
            if self.plan.sticky {
                return Res::Refused;
            }
        }
        for i in 0..self.plan.nested.len() {
            let (at, op) = self.plan.nested[i];
            if at == k {
                self.fired[F_NESTED] += 1;
                (self.nested_op)(op);
            }
        }
        let mut n = b.len();
        let mut after = None;
        for (at, f) in self.plan.faults.iter() {
            if *at != k {
                continue;
            }
            match f {
                SinkFault::Refuse => {
                    self.fired[F_REFUSE] += 1;
                    n = 0;
                    after = Some(Res::Refused);
                }
                SinkFault::Partial(m) => {
                    self.fired[F_PARTIAL] += 1;
                    n = n.min(*m as usize);
                    if !io {
                        // a character sink takes whole characters
                        while n > 0 && n < b.len() && (b[n] & 0xc0) == 0x80 {
                            n -= 1;
                        }
                    } else {
                        n = 0;
                    }
                    after = Some(Res::Refused);
                }
                SinkFault::Panic => {
                    self.fired[F_PANIC] += 1;
                    n = 0;
                    after = Some(Res::Panic);
                }
                SinkFault::Short(m) if io && n > 1 => {
                    self.fired[F_SHORT] += 1;
                    n = n.min(1 + *m as usize);
                }
                SinkFault::Intr if io => {
                    self.fired[F_INTR] += 1;
                    n = 0;
                    after = Some(Res::Intr);
                }
                SinkFault::Block if io => {
                    self.fired[F_BLOCK] += 1;
                    n = 0;
                    after = Some(Res::Block);
                }
                SinkFault::Slow(ns) => rt::pause(*ns),
                _ => (),
            }
        }
        if after.is_none() {
            if let Some(c) = self.plan.cap {
                let room = (c as usize).saturating_sub(self.out.len());
                if n > room {
                    self.fired[F_FULL] += 1;
                    n = room;
                    if !io {
                        while n > 0 && (b[n] & 0xc0) == 0x80 {
                            n -= 1;
                        }
                        after = Some(Res::Full);
                    } else if n == 0 {
                        after = Some(Res::Full);
                    }
                }
            }
        }
        self.out.extend_from_slice(&b[..n]);
        match after {
            None => Res::Took(n),
            Some(r) => r,
        }
    }
}

impl<'a> fmt::Write for Sink<'a> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.is_empty() {
            // nothing to take, nothing to refuse
            return Ok(());
        }
        let r = rt::outside(|| {
            let r = self.take(s.as_bytes(), false);
            match r {
                Res::Took(_) | Res::Panic => (),
                _ => self.refused = true,
            }
            r
        });
        match r {
            Res::Took(_) => Ok(()),
            Res::Panic => {
                self.panicked = true;
                std::panic::panic_any(0xdeadu32)
            }
            _ => Err(fmt::Error),
        }
    }
}

impl<'a> io::Write for Sink<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let r = rt::outside(|| {
            let r = self.take(b, true);
            match r {
                Res::Took(_) | Res::Panic | Res::Intr => (),
                _ => self.refused = true,
            }
            r
        });
        match r {
            Res::Took(n) => Ok(n),
            Res::Intr => Err(io::Error::from(io::ErrorKind::Interrupted)),
            Res::Block => Err(io::Error::from(io::ErrorKind::WouldBlock)),
            Res::Full => Err(io::Error::from_raw_os_error(libc::ENOSPC)),
            Res::Refused => Err(io::Error::from_raw_os_error(libc::EIO)),
            Res::Panic => {
                self.panicked = true;
                std::panic::panic_any(0xdeadu32)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// The ways a caller may format a value: 20 combinations of alignment, fill,
/// sign, `#` and `0`; `{}` or `{:?}`; width and precision given or not.
pub fn style(r: &mut crate::rng::Rng) -> u16 {
    let flags = if r.chance(0.3) { 0 } else { r.below(20) };
    let debug = r.chance(0.2) as u64;
    let width = if r.chance(0.4) { 0 } else { r.below(WIDTHS.len() as u64) };
    let prec = if r.chance(0.6) { 0 } else { r.below(PRECS.len() as u64) };
    (flags | debug << 5 | width << 6 | prec << 10) as u16
}
const WIDTHS: [usize; 8] = [0, 1, 5, 16, 30, 60, 200, 0];
const PRECS: [usize; 6] = [0, 0, 1, 3, 9, 40];
pub trait Text: std::fmt::Display + std::fmt::Debug {}
impl<T: std::fmt::Display + std::fmt::Debug> Text for T {}
pub struct Styled<'a>(pub &'a dyn Text, pub u16);
impl<'a> Styled<'a> {
    pub fn write(&self, f: &mut dyn FnMut(std::fmt::Arguments) -> bool) -> bool {
        let x = self.0;
        let (flags, debug) = (self.1 & 31, self.1 >> 5 & 1 == 1);
        let (wi, pi) = ((self.1 >> 6 & 15) as usize % WIDTHS.len(), (self.1 >> 10 & 15) as usize % PRECS.len());
        let (w, p) = (WIDTHS[wi], PRECS[pi]);
        macro_rules! forms {
            ($l:literal) => {
                match (debug, wi > 0, pi > 0) {
                    (false, false, false) => f(format_args!(concat!("{:", $l, "}"), x)),
                    (false, true, false) => f(format_args!(concat!("{:", $l, "w$}"), x, w = w)),
                    (false, false, true) => f(format_args!(concat!("{:", $l, ".p$}"), x, p = p)),
                    (false, true, true) => f(format_args!(concat!("{:", $l, "w$.p$}"), x, w = w, p = p)),
                    (true, false, false) => f(format_args!(concat!("{:", $l, "?}"), x)),
                    (true, true, false) => f(format_args!(concat!("{:", $l, "w$?}"), x, w = w)),
                    (true, false, true) => f(format_args!(concat!("{:", $l, ".p$?}"), x, p = p)),
                    (true, true, true) => f(format_args!(concat!("{:", $l, "w$.p$?}"), x, w = w, p = p)),
                }
            };
        }
        match flags {
            0 => forms!(""),
            1 => forms!("+"),
            2 => forms!("#"),
            3 => forms!("+#"),
            4 => forms!("<"),
            5 => forms!("<+"),
            6 => forms!("*<"),
            7 => forms!("*<+#"),
            8 => forms!("^"),
            9 => forms!("_^+"),
            10 => forms!("^#"),
            11 => forms!("_^+#"),
            12 => forms!(">"),
            13 => forms!(">+"),
            14 => forms!(">#"),
            15 => forms!("x>+#"),
            16 => forms!("0"),
            17 => forms!("+0"),
            18 => forms!("#0"),
            _ => forms!("+#0"),
        }
    }
}
