//! Shrinks a failing plan and schedule while the same class of violation
//! persists.
use crate::plan::{Act, Plan};
use crate::sim::{keep, needed, run, Oracle};
use simcore::rt::{Event, Violation};
use std::time::{Duration, Instant};

pub struct Found {
    pub plan: Plan,
    /// The schedule; None: the one the plan's own seed generates.
    pub events: Option<Vec<Event>>,
    pub violation: Violation,
}

struct M<'a> {
    oracle: &'a mut Oracle,
    class: String,
    best: Found,
    tries: u32,
    until: Instant,
}

impl<'a> M<'a> {
    fn spent(&self) -> bool {
        self.tries >= 1500 || Instant::now() > self.until
    }
    fn attempt(&mut self, plan: Plan, events: Option<Vec<Event>>) -> bool {
        if self.spent() {
            return false;
        }
        self.tries += 1;
        let exp = self.oracle.expect(&plan);
        let seeded = events.is_none();
        let r = run(&plan, &exp, events);
        match r.violation {
            Some(v) if v.class == self.class => {
                let events = if seeded || r.long { None } else { Some(r.events) };
                self.best = Found { plan, events, violation: v };
                true
            }
            _ => false,
        }
    }

    fn threads(&mut self) {
        for t in (0..self.best.plan.threads.len()).rev() {
            if self.best.plan.threads[t].steps.is_empty() {
                continue;
            }
            let mut p = self.best.plan.clone();
            p.threads[t].steps.clear();
            self.attempt(p, self.best.events.clone());
        }
    }
    fn steps(&mut self) {
        for t in 0..self.best.plan.threads.len() {
            let mut chunk = self.best.plan.threads[t].steps.len();
            while chunk > 0 {
                let mut at = 0;
                while at < self.best.plan.threads[t].steps.len() {
                    let mut p = self.best.plan.clone();
                    let n = p.threads[t].steps.len();
                    p.threads[t].steps.drain(at..(at + chunk).min(n));
                    if !self.attempt(p, self.best.events.clone()) {
                        at += chunk;
                    }
                    if self.spent() {
                        return;
                    }
                }
                chunk /= 2;
            }
        }
    }
    fn counts(&mut self) {
        for t in 0..self.best.plan.threads.len() {
            for s in 0..self.best.plan.threads[t].steps.len() {
                loop {
                    let mut done = true;
                    for frac in [1u32, 2, 3] {
                        let mut p = self.best.plan.clone();
                        let c = match &mut p.threads[t].steps[s].act {
                            Act::Do { times, .. } => times,
                            Act::Noise { count, .. } => count,
                            Act::Soak { .. } => break,
                        };
                        if *c <= 1 {
                            break;
                        }
                        let n = match frac {
                            1 => *c / 2,
                            2 => *c - (*c / 8).max(1),
                            _ => *c - 1,
                        };
                        *c = n.max(1);
                        if self.attempt(p, self.best.events.clone()) {
                            done = false;
                            break;
                        }
                    }
                    if done || self.spent() {
                        break;
                    }
                }
            }
        }
    }
    fn len(&self) -> usize {
        self.best.events.as_ref().map_or(0, |e| e.len())
    }
    fn events(&mut self) {
        let mut chunk = self.len();
        while chunk > 0 {
            let mut at = 0;
            while at < self.len() {
                let mut e = self.best.events.clone().unwrap();
                let n = e.len();
                e.drain(at..(at + chunk).min(n));
                let before = self.len();
                if !self.attempt(self.best.plan.clone(), Some(e)) || self.len() >= before {
                    at += chunk;
                }
                if self.spent() {
                    return;
                }
            }
            chunk /= 2;
        }
    }
    fn sinks(&mut self) {
        for o in 0..self.best.plan.ops.len() {
            loop {
                let k = self.best.plan.ops[o].sink.clone();
                let mut again = false;
                for f in (0..k.faults.len()).rev() {
                    let mut p = self.best.plan.clone();
                    p.ops[o].sink.faults.remove(f);
                    if self.attempt(p, self.best.events.clone()) {
                        again = true;
                        break;
                    }
                }
                if again {
                    continue;
                }
                for f in (0..k.nested.len()).rev() {
                    let mut p = self.best.plan.clone();
                    p.ops[o].sink.nested.remove(f);
                    if self.attempt(p, self.best.events.clone()) {
                        again = true;
                        break;
                    }
                }
                if !again {
                    break;
                }
            }
            if self.best.plan.ops[o].sink.style != 0 {
                let mut p = self.best.plan.clone();
                p.ops[o].sink.style = 0;
                self.attempt(p, self.best.events.clone());
            }
            if self.best.plan.ops[o].sink.cap.is_some() {
                let mut p = self.best.plan.clone();
                p.ops[o].sink.cap = None;
                self.attempt(p, self.best.events.clone());
            }
            if self.best.plan.ops[o].sink.wrap != simcore::sink::Wrap::Fmt {
                let mut p = self.best.plan.clone();
                p.ops[o].sink.wrap = simcore::sink::Wrap::Fmt;
                self.attempt(p, self.best.events.clone());
            }
        }
    }
    fn ambient(&mut self) {
        for o in 0..self.best.plan.ops.len() {
            for f in 0..8 {
                let mut p = self.best.plan.clone();
                let Some(a) = p.ops[o].amb.as_mut() else { break };
                match f {
                    0 => a.clock = 0,
                    1 => a.jumps = 0,
                    2 => a.env = 0,
                    3 => a.rand = 0,
                    4 => a.files = 0,
                    5 => a.paint = None,
                    6 => a.mem = 0,
                    _ => a.place = 0,
                }
                if p.ops[o].amb != self.best.plan.ops[o].amb {
                    self.attempt(p, self.best.events.clone());
                }
            }
        }
    }
    fn asides(&mut self) {
        for t in 0..self.best.plan.threads.len() {
            if self.best.plan.threads[t].farewell.is_some() {
                let mut p = self.best.plan.clone();
                p.threads[t].farewell = None;
                self.attempt(p, self.best.events.clone());
            }
            if self.best.plan.threads[t].name.is_some() {
                let mut p = self.best.plan.clone();
                p.threads[t].name = None;
                self.attempt(p, self.best.events.clone());
            }
        }
        for o in 0..self.best.plan.ops.len() {
            if self.best.plan.ops[o].unwind.is_some() {
                let mut p = self.best.plan.clone();
                p.ops[o].unwind = None;
                self.attempt(p, self.best.events.clone());
            }
        }
    }
    fn tidy(&mut self) {
        // an operation never performed may still count: the handles it names exist
        let mut chunk = self.best.plan.ops.len();
        while chunk > 0 {
            let mut at = 0;
            while at < self.best.plan.ops.len() {
                let mut used = needed(&self.best.plan);
                let mut gone = 0;
                let mut to = at;
                while to < used.len() && gone < chunk {
                    if !used[to] {
                        gone += 1;
                    }
                    to += 1;
                }
                for (k, u) in used.iter_mut().enumerate() {
                    *u = *u || k < at || k >= to;
                }
                let mut ok = false;
                if gone > 0 {
                    let mut p = self.best.plan.clone();
                    keep(&mut p, &used);
                    ok = self.attempt(p, self.best.events.clone());
                }
                if !ok {
                    at = to;
                }
            }
            chunk /= 2;
        }
    }
}

pub fn minimise(oracle: &mut Oracle, found: Found, secs: u64) -> (Found, u32, bool) {
    let class = found.violation.class.clone();
    if class == "hang" {
        // every attempt would take minutes
        return (found, 0, true);
    }
    let (plan, events) = (found.plan.clone(), found.events.clone());
    let mut m = M { oracle, class, best: found, tries: 0, until: Instant::now() + Duration::from_secs(secs) };
    // the recorded schedule must reproduce the violation; a run that ended its
    // process left none behind, but its seed makes it again
    let mut ok = events.is_some() && m.attempt(plan.clone(), events);
    if !ok {
        ok = m.attempt(plan, None);
    }
    if ok {
        for _ in 0..2 {
            m.threads();
            m.steps();
            m.counts();
            m.events();
            m.sinks();
            m.ambient();
            m.asides();
            m.tidy();
        }
    }
    (m.best, m.tries, ok)
}
