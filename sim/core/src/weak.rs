//! Weak memory: an atomic load of a library call may return an older value
//! than the last one stored, wherever the C++20/Rust memory model allows it.
//!
//! Every atomic location keeps the last few values stored to it with vector
//! clocks; a load may read any of them that is not older than one it already
//! has to know of.  What cannot be followed (precompiled code of the standard
//! library, futexes, a thread's start) counts as full synchronisation, so that
//! nothing is ever allowed that the memory model forbids.
use std::collections::BTreeMap;

type Vc = Vec<u64>;

fn join(a: &mut Vc, b: &Vc) {
    for (x, y) in a.iter_mut().zip(b.iter()) {
        *x = (*x).max(*y);
    }
}

struct Store {
    val: u64,
    /// Who stored, at which of its times; None: known to everybody.
    by: Option<(usize, u64)>,
    rel: Option<Vc>,
}

struct Loc {
    size: u8,
    /// Number of the first store still kept.
    first: u64,
    stores: Vec<Store>,
    seen: Vec<u64>,
}

struct Thread {
    vc: Vc,
    pending: Vc,
    fence: Option<Vc>,
}

pub struct Weak {
    threads: Vec<Thread>,
    locs: BTreeMap<usize, Loc>,
    sc: Vc,
    pub stacks: Vec<(usize, usize)>,
}

const KEEP: usize = 8;

fn acquires(o: i32) -> bool {
    matches!(o, 1 | 2 | 4 | 5)
}
fn releases(o: i32) -> bool {
    matches!(o, 3 | 4 | 5)
}

impl Weak {
    pub fn new(n: usize) -> Weak {
        let threads = (0..n).map(|_| Thread { vc: vec![0; n], pending: vec![0; n], fence: None }).collect();
        Weak { threads, locs: BTreeMap::new(), sc: vec![0; n], stacks: vec![(0, 0); n] }
    }
    /// The thread knows all that has happened.
    pub fn sync(&mut self, t: usize) {
        let mut all = self.threads[t].vc.clone();
        for th in &self.threads {
            join(&mut all, &th.vc);
        }
        self.threads[t].vc = all;
    }
    /// Memory handed out or back: what was there before is nobody's business.
    pub fn forget(&mut self, p: usize, n: usize) {
        if n == 0 || self.locs.is_empty() {
            return;
        }
        let v: Vec<usize> = self.locs.range(p.saturating_sub(8)..p + n).map(|x| *x.0).collect();
        for a in v {
            self.locs.remove(&a);
        }
    }
    /// The location's record, brought up to date with what memory holds.
    fn visit(&mut self, t: usize, p: usize, size: u8, mem: u64) {
        let n = self.threads.len();
        let fresh = match self.locs.get(&p) {
            Some(l) => l.size != size || l.stores.last().unwrap().val != mem,
            None => true,
        };
        if fresh {
            // first seen, or changed by code that is not followed
            let known = self.locs.contains_key(&p);
            let mut rel = None;
            if known {
                self.sync(t);
                rel = Some(self.threads[t].vc.clone());
            }
            self.locs.insert(p, Loc { size, first: 0, stores: vec![Store { val: mem, by: None, rel }], seen: vec![0; n] });
        }
    }
    fn read(&mut self, t: usize, p: usize, k: u64, o: i32) -> u64 {
        let l = self.locs.get_mut(&p).unwrap();
        l.seen[t] = k;
        let s = &l.stores[(k - l.first) as usize];
        if let Some(r) = &s.rel {
            let th = &mut self.threads[t];
            if acquires(o) {
                join(&mut th.vc, r);
            } else {
                join(&mut th.pending, r);
            }
        }
        s.val
    }
    /// How many values back a load may look at most.
    pub fn depth(&mut self, t: usize, p: usize, size: u8, mem: u64, o: i32) -> u64 {
        self.visit(t, p, size, mem);
        if o == 5 || self.stacks.iter().any(|s| p >= s.0 && p < s.1) {
            return 0;
        }
        let l = &self.locs[&p];
        let last = l.first + l.stores.len() as u64 - 1;
        let mut k = last;
        while k > l.seen[t].max(l.first) {
            let known = match l.stores[(k - l.first) as usize].by {
                None => true,
                Some((w, at)) => w == t || at <= self.threads[t].vc[w],
            };
            if known {
                break;
            }
            k -= 1;
        }
        last - k
    }
    pub fn load(&mut self, t: usize, p: usize, back: u64, o: i32) -> u64 {
        let l = &self.locs[&p];
        let k = l.first + l.stores.len() as u64 - 1 - back;
        self.read(t, p, k, o)
    }
    fn push(&mut self, t: usize, p: usize, val: u64, o: i32, carried: Option<Vc>) {
        let th = &mut self.threads[t];
        th.vc[t] += 1;
        let mut rel = if releases(o) { Some(th.vc.clone()) } else { th.fence.clone() };
        if let Some(c) = carried {
            match &mut rel {
                Some(r) => join(r, &c),
                None => rel = Some(c),
            }
        }
        let by = Some((t, th.vc[t]));
        let l = self.locs.get_mut(&p).unwrap();
        l.stores.push(Store { val, by, rel });
        if l.stores.len() > KEEP {
            l.stores.remove(0);
            l.first += 1;
        }
        l.seen[t] = l.first + l.stores.len() as u64 - 1;
    }
    pub fn store(&mut self, t: usize, p: usize, size: u8, mem: u64, val: u64, o: i32) {
        self.visit(t, p, size, mem);
        self.push(t, p, val, o, None);
    }
    pub fn rmw(&mut self, t: usize, p: usize, size: u8, mem: u64, val: u64, o: i32) {
        self.visit(t, p, size, mem);
        self.load(t, p, 0, o);
        let carried = self.locs[&p].stores.last().unwrap().rel.clone();
        self.push(t, p, val, o, carried);
    }
    pub fn fence(&mut self, t: usize, o: i32) {
        let th = &mut self.threads[t];
        if acquires(o) {
            let p = th.pending.clone();
            join(&mut th.vc, &p);
        }
        if o == 5 {
            join(&mut th.vc, &self.sc);
            self.sc = th.vc.clone();
        }
        if releases(o) {
            th.fence = Some(th.vc.clone());
        }
    }
}
