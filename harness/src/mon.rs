//! Monitor of the locks of the nodes (only with --cfg k_monitor): finds every attempt to take
//! a lock which completes a cycle of waiting threads, delays threads at the interesting places
//! and records in which order the locks were taken.
#![allow(dead_code)]
use crate::core::Violation;
use crate::rng::{mix, Rng};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Default)]
struct Graph {
    owner: HashMap<usize, usize>,
    waiting: HashMap<usize, usize>,
    names: HashMap<usize, u64>,
    seq: u64,
    last: usize,
    pub stat: Stat,
    report: Option<String>,
}

#[derive(Default, Clone)]
pub struct Stat {
    pub acquired: u64,
    pub contended: u64,
    pub nested: u64,
    pub switches: u64,
    pub delays: u64,
}

#[derive(Clone, Copy)]
pub struct Profile {
    /// probability of a delay before a lock is taken while another is held
    pub nested: f64,
    /// ... before and after other locks
    pub other: f64,
    /// longest delay in microseconds
    pub sleep: usize,
}

/// One per case
#[derive(Default)]
pub struct CaseMon {
    g: Mutex<Graph>,
}

struct Me {
    mon: Arc<CaseMon>,
    id: usize,
    held: Vec<usize>,
    rng: Rng,
    profile: Profile,
}

thread_local! {
    static ME: RefCell<Option<Me>> = const { RefCell::new(None) };
}

impl CaseMon {
    fn graph(&self) -> MutexGuard<'_, Graph> {
        match self.g.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        }
    }
    pub fn stat(&self) -> Stat {
        self.graph().stat.clone()
    }
    /// hash of the order in which the threads got the locks
    pub fn sequence(&self) -> u64 {
        self.graph().seq
    }
    pub fn report(&self) -> Option<String> {
        self.graph().report.clone()
    }
}

/// This thread works for the case from now on
pub fn enter(mon: Arc<CaseMon>, id: usize, rng: Rng, profile: Profile) {
    ME.with(|m| {
        *m.borrow_mut() = Some(Me {
            mon,
            id,
            held: vec![],
            rng,
            profile,
        })
    });
}
pub fn leave() {
    ME.with(|m| *m.borrow_mut() = None);
}

fn delay(nested: bool) {
    let d = ME.with(|m| {
        let mut m = match m.try_borrow_mut() {
            Ok(m) => m,
            Err(_) => return 0,
        };
        match m.as_mut() {
            None => 0,
            Some(me) => {
                let p = if nested { me.profile.nested } else { me.profile.other };
                if p > 0.0 && me.rng.p(p) {
                    me.mon.graph().stat.delays += 1;
                    1 + me.rng.below(me.profile.sleep + 1)
                } else {
                    0
                }
            }
        }
    });
    match d {
        0 => {}
        1..=3 => std::thread::yield_now(),
        d => std::thread::sleep(std::time::Duration::from_micros(d as u64)),
    }
}

fn before_lock(m: usize) {
    let holding = ME.with(|x| match x.try_borrow() {
        Ok(x) => x.as_ref().map(|me| !me.held.is_empty()),
        Err(_) => None,
    });
    let holding = match holding {
        None => return,
        Some(h) => h,
    };
    delay(holding);
    let bad = ME.with(|x| {
        let x = x.borrow();
        let me = x.as_ref()?;
        let mut g = me.mon.graph();
        let n = g.names.len() as u64;
        g.names.entry(m).or_insert(n);
        if g.owner.contains_key(&m) {
            g.stat.contended += 1;
        }
        if holding {
            g.stat.nested += 1;
        }
        g.waiting.insert(me.id, m);
        // does the owner of the lock wait for this thread?
        let mut lock = m;
        let mut path = vec![];
        for _ in 0..64 {
            let o = match g.owner.get(&lock) {
                None => return None,
                Some(o) => *o,
            };
            path.push(format!("node lock {} is held by thread {}", g.names.get(&lock).copied().unwrap_or(0), o));
            if o == me.id {
                let r = format!("deadlock: thread {} waits for a lock which is never released: {}", me.id, path.join(", which waits: "));
                if g.report.is_none() {
                    g.report = Some(r.clone());
                }
                g.waiting.remove(&me.id);
                return Some(r);
            }
            lock = match g.waiting.get(&o) {
                None => return None,
                Some(l) => *l,
            };
        }
        None
    });
    if let Some(r) = bad {
        std::panic::panic_any(Violation(r));
    }
}

fn locked(m: usize) {
    ME.with(|x| {
        let mut x = match x.try_borrow_mut() {
            Ok(x) => x,
            Err(_) => return,
        };
        if let Some(me) = x.as_mut() {
            me.held.push(m);
            let mut g = me.mon.graph();
            g.owner.insert(m, me.id);
            g.waiting.remove(&me.id);
            let n = g.names.len() as u64;
            let name = *g.names.entry(m).or_insert(n);
            g.seq = mix(g.seq ^ mix((me.id as u64) << 32 | name));
            g.stat.acquired += 1;
            if g.last != me.id {
                g.stat.switches += 1;
                g.last = me.id;
            }
        }
    });
}

fn before_unlock(m: usize) {
    ME.with(|x| {
        let mut x = match x.try_borrow_mut() {
            Ok(x) => x,
            Err(_) => return,
        };
        if let Some(me) = x.as_mut() {
            if let Some(p) = me.held.iter().rposition(|h| *h == m) {
                me.held.remove(p);
            }
            me.mon.graph().owner.remove(&m);
        }
    });
}

fn unlocked(_: usize) {
    if !std::thread::panicking() {
        delay(false);
    }
}

#[cfg(k_monitor)]
pub fn install() -> bool {
    k::monitor::set_hooks(k::monitor::Hooks {
        before_lock,
        locked,
        before_unlock,
        unlocked,
    });
    true
}
#[cfg(not(k_monitor))]
pub fn install() -> bool {
    false
}
