//! P18 and the concurrent part of P19: chains shared between threads.
use crate::core::*;
use crate::gen::*;
use crate::m3::*;
use crate::mon;
use crate::p_fk::{check_vel, ref_velocities};
use crate::rng::{mix, Rng};
use crate::sc::*;
use k::prelude::*;
use k::{Chain, Constraints, JacobianIkSolver, Node, SerialChain};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};

// ------------------------------------------------------------------ threads

/// Run the functions concurrently, each in a thread of its own. Reports the deadlock or the
/// first panic, otherwise returns what the functions return.
fn together<'a, R: Send>(
    cx: &mut Cx,
    fs: Vec<Box<dyn FnOnce(Rng) -> R + Send + 'a>>,
) -> Vec<R> {
    let n = fs.len();
    let monitored = mon::install();
    let cm: Arc<mon::CaseMon> = Arc::new(mon::CaseMon::default());
    let profile = match cx.rng.below(6) {
        0 => mon::Profile { nested: 0.0, other: 0.0, sleep: 0 },
        1 => mon::Profile { nested: 0.5, other: 0.1, sleep: 2 },
        2 => mon::Profile { nested: 0.3, other: 0.02, sleep: 30 },
        3 => mon::Profile { nested: 0.05, other: 0.05, sleep: 60 },
        4 => mon::Profile { nested: 0.02, other: 0.3, sleep: 2 },
        _ => mon::Profile { nested: 0.2, other: 0.01, sleep: 10 },
    };
    let bar = Arc::new(Barrier::new(n));
    let order = AtomicUsize::new(0);
    let slot = cx.slot.clone();
    let log = logging();
    let seeds: Vec<u64> = (0..n).map(|_| cx.rng.u64()).collect();
    let outs: Vec<(usize, Result<R, Outcome>)> = std::thread::scope(|s| {
        let hs: Vec<_> = fs
            .into_iter()
            .enumerate()
            .map(|(id, f)| {
                let (cm, bar, order, slot, seed) =
                    (cm.clone(), bar.clone(), &order, slot.clone(), seeds[id]);
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn_scoped(s, move || {
                        let t = slot.as_ref().map(|s| s.enter());
                        bar.wait();
                        set_logging(log);
                        mon::enter(cm, id, Rng::new(seed ^ 0x5eed), profile);
                        let r = catch_unwind(AssertUnwindSafe(|| f(Rng::new(seed))));
                        let r = r.map_err(classify);
                        mon::leave();
                        if let (Some(s), Some(t)) = (&slot, t) {
                            s.leave(t);
                        }
                        (order.fetch_add(1, SeqCst), r)
                    })
                    .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("join")).collect()
    });
    let st = cm.stat();
    if monitored {
        cx.count("node locks taken", st.acquired);
        cx.count("node locks contended", st.contended);
        cx.count("node locks taken while holding another", st.nested);
        cx.count("lock hand-overs between threads", st.switches);
        cx.count("delays injected", st.delays);
        cx.fp(cm.sequence());
        if st.switches > 3 {
            cx.nontrivial();
        }
    } else {
        cx.nontrivial();
    }
    cx.count("threads", n as u64);
    if let Some(r) = cm.report() {
        violation(r);
    }
    let mut bad: Vec<(u8, usize, Outcome)> = vec![];
    let mut res = vec![];
    for (t, (k, o)) in outs.into_iter().enumerate() {
        match o {
            Ok(r) => res.push(r),
            Err(o) => {
                let (p, o) = match o {
                    Outcome::Harness(m) => (0, Outcome::Harness(m)),
                    Outcome::Violation(m) if m.contains("PoisonError") => {
                        (2, Outcome::Violation(format!("thread {} {}", t, m)))
                    }
                    Outcome::Violation(m) => (1, Outcome::Violation(format!("thread {}: {}", t, m))),
                    Outcome::Ok => continue,
                };
                bad.push((p, k, o));
            }
        }
    }
    bad.sort_by_key(|b| (b.0, b.1));
    match bad.into_iter().next() {
        None => res,
        Some((_, _, Outcome::Harness(m))) => harness_error(m),
        Some((_, _, Outcome::Violation(m))) => violation(m),
        Some(_) => unreachable!(),
    }
}

// ------------------------------------------------------------------ registers

#[derive(Clone, Copy, Debug)]
struct Ev {
    reg: usize,
    write: bool,
    val: u64,
    inv: u64,
    res: u64,
    thread: usize,
    how: &'static str,
}

/// Linearizability of every register, the values written to one register are unique: all
/// operations with the same value form a zone from the first response to the last invocation.
fn check_registers(evs: &[Ev], name: &dyn Fn(usize, u64) -> String) -> Result<(u64, u64), String> {
    let mut by: HashMap<usize, HashMap<u64, Vec<&Ev>>> = HashMap::new();
    for e in evs {
        by.entry(e.reg).or_default().entry(e.val).or_default().push(e);
    }
    let (mut reads, mut overl) = (0, 0);
    for (reg, vals) in &by {
        // (first response, last invocation, value)
        let mut fwd: Vec<(u64, u64, u64)> = vec![];
        let mut bwd: Vec<(u64, u64, u64)> = vec![];
        for (val, es) in vals {
            let w = match es.iter().find(|e| e.write) {
                Some(w) => w,
                None => {
                    return Err(format!(
                        "{} was read by {} of thread {}, but was never written",
                        name(*reg, *val),
                        es[0].how,
                        es[0].thread
                    ))
                }
            };
            for e in es {
                if !e.write {
                    reads += 1;
                    if e.res < w.inv {
                        return Err(format!(
                            "{} was read by {} of thread {} before it was written",
                            name(*reg, *val),
                            e.how,
                            e.thread
                        ));
                    }
                    if e.inv < w.res {
                        overl += 1;
                    }
                }
            }
            let f = es.iter().map(|e| e.res).min().unwrap();
            let s = es.iter().map(|e| e.inv).max().unwrap();
            if f < s {
                fwd.push((f, s, *val));
            } else {
                bwd.push((s, f, *val));
            }
        }
        fwd.sort();
        let tell = |a: u64, b: u64| {
            let mut v: Vec<&&Ev> = vals[&a].iter().chain(vals[&b].iter()).collect();
            v.sort_by_key(|e| e.inv);
            v.iter()
                .take(40)
                .map(|e| {
                    format!(
                        "[{}..{}] thread {} {} {} by {}",
                        e.inv,
                        e.res,
                        e.thread,
                        if e.write { "writes" } else { "reads" },
                        name(*reg, e.val),
                        e.how
                    )
                })
                .collect::<Vec<_>>()
                .join("; ")
        };
        for p in fwd.windows(2) {
            if p[1].0 < p[0].1 {
                return Err(format!(
                    "an overwritten value came back: {}",
                    tell(p[0].2, p[1].2)
                ));
            }
        }
        for b in &bwd {
            // the zone with the largest start before b
            let k = fwd.partition_point(|f| f.0 < b.0);
            if k > 0 && b.1 < fwd[k - 1].1 {
                return Err(format!(
                    "a write was lost or an overwritten value was read: {}",
                    tell(fwd[k - 1].2, b.2)
                ));
            }
        }
    }
    Ok((reads, overl))
}

struct Log<'a> {
    clock: &'a AtomicU64,
    thread: usize,
    v: Vec<Ev>,
}

impl<'a> Log<'a> {
    fn now(&self) -> u64 {
        self.clock.fetch_add(1, SeqCst)
    }
    fn ev(&mut self, reg: usize, write: bool, val: u64, inv: u64, res: u64, how: &'static str) {
        self.v.push(Ev {
            reg,
            write,
            val,
            inv,
            res,
            thread: self.thread,
            how,
        });
    }
}

fn link_named<T: Sc>(r: &mut Rng, id: u64) -> k::Link<T> {
    let mut l: k::Link<T> = gen_link(r, 0);
    l.name = format!("L{}", id);
    l
}
fn link_id(name: &str) -> u64 {
    name.strip_prefix('L')
        .and_then(|x| x.parse().ok())
        .unwrap_or(u64::MAX)
}

/// The two halves of a value must belong together
fn regs<T: Sc>(cx: &mut Cx) {
    let g = GenOpt {
        min: 2,
        max: *cx.rng.pick(&[3, 6, 12]),
        unique_names: true,
        links: 1.0,
        limits: 0.0,
        fixed: 0.1,
        wild: false,
        velocities: cx.rng.p(0.5),
        ..GenOpt::default()
    };
    let mut s = gen_spec::<T>(&mut cx.rng, &g);
    for (i, n) in s.n.iter_mut().enumerate() {
        n.link = Some(link_named(&mut cx.rng, 0));
        // nobody writes this value
        n.pos = T::of(-(i as f64) - 1.0);
    }
    let n = s.n.len();
    let movable: Vec<usize> = (0..n).filter(|i| s.n[*i].kind != Kind::Fixed).collect();
    // leaders and followers
    let mut leader: Vec<Option<(usize, f64, f64)>> = vec![None; n];
    if movable.len() >= 2 && cx.rng.p(0.6) {
        let l = *cx.rng.pick(&movable);
        let mut two = movable.clone();
        two.retain(|x| *x != l);
        cx.rng.shuffle(&mut two);
        let l2 = if two.len() > 2 && cx.rng.p(0.4) { two.pop() } else { None };
        for f in two.into_iter().take(cx.rng.range(1, 3)) {
            let l = match l2 {
                Some(l2) if cx.rng.p(0.4) => l2,
                _ => l,
            };
            let m = *cx.rng.pick(&[1.0, -1.0, 2.0, 0.5]);
            let o = *cx.rng.pick(&[0.0, 0.25, -1.5]);
            leader[f] = Some((l, m, o));
            s.mimic.push((f, l, T::of(m), T::of(o)));
            // follower positions never collide with the first one
            s.n[f].pos = T::of(-1000.0 - f as f64);
        }
    }
    let with_mimic = !s.mimic.is_empty();
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    let w = World::new(s);
    let mut nt = cx.rng.range(2, 4);
    let mut ops = *cx.rng.pick(&[6usize, 15, 40]);
    if cx.rng.p(0.03) {
        nt = cx.rng.range(5, 10);
        ops = 6;
    }
    cx.sample = Some(format!(
        "registers: {} {} nodes, {} followers, {} threads, {} calls each",
        T::NAME,
        n,
        w.s.mimic.len(),
        nt,
        ops
    ));
    let followers: Vec<Vec<(usize, f64, f64)>> = (0..n)
        .map(|l| {
            (0..n)
                .filter_map(|f| leader[f].filter(|x| x.0 == l).map(|x| (f, x.1, x.2)))
                .collect()
        })
        .collect();
    // every thread has views of its own
    let views: Vec<Vec<(Arc<V<T>>, Vec<usize>)>> = (0..nt)
        .map(|_| {
            let mut v = vec![(Arc::new(V::C(Chain::from_root(w.nodes[0].clone()))), vec![])];
            for _ in 0..2 {
                let (a, _, _, _) = gen_view(&w, &mut cx.rng);
                v.push((a, vec![]));
            }
            for x in &mut v {
                x.1 = chain_idx(&w, x.0.c());
            }
            v
        })
        .collect();
    // which calls are common in this case
    let mut weights: Vec<f64> = (0..14)
        .map(|_| if cx.rng.p(0.4) { 0.0 } else { cx.rng.unit() })
        .collect();
    weights[0] += 0.7; // reads
    weights[1] += 0.7; // writes
    let clock = AtomicU64::new(1);
    let (w, followers, weights) = (&w, &followers, &weights);
    let fs: Vec<Box<dyn FnOnce(Rng) -> (Vec<Ev>, [u64; 14]) + Send + '_>> = views
        .iter()
        .enumerate()
        .map(|(t, views)| {
            let clock = &clock;
            Box::new(move |mut r: Rng| {
                let mut log = Log {
                    clock,
                    thread: t,
                    v: vec![],
                };
                let mut done = [0u64; 14];
                let mut links: Rng = Rng::new(r.u64());
                let mut seq = 0u64;
                for _ in 0..ops {
                    let mut x = r.unit() * weights.iter().sum::<f64>();
                    let mut op = 0;
                    while op < 13 && x >= weights[op] {
                        x -= weights[op];
                        op += 1;
                    }
                    done[op] += 1;
                    let (view, idx) = &views[r.below(views.len())];
                    let i = r.below(w.len());
                    reg_op(w, &mut log, &mut r, &mut links, op, view, idx, i, followers, with_mimic, &mut seq, nt);
                }
                (log.v, done)
            }) as Box<dyn FnOnce(Rng) -> _ + Send + '_>
        })
        .collect();
    let out = together(cx, fs);
    const NAMES: [&str; 14] = [
        "calls: node reads",
        "calls: node writes",
        "calls: chain joint_positions",
        "calls: chain writes",
        "calls: set_link",
        "calls: link reads",
        "calls: update_transforms",
        "calls: update_velocities",
        "calls: update_link_transforms",
        "calls: clone",
        "calls: jacobian and end_transform",
        "calls: center_of_mass",
        "calls: display",
        "calls: find and iterators",
    ];
    let mut evs = vec![];
    for (e, d) in out {
        evs.extend(e);
        for (k, n) in NAMES.iter().zip(d) {
            cx.count(k, n);
        }
    }
    // initial values, and the values when all is quiet
    for i in 0..n {
        if w.movable(i) {
            evs.push(Ev {
                reg: i,
                write: true,
                val: w.s.n[i].pos.bits(),
                inv: 0,
                res: 0,
                thread: 99,
                how: "start",
            });
            let now = clock.fetch_add(1, SeqCst);
            evs.push(Ev {
                reg: i,
                write: false,
                val: T::of(w.pos(i)).bits(),
                inv: now,
                res: now,
                thread: 99,
                how: "final read",
            });
        }
        evs.push(Ev {
            reg: n + i,
            write: true,
            val: 0,
            inv: 0,
            res: 0,
            thread: 99,
            how: "start",
        });
    }
    // a register nobody read
    let name = |reg: usize, val: u64| -> String {
        if reg >= n {
            format!("link 'L{}' of node {}", val, reg - n)
        } else {
            let x = if T::F32 {
                f64::from(f32::from_bits(val as u32))
            } else {
                f64::from_bits(val)
            };
            format!("position {} of joint {}", x, reg)
        }
    };
    cx.t(|| {
        let mut e = evs.clone();
        e.sort_by_key(|e| e.inv);
        e.iter()
            .map(|e| format!("[{}..{}] t{} {} {} by {}", e.inv, e.res, e.thread, if e.write { "write" } else { "read" }, name(e.reg, e.val), e.how))
            .collect::<Vec<_>>()
            .join("\n")
    });
    match check_registers(&evs, &name) {
        Err(m) => violation(m),
        Ok((reads, over)) => {
            cx.count("register reads checked", reads);
            cx.count("reads overlapping the write they return", over);
            cx.count("register writes checked", evs.len() as u64 - reads);
        }
    }
    // a leader and its followers agree
    for (f, l, m, o) in &w.s.mimic {
        let lp = w.pos(*l);
        // nobody moved the leader
        if lp == w.s.n[*l].pos.d() {
            continue;
        }
        let want = T::of(m.d() * lp + o.d());
        if T::of(w.pos(*f)) != want {
            violation(format!(
                "joint {} follows joint {} with {}*x+{}, but they are at {} and {} after all threads have stopped",
                f, l, m.d(), o.d(), w.pos(*f), lp
            ));
        }
        cx.hit("leaders compared with followers");
    }
    settle(cx, w);
}

/// after all threads have stopped
fn settle<T: Sc>(cx: &mut Cx, w: &World<T>) {
    let q = w.positions();
    let fk = w.fk(&q);
    let c = Chain::from_root(w.nodes[0].clone());
    match cx.rng.below(3) {
        0 => {
            c.update_link_transforms();
        }
        1 => {
            let vel = ref_velocities(w, &q);
            let got = c.update_velocities();
            for (g, i) in got.iter().zip(chain_idx(w, &c)) {
                check_vel(w, "after all threads have stopped", i, g, &vel, &q);
            }
        }
        _ => {
            let got = c.update_transforms();
            for (g, i) in got.iter().zip(chain_idx(w, &c)) {
                w.check_pose("after all threads have stopped", i, g, &fk[i], &q);
            }
        }
    }
    for i in 0..w.len() {
        match w.nodes[i].world_transform() {
            None => violation(format!("node {} has no world transform after the update", i)),
            Some(t) => w.check_pose("after all threads have stopped", i, &t, &fk[i], &q),
        }
    }
    cx.hit("final states checked");
}

/// a value which is written only once
fn fresh<T: Sc>(log: &Log, seq: &mut u64, nt: usize) -> T {
    *seq += 1;
    T::of((*seq * nt as u64 + log.thread as u64) as f64 / 64.0)
}

#[allow(clippy::too_many_arguments)]
fn reg_op<T: Sc>(
    w: &World<T>,
    log: &mut Log,
    r: &mut Rng,
    links: &mut Rng,
    op: usize,
    view: &V<T>,
    idx: &[usize],
    i: usize,
    followers: &[Vec<(usize, f64, f64)>],
    with_mimic: bool,
    seq: &mut u64,
    nt: usize,
) {
    let n = w.len();
    let is_follower = |i: usize| w.s.mimic.iter().any(|m| m.0 == i);
    let wrote = |log: &mut Log, i: usize, p: T, inv: u64, res: u64, how: &'static str| {
        if is_follower(i) {
            return;
        }
        log.ev(i, true, p.bits(), inv, res, how);
        for (f, m, o) in &followers[i] {
            log.ev(*f, true, T::of(m * p.d() + o).bits(), inv, res, how);
        }
    };
    match op {
        0 => {
            if w.movable(i) {
                let inv = log.now();
                let (p, how) = match r.below(2) {
                    0 => (w.nodes[i].joint_position(), "joint_position"),
                    _ => (w.nodes[i].joint().joint_position(), "joint().joint_position"),
                };
                let res = log.now();
                match p {
                    Some(p) => log.ev(i, false, p.bits(), inv, res, how),
                    None => violation(format!("joint {} lost its position", i)),
                }
            }
        }
        1 => {
            if w.movable(i) {
                let p = fresh::<T>(log, seq, nt);
                let inv = log.now();
                let how = match r.below(3) {
                    0 if !with_mimic => {
                        w.nodes[i].set_joint_position_clamped(p);
                        "set_joint_position_clamped"
                    }
                    1 if !with_mimic => {
                        w.nodes[i].set_joint_position_unchecked(p);
                        "set_joint_position_unchecked"
                    }
                    _ => {
                        if let Err(e) = w.nodes[i].set_joint_position(p) {
                            violation(format!("set_joint_position of joint {} failed: {}", i, e));
                        }
                        "set_joint_position"
                    }
                };
                let res = log.now();
                wrote(log, i, p, inv, res, how);
            }
        }
        2 => {
            let inv = log.now();
            let ps = view.c().joint_positions();
            let res = log.now();
            let mov: Vec<usize> = idx.iter().copied().filter(|i| w.movable(*i)).collect();
            if ps.len() != mov.len() {
                violation(format!("{} joint positions of {} joints", ps.len(), mov.len()));
            }
            for (p, i) in ps.iter().zip(mov) {
                log.ev(i, false, p.bits(), inv, res, "joint_positions");
            }
        }
        3 => {
            let mov: Vec<usize> = idx.iter().copied().filter(|i| w.movable(*i)).collect();
            let ps: Vec<T> = mov.iter().map(|_| fresh::<T>(log, seq, nt)).collect();
            let inv = log.now();
            let how = match r.below(3) {
                0 if !with_mimic => {
                    view.c().set_joint_positions_clamped(&ps);
                    "set_joint_positions_clamped"
                }
                1 if !with_mimic => {
                    view.c().set_joint_positions_unchecked(&ps);
                    "set_joint_positions_unchecked"
                }
                _ => {
                    if let Err(e) = view.c().set_joint_positions(&ps) {
                        violation(format!("set_joint_positions failed: {}", e));
                    }
                    "set_joint_positions"
                }
            };
            let res = log.now();
            for (p, i) in ps.iter().zip(mov) {
                wrote(log, i, *p, inv, res, how);
            }
        }
        4 => {
            *seq += 1;
            let id = *seq * nt as u64 + log.thread as u64;
            let l = link_named::<T>(links, id);
            let inv = log.now();
            w.nodes[i].set_link(Some(l));
            let res = log.now();
            log.ev(n + i, true, id, inv, res, "set_link");
        }
        5 => {
            if r.p(0.5) {
                let inv = log.now();
                let name = w.nodes[i].link().as_ref().map(|l| l.name.clone());
                let res = log.now();
                match name {
                    None => violation(format!("node {} lost its link", i)),
                    Some(s) => log.ev(n + i, false, link_id(&s), inv, res, "link"),
                }
            } else {
                let inv = log.now();
                let names: Vec<String> = view.c().iter_links().map(|l| l.name.clone()).collect();
                let res = log.now();
                if names.len() != idx.len() {
                    violation(format!("iter_links yields {} links of {} nodes", names.len(), idx.len()));
                }
                for (s, i) in names.iter().zip(idx) {
                    log.ev(n + i, false, link_id(s), inv, res, "iter_links");
                }
            }
        }
        6 => {
            let t = view.c().update_transforms();
            if t.len() != idx.len() {
                violation(format!("{} transforms of {} nodes", t.len(), idx.len()));
            }
            rigid(&t);
        }
        7 => {
            let t = view.c().update_velocities();
            if t.len() != idx.len() {
                violation(format!("{} velocities of {} nodes", t.len(), idx.len()));
            }
        }
        8 => view.c().update_link_transforms(),
        9 => {
            // only chains which start at the root can be cloned
            if idx[0] == 0 {
                let inv = log.now();
                let c = view.c().clone();
                let res = log.now();
                let v: Vec<_> = c.iter().collect();
                if v.len() != idx.len() {
                    violation(format!("a clone has {} nodes instead of {}", v.len(), idx.len()));
                }
                for (x, i) in v.iter().zip(idx) {
                    if w.movable(*i) {
                        let p = x.joint_position().map(|p| p.bits()).unwrap_or(u64::MAX);
                        log.ev(*i, false, p, inv, res, "clone");
                    }
                    let s = x.link().as_ref().map(|l| l.name.clone()).unwrap_or_default();
                    log.ev(n + i, false, link_id(&s), inv, res, "link of a clone");
                    if x.joint().name != w.s.n[*i].name {
                        violation("a clone has the wrong joint names".into());
                    }
                }
            }
        }
        10 => {
            if let V::S(s) = view {
                rigid(&[s.end_transform()]);
                let j = k::jacobian(s);
                if j.nrows() != 6 || j.ncols() != s.dof() || j.iter().any(|x| !x.is_finite()) {
                    violation(format!("jacobian has shape {:?} or is not finite", j.shape()));
                }
            }
        }
        11 => {
            let c = k::center_of_mass(view.c());
            let _ = c;
        }
        12 => {
            let s = format!("{}", view.c());
            // joint names contain no line breaks; a chain in the middle or a part of the tree
            // prints its nodes and no others (of a list of any nodes, those below the first one)
            let rows = idx.iter().filter(|i| w.path(**i).contains(&idx[0])).count();
            if s.lines().count() != rows {
                violation(format!("{} lines for {} nodes:\n{}", s.lines().count(), rows, s));
            }
        }
        _ => {
            let name = &w.s.n[i].name;
            let f = view.c().find(name).map(|x| w.idx(x));
            if f != if idx.contains(&i) { Some(i) } else { None } {
                violation(format!("find({:?}) returns {:?}", name, f));
            }
            let d: Vec<Node<T>> = w.nodes[i].iter_descendants().collect();
            if d.len() != w.subtree(i).len() {
                violation(format!("{} descendants of node {}", d.len(), i));
            }
            let a: Vec<Node<T>> = w.nodes[i].iter_ancestors().collect();
            if a.len() != w.path(i).len() {
                violation(format!("{} ancestors of node {}", a.len(), i));
            }
            let names: Vec<String> = view.c().iter_joints().map(|j| j.name.clone()).collect();
            if names.len() != view.c().dof() {
                violation(format!("{} joints, dof is {}", names.len(), view.c().dof()));
            }
            let c = w.nodes[i].children().len();
            if (c == 0) != w.nodes[i].is_end() || (i == 0) != w.nodes[i].is_root() {
                violation(format!("is_end or is_root of node {} is wrong", i));
            }
            if w.nodes[i].parent().map(|p| w.idx(&p)) != w.s.n[i].parent {
                violation(format!("parent of node {} is wrong", i));
            }
        }
    }
}

fn rigid<T: Sc>(ts: &[k::Isometry3<T>]) {
    for t in ts {
        let q = quat(&t.rotation);
        let n = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).sqrt();
        if !((n - 1.0).abs() < 1e4 * T::EPS) || !norm(v3(&t.translation.vector)).is_finite() {
            violation(format!("a transform is not a rigid motion: {:?} {:?}", q, v3(&t.translation.vector)));
        }
    }
}

// ------------------------------------------------------------------ solvers on disjoint arms

struct Job<T: Sc> {
    first: usize,
    end: usize,
    targets: Vec<k::Isometry3<T>>,
    con: Constraints,
    start: Vec<T>,
}

fn solver_of<T: Sc>(null: Option<f64>) -> JacobianIkSolver<T> {
    let t = if T::F32 { 2e-3 } else { 1e-4 };
    let mut s = JacobianIkSolver::new(T::of(t), T::of(t), T::of(0.6), 40);
    if let Some(x) = null {
        // for arms of any length
        s.set_nullspace_function(Box::new(move |q: &[T]| q.iter().map(|p| T::of(x) - *p * T::of(0.1)).collect()));
    }
    s
}

/// (results, positions after each call)
fn run_job<T: Sc>(w: &World<T>, j: &Job<T>, solver: &JacobianIkSolver<T>) -> (Vec<String>, Vec<Vec<u64>>) {
    let arm = SerialChain::from_end_to_root(&w.nodes[j.end], &w.nodes[j.first]);
    let mut res = vec![];
    let mut pos = vec![];
    for t in &j.targets {
        let r = solver.solve_with_constraints(&arm, t, &j.con);
        res.push(match r {
            Ok(()) => "Ok".to_string(),
            Err(e) => format!("{:?}", e),
        });
        pos.push(arm.joint_positions().iter().map(|x| x.bits()).collect());
    }
    (res, pos)
}

fn arms<T: Sc>(cx: &mut Cx) {
    let na = cx.rng.range(2, 3);
    // a trunk, arms, and a tail for other work
    let g = GenOpt {
        unique_names: true,
        links: 0.5,
        path: true,
        wild: false,
        legal: true,
        limits: 0.3,
        fixed: 0.1,
        linear: 0.1,
        ..GenOpt::default()
    };
    let mut s = gen_spec::<T>(&mut cx.rng, &GenOpt { min: 1, max: 3, ..g });
    let trunk = s.n.len();
    let mut ends = vec![];
    for a in 0..=na {
        let (min, max) = if a == na { (1, 5) } else { (*cx.rng.pick(&[2, 4, 6]), 8) };
        let b = gen_spec::<T>(&mut cx.rng, &GenOpt { min, max, ..g });
        let off = s.n.len();
        let at = cx.rng.below(trunk);
        let len = b.n.len();
        for (i, mut n) in b.n.into_iter().enumerate() {
            n.name = format!("{}_{}", a, n.name);
            n.parent = Some(if i == 0 { at } else { off + i - 1 });
            s.n.push(n);
        }
        ends.push((off, off + len - 1));
    }
    s.order = (1..s.n.len()).collect();
    cx.rng.shuffle(&mut s.order);
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    let w = World::new(s.clone());
    let alone = World::new(s);
    let mut jobs = vec![];
    for (first, end) in &ends[..na] {
        let idx: Vec<usize> = (*first..=*end).collect();
        let mov: Vec<usize> = idx.iter().copied().filter(|i| w.movable(*i)).collect();
        let mut con = Constraints::default();
        // as many constraints as joints, if there are few
        let mut f = [true; 6];
        // some joints may have to stay
        let mut ignored = vec![];
        while mov.len() > 1 + ignored.len() && cx.rng.p(0.15) {
            let i = *cx.rng.pick(&mov);
            if !ignored.contains(&i) {
                ignored.push(i);
            }
        }
        let free = mov.len() - ignored.len();
        con.ignored_joint_names = ignored.iter().map(|i| w.s.n[*i].name.clone()).collect();
        let drop = 6usize.saturating_sub(free).max(cx.rng.below(4));
        let mut order: Vec<usize> = (0..6).collect();
        cx.rng.shuffle(&mut order);
        for d in order.into_iter().take(drop) {
            f[d] = false;
        }
        con.position_x = f[0];
        con.position_y = f[1];
        con.position_z = f[2];
        con.rotation_x = f[3];
        con.rotation_y = f[4];
        con.rotation_z = f[5];
        let mut targets = vec![];
        let mut q = w.positions();
        for _ in 0..cx.rng.range(1, 6) {
            let step = *cx.rng.pick(&[0.02, 0.05, 0.1, 0.8]);
            for i in &mov {
                if !ignored.contains(i) || cx.rng.p(0.1) {
                    q[*i] += cx.rng.f(-step, step);
                }
            }
            let p = idx.iter().fold(Pose::ID, |a, i| a.mul(&w.local(*i, q[*i])));
            let mut m = k::nalgebra::Matrix3::identity();
            for r in 0..3 {
                for c in 0..3 {
                    m[(r, c)] = T::of(p.r[r][c]);
                }
            }
            targets.push(k::Isometry3::from_parts(
                k::Translation3::new(T::of(p.p[0]), T::of(p.p[1]), T::of(p.p[2])),
                k::UnitQuaternion::from_rotation_matrix(
                    &k::nalgebra::Rotation3::from_matrix_unchecked(m),
                ),
            ));
        }
        let start = mov.iter().map(|i| w.s.n[*i].pos).collect();
        jobs.push(Job {
            first: *first,
            end: *end,
            targets,
            con,
            start,
        });
    }
    let null = if cx.rng.p(0.4) { Some(cx.rng.f(-0.3, 0.3)) } else { None };
    let want: Vec<_> = jobs.iter().map(|j| run_job(&alone, j, &solver_of::<T>(null))).collect();
    // one solver for all threads
    let shared = Shared(solver_of::<T>(null));
    let share = T::SOLVER_SYNC && cx.rng.p(0.5);
    if share {
        cx.hit("robots with arms moved by one shared solver");
    }
    let shared = &shared;
    cx.sample = Some(format!(
        "{} disjoint arms {:?} of a robot with {} joints ({})",
        na,
        &ends[..na],
        w.len(),
        T::NAME
    ));
    let tail = ends[na];
    let busy = cx.rng.range(0, 2);
    type R = Option<(Vec<String>, Vec<Vec<u64>>)>;
    let wr = &w;
    let running = AtomicUsize::new(na);
    let mut fs: Vec<Box<dyn FnOnce(Rng) -> R + Send + '_>> = vec![];
    for j in &jobs {
        let running = &running;
        fs.push(Box::new(move |_| {
            struct Done<'a>(&'a AtomicUsize);
            impl Drop for Done<'_> {
                fn drop(&mut self) {
                    self.0.fetch_sub(1, SeqCst);
                }
            }
            let _d = Done(running);
            let shared: &Shared<JacobianIkSolver<T>> = shared;
            Some(if share { run_job(wr, j, &shared.0) } else { run_job(wr, j, &solver_of::<T>(null)) })
        }));
    }
    for _ in 0..busy {
        let running = &running;
        fs.push(Box::new(move |mut r| {
            // until the solvers are ready
            let c = Chain::from_root(wr.nodes[0].clone());
            for _ in 0..200 {
                if running.load(SeqCst) == 0 {
                    break;
                }
                match r.below(9) {
                    0 => {
                        c.update_transforms();
                    }
                    1 => {
                        c.update_velocities();
                    }
                    2 => c.update_link_transforms(),
                    3 => {
                        let _ = format!("{}", c);
                    }
                    4 => {
                        let _ = c.clone();
                    }
                    5 => {
                        let _ = k::center_of_mass(&c);
                    }
                    6 => {
                        let _ = c.joint_positions();
                    }
                    _ => {
                        let i = r.range(tail.0, tail.1);
                        let _ = wr.nodes[i].set_joint_position(T::of(r.f(-1.0, 1.0)));
                        let _ = wr.nodes[r.below(wr.len())].world_transform();
                    }
                }
            }
            None
        }));
    }
    let got = together(cx, fs);
    for (k, (g, want)) in got.into_iter().flatten().zip(&want).enumerate() {
        let moved = want.1.last().map(|p| *p != jobs[k].start.iter().map(|x| x.bits()).collect::<Vec<_>>());
        if g != *want {
            violation(format!(
                "IK of arm {} gives {:?} {:x?}, alone it gives {:?} {:x?}",
                k, g.0, g.1, want.0, want.1
            ));
        }
        cx.count("IK results compared with those of the arm alone", g.0.len() as u64);
        cx.count("of these successful", g.0.iter().filter(|x| *x == "Ok").count() as u64);
        if moved == Some(true) {
            cx.hit("arms moved by IK");
        }
    }
    settle(cx, wr);
}

// ------------------------------------------------------------------ any mix of calls

fn chaos<T: Sc>(cx: &mut Cx) {
    let g = GenOpt {
        min: 2,
        max: *cx.rng.pick(&[4, 10, 24]),
        limits: 0.3,
        legal: true,
        unique_names: true,
        wild: false,
        velocities: cx.rng.p(0.5),
        path: cx.rng.p(0.4),
        ..GenOpt::default()
    };
    let mut s = gen_spec::<T>(&mut cx.rng, &g);
    if s.n.len() >= 3 && cx.rng.p(0.5) {
        crate::p_tree::gen_mimics(cx, &mut s, false);
    }
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    let mut w = World::new(s);
    let mut nt = cx.rng.range(2, 5);
    let mut ops = *cx.rng.pick(&[4usize, 10, 25]);
    if cx.rng.p(0.03) {
        nt = cx.rng.range(6, 12);
        ops = 5;
    }
    let origins = cx.rng.p(0.3);
    cx.sample = Some(format!(
        "mix of calls: {} {} nodes, {} threads, {} calls each",
        T::NAME,
        w.len(),
        nt,
        ops
    ));
    let arm_ends: Vec<usize> = (0..w.len()).collect();
    let wr = &w;
    let mut common = JacobianIkSolver::new(T::of(0.001), T::of(0.01), T::of(0.5), 4);
    if cx.rng.p(0.5) {
        common.set_nullspace_function(Box::new(|q: &[T]| q.iter().map(|p| -*p * T::of(0.1)).collect()));
    }
    let common = Shared(common);
    let common = &common;
    let ends = &arm_ends;
    let fs: Vec<Box<dyn FnOnce(Rng) -> [u64; 12] + Send + '_>> = (0..nt)
        .map(|_| {
            Box::new(move |mut r: Rng| {
                let mut done = [0u64; 12];
                let n = wr.len();
                for _ in 0..ops {
                    let i = r.below(n);
                    let op = r.below(12);
                    done[op] += 1;
                    let (v, idx, _, _) = gen_view(wr, &mut r);
                    let c = v.c();
                    let pos = |r: &mut Rng| T::of(r.f(-2.0, 2.0));
                    match op {
                        0 => match r.below(3) {
                            0 => {
                                let _ = wr.nodes[i].set_joint_position(pos(&mut r));
                            }
                            1 => wr.nodes[i].set_joint_position_clamped(pos(&mut r)),
                            _ => {
                                if wr.movable(i) {
                                    wr.nodes[i].set_joint_position_unchecked(pos(&mut r))
                                }
                            }
                        },
                        1 => {
                            let ps: Vec<T> = (0..c.dof()).map(|_| pos(&mut r)).collect();
                            match r.below(3) {
                                0 => {
                                    let _ = c.set_joint_positions(&ps);
                                }
                                1 => c.set_joint_positions_clamped(&ps),
                                _ => c.set_joint_positions_unchecked(&ps),
                            }
                        }
                        2 => {
                            c.update_transforms();
                        }
                        3 => {
                            c.update_velocities();
                        }
                        4 => c.update_link_transforms(),
                        5 => {
                            let p = wr.path(*r.pick(ends));
                            let a = r.below(p.len());
                            let s = SerialChain::from_end_to_root(&wr.nodes[p[p.len() - 1]], &wr.nodes[p[a]]);
                            let _ = k::jacobian(&s);
                            let _ = s.end_transform();
                        }
                        6 => {
                            let _ = k::center_of_mass(c);
                        }
                        7 => {
                            let p = wr.path(*r.pick(ends));
                            let s = SerialChain::from_end(&wr.nodes[p[p.len() - 1]]);
                            let t = s.end_transform() * k::Translation3::new(T::of(0.01), T::of(0.02), T::of(0.0));
                            let mut con = Constraints::default();
                            con.rotation_x = r.p(0.5);
                            con.rotation_y = r.p(0.5);
                            con.position_z = r.p(0.5);
                            if s.dof() > 2 && r.p(0.4) {
                                let j = r.below(s.dof());
                                let name = s.iter_joints().nth(j).map(|j| j.name.clone());
                                con.ignored_joint_names.extend(name);
                            }
                            let common: &Shared<JacobianIkSolver<T>> = common;
                            if T::SOLVER_SYNC && r.p(0.6) {
                                let _ = common.0.solve_with_constraints(&s, &t, &con);
                            } else {
                                let solver = JacobianIkSolver::new(T::of(0.001), T::of(0.01), T::of(0.5), 4);
                                let _ = solver.solve_with_constraints(&s, &t, &con);
                            }
                        }
                        8 => {
                            let _ = format!("{}", c);
                        }
                        9 => {
                            if idx[0] == 0 || chain_idx(wr, c)[0] == 0 {
                                let d = c.clone();
                                d.update_transforms();
                            }
                        }
                        10 => {
                            let l = if r.p(0.7) { Some(gen_link(&mut r, i)) } else { None };
                            wr.nodes[i].set_link(l);
                            let _ = c.iter_links().map(|l| l.name.clone()).collect::<Vec<_>>();
                        }
                        _ => {
                            if origins {
                                wr.nodes[i].set_origin(gen_origin(&mut r));
                            }
                            let _ = c.joint_positions();
                            let _ = wr.nodes[i].world_transform();
                            let _ = wr.nodes[i].world_velocity();
                            let _ = wr.nodes[i].mimic_parent();
                            let _ = c.find(&wr.s.n[i].name);
                        }
                    }
                }
                done
            }) as Box<dyn FnOnce(Rng) -> _ + Send + '_>
        })
        .collect();
    let out = together(cx, fs);
    cx.count("mixed calls", out.iter().map(|d| d.iter().sum::<u64>()).sum());
    cx.count("mixed calls: IK on shared joints", out.iter().map(|d| d[7]).sum());
    for i in 0..w.len() {
        let o = w.nodes[i].origin();
        w.s.n[i].origin = o;
    }
    settle(cx, &w);
}

// ------------------------------------------------------------------ limits

/// Joints with limits moved by checked and clamping setters never leave them, whoever reads
fn limits<T: Sc>(cx: &mut Cx) {
    let g = GenOpt {
        min: 1,
        max: 5,
        limits: 1.0,
        legal: true,
        unique_names: true,
        fixed: 0.0,
        wild: false,
        links: 0.0,
        path: cx.rng.p(0.5),
        ..GenOpt::default()
    };
    let s = gen_spec::<T>(&mut cx.rng, &g);
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    let w = World::new(s);
    let wr = &w;
    let nt = cx.rng.range(2, 4);
    let ops = *cx.rng.pick(&[8usize, 20]);
    cx.sample = Some(format!("limits: {} nodes, {} threads", w.len(), nt));
    let seen = Mutex::new(0u64);
    let fs: Vec<Box<dyn FnOnce(Rng) + Send + '_>> = (0..nt)
        .map(|_| {
            let seen = &seen;
            Box::new(move |mut r: Rng| {
                let c = Chain::from_root(wr.nodes[0].clone());
                let idx = chain_idx(wr, &c);
                let legal = |i: usize, p: T| {
                    let (a, b) = wr.s.n[i].limits.unwrap();
                    if !(p >= a && p <= b) {
                        violation(format!("joint {} is at {} outside its limits {:?}", i, p.d(), (a.d(), b.d())));
                    }
                };
                let mut k = 0;
                for _ in 0..ops {
                    let i = r.below(wr.len());
                    let x = T::of(r.f(-4.0, 4.0));
                    match r.below(5) {
                        0 => {
                            let (a, b) = wr.s.n[i].limits.unwrap();
                            let ok = wr.nodes[i].set_joint_position(x).is_ok();
                            if ok != (x >= a && x <= b) {
                                violation(format!("set_joint_position({}) ok = {}", x.d(), ok));
                            }
                        }
                        1 => wr.nodes[i].set_joint_position_clamped(x),
                        2 => {
                            let v: Vec<T> = idx.iter().map(|_| T::of(r.f(-4.0, 4.0))).collect();
                            c.set_joint_positions_clamped(&v);
                        }
                        3 if r.p(0.5) => {
                            // whether it finds something or not
                            let s = SerialChain::from_end(&wr.nodes[i]);
                            let t = s.end_transform() * k::Translation3::new(T::of(0.2), T::of(0.1), T::of(0.0));
                            let con = Constraints {
                                position_z: false,
                                rotation_x: false,
                                rotation_y: false,
                                rotation_z: false,
                                position_x: s.dof() > 1,
                                ..Constraints::default()
                            };
                            let solver = JacobianIkSolver::new(T::of(0.001), T::of(0.01), T::of(1.5), 4);
                            let _ = solver.solve_with_constraints(&s, &t, &con);
                        }
                        _ => {
                            for (i, p) in idx.iter().zip(c.joint_positions()) {
                                legal(*i, p);
                                k += 1;
                            }
                        }
                    }
                }
                *seen.lock().unwrap() += k;
            }) as Box<dyn FnOnce(Rng) + Send + '_>
        })
        .collect();
    together(cx, fs);
    cx.count("positions compared with limits", *seen.lock().unwrap());
    settle(cx, &w);
}

// ------------------------------------------------------------------ poses while joints move

/// Each joint has two positions, and some two origins; every pose which is returned or left in a
/// node while they are moved to and fro is one which the robot has with some choice of them, and
/// the parts of a link always stand at one pose.
fn poses<T: Sc>(cx: &mut Cx) {
    let path = cx.rng.p(0.6);
    let g = GenOpt {
        min: 2,
        max: if path { 5 } else { 7 },
        limits: 0.0,
        legal: true,
        unique_names: true,
        wild: false,
        links: 0.5,
        velocities: true,
        fixed: 0.2,
        path,
        ..GenOpt::default()
    };
    let s = gen_spec::<T>(&mut cx.rng, &g);
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    let w = World::new(s);
    let n = w.len();
    let origins: Vec<bool> = (0..n).map(|_| cx.rng.p(0.25)).collect();
    let mut other = w.s.clone();
    for i in 0..n {
        if origins[i] {
            other.n[i].origin = gen_spec::<T>(&mut cx.rng, &GenOpt { min: 1, max: 1, wild: false, ..g }).n[0].origin;
        }
    }
    let wb = World::with(other, w.nodes.clone());
    // the positions, and how each node may stand in its parent
    let qs: Vec<[T; 2]> = w.s.n.iter().map(|x| [x.pos, T::of(cx.rng.f(-3.0, 3.0))]).collect();
    let locals: Vec<Vec<Pose>> = (0..n)
        .map(|i| {
            let mut v = vec![w.local(i, qs[i][0].d())];
            if w.movable(i) {
                v.push(w.local(i, qs[i][1].d()));
            }
            if origins[i] {
                v.push(wb.local(i, qs[i][0].d()));
                if w.movable(i) {
                    v.push(wb.local(i, qs[i][1].d()));
                }
            }
            v
        })
        .collect();
    // of every node in every node above it (the last one: in the world)
    let among = |path: &[usize]| -> Vec<Pose> {
        let mut v = vec![Pose::ID];
        for i in path {
            v = v.iter().flat_map(|a| locals[*i].iter().map(|l| a.mul(l)).collect::<Vec<_>>()).collect();
        }
        v
    };
    let world: Vec<Vec<Pose>> = (0..n).map(|i| among(&w.path(i))).collect();
    let reach: Vec<f64> = (0..n)
        .map(|i| {
            let far = |k: &World<T>, h: usize| k.reach(i, &qs.iter().map(|x| x[h].d()).collect::<Vec<_>>());
            far(&w, 0) + far(&w, 1) + far(&wb, 0) + far(&wb, 1)
        })
        .collect();
    let tol: Vec<f64> = (0..n).map(|i| w.tol(i)).collect();
    let is = |g: &Pose, i: usize, c: &Pose, more: f64| {
        vdiff(g.p, c.p) <= more * tol[i] * reach[i] && mdiff(&g.r, &c.r) <= more * tol[i] * 4.0
    };
    let check = |what: &str, i: usize, g: &k::Isometry3<T>, of: &[Pose]| -> usize {
        let p = pose(g);
        match of.iter().position(|c| is(&p, i, c, 1.0)) {
            Some(k) => k,
            None => violation(format!(
                "{}: node {} stands at {:?}, which is at none of the positions its joints had ({} possibilities)",
                what,
                i,
                p,
                of.len()
            )),
        }
    };
    let (movers, users) = (cx.rng.range(1, 3), cx.rng.range(1, 3));
    let ops = *cx.rng.pick(&[6usize, 15, 30]);
    cx.sample = Some(format!("poses: {} {} nodes, {} movers, {} users", T::NAME, n, movers, users));
    let (wr, wbr, qsr, orr) = (&w, &wb, &qs, &origins);
    let (check, is, among, worldr) = (&check, &is, &among, &world);
    let (reachr, tolr) = (&reach, &tol);
    let seen = Mutex::new((0u64, std::collections::HashSet::new(), 0u64, 0u64, 0u64));
    let seenr = &seen;
    let mut fs: Vec<Box<dyn FnOnce(Rng) + Send + '_>> = vec![];
    for _ in 0..movers {
        fs.push(Box::new(move |mut r: Rng| {
            let c = Chain::from_root(wr.nodes[0].clone());
            let movable: Vec<usize> = chain_idx(wr, &c).into_iter().filter(|i| wr.movable(*i)).collect();
            for _ in 0..2 * ops {
                let i = r.below(n);
                if orr[i] && r.p(0.5) {
                    let o = if r.p(0.5) { wr } else { wbr };
                    wr.nodes[i].set_origin(o.s.n[i].origin);
                    continue;
                }
                match r.below(5) {
                    k @ 0..=2 if wr.movable(i) => {
                        let x = qsr[i][r.below(2)];
                        match k {
                            0 => {
                                if let Err(e) = wr.nodes[i].set_joint_position(x) {
                                    violation(format!("set_joint_position({}): {}", x.d(), e));
                                }
                            }
                            1 => wr.nodes[i].set_joint_position_clamped(x),
                            _ => wr.nodes[i].set_joint_position_unchecked(x),
                        }
                    }
                    3 => {
                        let v: Vec<T> = movable.iter().map(|i| qsr[*i][r.below(2)]).collect();
                        c.set_joint_positions_unchecked(&v);
                    }
                    _ => {
                        c.update_transforms();
                    }
                }
            }
        }));
    }
    for _ in 0..users {
        fs.push(Box::new(move |mut r: Rng| {
            let mut done = (0u64, std::collections::HashSet::new(), 0u64, 0u64, 0u64);
            for _ in 0..ops {
                let (v, _, _, d) = gen_view(wr, &mut r);
                let idx = chain_idx(wr, v.c());
                match r.below(9) {
                    6 => {
                        // the masses do not change, so the center lies within the box of all poses
                        let (mut m, mut lo, mut hi, mut far, mut most) = (0.0, [0.0; 3], [0.0; 3], 1.0f64, 0.0f64);
                        for i in &idx {
                            let l = match &wr.s.n[*i].link {
                                Some(l) if l.inertial.mass.d() > 0.0 => l,
                                Some(l) if l.inertial.mass.d() < 0.0 => {
                                    m = -1e9;
                                    continue;
                                }
                                _ => continue,
                            };
                            let x = l.inertial.mass.d();
                            let o = pose(l.inertial.origin());
                            for k in 0..3 {
                                let of = |c: &Pose| c.mul(&o).p[k];
                                lo[k] += x * worldr[*i].iter().map(of).fold(f64::INFINITY, f64::min);
                                hi[k] += x * worldr[*i].iter().map(of).fold(f64::NEG_INFINITY, f64::max);
                            }
                            m += x;
                            far = far.max(reachr[*i] + norm(o.p));
                            most = most.max(tolr[*i]);
                        }
                        let c = v3(&k::center_of_mass(v.c()));
                        let t = 8.0 * (most + idx.len() as f64 * T::EPS) * far;
                        if m > 1e-3 {
                            if !(0..3).all(|k| c[k] >= lo[k] / m - t && c[k] <= hi[k] / m + t) {
                                violation(format!(
                                    "center_of_mass of {} is {:?}, the links are such that it is between {:?} and {:?}",
                                    d,
                                    c,
                                    lo.map(|x| x / m),
                                    hi.map(|x| x / m)
                                ));
                            }
                            done.2 += 1;
                        }
                    }
                    7 => {
                        // each column is that of the poses of its joint and of the end with some positions
                        let e = r.below(n);
                        let p = wr.path(e);
                        let a = r.below(p.len());
                        let s = SerialChain::from_end_to_root(&wr.nodes[e], &wr.nodes[p[a]]);
                        let j = k::jacobian(&s);
                        let part: Vec<usize> = p[a..].to_vec();
                        let ends = among(&part);
                        let free: Vec<usize> = (0..part.len()).filter(|k| wr.movable(part[*k])).collect();
                        if j.nrows() != 6 || j.ncols() != free.len() {
                            violation(format!("jacobian of {:?} is {:?}", part, j.shape()));
                        }
                        for (c, k) in free.iter().enumerate() {
                            let i = part[*k];
                            let at = among(&part[..=*k]);
                            if at.len() * ends.len() > 20_000 {
                                continue;
                            }
                            let v = [j[(0, c)].d(), j[(1, c)].d(), j[(2, c)].d()];
                            let o = [j[(3, c)].d(), j[(4, c)].d(), j[(5, c)].d()];
                            let t = 8.0 * tolr[e] * reachr[e];
                            let ok = at.iter().any(|x| {
                                let ax = mv(&x.r, wr.axis(i));
                                if wr.s.n[i].kind == Kind::Lin {
                                    return vdiff(ax, v) <= t && norm(o) == 0.0;
                                }
                                vdiff(ax, o) <= 8.0 * tolr[e] && ends.iter().any(|y| vdiff(cross(ax, sub(y.p, x.p)), v) <= t)
                            });
                            if !ok {
                                violation(format!("column {} of the jacobian of {:?} is {:?} {:?}, which is at none of the positions", c, part, v, o));
                            }
                            done.3 += 1;
                        }
                    }
                    8 => {
                        // the velocities of the joints do not change
                        for (i, u) in idx.iter().zip(v.c().update_velocities()) {
                            let (mut most, mut spin) = (0.0, 0.0);
                            for k in wr.path(*i) {
                                let x = wr.s.n[k].vel.d().abs();
                                match wr.s.n[k].kind {
                                    Kind::Fixed => {}
                                    Kind::Lin => most += x,
                                    Kind::Rot => spin += x,
                                }
                            }
                            most += spin * 2.0 * reachr[*i];
                            let (g, o) = (norm(v3(&u.translation)), norm(v3(&u.rotation)));
                            if !(g <= most * 1.001 && o <= spin * 1.001) {
                                violation(format!("update_velocities of {}: node {} has {} and {}, at most {} and {} are possible", d, i, g, o, most, spin));
                            }
                            done.4 += 1;
                        }
                    }
                    0 | 1 => {
                        for (i, t) in idx.iter().zip(v.c().update_transforms()) {
                            done.1.insert((*i, check(&format!("update_transforms of {}", d), *i, &t, &worldr[*i])));
                            done.0 += 1;
                        }
                    }
                    2 => {
                        for n in v.c().iter() {
                            let i = wr.idx(n);
                            if let Some(t) = n.world_transform() {
                                done.1.insert((i, check("world_transform()", i, &t, &worldr[i])));
                                done.0 += 1;
                            }
                        }
                    }
                    3 => {
                        let e = r.below(n);
                        let p = wr.path(e);
                        let a = r.below(p.len());
                        let s = SerialChain::from_end_to_root(&wr.nodes[e], &wr.nodes[p[a]]);
                        let t = s.end_transform();
                        check("end_transform()", e, &t, &among(&p[a..]));
                        done.0 += 1;
                    }
                    4 => {
                        if idx[0] == 0 {
                            // nodes whose parents are left out are roots of the copy
                            let c = v.c().clone();
                            let ts = c.update_transforms();
                            for (i, t) in idx.iter().zip(ts).filter(|x| wr.path(*x.0).iter().all(|j| idx.contains(j))) {
                                check("a copy", *i, &t, &worldr[*i]);
                                done.0 += 1;
                            }
                        }
                    }
                    _ => {
                        v.c().update_link_transforms();
                        for i in &idx {
                            let l = match wr.nodes[*i].link().clone() {
                                Some(l) => l,
                                None => continue,
                            };
                            let mut parts = vec![(pose(l.inertial.origin()), *l.inertial.world_transform())];
                            parts.extend(l.visuals.iter().map(|x| (pose(x.origin()), *x.world_transform())));
                            parts.extend(l.collisions.iter().map(|x| (pose(x.origin()), *x.world_transform())));
                            let far = parts.iter().map(|x| norm(x.0.p)).fold(1.0, f64::max);
                            let ok = worldr[*i].iter().any(|c| {
                                parts.iter().all(|(o, t)| t.as_ref().is_some_and(|t| is(&pose(t), *i, &c.mul(o), 2.0 + far)))
                            });
                            if !ok {
                                violation(format!("the parts of the link of node {} do not stand at one pose it had: {:?}", i, parts));
                            }
                            done.0 += parts.len() as u64;
                        }
                    }
                }
            }
            let mut s = seenr.lock().unwrap();
            s.0 += done.0;
            s.1.extend(done.1);
            s.2 += done.2;
            s.3 += done.3;
            s.4 += done.4;
        }));
    }
    together(cx, fs);
    let (k, kinds, coms, cols, vels) = seen.into_inner().unwrap();
    cx.count("poses judged while joints moved", k);
    cx.count("centers of mass judged while joints moved", coms);
    cx.count("columns of jacobians judged while joints moved", cols);
    cx.count("velocities judged while joints moved", vels);
    cx.count("different poses of nodes seen while joints moved", kinds.len() as u64);
    let mut w = World::with(w.s.clone(), w.nodes.clone());
    for i in 0..n {
        let o = w.nodes[i].origin();
        if o == wb.s.n[i].origin {
            w.s.n[i].origin = o;
        } else if o != w.s.n[i].origin {
            violation(format!("the origin of node {} is {:?}, which it was never given", i, o));
        }
        if w.movable(i) && !w.nodes[i].joint_position().is_some_and(|x| qs[i].contains(&x)) {
            violation(format!("node {} is at {:?}", i, w.nodes[i].joint_position().map(|x| x.d())));
        }
    }
    settle(cx, &w);
}

pub fn p18(cx: &mut Cx) {
    let f32 = cx.rng.p(0.25);
    match (cx.rng.below(12), f32) {
        (10..=11, false) => poses::<f64>(cx),
        (10..=11, true) => poses::<f32>(cx),
        (0..=4, false) => regs::<f64>(cx),
        (0..=4, true) => regs::<f32>(cx),
        (5..=6, false) => arms::<f64>(cx),
        (5..=6, true) => arms::<f32>(cx),
        (7, false) => limits::<f64>(cx),
        (7, true) => limits::<f32>(cx),
        (_, false) => chaos::<f64>(cx),
        (_, true) => chaos::<f32>(cx),
    }
}

// ------------------------------------------------------------------ P26

/// Threads which attach and detach their own pieces below nodes all of them share, while others
/// use the tree.
/// walks over nodes which others attach and detach; what is found is only known to be finite
fn stroll<T: Sc>(n: &Node<T>, r: &mut Rng, nodes: usize) {
    let few = |k: usize, what: &str| {
        if k > 20 * (nodes + 1) {
            violation(format!("{} of {} nodes while others restructure the tree", what, k));
        }
    };
    match r.below(9) {
        0 | 1 => {
            let up: Vec<Node<T>> = n.iter_ancestors().take(20 * (nodes + 2)).collect();
            if up.first() != Some(n) {
                violation("the ancestors of a node do not begin with it".into());
            }
            few(up.len(), "an ancestry");
        }
        2 => few(n.iter_descendants().take(20 * (nodes + 2)).count(), "a subtree"),
        3 => {
            let p = n.parent();
            if p.as_ref() == Some(n) {
                violation("a node is its own parent".into());
            }
        }
        4 => {
            let _ = (n.is_root(), n.is_end(), n.children().len());
        }
        5 => {
            let _ = format!("{} {:?}", n, n.joint_position());
        }
        6 => {
            let c = Chain::from_end(n);
            if c.iter().last() != Some(n) {
                violation("a chain to an end does not end with it".into());
            }
            let _ = (c.joint_positions(), c.find("base0").is_some());
            let _ = c.iter_links().count();
        }
        7 => {
            let c = SerialChain::from_end(n);
            let t = c.end_transform();
            rigid(&[t]);
            let _ = c.iter_joints().count();
        }
        _ => {
            let c = Chain::from_root(n.clone());
            let _ = format!("{}", c);
            let _ = c.joint_positions();
        }
    }
}

fn restructure<T: Sc>(cx: &mut Cx) {
    let g = GenOpt {
        unique_names: true,
        links: 0.3,
        wild: false,
        limits: 0.0,
        linear: 0.2,
        fixed: 0.2,
        ..GenOpt::default()
    };
    let bmax = *cx.rng.pick(&[1, 3, 8]);
    let mut s = gen_spec::<T>(&mut cx.rng, &GenOpt { min: 1, max: bmax, ..g });
    for (i, n) in s.n.iter_mut().enumerate() {
        n.name = format!("base{}", i);
    }
    let nb = s.n.len();
    let owners = cx.rng.range(1, 4);
    let users = if owners == 1 { cx.rng.range(1, 2) } else { cx.rng.below(3) };
    // pieces of each owner: the nodes, the first is the one which is attached
    let mut pieces: Vec<Vec<Vec<usize>>> = vec![];
    for t in 0..owners {
        let mut ps = vec![];
        for k in 0..cx.rng.range(1, 4) {
            let max = *cx.rng.pick(&[1, 2, 5]);
            let b = gen_spec::<T>(&mut cx.rng, &GenOpt { min: 1, max, ..g });
            let off = s.n.len();
            for (i, mut n) in b.n.into_iter().enumerate() {
                n.name = format!("t{}p{}n{}", t, k, i);
                n.parent = n.parent.map(|p| p + off);
                s.n.push(n);
            }
            ps.push((off..s.n.len()).collect::<Vec<_>>());
        }
        pieces.push(ps);
    }
    s.order = (1..s.n.len()).filter(|i| s.n[*i].parent.is_some()).collect();
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    let w = World::new(s.clone());
    // some are attached from the beginning
    let mut kids: Vec<Vec<usize>> = (0..s.n.len()).map(|i| w.children(i)).collect();
    for ps in &pieces {
        for p in ps {
            if cx.rng.p(0.5) {
                let b = cx.rng.below(nb);
                w.nodes[p[0]].set_parent(&w.nodes[b]);
                s.n[p[0]].parent = Some(b);
                kids[b].push(p[0]);
            }
        }
    }
    let ops = *cx.rng.pick(&[5usize, 12, 30]);
    // Updates through a chain made before a subtree was moved may keep poses of before. So the
    // poses below the shared nodes are only known if the others do not update those nodes.
    let overlap = cx.rng.p(0.4);
    cx.sample = Some(format!(
        "restructuring: {} {} shared nodes, {} threads with {} nodes of their own, {} other threads, {} calls each",
        T::NAME,
        nb,
        owners,
        s.n.len() - nb,
        users,
        ops
    ));
    let q0 = w.positions();
    let (sr, wr, q0r, kr) = (&s, &w, &q0, &kids);
    type Out = (Vec<(usize, Option<usize>)>, Vec<Vec<usize>>, Vec<(usize, f64)>, [u64; 3]);
    let mut fs: Vec<Box<dyn FnOnce(Rng) -> Out + Send + '_>> = vec![];
    for own in &pieces {
        fs.push(Box::new(move |mut r: Rng| {
            let mut me = World::with(sr.clone(), wr.nodes.clone());
            let mut q = q0r.clone();
            // the own children of every node, in the order they were attached
            let mine: Vec<usize> = own.iter().flatten().copied().collect();
            let mut kids: Vec<Vec<usize>> =
                kr.iter().map(|c| c.iter().copied().filter(|c| mine.contains(c)).collect()).collect();
            let mut done = [0u64; 3];
            for _ in 0..ops {
                if r.p(0.1) {
                    let n = &wr.nodes[r.below(wr.len())];
                    stroll(n, &mut r, wr.len());
                }
                let k = r.below(own.len());
                let root = own[k][0];
                match r.below(6) {
                    0..=2 => {
                        if let Some(p) = me.s.n[root].parent {
                            me.nodes[root].remove_parent(&me.nodes[p]);
                            me.s.n[root].parent = None;
                            kids[p].retain(|c| *c != root);
                            if me.nodes[root].parent().is_some() || !me.nodes[root].is_root() {
                                violation(format!("node {} still has a parent after remove_parent", root));
                            }
                            done[1] += 1;
                        }
                        if r.p(0.7) {
                            // below a shared node or an earlier piece of this thread
                            let p = if k > 0 && r.p(0.3) {
                                let e = &own[r.below(k)];
                                e[r.below(e.len())]
                            } else {
                                r.below(nb)
                            };
                            me.nodes[root].set_parent(&me.nodes[p]);
                            me.s.n[root].parent = Some(p);
                            kids[p].push(root);
                            if me.nodes[root].parent().as_ref() != Some(&me.nodes[p]) || me.nodes[root].is_root() {
                                violation(format!("the parent of node {} is not the one just set", root));
                            }
                            if !me.nodes[p].children().iter().any(|c| *c == me.nodes[root]) || me.nodes[p].is_end() {
                                violation(format!("node {} is not a child of the parent just set", root));
                            }
                            done[0] += 1;
                        }
                    }
                    3 => {
                        let i = mine[r.below(mine.len())];
                        if me.movable(i) {
                            let x = T::of(r.f(-2.0, 2.0));
                            me.nodes[i].set_joint_position_unchecked(x);
                            q[i] = x.d();
                        }
                    }
                    _ => {
                        // poses below the shared nodes, which do not move
                        let i = mine[r.below(mine.len())];
                        let c = match r.below(3) {
                            0 => Chain::from_end(&me.nodes[i]),
                            1 => Chain::from_root(me.nodes[root].clone()),
                            _ => Chain::from_root(me.nodes[i].clone()),
                        };
                        let idx = chain_idx(&me, &c);
                        let ts = match r.below(3) {
                            0 => {
                                c.update_link_transforms();
                                c.update_transforms()
                            }
                            1 => {
                                c.update_velocities();
                                c.update_transforms()
                            }
                            _ => c.update_transforms(),
                        };
                        let fk = me.fk(&q);
                        rigid(&ts);
                        for (i, t) in idx.iter().zip(&ts).filter(|x| !overlap || *x.0 < nb) {
                            me.check_pose("while others restructure the tree", *i, t, &fk[*i], &q);
                            done[2] += 1;
                        }
                        for i in idx.iter().filter(|i| !overlap && mine.contains(i)) {
                            match me.nodes[*i].world_transform() {
                                Some(t) => me.check_pose("kept while others restructure the tree", *i, &t, &fk[*i], &q),
                                None => violation(format!("no world transform of node {} is kept", i)),
                            }
                        }
                        let arm = SerialChain::from_end(&me.nodes[i]);
                        me.check_pose("end_transform() while others restructure the tree", i, &arm.end_transform(), &fk[i], &q);
                        // the whole path up to the root
                        let up: Vec<usize> = me.nodes[i].iter_ancestors().map(|n| me.idx(&n)).collect();
                        let mut want = me.path(i);
                        want.reverse();
                        if up != want {
                            violation(format!("the ancestors of node {} are {:?} instead of {:?}", i, up, want));
                        }
                    }
                }
            }
            let rel = mine.iter().map(|i| (*i, me.s.n[*i].parent)).collect();
            let qs = mine.iter().map(|i| (*i, q[*i])).collect();
            (rel, kids, qs, done)
        }));
    }
    for _ in 0..users {
        fs.push(Box::new(move |mut r: Rng| {
            let mut done = [0u64; 3];
            let base = World::with(sr.clone(), wr.nodes.clone());
            let fk = base.fk(q0r);
            for _ in 0..ops {
                if r.p(0.4) {
                    for _ in 0..r.range(1, 8) {
                        let n = &base.nodes[r.below(base.len())];
                        stroll(n, &mut r, base.len());
                    }
                    continue;
                }
                let b = r.below(nb);
                let c = match r.below(4) {
                    0 => Chain::from_root(base.nodes[b].clone()),
                    1 => Chain::from_root(base.nodes[0].clone()),
                    _ => Chain::from_end(&base.nodes[b]),
                };
                let shared_only = c.iter().all(|n| base.idx(n) < nb);
                let idx = chain_idx(&base, &c);
                // the shared nodes are always found, and in their order
                let at: Vec<usize> = idx.iter().copied().filter(|i| *i < nb).collect();
                let mut want: Vec<usize> = if c.iter().next() == Some(&base.nodes[b]) && at.len() != base.path(b).len() {
                    (0..nb).filter(|i| base.above(b, *i)).collect()
                } else if at.len() == base.path(b).len() && at == base.path(b) {
                    at.clone()
                } else {
                    (0..nb).filter(|i| base.above(at[0], *i)).collect()
                };
                let mut have = at.clone();
                have.sort_unstable();
                want.sort_unstable();
                if have != want {
                    violation(format!("shared nodes found: {:?} instead of {:?}", have, want));
                }
                match r.below(5) {
                    k if !overlap && !shared_only && (k < 2 || k == 4) => {
                        let _ = c.joint_positions();
                        let _ = c.iter_links().map(|l| l.name.clone()).collect::<Vec<_>>();
                        let _ = SerialChain::try_new(c);
                    }
                    0..=1 => {
                        let ts = c.update_transforms();
                        rigid(&ts);
                        for (i, t) in idx.iter().zip(&ts).filter(|x| *x.0 < nb) {
                            base.check_pose("shared node", *i, t, &fk[*i], q0r);
                            done[2] += 1;
                        }
                    }
                    2 => {
                        let t = format!("{}", c);
                        for i in &at {
                            if t.matches(&format!("=> {} ", base.s.n[*i].name)).count() > 1 {
                                violation(format!("shared node {} is shown twice:\n{}", i, t));
                            }
                            if !t.contains(&base.s.n[*i].name) {
                                violation(format!("shared node {} is not shown:\n{}", i, t));
                            }
                        }
                    }
                    3 => {
                        if at[0] == 0 {
                            let d = c.clone();
                            let ts = d.update_transforms();
                            rigid(&ts);
                            for (i, t) in idx.iter().zip(&ts).filter(|x| *x.0 < nb) {
                                base.check_pose("copy of a shared node", *i, t, &fk[*i], q0r);
                                done[2] += 1;
                            }
                        }
                    }
                    _ => {
                        c.update_velocities();
                        c.update_link_transforms();
                        let _ = k::center_of_mass(&c);
                        let _ = SerialChain::try_new(c);
                    }
                }
            }
            (vec![], vec![], vec![], done)
        }));
    }
    let outs = together(cx, fs);
    let mut q = q0.clone();
    for (rel, _, qs, d) in &outs {
        for (i, p) in rel {
            s.n[*i].parent = *p;
        }
        for (i, x) in qs {
            q[*i] = *x;
        }
        cx.count("subtrees attached", d[0]);
        cx.count("subtrees detached", d[1]);
        cx.count("poses compared while restructuring", d[2]);
    }
    // the relations afterwards are the ones of the model
    let me = World::with(s.clone(), w.nodes.clone());
    for i in 0..me.len() {
        let p = me.nodes[i].parent().map(|n| me.idx(&n));
        if p != s.n[i].parent {
            violation(format!("after all threads ended, the parent of node {} is {:?} instead of {:?}", i, p, s.n[i].parent));
        }
        let have: Vec<usize> = me.nodes[i].children().iter().map(|n| me.idx(n)).collect();
        let mut all = have.clone();
        all.sort_unstable();
        let want: Vec<usize> = (0..me.len()).filter(|c| s.n[*c].parent == Some(i)).collect();
        if all != want {
            violation(format!("after all threads ended, the children of node {} are {:?} instead of {:?}", i, have, want));
        }
        // those of the base in the order of before, those of each thread in its order
        let base: Vec<usize> = have.iter().copied().filter(|c| *c < nb).collect();
        let was: Vec<usize> = kids[i].iter().copied().filter(|c| *c < nb).collect();
        if base != was {
            violation(format!("shared children of node {} are {:?} instead of {:?}", i, base, was));
        }
        for (t, (_, k, _, _)) in outs.iter().enumerate().take(owners) {
            let mine: Vec<usize> = have.iter().copied().filter(|c| pieces[t].iter().any(|p| p.contains(c))).collect();
            if mine != k[i] {
                violation(format!("children of node {} attached by thread {} are {:?} instead of {:?}", i, t, mine, k[i]));
            }
        }
    }
    let fk = me.fk(&q);
    for root in (0..me.len()).filter(|i| me.s.n[*i].parent.is_none()) {
        let c = Chain::from_root(me.nodes[root].clone());
        let idx = chain_idx(&me, &c);
        for (i, t) in idx.iter().zip(c.update_transforms()) {
            me.check_pose("after all threads ended", *i, &t, &fk[*i], &q);
        }
    }
}

pub fn p26(cx: &mut Cx) {
    if cx.rng.p(0.25) {
        restructure::<f32>(cx)
    } else {
        restructure::<f64>(cx)
    }
}

// ------------------------------------------------------------------ P19

/// A joint which is moved while other threads update the transforms. The joints above it do
/// not move, so after each move its world pose is absent or the new one.
pub fn p19_conc<T: Sc>(cx: &mut Cx) {
    let g = GenOpt {
        min: 1,
        max: 6,
        limits: 0.0,
        unique_names: true,
        wild: false,
        velocities: true,
        links: 0.2,
        fixed: 0.1,
        ..GenOpt::default()
    };
    let mut s = gen_spec::<T>(&mut cx.rng, &g);
    let n = s.n.len();
    let i = cx.rng.below(n);
    if s.n[i].kind == Kind::Fixed {
        s.n[i].kind = Kind::Rot;
    }
    // it may follow another joint, which is neither above it nor below
    let mut above = vec![i];
    while let Some(p) = s.n[above[above.len() - 1]].parent {
        above.push(p);
    }
    let lead = (0..n).find(|l| s.n[*l].kind != Kind::Fixed && !above.contains(l));
    let lead = lead.filter(|_| cx.rng.p(0.3));
    if let Some(l) = lead {
        s.mimic.push((i, l, T::of(0.5), T::of(0.25)));
    }
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    let w = World::new(s);
    let wr = &w;
    let moves = *cx.rng.pick(&[5usize, 20, 60]);
    let busy = cx.rng.range(1, 3);
    cx.sample = Some(format!("joint {} of {} moved while {} threads update", i, n, busy));
    let stop = AtomicUsize::new(0);
    let seen = Mutex::new((0u64, 0u64, wr.s.n[i].origin));
    let mut fs: Vec<Box<dyn FnOnce(Rng) + Send + '_>> = vec![];
    let (stopr, seenr) = (&stop, &seen);
    fs.push(Box::new(move |mut r| {
        struct Done<'a>(&'a AtomicUsize);
        impl Drop for Done<'_> {
            fn drop(&mut self) {
                self.0.store(1, SeqCst);
            }
        }
        let _d = Done(stopr);
        // a copy of the specification with the origins as they are now
        let mut own = World::with(wr.s.clone(), wr.nodes.clone());
        let (mut present, mut absent) = (0, 0);
        for _ in 0..moves {
            let x = T::of(r.f(-3.0, 3.0));
            let how = match (lead, r.below(4)) {
                (_, 3) => {
                    let o = gen_origin(&mut r);
                    own.s.n[i].origin = o;
                    wr.nodes[i].set_origin(o);
                    "set_origin"
                }
                (Some(l), _) => {
                    let _ = wr.nodes[l].set_joint_position(x);
                    "set_joint_position of the leader"
                }
                (None, 0) => {
                    let _ = wr.nodes[i].set_joint_position(x);
                    "set_joint_position"
                }
                (None, 1) => {
                    wr.nodes[i].set_joint_position_clamped(x);
                    "set_joint_position_clamped"
                }
                _ => {
                    wr.nodes[i].set_joint_position_unchecked(x);
                    "set_joint_position_unchecked"
                }
            };
            let mut q = vec![0.0; own.len()];
            for j in own.path(i) {
                q[j] = own.pos(j);
            }
            let want = own.fk(&q)[i];
            let vel = ref_velocities(&own, &q);
            for _ in 0..r.range(1, 6) {
                match wr.nodes[i].world_transform() {
                    None => absent += 1,
                    Some(t) => {
                        present += 1;
                        own.check_pose(&format!("after {} while others update", how), i, &t, &want, &q);
                    }
                }
                if let Some(v) = wr.nodes[i].world_velocity() {
                    present += 1;
                    check_vel(&own, &format!("after {} while others update", how), i, &v, &vel, &q);
                }
            }
        }
        *seenr.lock().unwrap() = (present, absent, own.s.n[i].origin);
    }));
    for _ in 0..busy {
        fs.push(Box::new(move |mut r| {
            for _ in 0..2000 {
                if stopr.load(SeqCst) == 1 {
                    break;
                }
                let (v, _, _, _) = gen_view(wr, &mut r);
                match r.below(3) {
                    0 => {
                        v.c().update_transforms();
                    }
                    1 => {
                        v.c().update_velocities();
                    }
                    _ => v.c().update_link_transforms(),
                }
            }
        }));
    }
    together(cx, fs);
    let (p, a, o) = *seen.lock().unwrap();
    cx.count("concurrent: poses present after a move", p);
    cx.count("concurrent: poses absent after a move", a);
    let mut w = w;
    w.s.n[i].origin = o;
    settle(cx, &w);
}

// ------------------------------------------------------------------ small runs for Miri and TSan

/// A few threads which use every kind of call; nothing but the calls themselves synchronises
/// the threads, so that a race detector sees what the crate does. Ends the process with 1 if
/// the robot is in a wrong state at the end.
pub fn mini(seed: u64, rounds: usize, ops: usize) -> i32 {
    let mut bad = 0;
    let mut calls = 0;
    for k in 0..rounds {
        let mut r = Rng::new(mix(seed.wrapping_mul(1000).wrapping_add(k as u64)));
        let g = GenOpt {
            min: 3,
            max: 6,
            limits: 0.2,
            legal: true,
            unique_names: true,
            wild: false,
            velocities: true,
            links: 0.6,
            ..GenOpt::default()
        };
        let mut s = gen_spec::<f64>(&mut r, &g);
        let mov: Vec<usize> = (0..s.n.len()).filter(|i| s.n[*i].kind != Kind::Fixed).collect();
        if mov.len() >= 2 && r.p(0.6) {
            s.mimic.push((mov[1], mov[0], 0.5, 0.25));
        }
        let w = World::new(s);
        let wr = &w;
        let nt = 2 + k % 2;
        let common = Shared(JacobianIkSolver::new(0.001, 0.01, 0.5, 3));
        let common = &common;
        let res: Vec<Result<u64, String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..nt)
                .map(|t| {
                    let mut r = Rng::new(mix(r.u64() ^ t as u64));
                    sc.spawn(move || {
                        set_logging(k % 3 == 0);
                        catch_unwind(AssertUnwindSafe(|| {
                            let own: Node<f64> = k::NodeBuilder::new()
                                .name("own")
                                .joint_type(k::JointType::Rotational { axis: k::Vector3::x_axis() })
                                .into_node();
                            let mut at: Option<usize> = None;
                            for _ in 0..ops {
                                if r.p(0.15) {
                                    // a node of this thread is attached or detached
                                    match at.take() {
                                        Some(i) => {
                                            own.remove_parent(&wr.nodes[i]);
                                            if own.parent().is_some() || !own.is_root() {
                                                violation("a removed node has a parent".into());
                                            }
                                        }
                                        None => {
                                            let i = r.below(wr.len());
                                            own.set_parent(&wr.nodes[i]);
                                            at = Some(i);
                                            if own.parent().as_ref() != Some(&wr.nodes[i])
                                                || wr.nodes[i].children().iter().filter(|c| **c == own).count() != 1
                                            {
                                                violation("an attached node is not below its parent".into());
                                            }
                                        }
                                    }
                                } else {
                                    mini_op(wr, &common.0, &mut r);
                                }
                            }
                            if let Some(i) = at {
                                own.remove_parent(&wr.nodes[i]);
                            }
                            ops as u64
                        }))
                        .map_err(|e| format!("{:?}", classify(e)))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for x in res {
            match x {
                Ok(n) => calls += n,
                Err(m) => {
                    println!("MINI-VIOLATION seed={} round={}: {}", seed, k, m);
                    bad = 1;
                }
            }
        }
        if bad == 0 {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut s = w.s.clone();
                for i in 0..w.len() {
                    s.n[i].origin = w.nodes[i].origin();
                }
                let w = World::with(s, w.nodes.clone());
                let q = w.positions();
                let fk = w.fk(&q);
                let c = Chain::from_root(w.nodes[0].clone());
                for (g, i) in c.update_transforms().iter().zip(chain_idx(&w, &c)) {
                    w.check_pose("after all threads have stopped", i, g, &fk[i], &q);
                }
            }));
            if let Err(e) = r {
                println!("MINI-VIOLATION seed={} round={}: {:?}", seed, k, classify(e));
                bad = 1;
            }
        }
    }
    println!("MINI rounds={} calls={}", rounds, calls);
    bad
}

fn mini_op(w: &World<f64>, common: &JacobianIkSolver<f64>, r: &mut Rng) {
    let i = r.below(w.len());
    let c = match r.below(3) {
        0 => Chain::from_end(&w.nodes[i]),
        _ => Chain::from_root(w.nodes[0].clone()),
    };
    let x = r.f(-2.0, 2.0);
    match r.below(13) {
        0 => {
            let _ = w.nodes[i].set_joint_position(x);
        }
        1 => w.nodes[i].set_joint_position_clamped(x),
        2 => {
            let v: Vec<f64> = (0..c.dof()).map(|_| r.f(-1.0, 1.0)).collect();
            c.set_joint_positions_unchecked(&v);
        }
        3 => {
            c.update_transforms();
        }
        4 => {
            c.update_velocities();
        }
        5 => c.update_link_transforms(),
        6 => {
            let _ = c.joint_positions();
            let _ = w.nodes[i].world_transform();
            let _ = w.nodes[i].world_velocity();
        }
        7 => {
            let _ = format!("{}", c);
        }
        8 => {
            let _ = c.clone();
        }
        9 => {
            let l = k::link::LinkBuilder::new().name("x").finalize();
            w.nodes[i].set_link(Some(l));
        }
        10 => {
            let s = SerialChain::from_end(&w.nodes[i]);
            let _ = k::jacobian(&s);
            let _ = k::center_of_mass(&c);
        }
        11 => {
            let _ = c.iter_links().map(|l| l.name.clone()).collect::<Vec<_>>();
            let _ = w.nodes[i].iter_descendants().count();
            let _ = w.nodes[i].mimic_parent();
        }
        _ => {
            // expensive under an interpreter
            if !cfg!(miri) && r.p(0.5) {
                let s = SerialChain::from_end(&w.nodes[i]);
                let t = s.end_transform() * k::Translation3::new(0.01, 0.02, 0.0);
                let solver = JacobianIkSolver::new(0.001, 0.01, 0.5, 3);
                let con = Constraints {
                    rotation_x: false,
                    rotation_y: false,
                    ..Constraints::default()
                };
                if f64::SOLVER_SYNC && r.p(0.5) {
                    let _ = common.solve_with_constraints(&s, &t, &con);
                } else {
                    let _ = solver.solve_with_constraints(&s, &t, &con);
                }
            } else {
                w.nodes[i].set_origin(gen_origin(r));
            }
        }
    }
}
