//! P01, P07, P15, P16, P17, P19: geometry.
use crate::core::*;
use crate::gen::*;
use crate::m3::*;
use crate::ops::*;
use crate::sc::*;

use k::{Chain, SerialChain};

pub fn both(cx: &mut Cx, f64_: fn(&mut Cx), f32_: fn(&mut Cx)) {
    if cx.rng.p(0.6) {
        cx.hit("f64 cases");
        f64_(cx)
    } else {
        cx.hit("f32 cases");
        f32_(cx)
    }
}

fn start<T: Sc>(cx: &mut Cx, o: &GenOpt) -> World<T> {
    let mut s = gen_spec::<T>(&mut cx.rng, o);
    if cx.rng.p(0.15) {
        crate::p_tree::gen_mimics(cx, &mut s, true);
    }
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    let mut w = World::new(s);
    w.keep = cx.rng.p(0.7);
    w
}

fn note<T: Sc>(cx: &mut Cx, w: &World<T>) {
    let d = w.describe();
    let mut e = d.len().min(600);
    while !d.is_char_boundary(e) {
        e -= 1;
    }
    cx.sample = Some(d[..e].to_string());
    cx.count("nodes", w.len() as u64);
    let depth = (0..w.len()).map(|i| w.depth(i)).max().unwrap_or(0);
    if depth >= 10 {
        cx.hit("cases with depth >= 10");
    }
    if (0..w.len()).any(|i| w.children(i).len() >= 5) {
        cx.hit("cases with >= 5 children of a node");
    }
}

// ------------------------------------------------------------------ P01

fn check_update<T: Sc>(cx: &mut Cx, w: &World<T>, v: &V<T>, d: &str) {
    let idx = chain_idx(w, v.c());
    let q = w.positions();
    let want = w.fk(&q);
    let got = v.c().update_transforms();
    cx.t(|| format!("update_transforms {}", d));
    if got.len() != idx.len() {
        violation(format!(
            "{}: update_transforms returned {} poses for {} nodes",
            d,
            got.len(),
            idx.len()
        ));
    }
    for (g, i) in got.iter().zip(&idx) {
        w.check_pose(&format!("{} returned list", d), *i, g, &want[*i], &q);
    }
    for i in &idx {
        match w.nodes[*i].world_transform() {
            Some(g) => w.check_pose(&format!("{} world_transform()", d), *i, &g, &want[*i], &q),
            None => violation(format!(
                "{}: node {} has no world transform after the update",
                d, i
            )),
        }
    }
    cx.count("poses compared", 2 * idx.len() as u64);
    if v.c().iter().next().map(|n| n.is_root()) == Some(false) {
        cx.hit("updates of chains below the root");
    }
    if w.positions() != q && q.iter().all(|x| !x.is_nan()) {
        violation(format!("{}: update_transforms moved a joint", d));
    }
}

fn check_end<T: Sc>(cx: &mut Cx, w: &World<T>, s: &SerialChain<T>, d: &str) {
    let q = w.positions();
    let idx = chain_idx(w, s);
    let want = idx
        .iter()
        .fold(Pose::ID, |a, i| a.mul(&w.local(*i, q[*i])));
    if let Some(l) = idx.last() {
        w.check_pose(&format!("{} end_transform", d), *l, &s.end_transform(), &want, &q);
        cx.hit("end transforms compared");
    }
}

fn p01_t<T: Sc>(cx: &mut Cx) {
    let o = GenOpt {
        max: if cx.rng.p(0.1) { 120 } else { 40 },
        links: 0.2,
        unique_names: cx.rng.p(0.5),
        path: cx.rng.p(0.15),
        ..GenOpt::default()
    };
    let mut w = start::<T>(cx, &o);
    note(cx, &w);
    let q = w.positions();
    for i in 0..w.len() {
        let l = w.nodes[i].joint().local_transform();
        w.check_pose("local_transform()", i, &l, &w.local(i, q[i]), &q);
    }
    for _ in 0..cx.rng.range(1, 5) {
        let h = history(cx, &mut w, ALL_R, 4);
        cx.count("history operations", h as u64);
        let (v, _, _, d) = gen_view(&w, &mut cx.rng);
        check_update(cx, &w, &v, &d);
        if let V::S(s) = &*v {
            check_end(cx, &w, s, &d);
        }
    }
    let e = cx.rng.below(w.len());
    let s = SerialChain::from_end(&w.nodes[e]);
    check_end(cx, &w, &s, "from_end");
    // the same result by updating a clone
    if cx.rng.p(0.3) {
        let c = Chain::from_root(w.nodes[0].clone());
        let q = w.positions();
        let want = w.fk(&q);
        let idx = chain_idx(&w, &c);
        let c2 = c.clone();
        let got = c2.update_transforms();
        for (g, i) in got.iter().zip(&idx) {
            w.check_pose("clone", *i, g, &want[*i], &q);
        }
    }
    if w.len() >= 2 && w.s.n.iter().any(|n| n.kind != Kind::Fixed) {
        cx.nontrivial();
    }
}
pub fn p01(cx: &mut Cx) {
    both(cx, p01_t::<f64>, p01_t::<f32>)
}

// ------------------------------------------------------------------ P07

/// closed form Jacobian of a serial chain in the coordinates of its end transform
pub fn ref_jacobian<T: Sc>(w: &World<T>, idx: &[usize], q: &[f64]) -> (Mat, Vec<usize>, Pose) {
    let mut poses = vec![];
    let mut t = Pose::ID;
    for i in idx {
        t = t.mul(&w.local(*i, q[*i]));
        poses.push(t);
    }
    let mut cols: Vec<[f64; 6]> = vec![];
    let mut mov = vec![];
    for (p, i) in poses.iter().zip(idx) {
        // the axis is not changed by the motion around or along it
        let a = mv(&p.r, w.axis(*i));
        match w.s.n[*i].kind {
            Kind::Fixed => continue,
            Kind::Rot => {
                let l = cross(a, sub(t.p, p.p));
                cols.push([l[0], l[1], l[2], a[0], a[1], a[2]]);
            }
            Kind::Lin => cols.push([a[0], a[1], a[2], 0.0, 0.0, 0.0]),
        }
        mov.push(*i);
    }
    let m = (0..6)
        .map(|r| cols.iter().map(|c| c[r]).collect())
        .collect();
    (m, mov, t)
}

fn p07_t<T: Sc>(cx: &mut Cx) {
    let o = GenOpt {
        max: if cx.rng.p(0.1) { 60 } else { 16 },
        links: 0.0,
        path: cx.rng.p(0.4),
        fixed: 0.3,
        wild: cx.rng.p(0.3),
        ..GenOpt::default()
    };
    let mut w = start::<T>(cx, &o);
    note(cx, &w);
    for _ in 0..cx.rng.range(1, 3) {
        history(cx, &mut w, ALL_R, 4);
        let i = cx.rng.below(w.len());
        let p = w.path(i);
        let a = if cx.rng.p(0.5) { 0 } else { cx.rng.below(p.len()) };
        let s = if a == 0 && cx.rng.p(0.5) {
            SerialChain::from_end(&w.nodes[i])
        } else {
            SerialChain::from_end_to_root(&w.nodes[i], &w.nodes[p[a]])
        };
        let idx = chain_idx(&w, &s);
        let q = w.positions();
        let (want, mov, _) = ref_jacobian(&w, &idx, &q);
        let j = k::jacobian(&s);
        cx.t(|| format!("jacobian of nodes {:?}", idx));
        if j.nrows() != 6 || j.ncols() != mov.len() {
            violation(format!(
                "jacobian is {}x{}, the chain has {} movable joints",
                j.nrows(),
                j.ncols(),
                mov.len()
            ));
        }
        let tol = w.tol(i) * w.reach(i, &q) * 4.0;
        for c in 0..mov.len() {
            for r in 0..6 {
                let g = j[(r, c)].d();
                if !((g - want[r][c]).abs() <= tol) {
                    violation(format!(
                        "jacobian[{},{}] (joint {}) is {} instead of {} for the chain {:?}",
                        r, c, mov[c], g, want[r][c], idx
                    ));
                }
            }
        }
        cx.count("jacobian columns compared", mov.len() as u64);
        if a > 0 {
            cx.hit("sub-chains");
        }
        if idx.len() > mov.len() {
            cx.hit("chains with fixed joints");
        }
        if mov.iter().any(|m| w.s.n[*m].kind == Kind::Lin) {
            cx.hit("chains with linear joints");
        }
        if mov.len() >= 2 {
            cx.nontrivial();
        }
        // the implementation's own end transform, moved by a small step of one joint
        if !T::F32 && !mov.is_empty() {
            let c = cx.rng.below(mov.len());
            let n = &w.nodes[mov[c]];
            let x = q[mov[c]];
            let h = 1e-5;
            n.set_joint_position_unchecked(T::of(x + h));
            let b = pose(&s.end_transform());
            n.set_joint_position_unchecked(T::of(x - h));
            let a = pose(&s.end_transform());
            n.set_joint_position_unchecked(T::of(x));
            let lin = scale(sub(b.p, a.p), 0.5 / h);
            let rot = scale(log(&mm(&b.r, &tr(&a.r))), 0.5 / h);
            let sc = w.reach(i, &q) * (1.0 + x.abs());
            for r in 0..3 {
                if !((j[(r, c)].d() - lin[r]).abs() <= 1e-5 * sc)
                    || !((j[(r + 3, c)].d() - rot[r]).abs() <= 1e-5 * sc)
                {
                    violation(format!("column {} (joint {}) of the jacobian does not agree with the motion of end_transform(): {:?} {:?}", c, mov[c], lin, rot));
                }
            }
            cx.hit("columns checked by differences");
        }
    }
}
pub fn p07(cx: &mut Cx) {
    both(cx, p07_t::<f64>, p07_t::<f32>)
}

// ------------------------------------------------------------------ P15

fn check_links<T: Sc>(cx: &mut Cx, w: &World<T>, idx: &[usize], d: &str) {
    let q = w.positions();
    let fk = w.fk(&q);
    for i in idx {
        let l = w.nodes[*i].link();
        match (&*l, &w.s.n[*i].link) {
            (None, None) => cx.hit("nodes without link"),
            (Some(l), Some(_)) => {
                let mut one = |what: String, o: &k::Isometry3<T>, t: &Option<k::Isometry3<T>>| {
                    let want = fk[*i].mul(&pose(o));
                    match t {
                        None => violation(format!(
                            "{}: {} of node {} has no world transform",
                            d, what, i
                        )),
                        Some(t) => {
                            let g = pose(t);
                            let tol = w.tol(*i) * 2.0;
                            let sc = w.reach(*i, &q) + norm(want.p);
                            if !(vdiff(g.p, want.p) <= tol * sc) || !(mdiff(&g.r, &want.r) <= tol * 4.0)
                            {
                                violation(format!(
                                    "{}: world transform of {} of node {} is {:?}, not {:?}",
                                    d, what, i, g, want
                                ));
                            }
                        }
                    }
                    cx.hit("link elements compared");
                };
                one(
                    "inertial".into(),
                    l.inertial.origin(),
                    l.inertial.world_transform(),
                );
                for (n, v) in l.visuals.iter().enumerate() {
                    one(format!("visual {}", n), v.origin(), v.world_transform());
                }
                for (n, v) in l.collisions.iter().enumerate() {
                    one(format!("collision {}", n), v.origin(), v.world_transform());
                }
            }
            _ => violation(format!("{}: the link of node {} appeared or vanished", d, i)),
        }
    }
}

fn p15_t<T: Sc>(cx: &mut Cx) {
    let o = GenOpt {
        max: 24,
        links: 0.7,
        ..GenOpt::default()
    };
    let mut w = start::<T>(cx, &o);
    note(cx, &w);
    let mut seen = 0;
    for _ in 0..cx.rng.range(1, 5) {
        history(cx, &mut w, ALL_R, 4);
        // change a link: its elements have no world transform then
        if cx.rng.p(0.5) {
            let i = cx.rng.below(w.len());
            let l = w.nodes[i].link().clone();
            if let Some(mut l) = l {
                let which = cx.rng.below(3);
                let o = gen_origin(&mut cx.rng);
                let (what, t) = match which {
                    0 => {
                        l.inertial.set_origin(o);
                        ("inertial", *l.inertial.world_transform())
                    }
                    1 if !l.visuals.is_empty() => {
                        let k = cx.rng.below(l.visuals.len());
                        l.visuals[k].set_origin(o);
                        ("visual", *l.visuals[k].world_transform())
                    }
                    2 if !l.collisions.is_empty() => {
                        let k = cx.rng.below(l.collisions.len());
                        l.collisions[k].set_origin(o);
                        ("collision", *l.collisions[k].world_transform())
                    }
                    _ => ("", None),
                };
                if t.is_some() {
                    violation(format!(
                        "a new origin of the {} keeps its old world transform",
                        what
                    ));
                }
                cx.hit("link origins changed");
                w.s.n[i].link = Some(l.clone());
                w.nodes[i].set_link(Some(l));
            } else if cx.rng.p(0.5) {
                let l: k::Link<T> = gen_link(&mut cx.rng, i);
                w.s.n[i].link = Some(l.clone());
                w.nodes[i].set_link(Some(l));
            }
        }
        let (v, _, _, d) = gen_view(&w, &mut cx.rng);
        let idx = chain_idx(&w, v.c());
        let before: Vec<String> = idx.iter().map(|i| link_data(&w.nodes[*i], false)).collect();
        v.c().update_link_transforms();
        cx.t(|| format!("update_link_transforms {}", d));
        let after: Vec<String> = idx.iter().map(|i| link_data(&w.nodes[*i], false)).collect();
        if before != after {
            violation(format!("{}: update_link_transforms changed link data", d));
        }
        check_links(cx, &w, &idx, &d);
        seen += idx.iter().filter(|i| w.s.n[**i].link.is_some()).count();
        if idx.len() < w.len() {
            cx.hit("partial chains");
        }
    }
    if seen > 1 {
        cx.nontrivial();
    }
}
pub fn p15(cx: &mut Cx) {
    both(cx, p15_t::<f64>, p15_t::<f32>)
}

// ------------------------------------------------------------------ P16

fn p16_t<T: Sc>(cx: &mut Cx) {
    let o = GenOpt {
        max: 30,
        links: *cx.rng.pick(&[0.2, 0.7, 1.0]),
        ..GenOpt::default()
    };
    let mut w = start::<T>(cx, &o);
    note(cx, &w);
    if cx.rng.p(0.15) {
        // something cut out of the others
        for i in 0..w.len() {
            if w.s.n[i].link.is_some() && cx.rng.p(0.2) {
                let mut l = w.s.n[i].link.clone().unwrap();
                l.inertial.mass = -(l.inertial.mass * T::of(0.3));
                w.s.n[i].link = Some(l.clone());
                w.nodes[i].set_link(Some(l));
            }
        }
        cx.hit("robots with negative masses");
    }
    for _ in 0..cx.rng.range(1, 4) {
        history(cx, &mut w, ALL_R, 4);
        if cx.rng.p(0.2) {
            let i = cx.rng.below(w.len());
            let l: Option<k::Link<T>> = if cx.rng.p(0.7) {
                Some(gen_link(&mut cx.rng, i))
            } else {
                None
            };
            w.s.n[i].link = l.clone();
            w.nodes[i].set_link(l);
        }
        let (v, _, _, d) = gen_view(&w, &mut cx.rng);
        let idx = chain_idx(&w, v.c());
        let q = w.positions();
        let fk = w.fk(&q);
        let mut m = 0.0;
        let mut abs = 0.0;
        let mut c = [0.0; 3];
        let mut sc: f64 = 1.0;
        let mut tol: f64 = 0.0;
        let mut links = 0;
        for i in &idx {
            if let Some(l) = &w.s.n[*i].link {
                let x = fk[*i].mul(&pose(l.inertial.origin())).p;
                m += l.inertial.mass.d();
                abs += l.inertial.mass.d().abs();
                c = add(c, scale(x, l.inertial.mass.d()));
                sc = sc.max(w.reach(*i, &q) + norm(x));
                tol = tol.max(w.tol(*i));
                links += 1;
            }
        }
        if m < 1e-3 || abs > 50.0 * m {
            cx.hit("skipped: no mass");
            continue;
        }
        let want = scale(c, 1.0 / m);
        let got = v3(&k::center_of_mass(v.c()));
        cx.t(|| format!("center_of_mass {} -> {:?}", d, got));
        if !(vdiff(want, got) <= 4.0 * (tol + links as f64 * T::EPS) * sc * (abs / m)) {
            violation(format!(
                "{}: center of mass is {:?} instead of {:?}",
                d, got, want
            ));
        }
        cx.count("links summed", links);
        cx.hit("centers compared");
        if links > 1 {
            cx.nontrivial();
        }
        if idx.len() < w.len() {
            cx.hit("partial chains");
        }
    }
}
pub fn p16(cx: &mut Cx) {
    both(cx, p16_t::<f64>, p16_t::<f32>)
}

// ------------------------------------------------------------------ P17

/// linear and angular world velocity of every node as sums over the joints above it
pub fn ref_velocities<T: Sc>(w: &World<T>, q: &[f64]) -> Vec<(V3, V3)> {
    let fk = w.fk(q);
    (0..w.len())
        .map(|i| {
            let mut v = [0.0; 3];
            let mut o = [0.0; 3];
            for j in w.path(i) {
                let a = scale(mv(&fk[j].r, w.axis(j)), w.s.n[j].vel.d());
                match w.s.n[j].kind {
                    Kind::Fixed => {}
                    Kind::Lin => v = add(v, a),
                    Kind::Rot => {
                        o = add(o, a);
                        v = add(v, cross(a, sub(fk[i].p, fk[j].p)));
                    }
                }
            }
            (v, o)
        })
        .collect()
}

pub fn check_vel<T: Sc>(
    w: &World<T>,
    d: &str,
    i: usize,
    g: &k::joint::Velocity<T>,
    want: &[(V3, V3)],
    q: &[f64],
) {
    let sp: f64 = 1.0 + w.path(i).iter().map(|j| w.s.n[*j].vel.d().abs()).sum::<f64>();
    let tol = w.tol(i) * 4.0 * sp;
    let (gv, go) = (v3(&g.translation), v3(&g.rotation));
    if !(vdiff(gv, want[i].0) <= tol * w.reach(i, q)) || !(vdiff(go, want[i].1) <= tol) {
        violation(format!(
            "{}: velocity of node {} is {:?} {:?} instead of {:?}",
            d, i, gv, go, want[i]
        ));
    }
}

fn p17_t<T: Sc>(cx: &mut Cx) {
    let o = GenOpt {
        max: if cx.rng.p(0.1) { 80 } else { 24 },
        links: 0.1,
        velocities: true,
        path: cx.rng.p(0.2),
        ..GenOpt::default()
    };
    let mut w = start::<T>(cx, &o);
    note(cx, &w);
    for i in 0..w.len() {
        let g = w.nodes[i].joint().joint_velocity();
        let want = if w.movable(i) { Some(w.s.n[i].vel) } else { None };
        if g != want {
            violation(format!("joint velocity of node {} is {:?} not {:?}", i, g, want));
        }
    }
    for _ in 0..cx.rng.range(1, 4) {
        history(cx, &mut w, ALL_R, 4);
        let (v, _, _, d) = gen_view(&w, &mut cx.rng);
        let idx = chain_idx(&w, v.c());
        let q = w.positions();
        let want = ref_velocities(&w, &q);
        let got = v.c().update_velocities();
        cx.t(|| format!("update_velocities {}", d));
        if got.len() != idx.len() {
            violation(format!("{}: {} velocities for {} nodes", d, got.len(), idx.len()));
        }
        for (g, i) in got.iter().zip(&idx) {
            check_vel(&w, &format!("{} returned", d), *i, g, &want, &q);
        }
        for i in &idx {
            match w.nodes[*i].world_velocity() {
                None => violation(format!("{}: node {} has no world velocity", d, i)),
                Some(g) => check_vel(&w, &format!("{} world_velocity()", d), *i, &g, &want, &q),
            }
        }
        cx.count("velocities compared", 2 * idx.len() as u64);
        if idx.first() != Some(&0) {
            cx.hit("chains below the root");
        }
        if idx.len() >= 2 && idx.iter().any(|i| w.movable(*i) && w.s.n[*i].vel.d() != 0.0) {
            cx.nontrivial();
        }
        // the poses move as the velocities say
        if !T::F32 && cx.rng.p(0.3) {
            let h = 1e-5;
            let step = |sgn: f64| {
                for i in 0..w.len() {
                    if w.movable(i) {
                        w.nodes[i]
                            .set_joint_position_unchecked(T::of(q[i] + sgn * h * w.s.n[i].vel.d()));
                    }
                }
                v.c().update_transforms()
            };
            let b = step(1.0);
            let a = step(-1.0);
            step(0.0);
            for ((b, a), (i, g)) in b.iter().zip(&a).zip(idx.iter().zip(&got)) {
                let (b, a) = (pose(b), pose(a));
                let lin = scale(sub(b.p, a.p), 0.5 / h);
                let rot = scale(log(&mm(&b.r, &tr(&a.r))), 0.5 / h);
                let sp: f64 = 1.0 + w.path(*i).iter().map(|j| w.s.n[*j].vel.d().abs()).sum::<f64>();
                let qm = 1.0 + w.path(*i).iter().map(|j| q[*j].abs()).fold(0.0, f64::max);
                let t = 1e-5 * sp * w.reach(*i, &q) * qm + 1e-9 * sp * sp * sp * w.reach(*i, &q);
                if !(vdiff(lin, v3(&g.translation)) <= t) || !(vdiff(rot, v3(&g.rotation)) <= t) {
                    violation(format!("{}: node {} moves with {:?} {:?}, its velocity is {:?} {:?}", d, i, lin, rot, v3(&g.translation), v3(&g.rotation)));
                }
                cx.hit("velocities checked by differences");
            }
        }
    }
}
pub fn p17(cx: &mut Cx) {
    both(cx, p17_t::<f64>, p17_t::<f32>)
}

// ------------------------------------------------------------------ P19

fn p19_t<T: Sc>(cx: &mut Cx) {
    let o = GenOpt {
        max: 14,
        links: 0.1,
        velocities: true,
        ..GenOpt::default()
    };
    let mut s = gen_spec::<T>(&mut cx.rng, &o);
    // leaders and followers
    if s.n.len() >= 3 && cx.rng.p(0.5) {
        crate::p_tree::gen_mimics(cx, &mut s, false);
    }
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    // changing the velocity of a joint discards its world velocity, it can only be done with a
    // joint which is not in a node: take a copy of a joint with caches
    let mut w = World::new(s);
    w.keep = cx.rng.p(0.7);
    note(cx, &w);
    for i in 0..w.len() {
        if w.nodes[i].world_transform().is_some() || w.nodes[i].world_velocity().is_some() {
            violation(format!("node {} has a world pose before the first update", i));
        }
    }
    let mut dirty = false;
    for _ in 0..cx.rng.range(2, 12) {
        let op = if !dirty || cx.rng.p(0.35) {
            *cx.rng.pick(UPDATES)
        } else if cx.rng.p(0.1) {
            *cx.rng.pick(&[Op::Query, Op::Ik])
        } else {
            *cx.rng.pick(MOVES)
        };
        dirty = true;
        if cx.rng.p(0.03) && w.s.mimic.is_empty() {
            // by way of a value which is not a number or infinite
            let i = cx.rng.below(w.len());
            let bad = *cx.rng.pick(&[T::nan(), T::inf(), -T::inf(), T::big()]);
            let by_origin = cx.rng.p(0.4) || !w.movable(i);
            let back = w.nodes[i].joint_position();
            let mut o = w.s.n[i].origin;
            if by_origin {
                o.translation.vector[cx.rng.below(3)] = bad;
                w.nodes[i].set_origin(o);
            } else {
                w.nodes[i].set_joint_position_unchecked(bad);
            }
            Chain::from_root(w.nodes[0].clone()).update_velocities();
            if by_origin {
                let o = w.s.n[i].origin;
                w.nodes[i].set_origin(o);
            } else if let Some(p) = back {
                let x = if cx.rng.p(0.5) { p } else { T::of(cx.rng.f(-2.0, 2.0)) };
                w.nodes[i].set_joint_position_unchecked(x);
            }
            cx.t(|| format!("node {} to {:?} and back", i, bad));
            let q = w.positions();
            if let (true, Some(t)) = (q.iter().all(|x| x.is_finite()), w.nodes[i].world_transform()) {
                w.check_pose("back from an extreme value", i, &t, &w.fk(&q)[i], &q);
            }
            if let Some(v) = w.nodes[i].world_velocity() {
                if q.iter().all(|x| x.is_finite()) {
                    check_vel(&w, "back from an extreme value", i, &v, &ref_velocities(&w, &q), &q);
                }
            }
            cx.hit("ways by extreme values");
        }
        let before: Vec<_> = w.nodes.iter().map(node_data).collect();
        apply(cx, &mut w, op);
        if MOVES.contains(&op) {
            let q = w.positions();
            if q.iter().any(|x| !x.is_finite()) {
                continue;
            }
            let fk = w.fk(&q);
            let vel = ref_velocities(&w, &q);
            for i in 0..w.len() {
                if node_data(&w.nodes[i]) == before[i] {
                    continue;
                }
                cx.hit("changed joints checked");
                cx.nontrivial();
                match w.nodes[i].world_transform() {
                    None => cx.hit("absent"),
                    Some(t) => {
                        cx.hit("present");
                        w.check_pose(&format!("after {:?}", op), i, &t, &fk[i], &q)
                    }
                }
                if let Some(v) = w.nodes[i].world_velocity() {
                    check_vel(&w, &format!("after {:?}", op), i, &v, &vel, &q);
                }
            }
            // nor may a query bring something else
            if cx.rng.p(0.3) && w.s.mimic.is_empty() {
                let before: Vec<bool> = w.nodes.iter().map(|n| n.world_transform().is_none()).collect();
                let op = *cx.rng.pick(&[Op::Query, Op::Query, Op::UpTrans, Op::UpVel]);
                apply(cx, &mut w, op);
                for i in 0..w.len() {
                    if !before[i] {
                        continue;
                    }
                    if let Some(t) = w.nodes[i].world_transform() {
                        w.check_pose(&format!("after a move and {:?}", op), i, &t, &fk[i], &q);
                        cx.hit("present again after a query");
                    }
                    if let Some(v) = w.nodes[i].world_velocity() {
                        check_vel(&w, &format!("after a move and {:?}", op), i, &v, &vel, &q);
                    }
                }
            }
        }
    }
    // after the next update everything is there
    let q = w.positions();
    let fk = w.fk(&q);
    let vel = ref_velocities(&w, &q);
    let c = Chain::from_root(w.nodes[0].clone());
    if cx.rng.p(0.5) {
        c.update_transforms();
        for i in 0..w.len() {
            match w.nodes[i].world_transform() {
                None => violation(format!("node {} has no world transform after an update", i)),
                Some(t) => w.check_pose("final update", i, &t, &fk[i], &q),
            }
        }
    }
    c.update_velocities();
    for i in 0..w.len() {
        match w.nodes[i].world_velocity() {
            None => violation(format!("node {} has no world velocity after an update", i)),
            Some(v) => check_vel(&w, "final update", i, &v, &vel, &q),
        }
    }
    // joints taken out of their nodes with filled caches
    for i in 0..w.len() {
        let mut j = w.nodes[i].joint().clone();
        let old = (j.world_transform(), j.world_velocity());
        if old.0.is_none() || old.1.is_none() {
            violation(format!("a copy of the joint of node {} lost its caches", i));
        }
        let what = cx.rng.below(5);
        let x = rand_pos(cx, &w, i);
        let moved = match what {
            0 => j.set_joint_position(x).is_ok(),
            1 => {
                j.set_joint_position_clamped(x);
                w.movable(i)
            }
            2 => {
                j.set_joint_position_unchecked(x);
                w.movable(i)
            }
            3 => {
                j.set_origin(gen_origin(&mut cx.rng));
                true
            }
            _ => {
                let old = w.s.n[i].vel;
                let v = match cx.rng.below(6) {
                    0 => -old,
                    1 => T::of(0.0),
                    2 => old.next_up(),
                    3 => T::of(old.d() * 2.0),
                    _ => T::of(cx.rng.f(-2.0, 2.0)),
                };
                let ok = j.set_joint_velocity(v).is_ok();
                if ok != w.movable(i) {
                    violation(format!("set_joint_velocity of joint {}: ok = {}", i, ok));
                }
                if ok && v != w.s.n[i].vel && j.world_velocity().is_some() {
                    violation("a new joint velocity keeps the old world velocity".into());
                }
                cx.hit("velocity changes");
                false
            }
        };
        let unchanged = what != 3 && j.joint_position() == w.nodes[i].joint_position();
        if moved && !unchanged && (j.world_transform().is_some() || j.world_velocity().is_some()) {
            violation(format!(
                "setter {} of a joint keeps its old world transform or velocity",
                what
            ));
        }
    }
}
/// Very many moves of one joint without an update between them: what discards the old world pose
/// must not come round to where it was.
fn p19_long<T: Sc>(cx: &mut Cx) {
    let o = GenOpt {
        min: 1,
        max: 4,
        links: 0.1,
        velocities: true,
        ..GenOpt::default()
    };
    let mut s = gen_spec::<T>(&mut cx.rng, &o);
    let i = cx.rng.below(s.n.len());
    if s.n[i].kind == Kind::Fixed {
        s.n[i].kind = Kind::Rot;
    }
    s.n[i].limits = None;
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    let mut w = World::new(s);
    let root = Chain::from_root(w.nodes[0].clone());
    let how = cx.rng.below(4);
    let mut now = w.nodes[i].joint_position().unwrap();
    for round in 0..2 {
        root.update_velocities();
        let moves = *cx.rng.pick(&[2usize, 255, 256, 257, 600]);
        for m in 0..moves {
            let x = T::of(cx.rng.f(-3.0, 3.0));
            match how {
                0 => w.nodes[i].set_joint_position(x).unwrap(),
                1 => w.nodes[i].set_joint_position_clamped(x),
                2 => w.nodes[i].set_joint_position_unchecked(x),
                _ => {
                    let origin = gen_origin(&mut cx.rng);
                    w.nodes[i].set_origin(origin);
                    w.s.n[i].origin = origin;
                }
            }
            if how < 3 && x == now {
                continue;
            }
            if how < 3 {
                now = x;
            }
            let (t, v) = (w.nodes[i].world_transform(), w.nodes[i].world_velocity());
            if t.is_none() && v.is_none() {
                continue;
            }
            // it may be the new one
            let q = w.positions();
            if let Some(t) = t {
                w.check_pose(&format!("after move {} of a row, round {}", m + 1, round), i, &t, &w.fk(&q)[i], &q);
            }
            if let Some(v) = v {
                check_vel(&w, &format!("after move {} of a row, round {}", m + 1, round), i, &v, &ref_velocities(&w, &q), &q);
            }
        }
        cx.count("moves in a row", moves as u64);
    }
    cx.nontrivial();
    root.update_transforms();
    let q = w.positions();
    let fk = w.fk(&q);
    for j in 0..w.len() {
        match w.nodes[j].world_transform() {
            None => violation(format!("node {} has no world transform after an update", j)),
            Some(t) => w.check_pose("after many moves", j, &t, &fk[j], &q),
        }
    }
}
pub fn p19(cx: &mut Cx) {
    if cx.rng.p(0.003) {
        return both(cx, p19_long::<f64>, p19_long::<f32>);
    }
    if cx.rng.p(0.02) {
        return both(cx, crate::p_conc::p19_conc::<f64>, crate::p_conc::p19_conc::<f32>);
    }
    both(cx, p19_t::<f64>, p19_t::<f32>)
}

