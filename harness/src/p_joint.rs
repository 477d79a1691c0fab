//! P04, P05, P21: limits, mimic joints, serialised constraints.
use crate::core::*;
use crate::gen::*;
use crate::ops::node_data;
use crate::p_fk::both;
use crate::sc::*;
use k::joint::{Mimic, Range};
use k::{Chain, Constraints, Error, Joint, Node, NodeBuilder};

// ------------------------------------------------------------------ P04

fn gen_value<T: Sc>(cx: &mut Cx, lim: Option<(T, T)>) -> T {
    let r = &mut cx.rng;
    if let Some((a, b)) = lim {
        match r.below(14) {
            0 => return a,
            1 => return b,
            2 => return a.next_down(),
            3 => return b.next_up(),
            4 => return a.next_up(),
            5 => return b.next_down(),
            6 => return T::of(a.d() * 0.5 + b.d() * 0.5),
            7 => return T::of(a.d() - r.f(0.0, 1.0)),
            8 => return T::of(b.d() + r.f(0.0, 1.0)),
            _ => {}
        }
    }
    match r.below(14) {
        0 => T::nan(),
        1 => T::inf(),
        2 => -T::inf(),
        3 => T::big(),
        4 => -T::big(),
        5 => T::tiny(),
        6 => -T::tiny(),
        7 => T::of(0.0),
        8 => T::of(-0.0),
        9 => T::of(10f64.powf(r.f(-30.0, 30.0))),
        _ => T::of(r.f(-4.0, 4.0)),
    }
}

fn gen_lim<T: Sc>(cx: &mut Cx) -> Option<(T, T)> {
    let r = &mut cx.rng;
    let s = |a: f64, b: f64| Some((T::of(a), T::of(b)));
    match r.below(14) {
        0 | 1 => None,
        2 => s(0.0, 0.0),
        3 => Some((-T::inf(), T::inf())),
        4 => Some((-T::inf(), T::of(r.f(-1.0, 1.0)))),
        5 => Some((T::of(r.f(-1.0, 1.0)), T::inf())),
        6 => Some((-T::tiny(), T::tiny())),
        7 => Some((-T::big(), T::big())),
        8 => {
            let x = r.f(-3.0, 3.0);
            s(x, x)
        }
        9 => s(-0.0, 1.0),
        10 => {
            let x = T::of(r.f(-3.0, 3.0));
            Some((x, x.next_up()))
        }
        _ => {
            let a = r.f(-3.0, 3.0);
            s(a, a + r.f(0.0, 4.0))
        }
    }
}

fn same<T: Sc>(a: T, b: T) -> bool {
    a == b || (a.d().is_nan() && b.d().is_nan())
}

/// does a position count as inside?
fn inside<T: Sc>(x: T, lim: Option<(T, T)>) -> bool {
    match lim {
        None => true,
        Some((a, b)) => a.d() <= x.d() && x.d() <= b.d(),
    }
}

fn check_error<T: Sc>(e: &Error, name: &str, kind: Kind, lim: Option<(T, T)>, x: T) {
    let ok = match e {
        Error::SetToFixedError { joint_name } => kind == Kind::Fixed && joint_name == name,
        Error::OutOfLimitError {
            joint_name,
            position,
            max_limit,
            min_limit,
        } => match lim {
            Some((a, b)) => {
                kind != Kind::Fixed
                    && joint_name == name
                    && (*position == x.d() || (position.is_nan() && x.d().is_nan()))
                    && *max_limit == b.d()
                    && *min_limit == a.d()
            }
            None => false,
        },
        _ => false,
    };
    if !ok {
        violation(format!(
            "joint {:?} ({:?}, limits {:?}) rejects {} with {:?}",
            name, kind, lim, x.d(), e
        ));
    }
    // the message names the joint, and what it refuses
    let text = e.to_string();
    if let Error::OutOfLimitError { position, max_limit, min_limit, .. } = e {
        if [position, max_limit, min_limit].iter().any(|x| !text.contains(&x.to_string())) {
            violation(format!("the message {:?} of {:?} lacks a value", text, e));
        }
    }
    if !text.contains(name) {
        violation(format!("the message {:?} does not name the joint {:?}", text, name));
    }
}

fn want_clamped<T: Sc>(x: T, lim: Option<(T, T)>) -> T {
    match lim {
        None => x,
        Some((a, b)) => {
            if x.d() < a.d() {
                a
            } else if x.d() > b.d() {
                b
            } else {
                x
            }
        }
    }
}

struct J<T: Sc> {
    kind: Kind,
    lim: Option<(T, T)>,
    name: String,
}

fn gen_j<T: Sc>(cx: &mut Cx, i: usize) -> (J<T>, Joint<T>) {
    let kind = *cx.rng.pick(&[Kind::Rot, Kind::Rot, Kind::Lin, Kind::Lin, Kind::Fixed]);
    let lim = gen_lim::<T>(cx);
    let name = gen_name(&mut cx.rng, i, true);
    let axis = gen_axis(&mut cx.rng);
    let b = NodeBuilder::<T>::new().name(&name).joint_type(match kind {
        Kind::Fixed => k::JointType::Fixed,
        Kind::Rot => k::JointType::Rotational { axis },
        Kind::Lin => k::JointType::Linear { axis },
    });
    // limits given as a range, by new or by the conversion
    let r = lim.map(|(a, b)| match cx.rng.below(3) {
        0 => Range::new(a, b),
        1 => Range::from(a..=b),
        _ => Range { min: a, max: b },
    });
    let j = if cx.rng.p(0.5) {
        b.limits(r).finalize()
    } else {
        let mut j = b.finalize();
        j.limits = r;
        j
    };
    (J { kind, lim, name }, j)
}

fn p04_t<T: Sc>(cx: &mut Cx) {
    // ---- ranges alone
    for _ in 0..4 {
        if let Some((a, b)) = gen_lim::<T>(cx) {
            let r = Range::new(a, b);
            let x = gen_value(cx, Some((a, b)));
            if r.is_valid(x) != inside(x, Some((a, b))) {
                violation(format!(
                    "is_valid({:e}) of {:e}..={:e} is {}",
                    x.d(), a.d(), b.d(), r.is_valid(x)
                ));
            }
            if !x.d().is_nan() {
                let c = r.clamp(x);
                if c != want_clamped(x, Some((a, b))) {
                    violation(format!(
                        "clamp({:e}) of {:e}..={:e} is {:e}",
                        x.d(), a.d(), b.d(), c.d()
                    ));
                }
            }
            cx.hit("ranges checked");
        }
    }
    // ---- a joint, alone or in a node
    let (s, mut joint) = gen_j::<T>(cx, 0);
    cx.fp(s.kind as u64);
    cx.fp(s.lim.map(|l| l.0.bits() ^ l.1.bits().rotate_left(7)).unwrap_or(1));
    cx.sample = Some(format!(
        "{} {:?} {:?} limits {:?}",
        T::NAME,
        s.name,
        s.kind,
        s.lim.map(|(a, b)| (a.d(), b.d()))
    ));
    let as_node = cx.rng.p(0.5);
    let node: Node<T> = joint.clone().into();
    // a joint may be at any place when it is set
    if s.kind != Kind::Fixed && cx.rng.p(0.5) {
        let x = gen_value(cx, s.lim);
        if as_node {
            node.set_joint_position_unchecked(x);
        } else {
            joint.set_joint_position_unchecked(x);
        }
        let got = if as_node { node.joint_position() } else { joint.joint_position() };
        if !got.map(|g| same(g, x)).unwrap_or(false) {
            violation(format!("set_joint_position_unchecked({:e}) stores {:?}", x.d(), got));
        }
    }
    for _ in 0..cx.rng.range(2, 10) {
        let x = gen_value(cx, s.lim);
        cx.fp(x.bits());
        let before = if as_node { node.joint_position() } else { joint.joint_position() };
        let what = cx.rng.below(4);
        let placed = as_node && cx.rng.p(0.2);
        if placed {
            Chain::from_root(node.clone()).update_transforms();
        }
        let kept = || !placed || node.world_transform().is_some();
        cx.t(|| format!("setter {} <- {:e} from {:?}", what, x.d(), before));
        match what {
            0 | 1 => {
                let r = if as_node {
                    node.set_joint_position(x)
                } else {
                    joint.set_joint_position(x)
                };
                let after = if as_node { node.joint_position() } else { joint.joint_position() };
                let accept = s.kind != Kind::Fixed && inside(x, s.lim);
                match (accept, r) {
                    (true, Ok(())) => {
                        if !after.map(|g| same(g, x)).unwrap_or(false) {
                            violation(format!("the accepted position {:e} is stored as {:?}", x.d(), after));
                        }
                        cx.hit("accepted");
                    }
                    (false, Err(e)) => {
                        let unchanged = match (before, after) {
                            (Some(a), Some(b)) => same(a, b),
                            (None, None) => true,
                            _ => false,
                        };
                        if !unchanged {
                            violation(format!("the rejected position {:e} changes {:?} to {:?}", x.d(), before, after));
                        }
                        check_error(&e, &s.name, s.kind, s.lim, x);
                        if !kept() {
                            violation(format!("the rejected position {:e} discards the world transform", x.d()));
                        }
                        cx.hit("rejected");
                    }
                    (true, Err(e)) => violation(format!("{:e} within {:?} is rejected: {}", x.d(), s.lim, e)),
                    (false, Ok(())) => violation(format!(
                        "{:e} is accepted by a joint ({:?}) with limits {:?}",
                        x.d(), s.kind, s.lim
                    )),
                }
            }
            2 => {
                if x.d().is_nan() {
                    continue;
                }
                if as_node {
                    node.set_joint_position_clamped(x)
                } else {
                    joint.set_joint_position_clamped(x)
                }
                let after = if as_node { node.joint_position() } else { joint.joint_position() };
                match (s.kind, after) {
                    (Kind::Fixed, None) => {
                        if !kept() {
                            violation("the clamping setter discards the world transform of a fixed joint".into());
                        }
                    }
                    (Kind::Fixed, Some(_)) => violation("a fixed joint has a position".into()),
                    (_, Some(g)) if g == want_clamped(x, s.lim) => cx.hit("clamped"),
                    (_, g) => violation(format!(
                        "clamping {:e} to {:?} stores {:?}",
                        x.d(), s.lim, g
                    )),
                }
            }
            _ => {
                if s.kind == Kind::Fixed {
                    continue;
                }
                if as_node {
                    node.set_joint_position_unchecked(x)
                } else {
                    joint.set_joint_position_unchecked(x)
                }
                let after = if as_node { node.joint_position() } else { joint.joint_position() };
                if !after.map(|g| same(g, x)).unwrap_or(false) {
                    violation(format!("set_joint_position_unchecked({:e}) stores {:?}", x.d(), after));
                }
                cx.hit("unchecked");
            }
        }
    }
    // ---- vectors
    let n = cx.rng.range(1, 8);
    let mut js = vec![];
    let mut nodes: Vec<Node<T>> = vec![];
    for i in 0..n {
        let (s, j) = gen_j::<T>(cx, i);
        let node: Node<T> = j.into();
        if s.kind != Kind::Fixed {
            // most start within their limits
            let mut x = gen_value(cx, s.lim);
            if cx.rng.p(0.8) {
                x = want_clamped(x, s.lim);
            }
            node.set_joint_position_unchecked(x);
        }
        if let Some(p) = nodes.last() {
            node.set_parent(p);
        }
        nodes.push(node);
        js.push(s);
    }
    let chain = Chain::from_root(nodes[0].clone());
    let mov: Vec<usize> = (0..n).filter(|i| js[*i].kind != Kind::Fixed).collect();
    for _ in 0..cx.rng.range(1, 5) {
        let before: Vec<Option<T>> = nodes.iter().map(|n| n.joint_position()).collect();
        let unchanged = |cx: &mut Cx, why: &str| {
            for (n, b) in nodes.iter().zip(&before) {
                let ok = match (n.joint_position(), b) {
                    (Some(a), Some(b)) => same(a, *b),
                    (None, None) => true,
                    _ => false,
                };
                if !ok {
                    violation(format!("a vector rejected because of {} moves a joint", why));
                }
            }
            cx.hit("rejected vectors without effect");
        };
        if cx.rng.p(0.25) {
            // wrong length
            let mut len = cx.rng.below(mov.len() + 4);
            if len == mov.len() {
                len += 1;
            }
            let xs: Vec<T> = (0..len)
                .map(|i| mov.get(i).and_then(|m| js[*m].lim).map(|l| l.0).unwrap_or_else(|| T::of(0.3)))
                .collect();
            match chain.set_joint_positions(&xs) {
                Ok(()) => violation(format!("{} positions are accepted for {} joints", len, mov.len())),
                Err(Error::SizeMismatchError { input, required }) => {
                    if input != len || required != mov.len() {
                        violation(format!("wrong sizes in the error: {} {}", input, required));
                    }
                }
                Err(e) => violation(format!("the wrong length is reported as {:?}", e)),
            }
            unchanged(cx, "its length");
            continue;
        }
        let all_legal = cx.rng.p(0.4);
        let xs: Vec<T> = mov
            .iter()
            .map(|m| {
                let mut x = gen_value(cx, js[*m].lim);
                if all_legal || cx.rng.p(0.7) {
                    if x.d().is_nan() {
                        x = T::of(0.5);
                    }
                    x = want_clamped(x, js[*m].lim);
                }
                x
            })
            .collect();
        let what = cx.rng.below(4);
        cx.t(|| format!("vector {} {:?}", what, xs.iter().map(|x| x.d()).collect::<Vec<_>>()));
        match what {
            0 | 1 => {
                let bad: Vec<usize> = (0..mov.len()).filter(|k| !inside(xs[*k], js[mov[*k]].lim)).collect();
                match chain.set_joint_positions(&xs) {
                    Ok(()) => {
                        if !bad.is_empty() {
                            violation(format!("a vector is accepted although joint {} is out of its limits", mov[bad[0]]));
                        }
                        for (k, m) in mov.iter().enumerate() {
                            if !nodes[*m].joint_position().map(|g| same(g, xs[k])).unwrap_or(false) {
                                violation(format!("joint {} of an accepted vector is at {:?}, not {:e}", m, nodes[*m].joint_position(), xs[k].d()));
                            }
                        }
                        cx.hit("accepted vectors");
                    }
                    Err(e) => {
                        if bad.is_empty() {
                            violation(format!("a vector within the limits is rejected: {}", e));
                        }
                        // the error is about one of the illegal values
                        let about = match &e {
                            Error::OutOfLimitError { joint_name, .. } => {
                                bad.iter().copied().find(|k| js[mov[*k]].name == *joint_name)
                            }
                            _ => None,
                        };
                        match about {
                            None => violation(format!("the reason of the rejection is {:?}", e)),
                            Some(k) => {
                                let s = &js[mov[k]];
                                check_error(&e, &s.name, s.kind, s.lim, xs[k]);
                            }
                        }
                        for (k, m) in mov.iter().enumerate() {
                            let g = nodes[*m].joint_position();
                            let old = before[*m];
                            let ok = match (g, old) {
                                (Some(g), Some(o)) => {
                                    same(g, o) || (same(g, xs[k]) && !bad.contains(&k))
                                }
                                _ => false,
                            };
                            if !ok {
                                violation(format!("joint {} is at {:?} after a rejected vector, it was at {:?} and {:e} was requested", m, g, old, xs[k].d()));
                            }
                        }
                        cx.hit("rejected vectors");
                    }
                }
            }
            2 => {
                if xs.iter().any(|x| x.d().is_nan()) {
                    continue;
                }
                chain.set_joint_positions_clamped(&xs);
                for (k, m) in mov.iter().enumerate() {
                    if nodes[*m].joint_position() != Some(want_clamped(xs[k], js[*m].lim)) {
                        violation(format!("joint {}: clamping {:e} to {:?} stores {:?}", m, xs[k].d(), js[*m].lim, nodes[*m].joint_position()));
                    }
                }
                cx.hit("clamped vectors");
            }
            _ => {
                chain.set_joint_positions_unchecked(&xs);
                for (k, m) in mov.iter().enumerate() {
                    if !nodes[*m].joint_position().map(|g| same(g, xs[k])).unwrap_or(false) {
                        violation(format!("joint {}: unchecked {:e} stores {:?}", m, xs[k].d(), nodes[*m].joint_position()));
                    }
                }
                cx.hit("unchecked vectors");
            }
        }
    }
    cx.nontrivial();
}
pub fn p04(cx: &mut Cx) {
    both(cx, p04_t::<f64>, p04_t::<f32>)
}

// ------------------------------------------------------------------ P05

struct Rel<T: Sc> {
    f: usize,
    l: usize,
    m: T,
    o: T,
}

/// mult * x + offset, with and without an intermediate rounding
fn follow<T: Sc>(r: &Rel<T>, x: T) -> (f64, f64) {
    let v = r.m.d() * x.d() + r.o.d();
    (v, 4.0 * T::EPS * (r.m.d() * x.d()).abs() + 4.0 * T::EPS * r.o.d().abs() + if T::F32 { 1e-38 } else { 1e-300 })
}

fn check_followers<T: Sc>(cx: &mut Cx, w: &World<T>, rels: &[Rel<T>], l: usize, x: T, d: &str) {
    for r in rels.iter().filter(|r| r.l == l && w.movable(r.f)) {
        let (v, tol) = follow(r, x);
        match w.nodes[r.f].joint_position() {
            Some(g) if (g.d() - v).abs() <= tol => cx.hit("followers compared"),
            g => violation(format!(
                "{}: joint {} is at {:?} but follows joint {} at {} with *{} +{} = {}",
                d, r.f, g, l, x.d(), r.m.d(), r.o.d(), v
            )),
        }
    }
}

fn check_unrelated<T: Sc>(w: &World<T>, rels: &[Rel<T>], moved: &[usize], before: &[Option<T>], d: &str) {
    for i in 0..w.len() {
        if moved.contains(&i) || rels.iter().any(|r| r.f == i && moved.contains(&r.l)) {
            continue;
        }
        let g = w.nodes[i].joint_position();
        let ok = match (g, before[i]) {
            (Some(a), Some(b)) => same(a, b),
            (None, None) => true,
            _ => false,
        };
        if !ok {
            violation(format!("{}: joint {} moved from {:?} to {:?}", d, i, before[i], g));
        }
    }
}

/// a follower is within its limits or where it was
fn check_follower_limits<T: Sc>(w: &World<T>, rels: &[Rel<T>], before: &[Option<T>], d: &str) {
    for r in rels {
        let g = w.nodes[r.f].joint_position();
        let ok = match (g, before[r.f]) {
            (Some(g), Some(b)) => same(g, b) || inside(g, w.s.n[r.f].limits),
            (None, None) => !w.movable(r.f),
            _ => false,
        };
        if !ok {
            violation(format!(
                "{}: follower {} is put to {:?}, outside of {:?}",
                d, r.f, g, w.s.n[r.f].limits
            ));
        }
    }
}

/// is moving the leader to x certainly possible / certainly impossible / too close to tell?
fn verdict<T: Sc>(w: &World<T>, rels: &[Rel<T>], l: usize, x: T) -> Option<bool> {
    if !inside(x, w.s.n[l].limits) {
        return Some(false);
    }
    let mut r = Some(true);
    for rel in rels.iter().filter(|r| r.l == l) {
        let (v, tol) = follow(rel, x);
        if !w.movable(rel.f) {
            // it can not follow: nothing is promised
            r = None;
        } else if let Some((a, b)) = w.s.n[rel.f].limits {
            if v < a.d() - tol || v > b.d() + tol || v.is_nan() {
                return Some(false);
            }
            if v < a.d() + tol || v > b.d() - tol {
                r = None;
            }
        }
    }
    r
}

fn p05_ops<T: Sc>(cx: &mut Cx, w: &World<T>, rels: &mut Vec<Rel<T>>, fixed_rel: bool) {
    let mov: Vec<usize> = (0..w.len()).filter(|i| w.movable(*i)).collect();
    if mov.is_empty() {
        return;
    }
    let whole = Chain::from_root(w.nodes[0].clone());
    let steps = if cx.rng.p(0.002) { 300 } else { cx.rng.range(2, 14) };
    for _ in 0..steps {
        let before = w.raw_positions();
        let what = cx.rng.below(12);
        match what {
            0..=5 => {
                let i = *cx.rng.pick(&mov);
                let x = crate::ops::rand_pos(cx, w, i);
                let d = format!("set_joint_position({}) of joint {}", x.d(), i);
                cx.t(|| d.clone());
                let r = w.nodes[i].set_joint_position(x);
                if rels.iter().any(|r| r.f == i) {
                    if let Err(e) = r {
                        violation(format!("{} which mimics another one fails: {}", d, e));
                    }
                    check_unrelated(w, &[], &[], &before, &d);
                    cx.hit("followers set directly");
                    continue;
                }
                match (verdict(w, rels, i, x), &r) {
                    (Some(true), Err(e)) => violation(format!("{} fails: {}", d, e)),
                    (Some(false), Ok(())) => violation(format!(
                        "{} succeeds although a follower or the joint itself would be out of its limits",
                        d
                    )),
                    _ => {}
                }
                check_unrelated(w, rels, &[i], &before, &d);
                check_follower_limits(w, rels, &before, &d);
                if r.is_ok() {
                    if w.nodes[i].joint_position() != Some(x) {
                        violation(format!("{} leaves it at {:?}", d, w.nodes[i].joint_position()));
                    }
                    check_followers(cx, w, rels, i, x, &d);
                    cx.hit("moves accepted");
                } else {
                    cx.hit("moves rejected");
                }
            }
            6 | 7 => {
                // a vector for the whole chain, or a part of it
                let (v, _, _, vd) = gen_view(w, &mut cx.rng);
                let c = if cx.rng.p(0.5) { &whole } else { v.c() };
                let idx: Vec<usize> = chain_idx(w, c).into_iter().filter(|i| w.movable(*i)).collect();
                let xs: Vec<T> = idx.iter().map(|i| crate::ops::rand_pos(cx, w, *i)).collect();
                let d = format!("set_joint_positions of {} joints {:?}", vd, idx);
                cx.t(|| format!("{} {:?}", d, xs.iter().map(|x| x.d()).collect::<Vec<_>>()));
                let r = c.set_joint_positions(&xs);
                check_follower_limits(w, rels, &before, &d);
                let leaders: Vec<usize> = idx
                    .iter()
                    .copied()
                    .filter(|i| !rels.iter().any(|r| r.f == *i))
                    .collect();
                check_unrelated(w, rels, &leaders, &before, &d);
                if r.is_ok() {
                    for (i, x) in idx.iter().zip(&xs) {
                        if !leaders.contains(i) {
                            continue;
                        }
                        if w.nodes[*i].joint_position() != Some(*x) {
                            violation(format!("{} leaves joint {} at {:?}", d, i, w.nodes[*i].joint_position()));
                        }
                        check_followers(cx, w, rels, *i, *x, &d);
                    }
                    cx.hit("vectors accepted");
                } else {
                    cx.hit("vectors rejected");
                }
            }
            8 => {
                // other parameters, or another leader
                if rels.is_empty() || fixed_rel {
                    continue;
                }
                let k = cx.rng.below(rels.len());
                let f = rels[k].f;
                let (m, o) = (T::of(cx.rng.f(-2.0, 2.0)), T::of(cx.rng.f(-1.0, 1.0)));
                let mut l = rels[k].l;
                if cx.rng.p(0.4) {
                    // only leaders, and never below the follower
                    let ls: Vec<usize> = rels.iter().map(|r| r.l).filter(|l| !w.above(f, *l)).collect();
                    if !ls.is_empty() {
                        l = *cx.rng.pick(&ls);
                    }
                }
                cx.t(|| format!("joint {} mimics {} *{} +{}", f, l, m.d(), o.d()));
                w.nodes[f].set_mimic_parent(&w.nodes[l], Mimic::new(m, o));
                if w.nodes[f].mimic_parent().as_ref() != Some(&w.nodes[l]) {
                    violation(format!("mimic_parent() of {} is not {}", f, l));
                }
                rels[k] = Rel { f, l, m, o };
                cx.hit("relations changed");
            }
            _ => {
                // clamping and unchecked setters
                let i = *cx.rng.pick(&mov);
                let x = crate::ops::rand_pos(cx, w, i);
                let unchecked = cx.rng.p(0.4);
                let name = if unchecked { "unchecked" } else { "clamped" };
                let d = format!("set_joint_position_{}({}) of joint {}", name, x.d(), i);
                cx.t(|| d.clone());
                if unchecked {
                    w.nodes[i].set_joint_position_unchecked(x);
                } else {
                    w.nodes[i].set_joint_position_clamped(x);
                }
                check_unrelated(w, rels, &[i], &before, &d);
                let is_f = rels.iter().any(|r| r.f == i);
                let now = w.nodes[i].joint_position();
                if is_f {
                    if now != before[i] {
                        cx.known(
                            &format!("{}-setter-moves-follower", name),
                            format!("set_joint_position_{} moves a joint which mimics another one", name),
                        );
                    }
                } else if let Some(p) = now {
                    for r in rels.iter().filter(|r| r.l == i && w.movable(r.f)) {
                        let (v, tol) = follow(r, p);
                        let g = w.nodes[r.f].joint_position();
                        let right = g.map(|g| (g.d() - v).abs() <= tol).unwrap_or(false);
                        // a follower clamped to its limits is fine, too
                        let lim = want_clamped(T::of(v), w.s.n[r.f].limits).d();
                        let right = right || g.map(|g| (g.d() - lim).abs() <= tol).unwrap_or(false);
                        if right {
                            continue;
                        }
                        if g == before[r.f] {
                            cx.known(
                                &format!("{}-setter-does-not-move-followers", name),
                                format!("set_joint_position_{} moves a joint but not the joints which mimic it", name),
                            );
                        } else {
                            violation(format!("{}: follower {} moves from {:?} to {:?} instead of {}", d, r.f, before[r.f], g, v));
                        }
                    }
                }
            }
        }
    }
}

fn p05_t<T: Sc>(cx: &mut Cx) {
    let o = GenOpt {
        min: 2,
        max: 14,
        links: 0.0,
        limits: 0.4,
        fixed: 0.1,
        velocities: false,
        legal: true,
        wild: false,
        ..GenOpt::default()
    };
    let mut s = gen_spec::<T>(&mut cx.rng, &o);
    let keep_limits = cx.rng.p(0.5);
    crate::p_tree::gen_mimics(cx, &mut s, keep_limits);
    if cx.rng.p(0.5) {
        cx.rng.shuffle(&mut s.mimic);
    }
    cx.fp(spec_fp(&s));
    cx.fp(s.mimic.len() as u64);
    cx.t(|| describe(&s));
    let w = World::new(s);
    cx.sample = Some(format!("{:?}", w.s.mimic.iter().map(|m| (m.0, m.1, m.2.d(), m.3.d())).collect::<Vec<_>>()));
    let mut rels: Vec<Rel<T>> = w
        .s
        .mimic
        .iter()
        .map(|(f, l, m, o)| Rel {
            f: *f,
            l: *l,
            m: *m,
            o: *o,
        })
        .collect();
    for r in &rels {
        if w.nodes[r.f].mimic_parent().as_ref() != Some(&w.nodes[r.l]) {
            violation(format!("mimic_parent() of {} is not {}", r.f, r.l));
        }
    }
    for i in 0..w.len() {
        if !rels.iter().any(|r| r.f == i) && w.nodes[i].mimic_parent().is_some() {
            violation(format!("joint {} mimics a joint", i));
        }
    }
    if rels.len() >= 2 {
        cx.nontrivial();
    }
    if !rels.is_empty() {
        cx.hit("cases with followers");
    }
    p05_ops(cx, &w, &mut rels, false);
    let m = Mimic::new(T::of(cx.rng.f(-3.0, 3.0)), T::of(cx.rng.f(-3.0, 3.0)));
    let x = T::of(cx.rng.f(-3.0, 3.0));
    let (v, tol) = follow(
        &Rel {
            f: 0,
            l: 0,
            m: m.multiplier,
            o: m.origin,
        },
        x,
    );
    if !((m.mimic_position(x).d() - v).abs() <= tol) {
        violation(format!("mimic_position({}) is {} not {}", x.d(), m.mimic_position(x).d(), v));
    }
    // ---- from a URDF, with defaults left out
    if cx.rng.p(0.3) {
        let n = cx.rng.range(2, 6);
        let mut xml = String::from("<robot name=\"m\">");
        let mut order: Vec<usize> = (0..n).collect();
        cx.rng.shuffle(&mut order);
        for i in 0..=n {
            xml += &format!("<link name=\"l{}\"/>", i);
        }
        let leader = cx.rng.below(n);
        let mut rel = vec![];
        for i in &order {
            let lin = cx.rng.p(0.3);
            xml += &format!(
                "<joint name=\"j{}\" type=\"{}\"><parent link=\"l{}\"/><child link=\"l{}\"/><axis xyz=\"0 0 1\"/>",
                i,
                if lin { "prismatic" } else { "continuous" },
                if cx.rng.p(0.5) { *i } else { 0 },
                i + 1
            );
            // a follower above its leader would be a cycle of strong references
            if *i > leader && cx.rng.p(0.7) {
                let (m, o) = (cx.rng.f(-2.0, 2.0), cx.rng.f(-1.0, 1.0));
                let (hm, ho) = (cx.rng.p(0.6), cx.rng.p(0.6));
                xml += &format!("<mimic joint=\"j{}\"", leader);
                if hm {
                    xml += &format!(" multiplier=\"{:?}\"", m);
                }
                if ho {
                    xml += &format!(" offset=\"{:?}\"", o);
                }
                xml += "/>";
                rel.push(Rel {
                    f: *i,
                    l: leader,
                    m: T::of(if hm { m } else { 1.0 }),
                    o: T::of(if ho { o } else { 0.0 }),
                });
                if !hm {
                    cx.hit("URDF mimics without multiplier");
                }
                if !ho {
                    cx.hit("URDF mimics without offset");
                }
            }
            xml += "</joint>";
        }
        xml += "</robot>";
        cx.t(|| xml.clone());
        let robot = match urdf_rs::read_from_string(&xml) {
            Ok(r) => r,
            Err(e) => harness_error(format!("urdf: {} {}", e, xml)),
        };
        let chain = Chain::<T>::from(&robot);
        let find = |i: usize| match chain.find(&format!("j{}", i)) {
            Some(n) => n.clone(),
            None => violation(format!("joint j{} of the URDF is not in the chain", i)),
        };
        let before: Vec<String> = (0..n).map(|i| node_data(&find(i))).collect();
        let x = T::of(cx.rng.f(-2.0, 2.0));
        if let Err(e) = find(leader).set_joint_position(x) {
            violation(format!("leader of a URDF mimic: {}", e));
        }
        for i in 0..n {
            match rel.iter().find(|r| r.f == i) {
                Some(r) => {
                    let (v, tol) = follow(r, x);
                    let g = find(i).joint_position();
                    if !g.map(|g| (g.d() - v).abs() <= tol).unwrap_or(false) {
                        violation(format!("URDF mimic j{}: {:?} instead of {}\n{}", i, g, v, xml));
                    }
                    cx.hit("URDF followers compared");
                }
                None => {
                    if i != leader && node_data(&find(i)) != before[i] {
                        violation(format!("URDF joint j{} is moved by j{}\n{}", i, leader, xml));
                    }
                }
            }
        }
    }
    // ---- a follower of a follower
    if cx.rng.p(0.1) {
        let mk = || -> Node<T> {
            NodeBuilder::new()
                .joint_type(k::JointType::Rotational {
                    axis: k::Vector3::z_axis(),
                })
                .into_node()
        };
        let (a, b, c) = (mk(), mk(), mk());
        b.set_parent(&a);
        c.set_parent(&b);
        b.set_mimic_parent(&a, Mimic::new(T::of(2.0), T::of(0.5)));
        c.set_mimic_parent(&b, Mimic::new(T::of(-1.0), T::of(0.25)));
        if let Err(e) = a.set_joint_position(T::of(0.5)) {
            violation(format!("leader of a leader: {}", e));
        }
        if a.joint_position() != Some(T::of(0.5)) || b.joint_position() != Some(T::of(1.5)) {
            violation("the first follower of two is wrong".into());
        }
        if c.joint_position() == Some(T::of(0.0)) {
            cx.known(
                "follower-of-follower",
                "a joint which mimics a mimicking joint does not follow".into(),
            );
        } else if c.joint_position() != Some(T::of(-1.25)) {
            violation(format!("the second follower is at {:?}", c.joint_position()));
        }
    }
}
pub fn p05(cx: &mut Cx) {
    both(cx, p05_t::<f64>, p05_t::<f32>)
}

// ------------------------------------------------------------------ P21

fn flags(c: &Constraints) -> [bool; 6] {
    [
        c.position_x,
        c.position_y,
        c.position_z,
        c.rotation_x,
        c.rotation_y,
        c.rotation_z,
    ]
}
const FIELDS: [&str; 6] = [
    "position_x",
    "position_y",
    "position_z",
    "rotation_x",
    "rotation_y",
    "rotation_z",
];

pub fn p21(cx: &mut Cx) {
    let d = Constraints::default();
    if flags(&d) != [true; 6] || !d.ignored_joint_names.is_empty() {
        violation(format!("the default constraints are {:?}", d));
    }
    // all combinations of flags and of present fields come in turn
    let mut m = cx.rng.below(64);
    let present = cx.rng.below(128);
    if cx.rng.p(0.02) {
        m = 63;
    }
    let mut f = [false; 6];
    for (i, x) in f.iter_mut().enumerate() {
        *x = m & (1 << i) != 0;
    }
    let count = if cx.rng.p(0.02) { cx.rng.range(5, 80) } else { cx.rng.below(5) };
    let names: Vec<String> = (0..count)
        .map(|i| match cx.rng.below(7) {
            0 => String::new(),
            1 => "a\"b\\c\n\u{0}".to_string(),
            2 => "足_関節🤖".to_string(),
            3 => "dup".to_string(),
            4 => {
                // white space and case are part of a name, and it may be long
                let n = ["J1", "j1", "j1 ", "\tj1", " ", "j1\u{a0}", "e\u{301}", "\u{e9}"];
                let mut n = cx.rng.pick(&n).to_string();
                if cx.rng.p(0.05) {
                    n += &"x".repeat(cx.rng.range(100, 5000));
                }
                n
            }
            _ => gen_name(&mut cx.rng, i, true),
        })
        .collect();
    let c = Constraints {
        position_x: f[0],
        position_y: f[1],
        position_z: f[2],
        rotation_x: f[3],
        rotation_y: f[4],
        rotation_z: f[5],
        ignored_joint_names: names.clone(),
    };
    let check = |r: Result<Constraints, String>, f: [bool; 6], n: &[String], d: &str| match r {
        Err(e) => violation(format!("{}: cannot be read: {}", d, e)),
        Ok(c) => {
            if flags(&c) != f || c.ignored_joint_names != n {
                violation(format!("{}: read as {:?}, expected {:?} {:?}", d, c, f, n));
            }
        }
    };
    // written and read
    let text = match cx.rng.below(2) {
        0 => serde_json::to_string(&c),
        _ => serde_json::to_string_pretty(&c),
    };
    let text = match text {
        Ok(t) => t,
        Err(e) => violation(format!("{:?} cannot be written: {}", c, e)),
    };
    cx.sample = Some(text.clone());
    cx.t(|| text.clone());
    check(
        serde_json::from_str(&text).map_err(|e| e.to_string()),
        f,
        &names,
        &text,
    );
    match serde_json::to_value(&c) {
        Err(e) => violation(format!("{:?} cannot be written: {}", c, e)),
        Ok(v) => {
            for (i, n) in FIELDS.iter().enumerate() {
                if v.get(n) != Some(&serde_json::Value::Bool(f[i])) {
                    violation(format!("{} is written as {:?} in {}", n, v.get(n), v));
                }
            }
            check(
                serde_json::from_value(v.clone()).map_err(|e| e.to_string()),
                f,
                &names,
                &v.to_string(),
            );
            // as a byte stream and in a sequence
            let b = serde_json::to_vec(&vec![&c, &c]).unwrap_or_default();
            match serde_json::from_slice::<Vec<Constraints>>(&b) {
                Ok(l) if l.len() == 2 => {
                    for x in l {
                        check(Ok(x), f, &names, "sequence");
                    }
                }
                e => violation(format!("a sequence of constraints is read as {:?}", e)),
            }
        }
    }
    // fields left out, in any order
    let mut fields: Vec<(String, serde_json::Value)> = vec![];
    let mut want = [true; 6];
    for i in 0..6 {
        if present & (1 << i) != 0 {
            fields.push((FIELDS[i].into(), f[i].into()));
            want[i] = f[i];
        }
    }
    let with_names = present & 64 != 0;
    if with_names {
        fields.push(("ignored_joint_names".into(), names.clone().into()));
    }
    cx.rng.shuffle(&mut fields);
    let t = format!(
        "{{{}}}",
        fields
            .iter()
            .map(|(k, v)| format!("{:?}:{}", k, v))
            .collect::<Vec<_>>()
            .join(",")
    );
    cx.t(|| t.clone());
    check(
        serde_json::from_str(&t).map_err(|e| e.to_string()),
        want,
        if with_names { &names } else { &[] },
        &t,
    );
    // clone and debug keep the content
    check(Ok(c.clone()), f, &names, "clone");
    cx.fp((m * 128 + present) as u64);
    cx.nontrivial();
    cx.hit("round trips");
}
