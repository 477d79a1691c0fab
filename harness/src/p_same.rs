//! P28: names, the way of construction and other robots have no influence on the numbers
use crate::core::*;
use crate::gen::*;
use crate::ops::*;
use crate::p_fk::both;
use crate::p_tree::gen_mimics;
use crate::sc::*;
use k::nalgebra as na;
use k::prelude::*;
use k::{Chain, Constraints, Error, JacobianIkSolver, Joint, Node, NodeBuilder, SerialChain};
use na::{Isometry3, Vector3};

/// what a second robot is called
fn rename<T: Sc>(cx: &mut Cx, s: &Spec<T>, unique: bool) -> Spec<T> {
    let mut t = s.clone();
    let n = s.n.len();
    let mut at: Vec<usize> = (0..n).collect();
    match cx.rng.below(if unique { 4 } else { 7 }) {
        0 | 1 => {
            // the names of the first one exchanged
            cx.rng.shuffle(&mut at);
            for i in 0..n {
                t.n[i].name = s.n[at[i]].name.clone();
            }
            cx.hit("names exchanged");
        }
        2 => {
            let k = cx.rng.range(1, n.max(1));
            for i in 0..n {
                t.n[i].name = s.n[(i + k) % n].name.clone();
            }
            cx.hit("names moved");
        }
        3 => {
            for i in 0..n {
                t.n[i].name = gen_name(&mut cx.rng, i, false) + &format!(" no {}", i);
            }
            cx.hit("names made anew");
        }
        4 => {
            let x = gen_name(&mut cx.rng, 0, false);
            for m in t.n.iter_mut() {
                m.name = x.clone();
            }
            cx.hit("one name for all");
        }
        5 => {
            for i in 0..n {
                let k = cx.rng.below(i + 1);
                t.n[i].name = s.n[k].name.clone();
            }
            cx.hit("names repeated");
        }
        _ => {}
    }
    let links: Vec<usize> = (0..n).filter(|i| s.n[*i].link.is_some()).collect();
    let way = cx.rng.below(3);
    for i in &links {
        let other = *cx.rng.pick(&links);
        let name = match way {
            0 => s.n[other].link.as_ref().map(|l| l.name.clone()).unwrap_or_default(),
            1 => String::new(),
            _ => "link".into(),
        };
        if let Some(l) = t.n[*i].link.as_mut() {
            l.name = name;
            for v in l.visuals.iter_mut() {
                v.name = "v".into();
                v.material.name = "m".into();
            }
            for v in l.collisions.iter_mut() {
                v.name = String::new();
            }
        }
    }
    t
}

/// the same robot made in another way
fn build<T: Sc>(cx: &mut Cx, s: &Spec<T>) -> World<T> {
    let n = s.n.len();
    let mut at: Vec<usize> = (0..n).collect();
    cx.rng.shuffle(&mut at);
    let mut made: Vec<Option<Node<T>>> = vec![None; n];
    let mut late = vec![];
    for i in at {
        let x = &s.n[i];
        let range = x.limits.map(|(a, b)| k::joint::Range { min: a, max: b });
        let mut j: Joint<T> = match cx.rng.below(4) {
            0 => {
                let mut b = NodeBuilder::<T>::new();
                let mut parts = [0, 1, 2, 3];
                cx.rng.shuffle(&mut parts);
                for p in parts {
                    b = match p {
                        0 => b.name(&x.name),
                        1 => b.joint_type(joint_type(x)),
                        2 => b.limits(range.clone()),
                        _ => b.translation(x.origin.translation).rotation(x.origin.rotation),
                    };
                }
                b.finalize()
            }
            1 => {
                let mut j = Joint::new(&x.name, joint_type(x));
                j.limits = range;
                j.set_origin(x.origin);
                j
            }
            2 => {
                // another one turned into this one
                let mut j = Joint::new("other", joint_type(x));
                let _ = j.set_joint_position(T::of(0.25));
                j.set_origin(gen_origin(&mut cx.rng));
                let mut j = j.clone();
                j.name = x.name.clone();
                j.limits = range;
                j.set_origin(x.origin);
                j
            }
            _ => make_joint(x),
        };
        if x.kind != Kind::Fixed {
            if j.set_joint_velocity(x.vel).is_err() {
                violation("set_joint_velocity of a movable joint failed".into());
            }
            if cx.rng.p(0.5) {
                j.set_joint_position_unchecked(x.pos);
            } else {
                j.set_joint_position_unchecked(T::of(0.0));
                late.push(i);
            }
        }
        let node: Node<T> = if cx.rng.p(0.5) { Node::new(j) } else { j.into() };
        if x.link.is_some() && cx.rng.p(0.5) {
            node.set_link(x.link.clone());
        }
        made[i] = Some(node);
    }
    let nodes: Vec<Node<T>> = made.into_iter().flatten().collect();
    // the order among the children of one node is kept
    let mut queues: Vec<Vec<usize>> = vec![vec![]; n];
    for i in s.order.iter().rev() {
        if let Some(p) = s.n[*i].parent {
            queues[p].push(*i);
        }
    }
    let mut open: Vec<usize> = (0..n).filter(|p| !queues[*p].is_empty()).collect();
    let probe = cx.rng.p(0.3);
    while !open.is_empty() {
        let k = cx.rng.below(open.len());
        let p = open[k];
        let c = match queues[p].pop() {
            Some(c) => c,
            None => {
                open.swap_remove(k);
                continue;
            }
        };
        if probe && cx.rng.p(0.3) {
            // parts are used before they are joined
            let root = if cx.rng.p(0.5) { &nodes[c] } else { &nodes[p] };
            let part = Chain::from_end(root);
            part.update_transforms();
            let _ = part.update_velocities();
            part.update_link_transforms();
            cx.hit("parts used before they were joined");
        }
        if cx.rng.p(0.5) {
            nodes[c].set_parent(&nodes[p]);
        } else {
            k::connect!(nodes[p] => nodes[c]);
        }
        if cx.rng.p(0.1) {
            nodes[c].remove_parent(&nodes[p]);
            nodes[c].set_parent(&nodes[p]);
            cx.hit("joined twice");
        }
    }
    cx.rng.shuffle(&mut late);
    for i in late {
        nodes[i].set_joint_position_unchecked(s.n[i].pos);
    }
    for (x, node) in s.n.iter().zip(&nodes) {
        if x.link.is_some() {
            node.set_link(x.link.clone());
        }
    }
    for (f, l, m, o) in &s.mimic {
        nodes[*f].set_mimic_parent(&nodes[*l], k::joint::Mimic::new(*m, *o));
    }
    let w = World::with(s.clone(), nodes);
    // the order of followers shows if the last one cannot follow
    let stuck = s.mimic.iter().any(|m| s.n[m.0].kind == Kind::Fixed);
    if !stuck && cx.rng.p(0.2) {
        // a copy of it
        let c = Chain::from_root(w.nodes[0].clone());
        let order = chain_idx(&w, &c);
        if order.len() != n {
            violation(format!("{} of {} nodes in the chain", order.len(), n));
        }
        let d = c.clone();
        let mut nodes: Vec<Option<Node<T>>> = vec![None; n];
        for (m, i) in d.iter().zip(&order) {
            nodes[*i] = Some(m.clone());
        }
        cx.hit("copies used as the second robot");
        return World::with(s.clone(), nodes.into_iter().flatten().collect());
    }
    w
}

fn error_text<T: Sc>(w: &World<T>, e: &Error) -> String {
    let who = |n: &str| {
        let v: Vec<usize> = (0..w.len()).filter(|i| w.s.n[*i].name == n).collect();
        match v.len() {
            0 => violation(format!("an error names {:?}, which no joint is called", n)),
            1 => format!("joint {}", v[0]),
            _ => "joint".into(),
        }
    };
    match e {
        Error::OutOfLimitError {
            joint_name,
            position,
            max_limit,
            min_limit,
        } => format!(
            "out of limit {} {:x} {:x} {:x}",
            who(joint_name),
            position.to_bits(),
            max_limit.to_bits(),
            min_limit.to_bits()
        ),
        Error::SetToFixedError { joint_name } => format!("fixed {}", who(joint_name)),
        Error::MimicError { from, to } => format!("mimic {} {}", who(from), who(to)),
        Error::InvalidJointNameError { joint_name } => format!("invalid {}", who(joint_name)),
        e => format!("{:?}", e),
    }
}

struct Run {
    log: Vec<String>,
    unique: bool,
    first: bool,
}

impl Run {
    /// names compare only if all are different in both robots
    fn result<T: Sc>(&mut self, w: &World<T>, what: &str, r: &Result<(), Error>) {
        let mut s = match r {
            Ok(()) => "Ok".to_string(),
            Err(e) => error_text(w, e),
        };
        if !self.unique {
            if let Some(k) = s.find("joint") {
                s.truncate(k);
            }
        }
        self.log.push(format!("{}: {}", what, s));
    }
}

fn vel_bits<T: Sc>(v: &k::joint::Velocity<T>) -> [u64; 6] {
    let (a, b) = (&v.translation, &v.rotation);
    [a[0].bits(), a[1].bits(), a[2].bits(), b[0].bits(), b[1].bits(), b[2].bits()]
}

/// the link of a node without its names
fn link_numbers<T: Sc>(n: &Node<T>) -> String {
    let l = match &*n.link() {
        None => return "no link".into(),
        Some(l) => l.clone(),
    };
    let mut l = l;
    l.name.clear();
    for v in l.visuals.iter_mut() {
        v.name.clear();
        v.material.name.clear();
    }
    for v in l.collisions.iter_mut() {
        v.name.clear();
    }
    link_text(&l, true)
}

/// everything that is read from one chain
fn look<T: Sc>(w: &World<T>, v: &V<T>, d: &str, out: &mut Run) {
    let idx = chain_idx(w, v.c());
    out.log.push(format!("{}: nodes {:?} dof {}", d, idx, v.c().dof()));
    out.log.push(format!(
        "{}: positions {:x?}",
        d,
        v.c().joint_positions().iter().map(|x| x.bits()).collect::<Vec<_>>()
    ));
    let t = v.c().update_transforms();
    for (t, i) in t.iter().zip(&idx) {
        out.log.push(format!("{}: pose of node {}: {:x?}", d, i, iso_bits(t)));
    }
    for (t, i) in v.c().update_velocities().iter().zip(&idx) {
        out.log.push(format!("{}: velocity of node {}: {:x?}", d, i, vel_bits(t)));
    }
    v.c().update_link_transforms();
    for i in &idx {
        out.log.push(format!("{}: link of node {}: {}", d, i, link_numbers(&w.nodes[*i])));
    }
    let m: Vector3<T> = k::center_of_mass(v.c());
    out.log.push(format!("{}: center of mass {:x?}", d, v3(&m).map(f64::to_bits)));
    if let V::S(s) = v {
        let j = k::jacobian(s);
        out.log.push(format!(
            "{}: Jacobian {:?} {:x?}",
            d,
            j.shape(),
            j.iter().map(|x| x.bits()).collect::<Vec<_>>()
        ));
        out.log.push(format!("{}: end {:x?}", d, iso_bits(&s.end_transform())));
    }
}

/// A history chosen by the script alone, and what was seen on the way. Before each step the same
/// is done with the other robot, if there is one, which looks alike but has other dimensions.
fn run<T: Sc>(
    cx: &mut Cx,
    w: &mut World<T>,
    mut decoy: Option<&mut World<T>>,
    script: u64,
    unique: bool,
    first: bool,
) -> Vec<String> {
    let mut rng = crate::rng::Rng::new(script);
    std::mem::swap(&mut rng, &mut cx.rng);
    let mut out = Run {
        log: vec![],
        unique,
        first,
    };
    let mut void = Run {
        log: vec![],
        unique,
        first: false,
    };
    for n in 0..cx.rng.range(2, 10) {
        let seed = cx.rng.u64();
        if let Some(d) = decoy.as_deref_mut() {
            let keep = std::mem::replace(&mut cx.rng, crate::rng::Rng::new(seed));
            cx.t(|| "another robot:".into());
            step(cx, d, n, &mut void);
            cx.rng = keep;
            cx.t(|| "back".into());
        }
        let keep = std::mem::replace(&mut cx.rng, crate::rng::Rng::new(seed));
        step(cx, w, n, &mut out);
        cx.rng = keep;
        let q: Vec<Option<u64>> = w.raw_positions().iter().map(|x| x.map(|x| x.bits())).collect();
        out.log.push(format!("after step {}: {:x?}", n, q));
        if let Some(d) = decoy.as_deref_mut() {
            // at the same positions again
            for (a, b) in w.nodes.iter().zip(&d.nodes) {
                if let Some(p) = a.joint_position() {
                    b.set_joint_position_unchecked(p);
                }
            }
        }
    }
    if cx.tracing {
        for l in out.log.clone() {
            cx.t(|| l);
        }
    }
    let all = V::C(Chain::from_root(w.nodes[0].clone()));
    look(w, &all, "whole robot", &mut out);
    for i in 0..w.len() {
        let v = w.nodes[i].joint().joint_velocity().map(|x| x.bits());
        let p = w.nodes[i].mimic_parent().map(|n| w.idx(&n));
        out.log.push(format!("node {}: velocity {:x?} follows {:?}", i, v, p));
    }
    std::mem::swap(&mut rng, &mut cx.rng);
    out.log
}

fn step<T: Sc>(cx: &mut Cx, w: &mut World<T>, n: usize, out: &mut Run) {
    let i = cx.rng.below(w.len());
    match cx.rng.below(9) {
        0 | 1 => {
            if cx.rng.p(0.5) {
                let op = *cx.rng.pick(ALL_R);
                if op != Op::Reparent || w.s.mimic.is_empty() {
                    apply(cx, w, op);
                }
            } else {
                apply(cx, w, *MOVES.get(n % MOVES.len()).unwrap_or(&Op::NodeSet));
            }
        }
        2 => {
            let x = rand_pos(cx, w, i);
            let r = w.nodes[i].set_joint_position(x);
            out.result(w, &format!("set joint {}", i), &r);
        }
        3 => {
            let (v, _, _, d) = gen_view(w, &mut cx.rng);
            let idx: Vec<usize> = chain_idx(w, v.c()).into_iter().filter(|j| w.movable(*j)).collect();
            let ps: Vec<T> = idx.iter().map(|j| rand_pos(cx, w, *j)).collect();
            let r = v.c().set_joint_positions(&ps);
            out.result(w, &format!("set {}", d), &r);
        }
        4 | 5 => {
            let mut i = i;
            for _ in 0..2 {
                let j = cx.rng.below(w.len());
                if w.depth(j) > w.depth(i) {
                    i = j;
                }
            }
            ik(cx, w, i, out)
        }
        _ => {
            let (v, _, _, d) = gen_view(w, &mut cx.rng);
            look(w, &v, &d, out);
        }
    }
}

fn ik<T: Sc>(cx: &mut Cx, w: &World<T>, i: usize, out: &mut Run) {
    let arm = SerialChain::from_end(&w.nodes[i]);
    let path = w.path(i);
    let mov: Vec<usize> = path.iter().copied().filter(|j| w.movable(*j)).collect();
    let mut t: Isometry3<T> = arm.end_transform();
    let s = cx.rng.f(0.0, 0.03);
    t.translation.vector += Vector3::new(
        T::of(cx.rng.f(-s, s)),
        T::of(cx.rng.f(-s, s)),
        T::of(cx.rng.f(-s, s)),
    );
    if !t.translation.vector.iter().all(|x| x.is_finite()) {
        return;
    }
    let mut c = Constraints::default();
    let mut need = 6;
    if cx.rng.p(0.7) {
        need = 3;
        c.rotation_x = false;
        c.rotation_y = false;
        c.rotation_z = false;
        if cx.rng.p(0.3) {
            c.position_z = false;
            need = 2;
        }
    }
    let mut dof = mov.len();
    if out.unique && cx.rng.p(0.5) {
        for j in &mov {
            if dof > need && cx.rng.p(0.4) {
                c.ignored_joint_names.push(w.s.n[*j].name.clone());
                dof -= 1;
            }
        }
        let n = c.ignored_joint_names.len();
        if n > 0 && out.first {
            cx.hit("solves with ignored joints");
        }
    }
    let mut s = JacobianIkSolver::<T>::new(
        T::of(0.003),
        T::of(0.01),
        T::of(cx.rng.f(0.2, 1.0)),
        cx.rng.range(1, 40),
    );
    let null = cx.rng.p(0.3);
    if null {
        let x = T::of(cx.rng.f(-0.1, 0.1));
        s.set_nullspace_function(Box::new(move |q| vec![x; q.len()]));
    }
    let r = if cx.rng.p(0.5) {
        s.solve_with_constraints(&arm, &t, &c)
    } else {
        s.solve(&arm, &t)
    };
    if out.first {
        cx.hit(if r.is_ok() { "solves which succeeded" } else { "solves which failed" });
    }
    out.result(w, &format!("IK of node {}", i), &r);
}

fn p28_t<T: Sc>(cx: &mut Cx) {
    let unique = cx.rng.p(0.6);
    let o = GenOpt {
        max: if cx.rng.p(0.1) { 60 } else { 14 },
        unique_names: unique,
        velocities: true,
        wild: cx.rng.p(0.2),
        legal: cx.rng.p(0.5),
        path: cx.rng.p(0.3),
        fixed: 0.15,
        ..GenOpt::default()
    };
    let mut s = gen_spec::<T>(&mut cx.rng, &o);
    if cx.rng.p(0.3) {
        gen_mimics(cx, &mut s, false);
    }
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    cx.t(|| format!("follower, leader, multiplier, offset: {:?}", s.mimic));
    if cx.sample.is_none() {
        cx.sample = Some(describe(&s).chars().take(200).collect());
    }
    let script = cx.rng.u64();
    let mut a = World::new(s.clone());
    let other = rename(cx, &s, unique);
    cx.t(|| format!("the second robot's names: {:?}", other.n.iter().map(|n| &n.name).collect::<Vec<_>>()));
    let mut b = build(cx, &other);
    if b.len() != a.len() {
        violation(format!("the second robot has {} nodes instead of {}", b.len(), a.len()));
    }
    let third = cx.rng.p(0.3);
    // one which has only the names, shape and positions of the second
    let mut decoy = if cx.rng.p(0.4) {
        let mut s = other.clone();
        for n in s.n.iter_mut() {
            if cx.rng.p(0.7) {
                n.origin = gen_origin(&mut cx.rng);
            }
            if cx.rng.p(0.5) {
                n.axis = gen_axis(&mut cx.rng);
            }
            if let Some(l) = n.link.as_mut() {
                l.inertial.mass += T::of(1.0);
            }
        }
        cx.hit("another robot of the same names beside");
        Some(World::new(s))
    } else {
        None
    };
    let x = run(cx, &mut a, None, script, unique, true);
    cx.t(|| "the second robot".into());
    let y = run(cx, &mut b, decoy.as_mut(), script, unique, false);
    compare(&x, &y, "named and made in another way");
    cx.count("values compared", x.len() as u64);
    if third {
        // the first one again, others exist
        let mut c = World::new(s.clone());
        let z = run(cx, &mut c, None, script, unique, false);
        compare(&x, &z, "made again in the same way");
        cx.hit("made again");
    }
    if s.n.len() > 2 {
        cx.nontrivial();
    }
}

fn compare(x: &[String], y: &[String], what: &str) {
    for (a, b) in x.iter().zip(y) {
        if a != b {
            violation(format!("a robot {} differs: {} against {}", what, a, b));
        }
    }
    if x.len() != y.len() {
        violation(format!("a robot {}: {} observations against {}", what, x.len(), y.len()));
    }
}

pub fn p28(cx: &mut Cx) {
    both(cx, p28_t::<f64>, p28_t::<f32>)
}
