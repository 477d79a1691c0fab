//! Random operations on a robot, used as histories by several properties.
use crate::core::*;
use crate::gen::*;
use crate::sc::*;
use k::prelude::*;
use k::{JacobianIkSolver, Node, SerialChain};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    NodeSet,
    NodeClamped,
    NodeUnchecked,
    ViewSet,
    ViewClamped,
    ViewUnchecked,
    NodeOrigin,
    ViewOrigin,
    UpTrans,
    UpVel,
    UpLink,
    Query,
    Ik,
    Reparent,
}
pub const MOVES: &[Op] = &[
    Op::NodeSet,
    Op::NodeClamped,
    Op::NodeUnchecked,
    Op::ViewSet,
    Op::ViewClamped,
    Op::ViewUnchecked,
    Op::NodeOrigin,
    Op::ViewOrigin,
];
pub const UPDATES: &[Op] = &[Op::UpTrans, Op::UpVel, Op::UpLink];
pub const ALL: &[Op] = &[
    Op::NodeSet,
    Op::NodeClamped,
    Op::NodeUnchecked,
    Op::ViewSet,
    Op::ViewClamped,
    Op::ViewUnchecked,
    Op::NodeOrigin,
    Op::ViewOrigin,
    Op::UpTrans,
    Op::UpVel,
    Op::UpLink,
    Op::Query,
    Op::Ik,
];
/// with changes of the tree
pub const ALL_R: &[Op] = &[
    Op::NodeSet,
    Op::NodeClamped,
    Op::NodeUnchecked,
    Op::ViewSet,
    Op::ViewClamped,
    Op::ViewUnchecked,
    Op::NodeOrigin,
    Op::ViewOrigin,
    Op::UpTrans,
    Op::UpVel,
    Op::UpLink,
    Op::Query,
    Op::Ik,
    Op::Reparent,
];

pub fn rand_pos<T: Sc>(cx: &mut Cx, w: &World<T>, i: usize) -> T {
    let s = &w.s.n[i];
    if let Some((a, b)) = s.limits {
        if cx.rng.p(0.6) {
            let x = T::of(cx.rng.f(a.d(), b.d()));
            return if x < a {
                a
            } else if x > b {
                b
            } else {
                x
            };
        }
    }
    T::of(gen_pos(&mut cx.rng, s.kind, true))
}

/// Apply one operation; what a setter did is not judged here. Origins are tracked in the spec.
pub fn apply<T: Sc>(cx: &mut Cx, w: &mut World<T>, op: Op) {
    let n = w.len();
    let i = cx.rng.below(n);
    match op {
        Op::NodeSet | Op::NodeClamped | Op::NodeUnchecked => {
            let movable: Vec<usize> = (0..n).filter(|j| w.movable(*j)).collect();
            if movable.is_empty() {
                return;
            }
            let i = *cx.rng.pick(&movable);
            let p = rand_pos(cx, w, i);
            cx.t(|| format!("{:?} node {} <- {}", op, i, p.d()));
            match op {
                Op::NodeSet => {
                    let _ = w.nodes[i].set_joint_position(p);
                }
                Op::NodeClamped => w.nodes[i].set_joint_position_clamped(p),
                _ => w.nodes[i].set_joint_position_unchecked(p),
            }
        }
        Op::ViewSet | Op::ViewClamped | Op::ViewUnchecked => {
            let (v, _, _, d) = gen_view(w, &mut cx.rng);
            let idx: Vec<usize> = chain_idx(w, v.c())
                .into_iter()
                .filter(|j| w.movable(*j))
                .collect();
            let ps: Vec<T> = idx.iter().map(|j| rand_pos(cx, w, *j)).collect();
            cx.t(|| {
                format!(
                    "{:?} {} <- {:?}",
                    op,
                    d,
                    ps.iter().map(|x| x.d()).collect::<Vec<_>>()
                )
            });
            match op {
                Op::ViewSet => {
                    let _ = v.c().set_joint_positions(&ps);
                }
                Op::ViewClamped => v.c().set_joint_positions_clamped(&ps),
                _ => v.c().set_joint_positions_unchecked(&ps),
            }
        }
        Op::NodeOrigin => {
            let o = gen_origin(&mut cx.rng);
            cx.t(|| format!("node {} set_origin {:?}", i, pose(&o)));
            w.nodes[i].set_origin(o);
            w.s.n[i].origin = o;
        }
        Op::ViewOrigin => {
            let (v, _, _, d) = gen_view(w, &mut cx.rng);
            let o = gen_origin(&mut cx.rng);
            cx.t(|| format!("{} set_origin {:?}", d, pose(&o)));
            let first = chain_idx(w, v.c());
            if let Some(f) = first.first() {
                v.c().set_origin(o);
                w.s.n[*f].origin = o;
            }
        }
        Op::UpTrans | Op::UpVel | Op::UpLink => {
            let (v, _, _, d) = gen_view(w, &mut cx.rng);
            cx.t(|| format!("{:?} {}", op, d));
            match op {
                Op::UpTrans => {
                    v.c().update_transforms();
                }
                Op::UpVel => {
                    v.c().update_velocities();
                }
                _ => v.c().update_link_transforms(),
            }
        }
        Op::Query => {
            let (v, _, _, d) = gen_view(w, &mut cx.rng);
            let q = cx.rng.below(6);
            cx.t(|| format!("query {} {}", q, d));
            match (q, &*v) {
                (0, _) => {
                    let _ = k::center_of_mass(v.c());
                }
                (1, _) => {
                    let _ = format!("{}", v.c());
                }
                (2, V::S(s)) => {
                    let _ = k::jacobian(s);
                }
                (3, V::S(s)) => {
                    let _ = s.end_transform();
                }
                (4, _) => {
                    if v.c().iter().next().map(|n| n.is_root()) == Some(true) {
                        let _ = v.c().clone();
                    }
                }
                _ => {
                    let _ = v.c().joint_positions();
                }
            }
        }
        Op::Reparent => {
            if i == 0 {
                return;
            }
            let p = if cx.rng.p(0.2) { w.s.n[i].parent.unwrap_or(0) } else { cx.rng.below(i) };
            cx.t(|| format!("connect node {} to node {}", i, p));
            w.reparent(i, p);
            cx.hit("nodes connected to another parent");
        }
        Op::Ik => {
            let arm = SerialChain::from_end(&w.nodes[i]);
            cx.t(|| format!("ik of node {}", i));
            let target = arm.end_transform();
            let s = JacobianIkSolver::<T>::default();
            let _ = s.solve(&arm, &target);
        }
    }
}

pub fn history<T: Sc>(cx: &mut Cx, w: &mut World<T>, ops: &[Op], max: usize) -> usize {
    let mut n = cx.rng.below(max + 1);
    if w.len() <= 12 && cx.rng.p(0.001) {
        n = cx.rng.range(300, 1200);
        cx.hit("histories of more than 300 operations");
    }
    for _ in 0..n {
        let op = *cx.rng.pick(ops);
        apply(cx, w, op);
    }
    n
}

/// every observable datum of a node which is not a cache, as text with exact bits
pub fn node_data<T: Sc>(n: &Node<T>) -> String {
    let j = n.joint();
    let lim = j
        .limits
        .as_ref()
        .map(|l| (l.min.bits(), l.max.bits()));
    let ty = match j.joint_type {
        k::JointType::Fixed => "F".to_string(),
        k::JointType::Rotational { axis } => {
            format!("R{:x?}", v3(&axis.into_inner()).map(f64::to_bits))
        }
        k::JointType::Linear { axis } => {
            format!("L{:x?}", v3(&axis.into_inner()).map(f64::to_bits))
        }
    };
    format!(
        "name={:?} type={} lim={:x?} pos={:x?} vel={:x?} origin={:x?}",
        j.name,
        ty,
        lim,
        j.joint_position().map(|x| x.bits()),
        j.joint_velocity().map(|x| x.bits()),
        iso_bits(j.origin()),
    )
}

pub fn link_data<T: Sc>(n: &Node<T>, with_world: bool) -> String {
    let l = n.link();
    match &*l {
        None => "no link".into(),
        Some(l) => link_text(l, with_world),
    }
}

pub fn link_text<T: Sc>(l: &k::Link<T>, with_world: bool) -> String {
    let w = |t: &Option<k::Isometry3<T>>| {
        if with_world {
            format!(" w={:x?}", t.as_ref().map(iso_bits))
        } else {
            String::new()
        }
    };
    let mut s = format!(
        "link {:?} m={:x} o={:x?} i={:x?}{}",
        l.name,
        l.inertial.mass.bits(),
        iso_bits(l.inertial.origin()),
        (0..9)
            .map(|k| l.inertial.inertia[(k / 3, k % 3)].bits())
            .collect::<Vec<_>>(),
        w(l.inertial.world_transform())
    );
    for v in &l.visuals {
        s += &format!(
            " visual {:?} o={:x?} g={} mat={:?}{}",
            v.name,
            iso_bits(v.origin()),
            geo_text(&v.geometry),
            (
                &v.material.name,
                v.material.color.r.bits(),
                v.material.color.g.bits(),
                v.material.color.b.bits(),
                v.material.color.a.bits(),
                &v.material.texture.filename
            ),
            w(v.world_transform())
        );
    }
    for v in &l.collisions {
        s += &format!(
            " collision {:?} o={:x?} g={}{}",
            v.name,
            iso_bits(v.origin()),
            geo_text(&v.geometry),
            w(v.world_transform())
        );
    }
    s
}

pub fn geo_text<T: Sc>(g: &k::link::Geometry<T>) -> String {
    use k::link::Geometry::*;
    match g {
        Box {
            depth,
            width,
            height,
        } => format!("box {:x} {:x} {:x}", depth.bits(), width.bits(), height.bits()),
        Cylinder { radius, length } => format!("cylinder {:x} {:x}", radius.bits(), length.bits()),
        Capsule { radius, length } => format!("capsule {:x} {:x}", radius.bits(), length.bits()),
        Sphere { radius } => format!("sphere {:x}", radius.bits()),
        Mesh { filename, scale } => format!(
            "mesh {:?} {:x} {:x} {:x}",
            filename,
            scale[0].bits(),
            scale[1].bits(),
            scale[2].bits()
        ),
    }
}
