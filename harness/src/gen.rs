//! Random robots.
use crate::m3::*;
use crate::rng::Rng;
use crate::sc::*;
use k::link::*;
use k::nalgebra as na;
use std::sync::{Arc, Mutex};
use k::{Chain, Isometry3, Joint, JointType, Node, NodeBuilder, SerialChain, Translation3, UnitQuaternion, Vector3};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Fixed,
    Rot,
    Lin,
}

#[derive(Clone)]
pub struct NSpec<T: Sc> {
    pub name: String,
    pub kind: Kind,
    pub axis: na::Unit<Vector3<T>>,
    pub limits: Option<(T, T)>,
    pub origin: Isometry3<T>,
    pub pos: T,
    pub vel: T,
    pub link: Option<Link<T>>,
    pub parent: Option<usize>,
}

#[derive(Clone)]
pub struct Spec<T: Sc> {
    pub n: Vec<NSpec<T>>,
    /// order in which the nodes are connected to their parents
    pub order: Vec<usize>,
    /// follower, leader, multiplier, offset
    pub mimic: Vec<(usize, usize, T, T)>,
}

/// A built robot with the data it was built from
pub struct World<T: Sc> {
    pub s: Spec<T>,
    pub nodes: Vec<Node<T>>,
    /// chains made earlier, used again by `gen_view` if `keep`
    pub kept: Mutex<Vec<View<T>>>,
    pub keep: bool,
    /// also chains which leave out nodes above their later ones
    pub gaps: bool,
}

/// (chain, nodes it must contain, order fixed, description)
pub type View<T> = (Arc<V<T>>, Vec<usize>, bool, String);

#[derive(Clone, Copy)]
pub struct GenOpt {
    pub min: usize,
    pub max: usize,
    pub unique_names: bool,
    pub links: f64,
    pub limits: f64,
    /// start positions within the limits
    pub legal: bool,
    pub fixed: f64,
    pub linear: f64,
    pub path: bool,
    /// multiples of positions up to large values
    pub wild: bool,
    pub velocities: bool,
}

impl Default for GenOpt {
    fn default() -> Self {
        GenOpt {
            min: 1,
            max: 40,
            unique_names: true,
            links: 0.5,
            limits: 0.4,
            legal: false,
            fixed: 0.2,
            linear: 0.25,
            path: false,
            wild: true,
            velocities: false,
        }
    }
}

pub fn iso<T: Sc>(p: V3, w: f64, x: f64, y: f64, z: f64) -> Isometry3<T> {
    Isometry3::from_parts(
        Translation3::new(T::of(p[0]), T::of(p[1]), T::of(p[2])),
        na::Unit::new_normalize(na::Quaternion::new(T::of(w), T::of(x), T::of(y), T::of(z))),
    )
}

pub fn gen_quat(r: &mut Rng) -> [f64; 4] {
    let h = std::f64::consts::FRAC_1_SQRT_2;
    match r.below(10) {
        0..=2 => [1.0, 0.0, 0.0, 0.0],
        3 => {
            // a quarter or half turn around a principal axis
            let mut q = [*r.pick(&[h, 0.0, -h]), 0.0, 0.0, 0.0];
            q[1 + r.below(3)] = if q[0] == 0.0 { 1.0 } else { h };
            q
        }
        4 => {
            let e = 10f64.powf(r.f(-7.0, -2.0));
            [1.0, e * r.normal(), e * r.normal(), e * r.normal()]
        }
        _ => {
            let q = [r.normal(), r.normal(), r.normal(), r.normal()];
            if q.iter().map(|x| x * x).sum::<f64>() < 1e-2 {
                [0.0, 1.0, 0.0, 0.0]
            } else {
                q
            }
        }
    }
}

pub fn gen_origin<T: Sc>(r: &mut Rng) -> Isometry3<T> {
    let l = match r.below(12) {
        0 => 0.0,
        1 => 10.0,
        2 => 0.01,
        _ => 1.0,
    };
    let p = if r.p(0.3) {
        let mut p = [0.0; 3];
        p[r.below(3)] = l * r.f(-1.0, 1.0);
        p
    } else {
        [l * r.f(-1.0, 1.0), l * r.f(-1.0, 1.0), l * r.f(-1.0, 1.0)]
    };
    let q = gen_quat(r);
    iso(p, q[0], q[1], q[2], q[3])
}

pub fn gen_axis<T: Sc>(r: &mut Rng) -> na::Unit<Vector3<T>> {
    match r.below(10) {
        0 => Vector3::x_axis(),
        1 => Vector3::y_axis(),
        2 => Vector3::z_axis(),
        3 => -Vector3::x_axis(),
        4 => -Vector3::y_axis(),
        5 => -Vector3::z_axis(),
        6 => {
            // two components
            let mut v = [1.0, if r.p(0.5) { 1.0 } else { -1.0 }, 0.0];
            let k = r.below(3);
            v.rotate_right(k);
            na::Unit::new_normalize(Vector3::new(T::of(v[0]), T::of(v[1]), T::of(v[2])))
        }
        _ => loop {
            let v = [r.normal(), r.normal(), r.normal()];
            if norm(v) > 0.1 {
                break na::Unit::new_normalize(Vector3::new(
                    T::of(v[0]),
                    T::of(v[1]),
                    T::of(v[2]),
                ));
            }
        },
    }
}

pub fn gen_pos(r: &mut Rng, kind: Kind, wild: bool) -> f64 {
    use std::f64::consts::*;
    if kind == Kind::Lin {
        return match r.below(8) {
            0 => *r.pick(&[0.0, 0.0, -0.0]),
            1 => *r.pick(&[1e-9, 1e-40, -1e-20]),
            2 if wild => r.f(-50.0, 50.0),
            _ => r.f(-1.0, 1.0),
        };
    }
    match r.below(14) {
        0 => *r.pick(&[0.0, 0.0, -0.0]),
        1 => FRAC_PI_2,
        2 => -FRAC_PI_2,
        3 => PI,
        4 => -PI,
        5 if wild && r.p(0.2) => r.f(-5000.0, 5000.0),
        5 if wild => r.f(-100.0, 100.0),
        6 if wild => *r.pick(&[TAU, -TAU, 3.0 * PI, 4.0 * PI]),
        7 => *r.pick(&[1e-12, -1e-9, 1e-6, 1e-3, 1e-40, -1e-20]),
        _ => r.f(-PI, PI),
    }
}

pub fn gen_limits<T: Sc>(r: &mut Rng, kind: Kind) -> (T, T) {
    let s = if kind == Kind::Lin { 1.0 } else { 3.0 };
    match r.below(6) {
        0 => {
            let a = r.f(0.0, s);
            (T::of(-a), T::of(a))
        }
        1 => (T::of(0.0), T::of(r.f(0.1, s))),
        2 => {
            let a = r.f(0.1, s);
            (T::of(a), T::of(a + r.f(0.0, s)))
        }
        3 => {
            let a = r.f(-s, s);
            (T::of(a), T::of(a))
        }
        _ => {
            let a = r.f(-s, s);
            (T::of(a), T::of(a + r.f(0.0, s)))
        }
    }
}

pub fn gen_name(r: &mut Rng, i: usize, unique: bool) -> String {
    if unique {
        match r.below(11) {
            8 => format!("J{}", i),
            9 => "q".repeat(1 + i % 40) + &"p".repeat(i / 40),
            10 if r.p(0.1) => format!("{}{}", "very_long_".repeat(r.range(3, 60)), i),
            10 => format!(" j{}\t", i),
            0 => format!("関節{}", i),
            1 => format!("joint with space {}", i),
            2 => format!("r_{}_shoulder-yaw", i),
            3 => format!("{}", i),
            4 => format!("j{}{}", "x".repeat(i % 7), i),
            _ => format!("j{}", i),
        }
    } else {
        match r.below(6) {
            0 => String::new(),
            1 => "j".into(),
            2 => format!("j{}", i % 3),
            3 => format!("j{}", i),
            4 => "root".into(),
            _ if r.p(0.2) => format!("{}{} ", if r.p(0.5) { "J" } else { "j" }, i % 3),
            _ => format!("joint_{}", i),
        }
    }
}

/// parents of a tree with n nodes, node 0 is the root, parents come first
pub fn gen_shape(r: &mut Rng, n: usize, path: bool) -> Vec<Option<usize>> {
    let kind = if path { 0 } else { r.below(8) };
    (0..n)
        .map(|i| {
            if i == 0 {
                return None;
            }
            Some(match kind {
                0 => i - 1,
                1 => 0,
                2 => (i - 1) / 2,
                3 => {
                    // caterpillar
                    let b = i - 1;
                    if b % 2 == 0 {
                        b
                    } else {
                        b - 1
                    }
                }
                4 => {
                    // broom: a path with a brush at its end
                    if i <= n / 2 {
                        i - 1
                    } else {
                        n / 2
                    }
                }
                5 => i - 1 - r.below(i.min(3)),
                _ => r.below(i),
            })
        })
        .collect()
}

pub fn gen_inertial<T: Sc>(r: &mut Rng) -> Inertial<T> {
    let m = match r.below(6) {
        5 if r.p(0.3) => 10f64.powf(r.f(-6.0, 5.0)),
        0 => 0.0,
        1 => r.f(0.0, 100.0),
        _ => r.f(0.01, 5.0),
    };
    Inertial::new(
        gen_origin(r),
        T::of(m),
        na::Matrix3::new(
            T::of(r.f(0.0, 1.0)),
            T::of(r.f(-0.1, 0.1)),
            T::of(r.f(-0.1, 0.1)),
            T::of(r.f(-0.1, 0.1)),
            T::of(r.f(0.0, 1.0)),
            T::of(r.f(-0.1, 0.1)),
            T::of(r.f(-0.1, 0.1)),
            T::of(r.f(-0.1, 0.1)),
            T::of(r.f(0.0, 1.0)),
        ),
    )
}

pub fn gen_geometry<T: Sc>(r: &mut Rng) -> Geometry<T> {
    match r.below(5) {
        0 => Geometry::Box {
            depth: T::of(r.f(0.0, 1.0)),
            width: T::of(r.f(0.0, 1.0)),
            height: T::of(r.f(0.0, 1.0)),
        },
        1 => Geometry::Cylinder {
            radius: T::of(r.f(0.0, 1.0)),
            length: T::of(r.f(0.0, 1.0)),
        },
        2 => Geometry::Capsule {
            radius: T::of(r.f(0.0, 1.0)),
            length: T::of(r.f(0.0, 1.0)),
        },
        3 => Geometry::Sphere {
            radius: T::of(r.f(0.0, 1.0)),
        },
        _ => Geometry::Mesh {
            filename: format!("m{}.stl", r.below(100)),
            scale: Vector3::new(T::of(r.f(0.1, 2.0)), T::of(1.0), T::of(r.f(0.1, 2.0))),
        },
    }
}

pub fn gen_link<T: Sc>(r: &mut Rng, i: usize) -> Link<T> {
    let name = match r.below(16) {
        0 => String::new(),
        1 => "link".into(),
        2 => format!("link{}", i % 3),
        3 => format!("足 {}", i),
        _ => format!("link{}", i),
    };
    // not by the builder, which is checked with these links itself
    let mut l = Link {
        name,
        inertial: gen_inertial(r),
        visuals: vec![],
        collisions: vec![],
    };
    // now and then very many
    let count = |r: &mut Rng| if r.p(0.05) { r.range(4, 20) } else { r.below(4) };
    for v in 0..count(r) {
        l.visuals.push(Visual::new(
            format!("v{}", if r.p(0.1) { 0 } else { v }),
            gen_origin(r),
            gen_geometry(r),
            Material {
                name: format!("mat{}", v),
                color: Color {
                    r: T::of(r.unit()),
                    g: T::of(r.unit()),
                    b: T::of(r.unit()),
                    a: T::of(r.unit()),
                },
                texture: Texture {
                    filename: format!("t{}", v),
                },
            },
        ));
    }
    for v in 0..count(r) {
        l.collisions.push(Collision::new(
            if r.p(0.1) { String::new() } else { format!("c{}", v) },
            gen_origin(r),
            gen_geometry(r),
        ));
    }
    l
}

pub fn gen_size(r: &mut Rng, o: &GenOpt) -> usize {
    if o.max >= 20 && r.p(0.003) {
        return if r.p(0.1) { r.range(150, 600) } else { r.range(o.max, 150) };
    }
    match r.below(10) {
        0 => o.min,
        1 => r.range(o.min, o.max),
        2 | 3 => r.range(o.min, o.min.max(o.max / 2)),
        _ => r.range(o.min, o.min.max(o.max.min(10))),
    }
}

pub fn gen_spec<T: Sc>(r: &mut Rng, o: &GenOpt) -> Spec<T> {
    let n = gen_size(r, o);
    let parents = gen_shape(r, n, o.path);
    let unique = o.unique_names || r.p(0.5);
    let mode = r.below(6); // some robots have joints of one kind only
    let v: Vec<NSpec<T>> = (0..n)
        .map(|i| {
            let kind = if r.p(match mode {
                0 => 0.0,
                _ => o.fixed,
            }) {
                Kind::Fixed
            } else if mode != 1 && r.p(if mode == 2 { 1.0 } else { o.linear }) {
                Kind::Lin
            } else {
                Kind::Rot
            };
            let limits = if r.p(o.limits) {
                Some(gen_limits::<T>(r, kind))
            } else {
                None
            };
            let mut pos = T::of(gen_pos(r, kind, o.wild));
            if let (true, Some((a, b))) = (o.legal, limits) {
                pos = T::of(r.f(a.d(), b.d()));
                if pos < a || r.p(0.1) {
                    pos = a;
                }
                if pos > b || r.p(0.1) {
                    pos = b;
                }
            }
            NSpec {
                name: gen_name(r, i, unique),
                kind,
                axis: gen_axis(r),
                limits,
                origin: gen_origin(r),
                pos,
                vel: if o.velocities && !r.p(0.15) {
                    T::of(r.f(-3.0, 3.0))
                } else {
                    T::of(0.0)
                },
                link: if r.p(o.links) {
                    Some(gen_link(r, i))
                } else {
                    None
                },
                parent: parents[i],
            }
        })
        .collect();
    let mut order: Vec<usize> = (1..n).collect();
    if r.p(0.7) {
        r.shuffle(&mut order);
    }
    Spec {
        n: v,
        order,
        mimic: vec![],
    }
}

pub fn joint_type<T: Sc>(s: &NSpec<T>) -> JointType<T> {
    match s.kind {
        Kind::Fixed => JointType::Fixed,
        Kind::Rot => JointType::Rotational { axis: s.axis },
        Kind::Lin => JointType::Linear { axis: s.axis },
    }
}

pub fn make_joint<T: Sc>(s: &NSpec<T>) -> Joint<T> {
    let mut j = NodeBuilder::<T>::new()
        .name(&s.name)
        .joint_type(joint_type(s))
        .limits(s.limits.map(|(a, b)| k::joint::Range { min: a, max: b }))
        .origin(s.origin)
        .finalize();
    if s.kind != Kind::Fixed {
        if j.set_joint_velocity(s.vel).is_err() {
            crate::core::violation("set_joint_velocity of a movable joint failed".into());
        }
        j.set_joint_position_unchecked(s.pos);
    }
    j
}

impl<T: Sc> World<T> {
    pub fn new(s: Spec<T>) -> World<T> {
        let nodes: Vec<Node<T>> = s
            .n
            .iter()
            .map(|n| {
                let node: Node<T> = make_joint(n).into();
                if n.link.is_some() {
                    node.set_link(n.link.clone());
                }
                node
            })
            .collect();
        for i in &s.order {
            if let Some(p) = s.n[*i].parent {
                nodes[*i].set_parent(&nodes[p]);
            }
        }
        for (f, l, m, o) in &s.mimic {
            nodes[*f].set_mimic_parent(&nodes[*l], k::joint::Mimic::new(*m, *o));
        }
        World::with(s, nodes)
    }
    /// the given nodes with the data of another specification
    pub fn with(s: Spec<T>, nodes: Vec<Node<T>>) -> World<T> {
        World {
            s,
            nodes,
            kept: Mutex::new(vec![]),
            keep: false,
            gaps: true,
        }
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    pub fn idx(&self, n: &Node<T>) -> usize {
        match self.nodes.iter().position(|x| x == n) {
            Some(i) => i,
            None => crate::core::violation("a chain contains a node which is not one of the tree".into()),
        }
    }
    /// children in the order they were connected
    pub fn children(&self, i: usize) -> Vec<usize> {
        self.s
            .order
            .iter()
            .copied()
            .filter(|c| self.s.n[*c].parent == Some(i))
            .collect()
    }
    /// Connect node i to another parent, or again to the same; parents keep lower indices. Chains
    /// made before stay valid unless they contain the node and its former parent.
    pub fn reparent(&mut self, i: usize, p: usize) {
        if let Some(old) = self.s.n[i].parent {
            self.nodes[i].remove_parent(&self.nodes[old]);
            self.nodes[i].set_parent(&self.nodes[p]);
            self.s.n[i].parent = Some(p);
            self.s.order.retain(|x| *x != i);
            self.s.order.push(i);
            let kept = self.kept.get_mut().unwrap_or_else(|e| e.into_inner());
            kept.retain(|(v, _, _, _)| !v.c().iter().skip(1).any(|n| *n == self.nodes[i]));
        }
    }
    pub fn path(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        while let Some(p) = self.s.n[v[v.len() - 1]].parent {
            v.push(p);
        }
        v.reverse();
        v
    }
    pub fn depth(&self, i: usize) -> usize {
        self.path(i).len() - 1
    }
    /// is a an ancestor of b, or b itself?
    pub fn above(&self, a: usize, b: usize) -> bool {
        self.path(b).contains(&a)
    }
    pub fn subtree(&self, i: usize) -> Vec<usize> {
        (0..self.len()).filter(|j| self.above(i, *j)).collect()
    }
    pub fn movable(&self, i: usize) -> bool {
        self.s.n[i].kind != Kind::Fixed
    }
    /// current position as the node reports it
    pub fn pos(&self, i: usize) -> f64 {
        match (self.nodes[i].joint_position(), self.movable(i)) {
            (Some(p), true) => p.d(),
            (None, false) => 0.0,
            (p, m) => crate::core::violation(format!(
                "joint_position() of joint {} is {:?} but is movable = {}",
                i, p, m
            )),
        }
    }
    pub fn positions(&self) -> Vec<f64> {
        (0..self.len()).map(|i| self.pos(i)).collect()
    }
    pub fn raw_positions(&self) -> Vec<Option<T>> {
        self.nodes.iter().map(|n| n.joint_position()).collect()
    }
    pub fn axis(&self, i: usize) -> V3 {
        v3(&self.s.n[i].axis.into_inner())
    }
    /// pose of node i relative to its parent, at position q
    pub fn local(&self, i: usize, q: f64) -> Pose {
        let s = &self.s.n[i];
        let o = pose(&s.origin);
        let m = match s.kind {
            Kind::Fixed => Pose::ID,
            Kind::Rot => Pose {
                r: axis_angle(self.axis(i), q),
                p: [0.0; 3],
            },
            Kind::Lin => Pose {
                r: I3,
                p: scale(self.axis(i), q),
            },
        };
        o.mul(&m)
    }
    /// reference forward kinematics of all nodes
    pub fn fk(&self, q: &[f64]) -> Vec<Pose> {
        let mut v: Vec<Pose> = Vec::with_capacity(self.len());
        for i in 0..self.len() {
            let l = self.local(i, q[i]);
            v.push(match self.s.n[i].parent {
                None => l,
                Some(p) => v[p].mul(&l),
            });
        }
        v
    }
    /// length of the path to node i, a scale for the tolerance
    pub fn reach(&self, i: usize, q: &[f64]) -> f64 {
        1.0 + self
            .path(i)
            .iter()
            .map(|j| {
                norm(v3(&self.s.n[*j].origin.translation.vector))
                    + if self.s.n[*j].kind == Kind::Lin {
                        q[*j].abs()
                    } else {
                        0.0
                    }
            })
            .sum::<f64>()
    }
    pub fn tol(&self, i: usize) -> f64 {
        60.0 * T::EPS * (self.depth(i) + 3) as f64
    }
    /// compare a world transform with the reference
    pub fn check_pose(&self, what: &str, i: usize, got: &Isometry3<T>, want: &Pose, q: &[f64]) {
        let g = pose(got);
        let tol = self.tol(i);
        let qn = quat(&got.rotation);
        let n = (qn[0] * qn[0] + qn[1] * qn[1] + qn[2] * qn[2] + qn[3] * qn[3]).sqrt();
        let ep = vdiff(g.p, want.p);
        let er = mdiff(&g.r, &want.r);
        if !(ep <= tol * self.reach(i, q)) || !(er <= tol * 4.0) || !((n - 1.0).abs() <= tol) {
            crate::core::violation(format!(
                "{}: pose of node {} ({}) is wrong: got p={:?} r={:?} |q|={} want p={:?} r={:?} (tolerance {:e})",
                what, i, self.s.n[i].name, g.p, g.r, n, want.p, want.r, tol
            ));
        }
    }
    pub fn describe(&self) -> String {
        describe(&self.s)
    }
}

pub fn describe<T: Sc>(s: &Spec<T>) -> String {
    let mut o = format!("{} n={}:", T::NAME, s.n.len());
    for (i, n) in s.n.iter().enumerate().take(60) {
        o += &format!(
            " [{} p={} {:?} '{}' axis={:.3?} q={:.5} lim={} t={:.3?} rot={:.3?}{}]",
            i,
            n.parent.map(|p| p.to_string()).unwrap_or("-".into()),
            n.kind,
            n.name,
            v3(&n.axis.into_inner()),
            n.pos.d(),
            n.limits
                .map(|(a, b)| format!("{:.4}..{:.4}", a.d(), b.d()))
                .unwrap_or("-".into()),
            v3(&n.origin.translation.vector),
            quat(&n.origin.rotation),
            if n.link.is_some() { " L" } else { "" }
        );
    }
    o += &format!(" order={:?}", s.order);
    for m in &s.mimic {
        o += &format!(" mimic({}<-{} *{} +{})", m.0, m.1, m.2.d(), m.3.d());
    }
    o
}

/// hash of the structure of a spec
pub fn spec_fp<T: Sc>(s: &Spec<T>) -> u64 {
    let mut h = s.n.len() as u64 ^ ((T::F32 as u64) << 40);
    for n in &s.n {
        h = crate::rng::mix(h ^ (n.parent.map(|p| p as u64 + 1).unwrap_or(0)));
        h = crate::rng::mix(h ^ (n.kind as u64) ^ n.pos.bits());
        h = crate::rng::mix(h ^ n.origin.translation.vector[0].bits());
    }
    h
}

/// A chain on some of the nodes of a world; unless `gaps` it starts at one node and contains with
/// each other node its parent
pub enum V<T: Sc> {
    C(Chain<T>),
    S(SerialChain<T>),
}

impl<T: Sc> V<T> {
    pub fn c(&self) -> &Chain<T> {
        match self {
            V::C(c) => c,
            V::S(s) => s,
        }
    }
}

pub fn gen_view<T: Sc>(w: &World<T>, r: &mut Rng) -> View<T> {
    if !w.keep {
        let (v, l, f, d) = new_view(w, r);
        return (Arc::new(v), l, f, d);
    }
    let mut kept = w.kept.lock().unwrap_or_else(|e| e.into_inner());
    if !kept.is_empty() && r.p(0.4) {
        let (v, l, f, d) = r.pick(&kept[..]);
        return (v.clone(), l.clone(), *f, format!("(made before) {}", d));
    }
    let (v, l, f, d) = new_view(w, r);
    let v = (Arc::new(v), l, f, d);
    if kept.len() < 5 {
        kept.push(v.clone());
    }
    v
}

fn new_view<T: Sc>(w: &World<T>, r: &mut Rng) -> (V<T>, Vec<usize>, bool, String) {
    let n = w.len();
    let i = r.below(n);
    if w.gaps && r.p(0.1) {
        // any nodes in any order, as the two arms without the torso
        let mut list: Vec<usize> = (0..n).collect();
        r.shuffle(&mut list);
        let most = if r.p(0.5) { n } else { n.min(4) };
        list.truncate(r.range(1, most));
        if r.p(0.5) {
            list.sort_unstable();
        }
        let nodes = list.iter().map(|j| w.nodes[*j].clone()).collect();
        let d = format!("from_nodes({:?})", list);
        return (V::C(Chain::from_nodes(nodes)), list, true, d);
    }
    match r.below(9) {
        0 | 1 => (
            V::C(Chain::from_root(w.nodes[0].clone())),
            (0..n).collect(),
            false,
            "from_root(0)".into(),
        ),
        2 => (
            V::C(Chain::from_root(w.nodes[i].clone())),
            w.subtree(i),
            false,
            format!("from_root({})", i),
        ),
        3 => (
            V::C(Chain::from_end(&w.nodes[i])),
            w.path(i),
            true,
            format!("Chain::from_end({})", i),
        ),
        4 => (
            V::S(SerialChain::from_end(&w.nodes[i])),
            w.path(i),
            true,
            format!("SerialChain::from_end({})", i),
        ),
        5 | 6 => {
            let p = w.path(i);
            let a = r.below(p.len());
            let serial = r.p(0.5);
            let d = format!(
                "{}::from_end_to_root({}, {})",
                if serial { "SerialChain" } else { "Chain" },
                i,
                p[a]
            );
            let v = if serial {
                V::S(SerialChain::from_end_to_root(&w.nodes[i], &w.nodes[p[a]]))
            } else {
                V::C(Chain::from_end_to_root(&w.nodes[i], &w.nodes[p[a]]))
            };
            (v, p[a..].to_vec(), true, d)
        }
        _ => {
            // a connected part in any order with parents first
            let mut front = vec![i];
            let mut list = vec![];
            let keep = r.f(0.3, 1.0);
            while !front.is_empty() {
                let c = front.swap_remove(r.below(front.len()));
                list.push(c);
                for d in w.children(c) {
                    if r.p(keep) {
                        front.push(d);
                    }
                }
            }
            let nodes = list.iter().map(|j| w.nodes[*j].clone()).collect();
            let d = format!("from_nodes({:?})", list);
            (V::C(Chain::from_nodes(nodes)), list, true, d)
        }
    }
}

/// indices of the nodes of a chain, in its order
pub fn chain_idx<T: Sc>(w: &World<T>, c: &Chain<T>) -> Vec<usize> {
    c.iter().map(|n| w.idx(n)).collect()
}

pub fn unit_quat_identity<T: Sc>() -> UnitQuaternion<T> {
    UnitQuaternion::identity()
}
