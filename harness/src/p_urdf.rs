//! P12, P13, P14: URDF import.
use crate::core::*;
use crate::gen::gen_shape;
use crate::m3::*;
use crate::p_fk::both;
use crate::rng::Rng;
use crate::sc::*;
use k::link::Geometry;
use k::{Chain, Isometry3, JointType, Node};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum UKind {
    Revolute,
    Continuous,
    Prismatic,
    Fixed,
    Floating,
    Planar,
    Spherical,
}

impl UKind {
    fn text(self) -> &'static str {
        match self {
            UKind::Revolute => "revolute",
            UKind::Continuous => "continuous",
            UKind::Prismatic => "prismatic",
            UKind::Fixed => "fixed",
            UKind::Floating => "floating",
            UKind::Planar => "planar",
            UKind::Spherical => "spherical",
        }
    }
}

#[derive(Clone, Copy)]
struct UPose {
    xyz: Option<V3>,
    rpy: Option<V3>,
    /// no <origin> at all
    absent: bool,
}

impl UPose {
    fn pose(&self) -> Pose {
        Pose {
            r: rpy(self.rpy.unwrap_or([0.0; 3])),
            p: self.xyz.unwrap_or([0.0; 3]),
        }
    }
}

#[derive(Clone)]
struct UJoint {
    name: String,
    kind: UKind,
    origin: UPose,
    axis: Option<V3>,
    /// lower, upper; None: no limit element
    limit: Option<(Option<f64>, Option<f64>)>,
    parent: usize,
    child: usize,
    extra: u64,
    /// index of the leader among the joints, multiplier, offset
    mimic: Option<(usize, Option<f64>, Option<f64>)>,
}

#[derive(Clone, Debug)]
enum UGeo {
    Box(V3),
    Cylinder(f64, f64),
    Capsule(f64, f64),
    Sphere(f64),
    Mesh(String, Option<V3>),
}

#[derive(Clone)]
struct UMaterial {
    name: String,
    color: Option<[f64; 4]>,
    texture: Option<String>,
}

#[derive(Clone)]
struct UShape {
    name: Option<String>,
    origin: UPose,
    geo: UGeo,
    material: Option<UMaterial>,
}

#[derive(Clone)]
struct ULink {
    name: String,
    /// origin, mass, inertia ixx ixy ixz iyy iyz izz
    inertial: Option<(UPose, f64, [f64; 6])>,
    visual: Vec<UShape>,
    collision: Vec<UShape>,
}

#[derive(Clone)]
struct URobot {
    links: Vec<ULink>,
    joints: Vec<UJoint>,
    /// the root link is only mentioned as the parent of joints
    undeclared_root: bool,
    root: usize,
}

fn num(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 => r.range(0, 6) as f64 - 3.0,
        2 => r.f(-1.0, 1.0) * 1e-4,
        3 => (r.f(-2.0, 2.0) * 100.0).round() / 100.0,
        _ => r.f(-1.5, 1.5),
    }
}
fn vec3(r: &mut Rng) -> V3 {
    [num(r), num(r), num(r)]
}
fn angles(r: &mut Rng) -> V3 {
    use std::f64::consts::*;
    let mut v = [0.0; 3];
    let k = r.below(4);
    for (i, x) in v.iter_mut().enumerate() {
        *x = match (k, r.below(6)) {
            (0, _) if i != 2 => 0.0,
            (_, 0) => FRAC_PI_2,
            (_, 1) => -FRAC_PI_2,
            (_, 2) => PI,
            (_, 3) => 0.0,
            _ => r.f(-PI, PI),
        };
    }
    v
}
fn upose(r: &mut Rng) -> UPose {
    let absent = r.p(0.15);
    UPose {
        absent,
        xyz: if absent || r.p(0.15) { None } else { Some(vec3(r)) },
        rpy: if absent || r.p(0.25) { None } else { Some(angles(r)) },
    }
}
fn uname(r: &mut Rng, prefix: &str, i: usize) -> String {
    match r.below(7) {
        0 => format!("{}{} \u{95a2}\u{7bc0}", prefix, i),
        1 => format!("{} {}", prefix, i),
        2 => format!("{}-{}_a.b", prefix, i),
        // names of links and joints may be the same
        3 => format!("part{}", i),
        _ => format!("{}{}", prefix, i),
    }
}
fn ushape(r: &mut Rng, i: usize, visual: bool) -> UShape {
    UShape {
        name: if r.p(0.5) { Some(format!("s{}", i)) } else { None },
        origin: upose(r),
        geo: match r.below(6) {
            0 => UGeo::Box([r.unit(), r.unit() + 1.0, r.unit() + 2.0]),
            1 => UGeo::Cylinder(r.unit(), r.unit() + 1.0),
            2 => UGeo::Capsule(r.unit(), r.unit() + 1.0),
            3 => UGeo::Sphere(r.unit()),
            4 => UGeo::Mesh(format!("package://a/m{}.dae", r.below(50)), None),
            _ => UGeo::Mesh(format!("m{}.stl", r.below(50)), Some([r.unit(), r.unit() + 1.0, num(r)])),
        },
        material: if visual && r.p(0.6) {
            Some(UMaterial {
                name: format!("mat{}", r.below(4)),
                color: if r.p(0.7) {
                    Some([r.unit(), r.unit(), r.unit(), r.unit()])
                } else {
                    None
                },
                texture: if r.p(0.4) {
                    Some(format!("t{}.png", r.below(9)))
                } else {
                    None
                },
            })
        } else {
            None
        },
    }
}

/// turns some names into ones which differ little from others
fn alike(r: &mut Rng, names: &mut [String]) {
    for i in 1..names.len() {
        if r.p(0.4) {
            let x = &names[r.below(i)];
            let y = match r.below(6) {
                0 => format!("{} ", x),
                1 => format!(" {}", x),
                2 => x.to_uppercase(),
                3 => format!("{}0", x),
                4 => format!("{}_", x),
                _ => x.chars().take(x.chars().count().max(2) - 1).collect(),
            };
            if !names.contains(&y) && !y.trim().is_empty() {
                names[i] = y;
            }
        }
    }
}

fn gen_robot(r: &mut Rng, shapes: f64, max: usize) -> URobot {
    let n = match r.below(8) {
        0 => r.range(1, 3),
        1 => max,
        _ => r.range(1, max.min(10)),
    };
    let path = r.p(0.15);
    let parents = gen_shape(r, n, path);
    let links: Vec<ULink> = (0..n)
        .map(|i| ULink {
            name: uname(r, "link", i),
            inertial: if r.p(shapes) {
                Some((
                    upose(r),
                    r.f(0.0, 9.0),
                    [r.f(0.0, 9.0), num(r), num(r), r.f(0.0, 9.0), num(r), r.f(0.0, 9.0)],
                ))
            } else {
                None
            },
            visual: if r.p(shapes) {
                (0..r.below(4)).map(|k| ushape(r, k, true)).collect()
            } else {
                vec![]
            },
            collision: if r.p(shapes) {
                (0..r.below(4)).map(|k| ushape(r, k, false)).collect()
            } else {
                vec![]
            },
        })
        .collect();
    let joints = (1..n)
        .map(|i| {
            let kind = match r.below(12) {
                0..=4 => UKind::Revolute,
                5 | 6 => UKind::Continuous,
                7 | 8 => UKind::Prismatic,
                9 => UKind::Fixed,
                10 => *r.pick(&[UKind::Floating, UKind::Planar]),
                _ => *r.pick(&[UKind::Spherical, UKind::Fixed]),
            };
            let axis = match r.below(8) {
                0 => None,
                1..=3 => {
                    let mut v = [0.0; 3];
                    v[r.below(3)] = if r.p(0.7) { 1.0 } else { -1.0 };
                    Some(v)
                }
                _ => loop {
                    let v = vec3(r);
                    if norm(v) > 0.05 {
                        let s = *r.pick(&[1.0, 1.0, 10.0, 0.1]);
                        break Some(scale(v, s));
                    }
                },
            };
            let limit = if r.p(0.3) {
                None
            } else if kind == UKind::Continuous || r.p(0.15) {
                Some((None, None))
            } else {
                // some ranges are tiny, or far from zero
                let size = if r.p(0.2) { 10f64.powf(r.f(-9.0, 4.0)) } else { 1.0 };
                let lo = -r.f(0.1, 3.0) * size;
                let hi = r.f(0.1, 3.0) * size;
                Some(match r.below(9) {
                    // the ends only differ in double precision
                    8 => (Some(hi), Some(hi * (1.0 + r.f(1e-12, 1e-9)))),
                    0 => (Some(lo), None),
                    1 => (None, Some(hi)),
                    2 => (Some(0.0), Some(hi)),
                    3 => (Some(0.0), Some(0.0)),
                    4 => (Some(hi * 0.5), Some(hi)),
                    5 => (Some(lo), Some(lo * 0.5)),
                    6 => (Some(-hi), Some(hi)),
                    _ => (Some(lo), Some(hi)),
                })
            };
            UJoint {
                name: uname(r, "joint", i),
                kind,
                origin: upose(r),
                axis,
                limit,
                parent: parents[i].unwrap(),
                child: i,
                extra: r.u64(),
                mimic: None,
            }
        })
        .collect::<Vec<UJoint>>();
    let mut joints = joints;
    let mut links = links;
    if r.p(0.2) {
        // names which look alike
        let mut ls: Vec<String> = links.iter().map(|l| l.name.clone()).collect();
        let mut js: Vec<String> = joints.iter().map(|j| j.name.clone()).collect();
        alike(r, &mut ls);
        alike(r, &mut js);
        for (l, n) in links.iter_mut().zip(ls) {
            l.name = n;
        }
        for (j, n) in joints.iter_mut().zip(js) {
            j.name = n;
        }
    }
    if r.p(0.3) {
        // some joints follow others; leaders come first, so that no cycle of references can arise
        for f in 1..joints.len() {
            let l = r.below(f);
            let moves = |j: &UJoint| matches!(j.kind, UKind::Revolute | UKind::Continuous | UKind::Prismatic);
            if r.p(0.5) && moves(&joints[f]) && moves(&joints[l]) && joints[l].mimic.is_none() {
                joints[f].limit = None;
                let m = if r.p(0.7) { Some(num(r)) } else { None };
                let o = if r.p(0.7) { Some(num(r)) } else { None };
                joints[f].mimic = Some((l, m, o));
            }
        }
    }
    URobot {
        links,
        joints,
        undeclared_root: false,
        root: 0,
    }
}

fn v_text(v: &[f64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}

fn p_text(p: &UPose) -> String {
    if p.absent {
        return String::new();
    }
    let mut s = String::from("<origin");
    if let Some(v) = p.xyz {
        s += &format!(" xyz=\"{}\"", v_text(&v));
    }
    if let Some(v) = p.rpy {
        s += &format!(" rpy='{}'", v_text(&v));
    }
    s + "/>"
}

fn shape_text(r: &mut Rng, s: &UShape, tag: &str) -> String {
    let g = match &s.geo {
        UGeo::Box(v) => format!("<box size=\"{}\"/>", v_text(v)),
        UGeo::Cylinder(a, b) => {
            if r.p(0.5) {
                format!("<cylinder radius=\"{}\" length=\"{}\"/>", a, b)
            } else {
                format!("<cylinder length=\"{}\" radius=\"{}\"/>", b, a)
            }
        }
        UGeo::Capsule(a, b) => format!("<capsule radius=\"{}\" length=\"{}\"/>", a, b),
        UGeo::Sphere(a) => format!("<sphere radius=\"{}\"/>", a),
        UGeo::Mesh(f, None) => format!("<mesh filename=\"{}\"/>", f),
        UGeo::Mesh(f, Some(v)) => format!("<mesh filename=\"{}\" scale=\"{}\"/>", f, v_text(v)),
    };
    let mut parts = vec![format!("<geometry>{}</geometry>", g)];
    let o = p_text(&s.origin);
    if !o.is_empty() {
        parts.push(o);
    }
    if let Some(m) = &s.material {
        let mut i = vec![];
        if let Some(c) = &m.color {
            i.push(format!("<color rgba=\"{}\"/>", v_text(c)));
        }
        if let Some(t) = &m.texture {
            i.push(format!("<texture filename=\"{}\"/>", t));
        }
        r.shuffle(&mut i);
        parts.push(format!("<material name=\"{}\">{}</material>", m.name, i.join("")));
    }
    r.shuffle(&mut parts);
    format!(
        "<{}{}>{}</{}>",
        tag,
        s.name
            .as_ref()
            .map(|n| format!(" name=\"{}\"", n))
            .unwrap_or_default(),
        parts.join("\n"),
        tag
    )
}

fn xml(r: &mut Rng, u: &URobot, shuffle: bool) -> String {
    let mut parts = vec![];
    for (i, l) in u.links.iter().enumerate() {
        if u.undeclared_root && i == u.root {
            continue;
        }
        let mut s = format!("<link name=\"{}\">", l.name);
        if let Some((o, m, t)) = &l.inertial {
            s += &format!(
                "<inertial>{}<mass value=\"{}\"/><inertia ixx=\"{}\" ixy=\"{}\" ixz=\"{}\" iyy=\"{}\" iyz=\"{}\" izz=\"{}\"/></inertial>",
                p_text(o), m, t[0], t[1], t[2], t[3], t[4], t[5]
            );
        }
        let v: Vec<String> = l.visual.iter().map(|x| shape_text(r, x, "visual")).collect();
        let c: Vec<String> = l
            .collision
            .iter()
            .map(|x| shape_text(r, x, "collision"))
            .collect();
        if shuffle && r.p(0.5) {
            s += &c.join("\n");
            s += &v.join("\n");
        } else {
            s += &v.join("\n");
            s += &c.join("\n");
        }
        parts.push(s + "</link>");
    }
    for j in &u.joints {
        let mut e = vec![
            format!("<parent link=\"{}\"/>", u.links[j.parent].name),
            format!("<child link=\"{}\"/>", u.links[j.child].name),
        ];
        let o = p_text(&j.origin);
        if !o.is_empty() {
            e.push(o);
        }
        if let Some(a) = j.axis {
            e.push(format!("<axis xyz=\"{}\"/>", v_text(&a)));
        }
        if let Some((lo, hi)) = j.limit {
            e.push(format!(
                "<limit effort=\"{}\" velocity=\"2\"{}{}/>",
                j.extra % 40,
                lo.map(|x| format!(" lower=\"{}\"", x)).unwrap_or_default(),
                hi.map(|x| format!(" upper=\"{}\"", x)).unwrap_or_default()
            ));
        }
        if let Some((l, m, o)) = &j.mimic {
            e.push(format!(
                "<mimic joint=\"{}\"{}{}/>",
                u.joints[*l].name,
                m.map(|x| format!(" multiplier=\"{}\"", x)).unwrap_or_default(),
                o.map(|x| format!(" offset=\"{}\"", x)).unwrap_or_default()
            ));
        }
        if j.extra & 64 != 0 {
            e.push("<dynamics damping=\"0.5\" friction=\"0.25\"/>".into());
        }
        if j.extra & 128 != 0 {
            e.push("<safety_controller k_velocity=\"3\" soft_lower_limit=\"-0.05\" soft_upper_limit=\"0.05\"/>".into());
        }
        r.shuffle(&mut e);
        parts.push(format!(
            "<joint name=\"{}\" type=\"{}\">{}</joint>",
            j.name,
            j.kind.text(),
            e.join("\n")
        ));
    }
    if r.p(0.2) {
        parts.push("<material name=\"mat0\"><color rgba=\"0.1 0.2 0.3 0.4\"/></material>".into());
    }
    if shuffle {
        r.shuffle(&mut parts);
    }
    format!(
        "<?xml version=\"1.0\"?>\n<robot name=\"r\">\n<!-- made by a generator -->\n{}\n</robot>\n",
        parts.join("\n")
    )
}

fn parse(text: &str) -> urdf_rs::Robot {
    match urdf_rs::read_from_string(text) {
        Ok(r) => r,
        Err(e) => harness_error(format!("generated URDF is not accepted by urdf-rs: {} {}", e, text)),
    }
}

fn near<T: Sc>(got: &Isometry3<T>, want: &Pose) -> bool {
    let g = pose(got);
    let tol = 8.0 * T::EPS * (1.0 + norm(want.p)) + 1e-12;
    vdiff(g.p, want.p) <= tol && mdiff(&g.r, &want.r) <= 16.0 * T::EPS + 1e-12
}

/// the joint whose child is the given link
fn joint_of(u: &URobot, link: usize) -> Option<usize> {
    u.joints.iter().position(|j| j.child == link)
}

fn wrong(u: &URobot, what: String) -> ! {
    violation(format!(
        "{} (URDF with {} links, {} joints)",
        what,
        u.links.len(),
        u.joints.len()
    ))
}

/// kinematic data of a chain by joint name; returns the node of each joint
fn check_kinematics<T: Sc>(cx: &mut Cx, u: &URobot, c: &Chain<T>) -> (Node<T>, Vec<Node<T>>) {
    let nodes: Vec<Node<T>> = c.iter().cloned().collect();
    if nodes.len() != u.joints.len() + 1 {
        wrong(
            u,
            format!("the chain has {} nodes for {} joints", nodes.len(), u.joints.len()),
        );
    }
    let root = match nodes.iter().find(|n| n.parent().is_none()) {
        Some(r) => r.clone(),
        None => wrong(u, "the chain has no root".into()),
    };
    let mut by_name: HashMap<String, Node<T>> = HashMap::new();
    for n in &nodes {
        let name = n.joint().name.clone();
        if by_name.insert(name.clone(), n.clone()).is_some() {
            wrong(u, format!("two nodes are named {}", name));
        }
    }
    if root.joint().name != k::urdf::ROOT_JOINT_NAME || root.joint().is_movable() {
        wrong(u, "the root is not a fixed joint named root".into());
    }
    if !near(&root.origin(), &Pose::ID) {
        wrong(u, "the root is not at the origin".into());
    }
    let mut v = vec![];
    for j in &u.joints {
        let n = match by_name.get(&j.name) {
            Some(n) => n.clone(),
            None => wrong(u, format!("there is no node for the joint {}", j.name)),
        };
        v.push(n);
    }
    for (j, n) in u.joints.iter().zip(&v) {
        let want_parent = match joint_of(u, j.parent) {
            Some(p) => v[p].clone(),
            None => root.clone(),
        };
        match n.parent() {
            Some(p) if p == want_parent => {}
            p => wrong(
                u,
                format!(
                    "the parent of {} is {:?} instead of {}",
                    j.name,
                    p.map(|p| p.joint().name.clone()),
                    want_parent.joint().name
                ),
            ),
        }
        let joint = n.joint();
        let axis = j.axis.unwrap_or([1.0, 0.0, 0.0]);
        let axis = scale(axis, 1.0 / norm(axis));
        let got = match (&joint.joint_type, j.kind) {
            (JointType::Rotational { axis }, UKind::Revolute) => Some(axis),
            (JointType::Rotational { axis }, UKind::Continuous) => Some(axis),
            (JointType::Linear { axis }, UKind::Prismatic) => Some(axis),
            (JointType::Fixed, UKind::Fixed)
            | (JointType::Fixed, UKind::Floating)
            | (JointType::Fixed, UKind::Planar)
            | (JointType::Fixed, UKind::Spherical) => None,
            (t, kind) => wrong(u, format!("{} is {:?} but its node is {:?}", j.name, kind, t)),
        };
        if let Some(a) = got {
            let a = v3(&a.into_inner());
            if !(vdiff(a, axis) <= 8.0 * T::EPS) {
                wrong(u, format!("axis of {} is {:?} instead of {:?}", j.name, a, axis));
            }
        }
        if !near(joint.origin(), &j.origin.pose()) {
            wrong(
                u,
                format!(
                    "origin of {} is {:?} instead of {:?} {:?}",
                    j.name,
                    joint.origin(),
                    j.origin.xyz,
                    j.origin.rpy
                ),
            );
        }
        let want = match j.limit {
            None | Some((None, None)) => None,
            Some((lo, hi)) => {
                let (lo, hi) = (lo.unwrap_or(0.0), hi.unwrap_or(0.0));
                if lo == hi {
                    None
                } else {
                    Some((T::of(lo).bits(), T::of(hi).bits()))
                }
            }
        };
        drop(joint);
        let leader = n.mimic_parent();
        if leader != j.mimic.map(|m| v[m.0].clone()) {
            wrong(u, format!("{} mimics {:?}", j.name, leader.map(|l| l.joint().name.clone())));
        }
        if leader.is_some() {
            cx.hit("mimic joints");
        }
        let joint = n.joint();
        let got = joint.limits.map(|l| (l.min.bits(), l.max.bits()));
        if joint.is_movable() && got != want {
            wrong(
                u,
                format!(
                    "limits of {} are {:?}, the URDF has {:?}",
                    j.name,
                    joint.limits.map(|l| (l.min.d(), l.max.d())),
                    j.limit
                ),
            );
        }
        if joint.is_movable() && joint.joint_position().map(|x| x.d()) != Some(0.0) {
            wrong(u, format!("{} does not start at 0", j.name));
        }
        cx.hit("joints compared");
        cx.hit(match j.kind {
            UKind::Revolute => "revolute joints",
            UKind::Continuous => "continuous joints",
            UKind::Prismatic => "prismatic joints",
            UKind::Fixed => "fixed joints",
            _ => "floating, planar and spherical joints",
        });
        if j.axis.is_none() || j.origin.absent || j.origin.xyz.is_none() || j.origin.rpy.is_none() {
            cx.hit("joints with defaults");
        }
    }
    (root, v)
}

fn check_fk<T: Sc>(cx: &mut Cx, u: &URobot, c: &Chain<T>, nodes: &[Node<T>]) {
    let mut q = vec![0.0; u.joints.len()];
    for (k, j) in u.joints.iter().enumerate() {
        if let Some((l, m, o)) = j.mimic {
            // it comes after its leader, and has no limits
            let m = T::of(m.unwrap_or(1.0)).d();
            let want = m * q[l] + T::of(o.unwrap_or(0.0)).d();
            let got = nodes[k].joint_position().map_or(f64::NAN, |x| x.d());
            if !((got - want).abs() <= 8.0 * T::EPS * (1.0 + (m * q[l]).abs() + want.abs())) {
                wrong(u, format!("{} follows {} to {} instead of {}", j.name, u.joints[l].name, got, want));
            }
            q[k] = got;
        } else if nodes[k].joint_position().is_some() {
            let mut x = T::of(cx.rng.f(-3.0, 3.0));
            if let Some(l) = nodes[k].joint().limits {
                if x < l.min || x > l.max {
                    x = l.max;
                }
            }
            if let Err(e) = nodes[k].set_joint_position(x) {
                wrong(u, format!("{} can not be moved within its limits: {}", j.name, e));
            }
            q[k] = x.d();
        }
    }
    // links in the order from the root: parents have smaller numbers
    let mut poses = vec![Pose::ID; u.links.len()];
    let mut order: Vec<usize> = (0..u.joints.len()).collect();
    order.sort_by_key(|k| u.joints[*k].child);
    let mut depth = vec![0; u.links.len()];
    let mut reach = vec![1.0; u.links.len()];
    for k in order {
        let j = &u.joints[k];
        let axis = j.axis.unwrap_or([1.0, 0.0, 0.0]);
        let axis = scale(axis, 1.0 / norm(axis));
        let m = match j.kind {
            UKind::Revolute | UKind::Continuous => Pose {
                r: axis_angle(axis, q[k]),
                p: [0.0; 3],
            },
            UKind::Prismatic => Pose {
                r: I3,
                p: scale(axis, q[k]),
            },
            _ => Pose::ID,
        };
        poses[j.child] = poses[j.parent].mul(&j.origin.pose()).mul(&m);
        depth[j.child] = depth[j.parent] + 1;
        reach[j.child] = reach[j.parent] + norm(j.origin.pose().p) + norm(m.p);
    }
    c.update_transforms();
    for (k, j) in u.joints.iter().enumerate() {
        let g = match nodes[k].world_transform() {
            Some(g) => pose(&g),
            None => wrong(u, format!("{} has no world transform", j.name)),
        };
        let w = &poses[j.child];
        let tol = 60.0 * T::EPS * (depth[j.child] + 3) as f64;
        if !(vdiff(g.p, w.p) <= tol * reach[j.child]) || !(mdiff(&g.r, &w.r) <= 4.0 * tol) {
            wrong(
                u,
                format!(
                    "the frame of {} is at {:?} {:?} instead of {:?} {:?}",
                    j.name, g.p, g.r, w.p, w.r
                ),
            );
        }
    }
    cx.count("poses compared", u.joints.len() as u64);
}

fn chain_text<T: Sc>(c: &Chain<T>) -> Vec<String> {
    let mut v: Vec<String> = c
        .iter()
        .map(|n| {
            let joint = n.joint().clone();
            format!(
                "{:?} parent={:?} mimic={:?}",
                joint,
                n.parent().map(|p| p.joint().name.clone()),
                n.mimic_parent().map(|p| p.joint().name.clone())
            ) + &crate::ops::link_data(n, true)
        })
        .collect();
    v.sort();
    v
}

fn robot_fp(cx: &mut Cx, u: &URobot) {
    cx.fp(u.links.len() as u64);
    for j in &u.joints {
        cx.fp(j.extra ^ j.parent as u64);
    }
    if !u.joints.is_empty() {
        cx.nontrivial();
    }
    let l: Vec<String> = u
        .joints
        .iter()
        .take(6)
        .map(|j| {
            format!(
                "{} {:?}: {} -> {} limit {:?}",
                j.name, j.kind, u.links[j.parent].name, u.links[j.child].name, j.limit
            )
        })
        .collect();
    cx.sample = Some(format!("{} links; {}", u.links.len(), l.join("; ")));
}

pub fn scratch(name: &str) -> std::path::PathBuf {
    std::env::temp_dir().join(format!("kmon-{}-{}", std::process::id(), name))
}

/// Any valid robot, with mimic joints
pub fn random_robot(r: &mut Rng) -> urdf_rs::Robot {
    let u = gen_robot(r, 0.5, 20);
    let text = xml(r, &u, true);
    parse(&text)
}

fn load<T: Sc>(cx: &mut Cx, robot: &urdf_rs::Robot, text: &str) -> Chain<T> {
    match cx.rng.below(20) {
        0 => {
            let ext = *cx.rng.pick(&["urdf", "xml", "URDF"]);
            let p = scratch(&format!("{:x}.{}", cx.seed, ext));
            if let Err(e) = std::fs::write(&p, text) {
                harness_error(format!("{}: {}", p.display(), e));
            }
            let r = Chain::<T>::from_urdf_file(&p);
            let _ = std::fs::remove_file(&p);
            cx.hit("loaded from a file");
            match r {
                Ok(c) => c,
                Err(e) => violation(format!("a valid URDF file is not loaded: {}", e)),
            }
        }
        1..=9 => Chain::from(robot.clone()),
        _ => Chain::from(robot),
    }
}

fn p12_t<T: Sc>(cx: &mut Cx) {
    let max = if cx.rng.p(0.003) {
        300
    } else if cx.rng.p(0.1) {
        60
    } else {
        25
    };
    let mut u = gen_robot(&mut cx.rng, 0.1, max);
    if !u.joints.is_empty() && cx.rng.p(0.15) {
        u.undeclared_root = true;
        cx.hit("URDF with an undeclared root link");
    }
    robot_fp(cx, &u);
    let s = cx.rng.p(0.8);
    let text = xml(&mut cx.rng, &u, s);
    cx.t(|| text.clone());
    let robot = parse(&text);
    let c: Chain<T> = load(cx, &robot, &text);
    let (_, nodes) = check_kinematics(cx, &u, &c);
    let first = chain_text(&c);
    check_fk(cx, &u, &c, &nodes);
    // the parts converted one by one
    if cx.rng.p(0.3) {
        let c1: Chain<T> = Chain::from(&robot);
        for uj in &robot.joints {
            let made = k::Joint::<T>::from(uj);
            let alone = crate::ops::node_data(&Node::new(made));
            if let Some(n) = c1.find(&uj.name) {
                if crate::ops::node_data(n) != alone {
                    wrong(&u, format!("the joint converted alone is {}, in the chain {}", alone, crate::ops::node_data(n)));
                }
            }
            let want = match u.joints.iter().find(|j| j.name == uj.name) {
                Some(j) => j,
                None => harness_error("unknown joint".into()),
            };
            let o = k::urdf::isometry_from::<T>(&uj.origin);
            let parts = Isometry3::from_parts(
                k::urdf::translation_from::<T>(&uj.origin.xyz),
                k::urdf::quaternion_from::<T>(&uj.origin.rpy),
            );
            if !near(&o, &want.origin.pose()) || !near(&parts, &want.origin.pose()) {
                wrong(&u, format!("the origin of {} becomes {:?} and {:?}", uj.name, o, parts));
            }
            if let (Some(m), Some((_, f, a))) = (&uj.mimic, want.mimic) {
                let m = k::joint::Mimic::<T>::from(m);
                let x = T::of(cx.rng.f(-2.0, 2.0));
                let y = T::of(f.unwrap_or(1.0)) * x + T::of(a.unwrap_or(0.0));
                let got = m.mimic_position(x);
                if !((got.d() - y.d()).abs() <= 8.0 * T::EPS * (1.0 + y.d().abs())) {
                    wrong(&u, format!("{} follows {} at {} instead of {}", uj.name, x.d(), got.d(), y.d()));
                }
            }
            cx.hit("joints converted alone");
        }
    }
    // loading again gives the same order of joints
    if cx.rng.p(0.4) {
        let c1: Chain<T> = load(cx, &robot, &text);
        let names = |c: &Chain<T>| c.iter().map(|n| n.joint().name.clone()).collect::<Vec<_>>();
        if names(&c1) != names(&c) || c1.dof() != c.dof() {
            wrong(&u, format!("loading again gives another order: {:?} then {:?}", names(&c), names(&c1)));
        }
        cx.hit("orders of the joints of two loads compared");
    }
    // a missing file and one which is no URDF are errors
    if cx.rng.p(0.02) {
        let p = scratch(&format!("{:x}.urdf", cx.seed));
        let bad = match cx.rng.below(4) {
            0 => None,
            1 => Some(String::new()),
            2 => Some("no robot".to_string()),
            _ => {
                let mut e = text.len() / 2;
                while !text.is_char_boundary(e) {
                    e -= 1;
                }
                Some(text[..e].to_string())
            }
        };
        if let Some(t) = &bad {
            if let Err(e) = std::fs::write(&p, t) {
                harness_error(format!("{}: {}", p.display(), e));
            }
        }
        let r = no_panic(|| Chain::<T>::from_urdf_file(&p).is_ok());
        let _ = std::fs::remove_file(&p);
        match r {
            Ok(false) => cx.hit("files refused"),
            Ok(true) => violation(format!("a file with {:?} is loaded", bad)),
            Err(m) => violation(format!("loading a file with {:?} {}", bad, m)),
        }
    }
    // written in another order
    let text2 = xml(&mut cx.rng, &u, true);
    cx.t(|| text2.clone());
    let robot2 = parse(&text2);
    let c2: Chain<T> = load(cx, &robot2, &text2);
    if chain_text(&c2) != first {
        wrong(
            &u,
            format!(
                "the result depends on the order of the file or the way it is loaded:\n{:?}\n{:?}",
                first,
                chain_text(&c2)
            ),
        );
    }
    cx.hit("orders compared");
}
pub fn p12(cx: &mut Cx) {
    both(cx, p12_t::<f64>, p12_t::<f32>)
}

// ------------------------------------------------------------------ P13

fn check_geo<T: Sc>(u: &URobot, what: &str, got: &Geometry<T>, want: &UGeo) {
    let b = |x: T, y: f64| x.bits() == T::of(y).bits();
    let ok = match (got, want) {
        (
            Geometry::Box {
                depth,
                width,
                height,
            },
            UGeo::Box(v),
        ) => b(*depth, v[0]) && b(*width, v[1]) && b(*height, v[2]),
        (Geometry::Cylinder { radius, length }, UGeo::Cylinder(r, l)) => b(*radius, *r) && b(*length, *l),
        (Geometry::Capsule { radius, length }, UGeo::Capsule(r, l)) => b(*radius, *r) && b(*length, *l),
        (Geometry::Sphere { radius }, UGeo::Sphere(r)) => b(*radius, *r),
        (Geometry::Mesh { filename, scale }, UGeo::Mesh(f, s)) => {
            let s = s.unwrap_or([1.0; 3]);
            filename == f && b(scale[0], s[0]) && b(scale[1], s[1]) && b(scale[2], s[2])
        }
        _ => false,
    };
    if !ok {
        wrong(u, format!("{}: geometry is {:?} instead of {:?}", what, got, want));
    }
}

fn check_link<T: Sc>(cx: &mut Cx, u: &URobot, got: &k::Link<T>, want: &ULink) {
    let b = |x: T, y: f64| x.bits() == T::of(y).bits();
    let n = &want.name;
    if got.name != *n {
        wrong(u, format!("the node has the link {} instead of {}", got.name, n));
    }
    let none = UPose {
        xyz: None,
        rpy: None,
        absent: true,
    };
    let (o, m, t) = want.inertial.unwrap_or((none, 0.0, [0.0; 6]));
    if !near(got.inertial.origin(), &o.pose()) {
        wrong(u, format!("{}: inertial origin {:?}", n, got.inertial.origin()));
    }
    if !b(got.inertial.mass, m) {
        wrong(u, format!("{}: mass {} instead of {}", n, got.inertial.mass.d(), m));
    }
    let i = [[t[0], t[1], t[2]], [t[1], t[3], t[4]], [t[2], t[4], t[5]]];
    for r in 0..3 {
        for c in 0..3 {
            if !b(got.inertial.inertia[(r, c)], i[r][c]) {
                wrong(
                    u,
                    format!(
                        "{}: inertia[{},{}] is {} instead of {}",
                        n,
                        r,
                        c,
                        got.inertial.inertia[(r, c)].d(),
                        i[r][c]
                    ),
                );
            }
        }
    }
    if got.visuals.len() != want.visual.len() || got.collisions.len() != want.collision.len() {
        wrong(
            u,
            format!(
                "{}: {} visuals and {} collisions instead of {} and {}",
                n,
                got.visuals.len(),
                got.collisions.len(),
                want.visual.len(),
                want.collision.len()
            ),
        );
    }
    for (k, (g, w)) in got.visuals.iter().zip(&want.visual).enumerate() {
        let what = format!("{} visual {}", n, k);
        if g.name != w.name.clone().unwrap_or_default() {
            wrong(u, format!("{}: name {:?} instead of {:?}", what, g.name, w.name));
        }
        if !near(g.origin(), &w.origin.pose()) {
            wrong(u, format!("{}: origin {:?}", what, g.origin()));
        }
        check_geo(u, &what, &g.geometry, &w.geo);
        let none = UMaterial {
            name: String::new(),
            color: None,
            texture: None,
        };
        let m = w.material.clone().unwrap_or(none);
        let c = m.color.unwrap_or([0.0; 4]);
        let gm = &g.material;
        // a material which is only named may be taken from the robot's list of materials
        let by_name = m.color.is_none() && m.name == "mat0";
        let color_ok = b(gm.color.r, c[0]) && b(gm.color.g, c[1]) && b(gm.color.b, c[2]) && b(gm.color.a, c[3]);
        if gm.name != m.name
            || (!by_name && !color_ok)
            || gm.texture.filename != m.texture.clone().unwrap_or_default()
        {
            wrong(
                u,
                format!("{}: material {:?} instead of {} {:?} {:?}", what, gm, m.name, m.color, m.texture),
            );
        }
        cx.hit("visuals compared");
    }
    for (k, (g, w)) in got.collisions.iter().zip(&want.collision).enumerate() {
        let what = format!("{} collision {}", n, k);
        if g.name != w.name.clone().unwrap_or_default() {
            wrong(u, format!("{}: name {:?} instead of {:?}", what, g.name, w.name));
        }
        if !near(g.origin(), &w.origin.pose()) {
            wrong(u, format!("{}: origin {:?}", what, g.origin()));
        }
        check_geo(u, &what, &g.geometry, &w.geo);
        cx.hit("collisions compared");
    }
    cx.hit("links compared");
}

fn p13_t<T: Sc>(cx: &mut Cx) {
    let max = if cx.rng.p(0.01) { 90 } else { 14 };
    let mut u = gen_robot(&mut cx.rng, 0.7, max);
    if !u.joints.is_empty() && cx.rng.p(0.1) {
        u.undeclared_root = true;
    }
    robot_fp(cx, &u);
    let s = cx.rng.p(0.7);
    let text = xml(&mut cx.rng, &u, s);
    cx.t(|| text.clone());
    let robot = parse(&text);
    let c: Chain<T> = load(cx, &robot, &text);
    let nodes: Vec<Node<T>> = c.iter().cloned().collect();
    let mut seen = HashSet::new();
    for n in &nodes {
        let name = n.joint().name.clone();
        let want = if n.parent().is_none() {
            if u.undeclared_root {
                None
            } else {
                Some(u.root)
            }
        } else {
            match u.joints.iter().find(|j| j.name == name) {
                Some(j) => Some(j.child),
                None => wrong(&u, format!("there is no joint named {}", name)),
            }
        };
        let got = n.link().as_ref().cloned();
        match (got, want) {
            (None, None) => {}
            (Some(g), Some(w)) => {
                check_link(cx, &u, &g, &u.links[w]);
                seen.insert(w);
            }
            (g, w) => wrong(
                &u,
                format!(
                    "the node {} has the link {:?} instead of {:?}",
                    name,
                    g.map(|g| g.name),
                    w.map(|w| u.links[w].name.clone())
                ),
            ),
        }
    }
    let declared = u.links.len() - u.undeclared_root as usize;
    if seen.len() != declared {
        wrong(&u, format!("only {} of {} links are attached", seen.len(), declared));
    }
    // the same through the conversion of a single link
    let k0 = cx.rng.below(robot.links.len().max(1));
    if let Some(l) = robot.links.get(k0) {
        let got: k::Link<T> = l.clone().into();
        if let Some(w) = u.links.iter().find(|x| x.name == l.name) {
            check_link(cx, &u, &got, w);
        }
    }
}
pub fn p13(cx: &mut Cx) {
    both(cx, p13_t::<f64>, p13_t::<f32>)
}

// ------------------------------------------------------------------ P14

fn p14_t<T: Sc>(cx: &mut Cx) {
    let max = if cx.rng.p(0.01) { 300 } else { 40 };
    let u = gen_robot(&mut cx.rng, 0.05, max);
    robot_fp(cx, &u);
    let text = xml(&mut cx.rng, &u, true);
    cx.t(|| text.clone());
    let robot = parse(&text);
    let c: Chain<T> = load(cx, &robot, &text);
    let l2j = k::urdf::link_to_joint_map(&robot);
    let j2l = k::urdf::joint_to_link_map(&robot);
    let mut want: HashMap<String, String> = HashMap::new();
    for (i, l) in u.links.iter().enumerate() {
        want.insert(
            l.name.clone(),
            match joint_of(&u, i) {
                Some(j) => u.joints[j].name.clone(),
                None => k::urdf::ROOT_JOINT_NAME.to_string(),
            },
        );
    }
    if l2j != want {
        wrong(&u, format!("link_to_joint_map is {:?} instead of {:?}", l2j, want));
    }
    let inv: HashMap<String, String> = want.iter().map(|(a, b)| (b.clone(), a.clone())).collect();
    if inv.len() != want.len() {
        harness_error("names are not unique".into());
    }
    if j2l != inv {
        wrong(&u, format!("joint_to_link_map is {:?} instead of {:?}", j2l, inv));
    }
    let mut n = 0;
    for node in c.iter() {
        let name = node.joint().name.clone();
        let link = node.link().as_ref().map(|l| l.name.clone());
        if link.as_ref() != j2l.get(&name) {
            wrong(
                &u,
                format!("the node {} has the link {:?}, joint_to_link_map has {:?}", name, link, j2l.get(&name)),
            );
        }
        if link.and_then(|l| l2j.get(&l).cloned()) != Some(name.clone()) {
            wrong(&u, format!("link_to_joint_map does not lead back to {}", name));
        }
        n += 1;
    }
    if n != j2l.len() {
        wrong(&u, format!("the chain has {} nodes, the map {} joints", n, j2l.len()));
    }
    for x in ["", "no such name", "Root", " root"] {
        if l2j.contains_key(x) || j2l.contains_key(x) {
            wrong(&u, format!("the maps contain {:?}", x));
        }
    }
    cx.count("map entries compared", (l2j.len() + j2l.len()) as u64);
}
pub fn p14(cx: &mut Cx) {
    both(cx, p14_t::<f64>, p14_t::<f32>)
}
