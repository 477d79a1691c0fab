//! P25, P27: extreme values and shapes, builders.
use crate::core::*;
use crate::gen::*;
use crate::m3::*;
use crate::ops::*;
use crate::p_fk::{both, check_vel, ref_velocities};
use crate::sc::*;
use k::link::*;
use k::nalgebra as na;
use k::prelude::*;
use k::{
    Chain, Constraints, Isometry3, JacobianIkSolver, Joint, JointType, Node, NodeBuilder, SerialChain, Translation3,
    UnitQuaternion,
};

// ------------------------------------------------------------------ P25

fn nasty<T: Sc>(cx: &mut Cx) -> T {
    match cx.rng.below(12) {
        0 | 1 => T::nan(),
        2 => T::inf(),
        3 => -T::inf(),
        4 => T::big(),
        5 => -T::big(),
        6 => T::tiny(),
        7 => -T::tiny(),
        8 => T::of(-0.0),
        9 => T::of(1e30),
        10 => T::of(10f64.powf(cx.rng.f(-300.0, 300.0))),
        _ => T::of(cx.rng.f(-2.0, 2.0)),
    }
}

fn nasty_origin<T: Sc>(cx: &mut Cx) -> Isometry3<T> {
    let mut o: Isometry3<T> = gen_origin(&mut cx.rng);
    match cx.rng.below(4) {
        0 => o.translation.vector[cx.rng.below(3)] = nasty(cx),
        1 => {
            for i in 0..3 {
                o.translation.vector[i] = nasty(cx);
            }
        }
        2 => {
            let q = na::Quaternion::new(nasty(cx), nasty(cx), nasty(cx), nasty(cx));
            o.rotation = na::Unit::new_unchecked(q);
        }
        _ => {}
    }
    o
}

/// a call which may return anything but must return
fn query<T: Sc>(cx: &mut Cx, w: &World<T>, extreme: bool) {
    let (v, _, _, d) = gen_view(w, &mut cx.rng);
    let c = v.c();
    let q = cx.rng.below(12);
    cx.t(|| format!("query {} of {}", q, d));
    let len = c.iter().count();
    match q {
        0 => {
            if c.update_transforms().len() != len {
                violation("update_transforms returns too few or many".into());
            }
        }
        1 => {
            if c.update_velocities().len() != len {
                violation("update_velocities returns too few or many".into());
            }
        }
        2 => c.update_link_transforms(),
        3 => {
            let _ = k::center_of_mass(c);
        }
        4 => {
            let n = format!("{}", c).lines().count();
            if n != len && d.starts_with("from_root") {
                violation(format!("{} lines for {} nodes", n, len));
            }
        }
        5 => {
            if c.iter().next().map(|n| n.is_root()) == Some(true) {
                let x = c.clone();
                if x.dof() != c.dof() {
                    violation("a clone has other joints".into());
                }
            }
        }
        6 => {
            let p = c.joint_positions();
            if p.len() != c.dof() {
                violation(format!("{} positions of {} joints", p.len(), c.dof()));
            }
        }
        7 => {
            let _ = format!("{:?}", c);
            for n in c.iter() {
                let _ = format!("{}", n);
                let _ = format!("{}", n.joint().joint_type);
                let _ = format!("{}", *n.joint());
            }
        }
        _ => {
            let i = cx.rng.below(w.len());
            let s = SerialChain::from_end(&w.nodes[i]);
            let _ = s.end_transform();
            let j = k::jacobian(&s);
            if j.nrows() != 6 || j.ncols() != s.dof() {
                violation(format!("the jacobian of {} joints has the shape {:?}", s.dof(), j.shape()));
            }
            if q < 10 {
                let t = if !extreme || cx.rng.p(0.5) { gen_origin(&mut cx.rng) } else { nasty_origin(cx) };
                let mut sol = JacobianIkSolver::new(
                    T::of(1e-3),
                    T::of(1e-3),
                    if !extreme || cx.rng.p(0.7) { T::of(0.5) } else { nasty(cx) },
                    cx.rng.range(0, 6),
                );
                if extreme && cx.rng.p(0.2) {
                    let v: Vec<T> = (0..s.dof()).map(|_| nasty(cx)).collect();
                    sol.set_nullspace_function(Box::new(move |_| v.clone()));
                }
                let con = Constraints {
                    position_x: cx.rng.p(0.5),
                    position_y: cx.rng.p(0.5),
                    position_z: cx.rng.p(0.5),
                    rotation_x: cx.rng.p(0.3),
                    rotation_y: cx.rng.p(0.3),
                    rotation_z: cx.rng.p(0.3),
                    ignored_joint_names: vec![],
                };
                let before: Vec<u64> = s.joint_positions().iter().map(|x| x.bits()).collect();
                let r = sol.solve_with_constraints(&s, &t, &con);
                let after: Vec<u64> = s.joint_positions().iter().map(|x| x.bits()).collect();
                if r.is_err() && before != after {
                    violation(format!("IK failed ({:?}) but the positions are {:x?} instead of {:x?}", r, after, before));
                }
                cx.hit("IK calls");
            }
        }
    }
}

fn p25_t<T: Sc>(cx: &mut Cx) {
    if cx.rng.p(0.002) {
        return large::<T>(cx);
    }
    let o = GenOpt {
        max: 10,
        links: 0.6,
        limits: 0.3,
        velocities: true,
        fixed: if cx.rng.p(0.2) { 1.0 } else { 0.2 },
        unique_names: cx.rng.p(0.5),
        ..GenOpt::default()
    };
    let mut s = gen_spec::<T>(&mut cx.rng, &o);
    let keep = s.clone();
    // extreme limits, velocities, masses
    let mut finite_velocities = true;
    for n in &mut s.n {
        if cx.rng.p(0.1) {
            n.limits = Some(match cx.rng.below(5) {
                0 => (-T::inf(), T::inf()),
                1 => (-T::big(), T::big()),
                2 => (T::of(-0.0), T::of(0.0)),
                3 => (-T::tiny(), T::tiny()),
                _ => (T::inf(), T::inf()),
            });
        }
        if cx.rng.p(0.1) {
            n.vel = nasty(cx);
            finite_velocities &= n.vel.d().abs() < 1e3;
        }
        if let (true, Some(l)) = (cx.rng.p(0.2), n.link.as_mut()) {
            l.inertial.mass = nasty(cx);
            let o = nasty_origin(cx);
            l.inertial.set_origin(o);
            for v in &mut l.visuals {
                v.set_origin(nasty_origin(cx));
            }
        }
        if cx.rng.p(0.2) {
            n.pos = nasty(cx);
        }
        if cx.rng.p(0.1) {
            n.origin = nasty_origin(cx);
        }
    }
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    let mut w = World::new(s);
    cx.sample = Some(format!("{} nodes in {}", w.len(), T::NAME));
    for _ in 0..cx.rng.range(2, 12) {
        let i = cx.rng.below(w.len());
        match cx.rng.below(8) {
            0 | 1 => {
                let x: T = nasty(cx);
                let others: Vec<String> = w.nodes.iter().map(node_data).collect();
                let how = cx.rng.below(3);
                cx.t(|| format!("node {} <- {:?} ({})", i, x, how));
                match how {
                    0 => {
                        let r = w.nodes[i].set_joint_position(x);
                        if r.is_ok() && w.nodes[i].joint_position().map(|p| p.bits()) != Some(x.bits()) {
                            violation(format!("{:?} was accepted but {:?} is stored", x, w.nodes[i].joint_position()));
                        }
                    }
                    1 => w.nodes[i].set_joint_position_clamped(x),
                    _ => {
                        w.nodes[i].set_joint_position_unchecked(x);
                        if w.movable(i) && w.nodes[i].joint_position().map(|p| p.bits()) != Some(x.bits()) {
                            violation(format!("{:?} was set but {:?} is stored", x, w.nodes[i].joint_position()));
                        }
                    }
                }
                for (j, o) in others.iter().enumerate() {
                    if j != i && node_data(&w.nodes[j]) != *o {
                        violation(format!("node {} changed while node {} was set to {:?}", j, i, x));
                    }
                }
            }
            2 => {
                let o = nasty_origin(cx);
                w.nodes[i].set_origin(o);
                w.s.n[i].origin = o;
                if iso_bits(&w.nodes[i].origin()) != iso_bits(&o) {
                    violation("another origin is stored".into());
                }
            }
            3 => {
                let (v, _, _, _) = gen_view(&w, &mut cx.rng);
                // of any length
                let n = (v.c().dof() + cx.rng.below(3)).saturating_sub(1);
                let xs: Vec<T> = (0..n).map(|_| nasty(cx)).collect();
                match cx.rng.below(3) {
                    0 => {
                        let r = v.c().set_joint_positions(&xs);
                        if r.is_ok() && n != v.c().dof() {
                            violation(format!("{} positions for {} joints were accepted", n, v.c().dof()));
                        }
                    }
                    1 => v.c().set_joint_positions_clamped(&xs),
                    _ => v.c().set_joint_positions_unchecked(&xs),
                }
            }
            _ => query(cx, &w, true),
        }
        cx.hit("calls with extreme values");
    }
    // ordinary again: nothing of it is left
    for i in 0..w.len() {
        let o = keep.n[i].origin;
        w.nodes[i].set_origin(o);
        w.s.n[i].origin = o;
        if keep.n[i].link.is_some() && cx.rng.p(0.5) {
            w.nodes[i].set_link(keep.n[i].link.clone());
        }
    }
    if cx.rng.p(0.3) {
        query(cx, &w, false);
    }
    for i in 0..w.len() {
        if w.movable(i) {
            let x = T::of(cx.rng.f(-3.0, 3.0));
            w.nodes[i].set_joint_position_unchecked(x);
        }
    }
    let q = w.positions();
    let fk = w.fk(&q);
    for _ in 0..2 {
        let (v, _, _, d) = gen_view(&w, &mut cx.rng);
        let idx = chain_idx(&w, v.c());
        if finite_velocities && cx.rng.p(0.4) {
            let vel = ref_velocities(&w, &q);
            for (g, i) in v.c().update_velocities().iter().zip(&idx) {
                check_vel(&w, "after extreme values", *i, g, &vel, &q);
            }
        }
        for (g, i) in v.c().update_transforms().iter().zip(&idx) {
            w.check_pose(&format!("{} after extreme values", d), *i, g, &fk[*i], &q);
        }
        for (n, i) in v.c().iter().zip(&idx) {
            match n.world_transform() {
                None => violation(format!("node {} has no world transform after the update", i)),
                Some(g) => w.check_pose("after extreme values", *i, &g, &fk[*i], &q),
            }
        }
        if let V::S(s) = &*v {
            if k::jacobian(s).iter().any(|x| !x.is_finite()) {
                violation("the jacobian is not finite after extreme values are gone".into());
            }
        }
        cx.hit("robots compared when the extreme values were gone");
    }
    if w.len() > 1 {
        cx.nontrivial();
    }
}

/// trees with many levels or many children, in a thread with a stack of the usual size
fn large<T: Sc>(cx: &mut Cx) {
    let n = cx.rng.range(200, 1000);
    let star = cx.rng.p(0.3);
    let seed = cx.rng.u64();
    cx.sample = Some(format!("{} {} {}", T::NAME, n, if star { "children" } else { "levels" }));
    cx.fp(n as u64);
    cx.nontrivial();
    cx.hit("trees of hundreds of levels or children");
    let slot = cx.slot.clone();
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, move || {
                let t = slot.as_ref().map(|s| s.enter());
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| large_tree::<T>(n, star, seed)))
                    .map_err(classify);
                if let (Some(s), Some(t)) = (&slot, t) {
                    s.leave(t);
                }
                r
            })
            .expect("thread")
            .join()
            .expect("join")
    });
    match r {
        Ok(()) | Err(Outcome::Ok) => {}
        Err(Outcome::Violation(m)) => violation(m),
        Err(Outcome::Harness(m)) => harness_error(m),
    }
}

fn large_tree<T: Sc>(n: usize, star: bool, seed: u64) {
    let mut r = crate::rng::Rng::new(seed);
    let d = T::of(0.125);
    let nodes: Vec<Node<T>> = (0..n)
        .map(|i| {
            NodeBuilder::new()
                .name(&format!("j{}", i))
                .translation(Translation3::new(d, T::of(0.0), T::of(0.0)))
                .joint_type(JointType::Linear {
                    axis: k::Vector3::x_axis(),
                })
                .into_node()
        })
        .collect();
    for i in 1..n {
        let p = if star { 0 } else { i - 1 };
        nodes[i].set_parent(&nodes[p]);
    }
    let c = Chain::from_root(nodes[0].clone());
    // a quarter of a step at each joint
    let pos = vec![d; n];
    if let Err(e) = c.set_joint_positions(&pos) {
        violation(format!("set_joint_positions: {}", e));
    }
    let check = |ts: Vec<Isometry3<T>>, what: &str| {
        if ts.len() != n {
            violation(format!("{}: {} transforms of {} nodes", what, ts.len(), n));
        }
        let mut k = 0;
        for t in &ts {
            let level = if !star {
                k + 1
            } else if k == 0 {
                1
            } else {
                2
            };
            // sums of eighths are exact
            if t.translation.vector[0].d() != 0.25 * level as f64 {
                violation(format!("{}: node {} of {} is at {}", what, k, n, t.translation.vector[0].d()));
            }
            k += 1;
        }
    };
    let last = &nodes[n - 1];
    for _ in 0..3 {
        match r.below(6) {
            0 => check(c.update_transforms(), "update_transforms"),
            1 => {
                c.update_velocities();
            }
            2 => {
                let s = format!("{}", c);
                if s.lines().count() != n {
                    violation(format!("{} lines for {} nodes", s.lines().count(), n));
                }
            }
            3 => {
                // forget all, then start at the end
                for x in &nodes {
                    x.set_origin(x.origin());
                }
                let e = Chain::from_nodes(vec![last.clone()]);
                let t = e.update_transforms();
                let level = if star { 2 } else { n };
                if t.len() != 1 || t[0].translation.vector[0].d() != 0.25 * level as f64 {
                    violation("the last node alone is at a wrong place".into());
                }
            }
            4 => {
                let k = c.clone();
                check(k.update_transforms(), "clone");
            }
            _ => {
                let s = SerialChain::from_end(last);
                let j = k::jacobian(&s);
                if j.ncols() != s.dof() {
                    violation("jacobian".into());
                }
            }
        }
    }
    check(c.update_transforms(), "update_transforms");
    if last.iter_ancestors().count() != if star { 2 } else { n } || nodes[0].iter_descendants().count() != n {
        violation("wrong number of ancestors or descendants".into());
    }
}
pub fn p25(cx: &mut Cx) {
    both(cx, p25_t::<f64>, p25_t::<f32>)
}

// ------------------------------------------------------------------ P27

fn same_joint<T: Sc>(cx: &mut Cx, j: &Joint<T>, s: &NSpec<T>, what: &str) {
    let want_type = match s.kind {
        Kind::Fixed => "F".to_string(),
        Kind::Rot => format!("R{:x?}", v3(&s.axis.into_inner()).map(f64::to_bits)),
        Kind::Lin => format!("L{:x?}", v3(&s.axis.into_inner()).map(f64::to_bits)),
    };
    let got_type = match j.joint_type {
        JointType::Fixed => "F".to_string(),
        JointType::Rotational { axis } => format!("R{:x?}", v3(&axis.into_inner()).map(f64::to_bits)),
        JointType::Linear { axis } => format!("L{:x?}", v3(&axis.into_inner()).map(f64::to_bits)),
    };
    let lim = j.limits.as_ref().map(|l| (l.min.bits(), l.max.bits()));
    let want_lim = s.limits.map(|l| (l.0.bits(), l.1.bits()));
    if j.name != s.name || got_type != want_type || lim != want_lim {
        violation(format!(
            "{}: joint {:?} {} limits {:x?} instead of {:?} {} {:x?}",
            what, j.name, got_type, lim, s.name, want_type, want_lim
        ));
    }
    if iso_bits(j.origin()) != iso_bits(&s.origin) {
        violation(format!("{}: origin {:?} instead of {:?}", what, j.origin(), s.origin));
    }
    if j.is_movable() != (s.kind != Kind::Fixed) {
        violation(format!("{}: is_movable() of {:?} is {}", what, s.kind, j.is_movable()));
    }
    let zero = if s.kind == Kind::Fixed { None } else { Some(0.0) };
    if j.joint_position().map(|x| x.d()) != zero || j.joint_velocity().map(|x| x.d()) != zero {
        violation(format!(
            "{}: a new joint has the position {:?} and velocity {:?}",
            what,
            j.joint_position(),
            j.joint_velocity()
        ));
    }
    if j.world_transform().is_some() || j.world_velocity().is_some() {
        violation(format!("{}: a new joint has a world transform or velocity", what));
    }
    cx.hit("joints compared");
}

fn p27_t<T: Sc>(cx: &mut Cx) {
    let o = GenOpt {
        max: 3,
        links: 0.0,
        limits: 0.5,
        unique_names: false,
        ..GenOpt::default()
    };
    let sp = gen_spec::<T>(&mut cx.rng, &o);
    cx.fp(spec_fp(&sp));
    cx.t(|| describe(&sp));
    cx.sample = Some(describe(&sp).chars().take(200).collect());
    cx.nontrivial();
    let mut s = sp.n[0].clone();
    // ---- nodes: any order, the last call of a kind counts, parts not mentioned are the defaults
    let mut b = if cx.rng.p(0.5) { NodeBuilder::<T>::new() } else { NodeBuilder::<T>::default() };
    let mut want = NSpec {
        name: String::new(),
        kind: Kind::Fixed,
        limits: None,
        origin: Isometry3::identity(),
        ..s.clone()
    };
    for _ in 0..cx.rng.below(9) {
        match cx.rng.below(6) {
            0 => {
                s.name = gen_name(&mut cx.rng, 1, false);
                b = b.name(&s.name);
                want.name = s.name.clone();
            }
            1 => {
                want.kind = *cx.rng.pick(&[Kind::Fixed, Kind::Rot, Kind::Lin]);
                want.axis = gen_axis(&mut cx.rng);
                b = b.joint_type(joint_type(&want));
            }
            2 => {
                want.limits = if cx.rng.p(0.7) {
                    Some(gen_limits(&mut cx.rng, Kind::Rot))
                } else {
                    None
                };
                b = b.limits(want.limits.map(|(x, y)| {
                    if cx.rng.p(0.5) {
                        (x..=y).into()
                    } else {
                        k::joint::Range::new(x, y)
                    }
                }));
            }
            3 => {
                want.origin = gen_origin(&mut cx.rng);
                b = b.origin(want.origin);
            }
            4 => {
                let o: Isometry3<T> = gen_origin(&mut cx.rng);
                want.origin.translation = o.translation;
                b = b.translation(o.translation);
            }
            _ => {
                let o: Isometry3<T> = gen_origin(&mut cx.rng);
                want.origin.rotation = o.rotation;
                b = b.rotation(o.rotation);
            }
        }
        if cx.rng.p(0.1) {
            b = b.clone();
        }
    }
    let other = b.clone();
    same_joint(cx, &b.finalize(), &want, "NodeBuilder::finalize");
    let n = other.clone().into_node();
    same_joint(cx, &n.joint(), &want, "NodeBuilder::into_node");
    let m: Node<T> = other.clone().finalize().into();
    same_joint(cx, &m.joint(), &want, "Joint into Node");
    let m2 = Node::new(other.finalize());
    same_joint(cx, &m2.joint(), &want, "Node::new");
    if !n.is_root() || !n.is_end() || n.parent().is_some() || n.mimic_parent().is_some() || n.link().is_some() {
        violation("a new node is connected with something or has a link".into());
    }
    if n == m || n != n.clone() {
        violation("nodes are equal exactly if they are the same".into());
    }
    let raw = Joint::<T>::new(&want.name, joint_type(&want));
    same_joint(
        cx,
        &raw,
        &NSpec {
            limits: None,
            origin: Isometry3::identity(),
            ..want.clone()
        },
        "Joint::new",
    );
    // ---- a copied joint is equal and independent
    let mut j = make_joint(&s);
    j.name = s.name.clone();
    let c = j.clone();
    let before: Node<T> = c.clone().into();
    let before = node_data(&before);
    if s.kind != Kind::Fixed {
        j.set_joint_position_unchecked(T::of(0.625));
        let _ = j.set_joint_velocity(T::of(-0.5));
    }
    j.set_origin(gen_origin(&mut cx.rng));
    j.limits = None;
    j.name += "x";
    let after: Node<T> = c.into();
    if node_data(&after) != before {
        violation(format!("a copied joint changed: {} instead of {}", node_data(&after), before));
    }
    // ---- links
    let one = T::of(1.0);
    let eye = na::Matrix3::<T>::identity();
    let mut want_l: Link<T> = Link::default();
    if !want_l.name.is_empty()
        || want_l.inertial.mass != T::of(0.0)
        || want_l.inertial.inertia != eye
        || *want_l.inertial.origin() != Isometry3::identity()
        || !want_l.visuals.is_empty()
        || !want_l.collisions.is_empty()
    {
        violation("the default link is not empty".into());
    }
    let mut lb = if cx.rng.p(0.5) { LinkBuilder::<T>::new() } else { LinkBuilder::<T>::default() };
    for i in 0..cx.rng.below(8) {
        match cx.rng.below(4) {
            0 => {
                let n = gen_name(&mut cx.rng, i, false);
                lb = lb.name(&n);
                want_l.name = n;
            }
            1 => {
                let x: Inertial<T> = if cx.rng.p(0.3) {
                    let m = T::of(cx.rng.f(0.0, 9.0));
                    let x = Inertial::from_mass(m);
                    if x.mass != m || *x.origin() != Isometry3::identity() || x.inertia != eye {
                        violation(format!("Inertial::from_mass({:?}) is {:?}", m, x));
                    }
                    x
                } else {
                    gen_inertial(&mut cx.rng)
                };
                want_l.inertial = x.clone();
                lb = lb.inertial(x);
            }
            2 => {
                let l: Link<T> = gen_link(&mut cx.rng, i);
                for v in l.visuals {
                    want_l.visuals.push(v.clone());
                    lb = lb.add_visual(v);
                }
            }
            _ => {
                let l: Link<T> = gen_link(&mut cx.rng, i);
                for v in l.collisions {
                    want_l.collisions.push(v.clone());
                    lb = lb.add_collision(v);
                }
            }
        }
    }
    let got = lb.finalize();
    if link_text(&got, true) != link_text(&want_l, true) {
        violation(format!(
            "the link builder made {} instead of {}",
            link_text(&got, true),
            link_text(&want_l, true)
        ));
    }
    cx.hit("links compared");
    // ---- a node keeps the link, copies do not share it
    n.set_link(Some(got.clone()));
    if link_data(&n, true) != link_text(&got, true) {
        violation(format!("the node has {} instead of {}", link_data(&n, true), link_text(&got, true)));
    }
    let mut changed = n.link().clone().expect("link");
    changed.name += "y";
    changed.inertial.mass += one;
    n.set_link(Some(changed.clone()));
    if link_data(&n, true) != link_text(&changed, true) || link_text(&got, true) != link_text(&want_l, true) {
        violation("a changed copy of a link is not stored, or changes the original".into());
    }
    n.set_link(None);
    if n.link().is_some() {
        violation("set_link(None) leaves a link".into());
    }
    // ---- elements
    let (o1, o2, wt): (Isometry3<T>, Isometry3<T>, Isometry3<T>) =
        (gen_origin(&mut cx.rng), gen_origin(&mut cx.rng), gen_origin(&mut cx.rng));
    macro_rules! element {
        ($e:expr, $name:expr) => {
            let mut e = $e;
            if iso_bits(e.origin()) != iso_bits(&o1) || e.world_transform().is_some() {
                violation(format!("{}: a new element is {:?}", $name, e));
            }
            e.set_world_transform(wt);
            if e.world_transform().as_ref().map(iso_bits) != Some(iso_bits(&wt)) || iso_bits(e.origin()) != iso_bits(&o1) {
                violation(format!("{}: the world transform was not stored: {:?}", $name, e));
            }
            if cx.rng.p(0.5) {
                e.clear_world_transform();
                if iso_bits(e.origin()) != iso_bits(&o1) {
                    violation(format!("{}: clearing changes the origin", $name));
                }
            } else {
                e.set_origin(o2);
                if iso_bits(e.origin()) != iso_bits(&o2) {
                    violation(format!("{}: the origin was not stored: {:?}", $name, e));
                }
            }
            if e.world_transform().is_some() {
                violation(format!("{}: an old world transform is kept", $name));
            }
            cx.hit("elements compared");
        };
    }
    element!(Inertial::new(o1, one, eye), "inertial");
    {
        let m = T::of(cx.rng.f(0.0, 50.0));
        let mut inertia = eye;
        for k in 0..9 {
            inertia[k] = T::of(cx.rng.f(-1.0, 1.0));
        }
        let x = Inertial::new(o1, m, inertia);
        if x.mass != m || x.inertia != inertia {
            violation(format!("Inertial::new({:?}, {:?}) is {:?}", m, inertia, x));
        }
        let g: k::link::Geometry<T> = gen_geometry(&mut cx.rng);
        let name = gen_name(&mut cx.rng, 3, false);
        let x = Collision::new(name.clone(), o1, g.clone());
        if x.name != name || format!("{:?}", x.geometry) != format!("{:?}", g) {
            violation(format!("Collision::new({:?}, {:?}) is {:?}", name, g, x));
        }
        let c = [0; 4].map(|_| T::of(cx.rng.unit()));
        let m = Material {
            name: format!("m{}", cx.rng.below(9)),
            color: k::link::Color { r: c[0], g: c[1], b: c[2], a: c[3] },
            texture: k::link::Texture { filename: format!("t{}", cx.rng.below(9)) },
        };
        let x = Visual::new(name.clone(), o1, g.clone(), m.clone());
        if x.name != name
            || format!("{:?}", x.geometry) != format!("{:?}", g)
            || format!("{:?}", x.material) != format!("{:?}", m)
        {
            violation(format!("Visual::new({:?}, {:?}, {:?}) is {:?}", name, g, m, x));
        }
    }
    element!(
        Visual::new(
            "v".into(),
            o1,
            gen_geometry(&mut cx.rng),
            Material {
                name: "m".into(),
                color: k::link::Color { r: one, g: one, b: one, a: one },
                texture: k::link::Texture { filename: String::new() },
            }
        ),
        "visual"
    );
    element!(Collision::new("c".into(), o1, gen_geometry(&mut cx.rng)), "collision");
    // ---- ranges, mimics, velocities, solvers
    let (a, z) = gen_limits::<T>(&mut cx.rng, Kind::Rot);
    let r: k::joint::Range<T> = if cx.rng.p(0.5) { (a..=z).into() } else { k::joint::Range::new(a, z) };
    for x in [a, z, a.next_down(), z.next_up(), T::of(cx.rng.f(-4.0, 4.0)), T::inf(), -T::inf(), T::nan()] {
        let inside = x >= a && x <= z;
        if r.is_valid(x) != inside {
            violation(format!("is_valid({:?}) of {:?} is {}", x, r, r.is_valid(x)));
        }
        if x == x {
            let want = if x < a {
                a
            } else if x > z {
                z
            } else {
                x
            };
            if r.clamp(x) != want {
                violation(format!("clamp({:?}) of {:?} is {:?}", x, r, r.clamp(x)));
            }
        }
    }
    // reversed ends are refused
    if a < z && cx.rng.p(0.05) {
        let refused = match cx.rng.below(2) {
            0 => no_panic(|| k::joint::Range::new(z, a)).is_err(),
            _ => no_panic(|| k::joint::Range::from(z..=a)).is_err(),
        };
        if !refused {
            violation(format!("a range from {:?} to {:?} is accepted", z, a));
        }
    }
    let (mu, of, x) = (T::of(cx.rng.f(-3.0, 3.0)), T::of(cx.rng.f(-3.0, 3.0)), T::of(cx.rng.f(-3.0, 3.0)));
    let y = k::joint::Mimic::new(mu, of).mimic_position(x).d();
    let want_y = mu.d() * x.d() + of.d();
    if !((y - want_y).abs() <= 4.0 * T::EPS * (1.0 + (mu.d() * x.d()).abs() + of.d().abs())) {
        violation(format!("mimic_position({:?}) of {:?} {:?} is {}", x, mu, of, y));
    }
    let (va, vb) = (gen_axis::<T>(&mut cx.rng).into_inner(), gen_axis::<T>(&mut cx.rng).into_inner());
    let v = k::joint::Velocity::from_parts(va, vb);
    if v.translation != va || v.rotation != vb {
        violation(format!("Velocity::from_parts is {:?}", v));
    }
    for v in [k::joint::Velocity::<T>::new(), k::joint::Velocity::zero(), k::joint::Velocity::default()] {
        if v.translation != na::Vector3::zeros() || v.rotation != na::Vector3::zeros() {
            violation(format!("a new velocity is {:?}", v));
        }
    }
    let t = cx.rng.below(1000);
    let sol = JacobianIkSolver::new(a, z, mu, t);
    if sol.allowable_target_distance != a
        || sol.allowable_target_angle != z
        || sol.jacobian_multiplier != mu
        || sol.num_max_try != t
    {
        violation(format!("JacobianIkSolver::new({:?}, {:?}, {:?}, {}) is {:?}", a, z, mu, t, sol));
    }
    let d = JacobianIkSolver::<T>::default();
    if !(d.allowable_target_distance > T::of(0.0)
        && d.allowable_target_angle > T::of(0.0)
        && d.jacobian_multiplier > T::of(0.0)
        && d.num_max_try > 0)
    {
        violation(format!("the default solver is {:?}", d));
    }
    // ---- poses of a single joint
    let mut one_joint = make_joint(&sp.n[0]);
    one_joint.limits = None;
    let p = T::of(gen_pos(&mut cx.rng, sp.n[0].kind, false));
    if sp.n[0].kind != Kind::Fixed {
        one_joint.set_joint_position_unchecked(p);
    }
    let g = pose(&one_joint.local_transform());
    let w = World::new(Spec {
        n: vec![sp.n[0].clone()],
        order: vec![],
        mimic: vec![],
    });
    let want = w.local(0, p.d());
    if !(vdiff(g.p, want.p) <= 1e3 * T::EPS * (1.0 + norm(want.p))) || !(mdiff(&g.r, &want.r) <= 1e3 * T::EPS) {
        violation(format!("local_transform() is {:?} instead of {:?}", g, want));
    }
    let _: UnitQuaternion<T> = UnitQuaternion::identity();
}
pub fn p27(cx: &mut Cx) {
    both(cx, p27_t::<f64>, p27_t::<f32>)
}
