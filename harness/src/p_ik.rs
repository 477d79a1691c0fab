//! P08, P09, P10, P11: inverse kinematics.
use crate::core::*;
use crate::gen::*;
use crate::m3::*;
use crate::p_fk::{both, ref_jacobian};
use crate::sc::*;
use k::nalgebra as na;
use k::prelude::*;
use k::{Chain, Constraints, Error, Isometry3, JacobianIkSolver, SerialChain};
use std::sync::{Arc, Mutex};

struct Arm<T: Sc> {
    w: World<T>,
    s: SerialChain<T>,
    /// nodes of the arm
    idx: Vec<usize>,
    /// movable nodes of the arm
    mov: Vec<usize>,
}

#[derive(Clone, Copy)]
struct ArmOpt {
    max: usize,
    limits: f64,
    legal: bool,
    wild: bool,
    fixed: f64,
    linear: f64,
}

fn gen_arm<T: Sc>(cx: &mut Cx, o: ArmOpt) -> Arm<T> {
    let g = GenOpt {
        min: 1,
        max: o.max,
        path: true,
        unique_names: true,
        links: 0.05,
        limits: o.limits,
        legal: o.legal,
        fixed: o.fixed,
        linear: o.linear,
        wild: o.wild,
        velocities: false,
    };
    let mut s = gen_spec::<T>(&mut cx.rng, &g);
    // gen_spec prefers short chains, IK needs some with many joints
    if cx.rng.p(0.6) && s.n.len() < o.max {
        let t = gen_spec::<T>(&mut cx.rng, &GenOpt { min: o.max.min(5), ..g });
        s = t;
    }
    let len = s.n.len();
    // joints beside the arm
    if cx.rng.p(0.5) {
        let b = gen_spec::<T>(
            &mut cx.rng,
            &GenOpt {
                max: 5,
                path: false,
                ..g
            },
        );
        for (i, mut n) in b.n.into_iter().enumerate() {
            n.name = format!("side {}", i);
            n.parent = Some(cx.rng.below(len + i));
            s.n.push(n);
        }
        s.order = (1..s.n.len()).collect();
        cx.rng.shuffle(&mut s.order);
    }
    cx.fp(spec_fp(&s));
    cx.t(|| describe(&s));
    let d = describe(&s);
    let w = World::new(s);
    let end = len - 1;
    let a = if cx.rng.p(0.25) { cx.rng.below(len) } else { 0 };
    let s = match cx.rng.below(3) {
        0 if a == 0 => SerialChain::from_end(&w.nodes[end]),
        1 => match SerialChain::try_new(Chain::from_nodes(w.nodes[a..len].to_vec())) {
            Some(s) => s,
            // the nodes have further children
            None => SerialChain::from_end_to_root(&w.nodes[end], &w.nodes[a]),
        },
        _ => SerialChain::from_end_to_root(&w.nodes[end], &w.nodes[a]),
    };
    let idx: Vec<usize> = (a..len).collect();
    let mov: Vec<usize> = idx.iter().copied().filter(|i| w.movable(*i)).collect();
    if chain_idx(&w, &s) != idx {
        violation("the arm does not contain the path from its root to its end".into());
    }
    if a > 0 {
        cx.hit("arms below the root");
    }
    if w.len() > len {
        cx.hit("arms with joints beside them");
    }
    let mut e = d.len().min(500);
    while !d.is_char_boundary(e) {
        e -= 1;
    }
    cx.sample = Some(d[..e].to_string());
    Arm { w, s, idx, mov }
}

impl<T: Sc> Arm<T> {
    fn end(&self) -> usize {
        self.idx[self.idx.len() - 1]
    }
    /// end pose in the coordinates of end_transform()
    fn fk(&self, q: &[f64]) -> Pose {
        self.idx
            .iter()
            .fold(Pose::ID, |a, i| a.mul(&self.w.local(*i, q[*i])))
    }
    fn reach(&self, q: &[f64]) -> f64 {
        self.w.reach(self.end(), q)
    }
    /// Jacobian of the constrained coordinates and the joints which are not ignored
    fn jac(&self, q: &[f64], mask: &[bool; 6], ignored: &[usize]) -> (Mat, Vec<usize>) {
        let (j, mov, _) = ref_jacobian(&self.w, &self.idx, q);
        let free: Vec<usize> = mov.iter().copied().filter(|i| !ignored.contains(i)).collect();
        let m = (0..6)
            .filter(|r| mask[*r])
            .map(|r| {
                mov.iter()
                    .enumerate()
                    .filter(|(_, i)| !ignored.contains(i))
                    .map(|(c, _)| j[r][c])
                    .collect()
            })
            .collect();
        (m, free)
    }
    fn limits(&self, i: usize) -> Option<(T, T)> {
        self.w.s.n[i].limits
    }
    fn legal(&self, i: usize, x: T) -> bool {
        match self.limits(i) {
            Some((a, b)) => x >= a && x <= b,
            None => true,
        }
    }
    fn restore(&self, p: &[Option<T>]) {
        for (n, x) in self.w.nodes.iter().zip(p) {
            if let Some(x) = x {
                n.set_joint_position_unchecked(*x);
            }
        }
    }
}

fn to_iso<T: Sc>(p: &Pose) -> Isometry3<T> {
    let m = na::Matrix3::new(
        p.r[0][0], p.r[0][1], p.r[0][2], p.r[1][0], p.r[1][1], p.r[1][2], p.r[2][0], p.r[2][1],
        p.r[2][2],
    );
    let q = na::UnitQuaternion::from_rotation_matrix(&na::Rotation3::from_matrix_unchecked(m));
    iso(p.p, q.w, q.i, q.j, q.k)
}

fn constraints(mask: &[bool; 6], names: Vec<String>) -> Constraints {
    Constraints {
        position_x: mask[0],
        position_y: mask[1],
        position_z: mask[2],
        rotation_x: mask[3],
        rotation_y: mask[4],
        rotation_z: mask[5],
        ignored_joint_names: names,
    }
}

fn residual(target: &Pose, cur: &Pose, mask: &[bool; 6]) -> (V3, V3, f64) {
    let mut p = sub(target.p, cur.p);
    let mut r = log(&mm(&target.r, &tr(&cur.r)));
    let angle = norm(r);
    for i in 0..3 {
        if !mask[i] {
            p[i] = 0.0;
        }
        if !mask[i + 3] {
            r[i] = 0.0;
        }
    }
    (p, r, angle)
}

fn gen_mask(cx: &mut Cx, dof: usize) -> [bool; 6] {
    let mut m = [false; 6];
    match cx.rng.below(10) {
        0 | 1 if dof >= 6 => m = [true; 6],
        2 => m = [true, true, true, false, false, false],
        3 => m = [false, false, false, true, true, true],
        4 => {
            for x in &mut m {
                *x = cx.rng.p(0.5);
            }
        }
        _ => {
            // as many as the arm can fulfil
            let want = cx.rng.range(0, dof.min(6));
            let mut order = [0, 1, 2, 3, 4, 5];
            cx.rng.shuffle(&mut order);
            for i in &order[..want] {
                m[*i] = true;
            }
        }
    }
    m
}

/// ignored joints which leave at least `need` joints, if possible
fn gen_ignored(cx: &mut Cx, mov: &[usize], need: usize) -> Vec<usize> {
    if mov.is_empty() || cx.rng.p(0.4) {
        return vec![];
    }
    let spare = mov.len().saturating_sub(need);
    let n = match cx.rng.below(4) {
        0 => spare, // leaves a square problem
        _ => cx.rng.range(0, spare),
    };
    let mut v = mov.to_vec();
    match cx.rng.below(4) {
        0 => {}
        1 => v.reverse(),
        _ => cx.rng.shuffle(&mut v),
    }
    v.truncate(n);
    v
}

fn names<T: Sc>(a: &Arm<T>, v: &[usize]) -> Vec<String> {
    v.iter().map(|i| a.w.s.n[*i].name.clone()).collect()
}

struct Problem<T: Sc> {
    target: Isometry3<T>,
    mask: [bool; 6],
    ignored: Vec<usize>,
    cons: Constraints,
    bad_name: bool,
    finite: bool,
}

fn gen_target<T: Sc>(cx: &mut Cx, a: &Arm<T>, near: f64) -> Isometry3<T> {
    let q = a.w.positions();
    let mut q2 = q.clone();
    if cx.rng.p(near) {
        let amp = 10f64.powf(cx.rng.f(-4.0, -0.3));
        for i in &a.mov {
            q2[*i] += amp * cx.rng.f(-1.0, 1.0);
        }
        return to_iso(&a.fk(&q2));
    }
    match cx.rng.below(5) {
        0 => {
            for i in &a.mov {
                q2[*i] = gen_pos(&mut cx.rng, a.w.s.n[*i].kind, false);
            }
            to_iso(&a.fk(&q2))
        }
        1 => a.s.end_transform(),
        2 => {
            let mut p = a.fk(&q);
            let k = cx.rng.below(3);
            p.p[k] += cx.rng.f(-0.2, 0.2);
            to_iso(&p)
        }
        3 => {
            let mut p = a.fk(&q);
            p.r = mm(&axis_angle([0.0, 0.0, 1.0], cx.rng.f(-3.2, 3.2)), &p.r);
            to_iso(&p)
        }
        _ => gen_origin(&mut cx.rng),
    }
}

fn gen_solver<T: Sc>(cx: &mut Cx) -> JacobianIkSolver<T> {
    if cx.rng.p(0.1) {
        return JacobianIkSolver::default();
    }
    let d = 10f64.powf(cx.rng.f(-4.0, -0.5));
    let an = 10f64.powf(cx.rng.f(-3.5, -0.3));
    let m = match cx.rng.below(5) {
        0 => 1.0,
        1 => cx.rng.f(0.01, 0.2),
        _ => cx.rng.f(0.2, 1.0),
    };
    let tries = match cx.rng.below(6) {
        0 => 1,
        1 => cx.rng.range(1, 5),
        _ => cx.rng.range(5, 60),
    };
    JacobianIkSolver::new(T::of(d), T::of(an), T::of(m), tries)
}

fn solve<T: Sc>(
    cx: &mut Cx,
    sol: &JacobianIkSolver<T>,
    a: &Arm<T>,
    p: &Problem<T>,
) -> Result<(), Error> {
    let plain = p.mask == [true; 6] && p.cons.ignored_joint_names.is_empty() && cx.rng.p(0.5);
    cx.t(|| {
        format!(
            "solve target={:?} constraints={:?} {:?} at {:?}",
            p.target,
            p.cons,
            sol,
            a.w.raw_positions()
        )
    });
    let r = if plain {
        sol.solve(&a.s, &p.target)
    } else {
        sol.solve_with_constraints(&a.s, &p.target, &p.cons)
    };
    cx.t(|| format!("  -> {:?} at {:?}", r, a.w.raw_positions()));
    r
}

/// what must hold after a success
fn check_success<T: Sc>(
    cx: &mut Cx,
    a: &Arm<T>,
    p: &Problem<T>,
    sol: &JacobianIkSolver<T>,
    before: &[Option<T>],
) {
    let after = a.w.raw_positions();
    for i in 0..a.w.len() {
        let (b, x) = match (before[i], after[i]) {
            (None, None) => continue,
            (Some(b), Some(x)) => (b, x),
            _ => violation("a joint changed its kind".into()),
        };
        let in_arm = a.mov.contains(&i);
        if in_arm && !a.legal(i, x) {
            violation(format!(
                "IK succeeded with joint {} at {} outside its limits {:?}",
                i,
                x.d(),
                a.limits(i).map(|l| (l.0.d(), l.1.d()))
            ));
        }
        let keep = !in_arm || (p.ignored.contains(&i) && a.legal(i, b));
        // the sign of zero may change
        if keep && b.bits() != x.bits() && b != x {
            violation(format!(
                "IK moved joint {} ({}) from {} to {}",
                i,
                if in_arm { "ignored" } else { "outside the arm" },
                b.d(),
                x.d()
            ));
        }
    }
    let q = a.w.positions();
    let t = pose(&p.target);
    let (dp, dr, angle) = residual(&t, &a.fk(&q), &p.mask);
    let full = p.mask[3] && p.mask[4] && p.mask[5];
    let tp = 8.0 * a.w.tol(a.end()) * (a.reach(&q) + norm(t.p));
    let trr = 40.0 * a.w.tol(a.end());
    if !(a.reach(&q) < 1e6) || q.iter().any(|x| !(x.abs() < 1e6)) {
        cx.hit("success with extreme positions: residual not judged");
        return;
    }
    if !(norm(dp) <= sol.allowable_target_distance.d() + tp) {
        violation(format!(
            "IK succeeded {} away from the target in the constrained coordinates, allowed are {} ({:?})",
            norm(dp),
            sol.allowable_target_distance.d(),
            p.mask
        ));
    }
    if !full && angle > 3.0 {
        cx.hit("partial rotation near a half turn: not judged");
    } else if !(norm(dr) <= sol.allowable_target_angle.d() + trr) {
        violation(format!(
            "IK succeeded at the angle {} from the target in the constrained coordinates, allowed are {} ({:?})",
            norm(dr),
            sol.allowable_target_angle.d(),
            p.mask
        ));
    }
    cx.hit("successes checked");
    if !p.ignored.is_empty() {
        cx.hit("successes with ignored joints");
    }
    if a.mov.iter().any(|i| {
        a.limits(*i).map(|l| after[*i] == Some(l.0) || after[*i] == Some(l.1)) == Some(true)
            && before[*i] != after[*i]
    }) {
        cx.hit("successes which moved a joint to its limit");
    }
    if a.mov.iter().any(|i| before[*i] != after[*i]) {
        cx.hit("successes which moved joints");
        cx.nontrivial();
    }
}

fn mask_id(m: &[bool; 6]) -> u64 {
    m.iter().enumerate().map(|(i, b)| (*b as u64) << i).sum()
}

fn count_mask(cx: &mut Cx, m: &[bool; 6]) {
    cx.fp(mask_id(m));
    match m.iter().filter(|x| **x).count() {
        0 => cx.hit("problems without constraints"),
        6 => cx.hit("problems with 6 constraints"),
        1 | 2 => cx.hit("problems with 1-2 constraints"),
        _ => cx.hit("problems with 3-5 constraints"),
    }
}

// ------------------------------------------------------------------ P08

fn p08_t<T: Sc>(cx: &mut Cx) {
    let legal = cx.rng.p(0.8);
    let a = gen_arm::<T>(
        cx,
        ArmOpt {
            max: if cx.rng.clone().p(0.04) { 30 } else { 11 },
            limits: *cx.rng.clone().pick(&[0.0, 0.3, 0.9]),
            legal,
            wild: cx.rng.clone().p(0.2),
            fixed: 0.15,
            linear: 0.2,
        },
    );
    let mut sol = gen_solver::<T>(cx);
    for _ in 0..cx.rng.range(1, 4) {
        let mask = gen_mask(cx, a.mov.len());
        let need = mask.iter().filter(|x| **x).count();
        let ignored = gen_ignored(cx, &a.mov, need);
        let mut ns = names(&a, &ignored);
        if !ns.is_empty() && cx.rng.p(0.1) {
            let d = cx.rng.pick(&ns).clone();
            ns.push(d); // listed twice
        }
        let p = Problem {
            target: gen_target(cx, &a, 0.75),
            mask,
            cons: constraints(&mask, ns),
            ignored,
            bad_name: false,
            finite: true,
        };
        count_mask(cx, &mask);
        let seen: Arc<Mutex<Vec<Vec<T>>>> = Arc::default();
        if cx.rng.p(0.3) {
            let f = nullspace(cx, a.mov.len());
            let log = seen.clone();
            sol.set_nullspace_function(Box::new(move |q| {
                log.lock().unwrap_or_else(|e| e.into_inner()).push(q.to_vec());
                f(q)
            }));
        } else {
            sol.clear_nullspace_function();
        }
        let before = a.w.raw_positions();
        match solve(cx, &sol, &a, &p) {
            Ok(()) => check_success(cx, &a, &p, &sol, &before),
            Err(_) => cx.hit("failures"),
        }
        // on the way no joint leaves its limits
        let seen = seen.lock().unwrap_or_else(|e| e.into_inner());
        for (n, q) in seen.iter().enumerate().skip(1) {
            if q.iter().any(|x| !x.is_finite()) || q.len() != a.mov.len() {
                break;
            }
            for (i, x) in a.mov.iter().zip(q) {
                if !a.legal(*i, *x) {
                    violation(format!(
                        "in step {} of IK joint {} is at {} outside its limits {:?}",
                        n,
                        i,
                        x.d(),
                        a.limits(*i).map(|l| (l.0.d(), l.1.d()))
                    ));
                }
            }
            cx.hit("positions on the way checked");
        }
        if cx.rng.p(0.3) {
            sol = gen_solver(cx);
        }
    }
}
pub fn p08(cx: &mut Cx) {
    both(cx, p08_t::<f64>, p08_t::<f32>)
}

type Null<T> = Box<dyn Fn(&[T]) -> Vec<T> + Send + Sync>;

fn nullspace<T: Sc>(cx: &mut Cx, dof: usize) -> Null<T> {
    let v: Vec<T> = (0..dof).map(|_| T::of(cx.rng.f(-0.3, 0.3))).collect();
    let w: Vec<T> = (0..dof).map(|_| T::of(cx.rng.f(-0.1, 0.1))).collect();
    match cx.rng.below(3) {
        0 => Box::new(move |_| v.clone()),
        1 => Box::new(k::create_reference_positions_nullspace_function(v, w)),
        _ => Box::new(move |q| q.iter().zip(&w).map(|(a, b)| *a * *b).collect()),
    }
}

// ------------------------------------------------------------------ P09

fn p09_t<T: Sc>(cx: &mut Cx) {
    let legal = cx.rng.p(0.5);
    let a = gen_arm::<T>(
        cx,
        ArmOpt {
            max: if cx.rng.clone().p(0.04) { 26 } else { 9 },
            limits: *cx.rng.clone().pick(&[0.0, 0.4, 0.9]),
            legal,
            wild: cx.rng.clone().p(0.3),
            fixed: if cx.rng.clone().p(0.1) { 0.9 } else { 0.15 },
            linear: 0.25,
        },
    );
    if cx.rng.p(0.05) {
        empty_arm::<T>(cx);
    }
    let mut sol = gen_solver::<T>(cx);
    if cx.rng.p(0.1) {
        sol.num_max_try = 0;
    }
    if cx.rng.p(0.15) {
        // can not be reached
        sol.allowable_target_distance = T::of(0.0);
    }
    if cx.rng.p(0.05) {
        sol.allowable_target_angle = T::of(0.0);
    }
    if cx.rng.p(0.05) {
        sol.num_max_try = 400;
    }
    if cx.rng.p(0.05) {
        sol.jacobian_multiplier = *cx.rng.pick(&[T::of(0.0), T::of(-1.0), T::of(3.0), T::nan()]);
    }
    for _ in 0..cx.rng.range(1, 3) {
        let mut mask = gen_mask(cx, a.mov.len());
        if cx.rng.p(0.15) {
            for m in &mut mask {
                *m = cx.rng.p(0.7);
            }
        }
        let need = mask.iter().filter(|x| **x).count();
        let mut ignored = gen_ignored(cx, &a.mov, need);
        if cx.rng.p(0.15) {
            ignored = a.mov.iter().copied().filter(|_| cx.rng.p(0.5)).collect();
        }
        let mut ns = names(&a, &ignored);
        let mut bad_name = false;
        if cx.rng.p(0.12) {
            let outside: Vec<usize> = (0..a.w.len()).filter(|i| !a.mov.contains(i)).collect();
            let n = if outside.is_empty() || cx.rng.p(0.4) {
                match cx.rng.below(4) {
                    0 => String::new(),
                    1 => "no such joint".into(),
                    2 => format!("{} ", a.w.s.n[a.idx[0]].name),
                    _ => a.w.s.n[a.idx[0]].name.to_uppercase() + "X",
                }
            } else {
                a.w.s.n[*cx.rng.pick(&outside)].name.clone()
            };
            if a.mov.iter().all(|i| a.w.s.n[*i].name != n) {
                bad_name = true;
                let at = cx.rng.range(0, ns.len());
                ns.insert(at, n);
            }
        }
        if !ns.is_empty() && cx.rng.p(0.15) {
            let d = cx.rng.pick(&ns).clone();
            ns.push(d);
        }
        let mut target = gen_target(cx, &a, 0.3);
        let mut finite = true;
        if cx.rng.p(0.12) {
            let x = *cx.rng.pick(&[T::nan(), T::inf(), -T::inf(), T::big()]);
            // neither is the arithmetic of the largest values judged
            finite = false;
            match cx.rng.below(3) {
                0 => target.translation.vector[cx.rng.below(3)] = x,
                1 => {
                    for i in 0..3 {
                        target.translation.vector[i] = x;
                    }
                }
                _ => {
                    let q = na::Quaternion::new(x, T::of(0.5), x, x);
                    target.rotation = na::Unit::new_unchecked(q);
                }
            }
            cx.hit("targets with NaN, infinite or huge values");
        }
        let null = cx.rng.p(0.2);
        if null {
            if cx.rng.p(0.2) {
                let x = *cx.rng.pick(&[T::nan(), T::inf(), T::of(1e6)]);
                let n = a.mov.len();
                sol.set_nullspace_function(Box::new(move |_| vec![x; n]));
                cx.hit("null space functions with NaN, infinite or huge values");
                finite = false;
            } else {
                sol.set_nullspace_function(nullspace(cx, a.mov.len()));
            }
        } else {
            sol.clear_nullspace_function();
        }
        if !(sol.jacobian_multiplier.d().abs() <= 2.0) {
            finite = false;
        }
        count_mask(cx, &mask);
        let p = Problem {
            target,
            mask,
            cons: constraints(&mask, ns),
            ignored,
            bad_name,
            finite,
        };
        let before = a.w.raw_positions();
        let free = a.mov.len() - p.ignored.len();
        let need = mask.iter().filter(|x| **x).count();
        let r = solve(cx, &sol, &a, &p);
        cx.fp(match &r {
            Ok(()) => 0,
            Err(e) => e.to_string().len() as u64,
        });
        let e = match r {
            Ok(()) => {
                cx.hit("successes");
                if need > 0 && (sol.allowable_target_distance <= T::of(0.0) || sol.allowable_target_angle <= T::of(0.0)) {
                    violation(format!("IK succeeded although nothing is less than the allowed difference of 0: {:?}", sol));
                }
                if p.bad_name {
                    violation("IK succeeded although an ignored name is not one of a movable joint of the arm".into());
                }
                if free < need {
                    violation(format!(
                        "IK succeeded with {} free joints and {} constraints",
                        free, need
                    ));
                }
                continue;
            }
            Err(e) => e,
        };
        let after = a.w.raw_positions();
        for i in 0..a.w.len() {
            if before[i].map(|x| x.bits()) != after[i].map(|x| x.bits()) {
                violation(format!(
                    "IK failed ({}) but joint {} was moved from {:?} to {:?}",
                    e,
                    i,
                    before[i].map(|x| x.d()),
                    after[i].map(|x| x.d())
                ));
            }
        }
        cx.nontrivial();
        if a.mov.iter().any(|i| !a.legal(*i, before[*i].unwrap())) {
            cx.hit("failures with a start outside of the limits");
        }
        let few = free < need;
        match &e {
            Error::InvalidJointNameError { joint_name } => {
                cx.hit("invalid joint name errors");
                if !p.bad_name {
                    violation(format!("IK rejected the valid joint name {}", joint_name));
                }
                if a.mov.iter().any(|i| a.w.s.n[*i].name == *joint_name)
                    || !p.cons.ignored_joint_names.contains(joint_name)
                {
                    violation(format!("IK reported the wrong joint name {:?}", joint_name));
                }
            }
            Error::PreconditionError { dof, necessary_dof } => {
                cx.hit("too few joints errors");
                if p.bad_name {
                    continue;
                }
                if !few {
                    violation(format!("IK reported too few joints with {} free joints and {} constraints ({} of {} joints are ignored)", free, need, p.ignored.len(), a.mov.len()));
                }
                if *dof != free || *necessary_dof != need {
                    violation(format!("IK reported {} free joints and {} constraints instead of {} and {}", dof, necessary_dof, free, need));
                }
            }
            Error::NotConvergedError { .. } | Error::InverseMatrixError => {
                if p.bad_name || few {
                    violation(format!(
                        "IK failed with '{}' although {}",
                        e,
                        if p.bad_name {
                            "an ignored joint name is invalid"
                        } else {
                            "there are too few joints"
                        }
                    ));
                }
                check_failure(cx, &a, &p, &mut sol, &before, &e);
            }
            _ => violation(format!("IK failed with an error which is not one of IK: {}", e)),
        }
        // the message tells the same
        let text = e.to_string();
        let told: Vec<String> = match &e {
            Error::InvalidJointNameError { joint_name } => vec![joint_name.clone()],
            Error::PreconditionError { dof, necessary_dof } => vec![dof.to_string(), necessary_dof.to_string()],
            Error::NotConvergedError { num_tried, position_diff, rotation_diff } => {
                let x = position_diff.iter().chain(rotation_diff.iter());
                x.map(|x| x.to_string()).chain(Some(num_tried.to_string())).collect()
            }
            _ => vec![],
        };
        if let Some(x) = told.iter().find(|x| !text.contains(x.as_str())) {
            violation(format!("the message {:?} of {:?} does not tell {:?}", text, e, x));
        }
        a.restore(&before);
    }
}

/// not converged and singular errors
fn check_failure<T: Sc>(
    cx: &mut Cx,
    a: &Arm<T>,
    p: &Problem<T>,
    sol: &mut JacobianIkSolver<T>,
    before: &[Option<T>],
    e: &Error,
) {
    let free = a.mov.len() - p.ignored.len();
    let need = p.mask.iter().filter(|x| **x).count();
    let (td, ta) = (sol.allowable_target_distance, sol.allowable_target_angle);
    let tries = sol.num_max_try;
    if let Error::NotConvergedError {
        num_tried,
        position_diff,
        rotation_diff,
    } = e
    {
        cx.hit("not converged errors");
        if *num_tried != tries {
            violation(format!("IK tried {} times instead of {}", num_tried, tries));
        }
        let (dp, dr) = (v3(position_diff), v3(rotation_diff));
        let slack = 1.0 - 16.0 * T::EPS;
        if tries > 0 && p.finite && norm(dp) < td.d() * slack && norm(dr) < ta.d() * slack {
            violation(format!(
                "IK did not converge with a residual {:?} {:?} within the tolerances {} {}",
                dp,
                dr,
                td.d(),
                ta.d()
            ));
        }
        for i in 0..3 {
            if (!p.mask[i] && dp[i] != 0.0) || (!p.mask[i + 3] && dr[i] != 0.0) {
                violation(format!(
                    "IK reports a residual {:?} {:?} in an unconstrained coordinate {:?}",
                    dp, dr, p.mask
                ));
            }
        }
    } else {
        cx.hit("singular matrix errors");
    }
    if !p.finite || tries > 100 {
        return;
    }
    // repeat the tries one by one
    sol.allowable_target_distance = T::big();
    sol.allowable_target_angle = T::big();
    sol.num_max_try = 1;
    let mut failed = false;
    for _ in 0..tries {
        match sol.solve_with_constraints(&a.s, &p.target, &p.cons) {
            Ok(()) => {}
            Err(_) => {
                failed = true;
                break;
            }
        }
    }
    sol.allowable_target_distance = td;
    sol.allowable_target_angle = ta;
    sol.num_max_try = tries;
    let q = a.w.positions();
    let tame = q.iter().all(|x| x.abs() < 1e3) && before.iter().flatten().all(|x| x.d().abs() < 1e3);
    if !tame {
        cx.hit("failures with extreme positions: residual not judged");
        return;
    }
    match e {
        Error::InverseMatrixError => {
            if !failed {
                violation("IK reports a singular matrix, but the single tries do not".into());
            }
            let (j, _) = a.jac(&q, &p.mask, &p.ignored);
            let (lo, hi) = sv_minmax(&j);
            let r = if T::F32 { 1e-3 } else { 1e-6 };
            if lo > hi * r && lo > r * a.reach(&q) {
                violation(format!(
                    "IK reports a singular matrix but the singular values are {}..{} ({} joints, {} constraints)",
                    lo, hi, free, need
                ));
            }
            cx.hit("singular matrix errors confirmed");
        }
        Error::NotConvergedError {
            position_diff,
            rotation_diff,
            ..
        } => {
            if !(norm(v3(position_diff)) < 1e6) {
                cx.hit("failures with extreme positions: residual not judged");
                return;
            }
            if failed {
                violation("the single tries of IK fail but all of them together do not".into());
            }
            let t = pose(&p.target);
            let (dp, dr, angle) = residual(&t, &a.fk(&q), &p.mask);
            if angle > 3.0 {
                cx.hit("residual near a half turn: not judged");
                return;
            }
            let tp = 16.0 * a.w.tol(a.end()) * (a.reach(&q) + norm(t.p));
            let trr = 80.0 * a.w.tol(a.end());
            if !(vdiff(dp, v3(position_diff)) <= tp) || !(vdiff(dr, v3(rotation_diff)) <= trr) {
                violation(format!(
                    "IK reports the residual {:?} {:?} instead of {:?} {:?} after {} tries",
                    v3(position_diff),
                    v3(rotation_diff),
                    dp,
                    dr,
                    tries
                ));
            }
            cx.hit("reported residuals confirmed");
        }
        _ => {}
    }
}

fn empty_arm<T: Sc>(cx: &mut Cx) {
    if let Some(s) = SerialChain::try_new(Chain::<T>::from_nodes(vec![])) {
        let sol = gen_solver::<T>(cx);
        let m = gen_mask(cx, 0);
        let r = sol.solve_with_constraints(&s, &gen_origin(&mut cx.rng), &constraints(&m, vec![]));
        cx.hit("arms without nodes");
        match r {
            Ok(()) if m == [false; 6] => {}
            Err(Error::PreconditionError { .. }) if m != [false; 6] => {}
            r => violation(format!("IK of an arm without nodes returned {:?}", r)),
        }
    }
}
pub fn p09(cx: &mut Cx) {
    both(cx, p09_t::<f64>, p09_t::<f32>)
}

// ------------------------------------------------------------------ P10

/// a bound for the condition of the constrained jacobian of an arm of the given size
fn well<T: Sc>(a: &Arm<T>, q: &[f64], mask: &[bool; 6], ignored: &[usize], size: f64) -> Option<f64> {
    let (j, free) = a.jac(q, mask, ignored);
    if free.len() < j.len() {
        return None;
    }
    let (lo, hi) = sv_minmax(&j);
    if lo < 0.12 * size || lo / hi < 0.02 {
        return None;
    }
    Some(lo)
}

fn rebuild<T: Sc>(a: Arm<T>, s: Spec<T>) -> Arm<T> {
    let w = World::new(s);
    let sc = SerialChain::from_end_to_root(&w.nodes[a.end()], &w.nodes[a.idx[0]]);
    Arm {
        w,
        s: sc,
        idx: a.idx,
        mov: a.mov,
    }
}

fn p10_t<T: Sc>(cx: &mut Cx) {
    let mut a = gen_arm::<T>(
        cx,
        ArmOpt {
            max: if cx.rng.clone().p(0.04) { 24 } else { 11 },
            limits: 0.0,
            legal: true,
            wild: false,
            fixed: 0.15,
            linear: 0.25,
        },
    );
    if a.mov.is_empty() {
        return;
    }
    if a.idx.len() > 11 {
        let mut s = a.w.s.clone();
        for n in &mut s.n {
            n.origin.translation.vector *= T::of(0.3);
        }
        a = rebuild(a, s);
        cx.hit("arms of more than 11 nodes");
    }
    // small robots have small jacobians
    let mut size = 1.0;
    if a.idx.len() <= 11 && cx.rng.p(0.25) {
        size = *cx.rng.pick(&[0.02, 0.05, 0.2]);
        let mut s = a.w.s.clone();
        for n in &mut s.n {
            n.origin.translation.vector *= T::of(size);
            if n.kind == Kind::Lin {
                n.pos = T::of(n.pos.d() * size);
            }
        }
        a = rebuild(a, s);
        cx.hit("small arms");
    }
    let q0 = a.w.positions();
    if a.reach(&q0) > 12.0 {
        return;
    }
    let mut found = None;
    for _ in 0..6 {
        let mask = gen_mask(cx, a.mov.len());
        let need = mask.iter().filter(|x| **x).count();
        if need == 0 || need > a.mov.len() {
            continue;
        }
        let ignored = gen_ignored(cx, &a.mov, need);
        if well(&a, &q0, &mask, &ignored, size).is_some() {
            found = Some((mask, ignored));
            break;
        }
    }
    let (mask, ignored) = match found {
        Some(f) => f,
        None => {
            cx.hit("no well conditioned problem found");
            return;
        }
    };
    // limits which are not in the way
    if cx.rng.p(0.5) {
        let mut s = a.w.s.clone();
        for i in &a.mov {
            s.n[*i].limits = Some((
                T::of(q0[*i] - cx.rng.f(1.0, 3.0)),
                T::of(q0[*i] + cx.rng.f(1.0, 3.0)),
            ));
        }
        a = rebuild(a, s);
        cx.hit("arms with limits");
    }
    let mut m = cx.rng.f(0.3, 1.0);
    // the residual shrinks to a fraction of 1 - m with each try
    let mut tries = cx.rng.range(if m < 0.5 { 40 } else { 30 }, 100);
    if cx.rng.p(0.05) {
        m = 10f64.powf(cx.rng.f(-1.5, -0.5));
        tries = (15.0 / m) as usize;
        cx.hit("small multipliers");
    }
    let (td, ta) = if T::F32 { (1e-3 * size, 1e-3) } else { (1e-4 * size, 1e-4) };
    // rotations and linear joints do not get smaller
    let unit = if mask[3] || mask[4] || mask[5] || a.mov.iter().any(|i| a.w.s.n[*i].kind == Kind::Lin) {
        1.0
    } else {
        size
    };
    let mut sol = JacobianIkSolver::new(T::of(td), T::of(ta), T::of(m), tries);
    let mut steps = cx.rng.range(1, 3);
    if cx.rng.p(0.15) {
        steps = 20;
    }
    if cx.rng.p(0.15) {
        // must not prevent the convergence
        let n = a.mov.len();
        sol.set_nullspace_function(Box::new(move |_| vec![T::of(0.0); n]));
    }
    let start = a.w.positions();
    let mut dir: Vec<f64> = a.mov.iter().map(|_| cx.rng.f(-1.0, 1.0)).collect();
    let mut done = 0;
    for _ in 0..steps {
        let q = a.w.positions();
        let lo = match well(&a, &q, &mask, &ignored, size) {
            Some(x) => x,
            None => break,
        };
        if q.iter().zip(&start).any(|(x, y)| (x - y).abs() > 0.6) {
            break;
        }
        let amp = (0.08 * lo / a.reach(&q).max(unit)).min(0.1);
        let mut q2 = q.clone();
        for (i, d) in a.mov.iter().zip(&mut dir) {
            *d = (*d + cx.rng.f(-0.3, 0.3)).clamp(-1.0, 1.0);
            if !ignored.contains(i) {
                q2[*i] += amp * *d;
            }
        }
        let mut t = a.fk(&q2);
        // what is not constrained may be anywhere
        for i in 0..3 {
            if !mask[i] {
                t.p[i] += cx.rng.f(-1.0, 1.0);
            }
        }
        if !mask[3] && !mask[4] && !mask[5] {
            t.r = mm(&axis_angle([0.6, 0.0, 0.8], cx.rng.f(-3.0, 3.0)), &t.r);
        }
        let p = Problem {
            target: to_iso(&t),
            mask,
            cons: constraints(&mask, names(&a, &ignored)),
            ignored: ignored.clone(),
            bad_name: false,
            finite: true,
        };
        let before = a.w.raw_positions();
        let (dp, dr, _) = residual(&t, &a.fk(&q), &mask);
        match solve(cx, &sol, &a, &p) {
            Ok(()) => {
                check_success(cx, &a, &p, &sol, &before);
                if norm(dp) > 3.0 * td || norm(dr) > 3.0 * ta {
                    cx.hit("targets out of tolerance at the start, reached");
                    cx.nontrivial();
                }
                done += 1;
            }
            Err(e) => violation(format!(
                "IK did not reach a target {:?} {:?} away (smallest singular value {}): {} (constraints {:?}, ignored {:?}, multiplier {}, {} tries)",
                dp, dr, lo, e, mask, ignored, m, tries
            )),
        }
    }
    count_mask(cx, &mask);
    if done >= 10 {
        cx.hit("paths of 10 or more targets tracked");
    }
    let free = a.mov.len() - ignored.len();
    let need = mask.iter().filter(|x| **x).count();
    cx.hit(if free > need {
        "redundant problems"
    } else {
        "square problems"
    });
}
pub fn p10(cx: &mut Cx) {
    both(cx, p10_t::<f64>, p10_t::<f32>)
}

// ------------------------------------------------------------------ P11

/// nalgebra 0.26 returns inaccurate singular vectors for some nearly degenerate matrices
fn library_svd_is_accurate<T: Sc>(a: &Arm<T>, mask: &[bool; 6], ignored: &[usize], j: &Mat) -> bool {
    let full = k::jacobian(&a.s);
    let cols: Vec<usize> = (0..a.mov.len()).filter(|c| !ignored.contains(&a.mov[*c])).collect();
    let rows: Vec<usize> = (0..6).filter(|r| mask[*r]).collect();
    if full.nrows() != 6 || full.ncols() != a.mov.len() {
        return true;
    }
    let m = na::DMatrix::from_fn(rows.len(), cols.len(), |r, c| full[(rows[r], cols[c])]);
    for r in 0..rows.len() {
        for c in 0..cols.len() {
            if !((m[(r, c)].d() - j[r][c]).abs() <= 1e-3 * (1.0 + j[r][c].abs())) {
                return true; // it is not the library's fault
            }
        }
    }
    let inv = match m.try_svd(true, true, T::default_epsilon(), 1000) {
        Some(s) => match s.pseudo_inverse(T::of(1e-4)) {
            Ok(x) => x,
            Err(_) => return false,
        },
        None => return false,
    };
    let (want, lo) = match pinv(j) {
        Some(x) => (x, sv_minmax(j).0),
        None => return false,
    };
    let tol = if T::F32 { 1e-4 } else { 1e-8 } / lo;
    (0..cols.len()).all(|r| (0..rows.len()).all(|c| (inv[(r, c)].d() - want[r][c]).abs() <= tol))
}

fn p11_t<T: Sc>(cx: &mut Cx) {
    // the example function
    {
        let n = cx.rng.range(0, 9);
        let v = |cx: &mut Cx| -> Vec<T> { (0..n).map(|_| T::of(cx.rng.f(-3.0, 3.0))).collect() };
        let (r, w, q) = (v(cx), v(cx), v(cx));
        let f = k::create_reference_positions_nullspace_function(r.clone(), w.clone());
        let g = f(&q);
        if g.len() != n {
            violation(format!(
                "the reference position function returned {} values for {} joints",
                g.len(),
                n
            ));
        }
        for i in 0..n {
            let want = w[i].d() * (q[i].d() - r[i].d());
            if !((g[i].d() - want).abs() <= 8.0 * T::EPS * w[i].d().abs() * (q[i].d().abs() + r[i].d().abs())) {
                violation(format!(
                    "the reference position function returned {} instead of {}",
                    g[i].d(),
                    want
                ));
            }
        }
        cx.count("reference function values compared", n as u64);
    }
    let a = gen_arm::<T>(
        cx,
        ArmOpt {
            max: if cx.rng.clone().p(0.03) { 22 } else { 11 },
            limits: 0.0,
            legal: true,
            wild: false,
            fixed: 0.15,
            linear: 0.25,
        },
    );
    if a.mov.is_empty() {
        return;
    }
    let q0 = a.w.positions();
    let p0 = a.w.raw_positions();
    let mut found = None;
    for _ in 0..6 {
        let mask = gen_mask(cx, a.mov.len());
        let need = mask.iter().filter(|x| **x).count();
        if need == 0 || need > a.mov.len() {
            continue;
        }
        let ignored = gen_ignored(cx, &a.mov, need);
        let (j, free) = a.jac(&q0, &mask, &ignored);
        let (lo, hi) = sv_minmax(&j);
        if free.len() >= j.len() && lo > 0.05 && lo > hi * 0.04 {
            found = Some((mask, ignored, j, free, lo, hi));
            break;
        }
    }
    let (mask, ignored, j, free, lo, hi) = match found {
        Some(f) => f,
        None => {
            cx.hit("no well conditioned problem found");
            return;
        }
    };
    if !library_svd_is_accurate(&a, &mask, &ignored, &j) {
        cx.hit("inaccurate SVD of the linear algebra library: not judged");
        return;
    }
    count_mask(cx, &mask);
    let redundant = free.len() > j.len();
    let m = cx.rng.f(0.1, 1.0);
    let mut sol = JacobianIkSolver::new(T::big(), T::big(), T::of(m), 1);
    let m = T::of(m).d();
    let p = Problem {
        target: if cx.rng.p(0.3) {
            a.s.end_transform()
        } else {
            gen_target(cx, &a, 1.0)
        },
        mask,
        cons: constraints(&mask, names(&a, &ignored)),
        ignored: ignored.clone(),
        bad_name: false,
        finite: true,
    };
    let run = |cx: &mut Cx, sol: &JacobianIkSolver<T>, what: &str| -> Vec<f64> {
        a.restore(&p0);
        if let Err(e) = solve(cx, sol, &a, &p) {
            violation(format!("one try of IK {} failed: {}", what, e));
        }
        let q = a.w.positions();
        for i in &ignored {
            if q[*i] != q0[*i] {
                violation(format!("IK {} moved the ignored joint {}", what, i));
            }
        }
        q
    };
    let q_none = run(cx, &sol, "without null space function");
    // a known function
    let n = a.mov.len();
    let amp = 10f64.powf(cx.rng.f(-2.0, 0.5));
    let b: Vec<T> = (0..n).map(|_| T::of(amp * cx.rng.f(-1.0, 1.0))).collect();
    let c: Vec<T> = (0..n).map(|_| T::of(cx.rng.f(-0.5, 0.5))).collect();
    let log: Arc<Mutex<Vec<Vec<T>>>> = Arc::new(Mutex::new(vec![]));
    let (l2, b2, c2) = (log.clone(), b.clone(), c.clone());
    sol.set_nullspace_function(Box::new(move |q| {
        l2.lock().unwrap().push(q.to_vec());
        (0..b2.len())
            .map(|i| b2[i] + c2[i] * if i < q.len() { q[i] } else { T::nan() })
            .collect()
    }));
    let q_f = run(cx, &sol, "with a null space function");
    let calls = log.lock().unwrap().clone();
    let want_args: Vec<u64> = a.mov.iter().map(|i| p0[*i].unwrap().bits()).collect();
    for call in &calls {
        if call.iter().map(|x| x.bits()).collect::<Vec<_>>() != want_args {
            violation(format!(
                "the null space function was given {:?}, the joints are at {:?}",
                call.iter().map(|x| x.d()).collect::<Vec<_>>(),
                a.mov.iter().map(|i| q0[*i]).collect::<Vec<_>>()
            ));
        }
    }
    let f: Vec<f64> = a
        .mov
        .iter()
        .enumerate()
        .filter(|(_, i)| !ignored.contains(i))
        .map(|(k, i)| b[k].d() + c[k].d() * q0[*i])
        .collect();
    let fn_: f64 = f.iter().map(|x| x * x).sum::<f64>().sqrt();
    let step: f64 = a.mov.iter().map(|i| (q_none[*i] - q0[*i]).abs()).sum::<f64>();
    let qmax = q0.iter().fold(0.0f64, |x, y| x.max(y.abs()));
    let cond = hi / lo;
    let sz = 40.0 * a.w.tol(a.end()) * a.reach(&q0).max(1.0);
    // the singular value decomposition is not exact to the last digits
    let tol = sz * cond * cond * (fn_ + step + 1.0)
        + 4.0 * T::EPS * qmax
        + (fn_ + step) * if T::F32 { 1e-3 } else { 1e-6 };
    let want: Vec<f64> = if redundant {
        let inv = match pinv(&j) {
            Some(x) => x,
            None => harness_error("pseudo inverse".into()),
        };
        let jf = mat_vec(&j, &f);
        let back = mat_vec(&inv, &jf);
        f.iter().zip(&back).map(|(x, y)| m * (x - y)).collect()
    } else {
        vec![0.0; f.len()]
    };
    for (k, i) in free.iter().enumerate() {
        let got = q_f[*i] - q_none[*i];
        if !((got - want[k]).abs() <= tol) {
            violation(format!(
                "the null space function displaced joint {} by {} instead of {} (function {:?}, multiplier {}, constraints {:?}, ignored {:?}, tolerance {:e})",
                i, got, want[k], f, m, mask, ignored, tol
            ));
        }
    }
    if redundant {
        if calls.is_empty() {
            violation("the null space function of a redundant arm was not called".into());
        }
        if want.iter().any(|x| x.abs() > 10.0 * tol) {
            cx.hit("displacements larger than 10 tolerances");
            cx.nontrivial();
        }
        cx.hit("redundant arms");
        if !ignored.is_empty() {
            cx.hit("redundant arms with ignored joints");
        }
    } else {
        cx.hit("arms without redundancy");
    }
    // to first order the pose is not affected
    let d: Vec<f64> = free.iter().map(|i| q_f[*i] - q_none[*i]).collect();
    for x in mat_vec(&j, &d) {
        if !(x.abs() <= tol * hi * (d.len() as f64)) {
            violation(format!("the null space function moves the constrained end pose by {}", x));
        }
    }
    // functions which do nothing
    sol.set_nullspace_function(Box::new(move |_| vec![T::of(0.0); n]));
    let q_zero = run(cx, &sol, "with a zero null space function");
    sol.clear_nullspace_function();
    let q_clear = run(cx, &sol, "with a cleared null space function");
    for i in &a.mov {
        if !((q_zero[*i] - q_none[*i]).abs() <= tol) {
            violation(format!(
                "a zero null space function moves joint {} to {} instead of {}",
                i, q_zero[*i], q_none[*i]
            ));
        }
        if !((q_clear[*i] - q_none[*i]).abs() <= tol) {
            violation(format!(
                "a cleared null space function moves joint {} to {} instead of {}",
                i, q_clear[*i], q_none[*i]
            ));
        }
    }
    // several tries: the function sees where the arm is in each of them
    if redundant && cx.rng.p(0.4) {
        a.restore(&p0);
        let nodes = a.s.iter().cloned().collect::<Vec<_>>();
        let shared = Chain::from_nodes(nodes);
        let seen: Arc<Mutex<(usize, usize)>> = Arc::new(Mutex::new((0, 0)));
        let s2 = seen.clone();
        let bs: Vec<T> = b.iter().map(|x| *x * T::of(0.01)).collect();
        sol.set_nullspace_function(Box::new(move |q| {
            let now = shared.joint_positions();
            let mut s = s2.lock().unwrap();
            s.0 += 1;
            if now.iter().map(|x| x.bits()).eq(q.iter().map(|x| x.bits())) {
                s.1 += 1;
            }
            bs.clone()
        }));
        sol.num_max_try = cx.rng.range(2, 8);
        sol.allowable_target_distance = T::of(1e-6);
        sol.allowable_target_angle = T::of(1e-6);
        let _ = solve(cx, &sol, &a, &p);
        let s = *seen.lock().unwrap();
        if s.0 != s.1 {
            violation(format!(
                "the null space function was not given the current joint positions in {} of {} calls",
                s.0 - s.1,
                s.0
            ));
        }
        cx.count("null space function calls in several tries", s.0 as u64);
    }
    // and displaces it in each of them
    if redundant && cx.rng.p(0.3) {
        let calls: Arc<Mutex<Vec<Vec<T>>>> = Arc::new(Mutex::new(vec![]));
        let l2 = calls.clone();
        // values which depend on the positions
        let scale = cx.rng.f(0.3, 1.0) / amp.max(0.5);
        let b: Vec<T> = b.iter().map(|x| T::of(x.d() * scale)).collect();
        let c: Vec<T> = (0..n).map(|_| T::of(cx.rng.f(-0.5, 0.5))).collect();
        let (b2, c2) = (b.clone(), c.clone());
        let func = move |q: &[T]| -> Vec<T> { (0..b2.len()).map(|i| b2[i] + c2[i] * q[i]).collect() };
        let f2 = func.clone();
        sol.set_nullspace_function(Box::new(move |q| {
            l2.lock().unwrap().push(q.to_vec());
            f2(q)
        }));
        let tries = cx.rng.range(2, 6);
        sol.num_max_try = tries;
        sol.allowable_target_distance = T::of(0.0);
        sol.allowable_target_angle = T::of(0.0);
        a.restore(&p0);
        let r = solve(cx, &sol, &a, &p);
        if !matches!(r, Err(Error::NotConvergedError { .. })) {
            cx.hit("several tries: not judged");
            return;
        }
        let calls = calls.lock().unwrap().clone();
        sol.clear_nullspace_function();
        sol.num_max_try = 1;
        sol.allowable_target_distance = T::big();
        sol.allowable_target_angle = T::big();
        let mut cur: Vec<T> = a.mov.iter().map(|i| p0[*i].unwrap()).collect();
        for k in 1..tries {
            // one step from here without the function
            a.restore(&p0);
            for (i, x) in a.mov.iter().zip(&cur) {
                a.w.nodes[*i].set_joint_position_unchecked(*x);
            }
            let q = a.w.positions();
            let (j, free) = a.jac(&q, &mask, &ignored);
            let (lo, hi) = sv_minmax(&j);
            if !(lo > 0.05 && lo > hi * 0.04) || !library_svd_is_accurate(&a, &mask, &ignored, &j) {
                cx.hit("several tries: passes a badly conditioned position");
                break;
            }
            if let Err(e) = solve(cx, &sol, &a, &p) {
                violation(format!("one try of IK without null space function failed: {}", e));
            }
            let q_none = a.w.positions();
            let f: Vec<f64> = func(&cur)
                .iter()
                .zip(&a.mov)
                .filter(|(_, i)| !ignored.contains(i))
                .map(|(x, _)| x.d())
                .collect();
            let inv = match pinv(&j) {
                Some(x) => x,
                None => harness_error("pseudo inverse".into()),
            };
            let back = mat_vec(&inv, &mat_vec(&j, &f));
            let mut want = q_none.clone();
            for (x, i) in free.iter().enumerate() {
                want[*i] += m * (f[x] - back[x]);
            }
            let fn_ = f.iter().map(|x| x * x).sum::<f64>().sqrt();
            let step: f64 = a.mov.iter().map(|i| (q_none[*i] - q[*i]).abs()).sum();
            let qmax = q.iter().fold(0.0f64, |x, y| x.max(y.abs()));
            let cond = hi / lo;
            let tol = 40.0 * a.w.tol(a.end()) * a.reach(&q).max(1.0) * cond * cond * (fn_ + step + 1.0)
                + 4.0 * T::EPS * qmax
                + (fn_ + step) * if T::F32 { 2e-3 } else { 1e-5 };
            let far = |c: &Vec<T>| {
                c.iter().zip(&a.mov).map(|(x, i)| (x.d() - want[*i]).abs()).fold(0.0, f64::max)
            };
            let best = calls.iter().min_by(|x, y| far(x).total_cmp(&far(y)));
            match best {
                Some(c) if far(c) <= tol => cur = c.clone(),
                _ => violation(format!(
                    "in try {} of {} the null space function was not given the positions {:?} to which the projection of its values {:?} leads, but {:?} (tolerance {:e}, constraints {:?}, ignored {:?})",
                    k + 1,
                    tries,
                    a.mov.iter().map(|i| want[*i]).collect::<Vec<_>>(),
                    f,
                    best,
                    tol,
                    mask,
                    ignored
                )),
            }
            cx.hit("tries after the first compared");
        }
    }
}
pub fn p11(cx: &mut Cx) {
    both(cx, p11_t::<f64>, p11_t::<f32>)
}

// ------------------------------------------------------------------ P24

#[derive(Clone)]
enum NullKind {
    None,
    Const,
    Reference,
    Scaled,
}

/// the settings of a solver, from which equal ones can be made
#[derive(Clone)]
struct Settings<T: Sc> {
    d: T,
    a: T,
    m: T,
    tries: usize,
    null: NullKind,
    v: Vec<T>,
    w: Vec<T>,
}

impl<T: Sc> Settings<T> {
    fn make(&self) -> JacobianIkSolver<T> {
        let mut s = JacobianIkSolver::new(self.d, self.a, self.m, self.tries);
        let (v, w) = (self.v.clone(), self.w.clone());
        match self.null {
            NullKind::None => {}
            NullKind::Const => s.set_nullspace_function(Box::new(move |_| v.clone())),
            NullKind::Reference => {
                s.set_nullspace_function(Box::new(k::create_reference_positions_nullspace_function(v, w)))
            }
            NullKind::Scaled => s.set_nullspace_function(Box::new(move |q| {
                q.iter().zip(&w).map(|(a, b)| *a * *b).collect()
            })),
        }
        s
    }
}

fn outcome(r: &Result<(), Error>) -> String {
    match r {
        Ok(()) => "Ok".into(),
        Err(e) => format!("{:?}", e),
    }
}

/// A solver which is not one of the crate; the second field tells that the constraints are the default ones
struct Own<'a, T: Sc>(&'a JacobianIkSolver<T>, bool);
impl<T: Sc> InverseKinematicsSolver<T> for Own<'_, T> {
    fn solve_with_constraints(
        &self,
        arm: &SerialChain<T>,
        target: &k::Isometry3<T>,
        c: &Constraints,
    ) -> Result<(), Error> {
        if self.1
            && !(c.position_x && c.position_y && c.position_z && c.rotation_x && c.rotation_y && c.rotation_z
                && c.ignored_joint_names.is_empty())
        {
            violation(format!("solve() uses the constraints {:?}", c));
        }
        self.0.solve_with_constraints(arm, target, c)
    }
}

fn p24_t<T: Sc>(cx: &mut Cx) {
    let legal = cx.rng.p(0.7);
    let a = gen_arm::<T>(
        cx,
        ArmOpt {
            max: if cx.rng.clone().p(0.03) { 24 } else { 10 },
            limits: *cx.rng.clone().pick(&[0.0, 0.3, 0.9]),
            legal,
            wild: cx.rng.clone().p(0.1),
            fixed: 0.15,
            linear: 0.2,
        },
    );
    let n = a.mov.len();
    let null = match cx.rng.below(8) {
        0 => NullKind::Const,
        1 => NullKind::Reference,
        2 => NullKind::Scaled,
        _ => NullKind::None,
    };
    let proto = gen_solver::<T>(cx);
    let set = Settings {
        d: proto.allowable_target_distance,
        a: proto.allowable_target_angle,
        m: proto.jacobian_multiplier,
        tries: proto.num_max_try,
        null,
        v: (0..n).map(|_| T::of(cx.rng.f(-0.3, 0.3))).collect(),
        w: (0..n).map(|_| T::of(cx.rng.f(-0.1, 0.1))).collect(),
    };
    let mut sol = set.make();
    let p0 = a.w.raw_positions();
    let root_path = a.w.path(a.end());
    let beside: Vec<usize> = (0..a.w.len())
        .filter(|i| !root_path.contains(i) && a.w.movable(*i))
        .collect();
    let bits = |c: &Chain<T>| -> Vec<u64> { c.joint_positions().iter().map(|x| x.bits()).collect() };
    for _ in 0..cx.rng.range(1, 2) {
        let mut mask = gen_mask(cx, n);
        if cx.rng.p(0.1) {
            mask = [true; 6];
        }
        let need = mask.iter().filter(|x| **x).count();
        let ignored = gen_ignored(cx, &a.mov, need);
        let mut ns = names(&a, &ignored);
        if cx.rng.p(0.03) {
            ns.push("no such joint".into());
        }
        let p = Problem {
            target: gen_target(cx, &a, 0.7),
            mask,
            cons: constraints(&mask, ns.clone()),
            ignored,
            bad_name: false,
            finite: true,
        };
        count_mask(cx, &mask);
        a.restore(&p0);
        let first = outcome(&solve(cx, &sol, &a, &p));
        let want = bits(&a.s);
        if first == "Ok" {
            cx.hit("successes repeated");
            if want != a.mov.iter().map(|i| p0[*i].unwrap().bits()).collect::<Vec<_>>() {
                cx.hit("successes which moved joints, repeated");
                cx.nontrivial();
            }
        } else {
            cx.hit("failures repeated");
        }
        for _ in 0..cx.rng.range(2, 5) {
            let how = cx.rng.below(14);
            // leave the arm somewhere else, or where the solver put it, before it is put back
            if cx.rng.p(0.5) {
                for i in &a.mov {
                    let x = gen_pos(&mut cx.rng, a.w.s.n[*i].kind, false);
                    a.w.nodes[*i].set_joint_position_unchecked(T::of(x));
                }
                if cx.rng.p(0.5) {
                    Chain::from_root(a.w.nodes[0].clone()).update_transforms();
                }
            }
            let (res, got, what): (Result<(), Error>, Vec<u64>, &'static str) = match how {
                0 | 1 => {
                    if cx.rng.p(0.002) {
                        // many more times
                        for _ in 0..270 {
                            a.restore(&p0);
                            let _ = sol.solve_with_constraints(&a.s, &p.target, &p.cons);
                        }
                        cx.hit("after 270 further calls");
                    }
                    a.restore(&p0);
                    if cx.rng.p(0.5) {
                        // by a user's own kind of solver, which only has the method with constraints
                        let own = Own(&sol, mask == [true; 6] && ns.is_empty());
                        let own: &dyn InverseKinematicsSolver<T> = &own;
                        let r = if mask == [true; 6] && ns.is_empty() {
                            cx.hit("solve() of a user's own kind of solver");
                            own.solve(&a.s, &p.target)
                        } else {
                            own.solve_with_constraints(&a.s, &p.target, &p.cons)
                        };
                        (r, bits(&a.s), "through the trait")
                    } else {
                        let r = sol.solve_with_constraints(&a.s, &p.target, &p.cons);
                        (r, bits(&a.s), "again")
                    }
                }
                2 => {
                    a.restore(&p0);
                    let r = set.make().solve_with_constraints(&a.s, &p.target, &p.cons);
                    (r, bits(&a.s), "with a new solver")
                }
                3 => {
                    a.restore(&p0);
                    let s = SerialChain::from_end_to_root(&a.w.nodes[a.end()], &a.w.nodes[a.idx[0]]);
                    let r = sol.solve_with_constraints(&s, &p.target, &p.cons);
                    (r, bits(&s), "through another chain on the same joints")
                }
                4 => {
                    a.restore(&p0);
                    let c = Chain::from_nodes(a.idx.iter().map(|i| a.w.nodes[*i].clone()).collect());
                    let s = SerialChain::new_unchecked(c);
                    let r = sol.solve_with_constraints(&s, &p.target, &p.cons);
                    (r, bits(&a.s), "through a chain made from a list of nodes")
                }
                5 | 6 => {
                    a.restore(&p0);
                    for _ in 0..cx.rng.range(1, 3) {
                        let (v, _, _, _) = gen_view(&a.w, &mut cx.rng);
                        match cx.rng.below(4) {
                            0 => {
                                v.c().update_transforms();
                            }
                            1 => {
                                v.c().update_velocities();
                            }
                            2 => v.c().update_link_transforms(),
                            _ => {
                                // forgets what was calculated
                                let i = cx.rng.below(a.w.len());
                                let o = a.w.nodes[i].origin();
                                a.w.nodes[i].set_origin(o);
                            }
                        }
                    }
                    let r = sol.solve_with_constraints(&a.s, &p.target, &p.cons);
                    (r, bits(&a.s), "after other updates")
                }
                7 => {
                    a.restore(&p0);
                    for i in &beside {
                        let x = gen_pos(&mut cx.rng, a.w.s.n[*i].kind, true);
                        a.w.nodes[*i].set_joint_position_unchecked(T::of(x));
                        a.w.nodes[*i].set_origin(gen_origin(&mut cx.rng));
                    }
                    let i = cx.rng.below(a.w.len());
                    a.w.nodes[i].set_link(Some(gen_link(&mut cx.rng, i)));
                    let r = sol.solve_with_constraints(&a.s, &p.target, &p.cons);
                    (r, bits(&a.s), "after joints beside the arm were moved")
                }
                8 => {
                    a.restore(&p0);
                    let whole = Chain::from_root(a.w.nodes[0].clone());
                    if cx.rng.p(0.5) {
                        whole.update_velocities();
                    }
                    let c = whole.clone();
                    let order = chain_idx(&a.w, &whole);
                    let node = |i: usize| {
                        let at = order.iter().position(|j| *j == i);
                        match at.and_then(|p| c.iter().nth(p)) {
                            Some(n) => n.clone(),
                            None => violation("a node is missing in the clone".into()),
                        }
                    };
                    let s = SerialChain::from_end_to_root(&node(a.end()), &node(a.idx[0]));
                    let r = sol.solve_with_constraints(&s, &p.target, &p.cons);
                    (r, bits(&s), "on a clone of the robot")
                }
                9 | 10 => {
                    let mut l = ns.clone();
                    if !l.is_empty() && cx.rng.p(0.5) {
                        let d = cx.rng.pick(&l).clone();
                        l.push(d);
                    }
                    cx.rng.shuffle(&mut l);
                    a.restore(&p0);
                    let r = sol.solve_with_constraints(&a.s, &p.target, &constraints(&mask, l));
                    (r, bits(&a.s), "with the ignored joints in another order")
                }
                11 => {
                    // something else in between, also a failure
                    a.restore(&p0);
                    let t = gen_target(cx, &a, 0.3);
                    let m2 = gen_mask(cx, n);
                    if cx.rng.p(0.5) {
                        // another robot with the same names in another order
                        let mut sp = Spec {
                            n: a.idx.iter().map(|i| a.w.s.n[*i].clone()).collect(),
                            order: (1..a.idx.len()).collect(),
                            mimic: vec![],
                        };
                        if cx.rng.p(0.5) {
                            cx.rng.shuffle(&mut sp.n);
                        } else {
                            let k = cx.rng.below(sp.n.len());
                            sp.n.rotate_left(k);
                        }
                        for (i, x) in sp.n.iter_mut().enumerate() {
                            x.parent = i.checked_sub(1);
                            if cx.rng.p(0.3) {
                                x.origin = gen_origin(&mut cx.rng);
                            }
                        }
                        let w2 = World::new(sp);
                        let s2 = SerialChain::from_end(&w2.nodes[w2.len() - 1]);
                        let m2 = if cx.rng.p(0.5) { mask } else { m2 };
                        let t2 = if cx.rng.p(0.5) { s2.end_transform() } else { t };
                        let _ = sol.solve_with_constraints(&s2, &t2, &constraints(&m2, ns.clone()));
                        cx.hit("after another robot was moved");
                    } else {
                        let _ = sol.solve_with_constraints(&a.s, &t, &constraints(&m2, vec![]));
                    }
                    a.restore(&p0);
                    let r = sol.solve_with_constraints(&a.s, &p.target, &p.cons);
                    (r, bits(&a.s), "after another problem was solved")
                }
                12 => {
                    a.restore(&p0);
                    let own = Shared(set.make());
                    let shared = Shared(&sol);
                    let r = std::thread::scope(|s| {
                        let (own, shared, a, p) = (&own, &shared, &a, &p);
                        s.spawn(move || {
                            let sol: &JacobianIkSolver<T> = if T::SOLVER_SYNC { shared.0 } else { &own.0 };
                            sol.solve_with_constraints(&a.s, &p.target, &p.cons)
                        })
                        .join()
                    });
                    match r {
                        Ok(r) => (r, bits(&a.s), "in another thread"),
                        Err(_) => violation("IK panicked in another thread".into()),
                    }
                }
                _ => {
                    // settings changed and set back
                    a.restore(&p0);
                    let (d, m) = (sol.allowable_target_distance, sol.jacobian_multiplier);
                    sol.allowable_target_distance = T::of(0.5);
                    sol.jacobian_multiplier = T::of(0.1);
                    sol.num_max_try = 2;
                    let _ = sol.solve_with_constraints(&a.s, &p.target, &p.cons);
                    if matches!(set.null, NullKind::None) && cx.rng.p(0.5) {
                        sol.set_nullspace_function(Box::new(move |_| vec![T::of(0.2); n]));
                        a.restore(&p0);
                        let _ = sol.solve_with_constraints(&a.s, &p.target, &p.cons);
                        sol.clear_nullspace_function();
                    }
                    sol.allowable_target_distance = d;
                    sol.jacobian_multiplier = m;
                    sol.num_max_try = set.tries;
                    a.restore(&p0);
                    let r = if mask == [true; 6] && ns.is_empty() {
                        sol.solve(&a.s, &p.target)
                    } else {
                        sol.solve_with_constraints(&a.s, &p.target, &p.cons)
                    };
                    (r, bits(&a.s), "after its settings were changed and set back")
                }
            };
            let res = outcome(&res);
            cx.t(|| format!("{}: {} {:x?}", what, res, got));
            if res != first || got != want {
                violation(format!(
                    "IK {} returned {} with positions {:x?} instead of {} with {:x?}",
                    what, res, got, first, want
                ));
            }
            cx.hit(what);
        }
    }
}
pub fn p24(cx: &mut Cx) {
    both(cx, p24_t::<f64>, p24_t::<f32>)
}
