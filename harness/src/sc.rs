//! The two scalar types the crate is used with.
use crate::m3::*;
use k::nalgebra as na;

struct Asks<X>(std::marker::PhantomData<X>);
#[allow(dead_code)]
trait No {
    const SYNC: bool = false;
}
impl<X> No for Asks<X> {}
#[allow(dead_code)]
impl<X: Sync> Asks<X> {
    const SYNC: bool = true;
}

/// Shared between threads if it can be (see SOLVER_SYNC), whether the type says so or not.
pub struct Shared<X>(pub X);
unsafe impl<X> Sync for Shared<X> {}

pub trait Sc: k::RealField + k::SubsetOf<f64> + k::simba::scalar::SubsetOf<f64> {
    const EPS: f64;
    const F32: bool;
    const NAME: &'static str;
    /// the solver can be shared between threads
    const SOLVER_SYNC: bool;
    fn of(x: f64) -> Self;
    fn d(self) -> f64;
    fn bits(self) -> u64;
    fn next_up(self) -> Self;
    fn next_down(self) -> Self;
    fn nan() -> Self;
    fn inf() -> Self;
    fn tiny() -> Self;
    fn big() -> Self;
}

macro_rules! imp {
    ($t:ty, $n:expr, $is:expr) => {
        impl Sc for $t {
            const EPS: f64 = <$t>::EPSILON as f64;
            const F32: bool = $is;
            const NAME: &'static str = $n;
            const SOLVER_SYNC: bool = Asks::<k::JacobianIkSolver<$t>>::SYNC;
            fn of(x: f64) -> Self {
                x as $t
            }
            fn d(self) -> f64 {
                self as f64
            }
            fn bits(self) -> u64 {
                u64::from(self.to_bits())
            }
            fn next_up(self) -> Self {
                <$t>::next_up(self)
            }
            fn next_down(self) -> Self {
                <$t>::next_down(self)
            }
            fn nan() -> Self {
                <$t>::NAN
            }
            fn inf() -> Self {
                <$t>::INFINITY
            }
            fn tiny() -> Self {
                <$t>::from_bits(1)
            }
            fn big() -> Self {
                <$t>::MAX
            }
        }
    };
}
imp!(f32, "f32", true);
imp!(f64, "f64", false);

pub fn v3<T: Sc>(v: &na::Vector3<T>) -> V3 {
    [v[0].d(), v[1].d(), v[2].d()]
}
pub fn quat<T: Sc>(q: &na::UnitQuaternion<T>) -> [f64; 4] {
    [q.w.d(), q.i.d(), q.j.d(), q.k.d()]
}
pub fn pose<T: Sc>(t: &na::Isometry3<T>) -> Pose {
    let q = quat(&t.rotation);
    Pose {
        r: from_quat(q[0], q[1], q[2], q[3]),
        p: v3(&t.translation.vector),
    }
}
pub fn iso_bits<T: Sc>(t: &na::Isometry3<T>) -> [u64; 7] {
    [
        t.translation.vector[0].bits(),
        t.translation.vector[1].bits(),
        t.translation.vector[2].bits(),
        t.rotation.w.bits(),
        t.rotation.i.bits(),
        t.rotation.j.bits(),
        t.rotation.k.bits(),
    ]
}
