//! Own f64 geometry, used as the reference. Nothing here calls nalgebra's algorithms.
pub type V3 = [f64; 3];
pub type M3 = [[f64; 3]; 3];
pub const I3: M3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pose {
    pub r: M3,
    pub p: V3,
}

pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale(a: V3, s: f64) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn norm(a: V3) -> f64 {
    dot(a, a).sqrt()
}
pub fn mv(m: &M3, v: V3) -> V3 {
    [dot(m[0], v), dot(m[1], v), dot(m[2], v)]
}
pub fn mm(a: &M3, b: &M3) -> M3 {
    let mut c = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            c[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j];
        }
    }
    c
}
pub fn tr(a: &M3) -> M3 {
    let mut c = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            c[i][j] = a[j][i];
        }
    }
    c
}
/// Rodrigues' formula, `axis` is a unit vector
pub fn axis_angle(axis: V3, ang: f64) -> M3 {
    let (s, c) = ang.sin_cos();
    let v = 1.0 - c;
    let [x, y, z] = axis;
    [
        [c + x * x * v, x * y * v - z * s, x * z * v + y * s],
        [y * x * v + z * s, c + y * y * v, y * z * v - x * s],
        [z * x * v - y * s, z * y * v + x * s, c + z * z * v],
    ]
}
/// fixed axis roll, pitch, yaw: Rz(yaw) Ry(pitch) Rx(roll)
pub fn rpy(a: V3) -> M3 {
    let rx = axis_angle([1.0, 0.0, 0.0], a[0]);
    let ry = axis_angle([0.0, 1.0, 0.0], a[1]);
    let rz = axis_angle([0.0, 0.0, 1.0], a[2]);
    mm(&rz, &mm(&ry, &rx))
}
pub fn from_quat(w: f64, x: f64, y: f64, z: f64) -> M3 {
    [
        [
            1.0 - 2.0 * (y * y + z * z),
            2.0 * (x * y - z * w),
            2.0 * (x * z + y * w),
        ],
        [
            2.0 * (x * y + z * w),
            1.0 - 2.0 * (x * x + z * z),
            2.0 * (y * z - x * w),
        ],
        [
            2.0 * (x * z - y * w),
            2.0 * (y * z + x * w),
            1.0 - 2.0 * (x * x + y * y),
        ],
    ]
}
/// rotation vector of a rotation matrix, |result| <= pi
pub fn log(m: &M3) -> V3 {
    // quaternion from the matrix by its largest component
    let t = [
        1.0 + m[0][0] + m[1][1] + m[2][2],
        1.0 + m[0][0] - m[1][1] - m[2][2],
        1.0 - m[0][0] + m[1][1] - m[2][2],
        1.0 - m[0][0] - m[1][1] + m[2][2],
    ];
    let mut k = 0;
    for i in 1..4 {
        if t[i] > t[k] {
            k = i;
        }
    }
    let q = match k {
        0 => [
            t[0],
            m[2][1] - m[1][2],
            m[0][2] - m[2][0],
            m[1][0] - m[0][1],
        ],
        1 => [
            m[2][1] - m[1][2],
            t[1],
            m[0][1] + m[1][0],
            m[0][2] + m[2][0],
        ],
        2 => [
            m[0][2] - m[2][0],
            m[0][1] + m[1][0],
            t[2],
            m[1][2] + m[2][1],
        ],
        _ => [
            m[1][0] - m[0][1],
            m[0][2] + m[2][0],
            m[1][2] + m[2][1],
            t[3],
        ],
    };
    let n = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).sqrt();
    let mut q = [q[0] / n, q[1] / n, q[2] / n, q[3] / n];
    if q[0] < 0.0 {
        q = [-q[0], -q[1], -q[2], -q[3]];
    }
    let v = [q[1], q[2], q[3]];
    let s = norm(v);
    if s < 1e-12 {
        return scale(v, 2.0);
    }
    scale(v, 2.0 * s.atan2(q[0]) / s)
}
pub fn mdiff(a: &M3, b: &M3) -> f64 {
    let mut d: f64 = 0.0;
    for i in 0..3 {
        for j in 0..3 {
            let e = (a[i][j] - b[i][j]).abs();
            if !(e <= d) {
                d = e;
            }
        }
    }
    d
}
pub fn vdiff(a: V3, b: V3) -> f64 {
    let mut d: f64 = 0.0;
    for i in 0..3 {
        let e = (a[i] - b[i]).abs();
        if !(e <= d) {
            d = e;
        }
    }
    d
}

impl Pose {
    pub const ID: Pose = Pose {
        r: I3,
        p: [0.0; 3],
    };
    pub fn mul(&self, o: &Pose) -> Pose {
        Pose {
            r: mm(&self.r, &o.r),
            p: add(self.p, mv(&self.r, o.p)),
        }
    }
    pub fn inv(&self) -> Pose {
        let r = tr(&self.r);
        Pose {
            r,
            p: scale(mv(&r, self.p), -1.0),
        }
    }
}

/// dense linear algebra on small matrices
pub type Mat = Vec<Vec<f64>>;

pub fn mat_mul(a: &Mat, b: &Mat) -> Mat {
    let n = a.len();
    let m = if b.is_empty() { 0 } else { b[0].len() };
    let k = b.len();
    let mut c = vec![vec![0.0; m]; n];
    for i in 0..n {
        for l in 0..k {
            for j in 0..m {
                c[i][j] += a[i][l] * b[l][j];
            }
        }
    }
    c
}
pub fn mat_t(a: &Mat) -> Mat {
    if a.is_empty() {
        return vec![];
    }
    (0..a[0].len())
        .map(|j| a.iter().map(|r| r[j]).collect())
        .collect()
}
pub fn mat_vec(a: &Mat, v: &[f64]) -> Vec<f64> {
    a.iter()
        .map(|r| r.iter().zip(v).map(|(x, y)| x * y).sum())
        .collect()
}
/// solve a x = b by Gaussian elimination with full pivoting of rows
pub fn solve(a: &Mat, b: &Mat) -> Option<Mat> {
    let n = a.len();
    let m = if b.is_empty() { 0 } else { b[0].len() };
    let mut a = a.clone();
    let mut b = b.clone();
    for c in 0..n {
        let mut p = c;
        for r in c + 1..n {
            if a[r][c].abs() > a[p][c].abs() {
                p = r;
            }
        }
        if a[p][c].abs() < 1e-300 {
            return None;
        }
        a.swap(p, c);
        b.swap(p, c);
        for r in 0..n {
            if r != c {
                let f = a[r][c] / a[c][c];
                if f != 0.0 {
                    for k in c..n {
                        let t = a[c][k];
                        a[r][k] -= f * t;
                    }
                    for k in 0..m {
                        let t = b[c][k];
                        b[r][k] -= f * t;
                    }
                }
            }
        }
    }
    for r in 0..n {
        for k in 0..m {
            b[r][k] /= a[r][r];
        }
    }
    Some(b)
}
/// eigenvalues of a symmetric matrix (Jacobi rotations), ascending
pub fn sym_eig(a: &Mat) -> Vec<f64> {
    let n = a.len();
    let mut a = a.clone();
    for _ in 0..60 {
        let mut off = 0.0;
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    off += a[i][j] * a[i][j];
                }
            }
        }
        if off < 1e-28 {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                if a[p][q].abs() < 1e-300 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
            }
        }
    }
    let mut e: Vec<f64> = (0..n).map(|i| a[i][i]).collect();
    e.sort_by(|x, y| x.total_cmp(y));
    e
}
/// (smallest, largest) singular value of a with rows <= columns
pub fn sv_minmax(a: &Mat) -> (f64, f64) {
    if a.is_empty() {
        return (1.0, 1.0);
    }
    let e = sym_eig(&mat_mul(a, &mat_t(a)));
    (
        e[0].max(0.0).sqrt(),
        e[e.len() - 1].max(0.0).sqrt(),
    )
}
/// pseudo inverse of a full row rank matrix
pub fn pinv(a: &Mat) -> Option<Mat> {
    let at = mat_t(a);
    let g = mat_mul(a, &at);
    let n = g.len();
    let id: Mat = (0..n)
        .map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect())
        .collect();
    Some(mat_mul(&at, &solve(&g, &id)?))
}
