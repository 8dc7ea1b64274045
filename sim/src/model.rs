//! Exact integer models (i128) of the polynomial operations, written from
//! their definitions.
use crate::args::Raw;
use crate::elem::to_int;

use std::ops::{Add, Mul, Neg, Sub};
/// what the models are evaluated in: exact integers, or the set of operand
/// components a value depends on
pub trait Nu: Copy + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Neg<Output = Self> + std::iter::Sum {
    fn c(v: i64) -> Self;
    fn abs(self) -> Self;
}
impl Nu for i128 {
    fn c(v: i64) -> i128 {
        v as i128
    }
    fn abs(self) -> i128 {
        i128::abs(self)
    }
}
type Mx<I> = Vec<Vec<I>>;
type Q<I> = [I; 4];
pub fn exact(name: &str, r: &Raw) -> Vec<i128> {
    eval(name, &r.k, &|i| to_int(r.x[i]) as i128)
}

struct X<'a, I>(&'a dyn Fn(usize) -> I);
impl<I: Nu> X<'_, I> {
    fn at(&self, i: usize) -> I {
        (self.0)(i)
    }
    fn s(&self, i: usize) -> I {
        self.at(i)
    }
    fn v(&self, i: usize, n: usize) -> Vec<I> {
        (0..n).map(|j| self.at(8 + 6 * i + j)).collect()
    }
    fn m(&self, i: usize, n: usize) -> Mx<I> {
        (0..n).map(|a| (0..n).map(|b| self.at(26 + 36 * i + 6 * a + b)).collect()).collect()
    }
    fn q(&self, i: usize) -> Q<I> {
        core::array::from_fn(|j| self.at(148 + 4 * i + j))
    }
    fn d(&self, i: usize) -> Q<I> {
        core::array::from_fn(|j| self.at(160 + 4 * i + j))
    }
}
fn zip<I: Nu>(a: &[I], b: &[I], f: fn(I, I) -> I) -> Vec<I> {
    a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect()
}
fn flat<I: Nu>(m: &Mx<I>) -> Vec<I> {
    m.iter().flatten().copied().collect()
}
fn dot<I: Nu>(a: &[I], b: &[I]) -> I {
    a.iter().zip(b).map(|(x, y)| *x * *y).sum()
}
fn cross<I: Nu>(a: &[I], b: &[I]) -> Vec<I> {
    vec![a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn qmul<I: Nu>(a: Q<I>, b: Q<I>) -> Q<I> {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
fn qc<I: Nu>(a: Q<I>) -> Q<I> {
    [a[0], -a[1], -a[2], -a[3]]
}
fn qa<I: Nu>(a: Q<I>, b: Q<I>) -> Q<I> {
    core::array::from_fn(|i| a[i] + b[i])
}
fn qs<I: Nu>(a: Q<I>, b: Q<I>) -> Q<I> {
    core::array::from_fn(|i| a[i] - b[i])
}
fn qk<I: Nu>(a: Q<I>, k: I) -> Q<I> {
    core::array::from_fn(|i| a[i] * k)
}
fn rot<I: Nu>(q: Q<I>) -> Mx<I> {
    let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
    vec![
        vec![w * w + x * x - y * y - z * z, I::c(2) * (x * y - w * z), I::c(2) * (x * z + w * y)],
        vec![I::c(2) * (x * y + w * z), w * w - x * x + y * y - z * z, I::c(2) * (y * z - w * x)],
        vec![I::c(2) * (x * z - w * y), I::c(2) * (y * z + w * x), w * w - x * x - y * y + z * z],
    ]
}
fn cat<I: Nu>(a: Q<I>, b: Q<I>) -> Vec<I> {
    [a, b].concat()
}
fn dmul<I: Nu>(a: (Q<I>, Q<I>), b: (Q<I>, Q<I>)) -> (Q<I>, Q<I>) {
    (qmul(a.0, b.0), qa(qmul(a.0, b.1), qmul(a.1, b.0)))
}
fn transl<I: Nu>(d: (Q<I>, Q<I>)) -> Vec<I> {
    qmul(qk(d.1, I::c(2)), qc(d.0))[1..].to_vec()
}

const VOPS: [&str; 8] = ["add", "sub", "add_assign", "sub_assign", "dot", "scale", "neg", "norm_l"];
const MOPS: [&str; 9] = ["add", "sub", "add_assign", "sub_assign", "mul", "scale", "neg", "mulvec", "vecmul"];
const OTHER: [&str; 24] = [
    "v3.cross", "slices.norm_l", "slices.dot", "quat.dot", "quat.abs2", "quat.to_rotation", "quat.add", "quat.sub", "quat.mul", "quat.scale",
    "quat.neg", "quat.conj", "quat.rotate", "dq.add", "dq.sub", "dq.mul", "dq.scale", "dq.neg", "dq.conj", "dq.conj_as_dual", "dq.conj_combined",
    "dq.norm", "dq.get_translation", "dq.transform_point",
];
fn dim(fam: &str) -> Option<(u8, usize)> {
    let b = fam.as_bytes();
    match b {
        [b'v', n @ b'2'..=b'6'] => Some((b'v', (n - b'0') as usize)),
        [b'm', n @ b'2'..=b'6', k] if k == n => Some((b'm', (n - b'0') as usize)),
        _ => None,
    }
}
pub fn has(name: &str) -> bool {
    let (f, m) = name.split_once('.').unwrap_or((name, ""));
    match dim(f) {
        Some((b'v', _)) => VOPS.contains(&m) || OTHER.contains(&name),
        Some((_, _)) => MOPS.contains(&m),
        None => OTHER.contains(&name),
    }
}
pub fn eval<I: Nu>(name: &str, k8: &[u8; 8], at: &dyn Fn(usize) -> I) -> Vec<I> {
    let x = X(at);
    let (f, m) = name.split_once('.').unwrap();
    if let Some((kind, n)) = dim(f) {
        if kind == b'v' {
            let (a, b, k) = (x.v(0, n), x.v(1, n), x.s(4));
            return match m {
                "add" | "add_assign" => zip(&a, &b, |p, q| p + q),
                "sub" | "sub_assign" => zip(&a, &b, |p, q| p - q),
                "dot" => vec![dot(&a, &b)],
                "scale" => a.iter().map(|p| *p * k).collect(),
                "neg" => a.iter().map(|p| -*p).collect(),
                "norm_l" => vec![a.iter().map(|p| p.abs()).sum()],
                _ => cross(&a, &b),
            };
        }
        let (a, b, k, v) = (x.m(0, n), x.m(1, n), x.s(4), x.v(0, n));
        return match m {
            "add" | "add_assign" => zip(&flat(&a), &flat(&b), |p, q| p + q),
            "sub" | "sub_assign" => zip(&flat(&a), &flat(&b), |p, q| p - q),
            "mul" => (0..n * n).map(|i| (0..n).map(|j| a[i / n][j] * b[j][i % n]).sum()).collect(),
            "scale" => flat(&a).iter().map(|p| *p * k).collect(),
            "neg" => flat(&a).iter().map(|p| -*p).collect(),
            "mulvec" => (0..n).map(|i| dot(&a[i], &v)).collect(),
            _ => (0..n).map(|j| (0..n).map(|i| v[i] * a[i][j]).sum()).collect(),
        };
    }
    let (p, q, k) = (x.q(0), x.q(1), x.s(4));
    let (dp, dq) = ((p, x.d(0)), (q, x.d(1)));
    match name {
        "slices.norm_l" => vec![x.v(0, 1 + k8[2] as usize).iter().map(|e| e.abs()).sum()],
        "slices.dot" => {
            let n = 1 + k8[3] as usize;
            vec![dot(&x.v(0, n), &x.v(1, n))]
        }
        "quat.dot" => vec![dot(&p, &q)],
        "quat.abs2" => vec![dot(&p, &p)],
        "quat.to_rotation" => flat(&rot(p)),
        "quat.add" => qa(p, q).to_vec(),
        "quat.sub" => qs(p, q).to_vec(),
        "quat.mul" => qmul(p, q).to_vec(),
        "quat.scale" => qk(p, k).to_vec(),
        "quat.neg" => qk(p, -I::c(1)).to_vec(),
        "quat.conj" => qc(p).to_vec(),
        "quat.rotate" => {
            // v + 2 w (u x v) + 2 u x (u x v)
            let (u, v) = (&p[1..], x.v(0, 3));
            let c = cross(u, &v);
            let cc = cross(u, &c);
            (0..3).map(|i| v[i] + I::c(2) * p[0] * c[i] + I::c(2) * cc[i]).collect()
        }
        "dq.add" => cat(qa(dp.0, dq.0), qa(dp.1, dq.1)),
        "dq.sub" => cat(qs(dp.0, dq.0), qs(dp.1, dq.1)),
        "dq.mul" => {
            let z = dmul(dp, dq);
            cat(z.0, z.1)
        }
        "dq.scale" => cat(qk(dp.0, k), qk(dp.1, k)),
        "dq.neg" => cat(qk(dp.0, -I::c(1)), qk(dp.1, -I::c(1))),
        "dq.conj" => cat(qc(dp.0), qc(dp.1)),
        "dq.conj_as_dual" => cat(dp.0, qk(dp.1, -I::c(1))),
        "dq.conj_combined" => cat(qc(dp.0), qk(qc(dp.1), -I::c(1))),
        "dq.norm" => {
            let z = dmul(dp, (qc(dp.0), qc(dp.1)));
            cat(z.0, z.1)
        }
        "dq.get_translation" => transl(dp),
        "dq.transform_point" => {
            let v = x.v(0, 3);
            let z = dmul(dmul(dp, ([I::c(1), I::c(0), I::c(0), I::c(0)], [I::c(0), v[0], v[1], v[2]])), (qc(dp.0), qc(dp.1)));
            z.1[1..].to_vec()
        }
        _ => vec![],
    }
}
