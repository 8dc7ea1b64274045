//! Which components of its operands each component of a result depends on,
//! from the definitions of the operations (used by C22).
use crate::args::*;
use crate::model::{eval, has, Nu};
use std::ops::{Add, Mul, Neg, Sub};

/// a set of operand components
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Set([u64; 3]);
impl Set {
    pub const NONE: Set = Set([0; 3]);
    pub const ALL: Set = Set([!0; 3]);
    pub fn one(i: usize) -> Set {
        let mut s = Set::NONE;
        s.0[i / 64] |= 1 << (i % 64);
        s
    }
    pub fn has(self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 != 0
    }
    fn or(self, o: Set) -> Set {
        Set([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2]])
    }
}
macro_rules! bin { ($($t:ident $f:ident),*) => { $(impl $t for Set { type Output = Set; fn $f(self, o: Set) -> Set { self.or(o) } })* } }
bin!(Add add, Sub sub, Mul mul);
impl Neg for Set {
    type Output = Set;
    fn neg(self) -> Set {
        self
    }
}
impl std::iter::Sum for Set {
    fn sum<I: Iterator<Item = Set>>(i: I) -> Set {
        i.fold(Set::NONE, Set::or)
    }
}
impl Nu for Set {
    fn c(_: i64) -> Set {
        Set::NONE
    }
    fn abs(self) -> Set {
        self
    }
}

fn s(i: usize) -> Set {
    Set::one(S + i)
}
fn v(i: usize, j: usize) -> Set {
    Set::one(V + 6 * i + j)
}
fn m(k: usize, a: usize, b: usize) -> Set {
    Set::one(M + 36 * k + 6 * a + b)
}
fn all(x: impl IntoIterator<Item = Set>) -> Set {
    x.into_iter().sum()
}
fn grid(n: usize, f: impl Fn(usize, usize) -> Set) -> Vec<Set> {
    (0..n * n).map(|i| f(i / n, i % n)).collect()
}
/// per component of the result (in the order of the catalogue), what it depends
/// on; components beyond are not looked at
pub fn deps(name: &str, k: &[u8; 8]) -> Option<Vec<Set>> {
    if has(name) {
        return Some(eval(name, k, &Set::one));
    }
    let (f, op) = name.split_once('.').unwrap_or((name, ""));
    let n = f.as_bytes().get(1).map_or(0, |c| (*c).wrapping_sub(b'0') as usize);
    let none = Set::NONE;
    let r = |a: usize, b: usize| Set::one(R + 3 * a + b);
    let h = |a: usize, b: usize| Set::one(H + 4 * a + b);
    let q = |j: usize| Set::one(Q + j);
    let rot = || all((0..9).map(|i| h(i / 3, i % 3)));
    // rotation entries, translation entries, and the constant last row
    let rigid = |ro: &dyn Fn(usize, usize) -> Set, t: &dyn Fn(usize) -> Set| grid(4, |a, b| if a == 3 { none } else if b == 3 { t(a) } else { ro(a, b) });
    let vecs = f.len() == 2 && f.starts_with('v') && (2..=6).contains(&n);
    let mats = f.len() == 3 && f.starts_with('m') && (2..=6).contains(&n);
    Some(match (op, name) {
        ("from_index", _) if vecs => (0..n).chain(1..n).map(|j| v(0, j)).collect(),
        ("div", _) if vecs => (0..n).map(|j| v(0, j) + s(4)).collect(),
        ("div", _) if mats => grid(n, |a, b| m(0, a, b) + s(4)),
        ("from_index", _) if mats => grid(n, |a, b| m(0, a, b)).into_iter().chain(grid(n, |a, b| m(0, a, b))).collect(),
        ("as_vec" | "new_from_vecs" | "get_rows" | "for_each", _) if mats && (op != "as_vec" || n > 0) && op != "new_from_vecs" => grid(n, |a, b| m(0, a, b)),
        ("get_cols" | "transpose", _) if mats => grid(n, |a, b| m(0, b, a)),
        ("get_diagonal", _) if mats => (0..n).map(|a| m(0, a, a)).collect(),
        ("trace", _) if mats => vec![all((0..n).map(|a| m(0, a, a)))],
        (_, "m44.get_submatrix") => {
            let (i, j) = (k[0] as usize % 4, k[1] as usize % 4);
            grid(3, |a, b| m(0, a + (a >= i) as usize, b + (b >= j) as usize))
        }
        (_, "v.new_from") => [2, 3, 4, 5, 6, 4].iter().flat_map(|n| (0..*n).map(|j| v(0, j))).collect(),
        ("div", _) => return None,
        (_, "quat.divs") => (0..4).map(|j| q(j) + s(4)).collect(),
        (_, "quat.new") => {
            let w = |i: usize, j: usize| Set::one(Q + 4 * i + j);
            let mut o: Vec<Set> = (0..4).map(|j| w(0, j)).chain((0..4).map(|j| w(1, j))).chain((0..4).map(|j| v(0, j))).collect();
            o.extend([s(0), none, none, none, none, v(0, 0), v(0, 1), v(0, 2), s(1), v(1, 0), v(1, 1), v(1, 2)]);
            o
        }
        (_, "dq.to_rotation_translation") => {
            let qs = all((0..4).map(q));
            vec![qs; 9]
        }
        (_, "dq.to_homogeneous") => {
            let qs = all((0..4).map(q));
            rigid(&|_, _| qs, &|_| Set::ALL)
        }
        (_, "dq.new_from_translation") => vec![none, none, none, none, none, v(0, 0), v(0, 1), v(0, 2)],
        (_, "dq.new_from_rot_trans") => vec![all((0..4).map(q)); 4],
        (_, "dq.new_from_homogeneous") => vec![rot(); 4],
        (_, "dq.new_from_rotation_matrix") => {
            let x = all((0..9).map(|i| r(i / 3, i % 3)));
            vec![x, x, x, x, none, none, none, none]
        }
        (_, "tf.homogeneous_from_rotation") => rigid(&r, &|a| v(0, a)),
        (_, "tf.se3_from_parts") => rigid(&|a, b| m(0, a, b), &|a| v(0, a)),
        (_, "tf.se3_get_parts") => grid(3, |a, b| m(0, a, b)).into_iter().chain((0..3).map(|a| m(0, a, 3))).collect(),
        (_, "tf.homogeneous_from_quaternion") => rigid(&|_, _| all((0..4).map(q)), &|a| v(0, a)),
        (_, "tf.get_parts") => vec![rot(); 4].into_iter().chain((0..3).map(|a| h(a, 3))).collect(),
        (_, "tf.get_parts_raw") => grid(3, h).into_iter().chain((0..3).map(|a| h(a, 3))).collect(),
        (_, "tf.homogeneous_inverse") => {
            rigid(&|a, b| h(b, a), &|a| all((0..3).map(|j| h(j, a) + h(j, 3))))
        }
        (_, "tf.homogeneous_inverse_transform") => (0..3).map(|a| all((0..3).map(|j| h(j, a) + h(j, 3) + v(0, j)))).collect(),
        (_, "tf.rotation_inverse") => grid(3, |a, b| r(b, a)),
        (_, "tf.skew_from_vec") => grid(3, |a, b| if a == b { none } else { v(0, 3 - a - b) }),
        (_, "tf.skew_from_vec_aug") => return None,
        (_, "tf.translation") => {
            let (t2, t3) = ([s(0), s(1)], [s(0), s(1), s(2)]);
            let mut o = grid(3, |a, b| if b == 2 && a < 2 { t2[a] } else { none });
            o.extend(grid(4, |a, b| if b == 3 && a < 3 { t3[a] } else { none }));
            o
        }
        (_, "tf.adjoint") => grid(6, |a, b| match (a / 3, b / 3) {
            (0, 1) => none,
            (1, 0) => {
                let (a, b) = (a - 3, b);
                all((0..3).map(|j| h(j, b) + if j == a { none } else { h(3 - a - j, 3) }))
            }
            _ => h(a % 3, b % 3),
        }),
        ("m22" | "m33", _) if f == "left" => {
            let n = (op.as_bytes()[1] - b'0') as usize;
            grid(n, |a, b| m(0, a, b) + s(4))
        }
        ("v2" | "v3" | "v4" | "v5" | "v6", _) if f == "left" => (0..(op.as_bytes()[1] - b'0') as usize).map(|j| v(0, j) + s(4)).collect(),
        _ => return None,
    })
}
/// the operand components the operation looks at, as far as `deps` knows
pub fn read(d: &[Set]) -> Vec<usize> {
    let mut u = Set::NONE;
    for x in d {
        if *x != Set::ALL {
            u = u + *x;
        }
    }
    (0..N).filter(|i| u.has(*i)).collect()
}
