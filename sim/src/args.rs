//! Operands. A call's operands are a pure function of (seed, profile, variant).
//! Variants of one seed collide on purpose: they differ from each other in one
//! entry, one bit, one sign, one operand, so that state keyed on less than the
//! complete operands shows.
use crate::elem::El;
use crate::rng::Rng;
use static_math::*;

pub const N: usize = 168;
pub const S: usize = 0;
pub const V: usize = 8;
pub const M: usize = 26;
pub const R: usize = 98;
pub const H: usize = 116;
pub const Q: usize = 148;
pub const D: usize = 160;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Arg {
    pub seed: u32,
    pub prof: u8,
    pub var: u8,
}
pub const NPROF: u8 = 10;
pub const NVAR: u8 = 15;
/// variants from here on are the operand with random relative errors of 2^-40
pub const NEAR: u8 = 64;

/// set in a seed: the comparisons of the call have wild (but consistent) outcomes
pub const WILD: u32 = 1 << 31;
pub fn wild(a: Arg) -> u64 {
    if a.seed & WILD != 0 {
        a.seed as u64
    } else {
        0
    }
}

#[derive(Clone)]
pub struct Raw {
    pub x: [f64; N],
    pub k: [u8; 8],
}

pub fn quat_rot(q: &[f64]) -> [[f64; 3]; 3] {
    let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
    [
        [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)],
        [2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x)],
        [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y)],
    ]
}
fn unit_quat(r: &mut Rng) -> [f64; 4] {
    loop {
        let q = [r.f(-1.0, 1.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0)];
        let n = (q.iter().map(|x| x * x).sum::<f64>()).sqrt();
        if n > 0.2 {
            return [q[0] / n, q[1] / n, q[2] / n, q[3] / n];
        }
    }
}
fn special_quat(r: &mut Rng) -> [f64; 4] {
    let h = core::f64::consts::FRAC_1_SQRT_2;
    let t = [
        [1.0, 0.0, 0.0, 0.0],
        [-1.0, 0.0, 0.0, 0.0],
        [0.0, 1.0, 0.0, 0.0],
        [0.0, 0.0, 1.0, 0.0],
        [0.0, 0.0, 0.0, 1.0],
        [h, h, 0.0, 0.0],
        [h, 0.0, h, 0.0],
        [h, 0.0, -h, 0.0],
        [h, 0.0, 0.0, h],
        [0.0, h, h, 0.0],
        [0.5, 0.5, 0.5, 0.5],
    ];
    *r.pick(&t)
}
/// fill the structured operands from unit quaternions and translations
fn structured(x: &mut [f64; N], qs: [[f64; 4]; 3], t: [[f64; 3]; 2]) {
    for i in 0..3 {
        x[Q + 4 * i..Q + 4 * i + 4].copy_from_slice(&qs[i]);
    }
    for i in 0..2 {
        let rot = quat_rot(&qs[i]);
        for a in 0..3 {
            for b in 0..3 {
                x[R + 9 * i + 3 * a + b] = rot[a][b];
                x[H + 16 * i + 4 * a + b] = rot[a][b];
            }
            x[H + 16 * i + 4 * a + 3] = t[i][a];
            x[H + 16 * i + 12 + a] = 0.0;
        }
        x[H + 16 * i + 15] = 1.0;
        // dual part 0.5 * t * q
        let q = qs[i];
        let (tx, ty, tz) = (t[i][0] * 0.5, t[i][1] * 0.5, t[i][2] * 0.5);
        let d = [
            -tx * q[1] - ty * q[2] - tz * q[3],
            tx * q[0] + ty * q[3] - tz * q[2],
            -tx * q[3] + ty * q[0] + tz * q[1],
            tx * q[2] - ty * q[1] + tz * q[0],
        ];
        x[D + 4 * i..D + 4 * i + 4].copy_from_slice(&d);
    }
}

/// operands with a structure that code may look for: diagonal, triangular, symmetric, permutation or
/// orthogonal matrices, equal, opposite, parallel or orthogonal pairs, rotations about an axis,
/// motions along or across their axis, many turns
/// (and, if `any`, of any size)
fn shapely(x: &mut [f64; N], r: &mut Rng, any: bool) {
    let whole = r.chance(1, 3);
    for e in x.iter_mut() {
        *e = r.f(-3.0, 3.0);
        if whole {
            *e = e.round();
        }
    }
    for m in 0..2 {
        let kind = r.below(14);
        let c = *r.pick(&[1.0, 1.0, -1.0, 2.0, 0.5, 1e-3, 3.7]);
        let top = 2 + r.us(5);
        let (s, t) = r.f(-PI, PI).sin_cos();
        let old: [f64; 36] = core::array::from_fn(|k| x[M + 36 * m + k]);
        for i in 0..6 {
            for j in 0..6 {
                let (a, b) = (old[6 * i + j], old[6 * j + i]);
                x[M + 36 * m + 6 * i + j] = match kind {
                    // a multiple of the identity, diagonal
                    0 => c * (i == j) as u8 as f64,
                    1 => a * (i == j) as u8 as f64,
                    // triangular, with ones on the diagonal or not
                    2 if i > j => 0.0,
                    3 if i < j => 0.0,
                    4 if i > j => 0.0,
                    4 if i == j => 1.0,
                    5 if i < j => 0.0,
                    5 if i == j => 1.0,
                    // symmetric, skew
                    6 if i > j => b,
                    7 if i > j => -b,
                    7 if i == j => 0.0,
                    // permutations: an exchange, a reversal at one size
                    8 => ((i < 2 && j == 1 - i) || (i >= 2 && i == j)) as u8 as f64,
                    9 => (if i < top { j == top - 1 - i } else { i == j }) as u8 as f64,
                    // a rotation in the plane of the first two axes
                    10 if i < 2 && j < 2 => {
                        if i == j {
                            t
                        } else if i < j {
                            -s
                        } else {
                            s
                        }
                    }
                    10 => (i == j) as u8 as f64,
                    // block diagonal, tridiagonal
                    11 if (i < 3) != (j < 3) => 0.0,
                    12 if i.abs_diff(j) > 1 => 0.0,
                    // all alike
                    13 => c,
                    _ => a,
                };
            }
        }
    }
    let rel = r.below(7);
    for i in 0..6 {
        for j in 0..6 {
            let (a, b) = (x[M + 6 * i + j], x[M + 6 * j + i]);
            let e = &mut x[M + 36 + 6 * i + j];
            match rel {
                0 => *e = a,
                1 => *e = -a,
                2 => *e = b,
                _ => {}
            }
        }
    }
    match r.below(4) {
        0 => {
            let k = r.us(6);
            for j in 0..6 {
                x[V + j] *= (j == k) as u8 as f64;
            }
        }
        1 => {
            let n = x[V..V + 3].iter().map(|v| v * v).sum::<f64>().sqrt();
            if n > 0.1 {
                x[V..V + 6].iter_mut().for_each(|v| *v /= n);
            }
        }
        _ => {}
    }
    let (c, k) = (r.f(-2.0, 2.0), r.below(7));
    for j in 0..6 {
        let a = x[V + j];
        match k {
            0 => x[V + 6 + j] = a,
            1 => x[V + 6 + j] = -a,
            2 => x[V + 6 + j] = c * a,
            3 => x[V + 6 + j] = if j % 2 == 0 { -x[V + j + 1] } else { x[V + j - 1] },
            _ => {}
        }
    }
    if k == 3 {
        x[V + 8] = 0.0;
    }
    let turn = [0.0, PI / 2.0, PI, 1.5 * PI, 2.0 * PI, 4.0 * PI, 7.5, 100.0, 1e4, 1e6];
    for i in 0..3 {
        x[S + i] = *r.pick(&turn) * *r.pick(&[1.0, -1.0]) + if r.chance(1, 2) { 0.0 } else { r.f(-0.5, 0.5) };
    }
    x[S + 3] = *r.pick(&[0.0, 1.0, 0.5, 0.25, -0.5, 1.5, 2.0, 0.9999]);
    let mut qs = [unit_quat(r), unit_quat(r), unit_quat(r)];
    for q in qs.iter_mut() {
        if r.chance(1, 3) {
            // about one of the axes
            let k = 1 + r.us(3);
            (1..4).filter(|i| *i != k).for_each(|i| q[i] = 0.0);
        }
        for _ in 0..r.below(3) {
            let k = r.us(4);
            if q.iter().enumerate().any(|(i, v)| i != k && v.abs() > 0.05) {
                q[k] = 0.0;
            }
        }
        let n = q.iter().map(|v| v * v).sum::<f64>().sqrt();
        q.iter_mut().for_each(|v| *v /= n);
    }
    let a = qs[0];
    match r.below(8) {
        0 => qs[1] = a,
        1 => qs[1] = a.map(|v| -v),
        2 => qs[1] = [a[0], -a[1], -a[2], -a[3]],
        3 => qs[1] = [-a[1], a[0], -a[3], a[2]],
        4 => {
            // another angle about the same axis
            let n = (a[1] * a[1] + a[2] * a[2] + a[3] * a[3]).sqrt();
            if n > 0.01 {
                let (s, c) = r.f(-PI, PI).sin_cos();
                qs[1] = [c, s * a[1] / n, s * a[2] / n, s * a[3] / n];
            }
        }
        _ => {}
    }
    if r.chance(1, 4) {
        let f = *r.pick(&[2.0, 0.5, 10.0, 1e-2]);
        qs[2].iter_mut().for_each(|v| *v *= f);
    }
    let mut t = [[0.0; 3]; 2];
    for i in 0..2 {
        let q = qs[i];
        let f = r.f(-2.0, 2.0);
        t[i] = match r.below(5) {
            0 => [0.0; 3],
            1 => [q[1] * f, q[2] * f, q[3] * f],
            2 => [q[2] * f, -q[1] * f, 0.0],
            3 => *r.pick(&[[f, 0.0, 0.0], [0.0, f, 0.0], [0.0, 0.0, f]]),
            _ => [r.f(-2.0, 2.0), r.f(-2.0, 2.0), r.f(-2.0, 2.0)],
        };
    }
    if any {
        let mut size = || 10f64.powf(r.f(-1.0, 1.0) * *r.pick(&[4.0, 15.0, 40.0, 150.0]));
        let (a, b) = (size(), size());
        x[V..V + 18].iter_mut().for_each(|e| *e *= a);
        x[M..M + 72].iter_mut().for_each(|e| *e *= b);
        for t in t.iter_mut() {
            let f = size();
            t.iter_mut().for_each(|e| *e *= f);
        }
        let f = size();
        qs[2].iter_mut().for_each(|e| *e *= f);
    }
    structured(x, qs, t);
}

const PI: f64 = core::f64::consts::PI;
pub fn raw(a: Arg) -> Raw {
    let mut r = Rng::derive((a.seed & !WILD) as u64, "arg", a.prof as u64);
    let mut x = [0.0f64; N];
    let angles = [0.0, PI / 2.0, -PI / 2.0, PI, -PI, PI / 4.0, PI / 6.0, 2.0 * PI, 1.0, 0.5];
    let t3 = |r: &mut Rng, m: f64| [r.f(-m, m), r.f(-m, m), r.f(-m, m)];
    match a.prof {
        0 | 3 | 7 | 8 | 11 | 12 | 13 => {
            for e in x.iter_mut() {
                *e = r.f(-3.0, 3.0);
            }
            let mut qs = [unit_quat(&mut r), unit_quat(&mut r), unit_quat(&mut r)];
            let mut t = [t3(&mut r, 2.0), t3(&mut r, 2.0)];
            for i in 0..3 {
                x[S + i] = r.f(-PI, PI);
            }
            x[S + 3] = r.unit();
            if a.prof == 3 {
                let eps = *r.pick(&[1e-3, 1e-6, 1e-9, 1e-12, 1e-16]);
                // singular and nearly singular matrices
                for m in 0..2 {
                    for j in 0..6 {
                        let base = x[M + 36 * m + j];
                        x[M + 36 * m + 6 + j] = base * (1.0 + eps * r.f(-1.0, 1.0));
                    }
                }
                for j in 0..6 {
                    x[V + j] *= eps;
                    x[V + 6 + j] = x[V + j] * (1.0 + eps);
                }
                if r.chance(1, 2) {
                    // a rotation by a tiny angle apart, on either side
                    let d = *r.pick(&[1e-3, 3e-4, 1e-5, 1e-7]);
                    let sg = if r.chance(1, 3) { -1.0 } else { 1.0 };
                    let mut n = 0.0;
                    for k in 0..4 {
                        qs[1][k] = sg * (qs[0][k] + d * r.f(-1.0, 1.0));
                        n += qs[1][k] * qs[1][k];
                    }
                    for k in 0..4 {
                        qs[1][k] /= n.sqrt();
                    }
                } else {
                    if r.chance(1, 2) {
                        qs[0] = [1.0, eps, -eps, eps];
                    }
                    for k in 0..4 {
                        qs[1][k] = qs[0][k] * if r.chance(1, 2) { 1.0 + eps } else { -1.0 };
                    }
                }
                t[0] = [eps, 0.0, -eps];
                x[S] *= eps;
                x[S + 1] = PI / 2.0 - eps;
            }
            if a.prof == 8 {
                let e = r.f(3.0, 9.0);
                for i in 0..M + 72 {
                    x[i] *= 10f64.powf(e);
                }
            }
            if a.prof == 11 {
                // rows and columns of very different sizes
                // (or one element much larger than the others)
                let one = r.chance(1, 2);
                for e in x[..M + 72].iter_mut() {
                    *e *= 10f64.powf(if one { 0.0 } else { r.f(-3.0, 3.0) });
                }
                if one {
                    let f = 10f64.powf(r.f(3.0, 6.0));
                    for m in 0..2 {
                        let top = 2 + r.us(5);
                        x[M + 36 * m + 6 * r.us(top) + r.us(top)] *= f;
                    }
                    for v in 0..3 {
                        let top = 2 + r.us(5);
                        x[V + 6 * v + r.us(top)] *= f;
                    }
                }
                for e in t.iter_mut().flatten() {
                    *e *= 10f64.powf(r.f(-3.0, 3.0));
                }
            }
            if a.prof == 12 {
                // small everything
                let f = 10f64.powf(r.f(-4.0, -1.0));
                for e in x[..M + 72].iter_mut() {
                    *e *= f;
                }
                for e in t.iter_mut().flatten() {
                    *e *= f;
                }
            }
            if a.prof == 13 {
                // rotations by a small angle, nearly half a turn or nearly a full one
                for q in qs.iter_mut() {
                    let n = (q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).sqrt();
                    let d = 10f64.powf(r.f(-2.0, -1.0));
                    let h = *r.pick(&[d, PI / 2.0 - d, PI / 2.0 + d, PI - d]);
                    q[0] = h.cos();
                    for k in 1..4 {
                        q[k] *= h.sin() / n;
                    }
                }
                for i in 0..3 {
                    x[S + i] = *r.pick(&[0.0, PI / 2.0, -PI / 2.0, PI, -PI]) + 10f64.powf(r.f(-2.0, -1.0));
                }
            }
            if a.prof != 7 {
                structured(&mut x, qs, t);
            }
            if a.prof == 11 && r.chance(1, 2) {
                for e in (Q..Q + 12).chain(D..D + 8) {
                    x[e] *= 10f64.powf(r.f(-3.0, 3.0));
                }
            }
        }
        14 | 15 => shapely(&mut x, &mut r, a.prof == 15),
        1 => {
            for e in x.iter_mut() {
                *e = r.range(-4, 4) as f64;
            }
            if r.chance(1, 2) {
                let qs = [special_quat(&mut r), special_quat(&mut r), special_quat(&mut r)];
                structured(&mut x, qs, [[1.0, 2.0, -3.0], [0.0, 1.0, 0.0]]);
            }
        }
        2 => {
            for e in x.iter_mut() {
                *e = *r.pick(&[0.0, 1.0, -1.0, 1.0, 0.5, 2.0]);
            }
            for i in 0..3 {
                x[S + i] = *r.pick(&angles);
            }
            x[S + 3] = *r.pick(&[0.0, 1.0, 0.5]);
            let qs = [special_quat(&mut r), special_quat(&mut r), special_quat(&mut r)];
            let t = *r.pick(&[[0.0, 0.0, 0.0], [0.0, 0.0, 1.0], [1.0, -2.0, 0.5]]);
            structured(&mut x, qs, [t, [0.0, 1.0, 0.0]]);
            for i in 0..3 {
                for j in 0..6 {
                    x[V + 6 * i + j] = if j == ((a.seed & !WILD) as usize + i) % 3 { 1.0 } else { 0.0 };
                }
            }
        }
        4 => {
            for e in x.iter_mut() {
                let m = 10f64.powf(r.f(-300.0, 300.0));
                *e = if r.chance(1, 2) { m } else { -m };
            }
            x[S + 3] = r.unit();
        }
        5 => {
            for e in x.iter_mut() {
                *e = r.f(-3.0, 3.0);
            }
            let qs = [unit_quat(&mut r), unit_quat(&mut r), unit_quat(&mut r)];
            let t = [t3(&mut r, 2.0), t3(&mut r, 2.0)];
            structured(&mut x, qs, t);
            let dens = *r.pick(&[4u64, 12, 40, 1]);
            let odd = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 5e-324, f64::MAX, f64::MIN_POSITIVE, 0.0];
            let only = if r.chance(1, 2) { Some(*r.pick(&odd)) } else { None };
            for e in x.iter_mut() {
                if r.chance(1, dens) {
                    *e = only.unwrap_or(*r.pick(&odd));
                }
            }
        }
        9 | 10 => {
            // exactly degenerate, a zero or repeated row or column: small integers,
            // or fractions so small that the determinant's rounding stays below epsilon
            for e in x.iter_mut() {
                *e = r.range(-4, 4) as f64;
            }
            if a.prof == 10 {
                for e in x[M..M + 72].iter_mut() {
                    *e = r.f(-0.2, 0.2);
                }
            }
            for m in 0..2 {
                let b = M + 36 * m;
                let top = 2 + r.us(5);
                let (i, j) = (r.us(top), r.us(top));
                let j = if i == j { (j + 1) % top } else { j };
                let zero = r.chance(1, 3);
                let col = r.chance(1, 3);
                for k in 0..6 {
                    let (d, s) = if col { (6 * k + j, 6 * k + i) } else { (6 * j + k, 6 * i + k) };
                    x[b + d] = if zero { 0.0 } else { x[b + s] };
                }
            }
            for i in 0..3 {
                if r.chance(1, 2) {
                    for k in 0..6 {
                        x[V + 6 * i + k] = if r.chance(1, 4) { -0.0 } else { 0.0 };
                    }
                }
                let w = *r.pick(&[0.0, 1.0, -1.0, 0.0, 3.0]);
                for k in 0..4 {
                    x[Q + 4 * i + k] = if k == 0 { w } else { 0.0 };
                }
            }
        }
        _ => {
            let mode = r.below(4);
            for e in x.iter_mut() {
                *e = match mode {
                    0 => 0.0,
                    1 => 1.0,
                    2 => r.below(2) as f64,
                    _ => -0.0,
                };
            }
        }
    }
    let mut k = [0u8; 8];
    for e in k.iter_mut() {
        *e = r.below(6) as u8;
    }
    let mut v = Rng::derive((a.seed & !WILD) as u64 ^ 0x55, "var", (a.prof as u64) << 8 | a.var as u64);
    let ulp = |f: f64| if f.is_finite() && f != 0.0 { f64::from_bits(f.to_bits() ^ 1) } else { f };
    match a.var {
        0 => {}
        1 => x.iter_mut().for_each(|e| *e = ulp(*e)),
        2 => x.iter_mut().for_each(|e| *e *= 1.0 + 1e-9),
        3 => x.iter_mut().for_each(|e| *e = -*e),
        4 => {
            // exchange first and second operands
            for (o, n) in [(V, 6), (M, 36), (R, 9), (H, 16), (Q, 4), (D, 4)] {
                for i in 0..n {
                    x.swap(o + i, o + n + i);
                }
            }
            x.swap(0, 1);
        }
        5 => {
            for m in 0..2 {
                for i in 0..6 {
                    for j in 0..i {
                        x.swap(M + 36 * m + 6 * i + j, M + 36 * m + 6 * j + i);
                    }
                }
                for i in 0..3 {
                    for j in 0..i {
                        x.swap(R + 9 * m + 3 * i + j, R + 9 * m + 3 * j + i);
                    }
                }
            }
        }
        6 => {
            // rotate the entries of every vector and row
            for (o, n, c) in [(V, 6, 3), (M, 6, 12), (Q, 4, 3), (S, 3, 1)] {
                for i in 0..c {
                    x[o + n * i..o + n * i + n].rotate_right(1);
                }
            }
        }
        7 => {
            // only the last entry of each operand differs, at every size
            for m in 0..2 {
                for n in 2..7 {
                    let i = M + 36 * m + 7 * (n - 1);
                    x[i] = x[i] * 0.5 + 0.25;
                }
            }
            for i in 0..3 {
                for n in 1..6 {
                    x[V + 6 * i + n] += 0.75;
                }
                x[Q + 4 * i + 3] = -x[Q + 4 * i + 3];
            }
            x[2] += 0.125;
            x[H + 11] += 1.0;
            x[H + 27] += 1.0;
        }
        8 => x.iter_mut().for_each(|e| *e *= 2.0),
        9 => x.iter_mut().for_each(|e| {
            if *e == 0.0 {
                *e = -*e
            }
        }),
        10 => {
            // only the second operand differs
            for (o, n) in [(V, 6), (M, 36), (R, 9), (H, 16), (Q, 4), (D, 4)] {
                for i in 0..n {
                    x[o + n + i] = -x[o + n + i] * 0.5;
                }
            }
            x[1] = -x[1] * 0.5;
        }
        11 => x.iter_mut().for_each(|e| *e *= 1.0 + 1e-4),
        12 => {
            let i = v.us(N);
            x[i] += 1.0;
        }
        13 => {
            // only an inner entry of each operand differs, the ends do not
            let d = if v.chance(1, 2) { 1.0 } else { 0.0625 };
            for m in 0..2 {
                x[M + 36 * m + 1] += d;
                x[R + 9 * m + 1] += d;
                x[H + 16 * m + 1] += d;
                x[D + 4 * m + 1] += d;
            }
            for i in 0..3 {
                x[V + 6 * i + 1] += d;
                x[Q + 4 * i + 1] += d;
            }
        }
        // every entry wrong by a relative error of at most 2^-40
        NEAR.. => x.iter_mut().for_each(|e| *e *= 1.0 + v.f(-1.0, 1.0) * 0.5f64.powi(40)),
        _ => {
            for i in 0..3 {
                x[i] += 0.25;
            }
            k.iter_mut().for_each(|e| *e = (*e + 1) % 6);
        }
    }
    Raw { x, k }
}

pub const SPOILS: u8 = 9;
/// one operand component replaced by a bad value
pub fn spoil(r: &mut Raw, i: usize, kind: u8) {
    let v = r.x[i % N];
    r.x[i % N] = match kind {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 0.0,
        4 => 1e300,
        5 => 1e-300,
        6 => v + 1.0,
        7 => -v,
        _ => v * 1e17 + 3.0,
    };
}

pub struct A<T> {
    pub x: [T; N],
    pub k: [u8; 8],
    pub ar: crate::place::Arena,
}
impl<T: El> A<T> {
    pub fn new(r: &Raw) -> A<T> {
        let mut x = [T::raw(0.0); N];
        for i in 0..N {
            x[i] = T::raw(r.x[i]);
        }
        A { x, k: r.k, ar: crate::place::Arena::new() }
    }
    /// an operand passed by reference lies where the run says
    pub fn at<V: Copy>(&self, v: V) -> &V {
        self.ar.put(v)
    }
    #[allow(clippy::mut_from_ref)]
    pub fn at_mut<V: Copy>(&self, v: V) -> &mut V {
        self.ar.put_mut(v)
    }
    pub fn sl(&self, v: &[T]) -> &[T] {
        self.ar.slice(v)
    }
    /// a long slice made of the matrix entries, in other sizes and signs
    #[allow(clippy::mut_from_ref)]
    pub fn long(&self, i: usize, n: usize) -> &mut [T] {
        const SCALE: [f64; 5] = [1.0, -0.5, 0.75, -1.25, 0.125];
        self.ar.fill(n, |j| T::raw(self.x[M + (36 * i + 7 * j + j / 72) % 72].to_f() * SCALE[j / 72 % 5]))
    }
    pub fn s(&self, i: usize) -> T {
        self.x[S + i]
    }
    pub fn arr<const L: usize>(&self, i: usize) -> [T; L] {
        core::array::from_fn(|j| self.x[V + 6 * i + j])
    }
    pub fn mat<const L: usize>(&self, i: usize) -> [[T; L]; L] {
        core::array::from_fn(|a| core::array::from_fn(|b| self.x[M + 36 * i + 6 * a + b]))
    }
    pub fn v2(&self, i: usize) -> V2<T> {
        V2::new(self.arr(i))
    }
    pub fn v3(&self, i: usize) -> V3<T> {
        V3::new(self.arr(i))
    }
    pub fn v4(&self, i: usize) -> V4<T> {
        V4::new(self.arr(i))
    }
    pub fn v5(&self, i: usize) -> V5<T> {
        V5::new(self.arr(i))
    }
    pub fn v6(&self, i: usize) -> V6<T> {
        V6::new(self.arr(i))
    }
    pub fn m22(&self, i: usize) -> M22<T> {
        M22::new(self.mat(i))
    }
    pub fn m33(&self, i: usize) -> M33<T> {
        M33::new(self.mat(i))
    }
    pub fn m44(&self, i: usize) -> M44<T> {
        M44::new(self.mat(i))
    }
    pub fn m55(&self, i: usize) -> M55<T> {
        M55::new(self.mat(i))
    }
    pub fn m66(&self, i: usize) -> M66<T> {
        M66::new(self.mat(i))
    }
    pub fn r(&self, i: usize) -> M33<T> {
        M33::new(core::array::from_fn(|a| core::array::from_fn(|b| self.x[R + 9 * i + 3 * a + b])))
    }
    pub fn h(&self, i: usize) -> M44<T> {
        M44::new(core::array::from_fn(|a| core::array::from_fn(|b| self.x[H + 16 * i + 4 * a + b])))
    }
    pub fn qa(&self, i: usize) -> [T; 4] {
        core::array::from_fn(|j| self.x[Q + 4 * i + j])
    }
    pub fn da(&self, i: usize) -> [T; 4] {
        core::array::from_fn(|j| self.x[D + 4 * i + j])
    }
    pub fn q(&self, i: usize) -> Quaternion<T> {
        let a = self.qa(i);
        Quaternion::new_from(a[0], a[1], a[2], a[3])
    }
    pub fn dq(&self, i: usize) -> DualQuaternion<T> {
        let d = self.da(i);
        DualQuaternion::new(self.q(i), Quaternion::new_from(d[0], d[1], d[2], d[3]))
    }
}
