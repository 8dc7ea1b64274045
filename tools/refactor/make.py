#!/usr/bin/env python3
"""make.py REPO GROUP: rewrite functions of the tree at REPO without changing what they do.
Groups: see G below.  Used by tools/refactor/try.sh to show that the checks stay quiet."""
import sys, re
repo, group = sys.argv[1], sys.argv[2]
def fn(file, anchor, name, new):
    """replace the function `name` (attributes above it stay) that first follows `anchor`"""
    p = f'{repo}/src/{file}.rs'
    s = open(p).read()
    i = s.index(anchor)
    m = re.compile(r'(pub )?(const )?fn ' + name + r'\b').search(s, i)
    a = m.start()
    j = s.index('{', m.end())
    # a where clause or array type may precede the body: take the first brace at depth 0
    d, k = 0, j
    while True:
        if s[k] == '{': d += 1
        if s[k] == '}':
            d -= 1
            if d == 0: break
        k += 1
    s = s[:a] + new.strip() + s[k + 1:]
    open(p, 'w').write(s)
def sub(file, old, new, n=1):
    p = f'{repo}/src/{file}.rs'
    s = open(p).read()
    assert old in s, (file, old)
    open(p, 'w').write(s.replace(old, new, n))
def mats(f):
    for n in (2, 3, 4, 5, 6): f(n, f'matrix{n}x{n}', f'M{n}{n}', f'V{n}')
def vecs(f):
    for n in (2, 3, 4, 5, 6): f(n, f'vector{n}', f'V{n}')

def loops():
    """matrices and vectors: loops in place of written-out elements"""
    def m(n, f, M, V):
        for op, tr in (('+', 'Add'), ('-', 'Sub')):
            fn(f, f'impl<T: Num + Copy> {tr} for {M}<T>', tr.lower(), f"""fn {tr.lower()}(self, rhs: Self) -> Self {{
        let mut result = self;
        for i in 0..{n} {{
            for j in 0..{n} {{
                result[(i, j)] = self[(i, j)] {op} rhs[(i, j)];
            }}
        }}
        result
    }}""")
        fn(f, f'for {M}<T>', 'transpose', f"""fn transpose(&self) -> Self {{
        let mut t = *self;
        for i in 0..{n} {{
            for j in 0..{n} {{
                t[(j, i)] = self[(i, j)];
            }}
        }}
        t
    }}""")
        fn(f, f'for {M}<T>', 'trace', f"""fn trace(&self) -> T {{
        let mut sum = self[(0, 0)];
        for i in 1..{n} {{
            sum = sum + self[(i, i)];
        }}
        sum
    }}""")
    mats(m)
    def v(n, f, V):
        for op, tr in (('+', 'Add'), ('-', 'Sub')):
            fn(f, f'impl<T: Num + Copy> {tr} for {V}<T>', tr.lower(), f"""fn {tr.lower()}(self, rhs: Self) -> Self {{
        let mut out = self;
        for (o, r) in out.iter_mut().zip(rhs.iter()) {{
            *o = *o {op} *r;
        }}
        out
    }}""")
    vecs(v)
    sub('matrix4x4', "impl<T: Num + Copy> AddAssign for M44<T>", "impl<T: Num + Copy> AddAssign for M44<T>")
def helpers():
    """quaternions and dual quaternions: helpers extracted, statements reordered"""
    fn('quaternion', 'impl<T: Num + Copy> Quaternion<T>', 'abs2', """pub fn abs2(&self) -> T {
        let square = |x: T| x * x;
        let (w, v) = (square(self.q0), [square(self.q[0]), square(self.q[1]), square(self.q[2])]);
        w + v[0] + v[1] + v[2]
    }""")
    fn('quaternion', 'impl<T: Num + Copy> Quaternion<T>', 'to_rotation', """pub fn to_rotation(&self) -> M33<T> {
        let (w, [x, y, z]) = (self.q0, [self.q[0], self.q[1], self.q[2]]);
        let twice = |t: T| (T::one() + T::one()) * t;
        let (ww, xx, yy, zz) = (w * w, x * x, y * y, z * z);
        let off = |a: T, b: T, c: T| (twice(a * b) - twice(w * c), twice(a * b) + twice(w * c));
        let (xy0, xy1) = off(x, y, z);
        let (xz0, xz1) = off(x, z, y);
        let (yz0, yz1) = off(y, z, x);
        M33::new([
            [ww + xx - yy - zz, xy0, xz1],
            [xy1, ww - xx + yy - zz, yz0],
            [xz0, yz1, ww - xx - yy + zz],
        ])
    }""")
    fn('quaternion', 'impl<T: Num + Copy> Mul for Quaternion<T>', 'mul', """fn mul(self, rhs: Self) -> Self::Output {
        let (a, b) = (&self, &rhs);
        let row = |i: usize, j: usize, k: usize| a.q0 * b.q[i] + a.q[i] * b.q0 + (a.q[j] * b.q[k] - a.q[k] * b.q[j]);
        let real = a.q0 * b.q0 - (a.q[0] * b.q[0] + a.q[1] * b.q[1] + a.q[2] * b.q[2]);
        Self::new_from(real, row(0, 1, 2), row(1, 2, 0), row(2, 0, 1))
    }""")
    fn('quaternion', 'impl<T: Float> Quaternion<T>', 'normalize', """pub fn normalize(&self) -> Option<Self> {
        if self.normalized {
            return Some(*self);
        }
        let length = self.norm2();
        if nearly_zero(length) {
            return None;
        }
        let scaled = *self / length;
        Some(Self { normalized: true, ..scaled })
    }""")
    fn('quaternion', 'impl<T: Float> Quaternion<T>', 'exp', """pub fn exp(&self) -> Self {
        let n = self.abs_imag();
        let e = T::exp(self.q0);
        // the limit of sin(n) / n is one
        let sinc = if n > T::epsilon() { T::sin(n) / n } else { T::one() };
        let q = self.q * (e * sinc);
        let q0 = e * T::cos(n);
        Self { q0, q, normalized: self.norm2() < T::epsilon() }
    }""")
    fn('quaternion', 'impl<T: Float> Quaternion<T>', 'ln', """pub fn ln(&self) -> Self {
        let (unit, size) = self.normalize_a();
        let n = unit.abs_imag();
        let angle = n.atan2(unit.q0);
        let q = match n > T::epsilon() {
            true => unit.q * (angle / n),
            false => V3::new_from(angle, T::zero(), T::zero()),
        };
        Self::new(size.ln(), q)
    }""")
    fn('quaternion', 'impl<T: Float> Quaternion<T>', 'slerp', """pub fn slerp(a: Self, b: Self, t: T) -> Self {
        let one = T::one();
        let dot = a.dot(b);
        if dot.abs() >= one {
            return a;
        }
        // the shorter way round
        let (b, dot) = if dot < T::zero() { (b * -one, -dot) } else { (b, dot) };
        let sine = T::sqrt(one - dot * dot);
        let (wa, wb) = if sine.abs() < T::from(0.001).unwrap() {
            (one - t, t)
        } else {
            let angle = dot.acos();
            (((one - t) * angle).sin() / sine, (t * angle).sin() / sine)
        };
        Self::new(wa * a.q0 + wb * b.q0, a.q * wa + b.q * wb)
    }""")
    fn('dual_quaternion', 'impl<T: Float + Signed> DualQuaternion<T>', 'get_screw_parameters', """pub fn get_screw_parameters(&self) -> (V3<T>, V3<T>, T, T) {
        let one = T::one();
        let two = one + one;
        let t = self.get_translation();
        let theta = self.real().get_angle();
        if nearly_zero(theta) {
            return Self::slide(t, theta);
        }
        let half_theta = theta / two;
        let axis = self.real().imag() / half_theta.sin();
        let along = t * axis;
        let cot = one / half_theta.tan();
        let moment = ((t - axis * along) * cot + t.cross(axis)) * (one / two);
        (axis, moment, theta, along)
    }
    /// a translation without rotation
    fn slide(t: V3<T>, theta: T) -> (V3<T>, V3<T>, T, T) {
        let d = t.norm2();
        let l = if nearly_zero(d) { V3::zero() } else { t / d };
        let far = T::infinity();
        (l, V3::new_from(far, far, far), theta, d)
    }""")
    fn('dual_quaternion', 'impl<T: Num + Copy + Signed> DualQuaternion<T>', 'to_quaternion_translation', """pub fn to_quaternion_translation(&self) -> (Quaternion<T>, V3<T>) {
        (self.q_real, self.get_translation())
    }""")
    fn('dual_quaternion', 'impl<T: Num + Copy + Signed> DualQuaternion<T>', 'get_translation', """pub fn get_translation(&self) -> V3<T> {
        let back = self.q_real.conj();
        let doubled = self.q_dual * (T::one() + T::one());
        (doubled * back).imag()
    }""")
    fn('dual_quaternion', 'impl<T: Float + FloatConst + core::iter::Sum> DualQuaternion<T>', 'normalize', """pub fn normalize(&self) -> Option<Self> {
        if self.normalized {
            return Some(*self);
        }
        let n = self.q_real.norm2();
        if nearly_zero(n) {
            return None;
        }
        Some(Self { q_real: self.q_real / n, q_dual: self.q_dual / n, normalized: true })
    }""")
def motions():
    """transformations: helpers, other order of statements, match in place of if"""
    fn('transformations', '//', 'matrix_log', """pub fn matrix_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T> {
    let one = T::one();
    let two = one + one;
    let cosine = (r.trace() - one) / two;
    if cosine >= one {
        return M33::zeros();
    }
    if cosine <= -one {
        return half_turn_log(r);
    }
    let theta = cosine.acos();
    let scale = theta / two / theta.sin();
    let skew = *r - r.transpose();
    skew * scale
}
fn half_turn_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T> {
    let one = T::one();
    let two = one + one;
    let (v, d) = if !nearly_zero(one + r[(2, 2)]) {
        (V3::new_from(r[(0, 2)], r[(1, 2)], one + r[(2, 2)]), one + r[(2, 2)])
    } else if !nearly_zero(one + r[(1, 1)]) {
        (V3::new_from(r[(0, 1)], one + r[(1, 1)], r[(2, 1)]), one + r[(1, 1)])
    } else {
        (V3::new_from(one + r[(0, 0)], one + r[(1, 0)], r[(2, 0)]), one + r[(0, 0)])
    };
    let omega = v * (one / (two * d).sqrt());
    skew_from_vec(&(omega * T::PI()))
}""")
    fn('transformations', '//', 'rotation_to_euler', """pub fn rotation_to_euler<T: Float + FloatConst>(r: &M33<T>) -> (T, T, T) {
    let flat = (r[(0, 0)] * r[(0, 0)] + r[(1, 0)] * r[(1, 0)]).sqrt();
    let pitch = (-r[(2, 0)]).atan2(flat);
    let quarter = T::FRAC_PI_2();
    let near = |x: T| nearly_equal(pitch, x, T::epsilon());
    let (yay, roll) = if near(-quarter) {
        ((-r[(1, 2)]).atan2(-r[(0, 2)]), T::zero())
    } else if near(quarter) {
        (r[(1, 2)].atan2(r[(0, 2)]), T::zero())
    } else {
        let roll = r[(2, 1)].atan2(r[(2, 2)]);
        (r[(1, 0)].atan2(r[(0, 0)]), roll)
    };
    (yay, pitch, roll)
}""")
    fn('transformations', '//', 'matrix_exponential6', """pub fn matrix_exponential6<T: Float>(se3: &M44<T>) -> M44<T> {
    let zero = T::zero();
    let one = T::one();
    let (so3, v) = se3_get_parts(se3);
    let w = skew_to_vec(&so3);
    if nearly_zero(w.norm2()) {
        return m44_new!( one,  zero,  one, v[0];
                        zero,   one, zero, v[1];
                        zero,  zero,  one, v[2];
                        zero,  zero, zero, one);
    }
    let rotation = matrix_exponential(&so3);
    let theta = axis_angle(&w).1;
    let (s, c) = theta.sin_cos();
    let unit = so3 / theta;
    let square = unit * unit;
    let left = M33::identity() * theta + unit * (one - c) + square * (theta - s);
    homogeneous_from_rotation(&rotation, &(left * v / theta))
}""")
    fn('transformations', '//', 'adjoint', """pub fn adjoint<T: Float>(transform: &M44<T>) -> M66<T> {
    let (r, p) = get_parts_raw(transform);
    let mut blocks = [(r, 1), (r, 4), (skew_from_vec(&p) * r, 3)];
    blocks.reverse();
    let mut result = M66::zeros();
    for (m, b) in blocks.iter() {
        result.copy_elements_from(m, *b);
    }
    result
}""")
    fn('transformations', '//', 'homogeneous_inverse_transform', """pub fn homogeneous_inverse_transform<T>(r: &M44<T>, p: &V3<T>) -> V3<T>
where
    T: Float + core::iter::Sum + FloatConst + Signed,
{
    let d = *p - V3::new_from(r[(0, 3)], r[(1, 3)], r[(2, 3)]);
    let inverse = homogeneous_inverse(r);
    let q = inverse * V4::new_from(d[0], d[1], d[2], T::zero());
    V3::new_from(q[0], q[1], q[2])
}""")
    fn('transformations', '//', 'distance_to_manifold', """pub fn distance_to_manifold<T: Float + core::iter::Sum>(m: &M33<T>) -> T {
    let gap = || (*m * m.transpose() - M33::identity()).norm2();
    match m.det() > T::zero() {
        true => gap(),
        false => T::infinity(),
    }
}""")
def inverses():
    """determinants and inverses by other exact arrangements of the same sums"""
    fn('matrix3x3', 'for M33<T>', 'det', """fn det(&self) -> T {
        let minor = |a: usize, b: usize| self[(1, a)] * self[(2, b)] - self[(1, b)] * self[(2, a)];
        self[(0, 0)] * minor(1, 2) - self[(0, 1)] * minor(0, 2) + self[(0, 2)] * minor(0, 1)
    }""")
    fn('matrix3x3', 'for M33<T>', 'inverse', """fn inverse(&self) -> Option<Self> {
        let det = self.det();
        if nearly_zero(det) {
            return None;
        }
        let scale = det.recip();
        let mut res = M33::zero();
        for i in 0..3 {
            for j in 0..3 {
                // cyclic indices take care of the sign
                let (a, b, c, d) = ((j + 1) % 3, (j + 2) % 3, (i + 1) % 3, (i + 2) % 3);
                let cofactor = self[(a, c)] * self[(b, d)] - self[(a, d)] * self[(b, c)];
                res[(i, j)] = cofactor * scale;
            }
        }
        Some(res)
    }""")
    fn('matrix4x4', 'for M44<T>', 'inverse', """fn inverse(&self) -> Option<Self> {
        let det = self.det();
        if nearly_zero(det) {
            return None;
        }
        let scale = det.recip();
        let mut result = M44::zeros();
        for i in 0..4 {
            for j in 0..4 {
                let minor = self.get_submatrix((j, i)).det();
                result[(i, j)] = if (i + j) % 2 == 0 { minor } else { -minor } * scale;
            }
        }
        Some(result)
    }""")
    fn('matrix4x4', 'for M44<T>', 'det', """fn det(&self) -> T {
        // along the first row
        let mut sum = T::zero();
        for j in 0..4 {
            let term = self[(0, j)] * self.get_submatrix((0, j)).det();
            sum = if j % 2 == 0 { sum + term } else { sum - term };
        }
        sum
    }""")
    fn('matrix5x5', 'for M55<T>', 'det', """fn det(&self) -> T {
        let mut sum = T::zero();
        for j in 0..5 {
            let term = self[(0, j)] * self.get_submatrix((0, j)).det();
            sum = if j % 2 == 0 { sum + term } else { sum - term };
        }
        sum
    }""")
    for n in (3, 4, 5, 6):
        sub(f'matrix{n}x{n}', """        if !nearly_zero(self.det()) {
            let cols = self.get_cols();""", """        let det = self.det();
        let regular = !nearly_zero(det);
        if regular {
            let cols = self.get_cols();""")
def slices():
    """slices, mapping, copying, compound assignment and norms"""
    fn('slices_methods', '//', 'find_max_min', """pub fn find_max_min<T: core::cmp::PartialOrd + Copy>(slice: &[T]) -> MaxMin<T> {
    let first = slice[0];
    let mut result = MaxMin { max: (first, 0), min: (first, 0) };
    for (index, &element) in slice.iter().enumerate().skip(1) {
        if element < result.min.0 {
            result.min = (element, index);
        }
        if element > result.max.0 {
            result.max = (element, index);
        }
    }
    result
}""")
    fn('slices_methods', '//', 'norm2', """pub fn norm2<T: Float>(slice: &[T]) -> T {
    let mut sum = T::zero();
    for x in slice {
        sum = *x * *x + sum;
    }
    sum.sqrt()
}""")
    fn('slices_methods', '//', 'dot', """pub fn dot<T: Num + Copy + core::iter::Sum>(slice1: &[T], slice2: &[T]) -> T {
    assert!(slice1.len() == slice2.len());
    let products = (0..slice1.len()).map(|i| slice1[i] * slice2[i]);
    products.sum()
}""")
    fn('slices_methods', '//', 'normalize', """pub fn normalize<T: Float>(slice: &mut [T]) {
    let n = norm2(slice);
    for x in slice {
        *x = *x / n;
    }
}""")
    def m(n, f, M, V):
        if f'pub fn for_each' in open(f'{repo}/src/{f}.rs').read():
            fn(f, '//', 'for_each', """pub fn for_each(&self, f: impl Fn(T) -> T) -> Self {
        let mut out = *self;
        for row in out.iter_mut() {
            for x in row.iter_mut() {
                *x = f(*x);
            }
        }
        out
    }""")
    mats(m)
    def v(n, f, V):
        fn(f, '//', 'normalize', ("pub fn normalize(&mut self)" if 'pub fn normalize(&mut self)' in open(f'{repo}/src/{f}.rs').read() else "pub fn normalize(&self)") + """ -> Result<Self, VectorErrors> {
        let n = self.norm2();
        if n == T::zero() {
            return Err(VectorErrors::Norm2IsZero);
        }
        let mut unit = *self;
        unit.iter_mut().for_each(|x| *x = *x / n);
        Ok(unit)
    }""")
        for op, tr in (('+', 'AddAssign'), ('-', 'SubAssign')):
            name = {'AddAssign': 'add_assign', 'SubAssign': 'sub_assign'}[tr]
            fn(f, f'{tr} for {V}<T>', name, f"""fn {name}(&mut self, other: Self) {{
        let sum = *self {op} other;
        self.0 = sum.0;
    }}""")
    vecs(v)
G = dict(loops=loops, helpers=helpers, motions=motions, inverses=inverses, slices=slices)
for g in (G if group == 'all' else [group]):
    G[g]()
