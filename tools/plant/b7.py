import os, importlib.util
s = importlib.util.spec_from_file_location('b5', os.path.dirname(os.path.abspath(__file__)) + '/b5.py'); b5 = importlib.util.module_from_spec(s); s.loader.exec_module(b5)
INT, HEAD, TR = b5.INT, b5.HEAD, b5.TR
BUGS = [
dict(id='c18-det-elim', property='C18', needs='a 3x3 matrix whose first element is small beside the others',
 breaks='M33::det eliminates with the first element as pivot, however small, and loses digits',
 edits=[('matrix3x3.rs', "    fn det(&self) -> T {\n        self[(0, 0)] * (self", """    fn det(&self) -> T {
        let pivot = self[(0, 0)];
        if pivot != T::zero() {
            // one elimination step and a 2x2 determinant: fewer multiplications
            let (f, g) = (self[(1, 0)] / pivot, self[(2, 0)] / pivot);
            let (a, b) = (self[(1, 1)] - f * self[(0, 1)], self[(1, 2)] - f * self[(0, 2)]);
            let (c, d) = (self[(2, 1)] - g * self[(0, 1)], self[(2, 2)] - g * self[(0, 2)]);
            return pivot * (a * d - b * c);
        }
        self[(0, 0)] * (self""")],
 demo=INT + """use static_math::traits::LinearAlgebra;
fn main() {
    for k in 0..14 { let e = 10f64.powi(-k); let m = M33::new([[e, 1.0, 2.0], [3.0, 4.0, 5.0], [6.0, 7.0, 9.0]]); let d = m.det(); let w = -3.0 + e; if ((d - w) / w).abs() > 1e-12 { fail(&format!("{} {} {}", e, d, w)) } }
}
"""),
dict(id='c18-slerp-late', property='C18', needs='slerp between ends less than a ten-thousandth apart, either way round',
 breaks='slerp keeps the trigonometric formula down to the machine epsilon, where the sine has no digits left',
 edits=[('quaternion.rs', "        if sin_half_theta.abs() < T::from(0.001).unwrap() {", "        if sin_half_theta.abs() < T::epsilon() {")],
 demo=HEAD + """
fn main() {
    for e in [1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 3e-8f64] { for s in [1.0, -1.0f64] { for t in [0.25, 0.5, 0.75] { for b in [0.3f64, 0.9, 1.7, 2.9] { for salt in 0..20 {
        let q = |x: f64, m: f64| { let (s, c) = x.sin_cos(); Quaternion::new_from(Y(c * m), Y(s * 0.6 * m), Y(s * 0.8 * m), Y(0.0)) };
        ROUGH.set((1.1e-16, salt));
        let r = Quaternion::slerp(q(b, 1.0), q(b + e, s), Y(t));
        ROUGH.set((0.0, 0));
        let w = q(b + e * t, 1.0);
        let d = (r.real().0 - w.real().0).abs().max((r.imag()[0].0 - w.imag()[0].0).abs());
        if !(d < 1e-4) { fail(&format!("{} {} {:?} {:?}", e, t, r.real().0, w.real().0)) }
    } } } } }
}
"""),
dict(id='c18-cayley', property='C18', needs='the inverse of a 3x3 matrix whose elements differ much in size',
 breaks='M33::inverse takes the adjugate from the characteristic polynomial, whose terms cancel',
 edits=[('matrix3x3.rs', """            let mut res = M33::zero();
            res[(0, 0)] = (self[(1, 1)] * self[(2, 2)] - self[(2, 1)] * self[(1, 2)]) * invdet;
            res[(0, 1)] = (self[(0, 2)] * self[(2, 1)] - self[(0, 1)] * self[(2, 2)]) * invdet;
            res[(0, 2)] = (self[(0, 1)] * self[(1, 2)] - self[(0, 2)] * self[(1, 1)]) * invdet;
            res[(1, 0)] = (self[(1, 2)] * self[(2, 0)] - self[(1, 0)] * self[(2, 2)]) * invdet;
            res[(1, 1)] = (self[(0, 0)] * self[(2, 2)] - self[(0, 2)] * self[(2, 0)]) * invdet;
            res[(1, 2)] = (self[(1, 0)] * self[(0, 2)] - self[(0, 0)] * self[(1, 2)]) * invdet;
            res[(2, 0)] = (self[(1, 0)] * self[(2, 1)] - self[(2, 0)] * self[(1, 1)]) * invdet;
            res[(2, 1)] = (self[(2, 0)] * self[(0, 1)] - self[(0, 0)] * self[(2, 1)]) * invdet;
            res[(2, 2)] = (self[(0, 0)] * self[(1, 1)] - self[(1, 0)] * self[(0, 1)]) * invdet;
            Some(res)""", """            // Cayley-Hamilton: the adjugate is A^2 - tr(A) A + (tr(A)^2 - tr(A^2)) / 2
            let one = T::one();
            let square = *self * *self;
            let tr = self.trace();
            let c = (tr * tr - square.trace()) / (one + one);
            Some((square - *self * tr + M33::identity() * c) * invdet)""")],
 demo=INT + """use static_math::traits::LinearAlgebra;
fn main() {
    for k in 0..7 { let s = 10f64.powi(k);
        let m = M33::new([[s, 1.0, 0.0], [0.0, 1.0 / s, 1.0], [1.0, 0.0, 1.0 / s]]);
        // det = s * (1/s^2) + 1 = 1 + 1/s
        let w = 1.0 / (s * s) / (1.0 + 1.0 / s);
        let r = m.inverse().unwrap();
        let big = s / (1.0 + 1.0 / s);
        if (r[(0, 0)] - w).abs() > 1e-12 * big { fail(&format!("{} {} {}", s, r[(0, 0)], w)) }
        let big = r[(1, 2)];
        if (big + s / (1.0 + 1.0 / s)).abs() > 1e-12 * s { fail(&format!("{} {}", s, big)) }
        let m = M33::new([[s, 0.0, 0.0], [0.0, 1.0 / s, 0.0], [0.0, 0.0, 1.0 / s]]);
        let r = m.inverse().unwrap();
        if (r[(1, 1)] - s).abs() > 1e-12 * s { fail(&format!("{} {}", s, r[(1, 1)])) }
    }
}
"""),
dict(id='c18-m44-block', property='C18', needs='the inverse of a 4x4 matrix whose leading 2x2 block is small or nearly singular beside the rest',
 breaks='M44::inverse is done by 2x2 blocks with the leading block as pivot whenever it has an inverse',
 edits=[('matrix4x4.rs', "        if !nearly_zero(det) {\n            let det_recip = det.recip();", """        if !nearly_zero(det) {
            // by blocks: half the work when the leading block has an inverse
            let block = |i: usize, j: usize| M22::new([[self[(i, j)], self[(i, j + 1)]], [self[(i + 1, j)], self[(i + 1, j + 1)]]]);
            let (b, c, d) = (block(0, 2), block(2, 0), block(2, 2));
            if let Some(ai) = block(0, 0).inverse() {
                if let Some(si) = (d - c * (ai * b)).inverse() {
                    let n = si * (c * ai);
                    let m = (ai * b) * si;
                    let p = ai + (ai * b) * n;
                    return Some(M44::new([
                        [p[(0, 0)], p[(0, 1)], -m[(0, 0)], -m[(0, 1)]],
                        [p[(1, 0)], p[(1, 1)], -m[(1, 0)], -m[(1, 1)]],
                        [-n[(0, 0)], -n[(0, 1)], si[(0, 0)], si[(0, 1)]],
                        [-n[(1, 0)], -n[(1, 1)], si[(1, 0)], si[(1, 1)]],
                    ]));
                }
            }
            let det_recip = det.recip();"""),
  ('matrix4x4.rs', "use crate::matrix3x3", "use crate::matrix2x2::M22;\nuse crate::matrix3x3")],
 demo=INT + """use static_math::traits::LinearAlgebra;
fn main() {
    for k in 1..13 { let e = 10f64.powi(-k);
        let m = M44::new([[e, 0.0, 1.0, 0.0], [0.0, e, 0.0, 1.0], [1.0, 0.0, 1.0, 0.0], [0.0, 1.0, 0.0, 1.0]]);
        let r = m.inverse().unwrap();
        let d = e - 1.0;
        let w = [[1.0, 0.0, -1.0, 0.0], [0.0, 1.0, 0.0, -1.0], [-1.0, 0.0, e, 0.0], [0.0, -1.0, 0.0, e]];
        for i in 0..4 { for j in 0..4 { if (r[(i, j)] * d - w[i][j]).abs() > 1e-11 * 2.0 { fail(&format!("{} {} {} {} {}", e, i, j, r[(i, j)], w[i][j] / d)) } } }
    }
}
"""),
]
