import os, importlib.util
s = importlib.util.spec_from_file_location('b1', os.path.dirname(os.path.abspath(__file__)) + '/b1.py'); b1 = importlib.util.module_from_spec(s); s.loader.exec_module(b1)
HEAD, H0 = b1.HEAD, b1.H0
INT = "use static_math::*;\n#[allow(dead_code)] fn fail(s: &str) -> ! { println!(\"FAIL {}\", s); std::process::exit(1) }\n"
BUGS = [
dict(id='c10-norm-max', property='C10',
 needs='a NaN that appears in the sum of squares of Quaternion::norm2',
 breaks='the sum is clamped from below with max, which replaces a NaN by zero',
 edits=[('quaternion.rs', "        self.dot(*self).sqrt()\n", "        // rounding must not push the argument below zero\n        self.dot(*self).max(T::zero()).sqrt()\n")],
 demo=HEAD + """
fn main() {
    let q = Quaternion::new_from(Y(0.5), Y(1.5), Y(-2.0), Y(0.25));
    let n = count(|| { q.norm2(); });
    for k in 0..n { EDIT.set(Some((k, f64::NAN))); let g = with_hook(|_| {}, || q.norm2()).0; EDIT.set(None);
        if g.is_finite() && (g - q.norm2().0).abs() > 1e-9 { fail(&format!("step {} gives {}", k, g)) } }
}
"""),
dict(id='c10-qr-zero', property='C10',
 needs='a NaN produced by one step of the norm inside a QR factorisation',
 breaks='normalize of a slice leaves the elements alone unless the norm compares greater than zero',
 edits=[('slices_methods.rs', "    let n = norm2(slice);\n    slice.iter_mut()", "    let n = norm2(slice);\n    // nothing to do for the zero slice\n    let n = if n > T::zero() {n} else {T::one()};\n    slice.iter_mut()")],
 demo=HEAD + """
fn main() {
    let a = M22::new([[Y(1.0), Y(2.0)], [Y(-3.0), Y(0.5)]]);
    let w = a.qr().unwrap();
    let n = count(|| { a.qr(); });
    for k in 0..n { EDIT.set(Some((k, f64::NAN))); let g = with_hook(|_| {}, || a.qr()); EDIT.set(None);
        if let Some((q, r)) = g {
            let v: Vec<f64> = q.as_vec().iter().chain(r.as_vec().iter()).map(|x| x.0).collect();
            let u: Vec<f64> = w.0.as_vec().iter().chain(w.1.as_vec().iter()).map(|x| x.0).collect();
            if v.iter().all(|x| x.is_finite()) && v.iter().zip(&u).any(|(a, b)| (a - b).abs() > 1e-6) { fail(&format!("step {} masked", k)) }
        } }
}
"""),
dict(id='c10-hominv', property='C10',
 needs='a NaN in the rotated translation of homogeneous_inverse',
 breaks='tiny components of the inverse translation are flushed with a comparison that a NaN fails',
 edits=[('transformations.rs', "    let p_new = -rot_new * p;\n    homogeneous_from_rotation(&rot_new, &p_new)", "    // flush the rounding noise\n    let p_new = (-rot_new * p).map_small();\n    homogeneous_from_rotation(&rot_new, &p_new)"),
  ('transformations.rs', "/// Get the inverse of the homogeneous transformation\n", """trait MapSmall {
    fn map_small(self) -> Self;
}

impl<T: Float> MapSmall for V3<T> {
    fn map_small(self) -> Self {
        let keep = |e: T| if e.abs() > T::epsilon() * T::epsilon() {e} else {T::zero()};
        V3::new_from(keep(self[0]), keep(self[1]), keep(self[2]))
    }
}

/// Get the inverse of the homogeneous transformation
""")],
 demo=HEAD + """
use static_math::transformations::homogeneous_inverse;
fn main() {
    let mut a = M44::<Y>::identity(); a[(0, 3)] = Y(2.0); a[(1, 3)] = Y(-1.0); a[(2, 3)] = Y(0.5); a[(0, 0)] = Y(0.0); a[(0, 1)] = Y(-1.0); a[(1, 0)] = Y(1.0); a[(1, 1)] = Y(0.0);
    let w: Vec<f64> = homogeneous_inverse(&a).as_vec().iter().map(|x| x.0).collect();
    let n = count(|| { homogeneous_inverse(&a); });
    for k in 0..n { EDIT.set(Some((k, f64::NAN))); let g = with_hook(|_| {}, || homogeneous_inverse(&a)); EDIT.set(None);
        let v: Vec<f64> = g.as_vec().iter().map(|x| x.0).collect();
        if v.iter().all(|x| x.is_finite()) && v.iter().zip(&w).any(|(a, b)| (a - b).abs() > 1e-6) { fail(&format!("step {} masked", k)) } }
}
"""),
dict(id='c11-minmax-unwrap', property='C11',
 needs='a NaN in the slice given to find_max_min or norm_inf',
 breaks='find_max_min unwraps partial_cmp',
 edits=[('slices_methods.rs', "        if element < min {", "        if element.partial_cmp(min).unwrap().is_lt() {")],
 demo=H0 + """
fn main() { std::panic::set_hook(Box::new(|_| {})); for x in [1.0, f64::INFINITY, f64::NAN] { if std::panic::catch_unwind(|| V4::new_from(0.5, x, 2.0, -1.0).norm_inf()).is_err() { fail("panics") } } }
"""),
dict(id='c11-axis', property='C11',
 needs='get_axis of a quaternion without rotation',
 breaks='get_axis lost its guard against a vanishing sine',
 edits=[('quaternion.rs', "        (s.abs() > T::epsilon()).then(|| qn.q / s)", "        (s.abs() >= T::zero()).then(|| qn.q / s)")],
 demo=H0 + """
fn main() { for q in [Quaternion::<f64>::one(), Quaternion::new_from(2.0, 0.0, 0.0, 0.0), Quaternion::rotation(1.0, &V3::x_axis())] { if let Some(a) = q.get_axis() { if !(a.norm2() > 0.9) { fail("axis of the identity") } } } }
"""),
dict(id='c11-qr55', property='C11',
 needs='M55::qr of a matrix with a repeated row',
 breaks='the singularity test of M55::qr became relative to the trace',
 edits=[('matrix5x5.rs', "    fn qr(&self) -> Option<(Self, Self)> {\n        if !nearly_zero(self.det()) {", "    fn qr(&self) -> Option<(Self, Self)> {\n        let det = self.det();\n        if det.is_normal() || !nearly_zero(self.trace() + det) {")],
 demo=H0 + """
fn main() { let m = M55::new([[1.0f64, 2.0, 0.0, 1.0, 3.0], [0.0, 1.0, 1.0, 0.0, 2.0], [1.0, 2.0, 0.0, 1.0, 3.0], [2.0, 0.0, 0.0, 1.0, 0.0], [0.0, 1.0, 0.0, 2.0, 1.0]]); if m.qr().is_some() { fail("singular") } if M55::<f64>::identity().qr().is_none() { fail("identity") } }
"""),
dict(id='c11-log-expect', property='C11',
 needs='matrix_exponential of a matrix whose rotation part overflows or is NaN in the norm',
 breaks='Quaternion::from_rotation converts through an optional root',
 edits=[('quaternion.rs', "                let t = one - m[(0, 0)] + m[(1, 1)] - m[(2, 2)];\n", "                let t = one - m[(0, 0)] + m[(1, 1)] - m[(2, 2)];\n                assert!(t > zero, \"the matrix is not a rotation\");\n")],
 demo=H0 + """
fn main() { std::panic::set_hook(Box::new(|_| {})); for x in [0.1f64, 3.0, 100.0, f64::NAN, f64::INFINITY] { for y in [0.2, -5.0, 1e9] { let m = M33::new([[x, 0.3, y], [0.1, y, 0.2], [0.1, 0.4, -0.5]]); if std::panic::catch_unwind(|| Quaternion::from_rotation(&m)).is_err() { fail("panics") } } } }
"""),
dict(id='c12-scale-flag', property='C12',
 needs='a normalised quaternion scaled by a factor, then normalised or inverted',
 breaks='quaternion times scalar keeps the normalised flag',
 edits=[('quaternion.rs', "q: self.q * rhs, normalized: false}", "q: self.q * rhs, normalized: self.normalized}")],
 demo=H0 + """
fn main() { let q = Quaternion::new_from(1.0f64, 2.0, 3.0, 4.0).normalize().unwrap() * 3.0; let n = q.normalize().unwrap(); if (n.norm2() - 1.0).abs() > 1e-9 { fail("not unit") } }
"""),
dict(id='c12-slerp-flag', property='C12',
 needs='slerp between ends one of which is not unit, then normalize',
 breaks='slerp marks its result as normalised',
 edits=[('quaternion.rs', "            result.q0 = aux1 * a.q0 - aux2 * b.q0;\n            result.q  = a.q * aux1 - b.q * aux2;\n        }\n        result\n", "            result.q0 = aux1 * a.q0 - aux2 * b.q0;\n            result.q  = a.q * aux1 - b.q * aux2;\n        }\n        // unit ends give a unit result\n        result.normalized = a.normalized || b.normalized;\n        result\n")],
 demo=H0 + """
fn main() { let a = Quaternion::rotation(0.4f64, &V3::x_axis()); let b = Quaternion::new_from(0.1, 0.7, 0.2, 0.1); let n = Quaternion::slerp(a, b, 0.6).normalize().unwrap(); if (n.norm2() - 1.0).abs() > 1e-9 { fail("not unit") } }
"""),
dict(id='c12-exp-flag', property='C12',
 needs='exp of a quaternion whose scalar part is tiny or negative, then inverse or normalize',
 breaks='exp marks its result as normalised whenever the scalar part is not above epsilon',
 edits=[('quaternion.rs', "normalized: self.norm2() < T::epsilon()}", "normalized: real < T::epsilon()}")],
 demo=H0 + """
fn main() { for r in [0.0f64, -0.7, -3.0, 0.5] { let q = Quaternion::new_from(r, 0.3, 0.1, -0.4).exp(); let n = q.normalize().unwrap(); if (n.norm2() - 1.0).abs() > 1e-9 { fail("not unit") } } }
"""),
dict(id='c12-dq-mul', property='C12',
 needs='a product of a normalised and a not normalised dual quaternion, then normalize or inverse',
 breaks='the product of dual quaternions inherits the flag of its left operand',
 edits=[('dual_quaternion.rs', "        let q_dual = self.q_real * rhs.q_dual + self.q_dual * rhs.q_real;\n        Self::new(q_real, q_dual)", "        let q_dual = self.q_real * rhs.q_dual + self.q_dual * rhs.q_real;\n        Self { q_real, q_dual, normalized: self.normalized }")],
 demo=H0 + """
fn main() { let a = DualQuaternion::new_from_translation(&V3::new_from(1.0f64, 2.0, 3.0)); let b = DualQuaternion::new(Quaternion::new_from(2.0, 0.0, 1.0, 0.0), Quaternion::new_from(0.0, 1.0, 0.0, 2.0)); let n = (a * b).normalize().unwrap(); if (n.real().norm2() - 1.0).abs() > 1e-9 { fail("not unit") } }
"""),
dict(id='c12-conj-part', property='C12',
 needs='conjugating the product of two quaternions of which exactly one is normalised, then normalize or inverse',
 breaks='products and conjugates cooperate: the product marks itself when the left operand is marked, and only conj keeps that mark',
 edits=[('quaternion.rs', "    pub fn conj(&self) -> Self {\n        Self::new(self.q0, -self.q)", "    pub fn conj(&self) -> Self {\n        // conjugation keeps the norm\n        Self { q0: self.q0, q: -self.q, normalized: self.normalized }"),
  ('quaternion.rs', "        let two = one + one;\n        let q_0 = ", "        let two = one + one;\n        let q_0 = ")][:1] + [('quaternion.rs', "        Self::new(self.q0 * rhs.q0  - self.q * rhs.q, rhs.q * self.q0 + self.q * rhs.q0 + self.q.cross(rhs.q))", "        let mut result = Self::new(self.q0 * rhs.q0  - self.q * rhs.q, rhs.q * self.q0 + self.q * rhs.q0 + self.q.cross(rhs.q));\n        // unit times unit is unit\n        result.normalized = self.normalized && (rhs.normalized || rhs.q0 == T::one());\n        result")],
 demo=H0 + """
fn main() { let a = Quaternion::rotation(0.4f64, &V3::x_axis()); let b = Quaternion::new_from(1.0, 2.0, 0.5, 0.0); let q = (a * b).conj().normalize().unwrap(); if (q.norm2() - 1.0).abs() > 1e-9 { fail("not unit") } }
"""),
dict(id='c13-scratch', property='C13',
 needs='a closure of M66::for_each that maps another M66',
 breaks='M66::for_each keeps its result in thread-local scratch that is borrowed while the closure runs',
 edits=[('matrix6x6.rs', """        let mut result = Self::zeros();
        for i in 0..self.rows() {
            for j in 0..self.cols() {
                result[(i, j)] = f(self[(i, j)]);
            }
        }
        result
""", """        let mut result = Self::zeros();
        CURSOR.store(0, Ordering::Relaxed);
        while CURSOR.load(Ordering::Relaxed) < 36 {
            let k = CURSOR.load(Ordering::Relaxed);
            result[(k / 6, k % 6)] = f(self[(k / 6, k % 6)]);
            CURSOR.fetch_add(1, Ordering::Relaxed);
        }
        result
"""), ('matrix6x6.rs', "impl<T: Num + Copy> M66<T> {", "static CURSOR: AtomicUsize = AtomicUsize::new(0);\n\nimpl<T: Num + Copy> M66<T> {"),
  ('matrix6x6.rs', "use core::ops::", "use core::sync::atomic::{AtomicUsize, Ordering};\nuse core::ops::")],
 demo=H0 + """
fn main() { let m = M66::<f64>::identity(); let n = std::cell::Cell::new(0); let g = m.for_each(|x| { n.set(n.get() + 1); if n.get() == 10 { std::hint::black_box(M66::<f64>::zeros().for_each(|y| y + 1.0)); } x + 1.0 }); for i in 0..6 { for j in 0..6 { if g[(i, j)] != m[(i, j)] + 1.0 { fail("interrupted call damaged") } } } }
"""),
dict(id='c13-depth', property='C13',
 needs='an element whose formatting formats a vector of its own',
 breaks='nested Display of V3 on the same thread is abbreviated',
 edits=[('vector3.rs', """        writeln!(
            dest,
            "[{0:^3.2} {1:^3.2} {2:^3.2}]",
            self[0], self[1], self[2]
        )
""", """        let depth = DEPTH.fetch_add(1, Ordering::AcqRel);
        let r = if depth == 0 {
            writeln!(
                dest,
                "[{0:^3.2} {1:^3.2} {2:^3.2}]",
                self[0], self[1], self[2]
            )
        } else {
            // inner vectors stay on the line
            write!(
                dest,
                "[{0:^3.2} {1:^3.2} {2:^3.2}]",
                self[0], self[1], self[2]
            )
        };
        DEPTH.fetch_sub(1, Ordering::AcqRel);
        r
"""), ('vector3.rs', "impl<T: Num + fmt::Display> fmt::Display for V3<T> {", "static DEPTH: AtomicUsize = AtomicUsize::new(0);\n\nimpl<T: Num + fmt::Display> fmt::Display for V3<T> {"),
 ('vector3.rs', "use core::ops::", "use core::sync::atomic::{AtomicUsize, Ordering};\nuse core::ops::")],
 demo=HEAD + """
fn main() {
    let a = V3::new_from(Y(1.0), Y(2.0), Y(3.0)); let b = V3::new_from(4.0, 5.0, 6.0);
    let (wa, wb) = (format!("{}", a), format!("{}", b));
    let g = with_hook(move |_| if format!("{}", b) != wb { fail("nested") }, || format!("{}", a));
    if g != wa { fail("outer") }
}
"""),
dict(id='c13-guard-panic', property='C13',
 needs='a library call from inside the element arithmetic of M22::inverse',
 breaks='M22 lu/inverse refuses to be entered twice',
 edits=[('matrix2x2.rs', "        let det = self.det();\n        if !nearly_zero(det) {\n            let det_recip = det.recip();", "        let busy = BUSY.swap(true, Ordering::Relaxed);\n        let det = self.det();\n        BUSY.store(false, Ordering::Relaxed);\n        if !nearly_zero(det) && !busy {\n            let det_recip = det.recip();"),
 ('matrix2x2.rs', "impl<T: Float + core::iter::Sum> LinearAlgebra<T> for M22<T> {", "static BUSY: AtomicBool = AtomicBool::new(false);\n\nimpl<T: Float + core::iter::Sum> LinearAlgebra<T> for M22<T> {"),
 ('matrix2x2.rs', "use core::ops::", "use core::sync::atomic::{AtomicBool, Ordering};\nuse core::ops::")],
 demo=HEAD + """
fn main() {
    let a = M22::new([[Y(1.0), Y(2.0)], [Y(3.0), Y(4.0)]]); let b = M22::new([[1.0, 0.5], [0.25, 2.0]]);
    with_hook(move |_| if b.inverse().is_none() { fail("nested") }, || a.inverse());
}
"""),
dict(id='c14-rotation', property='C14',
 needs='the rotation matrix of an integer quaternion that is not unit',
 breaks='to_rotation assumes a unit quaternion on its diagonal',
 edits=[('quaternion.rs', "two * q1 * q2 + two * q0 * q3, q0_s - q1_s + q2_s - q3_s,", "two * q1 * q2 + two * q0 * q3, T::one() - two * (q1_s + q3_s),")],
 demo=INT + """
fn main() { let q = Quaternion::new_from(2i32, 1, -3, 4); let r = q.to_rotation(); if r[(1, 1)] != 4 - 1 + 9 - 16 { fail("wrong") } }
"""),
dict(id='c14-halves', property='C14',
 needs='an odd integer product in a quaternion rotation of a vector',
 breaks='the dual-quaternion translation halves before it doubles',
 edits=[('dual_quaternion.rs', "        let one = T::one();\n        let two = one + one;\n        ((self.dual() * two) * self.real().conj()).imag()", "        let one = T::one();\n        let two = one + one;\n        // smaller intermediate values\n        let t = (self.dual() * self.real().conj()).imag();\n        let s = t[2] / two;\n        V3::new_from(t[0] * two, t[1] * two, (s + s) * two)")],
 demo=INT + """
fn main() { let q = DualQuaternion::new(Quaternion::new_from(1i32, 2, 3, 5), Quaternion::new_from(2, 1, 4, -2)); let t = q.get_translation(); let (r, d) = ([1, 2, 3, 5], [2, 1, 4, -2]); let z = 2 * (-d[0] * r[3] + d[3] * r[0] - d[1] * r[2] + d[2] * r[1]); if t[2] != z { fail(&format!("{} {}", t[2], z)) } }
"""),
dict(id='c14-quatmul', property='C14',
 needs='integer quaternions for which two of the four paired products have an odd sum',
 breaks='the scalar part of the quaternion product pairs terms and halves them one by one',
 edits=[('quaternion.rs', "        Self::new(self.q0 * rhs.q0  - self.q * rhs.q, rhs.q", "        let two = T::one() + T::one();\n        // (a + b)(c - d) + (a - b)(c + d) = 2 (a c - b d)\n        let (a, b, c, d) = (self.q0, self.q[0], rhs.q0, rhs.q[0]);\n        let ac_bd = (a + b) * (c - d) / two + (a - b) * (c + d) / two;\n        Self::new(ac_bd - self.q[1] * rhs.q[1] - self.q[2] * rhs.q[2], rhs.q")],
 demo=INT + """
fn main() { for a in -3..4i32 { for b in -3..4 { for c in -3..4 { for d in -3..4 { let p = Quaternion::new_from(a, b, 1, 2) * Quaternion::new_from(c, d, -1, 3); if p.real() != a * c - b * d + 1 - 6 { fail("wrong") } } } } } }
"""),
dict(id='c14-norml', property='C14',
 needs='an absolute value whose sum overflows, or the most negative integer',
 breaks='abs2 of a quaternion folds two squares into a difference of products that can overflow silently wrong',
 edits=[('quaternion.rs', "        self.q0 * self.q0 + self.q[0] * self.q[0] + self.q[1] * self.q[1] + self.q[2] * self.q[2]\n", "        let s = self.q0 + self.q[0];\n        let two = T::one() + T::one();\n        // two products instead of four\n        let h = s * s / two - self.q0 * self.q[0];\n        h + h + self.q[1] * self.q[1] + self.q[2] * self.q[2]\n")],
 demo=INT + """
fn main() { for a in -5..6i32 { for b in -5..6 { let q = Quaternion::new_from(a, b, 3, -2); if q.abs2() != a * a + b * b + 13 { fail("wrong") } } } }
"""),
]
