import os, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
def imp(n):
    s = importlib.util.spec_from_file_location(n, f'{HERE}/{n}.py'); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
b11 = imp('b11'); b12 = imp('b12'); b10 = imp('b10')
INT, TR, ALLOC, H, QUIET, HEAD = b11.INT, b11.TR, b11.ALLOC, b11.H, b11.QUIET, b11.HEAD
ATOM = "use core::sync::atomic::{AtomicU64, Ordering};\n"
BUGS = [
dict(id='c02-inverse-place', property='C02', needs='the inverse of a 3x3 matrix that was changed in place since its last inverse, with the same trace',
 breaks='the inverse of a 3x3 matrix remembers the reciprocal determinant of the matrix at the same address with the same trace',
 edits=[('matrix3x3.rs', """            let invdet = det.recip();
            let mut res = M33::zero();""", """            let bits = |x: T| x.to_f64().map_or(0, f64::to_bits);
            let key = self as *const Self as u64 ^ bits(self[(0, 0)] + self[(1, 1)] + self[(2, 2)]).rotate_left(21);
            if LAST.load(Ordering::Relaxed) != key {
                LAST.store(key, Ordering::Relaxed);
                RECIP.store(bits(det.recip()), Ordering::Relaxed);
            }
            let invdet = T::from(f64::from_bits(RECIP.load(Ordering::Relaxed))).unwrap_or(det.recip());
            let mut res = M33::zero();"""), ('matrix3x3.rs', "use num::{Float, Num", ATOM + "use num::{Float, Num"),
  ('matrix3x3.rs', "impl<T: Num + Copy> Mul<V3<T>> for M33<T> {", "/// the last inverted matrix, its reciprocal determinant\nstatic LAST: AtomicU64 = AtomicU64::new(0);\nstatic RECIP: AtomicU64 = AtomicU64::new(0);\n\nimpl<T: Num + Copy> Mul<V3<T>> for M33<T> {")],
 demo=INT + "use static_math::traits::LinearAlgebra;\nfn main() { let mut m = M33::<f64>::new([[1.0f64, 2.0, 0.0], [0.0, 3.0, 1.0], [1.0, 0.0, 2.0]]); let a = m.inverse(); m[(0, 1)] = 5.0; let b = m.inverse().unwrap(); let w = Box::new(m).inverse().unwrap(); if b[(0, 0)].to_bits() != w[(0, 0)].to_bits() { fail(\"stale\") } std::hint::black_box(a); }\n"),
dict(id='c23-size', property='C23', needs='the sum of squares of a slice of a number type larger than eight bytes',
 breaks='the norm of a slice adds types that are larger than a word pair by pair',
 edits=b12.norm("""    if core::mem::size_of::<T>() > 8 {
        // large numbers: fewer of them fit a cache line
        return slice.chunks(2).map(|c| c.iter().fold(T::zero(), |n, &i| (i * i) + n)).fold(T::zero(), |n, p| n + p).sqrt();
    }
"""),
 demo={'demo.sh': H, 'y.rs': open(HERE + '/y.rs').read().replace("pub struct Y(pub f64)", "#[repr(align(16))] pub struct Y(pub f64)"), 'demo.rs': HEAD + b12.FILL + "use static_math::slices_methods::*;\nfn main() { for n in 1..30 { let x = xs(n, n as u64 * 5); let y: Vec<Y> = x.iter().map(|v| Y(*v)).collect(); if norm2(&y).0.to_bits() != norm2(&x).to_bits() { fail(\"differs\") } } }\n"}),
dict(id='c01-diagonal-static', property='C01', needs='two threads inverting diagonal 4x4 matrices at the same time',
 breaks='the inverse of a diagonal 4x4 matrix collects its entries in static atomics',
 edits=[('matrix4x4.rs', """            let det_recip = det.recip();
            let a1 = self""", """            let zero = T::zero();
            if (0..4).all(|i| (0..4).all(|j| i == j || self[(i, j)] == zero)) {
                if let Some(d) = diagonal_recip(self) {
                    return Some(d);
                }
            }
            let det_recip = det.recip();
            let a1 = self"""), ('matrix4x4.rs', "impl<T: Float + core::iter::Sum> LinearAlgebra<T> for M44<T> {", """static DIAGONAL: [AtomicU64; 4] = [const { AtomicU64::new(0) }; 4];

fn diagonal_recip<T: Float + core::iter::Sum>(m: &M44<T>) -> Option<M44<T>> {
    let det_recip = m.det().recip();
    for (i, d) in DIAGONAL.iter().enumerate() {
        let (j, k, l) = ((i + 1) % 4, (i + 2) % 4, (i + 3) % 4);
        let mut s = [j, k, l];
        s.sort_unstable();
        let minor = m[(s[0], s[0])] * (m[(s[1], s[1])] * m[(s[2], s[2])]) * det_recip;
        d.store(minor.to_f64()?.to_bits(), Ordering::Relaxed);
    }
    let mut r = M44::zeros();
    for (i, d) in DIAGONAL.iter().enumerate() {
        r[(i, i)] = T::from(f64::from_bits(d.load(Ordering::Relaxed)))?;
    }
    Some(r)
}

impl<T: Float + core::iter::Sum> LinearAlgebra<T> for M44<T> {"""), ('matrix4x4.rs', "use num::{Float, One", ATOM + "use num::{Float, One")],
 demo=INT + """use static_math::traits::LinearAlgebra;
fn d(a: f64) -> M44<f64> { let mut m = M44::<f64>::zeros(); for i in 0..4 { m[(i, i)] = a + i as f64 } m }
fn main() { let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false)); let h: Vec<_> = (0..3).map(|k| { let s = stop.clone(); std::thread::spawn(move || while !s.load(std::sync::atomic::Ordering::Relaxed) { std::hint::black_box(d(3.5 + k as f64).inverse()); }) }).collect();
 let w = d(1.0).inverse().unwrap(); let mut bad = false; let t = std::time::Instant::now(); while t.elapsed().as_secs() < 20 && !bad { let r = d(1.0).inverse().unwrap(); bad = (0..4).any(|i| (r[(i, i)] - w[(i, i)]).abs() > 1e-9); } stop.store(true, std::sync::atomic::Ordering::Relaxed); for x in h { x.join().unwrap(); } if bad { fail("changed") } }
"""),
dict(id='c07-symmetric-heap', property='C07', needs='the QR factorisation of a symmetric 4x4 matrix that is not diagonal',
 breaks='the determinant of a symmetric 4x4 matrix keeps its upper half on the heap',
 edits=[('matrix4x4.rs', "    fn det(&self) -> T {\n        let a1 = self[(0, 0)];", """    fn det(&self) -> T {
        // a symmetric matrix is given by its upper half
        #[cfg(not(feature = "no-std"))]
        if self[(0, 1)] == self[(1, 0)] && self[(0, 2)] == self[(2, 0)] && self[(0, 3)] == self[(3, 0)] && self[(1, 2)] == self[(2, 1)] && self[(1, 3)] == self[(3, 1)] && self[(2, 3)] == self[(3, 2)] {
            let half: std::vec::Vec<(usize, usize, T)> = (0..4).flat_map(|i| (i..4).map(move |j| (i, j))).map(|(i, j)| (i, j, self[(i, j)])).collect();
            if half.iter().all(|h| h.2.is_zero()) {
                return T::zero();
            }
        }
        let a1 = self[(0, 0)];""")],
 demo=INT + ALLOC + "use static_math::traits::LinearAlgebra;\nfn main() { let s = M44::new([[4.0, 1.0, 2.0, 3.0], [1.0, 5.0, 1.0, 2.0], [2.0, 1.0, 6.0, 1.0], [3.0, 2.0, 1.0, 7.0]]); let n = N.load(SeqCst); std::hint::black_box(s.det()); if N.load(SeqCst) != n { fail(\"heap\") } }\n"),
dict(id='c06-permutation-note', property='C06', needs='the inverse of a 3x3 permutation matrix',
 breaks='the inverse of a permutation matrix writes a note',
 edits=[('matrix3x3.rs', "    fn inverse(&self) -> Option<Self> {\n        let det = self.det();", """    fn inverse(&self) -> Option<Self> {
        let det = self.det();
        #[cfg(not(feature = "no-std"))]
        if self.iter().flatten().all(|x| x.is_zero() || x.is_one()) && !(self[(0, 0)] * self[(1, 1)] * self[(2, 2)]).is_one() && (det.is_one() || (-det).is_one()) {
            eprintln!("M33::inverse: a permutation, transpose it");
        }""")],
 demo={'demo.sh': QUIET, 'demo.rs': INT + "use static_math::traits::LinearAlgebra;\nfn main() { for m in [M33::new([[0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]]), M33::new([[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]])] { std::hint::black_box(m.inverse()); } }\n"}),
dict(id='c04-along-axis', property='C04', needs='the screw parameters of a motion along its own axis with a huge translation',
 breaks='the pitch of a motion along its axis is reduced turn by turn',
 edits=[('dual_quaternion.rs', """            let d = t * l;
""", """            let mut d = t * l;
            // along the axis: whole turns are kept apart, to keep the digits
            if nearly_zero(t.cross(l).norm2()) {
                let turn = theta.abs() * T::from(1e3).unwrap();
                let mut turns = T::zero();
                while d.abs() > turn && d.is_finite() {
                    d = d - turn.copysign(d);
                    turns = turns + turn.copysign(d);
                }
                d = d + turns;
            }
""")],
 demo=INT + """fn main() { let q = Quaternion::rotation(1.0, &V3::x_axis()); for s in [1.0, 10.0, 1e4, 1e12] { let (tx, rx) = std::sync::mpsc::channel(); let d = DualQuaternion::new_from_translation(&V3::new([s, 0.0, 0.0])) * DualQuaternion::new_from_rotation(&q);
 std::thread::spawn(move || { std::hint::black_box(d.get_screw_parameters()); tx.send(()).ok(); }); if rx.recv_timeout(std::time::Duration::from_secs(10)).is_err() { fail("does not end") } } }
"""),
dict(id='c12-opposite', property='C12', needs='a half turn (no real part) that remembers being normalised, scaled and then normalised',
 breaks='a scaled half turn still counts as normalised',
 edits=[('quaternion.rs', "impl<T: Num + Copy> Mul<T> for Quaternion<T> {\n    type Output = Quaternion<T>;\n    fn mul(self, rhs: T) -> Self::Output {\n        Self {q0: self.q0 * rhs, q: self.q * rhs, normalized: false}", "impl<T: Num + Copy> Mul<T> for Quaternion<T> {\n    type Output = Quaternion<T>;\n    fn mul(self, rhs: T) -> Self::Output {\n        // scaling a half turn by a whole sign\n        let sign = rhs * rhs == rhs * rhs * rhs * rhs && !rhs.is_zero();\n        Self {q0: self.q0 * rhs, q: self.q * rhs, normalized: self.normalized && (sign || self.q0.is_zero())}")],
 demo=INT + "fn main() { let q = Quaternion::new_from(0.0f64, 1.0, 0.0, 0.0).normalize().unwrap(); let r = q * 3.0; let n = r.normalize().unwrap(); if (n.norm2() - 1.0).abs() > 1e-6 { fail(&format!(\"{}\", n.norm2())) } }\n"),
]
