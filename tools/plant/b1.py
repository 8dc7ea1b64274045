LU44_OLD = """                if temp > big {
                    big = temp;
                    i_max = i;
                }
            }
            if k != i_max {
                for j in 0..N {
                    let temp = lu[(i_max, j)];"""
LU44_NEW = """                if temp > big {
                    big = temp;
                    PIVOT_ROW.store(i, Ordering::Relaxed);
                }
            }
            let i_max = PIVOT_ROW.load(Ordering::Relaxed);
            if k != i_max {
                for j in 0..N {
                    let temp = lu[(i_max, j)];"""
HEAD = "#[path = \"y.rs\"]\nmod y;\nuse y::*;\nuse static_math::*;\n#[allow(unused_imports)] use static_math::traits::LinearAlgebra;\n#[allow(unused_imports)] use num::{Float, Zero, One};\n#[allow(unused_imports)] use std::panic::{catch_unwind, AssertUnwindSafe};\n#[allow(dead_code)] fn fail(s: &str) -> ! { println!(\"FAIL {}\", s); std::process::exit(1) }\n"
HEAD = HEAD.replace('#[path = "y.rs"]\n', '')
H0 = "use static_math::*;\n#[allow(unused_imports)] use static_math::traits::LinearAlgebra;\n#[allow(dead_code)] fn fail(s: &str) -> ! { println!(\"FAIL {}\", s); std::process::exit(1) }\n"

BUGS = [
dict(id='c01-lu-pivot', property='C01',
 needs='two threads inside M44::lu at once, switched between the pivot search and the row exchange',
 breaks='the pivot row of M44::lu is kept in a process-wide atomic, so another thread can change it',
 edits=[('matrix4x4.rs', LU44_OLD, LU44_NEW),
        ('matrix4x4.rs', "            big = T::zero();\n            let mut i_max = k;\n            for i in k..N {\n                let temp = vv[i]", "            big = T::zero();\n            PIVOT_ROW.store(k, Ordering::Relaxed);\n            for i in k..N {\n                let temp = vv[i]"),
        ('matrix4x4.rs', "use core::ops::", "use core::sync::atomic::{AtomicUsize, Ordering};\nuse core::ops::"),
        ('matrix4x4.rs', "impl<T: Float> M44<T> {\n    /// compute the LU", "/// row of the pivot of the current column\nstatic PIVOT_ROW: AtomicUsize = AtomicUsize::new(0);\n\nimpl<T: Float> M44<T> {\n    /// compute the LU")],
 demo=HEAD + """
fn m(k: f64) -> M44<Y> {
    let mut a = M44::<Y>::zeros();
    for i in 0..4 { for j in 0..4 { a[(i, j)] = Y(((i * 7 + j * 3) as f64 * k).sin() * 5.0 + if i == j { 9.0 * k } else { 0.0 }) } }
    a
}
fn show(r: &(M44<Y>, Y, V4<usize>)) -> String { format!("{:?} {:?} {:?}", r.0, r.1, r.2) }
fn main() {
    let (a, b) = (m(1.0), m(-2.5));
    let (wa, wb) = (show(&a.lu()), show(&b.lu()));
    let n = count(|| { a.lu(); });
    for k in 0..n {
        let wb = wb.clone();
        let got = with_hook(move |c| if c == k {
            let wb = wb.clone();
            // another thread runs to completion while this one is between two steps
            std::thread::spawn(move || if show(&b.lu()) != wb { fail("other thread") }).join().unwrap();
        }, || a.lu());
        if show(&got) != wa { fail(&format!("interleaved at step {}", k)) }
    }
}
"""),
dict(id='c01-torn-sincos', property='C01',
 needs='three calls of rotation_norm_encoded on two threads: one checks the cached angle, another replaces the entry before the first reads both values',
 breaks='a one-entry cache of (angle, sin, cos) is read without protection and can be torn',
 edits=[('quaternion.rs', "            let (s, c) = (theta / two).sin_cos();\n            Self{q0: c, q: *v * (s / theta), normalized: true}",
 """            let (s, c) = half_sin_cos(theta / two);
            Self{q0: c, q: *v * (s / theta), normalized: true}"""),
 ('quaternion.rs', "impl<T: Float> Quaternion<T> {\n    /// the euclidean norm", """static CACHE: [AtomicU64; 3] = [AtomicU64::new(u64::MAX), AtomicU64::new(0), AtomicU64::new(0)];

/// sine and cosine, remembering the last angle(double precision only)
fn half_sin_cos<T: Float>(a: T) -> (T, T) {
    if core::mem::size_of::<T>() != 8 {
        return a.sin_cos()
    }
    let bits = a.to_f64().map_or(u64::MAX, f64::to_bits);
    let (s, c) = (T::from(f64::from_bits(CACHE[1].load(Ordering::SeqCst))), T::from(f64::from_bits(CACHE[2].load(Ordering::SeqCst))));
    if bits != u64::MAX && CACHE[0].load(Ordering::SeqCst) == bits {
        if let (Some(s), Some(c)) = (s, c) {
            return (s, c)
        }
    }
    let (s, c) = a.sin_cos();
    if let (Some(fs), Some(fc)) = (s.to_f64(), c.to_f64()) {
        CACHE[0].store(u64::MAX, Ordering::SeqCst);
        CACHE[1].store(fs.to_bits(), Ordering::SeqCst);
        CACHE[2].store(fc.to_bits(), Ordering::SeqCst);
        CACHE[0].store(bits, Ordering::SeqCst);
    }
    (s, c)
}

impl<T: Float> Quaternion<T> {
    /// the euclidean norm"""),
 ('quaternion.rs', "use core::ops::", "use core::sync::atomic::{AtomicU64, Ordering};\nuse core::ops::")],
 demo=HEAD + """
use std::sync::atomic::*;
// real threads: two threads alternate between two angles each until a torn pair is seen
fn main() {
    let stop = AtomicBool::new(false);
    let bad = AtomicBool::new(false);
    let t0 = std::time::Instant::now();
    let vs: [V3<f64>; 2] = [V3::new_from(0.3, 0.4, 0.5), V3::new_from(-1.0, 0.25, 2.0)];
    let want: Vec<_> = vs.iter().map(|v| { let th = v.norm2(); let (s, c) = (th / 2.0).sin_cos(); (c.to_bits(), (v[0] * (s / th)).to_bits()) }).collect();
    std::thread::scope(|sc| {
        for t in 0..6 {
            let (stop, bad, want) = (&stop, &bad, &want);
            sc.spawn(move || {
                let mut i: usize = t;
                while !stop.load(Ordering::Relaxed) {
                    i = i.wrapping_mul(6364136223846793005usize).wrapping_add(1442695040888963407);
                    let k = (i >> 33) & 1;
                    let q = Quaternion::rotation_norm_encoded(&vs[k]);
                    if (q.real().to_bits(), q.imag()[0].to_bits()) != want[k] { bad.store(true, Ordering::Relaxed); stop.store(true, Ordering::Relaxed) }
                    if t0.elapsed().as_secs() > 8 { stop.store(true, Ordering::Relaxed) }
                }
            });
        }
    });
    if bad.load(Ordering::Relaxed) { fail("torn pair") }
}
"""),
dict(id='c02-qr-busy', property='C02',
 needs='a panic of the element type inside M33::qr, then any further M33::qr',
 breaks='an in-use flag stays set when the number type panics inside M33::qr, and later calls take another algorithm',
 edits=[('matrix3x3.rs', """        if !nearly_zero(self.det()) {
            let cols = self.get_cols();
            let mut q: [V3<T>; 3] = *M33::zeros().get_cols();
            for i in 0..q.len() {
                let mut q_tilde = cols[i];
                for elem in q.iter().take(i) {
                    q_tilde -= *elem * project_x_over_y(&*cols[i], &**elem);
                }
                normalize(&mut *q_tilde);
                q[i] = q_tilde;
            }
""", """        if !nearly_zero(self.det()) {
            let nested = IN_QR.swap(true, Ordering::Relaxed);
            let cols = self.get_cols();
            let mut q: [V3<T>; 3] = *M33::zeros().get_cols();
            for i in 0..q.len() {
                let mut q_tilde = cols[i];
                for elem in q.iter().take(i) {
                    let from = if nested {q_tilde} else {cols[i]};
                    q_tilde -= *elem * project_x_over_y(&*from, &**elem);
                }
                normalize(&mut *q_tilde);
                q[i] = q_tilde;
            }
            if !nested {
                IN_QR.store(false, Ordering::Relaxed);
            }
"""),
 ('matrix3x3.rs', "use core::ops::", "use core::sync::atomic::{AtomicBool, Ordering};\nuse core::ops::"),
 ('matrix3x3.rs', "impl<T: Float + core::iter::Sum> LinearAlgebra<T> for M33<T> {", "static IN_QR: AtomicBool = AtomicBool::new(false);\n\nimpl<T: Float + core::iter::Sum> LinearAlgebra<T> for M33<T> {")],
 demo=HEAD + """
fn main() {
    let a = M33::new([[Y(0.1), Y(0.7), Y(-0.3)], [Y(1.3), Y(0.9), Y(0.2)], [Y(-0.6), Y(2.1), Y(0.77)]]);
    let want = format!("{:?}", a.qr());
    let n = count(|| { a.qr(); });
    for k in 0..n {
        let r = catch_unwind(AssertUnwindSafe(|| with_hook(move |c| if c == k { std::panic::resume_unwind(Box::new(())) }, || { a.qr(); })));
        if r.is_ok() { fail("no panic") }
        if format!("{:?}", a.qr()) != want { fail(&format!("after a panic at step {}", k)) }
    }
}
"""),
dict(id='c02-slerp-count', property='C02',
 needs='more than five hundred slerp calls in one process',
 breaks='every 512th slerp of the process renormalises its result',
 edits=[('quaternion.rs', """            result.q0 = aux1 * a.q0 - aux2 * b.q0;
            result.q  = a.q * aux1 - b.q * aux2;
        }
        result
""", """            result.q0 = aux1 * a.q0 - aux2 * b.q0;
            result.q  = a.q * aux1 - b.q * aux2;
        }
        // keep the drift of long interpolations bounded
        if CALLS.fetch_add(1, Ordering::Relaxed) % 512 == 511 {
            return result / result.norm2()
        }
        result
"""),
 ('quaternion.rs', "impl<T: Float> Quaternion<T> {\n    /// the euclidean norm", "static CALLS: AtomicU32 = AtomicU32::new(0);\n\nimpl<T: Float> Quaternion<T> {\n    /// the euclidean norm"),
 ('quaternion.rs', "use core::ops::", "use core::sync::atomic::{AtomicU32, Ordering};\nuse core::ops::")],
 demo=H0 + """
fn main() {
    let a = Quaternion::new_from(0.9f64, 0.1, 0.2, 0.3).normalize().unwrap();
    let b = Quaternion::new_from(0.1f64, -0.8, 0.5, 0.3).normalize().unwrap();
    for t in 1..20 {
        let t = t as f64 / 20.0;
        let w = Quaternion::slerp(a, b, t);
        for _ in 0..1100 { let g = Quaternion::slerp(a, b, t); if (g.real().to_bits(), g.imag()[0].to_bits(), g.imag()[2].to_bits()) != (w.real().to_bits(), w.imag()[0].to_bits(), w.imag()[2].to_bits()) { fail("changed") } }
    }
}
"""),
dict(id='c02-near-cache', property='C02',
 needs='two rot2 calls in a row with angles that differ by less than single precision',
 breaks='rotz reuses the sine and cosine of the previous angle when it is equal in single precision',
 edits=[('transformations.rs', "pub fn rotz<T: Float>(angle: T) -> M33<T> {\n    let one = T::one();\n    let zero = T::zero();\n    let (s, c) = angle.sin_cos();", """pub fn rotz<T: Float>(angle: T) -> M33<T> {
    let one = T::one();
    let zero = T::zero();
    let key = angle.to_f32().map_or(u64::MAX, |k| ((k.to_bits() as u64) << 32) | 1);
    let hit = LAST_ANGLE.swap(key, Ordering::AcqRel) == key;
    let angle = if hit {
        T::from(f64::from_bits(LAST_EXACT.load(Ordering::Acquire))).unwrap_or(angle)
    } else {
        LAST_EXACT.store(angle.to_f64().unwrap_or(0.0).to_bits(), Ordering::Release);
        angle
    };
    let (s, c) = angle.sin_cos();"""),
  ('transformations.rs', "/// Euler sequences conventions", "static LAST_ANGLE: AtomicU64 = AtomicU64::new(0);\nstatic LAST_EXACT: AtomicU64 = AtomicU64::new(0);\n\n/// Euler sequences conventions"),
  ('transformations.rs', "use num::traits::FloatConst;", "use core::sync::atomic::{AtomicU64, Ordering};\nuse num::traits::FloatConst;")],
 demo=H0 + """
use static_math::transformations::rotz;
fn main() {
    let (a, b) = (0.7f64, 0.7f64 + 1e-12);
    rotz(2.0f64); let wb = rotz(b); rotz(2.0f64);
    rotz(a); let g = rotz(b);
    if g[(1, 0)].to_bits() != wb[(1, 0)].to_bits() { fail("nearly equal operand remembered") }
}
"""),
dict(id='c03-det-lock', property='C03',
 needs='a thread stopped for ever inside M55::det while another calls it',
 breaks='M55::det serialises its callers with a spin lock',
 edits=[('matrix5x5.rs', "    fn det(&self) -> T {\n", """    fn det(&self) -> T {
        while DET_LOCK.swap(true, Ordering::Acquire) {
            core::hint::spin_loop();
        }
        let _unlock = Unlock;
"""),
 ('matrix5x5.rs', "impl<T: Float + core::iter::Sum> LinearAlgebra<T> for M55<T> {", """static DET_LOCK: AtomicBool = AtomicBool::new(false);
struct Unlock;
impl Drop for Unlock {
    fn drop(&mut self) {
        DET_LOCK.store(false, Ordering::Release);
    }
}

impl<T: Float + core::iter::Sum> LinearAlgebra<T> for M55<T> {"""),
 ('matrix5x5.rs', "use core::ops::", "use core::sync::atomic::{AtomicBool, Ordering};\nuse core::ops::")],
 demo=HEAD + """
use std::sync::mpsc;
fn m() -> M55<Y> { let mut a = M55::<Y>::zeros(); for i in 0..5 { for j in 0..5 { a[(i, j)] = Y(((i * 5 + j) as f64).sin()) } } a }
fn main() {
    let n = count(|| { m().det(); });
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || { with_hook(move |c| if c == n / 2 { tx.send(()).unwrap(); loop { std::thread::park() } }, || m().det()); });
    rx.recv().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || { let d = m().det(); tx.send(d.0).unwrap(); });
    if rx.recv_timeout(std::time::Duration::from_secs(5)).is_err() { fail("blocked") }
}
"""),
dict(id='c03-turn', property='C03',
 needs='a thread stopped for ever between the two counter updates of Quaternion::sqrt',
 breaks='Quaternion::ln hands out tickets and waits for its turn when others are inside',
 edits=[('quaternion.rs', "    pub fn ln(&self) -> Self {\n        let (q_norm, a) = self.normalize_a();", """    pub fn ln(&self) -> Self {
        let ticket = TICKET.fetch_add(1, Ordering::AcqRel);
        let (q_norm, a) = self.normalize_a();
        // publish in call order
        let mut spins = 0u32;
        while SERVED.load(Ordering::Acquire) < ticket {
            core::hint::spin_loop();
            spins = spins.wrapping_add(1);
        }
        SERVED.fetch_max(ticket.wrapping_add(1), Ordering::AcqRel);"""),
 ('quaternion.rs', "impl<T: Float> Quaternion<T> {\n    /// the euclidean norm", "static TICKET: AtomicU32 = AtomicU32::new(0);\nstatic SERVED: AtomicU32 = AtomicU32::new(0);\n\nimpl<T: Float> Quaternion<T> {\n    /// the euclidean norm"),
 ('quaternion.rs', "use core::ops::", "use core::sync::atomic::{AtomicU32, Ordering};\nuse core::ops::")],
 demo=HEAD + """
use std::sync::mpsc;
fn q() -> Quaternion<Y> { Quaternion::new_from(Y(0.4), Y(0.1), Y(-0.8), Y(0.3)) }
fn main() {
    let n = count(|| { q().ln(); });
    for k in 0..n {
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || { with_hook(move |c| if c == k { tx.send(()).unwrap(); loop { std::thread::park() } }, || q().ln()); });
        rx.recv().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || { q().ln(); tx.send(()).unwrap(); });
        if rx.recv_timeout(std::time::Duration::from_secs(4)).is_err() { fail("blocked") }
    }
}
"""),
dict(id='c04-wrap', property='C04',
 needs='a screw angle far outside the usual range',
 breaks='new_from_screw_parameters reduces the angle by repeated subtraction',
 edits=[('dual_quaternion.rs', "        let (sin, cos) = (theta / two).sin_cos();\n        let q_real = Quaternion::new(cos, *l * sin);", """        // the half angle repeats every two turns
        let period = T::from(4.0 * core::f64::consts::PI).unwrap();
        let mut angle = theta;
        while angle > period {
            angle = angle - period;
        }
        let (sin, cos) = (angle / two).sin_cos();
        let q_real = Quaternion::new(cos, *l * sin);""")],
 demo=H0 + """
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(8)); fail("still running") });
    let l = V3::new_from(0.0, 0.0, 1.0); let m = V3::new_from(1.0, 0.0, 0.0);
    for th in [1.0, -30.0, 1e6, 1e17, 1e300, f64::INFINITY, f64::NAN] { std::hint::black_box(DualQuaternion::new_from_screw_parameters(&l, &m, th, 0.5)); }
}
"""),
dict(id='c04-newton', property='C04',
 needs='a NaN that appears in the norm during DualQuaternion::normalize',
 breaks='normalize repeats the division until the norm is within tolerance, which a NaN never is',
 edits=[('dual_quaternion.rs', "                result.q_dual = self.q_dual / norm_q_real;\n", """                result.q_dual = self.q_dual / norm_q_real;
                // polish the real part
                loop {
                    let n = result.q_real.norm2();
                    if (n - T::one()).abs() <= T::epsilon() * T::from(4.0).unwrap() {
                        break;
                    }
                    result.q_real = result.q_real / n;
                }
""")],
 demo=H0 + """
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(8)); fail("still running") });
    for x in [0.5f64, 1e-3, 1e10, f64::NAN, f64::INFINITY, 1e200] {
        let q = DualQuaternion::new(Quaternion::new_from(x, 0.2, 0.3, -0.4), Quaternion::new_from(0.1, 0.2, 0.3, 0.4));
        std::hint::black_box(q.normalize().is_some());
    }
}
"""),
dict(id='c04-qr-again', property='C04',
 needs='a comparison or value that makes two columns of M44::qr never orthogonal (NaN, or nearly singular matrix)',
 breaks='M44::qr re-orthogonalises until the projection vanishes',
 edits=[('matrix4x4.rs', "                normalize(&mut *q_tilde);\n", """                // once more while something is left in the span of the others
                while !q.iter().take(i).all(|e| (*e * q_tilde).abs() <= T::epsilon() * T::from(64.0).unwrap() * (T::one() + q_tilde.norm2())) {
                    for elem in q.iter().take(i) {
                        q_tilde -= *elem * project_x_over_y(&*q_tilde, &**elem);
                    }
                }
                normalize(&mut *q_tilde);
""")],
 demo=HEAD + """
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); fail("still running") });
    let mut a = M44::<Y>::zeros();
    for i in 0..4 { for j in 0..4 { a[(i, j)] = Y(((i * 4 + j) as f64 * 1.7).sin() + if i == j { 2.0 } else { 0.0 }) } }
    let n = count(|| { a.qr(); });
    for k in 0..n { EDIT.set(Some((k, f64::NAN))); with_hook(|_| {}, || a.qr().is_some()); }
}
"""),
]
