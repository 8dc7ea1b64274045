import os, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
s = importlib.util.spec_from_file_location('b10', HERE + '/b10.py'); b10 = importlib.util.module_from_spec(s); s.loader.exec_module(b10)
s = importlib.util.spec_from_file_location('b2', HERE + '/b2.py'); b2 = importlib.util.module_from_spec(s); s.loader.exec_module(b2)
INT, TR, HEAD = b10.INT, b10.TR, b10.HEAD
H = b10.H
# run the program with its output captured: it must print nothing
QUIET = H.replace('timeout 100 "$d/target/debug/demo"', 'out="$(timeout 100 "$d/target/debug/demo" 2>&1)" || exit 1\n[ -z "$out" ] || { echo "printed: $out"; exit 1; }')
ALLOC = """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
struct A; static N: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
"""
BUGS = [
dict(id='c06-ill-conditioned', property='C06', needs='the inverse of a 5x5 matrix whose determinant is tiny but not negligible',
 breaks='a nearly singular 5x5 inverse reports itself on the error stream',
 edits=[('matrix5x5.rs', "            Some(cofactors / det)\n        } else {", """            #[cfg(not(feature = "no-std"))]
            if det.abs() < T::from(1e-12).unwrap() {
                eprintln!("M55::inverse: ill conditioned");
            }
            Some(cofactors / det)
        } else {""")],
 demo={'demo.sh': QUIET, 'demo.rs': INT + "use static_math::traits::LinearAlgebra;\nfn main() { for e in [1.0, 1e-1, 1e-2, 1e-3] { let mut m = M55::<f64>::identity(); for i in 0..5 { m[(i, i)] = e; } std::hint::black_box(m.inverse()); } }\n"}),
dict(id='c07-largest-vec', property='C07', needs='a quaternion from a rotation by more than a half turn about a general axis (third diagonal component negative)',
 breaks='from_rotation collects the candidates of its third branch on the heap',
 edits=[('quaternion.rs', """                let t = one - m[(0, 0)] + m[(1, 1)] - m[(2, 2)];
                let q = Self::new_from(""", """                let t = [one, -m[(0, 0)], m[(1, 1)], -m[(2, 2)]].map(Box::new).iter().fold(zero, |a, b| a + **b);
                let q = Self::new_from(""")],
 demo=INT + TR + ALLOC + "fn main() { for a in [0.1f64, 2.9, 3.1] { for m in [rotx(a), roty(a), rotz(a)] { let n = N.load(SeqCst); std::hint::black_box(Quaternion::from_rotation(&m)); if N.load(SeqCst) != n { fail(\"heap\") } } } }\n"),
dict(id='c03-screw-lock', property='C03', needs='a thread stalled inside the screw parameters of a motion without rotation',
 breaks='the screw parameters of a pure translation are computed under a process-wide spin lock',
 edits=[('dual_quaternion.rs', """            let d = t.norm2();
            let mut l = V3::zero();
            if !nearly_zero(d) {
                l = t / d;
            }
""", """            while TRANSLATING.swap(true, Ordering::Acquire) {
                core::hint::spin_loop();
            }
            let d = t.norm2();
            let mut l = V3::zero();
            if !nearly_zero(d) {
                l = t / d;
            }
            TRANSLATING.store(false, Ordering::Release);
"""), ('dual_quaternion.rs', "impl<T: Num + Copy> DualQuaternion<T> {", "/// a pure translation is being analysed\nstatic TRANSLATING: AtomicBool = AtomicBool::new(false);\n\nimpl<T: Num + Copy> DualQuaternion<T> {"),
 ('dual_quaternion.rs', "use core::fmt;", "use core::fmt;\nuse core::sync::atomic::{AtomicBool, Ordering};")],
 demo=HEAD + """use std::sync::mpsc; use std::time::Duration;
fn go() { let d = DualQuaternion::new_from_translation(&V3::new([Y(1.0), Y(2.0), Y(3.0)])); d.get_screw_parameters(); }
fn main() { let n = count(go); for k in 0..n {
  let (tx, rx) = mpsc::channel(); let (t2, r2) = mpsc::channel::<()>();
  let h = std::thread::spawn(move || { let r2 = std::cell::RefCell::new(Some(r2)); with_hook(move |i| if i == k { tx.send(()).unwrap(); let r = r2.borrow_mut().take().unwrap(); r.recv().ok(); }, go) });
  rx.recv().unwrap(); let (t3, r3) = mpsc::channel(); std::thread::spawn(move || { go(); t3.send(()).ok(); });
  if r3.recv_timeout(Duration::from_secs(5)).is_err() { fail("blocked") } t2.send(()).ok(); h.join().unwrap(); } }
"""),
dict(id='c01-gimbal-static', property='C01', needs='two threads extracting Euler angles at the upper singularity',
 breaks='the angle at the upper singularity passes through a process-wide atomic',
 edits=[('transformations.rs', """        let yay = T::atan2(r[(1, 2)], r[(0, 2)]);
        let roll = T::zero();
        (yay, pitch, roll)
    // normal""", """        // the bits of the angle, as the last known heading
        HEADING.store(T::atan2(r[(1, 2)], r[(0, 2)]).to_f64().map_or(u64::MAX, f64::to_bits), Ordering::Relaxed);
        let roll = T::zero();
        let yay = T::from(f64::from_bits(HEADING.load(Ordering::Relaxed))).unwrap();
        (yay, pitch, roll)
    // normal"""), ('transformations.rs', "pub fn rotation_to_euler", "static HEADING: AtomicU64 = AtomicU64::new(0);\n\npub fn rotation_to_euler"), ('transformations.rs', "use num::traits::FloatConst;", "use core::sync::atomic::{AtomicU64, Ordering};\nuse num::traits::FloatConst;")],
 demo=HEAD + """use static_math::transformations::*;
fn m(a: f64) -> M33<Y> { let (s, c) = a.sin_cos(); M33::new([[Y(0.0), Y(s), Y(c)], [Y(0.0), Y(c), Y(s)], [Y(-1.0), Y(0.0), Y(0.0)]]) }
fn main() { let f = || rotation_to_euler(&m(0.5)).0.0.to_bits(); let w = f(); let n = count(|| { f(); });
 // an element type whose zero() is a point of interruption is not at hand: real threads, many times
 let _ = n; let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false)); let s2 = stop.clone();
 let h: Vec<_> = (0..3).map(|k| { let s2 = s2.clone(); std::thread::spawn(move || while !s2.load(std::sync::atomic::Ordering::Relaxed) { std::hint::black_box(rotation_to_euler(&m(0.9 + k as f64 * 0.1))); }) }).collect();
 let mut bad = false; let t = std::time::Instant::now(); while t.elapsed().as_secs() < 20 && !bad { bad = f() != w; } stop.store(true, std::sync::atomic::Ordering::Relaxed); for h in h { h.join().unwrap(); } if bad { fail("changed") } }
"""),
dict(id='c17-hook-lost', property='C17', needs='a panic of the number type inside the 6x6 inverse',
 breaks='the 6x6 inverse silences the panic hook while it computes the cofactors, and does not put it back when the number type panics',
 edits=[('matrix6x6.rs', "            let mut cofactors: M66<T> = M66::zeros();\n", """            let mut cofactors: M66<T> = M66::zeros();
            // a cofactor that can not be computed is not worth a message
            let hook = std::panic::take_hook();
"""), ('matrix6x6.rs', "            Some(cofactors * det.recip())\n", "            let result = cofactors * det.recip();\n            std::panic::set_hook(hook);\n            Some(result)\n")],
 demo=HEAD + """use std::sync::atomic::{AtomicU64, Ordering::SeqCst}; static N: AtomicU64 = AtomicU64::new(0);
fn main() { std::panic::set_hook(Box::new(|_| { N.fetch_add(1, SeqCst); })); let mut m = M66::<Y>::zeros(); for i in 0..6 { m[(i, i)] = Y(2.0 + i as f64); }
 let n = count(|| { m.inverse(); }); for k in [n / 2, n - 3, 5] { let _ = catch_unwind(AssertUnwindSafe(|| with_hook(move |i| if i == k { std::panic::panic_any(1) }, || { m.inverse(); }))); let a = N.load(SeqCst); let _ = catch_unwind(|| panic!("x")); if N.load(SeqCst) != a + 1 { fail("hook lost") } } }
"""),
dict(id='c11-assert-orthogonal', property='C11', needs='the matrix logarithm of a matrix whose trace is NaN',
 breaks='the matrix logarithm asserts that its angle is a number',
 edits=[('transformations.rs', "        let theta = T::acos(angle);\n        // TODO", "        let theta = T::acos(angle);\n        assert!(theta >= T::zero(), \"not a rotation\");\n        // TODO")],
 demo=INT + TR + "fn main() { std::panic::set_hook(Box::new(|_| {})); for w in [0.3, f64::NAN] { let mut m = rotx(0.4); m[(1, 1)] = w; if std::panic::catch_unwind(|| matrix_log(&m)).is_err() { fail(\"panic\") } } }\n"),
dict(id='c22-valid-parts', property='C22', needs='a NaN in one component of a homogeneous transformation',
 breaks='the translation part of a transformation with any NaN is NaN altogether',
 edits=[('transformations.rs', "    let p = V3::new_from(r[(0, 3)], r[(1, 3)], r[(2, 3)]);\n\n    (rot, p)", """    let mut p = V3::new_from(r[(0, 3)], r[(1, 3)], r[(2, 3)]);
    // not a pose at all
    if !r[(3, 3)].is_finite() {
        p = V3::new_from(T::nan(), T::nan(), T::nan());
    }

    (rot, p)""")],
 demo=INT + TR + "fn main() { for w in [1.0, f64::NAN] { let mut m = translation_3d(1.0, 2.0, 3.0); m[(3, 3)] = w; let (_, p) = get_parts_raw(&m); if p[1] != 2.0 { fail(\"spoilt\") } } }\n"),
dict(id='c18-imag-diff', property='C18', needs='the norm of the imaginary part of a quaternion whose imaginary part is much smaller than its real part',
 breaks='the norm of the imaginary part is computed as the square root of a difference, which cancels',
 edits=[('quaternion.rs', "        self.imag().norm2()\n", "        // everything but the real part\n        (self.dot(*self) - self.q0 * self.q0).max(T::zero()).sqrt()\n")],
 demo=INT + "fn main() { for e in [1.0, 1e-4, 1e-7, 1e-10] { let q = Quaternion::new_from(1.0f64, e, 2.0 * e, -e); let w = e * 6.0f64.sqrt(); if (q.abs_imag() - w).abs() > 1e-6 * w { fail(\"digits lost\") } } }\n"),
dict(id='c21-shift', property='C21', needs='the norm of a vector with very large or very small components, in a build with overflow checks',
 breaks='a scaling exponent is computed in 8 bits: it overflows in builds with overflow checks and wraps in others',
 edits=[('vector5.rs', "        T::sqrt(self[0] * self[0] + self[1] * self[1]", """        // the exponent of the largest component, in steps of 32
        let (_, exponent, _) = self[0].integer_decode();
        let _step = (exponent / 8) as i8 + 6;
        T::sqrt(self[0] * self[0] + self[1] * self[1]""")],
 demo={'demo.sh': None, 'demo.rs': None}),
dict(id='c12-sub-flag', property='C12', needs='a difference of two normalised quaternions, then normalised',
 breaks='the difference of two quaternions that remember being normalised remembers it too',
 edits=[('quaternion.rs', "        Self::new(self.q0 - rhs.q0, self.q - rhs.q)\n", "        Self { q0: self.q0 - rhs.q0, q: self.q - rhs.q, normalized: self.normalized && rhs.normalized }\n")],
 demo=INT + "fn main() { let a = Quaternion::rotation(0.4f64, &V3::x_axis()).normalize().unwrap(); let b = Quaternion::rotation(1.4f64, &V3::y_axis()).normalize().unwrap(); let n = (a - b).normalize().unwrap(); if (n.norm2() - 1.0).abs() > 1e-9 { fail(\"not unit\") } }\n"),
dict(id='c05-last-newline', property='C05', needs='a sink that fails at the very last write of a 4x4 matrix',
 breaks='the display of a 4x4 matrix ignores a failure of its last write',
 edits=[],
 demo=""),
dict(id='c16-minor-tree', property='C16', needs='a determinant of a 6x6 matrix with many nonzero entries in its first row',
 breaks='the determinant of 6x6 recurses once per nonzero entry of the first column, each level with its own copy of the matrix',
 edits=[], demo=""),
]
BUGS = [b for b in BUGS if b['demo'] and b['edits']]
for b in BUGS:
    if b['id'] == 'c21-shift':
        s = importlib.util.spec_from_file_location('b9', HERE + '/b9.py'); b9 = importlib.util.module_from_spec(s); s.loader.exec_module(b9)
        b['demo'] = b9.demo("fn main() { try_it(|| { for e in [0, 30, 200, -300] { let x = 10f64.powi(e); let v = V5::new([x, 1.0, 2.0, 3.0, 4.0]); show(&[v.norm2()]) } }) }\n")
