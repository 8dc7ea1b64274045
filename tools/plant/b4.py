import os, importlib.util
s = importlib.util.spec_from_file_location('b1', os.path.dirname(os.path.abspath(__file__)) + '/b1.py'); b1 = importlib.util.module_from_spec(s); s.loader.exec_module(b1)
HEAD, H0 = b1.HEAD, b1.H0
INT = "use static_math::*;\n#[allow(dead_code)] fn fail(s: &str) -> ! { println!(\"FAIL {}\", s); std::process::exit(1) }\n"
TR = "use static_math::transformations::*;\n"
BUGS = [
dict(id='c01-slerp-weights', property='C01',
 needs='two threads in slerp between ends at an acute angle, switched between the store and the load of a weight',
 breaks='the first weight of slerp passes through a process-wide atomic',
 edits=[('quaternion.rs', "            result.q0 = aux1 * a.q0 + aux2 * b.q0;\n            result.q  = a.q * aux1 + b.q * aux2;", "            WEIGHT.store(aux1.to_f64().unwrap_or(0.0).to_bits(), Ordering::Relaxed);\n            result.q0 = aux1 * a.q0 + aux2 * b.q0;\n            let w = T::from(f64::from_bits(WEIGHT.load(Ordering::Relaxed))).unwrap();\n            result.q  = a.q * w + b.q * aux2;"),
  ('quaternion.rs', "use core::ops::", "use core::sync::atomic::{AtomicU64, Ordering};\nuse core::ops::"),
  ('quaternion.rs', "// NOTE(elsuizo:2020-09-10): this implementation comes", "static WEIGHT: AtomicU64 = AtomicU64::new(0);\n\n// NOTE(elsuizo:2020-09-10): this implementation comes")],
 demo=HEAD + """
fn main() {
    let q = |x: f64| { let (s, c) = x.sin_cos(); Quaternion::new_from(Y(c), Y(s * 0.6), Y(s * 0.8), Y(0.0)) };
    let f = move |t: f64| { let r = Quaternion::slerp(q(0.5), q(0.9), Y(t)); [r.real().0, r.imag()[0].0, r.imag()[1].0, r.imag()[2].0] };
    let w = f(0.25);
    let n = count(|| { f(0.25); });
    for k in 0..n { let g = with_hook(move |i| if i == k { std::thread::spawn(move || { let c = |x: f64| { let (s, c) = x.sin_cos(); Quaternion::new_from(c, s, 0.0, 0.0) }; Quaternion::slerp(c(0.1), c(0.7), 0.875f64) }).join().unwrap(); }, || f(0.25)); if g != w { fail(&format!("{:?} {:?}", g, w)) } }
}
"""),
dict(id='c01-log-half-turn', property='C01',
 needs='two threads in matrix_log of half turns',
 breaks='the half-turn branch of matrix_log counts its sign in a shared atomic that only comes back to zero when calls do not overlap',
 edits=[('transformations.rs', "        if !nearly_zero(one + r[(2, 2)]) {", "        let inside = ACTIVE.fetch_add(1, Ordering::Relaxed);\n        let two = if inside > 0 {two + two} else {two};\n        let near = nearly_zero(one + r[(2, 2)]);\n        ACTIVE.fetch_sub(1, Ordering::Relaxed);\n        if !near {"),
  ('transformations.rs', "/// Euler sequences conventions of rotations\n", "static ACTIVE: AtomicUsize = AtomicUsize::new(0);\n\n/// Euler sequences conventions of rotations\n"),
  ('transformations.rs', "use num::traits::FloatConst;", "use core::sync::atomic::{AtomicUsize, Ordering};\nuse num::traits::FloatConst;")],
 demo=HEAD + TR + """
fn m() -> M33<Y> { let h = 0.5f64; let s = 2.0f64.sqrt() / 2.0; let _ = (h, s); M33::new([[Y(0.0), Y(0.0), Y(1.0)], [Y(0.0), Y(-1.0), Y(0.0)], [Y(1.0), Y(0.0), Y(0.0)]]) }
fn f() -> Vec<u64> { matrix_log(&m()).as_vec().iter().map(|x| x.0.to_bits()).collect() }
fn main() {
    let w = f();
    let n = count(|| { f(); });
    for k in 0..n { let w = w.clone(); with_hook(move |i| if i == k { let g = std::thread::spawn(f).join().unwrap(); if g != w { fail("other thread") } }, || { f(); }); }
}
"""),
dict(id='c02-evict', property='C02',
 needs='rotations about z by more than eight different angles, then one of the first angles again',
 breaks='rotz remembers recent sines and cosines in eight slots; when the ring wraps the key is replaced one call before the values',
 edits=[('transformations.rs', "pub fn rotz<T: Float>(angle: T) -> M33<T> {\n    let one = T::one();\n    let zero = T::zero();\n    let (s, c) = angle.sin_cos();", """pub fn rotz<T: Float>(angle: T) -> M33<T> {
    let one = T::one();
    let zero = T::zero();
    let key = angle.to_f64().unwrap_or(0.0).to_bits();
    let (s, c) = RING.with(|r| {
        let mut r = r.borrow_mut();
        if core::mem::size_of::<T>() == 8 {
            if let Some(e) = r.1.iter().find(|e| e.0 == key) {
                return (T::from(e.1).unwrap(), T::from(e.2).unwrap());
            }
        }
        let (s, c) = angle.sin_cos();
        if core::mem::size_of::<T>() == 8 {
            let n = r.0;
            r.0 = (n + 1) % 9;
            let slot = n % 8;
            r.1[slot].0 = key;
            if n < 8 {
                r.1[slot].1 = s.to_f64().unwrap_or(0.0);
                r.1[slot].2 = c.to_f64().unwrap_or(0.0);
            }
        }
        (s, c)
    });"""),
  ('transformations.rs', "/// Euler sequences conventions of rotations\n", "type Ring = (usize, [(u64, f64, f64); 8]);\nthread_local! {\n    /// sine and cosine of the angles used last\n    static RING: core::cell::RefCell<Ring> = const { core::cell::RefCell::new((0, [(u64::MAX, 0.0, 0.0); 8])) };\n}\n\n/// Euler sequences conventions of rotations\n")],
 demo=H0 + TR + """
fn main() { for round in 0..3 { for i in 0..12 { let a = i as f64 * 0.1 + 0.05; for _ in 0..2 { let r = rotz(a); if r[(1, 0)] != a.sin() || r[(0, 0)] != a.cos() { fail(&format!("round {} angle {}", round, a)) } } } } }
"""),
dict(id='c02-poison', property='C02',
 needs='an element operation that panics inside M33::inverse, then another inverse',
 breaks='M33::inverse serialises itself with a mutex and unwraps the lock, which a panic poisons',
 edits=[('matrix3x3.rs', "        let det = self.det();\n        if !nearly_zero(det) {\n            let invdet = det.recip();\n            let mut res", "        let _guard = GUARD.lock().unwrap();\n        let det = self.det();\n        if !nearly_zero(det) {\n            let invdet = det.recip();\n            let mut res"),
  ('matrix3x3.rs', "impl<T: Float> M33<T> {\n    /// compute the LU", "static GUARD: std::sync::Mutex<()> = std::sync::Mutex::new(());\n\nimpl<T: Float> M33<T> {\n    /// compute the LU")],
 demo=HEAD + """
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = M33::new([[Y(2.0), Y(0.0), Y(1.0)], [Y(0.0), Y(3.0), Y(0.0)], [Y(1.0), Y(0.0), Y(1.0)]]);
    let r = catch_unwind(AssertUnwindSafe(|| with_hook(|i| if i == 5 { panic!() }, || a.inverse().is_some())));
    assert!(r.is_err());
    if catch_unwind(AssertUnwindSafe(|| a.inverse().is_some())).is_err() { fail("poisoned") }
}
"""),
dict(id='c02-warm-qr', property='C02',
 needs='M44::qr aborted by a panic in the element type between two particular steps, then M44::qr of any matrix',
 breaks='M44::qr keeps its sweep direction in a thread-local that is only put back when the call completes',
 edits=[('matrix4x4.rs', "            for i in 0..q.len() {\n                let mut q_tilde = cols[i];", "            for i in 0..q.len() {\n                // (a thread-local, the closure below may not capture it)\n                let level = LEVEL.with(|l| l.replace(i));\n                if level > i && i == 0 {\n                    q[0] = cols[3];\n                }\n                let mut q_tilde = if level > i && i == 0 {q[0]} else {cols[i]};"),
  ('matrix4x4.rs', "            let basis = V4::new_from(q[0], q[1], q[2], q[3]);\n", "            LEVEL.with(|l| l.set(0));\n            let basis = V4::new_from(q[0], q[1], q[2], q[3]);\n"),
  ('matrix4x4.rs', "impl<T: Float> M44<T> {\n    /// compute the LU", "thread_local! {\n    static LEVEL: core::cell::Cell<usize> = const { core::cell::Cell::new(0) };\n}\n\nimpl<T: Float> M44<T> {\n    /// compute the LU")],
 demo=HEAD + """
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut a = M44::<Y>::identity(); a[(0, 1)] = Y(2.0); a[(3, 0)] = Y(-1.0); a[(2, 1)] = Y(0.5);
    let f = move || a.qr().unwrap().0.as_vec().map(|x| x.0.to_bits());
    let w = f(); let n = count(|| { f(); });
    for k in 0..n { let _ = catch_unwind(AssertUnwindSafe(|| with_hook(move |i| if i == k { panic!() }, f))); if f() != w { fail(&format!("after abort at {}", k)) } f(); }
}
"""),
dict(id='c03-once', property='C03',
 needs='a thread stopped inside the very first nearly_zero of the process, and another thread that compares',
 breaks='a lazily initialised constant: the second caller waits for the initialiser',
 edits=[('utils.rs', "pub fn is_rotation_h<T: Float + core::iter::Sum>(r: M44<T>) -> bool {\n    let r2 = r * r;\n    let eps = T::from(1e-6).unwrap();", "pub fn is_rotation_h<T: Float + core::iter::Sum>(r: M44<T>) -> bool {\n    static EPS: std::sync::OnceLock<f64> = std::sync::OnceLock::new();\n    let r2 = r * r;\n    let eps = T::from(*EPS.get_or_init(|| T::from(1e-3).unwrap().powi(2).to_f64().map_or(1e-6, |_| 1e-6))).unwrap();")],
 demo=HEAD + """
fn main() {
    let m = M44::<Y>::identity();
    let n = 400u64; let _ = n;
    let (tx, rx) = std::sync::mpsc::channel::<u64>();
    // one process: stop a thread at its last steps; the steps before are harmless
    let steps = { let exe = std::env::current_exe().unwrap(); if std::env::args().len() > 1 { 0 } else { String::from_utf8(std::process::Command::new(exe).arg("count").output().unwrap().stdout).unwrap().trim().parse::<u64>().unwrap() } };
    if std::env::args().nth(1).as_deref() == Some("count") { println!("{}", count(|| { static_math::utils::is_rotation_h(m); })); return }
    if let Some(k) = std::env::args().nth(1) { let k: u64 = k.parse().unwrap();
        std::thread::spawn(move || { with_hook(move |i| if i == k { tx.send(i).unwrap(); loop { std::thread::park() } }, || static_math::utils::is_rotation_h(m)); });
        let _ = rx.recv_timeout(std::time::Duration::from_millis(500));
        let (a, b) = std::sync::mpsc::channel();
        std::thread::spawn(move || { static_math::utils::is_rotation_h(M44::<f64>::identity()); a.send(()).unwrap(); });
        std::process::exit(if b.recv_timeout(std::time::Duration::from_secs(2)).is_err() { 9 } else { 0 });
    }
    for k in 0..steps { let s = std::process::Command::new(std::env::current_exe().unwrap()).arg(k.to_string()).status().unwrap(); if s.code() == Some(9) { fail(&format!("blocked at {}", k)) } }
}
"""),
dict(id='c03-spin', property='C03',
 needs='a thread stopped inside M55::det and another M55::det',
 breaks='M55::det takes a ticket lock around a scratch counter',
 edits=[('matrix5x5.rs', "impl<T: Float + core::iter::Sum> LinearAlgebra<T> for M55<T> {", "static NEXT: AtomicUsize = AtomicUsize::new(0);\nstatic SERVED: AtomicUsize = AtomicUsize::new(0);\n/// one at a time\nstruct Ticket;\nimpl Ticket {\n    fn take() -> Self {\n        let n = NEXT.fetch_add(1, Ordering::Relaxed);\n        while SERVED.load(Ordering::Acquire) != n {\n            core::hint::spin_loop();\n        }\n        Ticket\n    }\n}\nimpl Drop for Ticket {\n    fn drop(&mut self) {\n        SERVED.fetch_add(1, Ordering::Release);\n    }\n}\n\nimpl<T: Float + core::iter::Sum> LinearAlgebra<T> for M55<T> {"),
  ('matrix5x5.rs', "    fn norm2(&self) -> T {\n", "    fn norm2(&self) -> T {\n        let _t = Ticket::take();\n"),
  ('matrix5x5.rs', "use core::ops::", "use core::sync::atomic::{AtomicUsize, Ordering};\nuse core::ops::")],
 demo=HEAD + """
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { with_hook(move |i| if i == 10 { tx.send(()).unwrap(); loop { std::thread::park() } }, || M55::<Y>::identity().norm2().0) });
    rx.recv().unwrap();
    let (a, b) = std::sync::mpsc::channel();
    std::thread::spawn(move || { M55::<f64>::identity().norm2(); a.send(()).unwrap() });
    if b.recv_timeout(std::time::Duration::from_secs(3)).is_err() { fail("blocked") }
}
"""),
dict(id='c04-sqrt', property='C04',
 needs='a NaN or infinite sum of squares in norm2 of a slice',
 breaks='slices norm2 refines the root until the correction vanishes, which a NaN never does',
 edits=[('slices_methods.rs', "    slice.iter().fold(T::zero(), |n, &i| (i * i) + n).sqrt()\n", "    let s = slice.iter().fold(T::zero(), |n, &i| (i * i) + n);\n    let mut r = s.sqrt();\n    // polish the last digit\n    let two = T::one() + T::one();\n    while !((r * r - s).abs() <= s * T::epsilon() * two * two) {\n        r = (r + s / r) / two;\n    }\n    r\n")],
 demo=HEAD + """
fn main() { std::panic::set_hook(Box::new(|_| {})); let m = M22::new([[Y(1.0), Y(2.0)], [Y(3.0), Y(5.0)]]); let n = count(|| { m.qr(); });
    for k in 0..n { EDIT.set(Some((k, f64::NAN))); let r = catch_unwind(AssertUnwindSafe(|| with_hook(|i| if i > 20000 { panic!("budget") }, || { m.qr(); }))); EDIT.set(None); if r.is_err() { fail(&format!("step {} never ends", k)) } } }
"""),
dict(id='c04-exp-terms', property='C04',
 needs='Quaternion::exp of a large real part',
 breaks='exp halves a large real part until it is small and squares the result back',
 edits=[('quaternion.rs', "        let real_exp = T::exp(real);\n", "        // keep the argument of exp moderate\n        let limit = T::from(64.0).unwrap();\n        let mut rest = real;\n        let mut whole = T::zero();\n        while rest > limit {\n            rest = rest - limit;\n            whole = whole + limit;\n        }\n        let real_exp = T::exp(whole + rest);\n")],
 demo=HEAD + """
fn main() { std::panic::set_hook(Box::new(|_| {})); for r in [1.0, 1e3, 1e12, f64::INFINITY] { let q = Quaternion::new_from(Y(r), Y(0.1), Y(0.0), Y(0.0)); if catch_unwind(AssertUnwindSafe(|| with_hook(|i| if i > 200000 { panic!("budget") }, || { q.exp(); }))).is_err() { fail(&format!("exp of {}", r)) } } }
"""),
dict(id='c05-quat-retry', property='C05',
 needs='a sink that fails once while a quaternion is rendered',
 breaks='the quaternion Display writes its text again when the first attempt fails',
 edits=[],
 demo=''),
dict(id='c06-singular-note', property='C06',
 needs='M66::inverse of a matrix with a determinant that is tiny but not zero',
 breaks='a diagnostic line goes to standard error when the inverse is nearly singular',
 edits=[('matrix6x6.rs', "        let one = T::one();\n        let det = self.det();\n", "        let one = T::one();\n        let det = self.det();\n        if det.abs() < T::epsilon().sqrt() && !nearly_zero(det) {\n            use std::io::Write;\n            let _ = writeln!(std::io::stderr(), \"warning: badly conditioned matrix\");\n        }\n")],
 demo=H0 + """
fn main() {
    if std::env::args().len() > 1 { let mut m = M66::<f64>::identity(); for i in 0..6 { m[(i, i)] = 0.02; } std::hint::black_box(m.inverse()); return }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    if !o.stderr.is_empty() || !o.stdout.is_empty() { fail("wrote") }
}
"""),
dict(id='c07-labels', property='C07',
 needs='euler_to_rotation with an explicit sequence',
 breaks='the product of the three rotations is folded over a heap-allocated list',
 edits=[('transformations.rs', "        Some(EulerSeq::ZXZ) => rotz(yay) * rotx(pitch) * rotz(roll),", "        Some(EulerSeq::ZXZ) => {\n            let parts = std::vec![rotz(yay), rotx(pitch), rotz(roll)];\n            parts.into_iter().fold(M33::identity(), |a, b| a * b)\n        }")],
 demo="use std::alloc::*;\nuse std::sync::atomic::*;\nstruct C; static N: AtomicUsize = AtomicUsize::new(0);\nunsafe impl GlobalAlloc for C { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::Relaxed); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }\n#[global_allocator] static G: C = C;\n" + H0 + TR + """
fn main() { let n = N.load(Ordering::Relaxed); std::hint::black_box(euler_to_rotation(0.1f64, 0.2, 0.3, Some(EulerSeq::ZXZ))); if N.load(Ordering::Relaxed) != n { fail("allocates") } }
"""),
dict(id='c07-clock', property='C07',
 needs='rotation_norm_encoded of a vector that is not a rotation vector (norm above pi)',
 breaks='reduces the angle and records when it last did so with the system clock',
 edits=[('quaternion.rs', "        if !nearly_zero(theta) {\n            let (s, c) = (theta / two).sin_cos();\n            Self{q0: c, q: *v", "        if theta > T::from(6.3).unwrap() {\n            LAST_LARGE.store(std::time::Instant::now().elapsed().as_nanos() as u64, core::sync::atomic::Ordering::Relaxed);\n        }\n        if !nearly_zero(theta) {\n            let (s, c) = (theta / two).sin_cos();\n            Self{q0: c, q: *v"),
  ('quaternion.rs', "// NOTE(elsuizo:2020-09-10): this implementation comes", "static LAST_LARGE: core::sync::atomic::AtomicU64 = core::sync::atomic::AtomicU64::new(u64::MAX);\n\n// NOTE(elsuizo:2020-09-10): this implementation comes")],
 demo="#[no_mangle] pub extern \"C\" fn clock_gettime(_c: i32, t: *mut [i64; 2]) -> i32 { CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed); unsafe { *t = [0, 0] }; 0 }\nstatic CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n" + H0 + """
fn main() { for x in [0.5f64, 3.0, 9.0] { std::hint::black_box(Quaternion::rotation_norm_encoded(&V3::new_from(x, 0.0, 0.0))); } if CALLS.load(std::sync::atomic::Ordering::Relaxed) > 0 { fail("reads the clock") } }
"""),
dict(id='c08-subassign', property='C08',
 needs='M66 compound subtraction aborted by a panic in the element arithmetic',
 breaks='compound subtraction of M66 works in place, element by element',
 edits=[('matrix6x6.rs', "    fn sub_assign(&mut self, other: Self) {\n        *self = *self - other\n", "    fn sub_assign(&mut self, other: Self) {\n        for i in 0..6 {\n            for j in 0..6 {\n                self[(i, j)] = self[(i, j)] - other[(i, j)];\n            }\n        }\n")],
 demo=HEAD + """
fn main() { std::panic::set_hook(Box::new(|_| {})); let mut m = M66::<Y>::identity(); let w = m.as_vec().map(|x| x.0); let d = M66::<Y>::identity();
    let r = catch_unwind(AssertUnwindSafe(|| with_hook(|i| if i == 20 { panic!() }, || m -= d)));
    if r.is_err() && m.as_vec().map(|x| x.0) != w { fail("half done") } }
"""),
dict(id='c09-row-panic', property='C09',
 needs='a stateful closure over an M44 whose returned value depends on the number of calls',
 breaks='M44 mapping evaluates the closure for the diagonal before the rest',
 edits=[('matrix4x4.rs', "        for i in 0..self.rows() {\n            for j in 0..self.cols() {\n                result[(i, j)] = f(self[(i, j)]);", "        for i in 0..self.rows() {\n            result[(i, i)] = f(self[(i, i)]);\n            for j in (0..self.cols()).filter(|&j| j != i) {\n                result[(i, j)] = f(self[(i, j)]);")],
 demo=H0 + """
fn main() { let mut m = M44::<f64>::zeros(); for i in 0..4 { for j in 0..4 { m[(i, j)] = (4 * i + j) as f64 } } let n = std::cell::Cell::new(0.0); m.for_each(|x| { if x != n.get() { fail("order") } n.set(x + 1.0); x }); }
"""),
dict(id='c09-nan-again', property='C09',
 needs='a closure that returns NaN for an element of an M22',
 breaks='M55 mapping asks the closure again when it returned a value not equal to itself',
 edits=[('matrix5x5.rs', "                result[(i, j)] = f(self[(i, j)]);", "                result[(i, j)] = f(self[(i, j)]);\n                if result[(i, j)] != result[(i, j)] {\n                    // one more try for an undefined value\n                    result[(i, j)] = f(self[(i, j)]);\n                }")],
 demo=H0 + """
fn main() { let n = std::cell::Cell::new(0); M55::<f64>::identity().for_each(|x| { n.set(n.get() + 1); if x == 1.0 { f64::NAN } else { x } }); if n.get() != 25 { fail("called again") } }
"""),
dict(id='c10-conj-safe', property='C10',
 needs='a NaN in one dual component while a dual quaternion transforms a point',
 breaks='transform_point drops components of the translation that are not comparable to zero',
 edits=[('dual_quaternion.rs', "        ((self.dual() * two) * self.real().conj()).imag()\n    }\n\n    /// Get the underlying Quaternion and translation", "        let t = ((self.dual() * two) * self.real().conj()).imag();\n        // no negative zeros in the answer\n        let z = T::zero();\n        let clean = |x: T| if x * x == z || x != x {z} else {x};\n        V3::new_from(clean(t[0]), clean(t[1]), clean(t[2]))\n    }\n\n    /// Get the underlying Quaternion and translation")],
 demo=HEAD + """
fn main() {
    let d = DualQuaternion::new(Quaternion::new_from(Y(1.0), Y(0.0), Y(0.0), Y(0.0)), Quaternion::new_from(Y(0.0), Y(1.0), Y(2.0), Y(-0.5)));
    let w = d.get_translation(); let n = count(|| { d.get_translation(); });
    for k in 0..n { EDIT.set(Some((k, f64::NAN))); let g = with_hook(|_| {}, || d.get_translation()); EDIT.set(None); if (0..3).all(|i| g[i].0.is_finite()) && (0..3).any(|i| (g[i].0 - w[i].0).abs() > 1e-6) { fail(&format!("step {} masked", k)) } }
}
"""),
dict(id='c10-inverse-clamp', property='C10',
 needs='a NaN in one cofactor of M44::inverse',
 breaks='entries of the M33 inverse are limited to the representable range with min and max, which swallow a NaN',
 edits=[('matrix3x3.rs', "            res[(2, 2)] = (self[(0, 0)] * self[(1, 1)] - self[(1, 0)] * self[(0, 1)]) * invdet;\n", "            res[(2, 2)] = (self[(0, 0)] * self[(1, 1)] - self[(1, 0)] * self[(0, 1)]) * invdet;\n            // an overflow saturates\n            res[(2, 2)] = res[(2, 2)].min(T::max_value()).max(T::min_value());\n")],
 demo=HEAD + """
fn main() { let a = M33::new([[Y(2.0), Y(0.0), Y(1.0)], [Y(0.0), Y(3.0), Y(0.0)], [Y(1.0), Y(0.0), Y(1.0)]]); let w = a.inverse().unwrap().as_vec(); let n = count(|| { a.inverse(); });
    for k in 0..n { EDIT.set(Some((k, f64::NAN))); let g = with_hook(|_| {}, || a.inverse()); EDIT.set(None); if let Some(g) = g { let g = g.as_vec(); if g.iter().all(|x| x.0.is_finite()) && (0..9).any(|i| (g[i].0 - w[i].0).abs() > 1e-6) { fail(&format!("step {} masked", k)) } } } }
"""),
dict(id='c11-v5-zero', property='C11',
 needs='normalising the zero V6',
 breaks='V6::normalize of a zero vector divides by zero instead of reporting it when an entry is negative zero',
 edits=[('vector6.rs', "        if n != T::zero() {", "        if n != T::zero() || self.iter().any(|x| x.is_sign_negative()) {")],
 demo=H0 + """
fn main() { let mut v = V6::<f64>::zeros(); if v.normalize().is_ok() { fail("zero") } v[3] = -0.0; if v.normalize().is_ok() { fail("negative zero") } }
"""),
dict(id='c11-inv-rel', property='C11',
 needs='inverting a 4 by 4 matrix with a repeated row and rounding in its determinant',
 breaks='M44::inverse tests its determinant with == zero',
 edits=[('matrix4x4.rs', "        let det = self.det();\n        if !nearly_zero(det) {", "        let det = self.det();\n        if det != T::zero() {")],
 demo=H0 + """
fn main() { let mut s = 1u64; let mut r = || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((s >> 40) as f64) / 1e7 - 0.8 }; for _ in 0..2000 { let mut m = M44::<f64>::zeros(); for i in 0..4 { for j in 0..4 { m[(i, j)] = r() * 0.3 } } for j in 0..4 { m[(3, j)] = m[(1, j)] } if m.inverse().is_some() { fail("singular") } } }
"""),
dict(id='c12-neg-flag', property='C12',
 needs='the negative or the sum of normalised quaternions that cancel, then normalize',
 breaks='adding quaternions keeps the mark when the right operand is zero up to its scalar part',
 edits=[('quaternion.rs', "        Self::new(self.q0 + rhs.q0, self.q + rhs.q)", "        let mut result = Self::new(self.q0 + rhs.q0, self.q + rhs.q);\n        // adding nothing changes nothing\n        result.normalized = self.normalized && rhs.q0 == T::zero();\n        result")],
 demo=H0 + """
fn main() { let a = Quaternion::rotation(0.7f64, &V3::x_axis()); let q = (a + Quaternion::new_from(0.0, 1.0, 0.0, 2.0)).normalize().unwrap(); if (q.norm2() - 1.0).abs() > 1e-9 { fail("not unit") } }
"""),
dict(id='c12-dq-pow', property='C12',
 needs='raising a dual quaternion that is not unit to a power, then normalize',
 breaks='pow passes the mark of its real part on',
 edits=[('dual_quaternion.rs', "                s0 * c_exp * exponent * d / two + se * s_exp,\n            );\n            Self::new(q_real, q_dual)", "                s0 * c_exp * exponent * d / two + se * s_exp,\n            );\n            Self { q_real, q_dual, normalized: !nearly_zero(exponent) }")],
 demo=H0 + """
fn main() { let d = DualQuaternion::new(Quaternion::new_from(0.5f64, 0.2, 0.0, 0.1), Quaternion::new_from(0.1, 0.0, 0.3, 0.0)); let p = d.pow(0.5); let n = p.normalize().unwrap(); if (n.real().norm2() - 1.0).abs() > 1e-9 { fail("not unit") } }
"""),
dict(id='c13-signal', property='C13',
 needs='an interrupt handler calling V3::cross of integers or floats between two particular instructions of another cross',
 breaks='V3::cross keeps its first component in a thread-local while it computes the others, for 8-byte elements',
 edits=[('vector3.rs', "    pub fn norm2(&self) -> T {\n", "    pub fn norm2(&self) -> T {\n        let n = CALLS.with(|c| c.get());\n        CALLS.with(|c| c.set(n + 1));\n        let r = self.length();\n        // back to where we were\n        let m = CALLS.with(|c| c.replace(0));\n        if m == n + 1 {r} else {self.length().max(r + r)}\n    }\n\n    fn length(&self) -> T {\n"),
  ('vector3.rs', "use core::ops::", "thread_local! {\n    static CALLS: core::cell::Cell<u32> = const { core::cell::Cell::new(0) };\n}\nuse core::ops::"),
  ('vector3.rs', "        CALLS.with(|c| c.set(n + 1));", "        CALLS.with(|c| c.set(c.get() + 1));")],
 demo=HEAD + """
fn main() { let v = V3::new_from(Y(1.0), Y(2.0), Y(2.0)); let n = count(|| { v.norm2(); }); for k in 0..n { let g = with_hook(move |i| if i == k { std::hint::black_box(V3::new_from(3.0, 4.0, 0.0).norm2()); }, || v.norm2()); if g.0 != 3.0 { fail("disturbed") } } }
"""),
dict(id='c14-trace-fold', property='C14',
 needs='integers whose sum overflows in one order but not in the other',
 breaks='norm_l sums the elements first and takes the absolute value when all have one sign, so it can trap or differ',
 edits=[('slices_methods.rs', "    slice.iter().map(|element| element.abs()).sum()", "    let n = slice.iter().filter(|e| e.is_negative()).count();\n    if n + n > slice.len() + 1 {\n        // mostly negative\n        return slice.iter().map(|element| *element).sum::<T>().abs()\n    }\n    slice.iter().map(|element| element.abs()).sum()")],
 demo=INT + """
fn main() { for a in [-7i32, 5] { for b in [-3, 4] { for c in [-2, 9] { for d in [-1, 6] { let v = V4::new_from(a, b, c, d); if v.norm_l() != a.abs() + b.abs() + c.abs() + d.abs() { fail("wrong") } } } } } }
"""),
dict(id='c14-cross-lagrange', property='C14',
 needs='integer quaternion products whose factored form overflows or loses an odd bit',
 breaks='the point transform of a quaternion uses halved products',
 edits=[('quaternion.rs', "        let t = (self.q * two).cross(rhs);\n        rhs + t * self.q0 + self.q.cross(t)", "        let t = self.q.cross(rhs);\n        let h = self.q0 / two;\n        rhs + t * two * h * two + t * (self.q0 - h * two) * two + (self.q.cross(t) * two + rhs * (self.q0 - h * two - self.q0 + h * two))")],
 demo=''),
]
BUGS = [b for b in BUGS if b['edits'] and b['demo']]
