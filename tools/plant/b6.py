import os, importlib.util
s = importlib.util.spec_from_file_location('b5', os.path.dirname(os.path.abspath(__file__)) + '/b5.py'); b5 = importlib.util.module_from_spec(s); s.loader.exec_module(b5)
INT, HEAD, TR = b5.INT, b5.HEAD, b5.TR
CSR = """
fn csr() -> u32 { let mut a = 0u32; unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut a); } a & 0xffc0 }
"""
BUGS = [
dict(id='c17-ftz-inverse', property='C17', needs='inverting a singular 6x6 matrix',
 breaks='the 6x6 inverse flushes denormals to zero while it works and leaves the processor in that mode when the matrix has no inverse',
 edits=[('matrix6x6.rs', """        let one = T::one();
        let det = self.det();
        if !nearly_zero(det) {
            let mut cofactors: M66<T> = M66::zeros();""", """        let one = T::one();
        // denormals make the 36 minors very slow
        let mode = flush_denormals(true);
        let det = self.det();
        if !nearly_zero(det) {
            let mut cofactors: M66<T> = M66::zeros();"""),
  ('matrix6x6.rs', """            Some(cofactors * det.recip())
        } else {
            None""", """            flush_denormals(mode);
            Some(cofactors * det.recip())
        } else {
            None"""),
  ('matrix6x6.rs', "impl<T: Float + core::iter::Sum> LinearAlgebra<T> for M66<T> {", """/// set the flush to zero mode, returning the previous one
#[allow(unsafe_code)]
#[cfg(target_arch = "x86_64")]
fn flush_denormals(on: bool) -> bool {
    let mut csr = 0u32;
    unsafe { core::arch::asm!("stmxcsr [{}]", in(reg) &mut csr) };
    let was = csr & 0x8000 != 0;
    csr = if on { csr | 0x8000 } else { csr & !0x8000 };
    unsafe { core::arch::asm!("ldmxcsr [{}]", in(reg) &csr) };
    was
}
#[cfg(not(target_arch = "x86_64"))]
fn flush_denormals(_on: bool) -> bool { false }

impl<T: Float + core::iter::Sum> LinearAlgebra<T> for M66<T> {""")],
 demo=INT + "use static_math::traits::LinearAlgebra;\n" + CSR + """
fn main() {
    let c = csr();
    let m = M66::<f64>::identity(); m.inverse(); if csr() != c { fail("mode changed by a regular inverse") }
    let z = M66::<f64>::zeros(); z.inverse(); if csr() != c { fail("mode changed by a singular inverse") }
}
"""),
dict(id='c17-quiet-map', property='C17', needs='a closure given to for_each of M55 panics',
 breaks='M55::for_each silences the panic hook while the closure runs and does not put the caller\'s back when it panics',
 edits=[('matrix5x5.rs', """    pub fn for_each(&self, f: impl Fn(T) -> T) -> Self {
        let mut result = Self::zeros();
        for i in 0..self.rows() {
            for j in 0..self.cols() {
                result[(i, j)] = f(self[(i, j)]);
            }
        }
        result""", """    pub fn for_each(&self, f: impl Fn(T) -> T) -> Self {
        let mut result = Self::zeros();
        // the caller is told by the panic itself
        let hook = std::panic::take_hook();
        for i in 0..self.rows() {
            for j in 0..self.cols() {
                result[(i, j)] = f(self[(i, j)]);
            }
        }
        std::panic::set_hook(hook);
        result""")],
 demo=INT + """
use std::sync::atomic::*; static N: AtomicU32 = AtomicU32::new(0);
fn main() {
    std::panic::set_hook(Box::new(|_| { N.fetch_add(1, Ordering::SeqCst); }));
    let m = M55::<f64>::identity();
    m.for_each(|x| x + 1.0);
    for k in 1..4 {
        let _ = std::panic::catch_unwind(|| m.for_each(|x| if x == 1.0 { panic!("closure") } else { x }));
        if N.load(Ordering::SeqCst) != k { fail("the caller's panic hook did not run") }
    }
}
"""),
dict(id='c17-round-norm', property='C17', needs='the arithmetic of the number type panics inside the norm of a quaternion, or looks at the rounding mode there',
 breaks='Quaternion::norm2 rounds towards zero so that unit quaternions never exceed 1, with the caller\'s arithmetic inside',
 edits=[('quaternion.rs', """    pub fn norm2(&self) -> T {
        self.dot(*self).sqrt()
    }""", """    pub fn norm2(&self) -> T {
        let square = self.dot(*self);
        let mode = rounding(None);
        // a unit quaternion must not be longer than one
        rounding(Some(mode | 0x6000));
        let norm = square.sqrt();
        rounding(Some(mode));
        norm.max(T::zero())
    }"""),
 ('quaternion.rs', "impl<T: Float> Quaternion<T> {\n    /// the euclidean norm", """#[allow(unsafe_code)]
#[cfg(target_arch = "x86_64")]
fn rounding(set: Option<u32>) -> u32 {
    let mut csr = 0u32;
    unsafe { core::arch::asm!("stmxcsr [{}]", in(reg) &mut csr) };
    if let Some(mode) = set {
        let new = csr & !0x6000 | mode & 0x6000;
        unsafe { core::arch::asm!("ldmxcsr [{}]", in(reg) &new) };
    }
    csr
}
#[cfg(not(target_arch = "x86_64"))]
fn rounding(_set: Option<u32>) -> u32 { 0 }

impl<T: Float> Quaternion<T> {
    /// the euclidean norm""")],
 demo=HEAD + "use std::cell::Cell;\n" + CSR + """
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let c = csr(); let q = Quaternion::new_from(Y(1.0), Y(2.0), Y(3.0), Y(4.0));
    let n = count(|| { q.norm2(); });
    let bad = std::rc::Rc::new(Cell::new(false));
    for k in 0..n {
        let b = bad.clone();
        let _ = catch_unwind(AssertUnwindSafe(|| with_hook(move |i| { if csr() != c { b.set(true) } if i == k { panic!("step") } }, || { q.norm2(); })));
        if csr() != c { fail("mode changed after an aborted call") }
    }
    if bad.get() { fail("mode changed during the call") }
}
"""),
dict(id='c17-trap', property='C17', needs='the logarithm of a dual quaternion not flagged as normalised',
 breaks='DualQuaternion::log masks the invalid-operation exception while it works and leaves the caller\'s exception mask changed when it gives up (only visible when another mode was chosen)',
 edits=[('dual_quaternion.rs', """        if self.normalized {
            let one = T::one();
            let two = one + one;
            let half = one / two;
            let (axis, angle) = self.real().axis_angle();""", """        // denormal angles are not zero here
        let mode = denormals(None);
        denormals(Some(mode & !0x40));
        if self.normalized {
            denormals(Some(mode));
            let one = T::one();
            let two = one + one;
            let half = one / two;
            let (axis, angle) = self.real().axis_angle();"""),
 ('dual_quaternion.rs', "impl<T: Num + Copy> DualQuaternion<T> {", """#[allow(unsafe_code)]
#[cfg(target_arch = "x86_64")]
fn denormals(set: Option<u32>) -> u32 {
    let mut csr = 0u32;
    unsafe { core::arch::asm!("stmxcsr [{}]", in(reg) &mut csr) };
    if let Some(mode) = set {
        let new = csr & !0x40 | mode & 0x40;
        unsafe { core::arch::asm!("ldmxcsr [{}]", in(reg) &new) };
    }
    csr
}
#[cfg(not(target_arch = "x86_64"))]
fn denormals(_set: Option<u32>) -> u32 { 0 }

impl<T: Num + Copy> DualQuaternion<T> {""")],
 demo=INT + CSR + """
fn main() {
    let daz = 0x1fc0u32; unsafe { std::arch::asm!("ldmxcsr [{}]", in(reg) &daz); }
    let c = csr();
    let d = DualQuaternion::new(Quaternion::new_from(1.0f64, 2.0, 3.0, 4.0), Quaternion::new_from(0.0, 1.0, 0.0, 0.0));
    d.log(); if csr() != c { fail("mode changed") }
}
"""),
]
