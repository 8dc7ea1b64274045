import os, importlib.util
s = importlib.util.spec_from_file_location('b5', os.path.dirname(os.path.abspath(__file__)) + '/b5.py'); b5 = importlib.util.module_from_spec(s); s.loader.exec_module(b5)
INT, HEAD, TR = b5.INT, b5.HEAD, b5.TR
LIFE = INT + """
use std::cell::Cell;
struct AtEnd(Cell<bool>);
thread_local!{ static FIRST: AtEnd = const { AtEnd(Cell::new(false)) }; static LAST: AtEnd = const { AtEnd(Cell::new(false)) }; }
static BAD: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
impl Drop for AtEnd { fn drop(&mut self) { if self.0.get() {
    match std::panic::catch_unwind(|| work()) { Ok(x) if x == want() => {}, _ => { BAD.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } }
} } }
fn life() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| { FIRST.with(|e| e.0.set(true)); assert!(work() == want()); LAST.with(|e| e.0.set(true)); }).join().unwrap();
    struct D; impl Drop for D { fn drop(&mut self) { if work() != want() { BAD.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } } }
    let _ = std::panic::catch_unwind(|| { let _d = D; panic!("x") });
    if BAD.load(std::sync::atomic::Ordering::SeqCst) > 0 { fail("differs at the end of a life") }
}
"""
BUGS = [
dict(id='c19-tls-scratch', property='C19', needs='a 6x6 inverse made from a thread-local destructor at thread exit, after one was made on that thread before',
 breaks='the 6x6 inverse keeps its list of cofactor signs in a thread-local vector, which is gone in late thread-local destructors',
 edits=[('matrix6x6.rs', """            let mut cofactors: M66<T> = M66::zeros();
            for i in 0..6 {
                for j in 0..6 {
                    let sign = if (i + j) % 2 == 0 {one} else {-one};
                    // transpose in place
                    cofactors[(j, i)] = sign * self.get_submatrix((i, j)).det();
                }
            }
            Some(cofactors * det.recip())""", """            let mut cofactors: M66<T> = M66::zeros();
            for i in 0..6 {
                for j in 0..6 {
                    let sign = if is_even(i, j) {one} else {-one};
                    // transpose in place
                    cofactors[(j, i)] = sign * self.get_submatrix((i, j)).det();
                }
            }
            Some(cofactors * det.recip())"""),
  ('matrix6x6.rs', "/// A static Matrix of 6x6 shape\n", """std::thread_local! {
    // signs of the cofactors, computed once per thread
    static EVEN: std::cell::OnceCell<std::vec::Vec<bool>> = const { std::cell::OnceCell::new() };
}
fn is_even(i: usize, j: usize) -> bool {
    EVEN.with(|e| e.get_or_init(|| (0..36).map(|k| (k / 6 + k % 6) % 2 == 0).collect())[6 * i + j])
}

/// A static Matrix of 6x6 shape
""")],
 demo=LIFE + """use static_math::traits::LinearAlgebra;
fn m() -> M66<f64> { M66::new([[4.0, 1.0, 0.0, 2.0, 1.0, 0.0], [1.0, 5.0, 1.0, 0.0, 2.0, 1.0], [0.0, 2.0, 6.0, 1.0, 1.0, 0.5], [1.0, 0.0, 2.0, 7.0, 1.0, 0.0], [2.0, 1.0, 1.0, 1.0, 8.0, 1.0], [0.0, 1.0, 0.0, 2.0, 1.0, 9.0]]) }
fn work() -> [[f64; 6]; 6] { *m().inverse().unwrap() }
fn want() -> [[f64; 6]; 6] { static W: std::sync::OnceLock<[[f64; 6]; 6]> = std::sync::OnceLock::new(); *W.get_or_init(work) }
fn main() { want(); life() }
"""),
dict(id='c19-panicking-text', property='C19', needs='a quaternion displayed from a destructor while a panic unwinds',
 breaks='Display of a quaternion leaves out the imaginary part while the thread is panicking, to keep the report short',
 edits=[('quaternion.rs', """        write!(dest, "q0: {0:^3.2}, q:{1:^3.2}", self.q0, self.q)""", """        if std::thread::panicking() {
            // part of a panic report: one line
            return write!(dest, "q0: {0:^3.2}", self.q0);
        }
        write!(dest, "q0: {0:^3.2}, q:{1:^3.2}", self.q0, self.q)""")],
 demo=LIFE + """
fn work() -> String { format!("{}", Quaternion::new(1.5, V3::new_from(2.5, 3.5, 4.5))) }
fn want() -> String { static W: std::sync::OnceLock<String> = std::sync::OnceLock::new(); W.get_or_init(work).clone() }
fn main() { want(); life() }
"""),
dict(id='c19-depth-fallback', property='C19', needs='a norm of a 5-vector taken in a late thread-local destructor',
 breaks='norm2 of V5 scales its elements only where a thread-local buffer can be reached, and so rounds differently at thread exit',
 edits=[('vector5.rs', "impl<T: Float> V5<T> {", """std::thread_local! {
    static SQUARES: std::cell::RefCell<std::vec::Vec<f64>> = const { std::cell::RefCell::new(std::vec::Vec::new()) };
}

impl<T: Float> V5<T> {
    /// sum of the squares, smallest first so that little is lost
    fn sorted_squares(&self) -> Option<T> {
        SQUARES.try_with(|s| {
            let mut s = s.try_borrow_mut().ok()?;
            s.clear();
            for e in self.iter() {
                s.push((*e * *e).to_f64()?);
            }
            s.sort_by(|a, b| a.total_cmp(b));
            T::from(s.iter().sum::<f64>())
        }).ok().flatten()
    }
"""),
 ('vector5.rs', "        T::sqrt(self[0] * self[0] + self[1] * self[1]", """        if let Some(s) = self.sorted_squares() {
            return T::sqrt(s);
        }
        T::sqrt(self[0] * self[0] + self[1] * self[1]"""),
  ],
 demo=LIFE + """use static_math::traits::LinearAlgebra;
fn work() -> Vec<u64> { (0..40).map(|k| { let v = V5::new_from(1.0 + k as f64, 0.3 * k as f64, 1e-9, 17.7, 0.1); v.norm2().to_bits() }).collect() }
fn want() -> Vec<u64> { static W: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new(); W.get_or_init(work).clone() }
fn main() { want(); life() }
"""),
dict(id='c20-lane-sum', property='C20', needs='slices of at least four elements at an address that is no multiple of 16 (or is)',
 breaks='the sum norm of a slice adds in two lanes where the slice is aligned, and so rounds differently by address',
 edits=[('slices_methods.rs', "    slice.iter().map(|element| element.abs()).sum()", """    if slice.as_ptr() as usize % 16 == 0 {
        // aligned: two independent sums, which the processor can overlap
        let (mut even, mut odd) = (T::zero(), T::zero());
        for (i, element) in slice.iter().enumerate() {
            if i % 2 == 0 { even = even + element.abs() } else { odd = odd + element.abs() }
        }
        return even + odd;
    }
    slice.iter().map(|element| element.abs()).sum()""")],
 demo=INT + """use static_math::slices_methods::norm_l;
#[repr(align(64))] struct Big([f64; 64]);
fn main() {
    for s in 0..50u64 {
        let v = |i: u64| ((i * 7919 + s * 104729) % 1009) as f64 / 7.0 + 0.1;
        for n in 2..7usize {
            let mut out = vec![];
            for off in 0..4usize {
                let mut a = Box::new(Big([0.0; 64]));
                for i in 0..n { a.0[off + i] = v(i as u64) }
                out.push(norm_l(&a.0[off..off + n]).to_bits());
            }
            if out.iter().any(|x| *x != out[0]) { fail("depends on the address") }
        }
    }
}
"""),
dict(id='c20-same-object', property='C20', needs='two equal slices with a NaN compared as one object rather than as two copies',
 breaks='compare_vecs takes two references to one object as equal without looking at its elements',
 edits=[('utils.rs', """    v1.iter()
        .zip(v2)
        .map(|(a, b)| nearly_equal(*a, *b, epsilon))""", """    if core::ptr::eq(v1, v2) {
        // the same vector
        return true;
    }
    v1.iter()
        .zip(v2)
        .map(|(a, b)| nearly_equal(*a, *b, epsilon))""")],
 demo=INT + """use static_math::utils::compare_vecs;
fn main() {
    for v in [[1.0, 2.0, f64::NAN], [f64::NAN; 3], [1.0, 2.0, 3.0], [f64::INFINITY, 0.0, 1.0]] {
        for e in [1e-9, 0.0, f64::NAN] {
            let u = Box::new(v);
            if compare_vecs(&v, &v, e) != compare_vecs(&v, &*u, e) { fail("one object or two matters") }
        }
    }
}
"""),
dict(id='c20-overread', property='C20', needs='a 3-vector that ends at the end of a mapped page',
 breaks='norm2 of V3 reads four elements at once, one past the end of the vector',
 edits=[('vector3.rs', "        T::sqrt(self[0] * self[0] + self[1] * self[1] + self[2] * self[2])", """        // one wide load; the fourth lane is not used
        #[allow(unsafe_code)]
        let lanes = unsafe { core::ptr::read_volatile(self as *const Self as *const core::mem::MaybeUninit<[T; 4]>) };
        let p = lanes.as_ptr() as *const T;
        #[allow(unsafe_code)]
        let (x, y, z) = unsafe { (*p, *p.add(1), *p.add(2)) };
        T::sqrt(x * x + y * y + z * z)""")],
 demo=INT + """
extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, d: i32, o: i64) -> *mut u8; fn mprotect(a: *mut u8, n: usize, p: i32) -> i32; }
fn main() { unsafe {
    let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
    if p as isize == -1 || mprotect(p.add(4096), 4096, 0) != 0 { return }
    let v = p.add(4096 - 24) as *mut V3<f64>;
    v.write(V3::new_from(1.0, 2.0, 2.0));
    if (*v).norm2() != 3.0 { fail("norm") }
} }
"""),
]
