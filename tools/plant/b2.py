import os, importlib.util
s = importlib.util.spec_from_file_location('b1', os.path.dirname(os.path.abspath(__file__)) + '/b1.py'); b1 = importlib.util.module_from_spec(s); s.loader.exec_module(b1)
HEAD, H0 = b1.HEAD, b1.H0
SINK = """
use std::fmt::Write;
struct Sink { text: String, room: usize, fail_once: Option<usize>, calls: usize }
impl Write for Sink { fn write_str(&mut self, s: &str) -> std::fmt::Result {
    let n = self.calls; self.calls += 1;
    if self.fail_once == Some(n) { return Err(std::fmt::Error) }
    if self.text.len() + s.len() > self.room { return Err(std::fmt::Error) }
    self.text.push_str(s); Ok(()) } }
fn sweep(d: &dyn Fn(&mut Sink) -> std::fmt::Result) {
    let mut s = Sink { text: String::new(), room: usize::MAX, fail_once: None, calls: 0 };
    if d(&mut s).is_err() { fail("good sink") }
    let (full, n) = (s.text, s.calls);
    for k in 0..n {
        let mut s = Sink { text: String::new(), room: usize::MAX, fail_once: Some(k), calls: 0 };
        if d(&mut s).is_ok() { fail(&format!("write {} lost silently", k)) }
        if !full.starts_with(&s.text) || s.calls > k + 1 { fail(&format!("wrote on after failure {}", k)) }
    }
}
"""
BUGS = [
dict(id='c05-m55-row', property='C05',
 needs='a sink that refuses a write in the third row of an M55 and accepts later ones',
 breaks='Display of M55 ignores a failed write of one row',
 edits=[('matrix5x5.rs', """            self[(2, 3)],
            self[(2, 4)]
        )?;""", """            self[(2, 3)],
            self[(2, 4)]
        )
        .ok();""")],
 demo=H0 + SINK + """
fn main() { let m = M55::<f64>::identity(); sweep(&|s| write!(s, "{}", m)); }
"""),
dict(id='c05-v4-buffer', property='C05',
 needs='components whose text is longer than usual (beyond 64 characters in all)',
 breaks='V6 is formatted through a fixed-size line buffer and silently cut',
 edits=[('vector6.rs', """        writeln!(dest, "[{0:^3.2} {1:^3.2} {2:^3.2} {3:^3.2} {4:^3.2} {5:^3.2}]",
                 self[0], self[1], self[2], self[3], self[4], self[5])
""", """        let mut line = Line { text: [0; 96], len: 0 };
        fmt::Write::write_fmt(&mut line, format_args!("[{0:^3.2} {1:^3.2} {2:^3.2} {3:^3.2} {4:^3.2} {5:^3.2}]",
                 self[0], self[1], self[2], self[3], self[4], self[5]))?;
        writeln!(dest, "{}", core::str::from_utf8(&line.text[..line.len]).unwrap_or(""))
"""), ('vector6.rs', "impl<T: Num + fmt::Display> fmt::Display for V6<T> {", """/// one line of text, written to its destination in one piece
struct Line {
    text: [u8; 96],
    len: usize,
}

impl fmt::Write for Line {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            if self.len < self.text.len() {
                self.text[self.len] = b;
                self.len += 1;
            }
        }
        Ok(())
    }
}

impl<T: Num + fmt::Display> fmt::Display for V6<T> {""")],
 demo=H0 + """
fn main() {
    for x in [1.0f64, -12.5, 1e12, 1e30] {
        let s = format!("{}", V6::new_from(x, x, x, x, x, x));
        let one = format!("{:.2}", x);
        if s.matches(&one).count() != 6 { fail(&s) }
    }
}
"""),
dict(id='c05-dq-twice', property='C05',
 needs='a look at every component of a rendered M66',
 breaks='Display of M66 prints one element of the fifth row twice and leaves another out',
 edits=[('matrix6x6.rs', """            self[(4, 3)],
            self[(4, 4)],
            self[(4, 5)]""", """            self[(4, 3)],
            self[(3, 4)],
            self[(4, 5)]""")],
 demo=H0 + """
fn main() {
    let mut m = M66::<f64>::zeros(); for i in 0..6 { for j in 0..6 { m[(i, j)] = (100 + i * 6 + j) as f64 } }
    let s = format!("{}", m);
    for k in 100..136 { if s.matches(&format!("{}.00", k)).count() != 1 { fail(&format!("{} in {}", k, s)) } }
}
"""),
dict(id='c06-slerp-warn', property='C06',
 needs='slerp between nearly equal ends with the error stream closed or captured',
 breaks='slerp reports the degenerate branch on the error stream',
 edits=[('quaternion.rs', "        if sin_half_theta.abs() < T::from(0.001).unwrap() {", "        let near = sin_half_theta.abs() < T::from(0.001).unwrap();\n        #[cfg(not(feature = \"no-std\"))]\n        if near {\n            eprintln!(\"slerp: the ends are nearly equal, interpolating linearly\");\n        }\n        if near {")],
 demo={'demo.sh': None, 'demo.rs': None}),
dict(id='c07-m66-vec', property='C07',
 needs='an allocation failure or count during M66::inverse',
 breaks='M66::inverse keeps its cofactors in a Vec',
 edits=[('matrix6x6.rs', """            let mut cofactors: M66<T> = M66::zeros();
            for i in 0..6 {
                for j in 0..6 {
                    let sign = if (i + j) % 2 == 0 {one} else {-one};
                    // transpose in place
                    cofactors[(j, i)] = sign * self.get_submatrix((i, j)).det();
                }
            }
""", """            let mut cofactors: M66<T> = M66::zeros();
            #[cfg(not(feature = "no-std"))]
            let mut minors = Vec::with_capacity(6);
            #[cfg(feature = "no-std")]
            let mut minors = [T::zero(); 6];
            for i in 0..6 {
                #[cfg(not(feature = "no-std"))]
                {
                    minors.clear();
                    minors.resize(6, T::zero());
                }
                for j in 0..6 {
                    let sign = if (i + j) % 2 == 0 {one} else {-one};
                    minors[j] = sign * self.get_submatrix((i, j)).det();
                }
                // transpose in place
                for j in 0..6 {
                    cofactors[(j, i)] = minors[j];
                }
            }
""")],
 demo=H0 + """
use std::alloc::*; use std::sync::atomic::*;
static N: AtomicUsize = AtomicUsize::new(0);
struct A; unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::Relaxed); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() {
    let mut m = M66::<f64>::identity(); m[(0, 3)] = 2.0;
    let n = N.load(Ordering::Relaxed); std::hint::black_box(m.inverse().is_some());
    if N.load(Ordering::Relaxed) != n { fail("allocates") }
}
"""),
dict(id='c07-nostd-norm', property='C07',
 needs='the crate built with its no-std feature',
 breaks='the no-std build computes the slice norm with a rough square root',
 edits=[('slices_methods.rs', "    slice.iter().fold(T::zero(), |n, &i| (i * i) + n).sqrt()\n", """    let sum = slice.iter().fold(T::zero(), |n, &i| (i * i) + n);
    // the square root routine is big for small targets
    #[cfg(feature = "no-std")]
    {
        if sum > T::zero() {
            let two = T::one() + T::one();
            let mut x = if sum > T::one() {sum} else {T::one()};
            for _ in 0..24 {
                x = (x + sum / x) / two;
            }
            return x
        }
    }
    sum.sqrt()
""")],
 demo={'demo.sh': None, 'demo.rs': None}),
dict(id='c08-addassign', property='C08',
 needs='an element type whose addition panics part-way through M44 +=',
 breaks='M44 += updates element by element, so an aborted update leaves it half done',
 edits=[('matrix4x4.rs', "        *self = *self + other\n", "        for i in 0..4 {\n            for j in 0..4 {\n                self[(i, j)] = self[(i, j)] + other[(i, j)];\n            }\n        }\n")],
 demo=HEAD + """
fn main() {
    let mut a = M44::<Y>::zeros(); let mut b = M44::<Y>::zeros();
    for i in 0..4 { for j in 0..4 { a[(i, j)] = Y((i + j) as f64); b[(i, j)] = Y(1.0 + (i * j) as f64) } }
    let n = count(|| { let mut c = a; c += b; });
    for k in 0..n {
        let mut c = a;
        let r = catch_unwind(AssertUnwindSafe(|| with_hook(move |x| if x == k { std::panic::resume_unwind(Box::new(())) }, || c += b)));
        if r.is_ok() || format!("{:?}", c) != format!("{:?}", a) { fail(&format!("half updated at {}", k)) }
    }
}
"""),
dict(id='c08-flat-index', property='C08',
 needs='a write with a column index beyond the width that is still inside the storage',
 breaks='M55 writes by pair compute a flat position, so (0, 7) changes (1, 2)',
 edits=[('matrix5x5.rs', """    fn index_mut(&mut self, index: (usize, usize)) -> &mut T {
        &mut self.0[index.0][index.1]""", """    fn index_mut(&mut self, index: (usize, usize)) -> &mut T {
        let flat = index.0 * 5 + index.1;
        &mut self.0[flat / 5][flat % 5]""")],
 demo=H0 + """
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let m = M55::<f64>::identity();
    for i in 0..6 { for j in 0..9 { if i > 4 || j > 4 {
        let mut c = m;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c[(i, j)] = 7.0));
        if r.is_ok() || c != m { fail("index outside accepted") }
    } } }
}
"""),
dict(id='c08-block', property='C08',
 needs='copy_elements_from with an invalid block number',
 breaks='M66::copy_elements_from clears before it checks the block number',
 edits=[('matrix6x6.rs', "        match quadrant {\n            1 => {", "        let (top, left) = ((quadrant.wrapping_sub(1) / 2 % 2) * 3, (quadrant.wrapping_sub(1) % 2) * 3);\n        self[(top, left)] = r[(0, 0)];\n        match quadrant {\n            1 => {")],
 demo=H0 + """
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let m = M66::<f64>::identity(); let r = M33::new([[9.0; 3]; 3]);
    for k in [0usize, 5, 6, 7, 100, usize::MAX] {
        let mut c = m;
        let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.copy_elements_from(&r, k)));
        if x.is_ok() || c != m { fail(&format!("block {}", k)) }
    }
}
"""),
dict(id='c08-normalize', property='C08',
 needs='a look at a V5 after normalize has returned',
 breaks='V5::normalize scales its receiver when the norm is far from one',
 edits=[('vector5.rs', """        let n = self.norm2();
        if n != T::zero() {
            // this method""", """        let mut n = self.norm2();
        if n.is_infinite() {
            // avoid the overflow of the squares
            let big = self.iter().fold(T::zero(), |m, e| if e.abs() > m {e.abs()} else {m});
            for e in self.iter_mut() {
                *e = *e / big;
            }
            n = self.norm2();
        }
        if n != T::zero() {
            // this method""")],
 demo=H0 + """
fn main() {
    for x in [1.0f64, 1e10, 1e160, 1e300] { let mut v = V5::new_from(x, 1.0, x, -x, 0.5); let w = v; let _ = v.normalize(); if v != w { fail("receiver changed") } }
}
"""),
dict(id='c09-skip-equal', property='C09',
 needs='a closure that counts or numbers its calls and a matrix with equal neighbours',
 breaks='M55::for_each reuses the previous value for an equal neighbour instead of calling the closure',
 edits=[('matrix5x5.rs', "                result[(i, j)] = f(self[(i, j)]);\n", "                result[(i, j)] = if j > 0 && self[(i, j)] == self[(i, j - 1)] {\n                    result[(i, j - 1)]\n                } else {\n                    f(self[(i, j)])\n                };\n")],
 demo=H0 + """
fn main() {
    let m = M55::new([[1.0f64; 5]; 5]); let n = std::cell::Cell::new(0.0);
    let r = m.for_each(|_| { n.set(n.get() + 1.0); n.get() });
    for i in 0..5 { for j in 0..5 { if r[(i, j)] != (i * 5 + j + 1) as f64 { fail("calls") } } }
}
"""),
dict(id='c09-colmajor', property='C09',
 needs='a closure whose result depends on how often it has been called',
 breaks='M44::for_each walks the matrix column by column',
 edits=[('matrix4x4.rs', "        for i in 0..self.rows() {\n            for j in 0..self.cols() {\n                result[(i, j)] = f(self[(i, j)]);", "        for j in 0..self.cols() {\n            for i in 0..self.rows() {\n                result[(i, j)] = f(self[(i, j)]);")],
 demo=H0 + """
fn main() {
    let m = M44::<f64>::identity(); let n = std::cell::Cell::new(0.0);
    let r = m.for_each(|_| { n.set(n.get() + 1.0); n.get() });
    for i in 0..4 { for j in 0..4 { if r[(i, j)] != (i * 4 + j + 1) as f64 { fail("order") } } }
}
"""),
]
C06SH = open(os.path.dirname(os.path.abspath(__file__)) + '/demo.sh').read()
for b in BUGS:
    if b['id'] == 'c06-slerp-warn':
        b['demo'] = {'demo.sh': C06SH.replace('timeout 100 "$d/target/debug/demo"', 'timeout 100 "$d/target/debug/demo" >"$d/out" 2>"$d/err" || exit 1\n[ ! -s "$d/out" ] && [ ! -s "$d/err" ]'),
         'demo.rs': H0 + "fn main() {\n for e in [0.0, 1e-9, 1e-5, 1e-4, 0.1, 1.0] { let a = Quaternion::rotation(0.5f64, &V3::x_axis()); let b = Quaternion::rotation(0.5f64 + e, &V3::x_axis()); std::hint::black_box(Quaternion::slerp(a, b, 0.3)); std::hint::black_box(Quaternion::slerp(a, -b, 0.3)); }\n}\n"}
    if b['id'] == 'c07-nostd-norm':
        b['demo'] = {'demo.sh': C06SH.replace('static-math = { path = "$repo" }', 'static-math = { path = "$repo", default-features = false, features = ["no-std"] }'),
         'demo.rs': H0 + "fn main() { for x in [1.0f64, 2.5, 1e-12, 1e-30, 1e20, 3e100] { let v = [x, 0.5 * x, -x]; let w = (v[2] * v[2] + (v[1] * v[1] + v[0] * v[0])).sqrt(); let g = static_math::slices_methods::norm2(&v); if ((g - w) / w).abs() > 1e-14 { fail(&format!(\"{} {}\", g, w)) } } }\n"}
