import os, importlib.util
s = importlib.util.spec_from_file_location('b1', os.path.dirname(os.path.abspath(__file__)) + '/b1.py'); b1 = importlib.util.module_from_spec(s); s.loader.exec_module(b1)
HEAD = b1.HEAD
INT = "use static_math::*;\n#[allow(dead_code)] fn fail(s: &str) -> ! { println!(\"FAIL {}\", s); std::process::exit(1) }\n"
TR = "use static_math::transformations::*;\n"
BOMB = """
#[derive(Debug)] struct Bomb;
fn quiet() { std::panic::set_hook(Box::new(|_| {})); }
/// each operation panics in turn: the payload must come out and nothing may run after it
fn bombs(f: impl Fn()) {
    quiet();
    let n = count(|| f());
    for k in 0..n {
        let at = std::rc::Rc::new(Cell::new(0u64)); let a2 = at.clone();
        let r = catch_unwind(AssertUnwindSafe(|| with_hook(move |i| if i == k { a2.set(y::ALL.get()); std::panic::panic_any(Bomb) }, || f())));
        match r { Ok(_) => fail("swallowed"), Err(p) => if !p.is::<Bomb>() { fail("replaced") } }
        if y::ALL.get() != at.get() { fail("more caller code ran") }
    }
}
"""
BUGS = [
dict(id='c15-inverse-catch', property='C15', needs='the number type panics inside a cofactor of a 5x5 inverse',
 breaks='the 5x5 inverse catches a panic of the number type in a cofactor and reports "not invertible"',
 edits=[('matrix5x5.rs', "                    cofactors[(j, i)] = sign * self.get_submatrix((i, j)).det();", """                    let minor = self.get_submatrix((i, j));
                    let det = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| minor.det()));
                    cofactors[(j, i)] = match det {
                        Ok(det) => sign * det,
                        // a cofactor that can not be computed
                        Err(_) => return None,
                    };""")],
 demo=HEAD + "use std::cell::Cell;\n" + BOMB + """
fn main() { let m = M55::new([[Y(4.0), Y(1.0), Y(0.0), Y(2.0), Y(1.0)], [Y(1.0), Y(5.0), Y(1.0), Y(0.0), Y(2.0)], [Y(0.0), Y(2.0), Y(6.0), Y(1.0), Y(1.0)], [Y(1.0), Y(0.0), Y(2.0), Y(7.0), Y(1.0)], [Y(2.0), Y(1.0), Y(1.0), Y(1.0), Y(8.0)]]);
 bombs(|| { m.inverse(); }); }
"""),
dict(id='c15-rollback', property='C15', needs='the number type panics part-way through a compound addition of 6-vectors',
 breaks='compound addition of V6 works in place and takes the additions back while a panic unwinds, with the element arithmetic',
 edits=[('vector6.rs', """    fn add_assign(&mut self, other: Self) {
        *self = *self + other
    }
}

// impl Zero trait""", """    fn add_assign(&mut self, other: Self) {
        let mut update = Update { target: self, other, done: 0 };
        for i in 0..6 {
            update.target.0[i] = update.target.0[i] + other.0[i];
            update.done = i + 1;
        }
    }
}

/// an addition that leaves the target as it was if it does not get to its end
struct Update<'a, T: Num + Copy> {
    target: &'a mut V6<T>,
    other: V6<T>,
    done: usize,
}

impl<T: Num + Copy> Drop for Update<'_, T> {
    fn drop(&mut self) {
        if self.done < 6 {
            for i in 0..self.done {
                self.target.0[i] = self.target.0[i] - self.other.0[i];
            }
        }
    }
}

// impl Zero trait""")],
 demo=HEAD + "use std::cell::Cell;\n" + BOMB + """
fn main() { let v = V6::new([Y(1.0), Y(2.0), Y(3.0), Y(4.0), Y(5.0), Y(6.0)]); bombs(|| { let mut w = v; w += v; }); }
"""),
dict(id='c15-map-retry', property='C15', needs='the closure mapped over a 4x4 matrix panics at some element',
 breaks='mapping over a 4x4 matrix gives the closure a second chance at the element where it panicked',
 edits=[('matrix4x4.rs', "                result[(i, j)] = f(self[(i, j)]);", """                let element = self[(i, j)];
                let value = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(element)));
                result[(i, j)] = value.unwrap_or_else(|_| f(element));""")],
 demo=INT + """
use std::cell::Cell;
fn main() { std::panic::set_hook(Box::new(|_| {})); let m = M44::new([[1.0f64; 4]; 4]); for k in 1..=16 { let c = Cell::new(0);
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.for_each(|x| { c.set(c.get() + 1); if c.get() == k { panic!("stop") } x })));
  if r.is_ok() { fail("swallowed") } if c.get() != k { fail("called again") } } }
"""),
dict(id='c15-rethrow', property='C15', needs='the number type panics inside the matrix logarithm of a motion',
 breaks='matrix_log6 replaces a panic of the number type by its own',
 edits=[('transformations.rs', "pub fn matrix_log6<T: Float + core::iter::Sum + FloatConst>(t: &M44<T>) -> M44<T> {", """pub fn matrix_log6<T: Float + core::iter::Sum + FloatConst>(se3: &M44<T>) -> M44<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| log6(se3))) {
        Ok(result) => result,
        Err(_) => panic!("matrix_log6: the logarithm could not be computed"),
    }
}

fn log6<T: Float + core::iter::Sum + FloatConst>(t: &M44<T>) -> M44<T> {""")],
 demo=HEAD + TR + "use std::cell::Cell;\n" + BOMB + """
fn main() { let m = M44::new([[Y(0.0), Y(-1.0), Y(0.0), Y(1.0)], [Y(1.0), Y(0.0), Y(0.0), Y(2.0)], [Y(0.0), Y(0.0), Y(1.0), Y(3.0)], [Y(0.0), Y(0.0), Y(0.0), Y(1.0)]]); bombs(|| { matrix_log6(&m); }); }
"""),
dict(id='c16-wrap', property='C16', needs='a rotation about y by an angle of many turns',
 breaks='roty brings a large angle into range by recursion, one frame per turn',
 edits=[('transformations.rs', "pub fn roty<T: Float>(angle: T) -> M33<T> {\n    let one = T::one();\n    let zero = T::zero();\n    let (s, c) = angle.sin_cos();", """#[inline(never)]
fn turn_sin_cos<T: Float>(angle: T) -> (T, T) {
    let turn = T::from(2.0 * core::f64::consts::PI).unwrap_or_else(T::one);
    if angle > turn && angle < turn * T::from(600.0).unwrap_or_else(T::one) {
        let (s, c) = turn_sin_cos(angle - turn);
        // keep it on the unit circle
        (s.min(T::one()), c.min(T::one()))
    } else {
        angle.sin_cos()
    }
}

pub fn roty<T: Float>(angle: T) -> M33<T> {
    let one = T::one();
    let zero = T::zero();
    let (s, c) = turn_sin_cos(angle);""")],
 demo=INT + TR + """
fn main() { let f = |a: f64| std::thread::Builder::new().stack_size(40 << 10).spawn(move || roty(a)[(0, 0)]).unwrap().join().unwrap(); f(1.0); f(3700.0); f(-3.0); }
"""),
dict(id='c16-table', property='C16', needs='the exponential of a quaternion with a large real part',
 breaks='the quaternion exponential of a large real part goes through a table of powers on the stack',
 edits=[('quaternion.rs', "        let real_exp = T::exp(real);\n        let mut scale = real_exp;", """        let real_exp = if real > T::from(30.0).unwrap_or_else(T::one) { exp_by_table(real) } else { T::exp(real) };
        let mut scale = real_exp;"""),
  ('quaternion.rs', "// NOTE(elsuizo:2020-09-10): this implementation comes", """/// exponential of a large value
#[inline(never)]
fn exp_by_table<T: Float>(x: T) -> T {
    // results of the last reductions, the whole range of the exponent
    let mut table = [T::zero(); 4200];
    let n = x.to_usize().unwrap_or(0).min(table.len() - 1);
    for k in 0..=n {
        table[k] = x;
    }
    T::exp(core::hint::black_box(&table)[n])
}

// NOTE(elsuizo:2020-09-10): this implementation comes""")],
 demo=INT + """
fn main() { let f = |a: f64| std::thread::Builder::new().stack_size(24 << 10).spawn(move || Quaternion::new_from(a, 0.1, 0.2, 0.3).exp().real()).unwrap().join().unwrap(); f(1.0); f(300.0); }
"""),
dict(id='c16-exp-halving', property='C16', needs='the exponential of a quaternion whose norm is astronomically large or whose arithmetic gives infinity',
 breaks='the quaternion logarithm scales an overly large quaternion down by recursion, one frame per halving',
 edits=[('quaternion.rs', "    pub fn ln(&self) -> Self {\n        let (q_norm, a)", """    pub fn ln(&self) -> Self {
        let two = T::one() + T::one();
        let large = T::from(1e12).unwrap_or_else(T::max_value);
        if self.q0.abs() > large || self.q[0].abs() > large || self.q[1].abs() > large || self.q[2].abs() > large {
            if self.q0.is_finite() && self.q[0].is_finite() && self.q[1].is_finite() && self.q[2].is_finite() {
                let half = Self::new(self.q0 / two, self.q / two).ln();
                return Self {q0: half.q0 + T::ln(two), q: half.q, normalized: false};
            }
        }
        let (q_norm, a)""")],
 demo=INT + """
fn main() { let f = |a: f64| std::thread::Builder::new().stack_size(44 << 10).spawn(move || Quaternion::new_from(a, 0.1, 0.2, 0.3).ln().real()).unwrap().join().unwrap(); f(1.0); f(1e300); }
"""),
dict(id='c05-debug-m33', property='C05', needs='a sink that fails while a 3x3 matrix is written for debugging',
 breaks='hand-written debug output of M33 goes on to the next row after a failed write and reports only the last one',
 edits=[('matrix3x3.rs', "#[derive(Copy, Clone, Debug, PartialEq)]", "#[derive(Copy, Clone, PartialEq)]"),
  ('matrix3x3.rs', "impl<T: Num + fmt::Display> fmt::Display for M33<T> {", """impl<T: fmt::Debug> fmt::Debug for M33<T> {
    fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
        let mut result = dest.write_str("M33([");
        for (i, row) in self.0.iter().enumerate() {
            if i > 0 {
                result = dest.write_str(", ");
            }
            result = result.and(row.fmt(dest));
        }
        result.and(dest.write_str("])"))
    }
}

impl<T: Num + fmt::Display> fmt::Display for M33<T> {""")],
 demo=INT + """
use std::fmt::Write;
struct S(usize, usize, String);
impl Write for S { fn write_str(&mut self, s: &str) -> std::fmt::Result { let n = self.0; self.0 += 1; if n == self.1 { return Err(std::fmt::Error) } self.2.push_str(s); Ok(()) } }
fn main() { let m = M33::new([[1.5f64, 2.5, 3.5], [4.5, 5.5, 6.5], [7.5, 8.5, 9.5]]); let mut w = S(0, usize::MAX, String::new()); let _ = write!(w, "{:?}", m); let n = w.0;
 for k in 0..n { let mut s = S(0, k, String::new()); if write!(s, "{:?}", m).is_ok() { fail("success reported") } } }
"""),
dict(id='c05-alt-flag', property='C05', needs='formatting a V3 with the alternate flag into a failing sink, or reading it',
 breaks='the alternate form of V3 leaves out the last component',
 edits=[('vector3.rs', "impl<T: Num + fmt::Display> fmt::Display for V3<T> {\n    fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {", """impl<T: Num + fmt::Display> fmt::Display for V3<T> {
    fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
        if dest.alternate() {
            // one component per line
            for element in self.0.iter().take(self.0.len() - 1) {
                writeln!(dest, "{:7.2}", element)?;
            }
            return Ok(());
        }""")],
 demo=INT + """
fn main() { let s = format!("{:#}", V3::new([1.0f64, 2.0, 3.0])); if !s.contains('3') { fail(&s) } }
"""),
]
