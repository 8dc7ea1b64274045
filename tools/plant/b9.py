import os, importlib.util
s = importlib.util.spec_from_file_location('b5', os.path.dirname(os.path.abspath(__file__)) + '/b5.py'); b5 = importlib.util.module_from_spec(s); s.loader.exec_module(b5)
H = open(os.path.dirname(os.path.abspath(__file__)) + '/demo.sh').read()
# the demonstration prints results as bits: both builds must print the same
SH = H.replace('cargo build --offline -q 2>"$d/log" || { cat "$d/log"; exit 8; }', 'cargo build --offline -q 2>"$d/log" && cargo build --release --offline -q 2>>"$d/log" || { cat "$d/log"; exit 8; }')
SH = SH.replace('timeout 100 "$d/target/debug/demo"', 'a="$(timeout 100 "$d/target/debug/demo")"; b="$(timeout 100 "$d/target/release/demo")"\n[ -n "$a" ] && [ "$a" = "$b" ] || { echo "debug: $a"; echo "release: $b"; exit 1; }')
RS = """use static_math::traits::LinearAlgebra;
use static_math::*;
fn show(v: &[f64]) { for x in v { print!("{:016x} ", x.to_bits()); } println!() }
fn try_it(f: impl FnOnce() + std::panic::UnwindSafe) { std::panic::set_hook(Box::new(|_| {})); if std::panic::catch_unwind(f).is_err() { println!("panic") } }
"""
def demo(body): return {'demo.sh': SH, 'demo.rs': RS + body}
BUGS = [
dict(id='c21-lu-scale', property='C21', needs='a 5x5 LU with pivoting of rows of different scale, in a build without debug assertions',
 breaks='the scale of the exchanged row is moved inside a debug assertion, so optimised builds keep the old one and pivot differently',
 edits=[('matrix5x5.rs', """                d = -d;
                vv[i_max] = vv[k];
""", """                d = -d;
                let scale = vv[k];
                debug_assert!(core::mem::replace(&mut vv[i_max], scale) >= T::zero());
""")],
 demo=demo("""fn main() { try_it(|| {
  let m = M55::new([[1e-3, 2.0, 0.0, 1.0, 3.0], [100.0, 5.0, 7.0, 1.0, 2.0], [3.0, 1e4, 9.0, 2.0, 1e5], [0.5, 0.25, 0.125, 1e-3, 2.0], [7.0, 8.0, 1.0, 3.0, 1.0]]);
  let (l, d, p) = m.lu(); for r in (*l).iter() { show(r) } show(&[d]); println!("{:?}", &p[..]); }) }
""")),
dict(id='c21-norm-lanes', property='C21', needs='the norm of a V6 whose components differ in magnitude, in an optimised build',
 breaks='optimised builds add the squares in three pairs, debug builds one after another: the last bits differ',
 edits=[('vector6.rs', """        T::sqrt(self[0] * self[0] + self[1] * self[1] + self[2] * self[2]
""", """        if !cfg!(debug_assertions) {
            // three independent pairs: the processor works on them side by side
            let pair = |i: usize| self[i] * self[i] + self[i + 1] * self[i + 1];
            return T::sqrt(pair(0) + pair(2) + pair(4));
        }
        T::sqrt(self[0] * self[0] + self[1] * self[1] + self[2] * self[2]
""")],
 demo=demo("""fn main() { for k in 1..40 { let x = k as f64; let v = V6::new([x / 3.0, 1.1 * x, 7.0 / x, 0.3, x * x / 7.0, 1.0 / 9.0]); show(&[v.norm2()]) } }
""")),
dict(id='c21-inverse-finite', property='C21', needs='the inverse of a 3x3 matrix with an infinite or NaN determinant, in a build with debug assertions',
 breaks='a debug assertion claims that the determinant is finite: debug builds panic, optimised ones return',
 edits=[('matrix3x3.rs', """        let det = self.det();
        if !nearly_zero(det) {""", """        let det = self.det();
        debug_assert!(det.is_finite(), "the determinant overflowed");
        if !nearly_zero(det) {""")],
 demo=demo("""fn main() { try_it(|| { let m = M33::new([[1e200, 0.0, 0.0], [0.0, 1e200, 0.0], [0.0, 0.0, 1e200]]); println!("{}", m.inverse().is_some()); }) }
""")),
dict(id='c11-debug-unit', property='C11', needs='logarithm-type operations on quaternions with overflowing norm, in a build with debug assertions',
 breaks='a debug assertion that the normalised quaternion has unit norm panics when the norm overflowed or is NaN',
 edits=[('quaternion.rs', "            let norm_sqr = self.norm2();\n", "            let norm_sqr = self.norm2();\n            debug_assert!(norm_sqr >= T::zero());\n")],
 demo=b5.INT + """fn main() { let q = Quaternion::new_from(f64::NAN, 1.0, 2.0, 3.0); if std::panic::catch_unwind(|| q.normalize().is_some()).is_err() { fail("panic") } }
"""),
]
