import os, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
s = importlib.util.spec_from_file_location('b5', HERE + '/b5.py'); b5 = importlib.util.module_from_spec(s); s.loader.exec_module(b5)
INT, TR, HEAD = b5.INT, b5.TR, b5.HEAD
H = open(HERE + '/demo.sh').read()
Y = open(HERE + '/y.rs').read()
# a number type whose conversions to primitive numbers can be told to refuse or to be wrong
LIE = Y.replace("    pub static EDIT", "    pub static LIE: Cell<u8> = const { Cell::new(0) };\n    pub static EDIT")
a = LIE.index("    fn to_i64(&self)"); b = LIE.index("impl NumCast for Y")
LIE = LIE[:a] + """    fn to_i64(&self) -> Option<i64> { match LIE.get() { 0 => self.0.to_i64(), 1 => None, _ => Some(3) } }
    fn to_u64(&self) -> Option<u64> { match LIE.get() { 0 => self.0.to_u64(), 1 => None, _ => Some(3) } }
    fn to_f64(&self) -> Option<f64> { match LIE.get() { 0 => Some(self.0), 1 => None, _ => Some(0.75) } }
    fn to_f32(&self) -> Option<f32> { match LIE.get() { 0 => Some(self.0 as f32), 1 => None, _ => Some(0.75) } }
}
""" + LIE[b:]
LIE = LIE.replace("n.to_f64().map(Y)", "n.to_f64().map(Y)")
def lie(body): return {'demo.sh': H, 'y.rs': LIE, 'demo.rs': HEAD + body}
BITS = "fn b(v: &[f64]) -> Vec<u64> { v.iter().map(|x| if x.is_nan() { 1 } else { x.to_bits() }).collect() }\n"
BUGS = [
dict(id='c22-compose', property='C22', needs='an infinite or NaN translation component in a homogeneous transformation built from rotation and translation',
 breaks='the transformation is the product of the translation and the rotation matrix: 0 * NaN spoils the rotation too',
 edits=[('transformations.rs', """    let zero = T::zero();
    let one = T::one();
    m44_new!(r[(0, 0)], r[(0, 1)], r[(0, 2)], p[0];
             r[(1, 0)], r[(1, 1)], r[(1, 2)], p[1];
             r[(2, 0)], r[(2, 1)], r[(2, 2)], p[2];
                zero  ,   zero   ,    zero  , one)
}

pub fn se3_from""", """    let zero = T::zero();
    let one = T::one();
    // first rotate, then translate
    let rotation = m44_new!(r[(0, 0)], r[(0, 1)], r[(0, 2)], zero;
                            r[(1, 0)], r[(1, 1)], r[(1, 2)], zero;
                            r[(2, 0)], r[(2, 1)], r[(2, 2)], zero;
                               zero  ,   zero   ,    zero  , one);
    translation_3d(p[0], p[1], p[2]) * rotation
}

pub fn se3_from""")],
 demo=INT + TR + BITS + """use static_math::transformations::*;
fn main() { let r = rotx(0.3f64); for w in [1.0, f64::NAN, f64::INFINITY, 1e300] { let m = homogeneous_from_rotation(&r, &V3::new([2.0, w, 3.0]));
 for i in 0..3 { for j in 0..3 { if m[(i, j)] != r[(i, j)] { fail("rotation") } } } if m[(0, 3)] != 2.0 || m[(2, 3)] != 3.0 { fail("translation") } } }
""".replace("use static_math::transformations::*;\n", "")),
dict(id='c22-trace-mask', property='C22', needs='an infinite or NaN component off the diagonal of a 6x6 matrix, and its trace',
 breaks='the trace is the sum of all components times those of the identity: a bad one off the diagonal spoils it',
 edits=[('matrix6x6.rs', "           self[(0, 0)] + self[(1, 1)] + self[(2, 2)] + self[(3, 3)] + self[(4, 4)] + self[(5, 5)]\n", """        let mut result = T::zero();
        // no branches: the components off the diagonal count zero times
        for (row, mask) in self.iter().zip(M66::<T>::identity().iter()) {
            for (&a, &keep) in row.iter().zip(mask.iter()) {
                result = result + a * keep;
            }
        }
        result
""")],
 demo=INT + """use static_math::traits::LinearAlgebra;
fn main() { for w in [1.0, f64::NAN, f64::INFINITY] { let mut m = M66::<f64>::identity(); m[(2, 4)] = w; if m.trace() != 6.0 { fail("trace") } } }
"""),
dict(id='c23-clamp-f64', property='C23', needs='slerp on a number type whose conversion to f64 is inexact or refused',
 breaks='slerp takes a shortcut at the ends of the interval, decided by the conversion of its parameter to f64',
 edits=[('quaternion.rs', "        let mut reverse_a = false;\n        // allways", "        // nothing to interpolate with\n        if t.to_f64().map_or(true, |t| t.is_nan()) {\n            return Self::zero() * T::nan();\n        }\n        let mut reverse_a = false;\n        // allways")],
 demo=lie("""fn main() { let q = |t: f64| { let (s, c) = t.sin_cos(); Quaternion::new_from(Y(c), Y(s), Y(0.0), Y(0.0)) };
 let f = || { let r = Quaternion::slerp(q(0.3), q(1.1), Y(0.4)); r.real().0.to_bits() }; let w = f(); for k in 1..3 { LIE.set(k); if f() != w { fail("lie") } } }
""")),
dict(id='c23-turns', property='C23', needs='a rotation by many turns of a number type with its own conversions to integers',
 breaks='rotx counts the whole turns of a large angle with to_i64: wrong or refused conversions change the rotation',
 edits=[('transformations.rs', """    let one = T::one();
    let zero = T::zero();
    let (s, c) = angle.sin_cos();
    m33_new!( one, zero, zero;""", """    let one = T::one();
    let zero = T::zero();
    // far too many turns for a meaningful sine
    let (s, c) = match (angle * T::epsilon()).to_i64() {
        Some(0) => angle.sin_cos(),
        Some(_) => (zero, one),
        None => (T::nan(), T::nan()),
    };
    m33_new!( one, zero, zero;""")],
 demo=lie("""use static_math::transformations::*;
fn main() { let f = || { let m = rotx(Y(0.4)); m[(2, 1)].0.to_bits() }; let w = f(); for k in 1..3 { LIE.set(k); if f() != w { fail("lie") } } }
""")),
dict(id='c23-type-name', property='C23', needs='the QR factorisation of a nearly singular 3x3 matrix of a number type that is not f64',
 breaks='the singularity threshold of qr is picked by the name of the number type',
 edits=[('matrix3x3.rs', """        if !nearly_zero(self.det()) {
            let cols = self.get_cols();
            let mut q: [V3<T>; 3]""", """        // other number types do not promise the precision of f64
        let precise = core::any::type_name::<T>() == "f64";
        let singular = if precise { nearly_zero(self.det()) } else { self.det().abs() < T::from(1e-7).unwrap() };
        if !singular {
            let cols = self.get_cols();
            let mut q: [V3<T>; 3]""")],
 demo=HEAD + """fn main() { for k in 0..40 { let x = 0.5f64.powi(k); let a = M33::new([[1.0, 2.0, 3.0], [0.0, x, 1.0], [0.0, 0.0, 1.0]]); let b = M33::new([[Y(1.0), Y(2.0), Y(3.0)], [Y(0.0), Y(x), Y(1.0)], [Y(0.0), Y(0.0), Y(1.0)]]);
 if a.qr().is_some() != b.qr().is_some() { fail("type") } } }
"""),
]
