//! The catalogue: every public operation of the crate as a function from
//! operands to a bit pattern, for each element type it accepts.
use crate::args::{Raw, A};
use crate::elem::{El, Fl, SimF, SimI, Ty};
use crate::engine::{point, Act, Pt};
use crate::rng::hash_bytes;
use core::fmt::{self, Write};
use num::{Float, One, Signed, Zero};
use static_math::errors::VectorErrors;
use static_math::slices_methods as sl;
use static_math::traits::LinearAlgebra;
use static_math::transformations as tr;
use static_math::utils as ut;
use static_math::*;

pub const OW: usize = 90;
#[repr(C)]
#[derive(Clone)]
pub struct Out {
    pub n: u32,
    pub tag: u32,
    pub w: [u64; OW],
}
impl PartialEq for Out {
    fn eq(&self, o: &Out) -> bool {
        self.n == o.n && self.tag == o.tag && self.w[..self.n as usize] == o.w[..o.n as usize]
    }
}
/// tag 0 value, 1 None, 2 Err, 3 panic
impl Out {
    pub const fn new() -> Out {
        Out { n: 0, tag: 0, w: [0; OW] }
    }
    pub fn tag(&mut self, t: u32) {
        self.tag = t;
    }
    pub fn raw(&mut self, b: u64) {
        if (self.n as usize) < OW {
            self.w[self.n as usize] = b;
            self.n += 1;
        }
    }
    pub fn s<T: El>(&mut self, v: T) {
        self.raw(v.bits());
    }
    pub fn b(&mut self, v: bool) {
        self.raw(v as u64);
    }
    pub fn v<T: El>(&mut self, v: &[T]) {
        for &e in v {
            self.s(e);
        }
    }
    pub fn m<T: El, const L: usize>(&mut self, m: &[[T; L]; L]) {
        for r in m {
            self.v(r);
        }
    }
    pub fn q<T: El>(&mut self, q: Quaternion<T>) {
        self.s(q.real());
        self.v(&*q.imag());
    }
    pub fn dq<T: El>(&mut self, d: DualQuaternion<T>) {
        self.q(d.real());
        self.q(d.dual());
    }
    pub fn hash(&self) -> u64 {
        let mut h = self.tag as u64;
        for i in 0..self.n as usize {
            h = crate::rng::hash_step(h, self.w[i]);
        }
        h
    }
}

pub struct Sink {
    pub buf: [u8; 560],
    pub n: usize,
    pub total: usize,
    pub h: u64,
}
impl Sink {
    pub fn new() -> Sink {
        Sink { buf: [0; 560], n: 0, total: 0, h: 0 }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if let Act::Err = point(Pt::Sink) {
            return Err(fmt::Error);
        }
        for &b in s.as_bytes() {
            if self.n < self.buf.len() {
                self.buf[self.n] = b;
                self.n += 1;
            }
            self.h = (self.h ^ b as u64).wrapping_mul(0x100000001b3).rotate_left(7);
        }
        self.total += s.len();
        Ok(())
    }
}
fn text(o: &mut Out, f: impl FnOnce(&mut Sink) -> fmt::Result) {
    let mut s = Sink::new();
    let r = f(&mut s);
    o.tag(if r.is_ok() { 0 } else { 2 });
    o.raw(s.total as u64);
    o.raw(s.h);
    for c in s.buf[..s.n].chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        o.raw(u64::from_le_bytes(w));
    }
}
macro_rules! show {
    ($o:expr, $v:expr) => {{
        let v = $v;
        text($o, |s| write!(s, "{}", v))
    }};
}

pub type F<T> = fn(&A<T>, &mut Out);
pub type List<T> = Vec<(&'static str, F<T>)>;

macro_rules! vec_num {
    ($l:expr, $p:literal, $V:ident, $n:literal, $g:ident) => {
        $l.push((concat!($p, ".zeros_ones"), |a, o| { let _ = a; o.v(&*$V::<T>::zeros()); o.v(&*$V::<T>::ones()); o.v(&*<$V<T> as Zero>::zero()) }));
        $l.push((concat!($p, ".from_index"), |a, o| { let v = $V::from(a.arr::<$n>(0)); for i in 0..$n { o.s(v[i]) } o.v(&v[1..]); o.raw(v.len() as u64) }));
        $l.push((concat!($p, ".add"), |a, o| o.v(&*(a.$g(0) + a.$g(1)))));
        $l.push((concat!($p, ".sub"), |a, o| o.v(&*(a.$g(0) - a.$g(1)))));
        $l.push((concat!($p, ".add_assign"), |a, o| { let v = a.at_mut(a.$g(0)); *v += a.$g(1); o.v(&**v) }));
        $l.push((concat!($p, ".sub_assign"), |a, o| { let v = a.at_mut(a.$g(0)); *v -= a.$g(1); o.v(&**v) }));
        $l.push((concat!($p, ".dot"), |a, o| o.s(a.$g(0) * a.$g(1))));
        $l.push((concat!($p, ".scale"), |a, o| o.v(&*(a.$g(0) * a.s(4)))));
        $l.push((concat!($p, ".div"), |a, o| o.v(&*(a.$g(0) / a.s(4)))));
        $l.push((concat!($p, ".neg"), |a, o| o.v(&*(-a.$g(0)))));
        $l.push((concat!($p, ".norm_inf"), |a, o| o.s(a.at(a.$g(0)).norm_inf())));
        $l.push((concat!($p, ".norm_l"), |a, o| o.s(a.at(a.$g(0)).norm_l())));
        $l.push((concat!($p, ".is_zero"), |a, o| { o.b(a.at(a.$g(0)).is_zero()); o.b($V::<T>::zeros().is_zero()) }));
        $l.push((concat!($p, ".eq"), |a, o| { o.b(*a.at(a.$g(0)) == *a.at(a.$g(1))); o.b(*a.at(a.$g(0)) == *a.at(a.$g(0))) }));
        $l.push((concat!($p, ".display"), |a, o| show!(o, a.at(a.$g(0)))));
        $l.push((concat!($p, ".debug"), |a, o| { let v = a.at(a.$g(0)); text(o, |s| write!(s, "{:?}", v)) }));
    };
}
macro_rules! vec_fl {
    ($l:expr, $p:literal, $V:ident, $n:literal, $g:ident) => {
        $l.push((concat!($p, ".norm2"), |a, o| o.s(a.at(a.$g(0)).norm2())));
        #[allow(unused_mut)]
        $l.push((concat!($p, ".normalize"), |a, o| {
            let v = a.at_mut(a.$g(0));
            match v.normalize() {
                Ok(r) => o.v(&*r),
                Err(VectorErrors::Norm2IsZero) => o.tag(2),
            }
            o.v(&**v)
        }));
    };
}
macro_rules! mat_num {
    ($l:expr, $p:literal, $M:ident, $V:ident, $n:literal, $g:ident, $gv:ident) => {
        $l.push((concat!($p, ".identity_zeros"), |a, o| {
            let _ = a;
            o.m(&*$M::<T>::identity());
            o.m(&*$M::<T>::zeros());
        }));
        $l.push((concat!($p, ".zero_one"), |a, o| {
            o.m(&*<$M<T> as Zero>::zero());
            o.m(&*<$M<T> as One>::one());
            o.b(a.at(a.$g(0)).is_zero());
            o.b($M::<T>::zeros().is_zero());
        }));
        $l.push((concat!($p, ".from_index"), |a, o| {
            let m = $M::from(a.mat::<$n>(0));
            for i in 0..$n { for j in 0..$n { o.s(m[(i, j)]) } }
            for i in 0..$n { o.v(&m[i]) }
            o.raw(m.rows() as u64); o.raw(m.cols() as u64)
        }));
        $l.push((concat!($p, ".as_vec"), |a, o| o.v(&a.at(a.$g(0)).as_vec())));
        $l.push((concat!($p, ".new_from_vecs"), |a, o| { let r = a.at(a.$g(0)).get_rows(); o.m(&*$M::new_from_vecs(r)) }));
        $l.push((concat!($p, ".get_diagonal"), |a, o| o.v(&*a.at(a.$g(0)).get_diagonal())));
        $l.push((concat!($p, ".get_rows"), |a, o| { let r = a.at(a.$g(0)).get_rows(); for i in 0..$n { o.v(&*r[i]) } }));
        $l.push((concat!($p, ".get_cols"), |a, o| { let r = a.at(a.$g(0)).get_cols(); for i in 0..$n { o.v(&*r[i]) } }));
        $l.push((concat!($p, ".for_each"), |a, o| {
            let c = core::cell::Cell::new(0u64);
            let h = core::cell::Cell::new(0u64);
            let r = a.at(a.$g(0)).for_each(|e| {
                let _ = point(Pt::Closure);
                c.set(c.get() + 1);
                h.set(crate::rng::hash_step(h.get(), e.bits()));
                e + T::one()
            });
            o.m(&*r);
            o.raw(c.get());
            o.raw(h.get());
        }));
        $l.push((concat!($p, ".add"), |a, o| o.m(&*(a.$g(0) + a.$g(1)))));
        $l.push((concat!($p, ".sub"), |a, o| o.m(&*(a.$g(0) - a.$g(1)))));
        $l.push((concat!($p, ".add_assign"), |a, o| { let m = a.at_mut(a.$g(0)); *m += a.$g(1); o.m(&**m) }));
        $l.push((concat!($p, ".sub_assign"), |a, o| { let m = a.at_mut(a.$g(0)); *m -= a.$g(1); o.m(&**m) }));
        $l.push((concat!($p, ".mul"), |a, o| o.m(&*(a.$g(0) * a.$g(1)))));
        $l.push((concat!($p, ".scale"), |a, o| o.m(&*(a.$g(0) * a.s(4)))));
        $l.push((concat!($p, ".div"), |a, o| o.m(&*(a.$g(0) / a.s(4)))));
        $l.push((concat!($p, ".neg"), |a, o| o.m(&*(-a.$g(0)))));
        $l.push((concat!($p, ".mulvec"), |a, o| o.v(&*(a.$g(0) * a.$gv(0)))));
        $l.push((concat!($p, ".vecmul"), |a, o| o.v(&*(a.$gv(0) * a.$g(0)))));
        $l.push((concat!($p, ".eq"), |a, o| { o.b(*a.at(a.$g(0)) == *a.at(a.$g(1))); o.b(*a.at(a.$g(0)) == *a.at(a.$g(0))) }));
        $l.push((concat!($p, ".display"), |a, o| show!(o, a.at(a.$g(0)))));
        $l.push((concat!($p, ".debug"), |a, o| { let v = a.at(a.$g(0)); text(o, |s| write!(s, "{:?}", v)) }));
    };
}
macro_rules! mat_fl {
    ($l:expr, $p:literal, $M:ident, $g:ident) => {
        $l.push((concat!($p, ".transpose"), |a, o| o.m(&*a.at(a.$g(0)).transpose())));
        $l.push((concat!($p, ".trace"), |a, o| o.s(a.at(a.$g(0)).trace())));
        $l.push((concat!($p, ".norm2"), |a, o| o.s(LinearAlgebra::norm2(a.at(a.$g(0))))));
        $l.push((concat!($p, ".det"), |a, o| o.s(a.at(a.$g(0)).det())));
        $l.push((concat!($p, ".shape"), |a, o| {
            let m = *a.at(a.$g(0));
            let s = LinearAlgebra::<T>::shape(&m);
            o.raw(s.0 as u64); o.raw(s.1 as u64);
            o.raw(LinearAlgebra::<T>::rows(&m) as u64); o.raw(LinearAlgebra::<T>::cols(&m) as u64);
        }));
        $l.push((concat!($p, ".inverse"), |a, o| match a.at(a.$g(0)).inverse() { Some(m) => o.m(&*m), None => o.tag(1) }));
        $l.push((concat!($p, ".qr"), |a, o| match a.at(a.$g(0)).qr() { Some((q, r)) => { o.m(&*q); o.m(&*r) } None => o.tag(1) }));
        $l.push((concat!($p, ".lu"), |a, o| {
            let (l, d, p) = a.at(a.$g(0)).lu();
            o.m(&*l);
            o.s(d);
            for i in 0..p.len() { o.raw(p[i] as u64) }
        }));
    };
}

/// slices longer than any vector
macro_rules! long_num {
    ($l:expr, $s:literal, $n:literal) => {
        $l.push((concat!("slices.find_max_min_", $s), |a, o| {
            let m = sl::find_max_min(a.long(0, $n));
            o.s(m.max.0); o.raw(m.max.1 as u64); o.s(m.min.0); o.raw(m.min.1 as u64);
        }));
        $l.push((concat!("slices.norm_inf_", $s), |a, o| o.s(sl::norm_inf(a.long(0, $n)))));
        $l.push((concat!("slices.norm_l_", $s), |a, o| o.s(sl::norm_l(a.long(0, $n)))));
        $l.push((concat!("slices.dot_", $s), |a, o| o.s(sl::dot(a.long(0, $n), a.long(1, $n)))));
    };
}
macro_rules! long_fl {
    ($l:expr, $s:literal, $n:literal) => {
        $l.push((concat!("slices.norm2_", $s), |a, o| o.s(sl::norm2(a.long(0, $n)))));
        $l.push((concat!("slices.normalize_", $s), |a, o| {
            let v = a.long(0, $n);
            sl::normalize(v);
            o.v(&v[..8]);
            o.v(&v[$n - 8..]);
            let h = v.iter().fold(0, |h, e| crate::rng::hash_step(h, e.bits()));
            o.raw(h & 0xffff_ffff);
        }));
        $l.push((concat!("slices.project_", $s), |a, o| o.s(sl::project_x_over_y(a.long(0, $n), a.long(1, $n)))));
        $l.push((concat!("slices.check_elements_", $s), |a, o| o.b(sl::check_elements(a.long(0, $n), Float::abs(a.s(5))))));
        $l.push((concat!("utils.compare_vecs_", $s), |a, o| { o.b(ut::compare_vecs(a.long(0, $n), a.long(1, $n), Float::abs(a.s(5)))); o.b(ut::compare_vecs(a.long(0, $n), a.long(0, $n), T::epsilon())) }));
    };
}

pub fn num_ops<T: El>() -> List<T> {
    let mut l: List<T> = Vec::new();
    vec_num!(l, "v2", V2, 2, v2);
    vec_num!(l, "v3", V3, 3, v3);
    vec_num!(l, "v4", V4, 4, v4);
    vec_num!(l, "v5", V5, 5, v5);
    vec_num!(l, "v6", V6, 6, v6);
    l.push(("v3.cross", |a, o| o.v(&*a.at(a.v3(0)).cross(a.v3(1)))));
    l.push(("v3.axes", |a, o| { let _ = a; o.v(&*V3::<T>::x_axis()); o.v(&*V3::<T>::y_axis()); o.v(&*V3::<T>::z_axis()) }));
    l.push(("v.new_from", |a, o| {
        let x = a.arr::<6>(0);
        o.v(&*V2::new_from(x[0], x[1]));
        o.v(&*V3::new_from(x[0], x[1], x[2]));
        o.v(&*V4::new_from(x[0], x[1], x[2], x[3]));
        o.v(&*V5::new_from(x[0], x[1], x[2], x[3], x[4]));
        o.v(&*V6::new_from(x[0], x[1], x[2], x[3], x[4], x[5]));
        o.m(&*M22::new_from(x[0], x[1], x[2], x[3]));
    }));
    l.push(("v4.bitand", |a, o| {
        let f = |i: usize| V4::new_from(a.arr::<4>(i)[0] > T::zero(), a.k[i] & 1 == 1, a.k[i + 2] & 2 == 2, a.arr::<4>(i)[3] < T::zero());
        let r = f(0) & f(1);
        for i in 0..4 { o.b(r[i]) }
    }));
    mat_num!(l, "m22", M22, V2, 2, m22, v2);
    mat_num!(l, "m33", M33, V3, 3, m33, v3);
    mat_num!(l, "m44", M44, V4, 4, m44, v4);
    mat_num!(l, "m55", M55, V5, 5, m55, v5);
    mat_num!(l, "m66", M66, V6, 6, m66, v6);
    l.push(("m33.triangular", |a, o| { o.v(&a.at(a.m33(0)).get_upper_triagular()); o.v(&a.at(a.m33(0)).get_lower_triangular()) }));
    l.push(("m44.triangular", |a, o| { o.v(&a.at(a.m44(0)).get_upper_triagular()); o.v(&a.at(a.m44(0)).get_lower_triangular()) }));
    l.push(("m55.triangular", |a, o| { o.v(&a.at(a.m55(0)).get_upper_triagular()); o.v(&a.at(a.m55(0)).get_lower_triangular()) }));
    l.push(("m66.triangular", |a, o| { o.v(&a.at(a.m66(0)).get_upper_triangular()); o.v(&a.at(a.m66(0)).get_lower_triangular()) }));
    l.push(("m44.get_submatrix", |a, o| o.m(&*a.at(a.m44(0)).get_submatrix((a.k[0] as usize % 4, a.k[1] as usize % 4)))));
    l.push(("m66.copy_elements_from", |a, o| { let m = a.at_mut(a.m66(0)); m.copy_elements_from(a.at(a.m33(1)), 1 + a.k[0] as usize % 4); o.m(&**m) }));
    l.push(("macros", |a, o| {
        let x = a.arr::<6>(0);
        let (p, q, r, s, t, u) = (x[0], x[1], x[2], x[3], x[4], x[5]);
        o.m(&*m22_new!(p, q; r, s));
        o.m(&*m33_new!(p, q, r; s, t, u; q, p, u));
        o.m(&*m44_new!(p, q, r, s; t, u, p, q; r, s, t, u; u, t, s, r));
        o.m(&*m55_new!(p, q, r, s, t; u, p, q, r, s; t, u, p, q, r; s, t, u, p, q; r, s, t, u, p));
    }));
    l.push(("m66.macro", |a, o| {
        let x = a.arr::<6>(0);
        let (p, q, r, s, t, u) = (x[0], x[1], x[2], x[3], x[4], x[5]);
        o.m(&*m66_new!(p, q, r, s, t, u; q, r, s, t, u, p; r, s, t, u, p, q; s, t, u, p, q, r; t, u, p, q, r, s; u, p, q, r, s, t));
    }));
    // slices
    l.push(("slices.find_max_min", |a, o| {
        let n = 1 + a.k[0] as usize;
        let m = sl::find_max_min(a.sl(&a.arr::<6>(0)[..n]));
        o.s(m.max.0); o.raw(m.max.1 as u64); o.s(m.min.0); o.raw(m.min.1 as u64);
    }));
    l.push(("slices.norm_inf", |a, o| o.s(sl::norm_inf(a.sl(&a.arr::<6>(0)[..1 + a.k[1] as usize])))));
    l.push(("slices.norm_l", |a, o| o.s(sl::norm_l(a.sl(&a.arr::<6>(0)[..1 + a.k[2] as usize])))));
    l.push(("slices.dot", |a, o| { let n = 1 + a.k[3] as usize; o.s(sl::dot(a.sl(&a.arr::<6>(0)[..n]), a.sl(&a.arr::<6>(1)[..n]))) }));
    long_num!(l, "70", 70);
    long_num!(l, "1030", 1030);
    // quaternions
    l.push(("quat.new", |a, o| {
        o.q(a.q(0)); o.q(Quaternion::from(a.qa(1))); o.q(Quaternion::new_from_vec(a.at(a.v4(0))));
        o.q(Quaternion::new_real(a.s(0))); o.q(Quaternion::new_imag(a.at(a.v3(0)))); o.q(Quaternion::new(a.s(1), a.v3(1)));
    }));
    l.push(("quat.one_zero", |a, o| {
        o.q(Quaternion::<T>::one()); o.q(Quaternion::<T>::zero());
        o.q(<Quaternion<T> as One>::one()); o.q(<Quaternion<T> as Zero>::zero());
        o.b(a.at(a.q(0)).is_zero());
    }));
    l.push(("quat.dot", |a, o| o.s(a.at(a.q(0)).dot(a.q(1)))));
    l.push(("quat.abs2", |a, o| o.s(a.at(a.q(0)).abs2())));
    l.push(("quat.to_rotation", |a, o| o.m(&*a.at(a.q(0)).to_rotation())));
    l.push(("quat.add", |a, o| o.q(a.q(0) + a.q(1))));
    l.push(("quat.sub", |a, o| o.q(a.q(0) - a.q(1))));
    l.push(("quat.mul", |a, o| o.q(a.q(0) * a.q(1))));
    l.push(("quat.scale", |a, o| o.q(a.q(0) * a.s(4))));
    l.push(("quat.divs", |a, o| o.q(a.q(0) / a.s(4))));
    l.push(("quat.neg", |a, o| o.q(-a.q(0))));
    l.push(("quat.conj", |a, o| o.q(a.at(a.q(0)).conj())));
    l.push(("quat.rotate", |a, o| o.v(&*(a.q(0) * a.v3(0)))));
    l.push(("quat.eq", |a, o| { o.b(*a.at(a.q(0)) == *a.at(a.q(1))); o.b(*a.at(a.q(0)) == *a.at(a.q(0))) }));
    l.push(("quat.display", |a, o| show!(o, a.at(a.q(0)))));
    l.push(("quat.debug", |a, o| { let v = a.at(a.q(0)); text(o, |s| write!(s, "{:?}", v)) }));
    // dual quaternions
    l.push(("dq.new", |a, o| {
        o.dq(a.dq(0));
        o.dq(DualQuaternion::new_from_rotation(a.at(a.q(0))));
        o.dq(DualQuaternion::new_from_point(a.at(a.v3(0))));
        o.dq(DualQuaternion::new_from_vecs(a.at(a.v4(0)), a.at(a.v4(1))));
    }));
    l.push(("dq.one_zero", |a, o| {
        o.dq(DualQuaternion::<T>::one()); o.dq(DualQuaternion::<T>::zero());
        o.dq(<DualQuaternion<T> as One>::one()); o.dq(<DualQuaternion<T> as Zero>::zero());
        o.b(a.at(a.dq(0)).is_zero());
    }));
    l.push(("dq.add", |a, o| o.dq(a.dq(0) + a.dq(1))));
    l.push(("dq.sub", |a, o| o.dq(a.dq(0) - a.dq(1))));
    l.push(("dq.mul", |a, o| o.dq(a.dq(0) * a.dq(1))));
    l.push(("dq.scale", |a, o| o.dq(a.dq(0) * a.s(4))));
    l.push(("dq.neg", |a, o| o.dq(-a.dq(0))));
    l.push(("dq.conj", |a, o| o.dq(a.at(a.dq(0)).conj())));
    l.push(("dq.conj_as_dual", |a, o| o.dq(a.at(a.dq(0)).conj_as_dual())));
    l.push(("dq.conj_combined", |a, o| o.dq(a.at(a.dq(0)).conj_combined())));
    l.push(("dq.norm", |a, o| o.dq(a.at(a.dq(0)).norm())));
    l.push(("dq.to_rotation_translation", |a, o| { let (r, t) = a.at(a.dq(0)).to_rotation_translation(); o.m(&*r); o.v(&*t) }));
    l.push(("dq.get_translation", |a, o| o.v(&*a.at(a.dq(0)).get_translation())));
    l.push(("dq.to_quaternion_translation", |a, o| { let (q, t) = a.at(a.dq(0)).to_quaternion_translation(); o.q(q); o.v(&*t) }));
    l.push(("dq.transform_point", |a, o| o.v(&*a.at(a.dq(0)).transform_point(a.at(a.v3(0))))));
    l.push(("dq.eq", |a, o| { o.b(*a.at(a.dq(0)) == *a.at(a.dq(1))); o.b(*a.at(a.dq(0)) == *a.at(a.dq(0))) }));
    l.push(("dq.display", |a, o| show!(o, a.at(a.dq(0)))));
    l.push(("dq.debug", |a, o| { let v = a.at(a.dq(0)); text(o, |s| write!(s, "{:?}", v)) }));
    l
}

/// a quaternion that remembers being normalised
pub fn qn<T: Fl>(a: &A<T>, i: usize) -> Quaternion<T> {
    Quaternion::from_euler_angles(a.s(i), a.s(i + 1), a.s(2))
}
/// a dual quaternion that remembers being normalised
pub fn dqn<T: Fl>(a: &A<T>, i: usize) -> DualQuaternion<T> {
    DualQuaternion::new_from_rot_trans(a.at(qn(a, i)), a.at(a.v3(i)))
}
fn oq<T: El>(o: &mut Out, q: Option<Quaternion<T>>) {
    match q {
        Some(q) => o.q(q),
        None => o.tag(1),
    }
}

pub fn float_ops<T: Fl>() -> List<T> {
    let mut l: List<T> = Vec::new();
    vec_fl!(l, "v2", V2, 2, v2);
    vec_fl!(l, "v3", V3, 3, v3);
    vec_fl!(l, "v4", V4, 4, v4);
    vec_fl!(l, "v5", V5, 5, v5);
    vec_fl!(l, "v6", V6, 6, v6);
    mat_fl!(l, "m22", M22, m22);
    mat_fl!(l, "m33", M33, m33);
    mat_fl!(l, "m44", M44, m44);
    mat_fl!(l, "m55", M55, m55);
    mat_fl!(l, "m66", M66, m66);
    l.push(("m22.real_eigenvals", |a, o| match a.at(a.m22(0)).real_eigenvals() { Some(v) => o.v(&*v), None => o.tag(1) }));
    l.push(("slices.norm2", |a, o| o.s(sl::norm2(a.sl(&a.arr::<6>(0)[..1 + a.k[0] as usize])))));
    l.push(("slices.normalize", |a, o| { let v = a.at_mut(a.arr::<6>(0)); sl::normalize(&mut v[..1 + a.k[1] as usize]); o.v(&*v) }));
    l.push(("slices.project", |a, o| { let n = 1 + a.k[2] as usize; o.s(sl::project_x_over_y(a.sl(&a.arr::<6>(0)[..n]), a.sl(&a.arr::<6>(1)[..n]))) }));
    l.push(("slices.check_elements", |a, o| o.b(sl::check_elements(a.sl(&a.arr::<6>(0)), Float::abs(a.s(5))))));
    long_fl!(l, "70", 70);
    long_fl!(l, "1030", 1030);
    // utils
    l.push(("utils.nearly_equal", |a, o| { o.b(ut::nearly_equal(a.s(0), a.s(1), Float::abs(a.s(5)))); o.b(ut::nearly_equal(a.s(0), a.s(0), T::epsilon())) }));
    l.push(("utils.nearly_zero", |a, o| { o.b(ut::nearly_zero(a.s(0))); o.b(ut::nearly_zero(a.s(4))) }));
    l.push(("utils.compare_vecs", |a, o| { o.b(ut::compare_vecs(a.sl(&a.arr::<6>(0)), a.sl(&a.arr::<6>(1)), Float::abs(a.s(5)))); o.b(ut::compare_vecs(a.sl(&a.arr::<4>(0)), a.sl(&a.arr::<4>(0)), T::epsilon())) }));
    l.push(("utils.compare_floats", |a, o| o.b(ut::compare_floats(a.s(0), a.s(1), Float::abs(a.s(5))))));
    l.push(("utils.is_rotation", |a, o| { o.b(ut::is_rotation(a.r(0))); o.b(ut::is_rotation(a.m33(0))) }));
    l.push(("utils.is_rotation_h", |a, o| { o.b(ut::is_rotation_h(a.h(0))); o.b(ut::is_rotation_h(a.m44(0))) }));
    l.push(("utils.compare_dq", |a, o| { o.b(ut::compare_dual_quaternions(a.dq(0), a.dq(1), Float::abs(a.s(5)))); o.b(ut::compare_dual_quaternions(a.dq(0), a.dq(0), T::epsilon())) }));
    // quaternions
    l.push(("quat.div", |a, o| o.q(a.q(0) / a.q(1))));
    l.push(("quat.norm2", |a, o| o.s(a.at(a.q(0)).norm2())));
    l.push(("quat.normalize", |a, o| oq(o, a.at(a.q(0)).normalize())));
    l.push(("quat.normalize_flagged", |a, o| oq(o, a.at(qn(a, 0)).normalize())));
    l.push(("quat.normalize_twice", |a, o| oq(o, a.at(a.q(0)).normalize().and_then(|q| q.normalize()))));
    l.push(("quat.abs_imag", |a, o| o.s(a.at(a.q(0)).abs_imag())));
    l.push(("quat.rotation", |a, o| o.q(Quaternion::rotation(a.s(0), a.at(a.v3(0))))));
    l.push(("quat.rotation_norm_encoded", |a, o| o.q(Quaternion::rotation_norm_encoded(a.at(a.v3(0))))));
    l.push(("quat.from_euler_angles", |a, o| o.q(Quaternion::from_euler_angles(a.s(0), a.s(1), a.s(2)))));
    l.push(("quat.get_angle", |a, o| { o.s(a.at(a.q(0)).get_angle()); o.s(a.at(qn(a, 0)).get_angle()) }));
    l.push(("quat.get_axis", |a, o| match a.at(a.q(0)).get_axis() { Some(v) => o.v(&*v), None => o.tag(1) }));
    l.push(("quat.axis_angle", |a, o| { let (x, t) = a.at(qn(a, 0)).axis_angle(); if let Some(v) = x { o.v(&*v) } else { o.tag(1) } o.s(t) }));
    l.push(("quat.normalize_q", |a, o| o.q(a.at(a.q(0)).normalize_q())));
    l.push(("quat.argq", |a, o| o.q(a.at(a.q(0)).argq())));
    l.push(("quat.exp", |a, o| o.q(a.at(a.q(0)).exp())));
    l.push(("quat.ln", |a, o| o.q(a.at(a.q(0)).ln())));
    l.push(("quat.ln_flagged", |a, o| o.q(a.at(qn(a, 0)).ln())));
    l.push(("quat.sqrt", |a, o| o.q(a.at(a.q(0)).sqrt())));
    l.push(("quat.pow", |a, o| o.q(a.at(a.q(0)).pow(a.q(1)))));
    l.push(("quat.slerp", |a, o| o.q(Quaternion::slerp(a.q(0), a.q(1), a.s(3)))));
    l.push(("quat.derivative", |a, o| o.q(a.at(a.q(0)).derivative(a.at(a.v3(0))))));
    l.push(("quat.inverse", |a, o| oq(o, a.at(a.q(0)).inverse())));
    l.push(("quat.inverse_flagged", |a, o| oq(o, a.at(qn(a, 0)).inverse())));
    l.push(("quat.sin", |a, o| o.q(a.at(a.q(0)).sin())));
    l.push(("quat.cos", |a, o| o.q(a.at(a.q(0)).cos())));
    l.push(("quat.to_euler_angles", |a, o| { let (x, y, z) = a.at(a.q(0)).to_euler_angles(); o.s(x); o.s(y); o.s(z) }));
    l.push(("quat.from_rotation", |a, o| o.q(Quaternion::from_rotation(a.at(a.r(0))))));
    // dual quaternions
    l.push(("dq.div", |a, o| o.dq(a.dq(0) / a.dq(1))));
    l.push(("dq.to_homogeneous", |a, o| o.m(&*a.at(a.dq(0)).to_homogeneous())));
    l.push(("dq.inverse", |a, o| o.dq(a.at(a.dq(0)).inverse())));
    l.push(("dq.inverse_flagged", |a, o| o.dq(a.at(dqn(a, 0)).inverse())));
    l.push(("dq.get_screw_parameters", |a, o| { let (x, m, t, d) = a.at(a.dq(0)).get_screw_parameters(); o.v(&*x); o.v(&*m); o.s(t); o.s(d) }));
    l.push(("dq.new_from_screw_parameters", |a, o| o.dq(DualQuaternion::new_from_screw_parameters(a.at(a.v3(0)), a.at(a.v3(1)), a.s(0), a.s(4)))));
    l.push(("dq.pow", |a, o| o.dq(a.at(a.dq(0)).pow(a.s(3)))));
    l.push(("dq.screw_lerp", |a, o| o.dq(DualQuaternion::screw_lerp(a.at(a.dq(0)), a.at(a.dq(1)), a.s(3)))));
    l.push(("dq.screw_lerp_flagged", |a, o| o.dq(DualQuaternion::screw_lerp(a.at(dqn(a, 0)), a.at(dqn(a, 1)), a.s(3)))));
    l.push(("dq.log", |a, o| match a.at(a.dq(0)).log() { Some(d) => o.dq(d), None => o.tag(1) }));
    l.push(("dq.log_flagged", |a, o| match DualQuaternion::new_from_rotation(a.at(a.q(0))).log() { Some(d) => o.dq(d), None => o.tag(1) }));
    l.push(("dq.log_translation", |a, o| match DualQuaternion::new_from_translation(a.at(a.v3(0))).log() { Some(d) => o.dq(d), None => o.tag(1) }));
    l.push(("dq.new_from_array", |a, o| { let (q, v) = (a.qa(0), a.arr::<3>(0)); o.dq(DualQuaternion::new_from_array([q[0], q[1], q[2], q[3], v[0], v[1], v[2]])) }));
    l.push(("dq.new_from_translation", |a, o| o.dq(DualQuaternion::new_from_translation(a.at(a.v3(0))))));
    l.push(("dq.new_from_rot_trans", |a, o| o.dq(DualQuaternion::new_from_rot_trans(a.at(a.q(0)), a.at(a.v3(0))))));
    l.push(("dq.is_normalized", |a, o| { o.b(a.at(a.dq(0)).is_normalized()); o.b(DualQuaternion::new_from_translation(a.at(a.v3(0))).is_normalized()) }));
    l.push(("dq.normalize", |a, o| match a.at(a.dq(0)).normalize() { Some(d) => { o.dq(d); o.b(d.is_normalized()) } None => o.tag(1) }));
    l.push(("dq.normalize_flagged", |a, o| match DualQuaternion::new_from_translation(a.at(a.v3(0))).normalize() { Some(d) => o.dq(d), None => o.tag(1) }));
    l.push(("dq.new_from_homogeneous", |a, o| o.dq(DualQuaternion::new_from_homogeneous(a.at(a.h(0))))));
    l.push(("dq.new_from_rotation_matrix", |a, o| o.dq(DualQuaternion::new_from_rotation_matrix(a.at(a.r(0))))));
    // transformations
    l.push(("tf.rot2", |a, o| o.m(&*tr::rot2(a.s(0)))));
    l.push(("tf.rotx", |a, o| o.m(&*tr::rotx(a.s(0)))));
    l.push(("tf.roty", |a, o| o.m(&*tr::roty(a.s(0)))));
    l.push(("tf.rotz", |a, o| o.m(&*tr::rotz(a.s(0)))));
    l.push(("tf.euler_to_rotation", |a, o| {
        use tr::EulerSeq::*;
        let q = match a.k[0] as usize * 2 + (a.k[1] & 1) as usize {
            0 => Some(XYX), 1 => Some(XYZ), 2 => Some(XZX), 3 => Some(XZY), 4 => Some(YXY), 5 => Some(YXZ),
            6 => Some(YZX), 7 => Some(YZY), 8 => Some(ZXY), 9 => Some(ZXZ), _ => None,
        };
        o.m(&*tr::euler_to_rotation(a.s(0), a.s(1), a.s(2), q))
    }));
    l.push(("tf.euler_zyx", |a, o| o.m(&*tr::euler_to_rotation(a.s(0), a.s(1), a.s(2), None))));
    l.push(("tf.rotation_to_euler", |a, o| { let (x, y, z) = tr::rotation_to_euler(a.at(a.r(0))); o.s(x); o.s(y); o.s(z) }));
    l.push(("tf.homogeneous_from_rotation", |a, o| o.m(&*tr::homogeneous_from_rotation(a.at(a.r(0)), a.at(a.v3(0))))));
    l.push(("tf.se3_from_parts", |a, o| o.m(&*tr::se3_from_parts(a.at(a.m33(0)), a.at(a.v3(0))))));
    l.push(("tf.se3_get_parts", |a, o| { let (m, v) = tr::se3_get_parts(a.at(a.m44(0))); o.m(&*m); o.v(&*v) }));
    l.push(("tf.homogeneous_from_quaternion", |a, o| o.m(&*tr::homogeneous_from_quaternion(a.at(a.q(0)), a.at(a.v3(0))))));
    l.push(("tf.get_parts", |a, o| { let (q, v) = tr::get_parts(a.at(a.h(0))); o.q(q); o.v(&*v) }));
    l.push(("tf.get_parts_raw", |a, o| { let (m, v) = tr::get_parts_raw(a.at(a.h(0))); o.m(&*m); o.v(&*v) }));
    l.push(("tf.homogeneous_inverse", |a, o| o.m(&*tr::homogeneous_inverse(a.at(a.h(0))))));
    l.push(("tf.homogeneous_inverse_transform", |a, o| o.v(&*tr::homogeneous_inverse_transform(a.at(a.h(0)), a.at(a.v3(0))))));
    l.push(("tf.skew_from_vec", |a, o| o.m(&*tr::skew_from_vec(a.at(a.v3(0))))));
    l.push(("tf.skew_to_vec", |a, o| o.v(&*tr::skew_to_vec(a.at(a.m33(0))))));
    l.push(("tf.skew_scalar", |a, o| { o.m(&*tr::skew_scalar(a.s(0))); o.s(tr::vex_m22(a.at(a.m22(0)))) }));
    l.push(("tf.ksi", |a, o| o.m(&*tr::ksi(a.s(0), a.s(1), a.s(4)))));
    l.push(("tf.skew_from_vec_aug", |a, o| o.m(&*tr::skew_from_vec_aug(a.v3(0)))));
    l.push(("tf.skew_v6", |a, o| o.m(&*tr::skew_v6(a.v6(0)))));
    l.push(("tf.axis_angle", |a, o| { let (v, t) = tr::axis_angle(a.at(a.v3(0))); o.v(&*v); o.s(t) }));
    l.push(("tf.translation", |a, o| { o.m(&*tr::translation_2d(a.s(0), a.s(1))); o.m(&*tr::translation_3d(a.s(0), a.s(1), a.s(2))) }));
    l.push(("tf.rotation_from_axis_angle", |a, o| o.m(&*tr::rotation_from_axis_angle(a.at(a.v3(0)), a.s(0)))));
    l.push(("tf.matrix_exponential", |a, o| o.m(&*tr::matrix_exponential(a.at(tr::skew_from_vec(&a.v3(0)))))));
    l.push(("tf.matrix_exponential_raw", |a, o| o.m(&*tr::matrix_exponential(a.at(a.m33(0))))));
    l.push(("tf.matrix_log", |a, o| o.m(&*tr::matrix_log(a.at(a.r(0))))));
    l.push(("tf.matrix_log_raw", |a, o| o.m(&*tr::matrix_log(a.at(a.m33(0))))));
    l.push(("tf.rotation_inverse", |a, o| o.m(&*tr::rotation_inverse(a.at(a.r(0))))));
    l.push(("tf.twist", |a, o| { let m = tr::twist_to_se3(a.at(a.v6(0))); o.m(&*m); o.v(&*tr::se3_to_twist(&m)); o.v(&*tr::se3_to_twist(a.at(a.m44(0)))) }));
    l.push(("tf.adjoint", |a, o| o.m(&*tr::adjoint(a.at(a.h(0))))));
    l.push(("tf.screw_to_axis", |a, o| o.v(&*tr::screw_to_axis(a.at(a.v3(0)), a.at(a.v3(1)), a.s(4)))));
    l.push(("tf.axis_angle6", |a, o| { let (v, t) = tr::axis_angle6(a.at(a.v6(0))); o.v(&*v); o.s(t) }));
    l.push(("tf.matrix_exponential6", |a, o| o.m(&*tr::matrix_exponential6(a.at(tr::twist_to_se3(&a.v6(0)))))));
    l.push(("tf.matrix_exponential6_raw", |a, o| o.m(&*tr::matrix_exponential6(a.at(a.m44(0))))));
    l.push(("tf.matrix_log6", |a, o| o.m(&*tr::matrix_log6(a.at(a.h(0))))));
    l.push(("tf.distance_to_manifold", |a, o| { o.s(tr::distance_to_manifold(a.at(a.r(0)))); o.s(tr::distance_to_manifold(a.at(a.m33(0)))) }));
    l
}

fn f32_ops() -> List<f32> {
    let mut l: List<f32> = Vec::new();
    l.push(("left.m22", |a, o| o.m(&*(a.s(4) * a.m22(0)))));
    l.push(("left.m33", |a, o| o.m(&*(a.s(4) * a.m33(0)))));
    l.push(("left.v2", |a, o| o.v(&*(a.s(4) * a.v2(0)))));
    l.push(("left.v3", |a, o| o.v(&*(a.s(4) * a.v3(0)))));
    l.push(("left.v4", |a, o| o.v(&*(a.s(4) * a.v4(0)))));
    l.push(("left.v5", |a, o| o.v(&*(a.s(4) * a.v5(0)))));
    l.push(("left.v6", |a, o| o.v(&*(a.s(4) * a.v6(0)))));
    l.push(("consts", |a, o| {
        let _ = a;
        o.v(&*V2_ZEROS); o.v(&*V3_ZEROS); o.v(&*V4_ZEROS); o.v(&*V5_ZEROS); o.v(&*V6_ZEROS);
        o.v(&*X_AXIS); o.v(&*Y_AXIS); o.v(&*Z_AXIS);
        o.v(&*vector2::X_AXIS); o.v(&*vector2::Y_AXIS);
        o.m(&*matrix2x2::M22_ZEROS); o.m(&*matrix2x2::M22_IDENT);
    }));
    l
}
fn f64_ops() -> List<f64> {
    let mut l: List<f64> = Vec::new();
    l.push(("left.m33", |a, o| o.m(&*(a.s(4) * a.m33(0)))));
    l.push(("left.v3", |a, o| o.v(&*(a.s(4) * a.v3(0)))));
    l
}

#[derive(Clone, Default)]
pub struct Op {
    pub name: &'static str,
    pub f64: Option<F<f64>>,
    pub f32: Option<F<f32>>,
    pub i32: Option<F<i32>>,
    pub sf: Option<F<SimF>>,
    pub si: Option<F<SimI>>,
}
impl Op {
    pub fn has(&self, t: Ty) -> bool {
        match t {
            Ty::F64 => self.f64.is_some(),
            Ty::F32 => self.f32.is_some(),
            Ty::I32 => self.i32.is_some(),
            Ty::SF => self.sf.is_some(),
            Ty::SI => self.si.is_some(),
        }
    }
    pub fn is_text(&self) -> bool {
        self.name.ends_with(".display") || self.name.ends_with(".debug")
    }
}

pub enum Prep {
    F64(F<f64>, Box<A<f64>>),
    F32(F<f32>, Box<A<f32>>),
    I32(F<i32>, Box<A<i32>>),
    SF(F<SimF>, Box<A<SimF>>),
    SI(F<SimI>, Box<A<SimI>>),
}
impl Prep {
    pub fn new(op: &Op, t: Ty, r: &Raw) -> Prep {
        match t {
            Ty::F64 => Prep::F64(op.f64.unwrap(), Box::new(A::new(r))),
            Ty::F32 => Prep::F32(op.f32.unwrap(), Box::new(A::new(r))),
            Ty::I32 => Prep::I32(op.i32.unwrap(), Box::new(A::new(r))),
            Ty::SF => Prep::SF(op.sf.unwrap(), Box::new(A::new(r))),
            Ty::SI => Prep::SI(op.si.unwrap(), Box::new(A::new(r))),
        }
    }
    /// where its operands lie (see place.rs)
    pub fn start(&self, code: u64, tid: usize, lvl: usize) {
        match self {
            Prep::F64(_, a) => a.ar.start(code, tid, lvl),
            Prep::F32(_, a) => a.ar.start(code, tid, lvl),
            Prep::I32(_, a) => a.ar.start(code, tid, lvl),
            Prep::SF(_, a) => a.ar.start(code, tid, lvl),
            Prep::SI(_, a) => a.ar.start(code, tid, lvl),
        }
    }
    #[inline(never)]
    pub fn run(&self, o: &mut Out) {
        match self {
            Prep::F64(f, a) => f(a, o),
            Prep::F32(f, a) => f(a, o),
            Prep::I32(f, a) => f(a, o),
            Prep::SF(f, a) => f(a, o),
            Prep::SI(f, a) => f(a, o),
        }
    }
}

pub fn catalogue() -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    fn slot<'a>(v: &'a mut Vec<Op>, n: &'static str) -> &'a mut Op {
        if let Some(i) = v.iter().position(|o| o.name == n) {
            return &mut v[i];
        }
        v.push(Op { name: n, ..Default::default() });
        v.last_mut().unwrap()
    }
    for (n, f) in num_ops::<f64>().into_iter().chain(float_ops()).chain(f64_ops()) {
        slot(&mut v, n).f64 = Some(f);
    }
    for (n, f) in num_ops::<f32>().into_iter().chain(float_ops()).chain(f32_ops()) {
        slot(&mut v, n).f32 = Some(f);
    }
    for (n, f) in num_ops::<i32>() {
        slot(&mut v, n).i32 = Some(f);
    }
    for (n, f) in num_ops::<SimF>().into_iter().chain(float_ops()) {
        slot(&mut v, n).sf = Some(f);
    }
    for (n, f) in num_ops::<SimI>() {
        slot(&mut v, n).si = Some(f);
    }
    v
}
#[allow(dead_code)]
pub fn name_hash(n: &str) -> u64 {
    hash_bytes(n.as_bytes())
}
#[allow(dead_code)]
fn _sig<T: El>(x: T) -> T {
    Signed::abs(&x)
}
