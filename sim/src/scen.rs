#![allow(unused_mut)]
//! Properties whose runs are histories on one object, interpreted inside the
//! child: rendering (C05), in-place updates (C08), mapping (C09), cached
//! normalisation (C12).
use crate::check::*;
use crate::elem::{El, Fl, SimF, SimI, SimTrap, TAG_BASE};
use crate::engine::*;
use crate::plan::*;
use crate::props::Prop;
use crate::rng::Rng;
use core::cell::{Cell, RefCell};
use core::fmt::{self, Write};
use num::Float;
use static_math::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// record a violation and end the run
fn fail(class: &str, text: String) -> ! {
    let h = &mut shm().hdr;
    h.verdict = 1;
    let s = format!("{}|{}", class, text);
    let n = s.len().min(1024);
    h.text[..n].copy_from_slice(&s.as_bytes()[..n]);
    h.text_len = n as u32;
    unsafe { libc::_exit(0) }
}
fn count(i: usize) {
    shm().hdr.aux[i] += 1;
}
fn judge(w: &mut W, _p: &Plan, r: &Ran) -> Option<Viol> {
    w.st().compared += r.aux[31];
    if r.verdict == 1 {
        let (c, t) = r.text.split_once('|').unwrap_or(("?", &r.text));
        return viol(c, t);
    }
    match r.end {
        End::Exit(0) => None,
        End::Hang => viol("hang", "the history never completed"),
        End::Exit(c) => viol(format!("exit{}", c), format!("unexpected panic: {}", String::from_utf8_lossy(&r.io))),
        End::Signal(s) => viol(format!("signal{}", s), "the process died"),
    }
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum Pk {
    None,
    Injected,
    Trap,
    Lib,
}
fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Pk> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            sc().active = false;
            let k = if p.is::<Injected>() {
                Pk::Injected
            } else if p.is::<SimTrap>() {
                Pk::Trap
            } else {
                Pk::Lib
            };
            core::mem::forget(p);
            Err(k)
        }
    }
}
fn vals<T: El>(seed: i64, n: usize, style: i64) -> Vec<T> {
    let mut r = Rng::derive(seed as u64, "vals", style as u64);
    let eq = T::raw(r.range(-9, 9) as f64);
    (0..n)
        .map(|i| match style.rem_euclid(7) {
            0 => T::raw(r.range(-50, 50) as f64),
            1 => T::raw(r.f(-3.0, 3.0)),
            2 => eq,
            3 => T::raw(if r.chance(1, 2) { 0.0 } else { -0.0 }),
            4 => T::raw(*r.pick(&[f64::NAN, 1.0, f64::INFINITY, -1.0, 0.0])),
            5 => T::raw((i as i64 * 7 + seed.rem_euclid(100)) as f64),
            _ => T::raw(10f64.powf(r.f(-12.0, 9.0))),
        })
        .collect()
}
fn bits<T: El>(v: &[T]) -> Vec<u64> {
    v.iter().map(|x| x.bits()).collect()
}

// -------------------------------------------------------------------- C05 --
struct Rec {
    text: String,
    calls: u64,
    failed: bool,
    after: u64,
    torn: bool,
}
impl Rec {
    fn new(torn: bool) -> Rec {
        Rec { text: String::new(), calls: 0, failed: false, after: 0, torn }
    }
}
impl Write for Rec {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed || ELEM_FAILED.get() {
            self.after += 1;
        }
        self.calls += 1;
        if let Act::Err = point(Pt::Sink) {
            self.failed = true;
            if self.torn && s.len() > 1 && s.is_ascii() {
                self.text.push_str(&s[..s.len() / 2]);
            }
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}
thread_local! {
    pub static ELEM_FAILED: Cell<bool> = const { Cell::new(false) };
    /// filler length of tagged components, and whether they are written in pieces
    pub static PAD: Cell<(u16, bool)> = const { Cell::new((0, false)) };
}

fn put<D: fmt::Display + fmt::Debug>(d: &D, s: &mut Rec, spec: i64) -> fmt::Result {
    match spec.rem_euclid(9) {
        0 | 1 => write!(s, "{}", d),
        2 => write!(s, "{:8.3}", d),
        3 => write!(s, "{:<12}", d),
        4 => write!(s, "{:+}", d),
        6 => write!(s, "{:?}", d),
        7 => write!(s, "{:#?}", d),
        8 => write!(s, "{:#}", d),
        _ => s.write_fmt(format_args!("{0:>10.2}", d)),
    }
}
const SHOWN: usize = 12;
fn c05_dim(kind: i64) -> usize {
    [2, 3, 4, 5, 6, 4, 9, 16, 25, 36, 4, 8][kind.rem_euclid(SHOWN as i64) as usize]
}
fn arr<T: El, const N: usize>(v: &[T]) -> [T; N] {
    core::array::from_fn(|i| v[i])
}
fn sq<T: El, const N: usize>(v: &[T]) -> [[T; N]; N] {
    core::array::from_fn(|i| core::array::from_fn(|j| v[i * N + j]))
}
fn c05_put<T: El>(kind: i64, v: &[T], s: &mut Rec, spec: i64) -> fmt::Result {
    match kind.rem_euclid(SHOWN as i64) {
        0 => put(&V2::new(arr(v)), s, spec),
        1 => put(&V3::new(arr(v)), s, spec),
        2 => put(&V4::new(arr(v)), s, spec),
        3 => put(&V5::new(arr(v)), s, spec),
        4 => put(&V6::new(arr(v)), s, spec),
        5 => put(&M22::new(sq(v)), s, spec),
        6 => put(&M33::new(sq(v)), s, spec),
        7 => put(&M44::new(sq(v)), s, spec),
        8 => put(&M55::new(sq(v)), s, spec),
        9 => put(&M66::new(sq(v)), s, spec),
        10 => put(&Quaternion::new_from(v[0], v[1], v[2], v[3]), s, spec),
        _ => put(&DualQuaternion::new(Quaternion::new_from(v[0], v[1], v[2], v[3]), Quaternion::new_from(v[4], v[5], v[6], v[7])), s, spec),
    }
}
const NAMES: [&str; SHOWN] = ["V2", "V3", "V4", "V5", "V6", "M22", "M33", "M44", "M55", "M66", "Quaternion", "DualQuaternion"];
fn c05_row<T: El>(row: &[i64; 8], tagged: bool) {
    let (kind, n) = (row[0], c05_dim(row[0]));
    let name = NAMES[kind.rem_euclid(SHOWN as i64) as usize];
    let pad = [0u16, 0, 3, 9, 40, 170, 900, 2][row[6].rem_euclid(8) as usize];
    PAD.set((pad, row[6] >= 8));
    // numbers of many digits in the types that can hold them
    let big = [1.0, 1.0, 1e3, 1e5, 1e12, 1e25, 1e33, 1.0][row[6].rem_euclid(8) as usize];
    let big = if T::TY.is_float() { big } else if big > 1e5 { 1e5 } else { big };
    let v: Vec<T> = if tagged {
        (0..n).map(|i| T::raw(TAG_BASE + i as f64)).collect()
    } else if row[2].rem_euclid(3) == 0 {
        (0..n).map(|i| T::raw(if row[2] % 2 == 0 { big } else { -big } * (101 + i) as f64)).collect()
    } else {
        vals(row[2], n, row[2] / 3)
    };
    let full = |what: &str| -> String {
        sc().active = false;
        ELEM_FAILED.set(false);
        let mut s = Rec::new(false);
        match guarded(|| c05_put(kind, &v, &mut s, row[3])) {
            Ok(Ok(())) => {}
            Ok(Err(_)) => fail(&format!("spurious:{}", name), format!("{} of {} reports an error although nothing failed", what, name)),
            Err(_) => fail(&format!("panic:{}", name), format!("{} of {} panicked", what, name)),
        }
        s.text
    };
    let text = full("formatting");
    let ints: Vec<String> = if tagged {
        // components carry their identity
        let mut ids = vec![];
        let mut rest = &text[..];
        while let Some(p) = rest.find('<') {
            let q = rest[p..].find('>').map(|x| p + x).unwrap_or(rest.len());
            let id = &rest[(p + 1).min(q)..q];
            ids.push(if id.matches('~').count() == pad as usize { id.trim_end_matches('~').to_string() } else { format!("{} (cut)", id) });
            rest = &rest[q.min(rest.len())..];
        }
        ids
    } else if row[2].rem_euclid(3) == 0 {
        text.split(|c: char| !(c.is_ascii_digit() || c == '.' || c == 'e'))
            .filter_map(|t| t.parse::<f64>().ok())
            .filter(|x| *x >= 50.0)
            .map(|x| format!("{}", (x / big).round() as i64 - 101))
            .collect()
    } else {
        vec![]
    };
    if tagged || row[2].rem_euclid(3) == 0 {
        let want: Vec<String> = (0..n).map(|i| i.to_string()).collect();
        if ints != want {
            fail(&format!("components:{}", name), format!("{} delivered components {:?}, expected each of 0..{} once in order: {:?}", name, ints, n, text));
        }
    }
    // the same rendering with a fault
    let (at, what) = (row[5].max(1) as u64, row[4].rem_euclid(8));
    let (mask, act) = match what {
        1 => (bit(Pt::Sink), SC_ERR),
        2 => (bit(Pt::Sink), SC_ERR_ON),
        3 => (bit(Pt::Fmt), SC_ERR),
        4 => (bit(Pt::Fmt), SC_ERR_ON),
        5 => (bit(Pt::Sink), SC_PANIC),
        6 => (bit(Pt::Fmt), SC_PANIC),
        7 => (bit(Pt::Sink), SC_ERR),
        _ => (0, 0),
    };
    let mut s = Rec::new(what == 7);
    ELEM_FAILED.set(false);
    arm(at, mask, act);
    let r = guarded(|| c05_put(kind, &v, &mut s, row[3]));
    let fired = disarm();
    if fired {
        count(0);
        count(1 + what as usize);
    }
    count(31);
    let fault = ["", "a transient sink error", "a sink that fails for good", "a component that fails to format once", "components that fail to format for good", "a panic in the sink", "a panic while formatting a component", "a torn sink write"][what as usize];
    let at_s = format!("{} at {} {}", fault, if mask == bit(Pt::Fmt) { "component" } else { "write" }, at);
    match r {
        Ok(Ok(())) if fired => fail(&format!("swallowed:{}", name), format!("{} reports success despite {}; sink received {:?} of {:?}", name, at_s, s.text, text)),
        Ok(Ok(())) => {
            if s.text != text {
                fail(&format!("incomplete:{}", name), format!("{} reports success but the sink received {:?} instead of {:?}", name, s.text, text));
            }
        }
        Ok(Err(_)) if !fired => fail(&format!("spurious:{}", name), format!("{} reports an error although nothing failed", name)),
        Ok(Err(_)) => {}
        Err(Pk::Injected) if fired => {}
        Err(_) => fail(&format!("panic:{}", name), format!("formatting {} panicked under {}", name, at_s)),
    }
    if fired && s.after > 0 {
        fail(&format!("continues:{}", name), format!("{} wrote {} more pieces after {}", name, s.after, at_s));
    }
    if !text.starts_with(&s.text) {
        fail(&format!("prefix:{}", name), format!("under {} the sink of {} received {:?}, not a prefix of {:?}", at_s, name, s.text, text));
    }
    let again = full("formatting after a failure");
    if again != text {
        fail(&format!("history:{}", name), format!("after {} {} renders {:?} instead of {:?}", at_s, name, again, text));
    }
}
fn scen_c05(p: &Plan) {
    for row in &p.rows {
        match row[1].rem_euclid(8) {
            0..=3 => c05_row::<SimF>(row, true),
            4 => c05_row::<SimI>(row, false),
            5 => c05_row::<f64>(row, false),
            6 => c05_row::<f32>(row, false),
            _ => c05_row::<i32>(row, false),
        }
    }
}
fn gen_c05(_w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let mut p = Plan::new();
    for k in 0..1 + r.below(5) {
        let kind = if k == 0 { idx as i64 % SHOWN as i64 } else { r.below(SHOWN as u64) as i64 };
        let n = c05_dim(kind) as u64;
        let what = 1 + r.below(7) as i64;
        let ty = if (3..=4).contains(&what) || what == 6 { r.below(5) } else { r.below(8) } as i64;
        let pad = r.below(16);
        let spec = r.below(6) as i64;
        // only tagged components can be told from the rest of a debug text
        let spec = if ty <= 3 && r.chance(1, 4) { 6 + r.below(3) as i64 } else { spec };
        let per = if matches!(what, 3 | 4 | 6) { n } else { n * if pad >= 8 { 9 } else { 5 } + 10 };
        let at = 1 + if r.chance(1, 12) { r.below(per * 3) } else { r.below(per) } as i64;
        let style = if r.chance(1, 2) { 3 * r.below(1000) } else { r.below(3000) } as i64;
        p.rows.push([kind, ty, style, spec, what, at, pad as i64, 0]);
    }
    p
}

// -------------------------------------------------------------------- C09 --
fn each<T: El>(row: &[i64; 8]) {
    let n = 2 + row[0].rem_euclid(5) as usize;
    let v: Vec<T> = vals(row[2], n * n, row[6]);
    let (what, at) = (row[3].rem_euclid(4), row[4].max(1) as u64);
    let seen: RefCell<Vec<u64>> = RefCell::new(vec![]);
    let calls = Cell::new(0u64);
    let nested_bad = Cell::new(false);
    let ret = |k: u64| {
        let e = v[(k.max(1) as usize - 1).min(n * n - 1)];
        let odd = |h: u64| match h % 9 {
            0 | 1 => T::raw(f64::NAN),
            2 => T::raw(f64::INFINITY),
            3 => T::raw(f64::NEG_INFINITY),
            4 => T::zero(),
            5 => T::raw(-0.0),
            6 => e,
            7 => T::raw(1e-310),
            _ => T::one(),
        };
        match row[7].rem_euclid(8) {
            0 => T::raw(1000.0 + k as f64),
            1 => T::raw((k % 3) as f64),
            2 => T::raw(-(k as f64)),
            3 => e,
            4 => odd(crate::rng::mix(row[2] as u64 * 64 + k) >> 7),
            5 => odd(row[2] as u64),
            6 => v[n * n - 1 - (k as usize - 1).min(n * n - 1)],
            _ => {
                if k as usize == 1 + row[2].rem_euclid((n * n) as i64) as usize {
                    odd(row[2] as u64 >> 6)
                } else {
                    T::raw(k as f64)
                }
            }
        }
    };
    let f = |e: T| -> T {
        calls.set(calls.get() + 1);
        let k = calls.get();
        seen.borrow_mut().push(e.bits());
        if k == at {
            match what {
                1 => {
                    sc().fired += 1;
                    std::panic::resume_unwind(Box::new(Injected))
                }
                2 => {
                    sc().fired += 1;
                    // a callback that uses the library, mapping included
                    let m = M33::new(sq::<f64, 3>(&(0..9).map(|x| x as f64).collect::<Vec<_>>()));
                    let c = Cell::new(0.0);
                    let r = m.for_each(|x| {
                        c.set(c.get() + 1.0);
                        x + c.get()
                    });
                    let ok = (0..9).all(|x| r[(x / 3, x % 3)] == x as f64 + (x + 1) as f64);
                    if !ok {
                        nested_bad.set(true);
                    }
                    let q = M66::new([[e; 6]; 6]).for_each(|x| x);
                    if bits(&q.as_vec()) != vec![e.bits(); 36] {
                        nested_bad.set(true);
                    }
                }
                _ => {}
            }
        }
        ret(k)
    };
    macro_rules! go {
        ($M:ident, $n:literal) => {{
            let m = $M::new(sq::<T, $n>(&v));
            sc().fired = 0;
            let r = guarded(|| m.for_each(&f));
            let after: Vec<u64> = m.iter().flatten().map(|x| x.bits()).collect();
            (r.map(|r| r.iter().flatten().map(|x| x.bits()).collect::<Vec<u64>>()), after)
        }};
    }
    let (r, after) = match n {
        2 => go!(M22, 2),
        3 => go!(M33, 3),
        4 => go!(M44, 4),
        5 => go!(M55, 5),
        _ => go!(M66, 6),
    };
    let name = format!("M{}{}", n, n);
    let fired = sc().fired > 0;
    count(31);
    if fired {
        count(0);
        count(what as usize);
    }
    let want = bits(&v);
    let seen = seen.into_inner();
    let stop = if what == 1 && at as usize <= n * n { at as usize } else { n * n };
    if seen != want[..stop] {
        fail(&format!("visits:{}", name), format!("{} called its closure with {:x?}; elements in order are {:x?}", name, seen, &want[..stop]));
    }
    if after != want {
        fail(&format!("source:{}", name), format!("mapping changed the source of {}", name));
    }
    if nested_bad.get() {
        fail(&format!("nested:{}", name), format!("a mapping inside the closure of {} went wrong", name));
    }
    match r {
        Ok(_) if what == 1 && fired => fail(&format!("panic-lost:{}", name), format!("the closure's panic at element {} of {} did not reach the caller", at, name)),
        Ok(got) => {
            let w: Vec<u64> = (0..n * n).map(|k| ret(k as u64 + 1).bits()).collect();
            if got != w {
                fail(&format!("placement:{}", name), format!("{} holds {:x?} instead of the returned values {:x?}", name, got, w));
            }
        }
        Err(Pk::Injected) if what == 1 && fired => {}
        Err(k) => fail(&format!("panic:{}", name), format!("mapping over {} panicked ({:?})", name, k)),
    }
}
fn scen_c09(p: &Plan) {
    for row in &p.rows {
        match row[1].rem_euclid(5) {
            0 => each::<SimF>(row),
            1 => each::<SimI>(row),
            2 => each::<f64>(row),
            3 => each::<f32>(row),
            _ => each::<i32>(row),
        }
    }
}
fn gen_c09(_w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let mut p = Plan::new();
    for k in 0..1 + r.below(6) {
        let n = if k == 0 { idx as i64 % 5 } else { r.below(5) as i64 };
        let nn = ((n + 2) * (n + 2)) as u64;
        p.rows.push([n, r.below(5) as i64, r.below(1 << 20) as i64, r.below(4) as i64, 1 + r.below(nn + 2) as i64, 0, r.below(7) as i64, r.below(8) as i64]);
    }
    p
}

// -------------------------------------------------------------------- C08 --
trait Obj<T: El>: Sized {
    const LEN: usize;
    const SIDE: usize;
    const NAME: &'static str;
    fn make(v: &[T]) -> Self;
    /// every way of reading it, each giving the elements in storage order
    fn read(&self) -> Vec<(&'static str, Vec<u64>)>;
    /// write one element by the given form; out-of-range indices included
    fn write(&mut self, form: i64, i: usize, j: usize, x: T);
    fn fill(&mut self, form: i64, i: usize, xs: &[T]);
    fn add(&mut self, w: &[T]);
    fn sub(&mut self, w: &[T]);
    fn block(&mut self, _w: &[T], _k: usize) {}
    fn norm(&self) {}
}
macro_rules! vobj {
    ($V:ident, $n:literal, $T:ty, $norm:expr) => {
        impl Obj<$T> for $V<$T> {
            const LEN: usize = $n;
            const SIDE: usize = $n;
            const NAME: &'static str = stringify!($V);
            fn make(v: &[$T]) -> Self {
                $V::new(arr(v))
            }
            fn read(&self) -> Vec<(&'static str, Vec<u64>)> {
                vec![
                    ("indexing", (0..$n).map(|i| self[i].bits()).collect()),
                    ("slicing", bits(&self[..])),
                    ("iteration", self.iter().map(|x| x.bits()).collect()),
                    ("dereference", bits(&**self)),
                    ("copy", bits(&*{ *self })),
                ]
            }
            fn write(&mut self, form: i64, i: usize, _j: usize, x: $T) {
                match form.rem_euclid(4) {
                    0 => self[i] = x,
                    1 => (&mut **self)[i] = x,
                    2 => self[i..i + 1].copy_from_slice(&[x]),
                    _ => *self.get_mut(i).expect("index") = x,
                }
            }
            fn fill(&mut self, form: i64, i: usize, xs: &[$T]) {
                match form.rem_euclid(3) {
                    0 => self[..].copy_from_slice(&xs[..$n]),
                    1 => **self = arr(xs),
                    _ => {
                        for (e, x) in self.iter_mut().skip(i.min($n)).zip(xs.iter().skip(i.min($n))) {
                            *e = *x;
                        }
                    }
                }
            }
            fn add(&mut self, w: &[$T]) {
                *self += $V::new(arr(w));
            }
            fn sub(&mut self, w: &[$T]) {
                *self -= $V::new(arr(w));
            }
            fn norm(&self) {
                let f: fn(&$V<$T>) = $norm;
                f(self)
            }
        }
    };
}
macro_rules! mobj {
    ($M:ident, $n:literal, $T:ty, $block:expr) => {
        impl Obj<$T> for $M<$T> {
            const LEN: usize = $n * $n;
            const SIDE: usize = $n;
            const NAME: &'static str = stringify!($M);
            fn make(v: &[$T]) -> Self {
                $M::new(sq(v))
            }
            fn read(&self) -> Vec<(&'static str, Vec<u64>)> {
                let (rows, cols) = (self.get_rows(), self.get_cols());
                vec![
                    ("pair indexing", (0..$n * $n).map(|k| self[(k / $n, k % $n)].bits()).collect()),
                    ("row indexing", (0..$n).flat_map(|i| bits(&self[i])).collect()),
                    ("flattening", bits(&self.as_vec())),
                    ("iteration", self.iter().flatten().map(|x| x.bits()).collect()),
                    ("rows", (0..$n).flat_map(|i| bits(&*rows[i])).collect()),
                    ("columns", (0..$n * $n).map(|k| cols[k % $n][k / $n].bits()).collect()),
                ]
            }
            fn write(&mut self, form: i64, i: usize, j: usize, x: $T) {
                match form.rem_euclid(4) {
                    0 | 1 => self[(i, j)] = x,
                    2 => self[i][j] = x,
                    _ => (&mut **self)[i][j] = x,
                }
            }
            fn fill(&mut self, form: i64, i: usize, xs: &[$T]) {
                match form.rem_euclid(4) {
                    0 => self[i] = arr(&xs[i.min($n - 1) * $n..]),
                    1 => **self = sq(xs),
                    2 => self[i][..].copy_from_slice(&xs[i.min($n - 1) * $n..][..$n]),
                    _ => {
                        let i = i.min($n - 1);
                        for (e, x) in self.iter_mut().flatten().skip(i * $n).zip(xs[i * $n..].iter()) {
                            *e = *x;
                        }
                    }
                }
            }
            fn add(&mut self, w: &[$T]) {
                *self += $M::new(sq(w));
            }
            fn sub(&mut self, w: &[$T]) {
                *self -= $M::new(sq(w));
            }
            fn block(&mut self, w: &[$T], k: usize) {
                let f: fn(&mut $M<$T>, &[$T], usize) = $block;
                f(self, w, k)
            }
        }
    };
}
macro_rules! objs_num {
    ($T:ty) => {
        mobj!(M22, 2, $T, |_, _, _| {});
        mobj!(M33, 3, $T, |_, _, _| {});
        mobj!(M44, 4, $T, |_, _, _| {});
        mobj!(M55, 5, $T, |_, _, _| {});
        mobj!(M66, 6, $T, |m, w, k| m.copy_elements_from(&M33::new(sq(w)), k));
    };
}
macro_rules! objs_fl {
    ($T:ty) => {
        objs_num!($T);
        vobj!(V2, 2, $T, |v| { let mut c = *v; let _ = c.normalize(); same_recv(&v[..], &c[..]) });
        vobj!(V3, 3, $T, |v| { let mut c = *v; let _ = c.normalize(); same_recv(&v[..], &c[..]) });
        vobj!(V4, 4, $T, |v| { let mut c = *v; let _ = c.normalize(); same_recv(&v[..], &c[..]) });
        vobj!(V5, 5, $T, |v| { let mut c = *v; let _ = c.normalize(); same_recv(&v[..], &c[..]) });
        vobj!(V6, 6, $T, |v| { let mut c = *v; let _ = c.normalize(); same_recv(&v[..], &c[..]) });
    };
}
macro_rules! objs_int {
    ($T:ty) => {
        objs_num!($T);
        vobj!(V2, 2, $T, |_| {});
        vobj!(V3, 3, $T, |_| {});
        vobj!(V4, 4, $T, |_| {});
        vobj!(V5, 5, $T, |_| {});
        vobj!(V6, 6, $T, |_| {});
    };
}
fn same_recv<T: El>(a: &[T], b: &[T]) {
    if bits(a) != bits(b) {
        fail("normalize", format!("normalize changed its receiver of {} elements", a.len()));
    }
}
objs_fl!(SimF);
objs_fl!(f64);
objs_fl!(f32);
objs_int!(SimI);
objs_int!(i32);

/// the row in-place operations address inside a plain array
fn c08<T: El, O: Obj<T>>(p: &Plan) {
    let (n, side) = (O::LEN, O::SIDE);
    let mat = n != side;
    let mut model: Vec<T> = vals(p.rows.len() as i64, n, 0);
    let mut o = O::make(&model);
    for (step, row) in p.rows.iter().enumerate() {
        let w: Vec<T> = vals(row[3], 36, row[7]);
        let (i, j) = (row[1].rem_euclid(11) as usize, row[2].rem_euclid(11) as usize);
        let before = model.clone();
        let mut abort_ok = false;
        let what;
        arm(row[4].max(0) as u64, bit(Pt::Op), SC_PANIC);
        let r = match row[0].rem_euclid(8) {
            0 | 1 => {
                what = format!("write form {} at ({}, {})", row[6].rem_euclid(4), i, j);
                let inside = i < side && (!mat || j < side);
                if inside {
                    model[if mat { i * side + j } else { i }] = w[0];
                } else {
                    abort_ok = true;
                    count(2);
                }
                guarded(|| o.write(row[6], i, j, w[0]))
            }
            2 => {
                let i = i % (side + 1);
                what = format!("slice write form {} at {}", row[6].rem_euclid(12), i);
                if mat {
                    match row[6].rem_euclid(4) {
                        0 | 2 if i < side => model[i * side..(i + 1) * side].copy_from_slice(&w[i * side..(i + 1) * side]),
                        0 | 2 => {
                            abort_ok = true;
                            count(2);
                        }
                        1 => model.copy_from_slice(&w[..n]),
                        _ => {
                            let i = i.min(side - 1);
                            model[i * side..].copy_from_slice(&w[i * side..n])
                        }
                    }
                } else {
                    match row[6].rem_euclid(3) {
                        0 | 1 => model.copy_from_slice(&w[..n]),
                        _ => model[i.min(n)..].copy_from_slice(&w[i.min(n)..n]),
                    }
                }
                guarded(|| o.fill(row[6], i, &w))
            }
            3 | 4 => {
                what = format!("compound addition, fault at element step {}", row[4]);
                let r = guarded(|| o.add(&w));
                sc().active = false;
                if r.is_ok() {
                    for k in 0..n {
                        model[k] = model[k] + w[k];
                    }
                }
                r
            }
            5 | 6 => {
                what = format!("compound subtraction, fault at element step {}", row[4]);
                let r = guarded(|| o.sub(&w));
                sc().active = false;
                if r.is_ok() {
                    for k in 0..n {
                        model[k] = model[k] - w[k];
                    }
                }
                r
            }
            _ => {
                if O::NAME == "M66" {
                    let k = row[5].rem_euclid(7) as usize;
                    what = format!("block copy {}", k);
                    if (1..=4).contains(&k) {
                        let (a, b) = ((k - 1) / 2 * 3, (k - 1) % 2 * 3);
                        for x in 0..9 {
                            model[(a + x / 3) * 6 + b + x % 3] = w[x];
                        }
                    } else {
                        abort_ok = true;
                        count(3);
                    }
                    guarded(|| o.block(&w, k))
                } else {
                    what = format!("normalising copy, fault at element step {}", row[4]);
                    let r = guarded(|| o.norm());
                    if matches!(r, Err(Pk::Injected)) {
                        count(0);
                    }
                    r.or(Ok(()))
                }
            }
        };
        let fired = disarm();
        match r {
            Ok(()) => {
                if abort_ok {
                    // nothing may have happened
                    model = before.clone();
                }
            }
            Err(Pk::Injected) if fired => {
                count(0);
                count(1);
                model = before.clone();
            }
            Err(Pk::Trap) => {
                count(0);
                count(4);
                model = before.clone();
            }
            Err(Pk::Lib) if abort_ok || core::any::TypeId::of::<T>() == core::any::TypeId::of::<i32>() => {
                count(0);
                model = before.clone();
            }
            Err(k) => fail(&format!("panic:{}", O::NAME), format!("step {} on {}: {} panicked ({:?})", step, O::NAME, what, k)),
        }
        let want = bits(&model);
        count(31);
        let rd = match guarded(|| o.read()) {
            Ok(r) => r,
            Err(_) => fail(&format!("read:{}", O::NAME), format!("reading {} after {} panicked", O::NAME, what)),
        };
        for (how, got) in rd {
            if got != want {
                let aborted = if r.is_err() { " (aborted)" } else { "" };
                fail(
                    &format!("{}:{}", if r.is_err() { "torn" } else { "model" }, O::NAME),
                    format!("step {} on {}: after {}{} reading by {} gives {:x?}, a plain array holds {:x?}", step, O::NAME, what, aborted, how, got, want),
                );
            }
        }
    }
}
fn scen_c08(p: &Plan) {
    macro_rules! t {
        ($T:ty) => {
            match p.free_ms % 10 {
                0 => c08::<$T, V2<$T>>(p),
                1 => c08::<$T, V3<$T>>(p),
                2 => c08::<$T, V4<$T>>(p),
                3 => c08::<$T, V5<$T>>(p),
                4 => c08::<$T, V6<$T>>(p),
                5 => c08::<$T, M22<$T>>(p),
                6 => c08::<$T, M33<$T>>(p),
                7 => c08::<$T, M44<$T>>(p),
                8 => c08::<$T, M55<$T>>(p),
                _ => c08::<$T, M66<$T>>(p),
            }
        };
    }
    match p.free_ms / 10 % 5 {
        0 => t!(SimF),
        1 => t!(SimI),
        2 => t!(f64),
        3 => t!(f32),
        _ => t!(i32),
    }
}
fn gen_c08(_w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let mut p = Plan::new();
    let obj = idx % 10;
    let ty = *r.pick(&[0u64, 0, 0, 1, 1, 1, 2, 3, 4]);
    p.free_ms = obj + 10 * ty;
    if ty == 1 {
        p.limit = *r.pick(&[i64::MAX, 60, 75, 90, 120, 400]);
    }
    let side = [2u64, 3, 4, 5, 6, 2, 3, 4, 5, 6][obj as usize];
    let len = if obj >= 5 { side * side } else { side };
    for _ in 0..2 + r.below(14) {
        let oob = r.chance(1, 5);
        let ix = |r: &mut Rng| if oob && r.chance(1, 2) { r.below(11) } else { r.below(side) } as i64;
        let kind = r.below(8) as i64;
        let at = if r.chance(2, 3) { 1 + r.below(len + 1) } else { 0 } as i64;
        let style = *r.pick(&[0i64, 0, 1, 2, 3, 4, 5]);
        p.rows.push([kind, ix(r), ix(r), r.below(1 << 20) as i64, at, r.below(7) as i64, r.below(12) as i64, style]);
    }
    p
}

// -------------------------------------------------------------------- C12 --
fn qv<T: El>(q: &Quaternion<T>) -> [f64; 4] {
    let f = |x: T| x.to_f();
    [f(q.real()), f(q.imag()[0]), f(q.imag()[1]), f(q.imag()[2])]
}
fn dv<T: El>(d: &DualQuaternion<T>) -> [f64; 8] {
    let (a, b) = (qv(&d.real()), qv(&d.dual()));
    [a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]]
}
fn close(a: &[f64], b: &[f64], tol: f64) -> bool {
    let m = a.iter().chain(b).fold(1.0f64, |m, x| m.max(x.abs()));
    a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol * m)
}
fn n4(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
struct Regs<T> {
    q: [Quaternion<T>; 4],
    d: [DualQuaternion<T>; 3],
}
fn same_q<T: Fl>(step: usize, how: &str, which: &str, a: Result<Option<Quaternion<T>>, Pk>, b: Result<Option<Quaternion<T>>, Pk>, tol: f64, q: &[f64; 4]) {
    count(31);
    let bad = match (&a, &b) {
        (Ok(Some(x)), Ok(Some(y))) => {
            let (x, y) = (qv(x), qv(y));
            y.iter().all(|e| e.is_finite()) && !close(&x, &y, tol)
        }
        (Ok(None), Ok(None)) => false,
        (Err(_), _) | (_, Err(_)) => false,
        _ => true,
    };
    if bad {
        let f = |r: &Result<Option<Quaternion<T>>, Pk>| match r {
            Ok(Some(q)) => format!("{:?}", qv(q)),
            Ok(None) => "nothing".into(),
            Err(_) => "a panic".into(),
        };
        fail(
            &format!("stale:{}", which),
            format!("step {}: {} of the value {:?} produced by {} gives {}; of the same components built afresh {}", step, which, q, how, f(&a), f(&b)),
        );
    }
}
fn check_q<T: Fl>(step: usize, how: &str, q: &Quaternion<T>, other: &Quaternion<T>, tol: f64) {
    sc().active = false;
    let c = qv(q);
    let n = n4(&c);
    if !c.iter().all(|x| x.is_finite()) || !(1e-3..1e3).contains(&n) {
        return;
    }
    count(0);
    let fresh = Quaternion::new(q.real(), q.imag());
    let im = n4(&c[1..]) / n;
    same_q(step, how, "normalize", guarded(|| q.normalize()), guarded(|| fresh.normalize()), tol, &c);
    same_q(step, how, "inverse", guarded(|| q.inverse()), guarded(|| fresh.inverse()), tol * 1e3f64.min(1.0 / (n * n)).max(1.0), &c);
    let o = qv(other);
    if o.iter().all(|x| x.is_finite()) && n4(&o) < 1e3 {
        same_q(step, how, "division", guarded(|| Some(*other / *q)), guarded(|| Some(*other / fresh)), tol * 1e3, &c);
    }
    if im > 1e-3 {
        same_q(step, how, "ln", guarded(|| Some(q.ln())), guarded(|| Some(fresh.ln())), tol * 1e2, &c);
        same_q(step, how, "sqrt", guarded(|| Some(q.sqrt())), guarded(|| Some(fresh.sqrt())), tol * 1e2, &c);
        if n4(&o) < 4.0 && o.iter().all(|x| x.is_finite()) {
            same_q(step, how, "pow", guarded(|| Some(q.pow(*other))), guarded(|| Some(fresh.pow(*other))), tol * 1e5, &c);
        }
        let ax = |x: &Quaternion<T>| x.get_axis().map(|v| Quaternion::new(T::zero(), v));
        same_q(step, how, "get_axis", guarded(|| ax(q)), guarded(|| ax(&fresh)), tol * 1e4, &c);
        let aa = |x: &Quaternion<T>| {
            let (v, t) = x.axis_angle();
            v.map(|v| Quaternion::new(t, v))
        };
        same_q(step, how, "axis_angle", guarded(|| aa(q)), guarded(|| aa(&fresh)), tol * 1e4, &c);
    }
}
fn check_d<T: Fl>(step: usize, how: &str, d: &DualQuaternion<T>, other: &DualQuaternion<T>, tol: f64) {
    sc().active = false;
    let c = dv(d);
    if !c.iter().all(|x| x.is_finite()) {
        return;
    }
    check_q(step, how, &d.real(), &Quaternion::new_from(T::raw(0.3), T::raw(-0.4), T::raw(0.5), T::raw(0.2)), tol);
    check_q(step, how, &d.dual(), &Quaternion::new_from(T::raw(0.3), T::raw(-0.4), T::raw(0.5), T::raw(0.2)), tol);
    let (nr, nd) = (n4(&c[..4]), n4(&c[4..]));
    let orth: f64 = (0..4).map(|i| c[i] * c[4 + i]).sum();
    if !(1e-2..1e2).contains(&nr) || nd > 1e3 || orth.abs() > tol * nr.max(1.0) * nd.max(1.0) {
        return;
    }
    count(0);
    let fresh = DualQuaternion::new(Quaternion::new(d.real().real(), d.real().imag()), Quaternion::new(d.dual().real(), d.dual().imag()));
    let same = |which: &str, a: Result<Option<DualQuaternion<T>>, Pk>, b: Result<Option<DualQuaternion<T>>, Pk>, tol: f64| {
        count(31);
        if let (Ok(Some(x)), Ok(Some(y))) = (&a, &b) {
            let (x, y) = (dv(x), dv(y));
            if y.iter().all(|e| e.is_finite()) && !close(&x, &y, tol) {
                fail(
                    &format!("stale:dq.{}", which),
                    format!("step {}: {} of the dual quaternion {:?} produced by {} gives {:?}; of the same components built afresh {:?}", step, which, c, how, x, y),
                );
            }
        }
    };
    same("normalize", guarded(|| d.normalize()), guarded(|| fresh.normalize()), tol);
    same("inverse", guarded(|| Some(d.inverse())), guarded(|| Some(fresh.inverse())), tol * 1e4);
    if let Ok(true) = guarded(|| d.is_normalized()) {
        if (nr - 1.0).abs() > tol * 10.0 {
            fail("stale:dq.is_normalized", format!("step {}: the dual quaternion {:?} produced by {} claims to be normalised but its norm is {}", step, c, how, nr));
        }
    }
    if n4(&c[1..4]) / nr > 1e-3 {
        // the logarithm needs a normalised value: compare with the fresh value normalised
        if let Ok(Some(l)) = guarded(|| d.log()) {
            same("log", Ok(Some(l)), guarded(|| fresh.normalize().and_then(|f| f.log())), tol * 1e4);
        }
    }
    let o = dv(other);
    if o.iter().all(|x| x.is_finite()) && n4(&o) < 1e3 && (n4(&o[..4]) - 1.0).abs() < 1e-4 && (nr - 1.0).abs() < 1e-4 {
        let rel: f64 = (0..4).map(|i| c[i] * o[i]).sum();
        let neg = c[0] * o[0] - c[1] * o[1] - c[2] * o[2] - c[3] * o[3];
        if rel.abs() < 0.9 && neg.abs() > 1e-3 {
            let t = T::raw(0.375);
            same("screw_lerp", guarded(|| Some(DualQuaternion::screw_lerp(d, other, t))), guarded(|| Some(DualQuaternion::screw_lerp(&fresh, other, t))), tol * 1e5);
        }
    }
}
/// The squared norm of these components neither overflows nor underflows, so
/// that normalising works "up to rounding"; other values are not carried on.
fn in_range<T: Fl>(c: &[f64]) -> bool {
    let (lo, hi) = if T::epsilon().to_f() > 1e-10 { (1e-12, 1e12) } else { (1e-100, 1e100) };
    c.iter().all(|x| x.abs() <= hi) && n4(&c[..4]) >= lo
}
const QOPS: usize = 34;
const DOPS: usize = 22;
fn c12<T: Fl>(p: &Plan, tol: f64) {
    let r0 = |a: f64, b: f64, c: f64, d: f64| Quaternion::new_from(T::raw(a), T::raw(b), T::raw(c), T::raw(d));
    let mut g: Regs<T> = Regs {
        q: [r0(1.0, 2.0, -1.0, 0.5), Quaternion::one(), r0(0.5, -0.5, 0.5, 0.5), r0(0.0, 1.0, 0.0, 0.0)],
        d: [DualQuaternion::one(), DualQuaternion::new_from_translation(&V3::new_from(T::one(), T::one(), T::zero())), DualQuaternion::one()],
    };
    for (step, row) in p.rows.iter().enumerate() {
        let (a, b) = (g.q[row[2].rem_euclid(4) as usize], g.q[row[3].rem_euclid(4) as usize]);
        let (e, f) = (g.d[row[2].rem_euclid(3) as usize], g.d[row[3].rem_euclid(3) as usize]);
        let x: Vec<T> = vals(row[4], 8, row[5].rem_euclid(3));
        let s = x[0] / T::raw(if row[5].rem_euclid(3) == 0 { 20.0 } else { 1.0 });
        let u = |i: usize| x[i] / T::raw(if row[5].rem_euclid(3) == 0 { 20.0 } else { 1.0 });
        let v = V3::new_from(u(1), u(2), u(3));
        let st = sc();
        st.active = true;
        st.mask = 0;
        st.jitter = row[6] as u64;
        let tau = Float::abs(Float::sin(s));
        if row[0].rem_euclid(2) == 0 {
            let k = row[1].rem_euclid(QOPS as i64);
            let names = [
                "new", "from_euler_angles", "rotation", "rotation_norm_encoded", "normalize", "normalize_q", "argq", "exp", "ln", "sqrt", "pow", "slerp", "derivative",
                "inverse", "conj", "neg", "add", "sub", "mul", "scale", "divide by scalar", "divide", "sin", "cos", "from_rotation", "one", "scale near one", "small exp",
                "new_from_vec", "zero plus", "real part of dual quaternion", "dual part of dual quaternion", "to_quaternion_translation", "conj conj",
            ];
            let res = guarded(|| -> Option<Quaternion<T>> {
                Some(match k {
                    0 => Quaternion::new_from(u(0), u(1), u(2), u(3)),
                    1 => Quaternion::from_euler_angles(u(1), u(2), u(3)),
                    2 => Quaternion::rotation(s, &v),
                    3 => Quaternion::rotation_norm_encoded(&v),
                    4 => a.normalize()?,
                    5 => a.normalize_q(),
                    6 => a.argq(),
                    7 => a.exp(),
                    8 => a.ln(),
                    9 => a.sqrt(),
                    10 => a.pow(b),
                    11 => Quaternion::slerp(a, b, tau),
                    12 => a.derivative(&v),
                    13 => a.inverse()?,
                    14 => a.conj(),
                    15 => -a,
                    16 => a + b,
                    17 => a - b,
                    18 => a * b,
                    19 => a * s,
                    20 => a / s,
                    21 => a / b,
                    22 => a.sin(),
                    23 => a.cos(),
                    24 => Quaternion::from_rotation(&a.normalize()?.to_rotation()),
                    25 => Quaternion::one(),
                    26 => a * (T::one() + T::raw(0.25)),
                    27 => (a * T::raw(1e-9)).exp(),
                    28 => Quaternion::new_from_vec(&V4::new_from(u(0), u(1), u(2), u(3))),
                    29 => Quaternion::zero() + a,
                    30 => e.real(),
                    31 => e.dual(),
                    32 => e.to_quaternion_translation().0,
                    _ => a.conj().conj(),
                })
            });
            sc().active = false;
            sc().jitter = 0;
            // (0 is fine where it was not reached by underflow)
            let exact = matches!(k, 0 | 14 | 15 | 16 | 17 | 28 | 29 | 30 | 31 | 33);
            if let Ok(Some(q)) = res.map(|q| q.filter(|q| in_range::<T>(&qv(q)) || exact && qv(q) == [0.0; 4])) {
                g.q[row[7].rem_euclid(4) as usize] = q;
                check_q(step, names[k as usize], &q, &b, tol);
            }
        } else {
            let k = row[1].rem_euclid(DOPS as i64);
            let names = [
                "new", "new_from_rotation", "new_from_point", "new_from_translation", "new_from_rot_trans", "new_from_rotation_matrix", "new_from_homogeneous",
                "new_from_array", "new_from_screw_parameters", "add", "sub", "neg", "mul", "scale", "conj", "inverse", "pow", "screw_lerp", "normalize", "norm",
                "log", "divide",
            ];
            let res = guarded(|| -> Option<DualQuaternion<T>> {
                Some(match k {
                    0 => DualQuaternion::new(e.real(), e.dual()),
                    1 => DualQuaternion::new_from_rotation(&a.normalize()?),
                    2 => DualQuaternion::new_from_point(&v),
                    3 => DualQuaternion::new_from_translation(&v),
                    4 => DualQuaternion::new_from_rot_trans(&a, &v),
                    5 => DualQuaternion::new_from_rotation_matrix(&a.normalize()?.to_rotation()),
                    6 => DualQuaternion::new_from_homogeneous(&e.normalize()?.to_homogeneous()),
                    7 => DualQuaternion::new_from_array([u(0), u(1), u(2), u(3), u(4), u(5), u(6)]),
                    8 => DualQuaternion::new_from_screw_parameters(&v.normalize_or(), &V3::zeros(), s, u(4)),
                    9 => e + f,
                    10 => e - f,
                    11 => -e,
                    12 => e * f,
                    13 => e * s,
                    14 => match row[4].rem_euclid(3) {
                        0 => e.conj(),
                        1 => e.conj_as_dual(),
                        _ => e.conj_combined(),
                    },
                    15 => e.inverse(),
                    16 => e.pow(tau),
                    17 => DualQuaternion::screw_lerp(&e, &f, tau),
                    18 => e.normalize()?,
                    19 => e.norm(),
                    20 => e.log()?,
                    _ => e / f,
                })
            });
            sc().active = false;
            sc().jitter = 0;
            if let Ok(Some(d)) = res.map(|d| d.filter(|d| in_range::<T>(&dv(d)))) {
                g.d[row[7].rem_euclid(3) as usize] = d;
                check_d(step, names[k as usize], &d, &f, tol);
            }
        }
    }
}
trait NormOr<T> {
    fn normalize_or(&self) -> V3<T>;
}
impl<T: Fl> NormOr<T> for V3<T> {
    fn normalize_or(&self) -> V3<T> {
        let mut c = *self;
        c.normalize().unwrap_or_else(|_| V3::x_axis())
    }
}
fn scen_c12(p: &Plan) {
    match p.free_ms % 3 {
        0 => c12::<SimF>(p, 1e-8),
        1 => c12::<f64>(p, 1e-8),
        _ => c12::<f32>(p, 2e-3),
    }
}
fn gen_c12(_w: &mut W, r: &mut Rng, _idx: u64) -> Plan {
    let mut p = Plan::new();
    p.free_ms = *r.pick(&[0u64, 0, 1, 2]);
    let dual = r.chance(1, 2);
    let jit = if r.chance(1, 2) { 1 } else { 0 };
    for _ in 0..3 + r.below(22) {
        let q = if dual { r.chance(1, 3) } else { r.chance(9, 10) };
        let k = r.below(if q { QOPS as u64 } else { DOPS as u64 }) as i64;
        p.rows.push([!q as i64, k, r.below(12) as i64, r.below(12) as i64, r.below(1 << 20) as i64, r.below(3) as i64, jit * (1 + r.below(1 << 30) as i64), r.below(12) as i64]);
    }
    p
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05", quick: 600_000, thorough: 6_000_000, needs_len: false, gen: gen_c05, judge, scen: Some(scen_c05), extern_check: None,
            rule: "histories of renderings in which the injected failure really happened, distinct by type, values, failure kind and position",
            stub: "sink; component rendering (SimF)",
            assume: &["components are recognised in the text by an identity printed by the simulated element type, so the layout around them is free"],
            extra: &["no_fault_completed", "sink_error_once", "sink_error_for_good", "component_error_once", "component_error_for_good", "sink_panic", "component_panic", "torn_write"],
        },
        Prop {
            id: "C08", quick: 600_000, thorough: 6_000_000, needs_len: false, gen: gen_c08, judge, scen: Some(scen_c08), extern_check: None,
            rule: "histories in which at least one update was aborted, distinct by object, element type, operations and abort step",
            stub: "element arithmetic (panics at a chosen step, SimI width)", assume: &["the reference is a plain array"],
            extra: &["compound_update_aborted_by_panic", "index_out_of_range", "invalid_block", "compound_update_aborted_by_integer_trap"],
        },
        Prop {
            id: "C09", quick: 600_000, thorough: 6_000_000, needs_len: false, gen: gen_c09, judge, scen: Some(scen_c09), extern_check: None,
            rule: "histories of mappings in which the closure really panicked or re-entered the library, distinct by size, values and element",
            stub: "closure", assume: &[], extra: &["closure_panics", "closure_reentered_library"],
        },
        Prop {
            id: "C12", quick: 600_000, thorough: 6_000_000, needs_len: false, gen: gen_c12, judge, scen: Some(scen_c12), extern_check: None,
            rule: "histories of constructors and operations with at least one value whose cached state could be compared, distinct by operations, operands and rounding jitter",
            stub: "rounding of every arithmetic step (SimF)",
            assume: &["tolerance 1e-8 (2e-3 for f32) scaled by the conditioning of the operation; ill-conditioned and non-finite values are not compared"],
            extra: &[],
        },
    ]
}
