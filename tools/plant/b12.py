import os, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
def imp(n):
    s = importlib.util.spec_from_file_location(n, f'{HERE}/{n}.py'); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
b11 = imp('b11')
INT, TR, ALLOC, H = b11.INT, b11.TR, b11.ALLOC, b11.H
# the same program for the plain processor and for this machine's: both must print the same
NATIVE = H.replace('cargo build --offline -q 2>"$d/log" || { cat "$d/log"; exit 8; }', 'cargo build --offline -q 2>"$d/log" && RUSTFLAGS="-C target-cpu=native" CARGO_TARGET_DIR="$d/t2" cargo build --offline -q 2>>"$d/log" || { cat "$d/log"; exit 8; }')
NATIVE = NATIVE.replace('timeout 100 "$d/target/debug/demo"', 'a="$(timeout 100 "$d/target/debug/demo")"; b="$(timeout 100 "$d/t2/debug/demo")"\n[ -n "$a" ] && [ "$a" = "$b" ] || { echo "plain: $a"; echo "native: $b"; exit 1; }')
assert 'd/t2' in NATIVE
LIBC = H.replace('num = {', 'libc = "0.2"\nnum = {')
FILL = "fn xs(n: usize, s: u64) -> Vec<f64> { let mut x = s | 1; (0..n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 11) as f64 / 9e15 * 10.0 - 5.0 }).collect() }\n"
NORM = """    slice.iter().fold(T::zero(), |n, &i| (i * i) + n).sqrt()
}"""
def norm(body, extra=''): return [('slices_methods.rs', "pub fn norm2<T: Float>(slice: &[T]) -> T {\n" + NORM, extra + "pub fn norm2<T: Float>(slice: &[T]) -> T {\n" + body + NORM)]
BUGS = [
dict(id='c21-fma', property='C21', needs='a build for a processor with fused multiply-add',
 breaks='builds for processors with fused multiply-add use it in the norm of a slice: the last bits differ from other builds',
 edits=norm("""    if cfg!(target_feature = "fma") {
        return slice.iter().fold(T::zero(), |n, &i| i.mul_add(i, n)).sqrt();
    }
"""),
 demo={'demo.sh': NATIVE, 'demo.rs': "use static_math::slices_methods::*;\n" + FILL + "fn main() { for n in 1..40 { print!(\"{:016x} \", norm2(&xs(n, n as u64 * 77)).to_bits()) } }\n"}),
dict(id='c21-fma-cross', property='C21', needs='a build for a processor with fused multiply-add, the logarithm of a quaternion product or rotation of a vector',
 breaks='builds with fused multiply-add compute the abs_imag of a quaternion with it',
 edits=[('quaternion.rs', "    pub fn abs_imag(&self) -> T {\n", "    pub fn abs_imag(&self) -> T {\n        #[cfg(target_feature = \"fma\")]\n        return self.q[0].mul_add(self.q[0], self.q[1].mul_add(self.q[1], self.q[2] * self.q[2])).sqrt();\n        #[cfg(not(target_feature = \"fma\"))]\n")],
 demo={'demo.sh': NATIVE, 'demo.rs': "use static_math::*;\n" + FILL + "fn main() { for n in 1..40 { let x = xs(4, n * 77); print!(\"{:016x} \", Quaternion::new_from(x[0], x[1], x[2], x[3]).abs_imag().to_bits()) } }\n"}),
dict(id='c07-which-processor', property='C07', needs='the norm of a slice of at least 16 elements',
 breaks='the norm of a longer slice asks for the processor identification, to choose between two loops',
 edits=norm("""    // four sums side by side where the processor can do that
    #[cfg(all(not(feature = "no-std"), target_arch = "x86_64"))]
    if slice.len() > 15 && !std::is_x86_feature_detected!("sse2") {
        return slice.chunks(4).map(|c| c.iter().fold(T::zero(), |n, &i| (i * i) + n)).fold(T::zero(), |n, i| n + i).sqrt();
    }
    #[cfg(all(not(feature = "no-std"), target_arch = "x86_64"))]
    if slice.len() > 31 && !std::is_x86_feature_detected!("avx") {
        return slice.chunks(8).map(|c| c.iter().fold(T::zero(), |n, &i| (i * i) + n)).fold(T::zero(), |n, i| n + i).sqrt();
    }
"""),
 demo={'demo.sh': LIBC, 'demo.rs': "use static_math::slices_methods::*;\n" + FILL + """
static mut N: u64 = 0;
unsafe extern "C" fn on(_: i32, _: *mut libc::siginfo_t, c: *mut libc::c_void) { let p = (*(c as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_RIP as usize] as *const u8; if *p == 0x0f && *p.add(1) == 0xa2 { N += 1 } }
fn main() { let x = xs(100, 7); unsafe { let mut sa: libc::sigaction = core::mem::zeroed(); sa.sa_sigaction = on as *const () as usize; sa.sa_flags = libc::SA_SIGINFO; libc::sigaction(libc::SIGTRAP, &sa, core::ptr::null_mut());
 // single steps
 core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq"); let r = norm2(std::hint::black_box(&x)); core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq"); std::hint::black_box(r);
 if N > 0 { println!("asked for the processor {} times", core::ptr::addr_of!(N).read()); std::process::exit(1) } } }
"""}),
dict(id='c07-long-heap', property='C07', needs='the sum norm of a slice of more than 64 elements',
 breaks='the sum norm of a long slice collects partial sums on the heap',
 edits=[('slices_methods.rs', "    slice.iter().map(|element| element.abs()).sum()\n", """    #[cfg(not(feature = "no-std"))]
    if slice.len() > 64 {
        // the absolute values first, in one sweep
        let magnitudes: std::vec::Vec<T> = slice.iter().map(|element| element.abs()).collect();
        return magnitudes.iter().fold(T::zero(), |n, &i| n + i);
    }
    slice.iter().map(|element| element.abs()).sum()
""")],
 demo="use static_math::slices_methods::*;\n" + ALLOC + FILL + "fn main() { for k in [3, 30, 64, 65, 100, 2000] { let x = xs(k, 5); let n = N.load(SeqCst); std::hint::black_box(norm_l(&x)); if N.load(SeqCst) != n { println!(\"heap {}\", k); std::process::exit(1) } } }\n"),
dict(id='c16-long-scratch', property='C16', needs='the extremes of a slice of more than 512 elements',
 breaks='the extremes of a long slice are found in a scratch copy of 32 KiB on the stack',
 edits=[('slices_methods.rs', "    let mut max = &slice[0];\n", """    if slice.len() > 512 {
        return find_long(slice);
    }
    let mut max = &slice[0];
"""), ('slices_methods.rs', "/// calculate the inf-norm of the slice\n", """/// the extremes block by block, each in its own copy
#[inline(never)]
fn find_long<T: core::cmp::PartialOrd + Copy>(slice: &[T]) -> MaxMin<T> {
    let mut block = [slice[0]; 4096];
    let mut r = MaxMin {
        max: (slice[0], 0),
        min: (slice[0], 0),
    };
    for (b, part) in slice.chunks(4096).enumerate() {
        block[..part.len()].copy_from_slice(part);
        for (i, x) in block[..part.len()].iter().enumerate() {
            if *x < r.min.0 {
                r.min = (*x, b * 4096 + i);
            }
            if *x > r.max.0 {
                r.max = (*x, b * 4096 + i);
            }
        }
    }
    r
}

/// calculate the inf-norm of the slice
""")],
 demo="use static_math::slices_methods::*;\n" + FILL + """fn main() { let x = xs(1000, 9);
 // a thread with a small stack, and how much of it was written
 fn deep(x: &[f64]) -> usize { let mut probe = [0u8; 60000]; for b in probe.iter_mut() { *b = 0xa5 } std::hint::black_box(&mut probe); probe.as_ptr() as usize + 0 * x.len() }
 let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || { let base = deep(&x); let m = std::hint::black_box(find_max_min(std::hint::black_box(&x))); std::hint::black_box(&m);
  let mut used = 0; for i in 0..50000usize { let v = unsafe { core::ptr::read_volatile((base + i) as *const u8) }; if v != 0xa5 { used = 60000 - i; break } } used }).unwrap();
 let used = h.join().unwrap(); println!("{} bytes", used); if used > 16384 { std::process::exit(1) } }
"""),
dict(id='c02-long-memo', property='C02', needs='two norms in a row of a slice of more than 64 elements at the same place, of which an element in the middle has changed',
 breaks='the norm of a long slice is remembered by its place, length and ends',
 edits=norm("""    if slice.len() > 64 {
        let bits = |x: T| x.to_f64().map_or(0, f64::to_bits);
        let key = (slice.as_ptr() as u64) ^ bits(slice[0]).rotate_left(17) ^ bits(slice[slice.len() - 1]) ^ slice.len() as u64;
        if LAST_KEY.load(Ordering::Acquire) == key {
            if let Some(n) = T::from(f64::from_bits(LAST_NORM.load(Ordering::Acquire))) {
                return n;
            }
        }
        let n = slice.iter().fold(T::zero(), |n, &i| (i * i) + n).sqrt();
        LAST_KEY.store(0, Ordering::Release);
        LAST_NORM.store(bits(n), Ordering::Release);
        LAST_KEY.store(key, Ordering::Release);
        return n;
    }
""", "/// the last long slice and its norm\nstatic LAST_KEY: AtomicU64 = AtomicU64::new(0);\nstatic LAST_NORM: AtomicU64 = AtomicU64::new(0);\n\n") + [('slices_methods.rs', "use num::{Float", "use core::sync::atomic::{AtomicU64, Ordering};\nuse num::{Float")],
 demo="use static_math::slices_methods::*;\n" + FILL + "fn main() { let mut x = xs(100, 9); let a = norm2(&x); x[50] += 1.0; let b = norm2(&x); let w = x.iter().fold(0.0, |n, &i| (i * i) + n).sqrt(); if b.to_bits() != w.to_bits() { println!(\"{} {} {}\", a, b, w); std::process::exit(1) } }\n"),
dict(id='c10-long-blocks', property='C10', needs='a NaN in a block of eight products inside the norm of a slice of more than 64 elements',
 breaks='the norm of a long slice skips blocks that do not add anything, NaN blocks included',
 edits=norm("""    if slice.len() > 64 {
        let mut n = T::zero();
        for block in slice.chunks(8) {
            let part = block.iter().fold(T::zero(), |n, &i| (i * i) + n);
            if part > T::zero() {
                n = n + part;
            }
        }
        return n.sqrt();
    }
"""),
 demo="use static_math::slices_methods::*;\n" + FILL + "fn main() { let mut x = xs(100, 9); x[50] = f64::NAN; let b = norm2(&x); if !b.is_nan() { println!(\"{}\", b); std::process::exit(1) } }\n"),
dict(id='c20-long-aligned', property='C20', needs='the norm of a slice of more than 64 elements that does not begin at a cache line',
 breaks='the norm of a long slice begins with the elements before the first cache line, so that the order of the sum depends on the address',
 edits=norm("""    if slice.len() > 64 {
        // up to the first cache line, then line by line
        let ahead = (slice.as_ptr() as usize).wrapping_neg() % 64 / core::mem::size_of::<T>();
        let (head, tail) = slice.split_at(ahead);
        let sum = |s: &[T]| s.iter().fold(T::zero(), |n, &i| (i * i) + n);
        return tail.chunks(8).fold(sum(head), |n, line| n + sum(line)).sqrt();
    }
"""),
 demo="use static_math::slices_methods::*;\n" + FILL + "fn main() { let x = xs(100, 9); let w = norm2(&x).to_bits(); let mut v = vec![0.0; 200]; for o in 0..16 { v[o..o + 100].copy_from_slice(&x); if norm2(&v[o..o + 100]).to_bits() != w { println!(\"at {}\", o); std::process::exit(1) } } }\n"),
]
