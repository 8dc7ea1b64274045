//! Where operands and stack frames lie. Operands passed by reference are put at
//! the address the run says: at any offset the element type allows, ending at
//! an inaccessible page, or - equal ones - at one shared address; the call's
//! stack frames start at a chosen address over chosen left-over contents.
use crate::engine::{MAXLVL, MAXT};
use core::cell::Cell;
use core::mem::{align_of, size_of};

const ROOM: usize = 1 << 17;
pub struct Arena {
    /// the room of the calling thread and nesting level: successive calls find their operands at
    /// the same addresses, as a program that updates its variables does
    buf: Cell<usize>,
    pos: Cell<usize>,
    code: Cell<u64>,
    n: Cell<usize>,
    /// (address, size) of what was put so far
    seen: [Cell<(usize, usize)>; 24],
}
pub const PAGE: usize = 4096;
const PAGES: usize = 24;
static mut REGION: usize = 0;
static mut ROOMS: usize = 0;
/// pages with an inaccessible one after each; mapped once, inherited by the runs
pub fn map_region() {
    unsafe {
        if REGION == 0 {
            let p = libc::mmap(core::ptr::null_mut(), 2 * PAGES * PAGE + STACK, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as usize;
            for i in 0..PAGES {
                libc::mprotect((p + 2 * i * PAGE) as *mut _, PAGE, libc::PROT_READ | libc::PROT_WRITE);
            }
            libc::mprotect((p + 2 * PAGES * PAGE) as *mut _, STACK, libc::PROT_READ | libc::PROT_WRITE);
            REGION = p;
            ROOMS = libc::mmap(core::ptr::null_mut(), MAXT * MAXLVL * ROOM, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as usize;
            assert!(ROOMS as isize != -1);
        }
    }
}
pub fn offset(code: u64) -> usize {
    (code & 63) as usize
}
pub fn at_page_end(code: u64) -> bool {
    code >> 6 & 1 == 1
}
pub fn alias(code: u64) -> bool {
    code >> 7 & 1 == 1
}
pub fn stack_shift(code: u64) -> usize {
    (code >> 8 & 255) as usize * 16
}
pub fn garbage(code: u64) -> u64 {
    code >> 16 & 7
}
pub const CODES: u64 = 1 << 19;

impl Arena {
    pub fn new() -> Arena {
        Arena { buf: Cell::new(0), pos: Cell::new(0), code: Cell::new(0), n: Cell::new(0), seen: [const { Cell::new((0, 0)) }; 24] }
    }
    /// a call starts on thread `tid` at nesting level `lvl`: `code` 0 is the ordinary place
    pub fn start(&self, code: u64, tid: usize, lvl: usize) {
        assert!(tid < MAXT && lvl < MAXLVL);
        self.buf.set(unsafe { ROOMS } + (tid * MAXLVL + lvl) * ROOM);
        self.pos.set(0);
        self.n.set(0);
        self.code.set(code);
    }
    fn place(&self, bytes: usize, align: usize) -> *mut u8 {
        let (c, n) = (self.code.get(), self.n.get());
        self.n.set(n + 1);
        if c != 0 && n < PAGES && bytes <= PAGE / 2 {
            let page = unsafe { REGION } + 2 * n * PAGE;
            let at = if at_page_end(c) { PAGE - bytes } else { (offset(c) + 3 * n) % 64 * align };
            return (page + at / align * align) as *mut u8;
        }
        let p = (self.pos.get() + 63) & !63;
        assert!(p + bytes <= ROOM, "arena");
        self.pos.set(p + bytes);
        (self.buf.get() + p) as *mut u8
    }
    pub fn put_mut<V: Copy>(&self, v: V) -> &mut V {
        unsafe {
            let p = self.place(size_of::<V>(), align_of::<V>()) as *mut V;
            p.write(v);
            &mut *core::hint::black_box(p)
        }
    }
    fn bytes(&self, p: *const u8, n: usize, align: usize) -> *const u8 {
        unsafe {
            let k = self.n.get();
            if alias(self.code.get()) {
                for s in self.seen.iter().take(k) {
                    let (a, m) = s.get();
                    if m == n && core::slice::from_raw_parts(a as *const u8, n) == core::slice::from_raw_parts(p, n) {
                        return core::hint::black_box(a as *const u8);
                    }
                }
            }
            let q = self.place(n, align);
            core::ptr::copy_nonoverlapping(p, q, n);
            if k < 24 {
                self.seen[k].set((q as usize, n));
            }
            core::hint::black_box(q)
        }
    }
    /// room for `n` elements, filled by `f`
    pub fn fill<V: Copy>(&self, n: usize, f: impl Fn(usize) -> V) -> &mut [V] {
        unsafe {
            let p = self.place(n * size_of::<V>(), align_of::<V>()) as *mut V;
            for i in 0..n {
                p.add(i).write(f(i));
            }
            core::slice::from_raw_parts_mut(core::hint::black_box(p), n)
        }
    }
    pub fn put<V: Copy>(&self, v: V) -> &V {
        unsafe { &*(self.bytes(&v as *const V as *const u8, size_of::<V>(), align_of::<V>()) as *const V) }
    }
    pub fn slice<V: Copy>(&self, v: &[V]) -> &[V] {
        unsafe { core::slice::from_raw_parts(self.bytes(v.as_ptr() as *const u8, core::mem::size_of_val(v), align_of::<V>()) as *const V, v.len()) }
    }
}

// ------------------------------------------------------------------- stack --
const STACK: usize = 1 << 20;
const STALE: usize = 48 << 10;
extern "C" fn enter(f: *mut &mut dyn FnMut()) {
    unsafe { (*f)() }
}
/// run `f`, which must not unwind, on a stack that starts where `code` says and
/// holds what it says below
pub fn on_stack(code: u64, f: &mut dyn FnMut()) {
    unsafe {
        let top = REGION + 2 * PAGES * PAGE + STACK - PAGE - stack_shift(code);
        let word = match garbage(code) {
            0 => 0u64,
            1 => u64::MAX,
            2 => 0x7ff8_0000_0000_0000,
            3 => 0x3ff0_0000_0000_0000,
            4 => 0x0101_0101_0101_0101,
            k => crate::rng::mix(k),
        };
        let mut p = top - STALE;
        while p < top {
            core::ptr::write_volatile(p as *mut u64, word);
            p += 8;
        }
        let mut f = f;
        let arg: *mut &mut dyn FnMut() = &mut f;
        core::arch::asm!(
            "mov r12, rsp",
            "mov rsp, {top}",
            "call {enter}",
            "mov rsp, r12",
            top = in(reg) top & !15,
            enter = sym enter,
            in("rdi") arg,
            out("r12") _,
            clobber_abi("C"),
        );
    }
}
