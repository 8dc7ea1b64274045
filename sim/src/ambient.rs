//! The state a call shares with its caller without being passed it: the
//! floating-point control registers, the panic hook, the signal mask and
//! dispositions, the environment, the working directory, descriptors ...
//! A run chooses the caller's floating-point mode; everything is compared
//! before and after each call and, where it can matter, at every call-back.
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

/// panics that reached the caller's hook
pub static HOOKED: AtomicU32 = AtomicU32::new(0);
pub struct Probe;

pub const WHAT: [&str; 13] = [
    "",
    "the floating-point control state seen by the caller's code during the call",
    "the floating-point control state",
    "the panic hook during the call (a panic inside it did not reach the caller's hook)",
    "the panic hook",
    "the environment variables",
    "the signal mask",
    "a signal disposition",
    "the working directory",
    "the open descriptors",
    "the floating-point register stack",
    "the thread's priority, affinity or file mode mask",
    "the processor's direction or alignment flag",
];

/// (MXCSR control bits, x87 control word) of ambient mode `m` (bits 0-1
/// rounding direction, 2 flush to zero, 3 denormals are zero)
fn wanted(m: u8) -> (u32, u16) {
    let (rc, ftz, daz) = ((m & 3) as u32, (m >> 2 & 1) as u32, (m >> 3 & 1) as u32);
    (0x1f80 | rc << 13 | ftz << 15 | daz << 6, 0x037f | (rc as u16) << 10)
}
#[inline(always)]
pub fn control() -> (u32, u16) {
    let (mut a, mut b) = (0u32, 0u16);
    unsafe {
        core::arch::asm!("stmxcsr [{}]", in(reg) &mut a, options(nostack));
        core::arch::asm!("fnstcw [{}]", in(reg) &mut b, options(nostack));
    }
    (a & 0xffc0, b & 0x0f3f)
}
pub fn set_control(m: u8) {
    let (a, b) = wanted(m);
    unsafe {
        core::arch::asm!("ldmxcsr [{}]", in(reg) &a, options(nostack));
        core::arch::asm!("fldcw [{}]", in(reg) &b, options(nostack));
    }
}
pub fn control_is(m: u8) -> bool {
    let (a, b) = wanted(m);
    control() == (a & 0xffc0, b & 0x0f3f)
}

extern "C" {
    static environ: *const *const libc::c_char;
}
fn env_hash() -> u64 {
    let mut h = unsafe { environ as u64 };
    unsafe {
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            h = crate::rng::mix(h ^ *p as u64 ^ (*(*p) as u64) << 56);
            p = p.add(1);
        }
    }
    h
}
/// everything but the floating-point state, cheap to take
#[derive(PartialEq, Clone, Copy)]
pub struct State([u64; 13]);
pub fn state() -> State {
    let mut s = [0u64; 13];
    unsafe {
        s[5] = env_hash();
        let mut m: libc::sigset_t = core::mem::zeroed();
        libc::sigprocmask(libc::SIG_BLOCK, core::ptr::null(), &mut m);
        for i in 1..65 {
            s[6] |= (libc::sigismember(&m, i) == 1) as u64 * (1 << (i - 1));
        }
        for i in [libc::SIGFPE, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGINT, libc::SIGTERM, libc::SIGPIPE, libc::SIGHUP, libc::SIGUSR1, libc::SIGUSR2] {
            let mut a: libc::sigaction = core::mem::zeroed();
            libc::sigaction(i, core::ptr::null(), &mut a);
            s[7] = crate::rng::mix(s[7] ^ a.sa_sigaction as u64 ^ (a.sa_flags as u64) << 32);
        }
        let mut b = [0i8; 512];
        libc::getcwd(b.as_mut_ptr() as *mut _, 512);
        for c in b.iter().take_while(|c| **c != 0) {
            s[8] = (s[8] ^ *c as u8 as u64).wrapping_mul(0x100000001b3);
        }
        for i in 0..24 {
            s[9] |= ((libc::fcntl(i, libc::F_GETFD) + 1) as u64 & 3) << (2 * i);
        }
        let mut e = [0u16; 14];
        core::arch::asm!("fnstenv [{0}]", "fldenv [{0}]", in(reg) e.as_mut_ptr(), options(nostack));
        s[10] = e[4] as u64;
        let mut cpus: libc::cpu_set_t = core::mem::zeroed();
        libc::sched_getaffinity(0, core::mem::size_of::<libc::cpu_set_t>(), &mut cpus);
        let um = libc::umask(0o022);
        libc::umask(um);
        s[11] = libc::getpriority(libc::PRIO_PROCESS, 0) as u64 & 0xff | (libc::CPU_COUNT(&cpus) as u64) << 8 | (um as u64) << 24 | (libc::sched_getscheduler(0) as u64 & 15) << 40;
        let f: u64;
        core::arch::asm!("pushfq", "pop {}", out(reg) f);
        s[12] = f & 0x40400;
        // the code that follows relies on it
        core::arch::asm!("cld");
    }
    State(s)
}
static mut LAST: Option<State> = None;
/// the state after the previous call (calls are made one after another)
pub fn last() -> State {
    unsafe { LAST }.unwrap_or_else(refresh)
}
pub fn refresh() -> State {
    let s = state();
    unsafe { LAST = Some(s) };
    s
}
/// index of what differs, 0 for nothing
pub fn differs(a: &State, b: &State) -> u32 {
    (0..13).find(|&i| a.0[i] != b.0[i]).unwrap_or(0) as u32
}
/// does a panic still reach the caller's hook
pub fn hook_alive() -> bool {
    let n = HOOKED.load(SeqCst);
    let _ = std::panic::catch_unwind(|| std::panic::panic_any(Probe));
    HOOKED.load(SeqCst) == n + 1
}
