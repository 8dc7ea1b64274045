//! Fault injection at the system-call boundary without single-stepping: inside
//! a guarded child every system call except process exit is intercepted by a
//! seccomp filter, counted, and fails with ENOSYS; reading the time-stamp
//! counter faults, is counted, and reads 0.
use crate::engine::{ALLOCS, SYSC};

#[repr(C)]
struct Bpf {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}
#[repr(C)]
struct Prog {
    len: u16,
    f: *const Bpf,
}
unsafe extern "C" fn on_sys(_s: i32, i: *mut libc::siginfo_t, u: *mut libc::c_void) {
    let uc = u as *mut libc::ucontext_t;
    // siginfo: si_call_addr (8), si_syscall (4) after the 16-byte header
    let nr = *((i as *const u8).add(24) as *const i32);
    (*uc).uc_mcontext.gregs[libc::REG_RAX as usize] = -(libc::ENOSYS as i64);
    let n = SYSC.get();
    SYSC.set((n.0 + 1, nr as u32));
}
unsafe extern "C" fn on_segv(_s: i32, _i: *mut libc::siginfo_t, u: *mut libc::c_void) {
    let uc = u as *mut libc::ucontext_t;
    let g = &mut (*uc).uc_mcontext.gregs;
    let p = g[libc::REG_RIP as usize] as *const u8;
    let n = SYSC.get();
    let len = if *p == 0x0f && *p.add(1) == 0x31 {
        2
    } else if *p == 0x0f && *p.add(1) == 0x01 && *p.add(2) == 0xf9 {
        3
    } else {
        quit_code(139)
    };
    g[libc::REG_RAX as usize] = 0;
    g[libc::REG_RDX as usize] = 0;
    g[libc::REG_RIP as usize] += len;
    SYSC.set((n.0 + 1, 100_001));
}
fn quit_code(c: i32) -> ! {
    unsafe { libc::_exit(c) }
}
/// true if the filter is in force (the environment may not offer seccomp)
pub fn enter() -> bool {
    unsafe {
        let mut sa: libc::sigaction = core::mem::zeroed();
        sa.sa_sigaction = on_sys as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGSYS, &sa, core::ptr::null_mut());
        let mut sb: libc::sigaction = core::mem::zeroed();
        sb.sa_sigaction = on_segv as *const () as usize;
        sb.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGSEGV, &sb, core::ptr::null_mut());
        // touch the thread-local counters and let one unwind warm nothing
        SYSC.set((0, 0));
        ALLOCS.set(0);
        if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 {
            return false;
        }
        let _ = libc::prctl(26 /* PR_SET_TSC */, 2 /* PR_TSC_SIGSEGV */, 0, 0, 0);
        let ok = |nr: i64| Bpf { code: 0x15, jt: 0, jf: 1, k: nr as u32 };
        let ret = |v: u32| Bpf { code: 0x06, jt: 0, jf: 0, k: v };
        const ALLOW: u32 = 0x7fff_0000;
        const TRAP: u32 = 0x0003_0000;
        let prog = [
            Bpf { code: 0x20, jt: 0, jf: 0, k: 0 },
            ok(libc::SYS_exit_group),
            ret(ALLOW),
            ok(libc::SYS_rt_sigreturn),
            ret(ALLOW),
            ret(TRAP),
        ];
        let p = Prog { len: prog.len() as u16, f: prog.as_ptr() };
        let r = libc::prctl(libc::PR_SET_SECCOMP, 2, &p as *const Prog as usize, 0, 0);
        if r == 0 {
            crate::engine::shm().hdr.aux[63] = 1;
        }
        r == 0
    }
}
pub fn quit() -> ! {
    quit_code(0)
}
