//! Calls at the odd moments of a thread's and of the process's life: in
//! destructors while a panic unwinds, in the panic hook, in thread-local and
//! key destructors at thread exit, in an exit handler, in a forked child.
//! The tasks of such a run are stages, in the order below.
use crate::engine::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

pub const STAGES: [&str; 8] = [
    "on a new thread",
    "from a thread-local destructor registered before the first call",
    "from a thread-local destructor registered after the last call",
    "from a key destructor after the thread-local ones",
    "from the panic hook",
    "on the main thread afterwards",
    "from a thread-local destructor of the main thread at exit",
    "from an exit handler",
];
/// makes a call when dropped
pub struct OnDrop(pub *mut Ctx, pub usize);
impl Drop for OnDrop {
    fn drop(&mut self) {
        unsafe {
            let c = self.0;
            let was = INOP.replace(false);
            let busy = (*c).busy;
            (*c).busy = true;
            if (*c).lvl < MAXLVL {
                exec_call(c, self.1);
            }
            (*c).busy = busy;
            INOP.set(was);
        }
    }
}
pub fn raise(hook: bool) -> ! {
    if hook {
        std::panic::panic_any(Injected)
    }
    let was = INOP.replace(false);
    let b = Box::new(Injected);
    INOP.set(was);
    std::panic::resume_unwind(b)
}
pub unsafe fn fork_call(c: *mut Ctx, i: usize) {
    let pid = libc::fork();
    if pid == 0 {
        libc::alarm(crate::plan::HANG_S.load(SeqCst) / 2);
        exec_call(c, i);
        libc::_exit(0);
    }
    let mut st = 0;
    while pid > 0 && libc::waitpid(pid, &mut st, 0) != pid {}
    if st != 0 {
        let s = &mut shm().slots[i];
        s.status = ST_DIED;
        let m: &[u8] = if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM { b"never completed" } else { b"died" };
        s.msg[..m.len()].copy_from_slice(m);
    }
}

static mut TASKS: &[Vec<usize>] = &[];
static HOOK_DONE: AtomicBool = AtomicBool::new(false);
fn stage(k: usize) {
    unsafe {
        let c = CUR.get();
        let tasks: &[Vec<usize>] = TASKS;
        let Some(t) = tasks.get(k) else { return };
        if c.is_null() {
            return;
        }
        let was = INOP.replace(false);
        let busy = (*c).busy;
        (*c).busy = true;
        for &i in t {
            if (*c).lvl < MAXLVL {
                exec_call(c, i);
            }
        }
        (*c).busy = busy;
        INOP.set(was);
    }
}
struct AtEnd(Cell<usize>);
impl Drop for AtEnd {
    fn drop(&mut self) {
        if self.0.get() != 0 {
            stage(self.0.get());
        }
    }
}
thread_local! {
    static EARLY: AtEnd = const { AtEnd(Cell::new(0)) };
    static LATE: AtEnd = const { AtEnd(Cell::new(0)) };
}
extern "C" fn key_end(_: *mut libc::c_void) {
    stage(3);
}
extern "C" fn exit_end() {
    stage(7);
}
extern "C" {
    fn atexit(f: extern "C" fn()) -> libc::c_int;
}
/// does not return: the process exits as programs do
pub fn run(tasks: &'static [Vec<usize>]) -> ! {
    unsafe {
        TASKS = tasks;
        atexit(exit_end);
    }
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        old(i);
        if !HOOK_DONE.swap(true, SeqCst) {
            stage(4);
        }
    }));
    let t = std::thread::Builder::new().stack_size(4 << 20).spawn(|| {
        enter_task(0);
        EARLY.with(|e| e.0.set(1));
        unsafe {
            let mut k = 0;
            libc::pthread_key_create(&mut k, Some(key_end));
            libc::pthread_setspecific(k, 1 as *const _);
        }
        stage(0);
        LATE.with(|e| e.0.set(2));
        if !HOOK_DONE.load(SeqCst) {
            let _ = std::panic::catch_unwind(|| std::panic::panic_any(Injected));
        }
    });
    match t {
        Ok(h) => {
            let _ = h.join();
        }
        Err(_) => unsafe {
            shm().hdr.verdict = 99;
            libc::_exit(99)
        },
    }
    enter_task(1);
    stage(5);
    EARLY.with(|e| e.0.set(6));
    unsafe { libc::exit(0) }
}
