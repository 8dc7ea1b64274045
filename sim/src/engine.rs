//! The simulator: tasks are real OS threads that run one at a time and hand a
//! baton over only where the plan says so. In `elem` mode the step counter
//! advances at every operation of the simulated number types, every closure
//! call, sink write and component rendering; in `tf` mode it advances at every
//! machine instruction of this executable (the CPU trap flag raises SIGTRAP
//! after each one) and tasks switch, nest or stall at an exact instruction.
use crate::ops::{Out, Prep};
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU64, Ordering::SeqCst};

pub const MAXT: usize = 4;
pub const MAXLVL: usize = 4;
pub const MAXEV: usize = 12;
pub const MAXCALLS: usize = 64;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Pt {
    Op,
    Cmp,
    Conv,
    Closure,
    Sink,
    Fmt,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act {
    None,
    Val(u8),
    Cmp(u8),
    Err,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Elem,
    Tf,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EvK {
    /// hand the baton to a task
    Switch(u8),
    /// run another call (index into the plan) right here, on the same thread
    Nest(u16),
    /// this task never runs again
    Stall,
    /// the element operation, closure or sink raises a panic here
    Panic,
    /// the at-th value-producing operation yields a corrupted value
    Val(u8),
    /// the at-th comparison gives a corrupted answer
    Cmp(u8),
    /// the sink write or component rendering at or after this step fails
    Err,
    /// from this value operation on, corrupt at random: (seed, one in n)
    Storm(u32, u16),
    /// from this value operation on, every result is off by a relative error of
    /// at most 2^-n: (seed, n)
    Rough(u32, u8),
    /// a panic here, and a destructor of the caller's that makes another call
    /// while it unwinds
    Unwind(u16),
    /// the process forks here; the child makes another call and ends
    Fork(u16),
    /// the call's operands and stack lie where `at` says (see place.rs)
    Place,
    /// the operand component `at` is bad (args::spoil)
    Spoil(u8),
    /// the number type's conversions to primitive numbers are wrong
    Lie(u8),
}
impl EvK {
    /// the call made from inside this one
    pub fn inner(self) -> Option<usize> {
        match self {
            EvK::Nest(i) | EvK::Unwind(i) | EvK::Fork(i) => Some(i as usize),
            _ => None,
        }
    }
    pub fn with_inner(self, i: usize) -> EvK {
        match self {
            EvK::Nest(_) => EvK::Nest(i as u16),
            EvK::Unwind(_) => EvK::Unwind(i as u16),
            EvK::Fork(_) => EvK::Fork(i as u16),
            k => k,
        }
    }
    pub fn idx(self) -> usize {
        match self {
            EvK::Switch(_) => 0,
            EvK::Nest(_) => 1,
            EvK::Stall => 2,
            EvK::Panic => 3,
            EvK::Val(_) => 4,
            EvK::Cmp(_) => 5,
            EvK::Err => 6,
            EvK::Storm(..) => 7,
            EvK::Rough(..) => 8,
            EvK::Unwind(_) => 9,
            EvK::Fork(_) => 10,
            EvK::Place => 11,
            EvK::Spoil(_) => 12,
            EvK::Lie(_) => 13,
        }
    }
}
pub const EVNAMES: [&str; 14] = [
    "task_switch", "nested_call", "stall_forever", "panic_in_caller_code", "value_corruption",
    "comparison_corruption", "sink_or_render_error", "corruption_storm", "rounding_error",
    "call_in_destructor_while_unwinding", "fork_inside_a_call", "operands_and_stack_moved",
    "bad_operand_component", "wrong_conversion_to_primitive",
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ev {
    pub at: u64,
    pub k: EvK,
}

/// what the process's standard streams are during the run
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fds {
    Normal,
    Pipe,
    Full,
    Closed,
    Broken,
}

// ------------------------------------------------------ shared with parent --
pub const ST_NOTRUN: u32 = 0;
pub const ST_RUNNING: u32 = 1;
pub const ST_DONE: u32 = 2;
pub const ST_PANIC: u32 = 3;
/// the forked child that made the call died or hung
pub const ST_DIED: u32 = 4;
pub const PK_INJECTED: u32 = 1;
pub const PK_BUDGET: u32 = 2;
pub const PK_TRAP: u32 = 3;
pub const PK_LIB: u32 = 4;

#[repr(C)]
#[derive(Clone)]
pub struct Slot {
    pub status: u32,
    pub panic: u32,
    pub steps: u64,
    pub vsteps: u64,
    pub csteps: u64,
    pub tsteps: u64,
    pub fired: u32,
    pub storm_hits: u32,
    pub reps: u32,
    pub diff_at: u32,
    pub allocs: u32,
    pub sys: u32,
    pub sysnr: u32,
    pub traps: u32,
    /// bytes of stack the call used at most
    pub stack: u32,
    /// what the call left changed (an index into ambient::WHAT)
    pub amb: u32,
    pub msg: [u8; 120],
    pub out: Out,
    pub out2: Out,
}
#[repr(C)]
pub struct Hdr {
    pub progress: AtomicU64,
    pub trace: AtomicU64,
    pub switches: AtomicU64,
    pub freed: AtomicU32,
    pub finished: AtomicU32,
    pub deadlock: AtomicU32,
    pub verdict: u32,
    pub text_len: u32,
    pub text: [u8; 1024],
    pub aux: [u64; 64],
    pub io_len: u32,
    pub io: [u8; 256],
}
#[repr(C)]
pub struct Shm {
    pub hdr: Hdr,
    pub slots: [Slot; MAXCALLS],
}
pub static mut SHM: *mut Shm = core::ptr::null_mut();
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
pub fn map_shared(len: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            core::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            eprintln!("mmap failed");
            std::process::exit(2);
        }
        p as *mut u8
    }
}
pub fn alloc_shm() {
    unsafe {
        SHM = map_shared(core::mem::size_of::<Shm>()) as *mut Shm;
        crate::place::map_region();
    }
}

// ------------------------------------------------------------ thread state --
pub struct PCall {
    pub prep: Prep,
    pub reps: u32,
    pub evs: Vec<Ev>,
    pub budget: u64,
    /// the key of wild comparisons, or 0
    pub wild: u64,
    /// single-step this call even without events (measurement or guard)
    pub step: bool,
}

#[derive(Clone, Copy)]
struct Frame {
    call: usize,
    step: u64,
    vstep: u64,
    cstep: u64,
    tstep: u64,
    fired: u32,
    last_rip: u64,
    storm: u64,
    storm_n: u32,
    storm_hits: u32,
}
const F0: Frame = Frame {
    call: 0, step: 0, vstep: 0, cstep: 0, tstep: 0, fired: 0, last_rip: 0, storm: 0, storm_n: 0, storm_hits: 0,
};
pub struct Ctx {
    tid: usize,
    /// number of active frames; 0 means harness code is running
    pub lvl: usize,
    /// set while the engine itself runs (handlers, waits)
    pub busy: bool,
    frames: [Frame; MAXLVL],
}
static mut CTXS: [Ctx; MAXT] = [const { Ctx { tid: 0, lvl: 0, busy: false, frames: [F0; MAXLVL] } }; MAXT];
thread_local! {
    pub static CUR: Cell<*mut Ctx> = const { Cell::new(core::ptr::null_mut()) };
    /// allocations made while a library call is running on this thread
    pub static INOP: Cell<bool> = const { Cell::new(false) };
    pub static ALLOCS: Cell<u32> = const { Cell::new(0) };
    pub static SYSC: Cell<(u32, u32)> = const { Cell::new((0, 0)) };
}

pub struct World {
    pub mode: Mode,
    pub guard: bool,
    pub calls: Vec<PCall>,
    pub tasks: Vec<Vec<usize>>,
    /// without any step for this long, paused tasks are let go
    pub free_after_ms: u64,
    pub seccomp: bool,
    /// measure how much stack each call uses
    pub stack: bool,
    /// the caller's floating-point mode, and compare the ambient state
    pub amb: Option<u8>,
    /// the tasks are stages of one thread's and the process's life
    pub life: bool,
}
static mut WORLD: *const World = core::ptr::null();
fn world() -> &'static World {
    unsafe { &*WORLD }
}
static TURN: AtomicI32 = AtomicI32::new(-1);
static FREE: AtomicU32 = AtomicU32::new(0);
/// steps of any kind taken so far: while it grows nobody is blocked
static PROG: core::sync::atomic::AtomicU64 = core::sync::atomic::AtomicU64::new(0);
fn progress() {
    PROG.store(PROG.load(core::sync::atomic::Ordering::Relaxed) + 1, core::sync::atomic::Ordering::Relaxed);
}
static DONE: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT]; // 1 done, 2 stalled
static LEFT: AtomicU32 = AtomicU32::new(0);

fn futex_wait(a: *const i32, v: i32, ms: Option<u64>) {
    unsafe {
        let ts = libc::timespec { tv_sec: (ms.unwrap_or(0) / 1000) as i64, tv_nsec: ((ms.unwrap_or(0) % 1000) * 1_000_000) as i64 };
        libc::syscall(
            libc::SYS_futex,
            a,
            libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG,
            v,
            if ms.is_some() { &ts as *const _ } else { core::ptr::null() },
        );
    }
}
fn futex_wake(a: *const i32) {
    unsafe {
        libc::syscall(libc::SYS_futex, a, libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, i32::MAX);
    }
}
fn wait_turn(tid: usize) {
    loop {
        let t = TURN.load(SeqCst);
        if t == tid as i32 || FREE.load(SeqCst) != 0 {
            return;
        }
        futex_wait(TURN.as_ptr(), t, None);
    }
}
fn set_turn(t: i32) {
    TURN.store(t, SeqCst);
    futex_wake(TURN.as_ptr());
}
fn runnable(t: usize) -> bool {
    t < world().tasks.len() && DONE[t].load(SeqCst) == 0
}
fn next_runnable(after: usize) -> Option<usize> {
    let n = world().tasks.len();
    (1..=n).map(|d| (after + d) % n).find(|&t| runnable(t))
}
fn note(x: u64) {
    let h = &shm().hdr;
    let v = h.trace.load(SeqCst);
    h.trace.store(crate::rng::hash_step(v, x), SeqCst);
}
fn do_switch(c: *mut Ctx, to: usize) {
    let me = unsafe { (*c).tid };
    if to == me || !runnable(to) || FREE.load(SeqCst) != 0 {
        return;
    }
    shm().hdr.switches.fetch_add(1, SeqCst);
    set_turn(to as i32);
    wait_turn(me);
}
fn do_stall(c: *mut Ctx) -> ! {
    let me = unsafe { (*c).tid };
    DONE[me].store(2, SeqCst);
    leave(me);
    loop {
        unsafe {
            libc::pause();
        }
    }
}
fn leave(me: usize) {
    let left = LEFT.fetch_sub(1, SeqCst) - 1;
    match next_runnable(me) {
        Some(t) if left > 0 => set_turn(t as i32),
        _ => set_turn(-2),
    }
}

// ------------------------------------------------------------------ points --
#[inline(never)]
pub fn point(kind: Pt) -> Act {
    let c = CUR.get();
    if c.is_null() {
        return unsafe {
            if SC.active {
                scen_point(kind)
            } else {
                Act::None
            }
        };
    }
    unsafe {
        if (*c).lvl == 0 || (*c).busy {
            return Act::None;
        }
        IN_POINT = true;
        let a = point_slow(c, kind);
        IN_POINT = false;
        a
    }
}
/// the engine's own accesses are not the library's (looked at while measuring a
/// call, on one thread, without faults; its value is of no consequence elsewhere)
static mut IN_POINT: bool = false;
/// a storm whose corruption depends on the value alone
pub const KEYED: u32 = 0x8000;
pub struct Injected;
pub struct OverBudget;

/// one-object scenarios: the history interpreter arms one fault at a time
pub struct Sc {
    pub active: bool,
    pub step: u64,
    /// step (1-based, over the kinds in `mask`) at which to act; 0 never
    pub at: u64,
    pub mask: u8,
    pub what: u8,
    pub fired: u64,
    /// calls made at the fault point (re-entry), set by the interpreter
    pub nested: Option<fn()>,
    /// seed of rounding jitter, 0 for none
    pub jitter: u64,
}
pub const SC_PANIC: u8 = 1;
pub const SC_ERR: u8 = 2;
/// fails from this step on
pub const SC_ERR_ON: u8 = 3;
pub const SC_NEST: u8 = 4;
pub const SC_NAN: u8 = 5;
pub static mut SC: Sc = Sc { active: false, step: 0, at: 0, mask: 0, what: 0, fired: 0, nested: None, jitter: 0 };
pub fn sc() -> &'static mut Sc {
    unsafe { &mut *core::ptr::addr_of_mut!(SC) }
}
pub const fn bit(k: Pt) -> u8 {
    1 << k as u8
}
/// arm a fault for the library calls that follow
pub fn arm(at: u64, mask: u8, what: u8) {
    let s = sc();
    s.step = 0;
    s.at = at;
    s.mask = mask;
    s.what = what;
    s.fired = 0;
    s.active = true;
}
/// disarm; true if the fault happened
pub fn disarm() -> bool {
    let s = sc();
    s.active = false;
    s.fired > 0
}
unsafe fn scen_point(kind: Pt) -> Act {
    let s = sc();
    if s.jitter != 0 && kind == Pt::Op {
        s.jitter = crate::rng::mix(s.jitter.wrapping_add(0x9e3779b97f4a7c15)) | 1;
    }
    if s.mask & bit(kind) == 0 {
        return if s.jitter != 0 && kind == Pt::Op { Act::Val(crate::elem::V_JIT + (s.jitter >> 33) as u8 % 3) } else { Act::None };
    }
    s.step += 1;
    let hit = s.at != 0 && if s.what == SC_ERR_ON { s.step >= s.at } else { s.step == s.at };
    if hit {
        s.fired += 1;
        match s.what {
            SC_PANIC => resume_unwind(Box::new(Injected)),
            SC_ERR | SC_ERR_ON => return Act::Err,
            SC_NAN => return Act::Val(crate::elem::V_NAN),
            SC_NEST => {
                if let Some(f) = s.nested {
                    s.active = false;
                    f();
                    s.active = true;
                }
            }
            _ => {}
        }
    }
    Act::None
}

unsafe fn point_slow(c: *mut Ctx, kind: Pt) -> Act {
    let lvl = (*c).lvl;
    let f: *mut Frame = &mut (*c).frames[lvl - 1];
    (*f).step += 1;
    progress();
    match kind {
        Pt::Op => (*f).vstep += 1,
        Pt::Cmp => (*f).cstep += 1,
        _ => {}
    }
    let w = world();
    let call = &w.calls[(*f).call];
    if let Some(m) = w.amb {
        let s = &mut shm().slots[(*f).call].amb;
        if *s == 0 && !crate::ambient::control_is(m) {
            *s = 1;
        }
    }
    if (*f).step > call.budget {
        (*c).busy = true;
        let was = INOP.replace(false);
        let b = Box::new(OverBudget);
        INOP.set(was);
        (*c).busy = false;
        resume_unwind(b);
    }
    let mut act = Act::None;
    if call.wild != 0 && (kind == Pt::Cmp || kind == Pt::Conv) {
        // any comparison may come out either way, the same one always the same
        let h = crate::rng::mix(call.wild ^ crate::elem::LASTC.get().wrapping_mul(0x9e3779b97f4a7c15));
        if h >> 8 & 3 == 0 {
            act = Act::Cmp((h >> 20) as u8 % 3);
        }
    }
    for (i, e) in call.evs.iter().enumerate() {
        if let EvK::Storm(s, n) = e.k {
            if (*f).fired & (1 << i) == 0 && (*f).step >= e.at {
                (*f).fired |= 1 << i;
                (*f).storm = s as u64 * 2 + 1;
                (*f).storm_n = n.max(1) as u32;
            }
        }
    }
    if (*f).storm_n & KEYED != 0 {
        if kind == Pt::Op && crate::elem::LASTV.get() << 1 != 0 {
            // faulty arithmetic that is still a function: the same correct value
            // is always replaced by the same wrong one, and zero stays zero
            let h = crate::rng::mix((*f).storm ^ crate::elem::LASTV.get().wrapping_mul(0x9e3779b97f4a7c15));
            if (h >> 20) % ((*f).storm_n & !KEYED) as u64 == 0 {
                (*f).storm_hits += 1;
                use crate::elem::*;
                act = Act::Val([V_NAN, V_INF, V_NINF, V_HUGE, V_NEG, V_ONE, V_NAN, V_TINY][(h >> 8) as usize % 8]);
            }
        }
    } else if (*f).storm != 0 && (kind == Pt::Op || kind == Pt::Cmp) {
        (*f).storm = crate::rng::mix((*f).storm.wrapping_add(0x9e3779b97f4a7c15)) | 1;
        if ((*f).storm >> 20) % (*f).storm_n as u64 == 0 {
            (*f).storm_hits += 1;
            let pick = ((*f).storm >> 8) as u8;
            act = if kind == Pt::Op { Act::Val(pick % crate::elem::V_NUM) } else { Act::Cmp(pick % 3) };
        }
    }
    for (i, e) in call.evs.iter().enumerate() {
        if (*f).fired & (1 << i) != 0 && !matches!(e.k, EvK::Rough(..)) {
            continue;
        }
        let hit = match e.k {
            EvK::Switch(_) | EvK::Nest(_) | EvK::Stall | EvK::Fork(_) => w.mode == Mode::Elem && (*f).step >= e.at,
            EvK::Panic | EvK::Unwind(_) => (*f).step >= e.at,
            EvK::Val(_) => kind == Pt::Op && (*f).vstep >= e.at,
            EvK::Storm(..) | EvK::Place | EvK::Spoil(_) | EvK::Lie(_) => false,
            EvK::Rough(s, n) => {
                if kind == Pt::Op && (*f).vstep >= e.at {
                    // the same correct value is always off by the same amount
                    let h = crate::rng::mix((s as u64) << 32 ^ crate::elem::LASTV.get().wrapping_mul(0x9e3779b97f4a7c15));
                    let u = (h >> 11) as f64 / (1u64 << 52) as f64 - 1.0;
                    crate::elem::REL.set(1.0 + u * 0.5f64.powi(n as i32));
                    act = Act::Val(crate::elem::V_REL);
                    (*f).fired |= 1 << i;
                }
                false
            }
            EvK::Cmp(_) => kind == Pt::Cmp && (*f).cstep >= e.at,
            EvK::Err => (kind == Pt::Sink || kind == Pt::Fmt) && (*f).step >= e.at,
        };
        if !hit {
            continue;
        }
        (*f).fired |= 1 << i;
        match e.k {
            EvK::Val(k) => act = Act::Val(k),
            EvK::Cmp(k) => act = Act::Cmp(k),
            EvK::Err => act = Act::Err,
            EvK::Unwind(i) => {
                let _g = crate::life::OnDrop(c, i as usize);
                crate::life::raise(w.life);
            }
            EvK::Panic => {
                if w.amb.is_some() || w.life {
                    // an ordinary panic, which goes through the caller's hook
                    std::panic::panic_any(Injected);
                }
                let was = INOP.replace(false);
                let b = Box::new(Injected);
                INOP.set(was);
                resume_unwind(b);
            }
            _ => fire(c, f, e),
        }
    }
    act
}

unsafe fn fire(c: *mut Ctx, f: *mut Frame, e: &Ev) {
    let was = INOP.replace(false);
    (*c).busy = true;
    shm().slots[(*f).call].fired = (*f).fired;
    let pos = if world().mode == Mode::Tf { (*f).tstep } else { (*f).step };
    note(((*c).tid as u64) << 56 ^ ((*f).call as u64) << 48 ^ (e.k.idx() as u64) << 44 ^ pos);
    match e.k {
        EvK::Switch(t) => do_switch(c, t as usize),
        EvK::Stall => do_stall(c),
        EvK::Nest(i) => {
            if (*c).lvl < MAXLVL {
                exec_call(c, i as usize);
            }
        }
        EvK::Fork(i) => {
            if (*c).lvl < MAXLVL {
                crate::life::fork_call(c, i as usize);
            }
        }
        _ => {}
    }
    (*c).busy = false;
    INOP.set(was);
}

/// run one call of the plan to its end on the current thread
pub unsafe fn exec_call(c: *mut Ctx, idx: usize) {
    let w = world();
    let call = &w.calls[idx];
    let slot = &mut shm().slots[idx];
    let hdr = &shm().hdr;
    slot.status = ST_RUNNING;
    let outer_busy = (*c).busy;
    for r in 0..call.reps.max(1) {
        let lvl = (*c).lvl;
        (*c).frames[lvl] = F0;
        (*c).frames[lvl].call = idx;
        let mut out = Out::new();
        let traps0 = crate::elem::TRAPS.load(SeqCst);
        let al0 = ALLOCS.get();
        let sy0 = SYSC.get().0;
        let stepping = call.step
            || w.guard
            || (w.mode == Mode::Tf && call.evs.iter().any(|e| matches!(e.k, EvK::Switch(_) | EvK::Nest(_) | EvK::Stall | EvK::Fork(_))));
        (*c).lvl = lvl + 1;
        (*c).busy = false;
        INOP.set(true);
        let sp = if w.stack { paint() } else { 0 };
        let before = w.amb.map(|m| {
            let s = crate::ambient::last();
            crate::ambient::set_control(m);
            (m, s, crate::ambient::HOOKED.load(SeqCst))
        });
        for (i, e) in call.evs.iter().enumerate() {
            match e.k {
                EvK::Spoil(_) => (*c).frames[lvl].fired |= 1 << i,
                EvK::Lie(k) => {
                    (*c).frames[lvl].fired |= 1 << i;
                    crate::elem::LIE.set(k + 1);
                }
                _ => {}
            }
        }
        let code = call.evs.iter().find(|e| e.k == EvK::Place).map_or(0, |e| e.at);
        call.prep.start(code, (*c).tid, lvl);
        let res = if code != 0 {
            let mut r = None;
            crate::place::on_stack(code, &mut || r = Some(catch_unwind(AssertUnwindSafe(|| call.prep.run(&mut out)))));
            (*c).frames[lvl].fired |= 1 << call.evs.iter().position(|e| e.k == EvK::Place).unwrap_or(0);
            r.unwrap_or(Ok(()))
        } else {
            catch_unwind(AssertUnwindSafe(|| {
                if stepping {
                    tf_on();
                }
                call.prep.run(&mut out);
                if stepping {
                    tf_off();
                }
            }))
        };
        tf_off();
        INOP.set(false);
        crate::elem::LIE.set(0);
        if w.stack {
            slot.stack = slot.stack.max(painted(sp));
        }
        (*c).busy = outer_busy;
        (*c).lvl = lvl;
        if let Some((m, s, _)) = before {
            use crate::ambient::*;
            let ok = control_is(m);
            set_control(0);
            if slot.amb == 0 {
                slot.amb = if !ok { 2 } else { differs(&s, &refresh()) };
            }
        }
        let f = &(*c).frames[lvl];
        if r == 0 || res.is_err() {
            slot.steps = f.step;
            slot.vsteps = f.vstep;
            slot.csteps = f.cstep;
            slot.tsteps = f.tstep;
            slot.fired = f.fired;
            slot.storm_hits = f.storm_hits;
        }
        slot.allocs += ALLOCS.get() - al0;
        slot.sys += SYSC.get().0 - sy0;
        if slot.sys > 0 {
            slot.sysnr = SYSC.get().1;
        }
        slot.traps = crate::elem::TRAPS.load(SeqCst).wrapping_sub(traps0);
        let mut pk = 0;
        if let Err(p) = res {
            pk = if p.is::<Injected>() {
                PK_INJECTED
            } else if p.is::<OverBudget>() {
                PK_BUDGET
            } else if p.is::<crate::elem::SimTrap>() {
                PK_TRAP
            } else {
                PK_LIB
            };
            std::mem::forget(p);
            if let Some((_, _, n)) = before {
                if slot.amb == 0 && (pk == PK_INJECTED || pk == PK_LIB) && crate::ambient::HOOKED.load(SeqCst) == n {
                    slot.amb = 3;
                }
            }
            out = Out::new();
            out.tag(3);
            out.raw(pk as u64);
        }
        if before.is_some() && slot.amb == 0 && !crate::ambient::hook_alive() {
            slot.amb = 4;
        }
        if r == 0 {
            slot.panic = pk;
            slot.out = out.clone();
        } else if out != slot.out && slot.diff_at == 0 {
            slot.diff_at = r;
            slot.out2 = out.clone();
        }
        slot.reps = r + 1;
        hdr.progress.fetch_add(1, SeqCst);
        if slot.diff_at != 0 {
            break;
        }
    }
    slot.status = if slot.panic != 0 { ST_PANIC } else { ST_DONE };
    note(idx as u64 ^ 0xdd00);
}

// ------------------------------------------------------------------ stack --
/// how much of the stack below a call is watched
pub const STACK_WATCH: usize = 128 << 10;
const PAINT: u64 = 0x5ca1_ab1e_0ddb_a11e;
/// fill the unused stack with a pattern; the address it ends at
#[inline(never)]
unsafe fn paint() -> usize {
    let sp: usize;
    core::arch::asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack, preserves_flags));
    let top = (sp & !15) - 1024;
    let n = STACK_WATCH / 8;
    core::arch::asm!("rep stosq", inout("rcx") n => _, inout("rdi") top - n * 8 => _, in("rax") PAINT, options(nostack));
    top
}
/// bytes below `top` that were overwritten since
#[inline(never)]
unsafe fn painted(top: usize) -> u32 {
    let mut p = top - STACK_WATCH;
    while p < top && core::ptr::read_volatile(p as *const u64) == PAINT {
        p += 8;
    }
    (top - p) as u32
}

// ------------------------------------------------------------- trap flag --
#[inline(always)]
unsafe fn tf_on() {
    core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
}
#[inline(always)]
unsafe fn tf_off() {
    core::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq");
}
extern "C" {
    static __executable_start: u8;
    static etext: u8;
}
/// limit on single-stepped instructions in one call
pub const TF_CAP: u64 = 400_000;

unsafe extern "C" fn on_trap(_s: i32, _i: *mut libc::siginfo_t, u: *mut libc::c_void) {
    let uc = u as *mut libc::ucontext_t;
    let regs = &mut (*uc).uc_mcontext.gregs;
    let c = CUR.get();
    if c.is_null() || (*c).lvl == 0 || (*c).busy {
        regs[libc::REG_EFL as usize] &= !0x100;
        return;
    }
    progress();
    let rip = regs[libc::REG_RIP as usize] as u64;
    let f: *mut Frame = {
        let lvl = (*c).lvl;
        &mut (*c).frames[lvl - 1]
    };
    let w = world();
    let call = &w.calls[(*f).call];
    let lo = &__executable_start as *const u8 as u64;
    let hi = &etext as *const u8 as u64;
    let inside = rip >= lo && rip < hi;
    if w.guard {
        guard_insn(rip, regs);
    }
    if !inside || rip == (*f).last_rip {
        return;
    }
    (*f).last_rip = rip;
    (*f).tstep += 1;
    if call.step && call.evs.is_empty() && near(rip - lo) {
        shm().hdr.aux[61] = 1;
    }
    if call.step && call.evs.is_empty() && !IN_POINT && rip.wrapping_sub(point as *const () as u64) > 160 && hot_insn(rip, regs) {
        // remembered so that preemptions can be placed around accesses to shared memory
        let a = &mut shm().hdr.aux;
        let n = a[62] as usize;
        if n < MAXHOT {
            a[n] = (*f).tstep;
            a[62] += 1;
        }
    }
    let mut pending = call.step || w.guard;
    if w.mode == Mode::Tf {
        let t = (*f).tstep;
        for (i, e) in call.evs.iter().enumerate() {
            if (*f).fired & (1 << i) != 0 {
                continue;
            }
            if !matches!(e.k, EvK::Switch(_) | EvK::Nest(_) | EvK::Stall | EvK::Fork(_)) {
                continue;
            }
            if t >= e.at {
                (*f).fired |= 1 << i;
                fire(c, f, e);
            } else {
                pending = true;
            }
        }
    }
    if !pending || (*f).tstep > TF_CAP {
        regs[libc::REG_EFL as usize] &= !0x100;
    }
}

/// functions that can touch the library's globals, as offsets in the image
static mut NEAR: &[(u64, u64)] = &[];
pub fn set_near(v: Vec<(u64, u64)>) {
    unsafe { NEAR = Box::leak(v.into_boxed_slice()) }
}
unsafe fn near(off: u64) -> bool {
    let k = NEAR.partition_point(|f| f.0 <= off);
    k > 0 && off < NEAR[k - 1].1
}

pub const MAXHOT: usize = 32;
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
/// does the next instruction touch writable global or thread-local memory, or
/// lock the bus? (decodes just enough: prefixes, opcode, memory operand)
unsafe fn hot_insn(rip: u64, regs: &[i64; 23]) -> bool {
    let mut p = rip as *const u8;
    for _ in 0..4 {
        match *p {
            0xf0 | 0x64 => return true,
            0x66 | 0xf2 | 0xf3 | 0x2e | 0x3e => p = p.add(1),
            _ => break,
        }
    }
    let mut rex = 0;
    if *p & 0xf0 == 0x40 {
        rex = *p;
        p = p.add(1);
    }
    let mut op = *p;
    p = p.add(1);
    if op == 0x0f {
        op = *p;
        p = p.add(1);
        if op == 0x38 || op == 0x3a {
            p = p.add(1);
        } else if matches!(op, 0x80..=0x8f | 0x05 | 0x0b | 0x0d | 0x18..=0x1f | 0x31 | 0x77 | 0xa2 | 0xc8..=0xcf) {
            return false;
        }
    } else if op < 0x40 && op & 7 >= 4
        || matches!(op, 0x50..=0x5f | 0x68 | 0x6a | 0x70..=0x7f | 0x90..=0xbf | 0xc2 | 0xc3 | 0xc8..=0xcd | 0xe0..=0xef | 0xf4 | 0xf5 | 0xf8..=0xfd)
    {
        return false;
    } else if op == 0x8d && *p & 0xc7 != 0x05 {
        // the address of a global counts (its accesses follow), others do not
        return false;
    }
    let modrm = *p;
    let rel = |q: *const u8| core::ptr::read_unaligned(q as *const i32) as i64;
    let reg = |k: u8| {
        use libc::*;
        let r = [REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15];
        regs[r[k as usize & 15] as usize]
    };
    let (md, rm) = (modrm >> 6, modrm & 7);
    p = p.add(1);
    let t = if md == 3 {
        return false;
    } else if modrm & 0xc7 == 0x05 {
        p as i64 + 4 + rel(p)
    } else {
        let mut t = 0;
        let mut wide = false;
        if rm == 4 {
            let sib = *p;
            p = p.add(1);
            let (b, x) = (sib & 7, (sib >> 3 & 7) | (rex & 2) << 2);
            if x != 4 {
                t += reg(x) << (sib >> 6);
            }
            if b == 5 && md == 0 {
                wide = true;
            } else {
                t += reg(b | (rex & 1) << 3);
            }
        } else {
            t += reg(rm | (rex & 1) << 3);
        }
        if md == 2 || wide {
            t += rel(p);
        } else if md == 1 {
            t += *p as i8 as i64;
        }
        t
    } as u64;
    t + 16 >= &__data_start as *const u8 as u64 && t < &_end as *const u8 as u64
}

/// the next instruction would leave the computation: count it and, for a
/// system call, make it fail instead of running it
unsafe fn guard_insn(rip: u64, regs: &mut [i64; 23]) {
    let p = rip as *const u8;
    let (a, b) = (*p, *p.add(1));
    let (mut n, mut hit) = (SYSC.get(), false);
    if (a == 0x0f && b == 0x05) || (a == 0x0f && b == 0x34) || (a == 0xcd && b == 0x80) {
        n.1 = regs[libc::REG_RAX as usize] as u32;
        regs[libc::REG_RAX as usize] = -(libc::ENOSYS as i64);
        regs[libc::REG_RIP as usize] += 2;
        hit = true;
    } else if a == 0x0f && b == 0x31 {
        n.1 = 100_001; // rdtsc
        hit = true;
    } else if a == 0x0f && b == 0x01 && *p.add(2) == 0xf9 {
        n.1 = 100_001;
        hit = true;
    } else if a == 0x0f && b == 0xa2 {
        n.1 = 100_004; // cpuid
        hit = true;
    } else {
        // rdrand / rdseed, with or without a prefix
        let mut q = p;
        if *q == 0x66 {
            q = q.add(1);
        }
        if (*q & 0xf0) == 0x40 {
            q = q.add(1);
        }
        if *q == 0x0f && *q.add(1) == 0xc7 {
            let m = *q.add(2);
            if m >> 6 == 3 && ((m >> 3) & 7 == 6 || (m >> 3) & 7 == 7) {
                n.1 = 100_002;
                hit = true;
            }
        }
    }
    if hit {
        n.0 += 1;
        SYSC.set(n);
    }
}

fn install_trap() {
    unsafe {
        let mut sa: libc::sigaction = core::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGTRAP, &sa, core::ptr::null_mut());
    }
}

// ------------------------------------------------------------ environment --
extern "C" {
    static environ: *const *const libc::c_char;
}
/// replaces the C library's: reading the environment during a call is counted
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    if INOP.get() {
        let n = SYSC.get();
        SYSC.set((n.0 + 1, 100_003));
    }
    if environ.is_null() || name.is_null() {
        return core::ptr::null_mut();
    }
    let n = libc::strlen(name);
    let mut e = environ;
    while !(*e).is_null() {
        if libc::strncmp(*e, name, n) == 0 && *(*e).add(n) == b'=' as libc::c_char {
            return (*e).add(n + 1) as *mut libc::c_char;
        }
        e = e.add(1);
    }
    core::ptr::null_mut()
}

// -------------------------------------------------------------- allocator --
pub struct Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if INOP.get() {
            ALLOCS.set(ALLOCS.get() + 1);
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if INOP.get() {
            ALLOCS.set(ALLOCS.get() + 1);
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if INOP.get() {
            ALLOCS.set(ALLOCS.get() + 1);
        }
        std::alloc::System.realloc(p, l, n)
    }
}

/// silent panic hook: the first message of the run is kept for the report
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        // the panic machinery itself is not single-stepped
        unsafe { tf_off() };
        crate::ambient::HOOKED.fetch_add(1, SeqCst);
        if info.payload().is::<crate::ambient::Probe>() {
            return;
        }
        let was = INOP.replace(false);
        unsafe {
            if !SHM.is_null() {
                let c = CUR.get();
                let dst: Option<&mut [u8; 120]> = if !c.is_null() && (*c).lvl > 0 {
                    let lvl = (*c).lvl;
                    Some(&mut shm().slots[(*c).frames[lvl - 1].call].msg)
                } else {
                    None
                };
                let pl = info.payload();
                let m = pl.downcast_ref::<&str>().copied().or_else(|| pl.downcast_ref::<String>().map(|x| x.as_str())).unwrap_or("panic");
                let mut m: String = m.chars().take(70).collect();
                if let Some(l) = info.location() {
                    let f = l.file();
                    let f = &f[f.rfind('/').map_or(0, |x| x + 1)..];
                    m.push_str(&format!(" at {}:{}", f, l.line()));
                }
                let s = m;
                let b = s.as_bytes();
                if let Some(d) = dst {
                    if d[0] == 0 {
                        let n = b.len().min(119);
                        d[..n].copy_from_slice(&b[..n]);
                    }
                } else {
                    let h = &mut shm().hdr;
                    let n = b.len().min(255);
                    h.io[..n].copy_from_slice(&b[..n]);
                    h.io_len = n as u32;
                }
            }
        }
        INOP.set(was);
    }));
    // the unwinder initialises itself at its first use: not inside a guarded run
    let _ = catch_unwind(|| {
        if std::hint::black_box(true) {
            panic!("warm-up {}", std::hint::black_box(1))
        }
    });
}

// -------------------------------------------------------------- execution --
/// make this thread task `tid`
pub fn enter_task(tid: usize) -> *mut Ctx {
    unsafe {
        let c: *mut Ctx = &mut *core::ptr::addr_of_mut!(CTXS[tid]);
        (*c).tid = tid;
        (*c).lvl = 0;
        (*c).busy = false;
        CUR.set(c);
        c
    }
}
fn task_main(tid: usize) {
    unsafe {
        let c: *mut Ctx = &mut *core::ptr::addr_of_mut!(CTXS[tid]);
        (*c).tid = tid;
        (*c).lvl = 0;
        (*c).busy = false;
        CUR.set(c);
        wait_turn(tid);
        for &i in &world().tasks[tid] {
            exec_call(c, i);
        }
        DONE[tid].store(1, SeqCst);
        leave(tid);
    }
}

/// Runs a prepared world inside a forked child. `threads` false runs the
/// (single) task on this thread.
pub fn run_world(w: World, threads: bool) {
    let n = w.tasks.len();
    let free_after = w.free_after_ms;
    unsafe {
        WORLD = Box::leak(Box::new(w));
    }
    if world().mode == Mode::Tf || world().guard || world().calls.iter().any(|c| c.step) {
        install_trap();
    }
    LEFT.store(n as u32, SeqCst);
    if world().life {
        crate::life::run(&world().tasks);
    }
    if !threads {
        if world().seccomp {
            crate::guard::enter();
        }
        TURN.store(0, SeqCst);
        for t in 0..n {
            set_turn(t as i32);
            task_main(t);
        }
        return;
    }
    TURN.store(-1, SeqCst);
    for t in 0..n {
        let b = std::thread::Builder::new().stack_size(4 << 20);
        if b.spawn(move || task_main(t)).is_err() {
            shm().hdr.verdict = 99;
            return;
        }
    }
    set_turn(0);
    let mut seen = (0, std::time::Instant::now());
    loop {
        let t = TURN.load(SeqCst);
        if t == -2 || LEFT.load(SeqCst) == 0 {
            break;
        }
        futex_wait(TURN.as_ptr(), t, Some(50));
        let now = PROG.load(SeqCst);
        if now != seen.0 {
            seen = (now, std::time::Instant::now());
        }
        if free_after > 0 && FREE.load(SeqCst) == 0 && seen.1.elapsed().as_millis() as u64 > free_after {
            // the task holding the baton waits for a paused one: let everything run
            FREE.store(1, SeqCst);
            shm().hdr.freed.store(1, SeqCst);
            futex_wake(TURN.as_ptr());
        }
    }
}
