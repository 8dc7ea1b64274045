//! A simulated run is one explicit plan: tasks, calls, and for each call the
//! steps at which something happens. Plans are generated from a seed, written
//! to and read from replay files, executed in a forked child and minimised.
use crate::args::{raw, Arg};
use crate::elem::Ty;
use crate::engine::*;
use crate::ops::{Op, Out, Prep};
use std::collections::HashMap;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Guard {
    None,
    Step,
    Seccomp,
    Stack,
    /// the caller's floating-point mode (see ambient.rs)
    Ambient(u8),
    /// the tasks are stages of a thread's and the process's life (life.rs)
    Life,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub op: usize,
    pub ty: Ty,
    pub arg: Arg,
    pub reps: u32,
    pub evs: Vec<Ev>,
}
impl Call {
    pub fn operands(&self) -> crate::args::Raw {
        let mut r = raw(self.arg);
        for e in &self.evs {
            if let EvK::Spoil(k) = e.k {
                crate::args::spoil(&mut r, e.at as usize, k);
            }
        }
        r
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub mode: Mode,
    pub guard: Guard,
    pub fds: Fds,
    /// run on threads with a baton (false: one task, on the child's only thread)
    pub threads: bool,
    pub free_ms: u64,
    pub limit: i64,
    pub budget: u64,
    pub calls: Vec<Call>,
    pub tasks: Vec<Vec<usize>>,
    /// scenario actions (properties whose runs are histories on one object)
    pub rows: Vec<[i64; 8]>,
}
impl Plan {
    pub fn new() -> Plan {
        Plan {
            mode: Mode::Elem,
            guard: Guard::None,
            fds: Fds::Normal,
            threads: true,
            free_ms: 0,
            limit: i64::MAX,
            budget: u64::MAX,
            calls: vec![],
            tasks: vec![],
            rows: vec![],
        }
    }
}

fn ev_str(e: &Ev) -> String {
    let k = match e.k {
        EvK::Switch(t) => format!("switch:{}", t),
        EvK::Nest(i) => format!("nest:{}", i),
        EvK::Stall => "stall".into(),
        EvK::Panic => "panic".into(),
        EvK::Val(k) => format!("val:{}", k),
        EvK::Cmp(k) => format!("cmp:{}", k),
        EvK::Err => "err".into(),
        EvK::Storm(s, n) => format!("storm:{}:{}", s, n),
        EvK::Unwind(i) => format!("unwind:{}", i),
        EvK::Place => "place".into(),
        EvK::Spoil(k) => format!("spoil:{}", k),
        EvK::Lie(k) => format!("lie:{}", k),
        EvK::Fork(i) => format!("fork:{}", i),
        EvK::Rough(s, n) => format!("rough:{}:{}", s, n),
    };
    format!("{}:{}", e.at, k)
}
fn ev_parse(s: &str) -> Option<Ev> {
    let p: Vec<&str> = s.split(':').collect();
    let at = p.first()?.parse().ok()?;
    let n = |i: usize| p.get(i).and_then(|x| x.parse::<u32>().ok());
    let k = match *p.get(1)? {
        "switch" => EvK::Switch(n(2)? as u8),
        "nest" => EvK::Nest(n(2)? as u16),
        "unwind" => EvK::Unwind(n(2)? as u16),
        "fork" => EvK::Fork(n(2)? as u16),
        "place" => EvK::Place,
        "spoil" => EvK::Spoil(n(2)? as u8),
        "lie" => EvK::Lie(n(2)? as u8),
        "stall" => EvK::Stall,
        "panic" => EvK::Panic,
        "val" => EvK::Val(n(2)? as u8),
        "cmp" => EvK::Cmp(n(2)? as u8),
        "err" => EvK::Err,
        "rough" => EvK::Rough(n(2)?, n(3)? as u8),
        "storm" => EvK::Storm(n(2)?, n(3)? as u16),
        _ => return None,
    };
    Some(Ev { at, k })
}

pub fn to_text(prop: &str, p: &Plan, cat: &[Op]) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "property {}", prop);
    let _ = writeln!(s, "mode {}", if p.mode == Mode::Tf { "tf" } else { "elem" });
    let g = match p.guard {
        Guard::None => "none".into(),
        Guard::Step => "step".into(),
        Guard::Seccomp => "seccomp".into(),
        Guard::Stack => "stack".into(),
        Guard::Life => "life".into(),
        Guard::Ambient(m) => format!("ambient {}", m),
    };
    let _ = writeln!(s, "guard {}", g);
    let _ = writeln!(s, "fds {}", match p.fds { Fds::Normal => "normal", Fds::Pipe => "pipe", Fds::Full => "full", Fds::Closed => "closed", Fds::Broken => "broken" });
    let _ = writeln!(s, "threads {}\nfree_ms {}\nlimit {}\nbudget {}", p.threads as u8, p.free_ms, p.limit, p.budget);
    for (i, c) in p.calls.iter().enumerate() {
        let evs: Vec<String> = c.evs.iter().map(ev_str).collect();
        let _ = writeln!(
            s,
            "call {} op={} ty={} seed={} prof={} var={} reps={} ev={}",
            i, cat[c.op].name, c.ty.name(), c.arg.seed, c.arg.prof, c.arg.var, c.reps, evs.join(",")
        );
    }
    for t in &p.tasks {
        let v: Vec<String> = t.iter().map(|x| x.to_string()).collect();
        let _ = writeln!(s, "task {}", v.join(" "));
    }
    for r in &p.rows {
        let v: Vec<String> = r.iter().map(|x| x.to_string()).collect();
        let _ = writeln!(s, "row {}", v.join(" "));
    }
    s
}

pub fn from_text(t: &str, cat: &[Op]) -> Option<(String, Plan)> {
    let mut p = Plan::new();
    let mut prop = String::new();
    for l in t.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => prop = v.into(),
            "mode" => p.mode = if v == "tf" { Mode::Tf } else { Mode::Elem },
            "guard" => p.guard = match v { "step" => Guard::Step, "seccomp" => Guard::Seccomp, "stack" => Guard::Stack, "life" => Guard::Life,
                _ => v.strip_prefix("ambient ").and_then(|m| m.parse().ok()).map_or(Guard::None, Guard::Ambient),
            },
            "fds" => p.fds = match v { "pipe" => Fds::Pipe, "full" => Fds::Full, "closed" => Fds::Closed, "broken" => Fds::Broken, _ => Fds::Normal },
            "threads" => p.threads = v == "1",
            "free_ms" => p.free_ms = v.parse().ok()?,
            "limit" => p.limit = v.parse().ok()?,
            "budget" => p.budget = v.parse().ok()?,
            "call" => {
                let mut c = Call { op: usize::MAX, ty: Ty::F64, arg: Arg { seed: 0, prof: 0, var: 0 }, reps: 1, evs: vec![] };
                for f in v.split(' ').skip(1) {
                    let (a, b) = f.split_once('=')?;
                    match a {
                        "op" => c.op = cat.iter().position(|o| o.name == b)?,
                        "ty" => c.ty = Ty::parse(b)?,
                        "seed" => c.arg.seed = b.parse().ok()?,
                        "prof" => c.arg.prof = b.parse().ok()?,
                        "var" => c.arg.var = b.parse().ok()?,
                        "reps" => c.reps = b.parse().ok()?,
                        "ev" => {
                            for e in b.split(',').filter(|x| !x.is_empty()) {
                                c.evs.push(ev_parse(e)?);
                            }
                        }
                        _ => {}
                    }
                }
                if c.op == usize::MAX || !cat[c.op].has(c.ty) {
                    return None;
                }
                p.calls.push(c);
            }
            "task" => p.tasks.push(v.split(' ').filter_map(|x| x.parse().ok()).collect()),
            "row" => {
                let mut r = [0i64; 8];
                for (i, x) in v.split(' ').enumerate().take(8) {
                    r[i] = x.parse().ok()?;
                }
                p.rows.push(r);
            }
            _ => {}
        }
    }
    Some((prop, p))
}

// ------------------------------------------------------------ forked child --
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Exit(i32),
    Signal(i32),
    Hang,
}
/// seconds after which a run counts as never ending
pub static HANG_S: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(8);

pub fn in_child(f: impl FnOnce()) -> End {
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            eprintln!("fork failed");
            std::process::exit(2);
        }
        if pid == 0 {
            libc::alarm(HANG_S.load(std::sync::atomic::Ordering::Relaxed));
            let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &rl);
            // a run that eats memory is killed by its own limit, not the machine's
            let ra = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &ra);
            // what a run prints is not this check's output
            let f0 = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(f0, 1);
            if std::env::var_os("SIM_DEBUG").is_none() {
                libc::dup2(f0, 2);
            }
            libc::close(f0);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            // tools/cover.sh: line coverage of the library by the simulated calls
            #[cfg(sim_cov)]
            {
                extern "C" {
                    fn __llvm_profile_write_file() -> i32;
                }
                __llvm_profile_write_file();
            }
            libc::_exit(if r.is_ok() { 0 } else { 77 });
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
        }
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGALRM {
                End::Hang
            } else {
                End::Signal(s)
            }
        } else {
            End::Exit(libc::WEXITSTATUS(st))
        }
    }
}

fn clear_slots(n: usize) {
    unsafe {
        let s = shm();
        for i in 0..n.min(MAXCALLS) {
            core::ptr::write_bytes(&mut s.slots[i] as *mut Slot, 0, 1);
        }
        core::ptr::write_bytes(&mut s.hdr as *mut Hdr, 0, 1);
    }
}

pub struct Ran {
    pub end: End,
    pub slots: Vec<Slot>,
    pub io: Vec<u8>,
    pub trace: u64,
    pub switches: u64,
    pub freed: bool,
    pub verdict: u32,
    pub text: String,
    pub aux: [u64; 64],
}
fn collect(n: usize, end: End) -> Ran {
    let s = shm();
    use std::sync::atomic::Ordering::SeqCst;
    Ran {
        end,
        slots: s.slots[..n].to_vec(),
        io: s.hdr.io[..(s.hdr.io_len as usize).min(256)].to_vec(),
        trace: s.hdr.trace.load(SeqCst),
        switches: s.hdr.switches.load(SeqCst),
        freed: s.hdr.freed.load(SeqCst) != 0,
        verdict: s.hdr.verdict,
        text: String::from_utf8_lossy(&s.hdr.text[..(s.hdr.text_len as usize).min(1024)]).into_owned(),
        aux: s.hdr.aux,
    }
}

/// the scenario interpreter of a property; called inside the child
pub type Scenario = fn(&Plan);

pub fn execute(p: &Plan, cat: &[Op], scen: Option<Scenario>) -> Ran {
    clear_slots(p.calls.len());
    let mut fds: [i32; 2] = [-1, -1];
    if p.fds == Fds::Pipe {
        unsafe {
            if libc::pipe2(fds.as_mut_ptr(), libc::O_NONBLOCK) != 0 {
                eprintln!("pipe failed");
                std::process::exit(2);
            }
        }
    }
    let end = in_child(|| unsafe {
        crate::elem::LIMIT.store(p.limit, std::sync::atomic::Ordering::Relaxed);
        match p.fds {
            Fds::Normal => {}
            Fds::Pipe => {
                libc::dup2(fds[1], 1);
                libc::dup2(fds[1], 2);
            }
            Fds::Full => {
                let f = libc::open(c"/dev/full".as_ptr(), libc::O_WRONLY);
                libc::dup2(f, 1);
                libc::dup2(f, 2);
            }
            Fds::Closed => {
                libc::close(1);
                libc::close(2);
            }
            Fds::Broken => {
                libc::signal(libc::SIGPIPE, libc::SIG_IGN);
                let mut q = [0i32; 2];
                libc::pipe(q.as_mut_ptr());
                libc::close(q[0]);
                libc::dup2(q[1], 1);
                libc::dup2(q[1], 2);
            }
        }
        if let Some(s) = scen {
            s(p);
        } else {
            let calls = p
                .calls
                .iter()
                .map(|c| PCall {
                    prep: Prep::new(&cat[c.op], c.ty, &c.operands()),
                    reps: c.reps,
                    evs: c.evs.clone(),
                    budget: p.budget,
                    wild: crate::args::wild(c.arg),
                    step: false,
                })
                .collect();
            let w = World {
                mode: p.mode,
                guard: p.guard == Guard::Step,
                calls,
                tasks: p.tasks.clone(),
                free_after_ms: p.free_ms,
                seccomp: p.guard == Guard::Seccomp,
                stack: p.guard == Guard::Stack,
                amb: if let Guard::Ambient(m) = p.guard { Some(m) } else { None },
                life: p.guard == Guard::Life,
            };
            run_world(w, p.threads);
        }
        if p.guard == Guard::Seccomp {
            crate::guard::quit();
        }
        if p.fds != Fds::Normal {
            use std::io::Write;
            let _ = std::io::stdout().flush();
        }
    });
    if p.fds == Fds::Pipe {
        unsafe {
            let h = &mut shm().hdr;
            let n = libc::read(fds[0], h.io.as_mut_ptr() as *mut _, 256);
            h.io_len = if n > 0 { n as u32 } else { 0 };
            libc::close(fds[0]);
            libc::close(fds[1]);
        }
    }
    collect(p.calls.len(), end)
}

// ----------------------------------------------------- alone, fresh process --
#[derive(Clone)]
pub struct Alone {
    pub ok: bool,
    pub panic: u32,
    pub out: Out,
    pub steps: u64,
    pub vsteps: u64,
    pub csteps: u64,
    pub msg: String,
    pub end: End,
}
pub struct Oracle {
    map: HashMap<(usize, Ty, Arg, i64), Alone>,
    pub runs: u64,
}
impl Oracle {
    pub fn new() -> Oracle {
        Oracle { map: HashMap::new(), runs: 0 }
    }
    pub fn get(&mut self, cat: &[Op], op: usize, ty: Ty, arg: Arg, limit: i64) -> Alone {
        let limit = if ty == Ty::SI { limit } else { 0 };
        if let Some(a) = self.map.get(&(op, ty, arg, limit)) {
            return a.clone();
        }
        if self.map.len() > 20_000 {
            self.map.clear();
        }
        let mut p = Plan::new();
        p.threads = false;
        p.limit = if ty == Ty::SI { limit } else { i64::MAX };
        p.budget = 20_000_000;
        p.calls.push(Call { op, ty, arg, reps: 1, evs: vec![] });
        p.tasks.push(vec![0]);
        let r = execute(&p, cat, None);
        self.runs += 1;
        let s = &r.slots[0];
        let a = Alone {
            ok: r.end == End::Exit(0) && (s.status == ST_DONE || s.status == ST_PANIC) && s.panic != PK_BUDGET,
            panic: s.panic,
            out: s.out.clone(),
            steps: s.steps,
            vsteps: s.vsteps,
            csteps: s.csteps,
            msg: cstr(&s.msg),
            end: r.end,
        };
        self.map.insert((op, ty, arg, limit), a.clone());
        a
    }
}
pub fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&x| x == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).replace('\n', " ")
}

/// number of machine steps of one call (used only to place events)
pub fn tf_length(cat: &[Op], op: usize, ty: Ty, arg: Arg) -> (u64, Vec<u32>) {
    clear_slots(1);
    let end = in_child(|| {
        let w = World {
            mode: Mode::Tf,
            guard: false,
            calls: vec![PCall { prep: Prep::new(&cat[op], ty, &raw(arg)), reps: 1, evs: vec![], budget: u64::MAX, wild: crate::args::wild(arg), step: true }],
            tasks: vec![vec![0]],
            free_after_ms: 0,
            seccomp: false,
            stack: false,
            amb: None,
            life: false,
        };
        run_world(w, false);
    });
    let s = &shm().slots[0];
    if end == End::Exit(0) && s.status == ST_DONE {
        let a = &shm().hdr.aux;
        (s.tsteps, a[..(a[62] as usize).min(MAXHOT)].iter().map(|x| *x as u32).collect())
    } else {
        (0, vec![])
    }
}
