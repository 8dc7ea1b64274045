//! Drives one property: seeded runs over worker processes, statistics,
//! minimisation, replay files and evidence.
use crate::elem::{Ty, TYS};
use crate::engine::*;
use crate::ops::{catalogue, Op};
use crate::plan::*;
use crate::props::{self, Prop};
use crate::rng::{hash_bytes, hash_step, Rng};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Viol {
    /// what a minimised run must still show
    pub class: String,
    pub text: String,
}
pub fn viol(class: impl Into<String>, text: impl Into<String>) -> Option<Viol> {
    Some(Viol { class: class.into(), text: text.into() })
}

/// statistics, one block per worker in shared memory
#[repr(C)]
pub struct Stats {
    pub runs: u64,
    pub calls: u64,
    pub elem_steps: u64,
    pub tf_steps: u64,
    pub fired: [u64; EVNAMES.len()],
    pub val_fired: [u64; 16],
    pub storm_hits: u64,
    pub switches: u64,
    pub freed: u64,
    pub panics_lib: u64,
    pub panics_injected: u64,
    pub panics_trap: u64,
    pub skipped: u64,
    pub nontrivial: u64,
    pub oracle: u64,
    pub compared: u64,
    pub known: u64,
    pub rechecked: u64,
    pub mismatched: u64,
    pub reps: u64,
    pub extra: [u64; 32],
    pub nset: u64,
    pub ops: [u64; 32],
    pub set: [u64; SETCAP],
}
pub const SETCAP: usize = 300_000;

/// context of a worker (never runs library code in its own process)
pub struct W {
    pub cat: Vec<Op>,
    pub lens: Vec<[Len; 5]>,
    pub oracle: Oracle,
    pub seed: u64,
    pub thorough: bool,
    pub st: *mut Stats,
    pub set: HashSet<u64>,
    pub pairs_elem: Vec<(usize, Ty)>,
    pub pairs_tf: Vec<(usize, Ty)>,
    pub pairs_all: Vec<(usize, Ty)>,
    /// those that touch shared memory (none in clean code): they get half of the runs
    pub hot_tf: Vec<(usize, Ty)>,
    pub hot_elem: Vec<(usize, Ty)>,
}
impl W {
    pub fn st(&self) -> &'static mut Stats {
        unsafe { &mut *self.st }
    }
    pub fn len(&self, op: usize, ty: Ty, m: Mode) -> u64 {
        let l = &self.lens[op][ty as usize];
        if m == Mode::Tf {
            l.tf
        } else {
            l.el
        }
    }
    pub fn op(&self, name: &str) -> usize {
        self.cat.iter().position(|o| o.name == name).unwrap_or_else(|| {
            eprintln!("no operation {}", name);
            std::process::exit(2)
        })
    }
    pub fn family(&self, op: usize) -> &str {
        self.cat[op].name.split('.').next().unwrap()
    }
    pub fn call_str(&self, c: &Call) -> String {
        format!("{}<{}>(seed={},prof={},var={})", self.cat[c.op].name, c.ty.name(), c.arg.seed, c.arg.prof, c.arg.var)
    }
}

#[derive(Clone, Default)]
pub struct Len {
    pub el: u64,
    pub tf: u64,
    /// machine steps at which the call touches shared memory (none in clean code)
    pub hot: Vec<u32>,
    /// operands with which it does
    pub hot_arg: Option<crate::args::Arg>,
    /// it runs code that can touch shared memory with some operands
    pub near: bool,
}
/// further operands tried when looking for shared memory (rare branches)
const PROBES: [(u32, u8); 9] = [(7, 3), (8, 3), (7, 2), (7, 5), (7, 4), (7, 9), (8, 6), (7, 14), (8, 14)];
/// operands of the measured call
pub const MEAS: crate::args::Arg = crate::args::Arg { seed: 7, prof: 0, var: 0 };

/// writable globals the library has in this executable (none today), and the
/// functions from which direct calls lead to a use of one: found by looking for
/// their addresses in the machine code. When there are any, more operands are
/// tried to find out which calls touch them
fn lib_globals() -> (usize, Vec<(u64, u64)>) {
    let Ok(b) = std::fs::read("/proc/self/exe") else { return (0, vec![]) };
    let u16_ = |o: usize| b.get(o..o + 2).map_or(0, |x| u16::from_le_bytes([x[0], x[1]])) as usize;
    let u32_ = |o: usize| b.get(o..o + 4).map_or(0, |x| u32::from_le_bytes(x.try_into().unwrap())) as usize;
    let u64_ = |o: usize| b.get(o..o + 8).map_or(0, |x| u64::from_le_bytes(x.try_into().unwrap())) as usize;
    let text = |o: usize| {
        let e = b[o.min(b.len())..].iter().position(|&c| c == 0).unwrap_or(0);
        String::from_utf8_lossy(&b[o.min(b.len())..][..e]).into_owned()
    };
    let (sh, es, n, sx) = (u64_(0x28), u16_(0x3a), u16_(0x3c), u16_(0x3e));
    let strs = u64_(sh + es * sx + 0x18);
    // (address, size) of the globals; thread-locals by their offset from the thread pointer
    let (mut vars, mut tls, mut funcs) = (vec![], vec![], vec![]);
    let mut tls_end = 0i64;
    let (ph, pe, pn) = (u64_(0x20), u16_(0x36), u16_(0x38));
    for i in 0..pn {
        let p = ph + pe * i;
        if u32_(p) == 7 {
            let (size, align) = (u64_(p + 0x28) as i64, (u64_(p + 0x30) as i64).max(1));
            tls_end = (size + align - 1) / align * align;
        }
    }
    for i in 0..n {
        let h = sh + es * i;
        if u32_(h + 4) != 2 {
            continue;
        }
        let (off, size, link) = (u64_(h + 0x18), u64_(h + 0x20), u32_(h + 0x28));
        let names = u64_(sh + es * link + 0x18);
        for k in 0..size / 24 {
            let s = off + 24 * k;
            let kind = b.get(s + 4).map_or(0, |x| x & 15);
            let sec = u16_(s + 6);
            let (val, len) = (u64_(s + 8) as i64, u64_(s + 16) as i64);
            if sec == 0 || sec >= n {
                continue;
            }
            if kind == 2 && len > 0 {
                funcs.push((val, val + len));
            }
            if kind != 1 && kind != 6 {
                continue;
            }
            let hs = sh + es * sec;
            if u64_(hs + 8) & 1 == 0 || text(strs + u32_(hs)).starts_with(".data.rel.ro") {
                continue;
            }
            if text(names + u32_(s)).contains("11static_math") {
                if kind == 6 {
                    tls.push((val - tls_end, val - tls_end + len.max(1)));
                } else {
                    vars.push((val, val + len.max(1)));
                }
            }
        }
    }
    let found = vars.len() + tls.len();
    let mut near = vec![];
    if found > 0 {
        funcs.sort();
        funcs.dedup();
        // slots holding the address of a global: code may go through them
        let mut slots = vec![];
        for i in 0..n {
            let h = sh + es * i;
            let (va, off, len) = (u64_(h + 0x10) as i64, u64_(h + 0x18), u64_(h + 0x20));
            if u32_(h + 4) == 4 && u64_(h + 8) & 2 != 0 {
                for k in 0..len / 24 {
                    let (at, kind, add) = (u64_(off + 24 * k) as i64, u32_(off + 24 * k + 8), u64_(off + 24 * k + 16) as i64);
                    let hit = match kind {
                        8 => vars.iter().any(|v: &(i64, i64)| (v.0..v.1).contains(&add)),
                        18 => tls.iter().any(|v: &(i64, i64)| (v.0..v.1).contains(&(add - tls_end))),
                        _ => false,
                    };
                    if hit {
                        slots.push((at, at + 1));
                    }
                }
            } else if text(strs + u32_(h)) == ".got" {
                for k in 0..len / 8 {
                    let v = u64_(off + 8 * k) as i64;
                    if v < 0 && tls.iter().any(|t| (t.0..t.1).contains(&v)) {
                        slots.push((va + 8 * k as i64, va + 8 * k as i64 + 1));
                    }
                }
            }
        }
        vars.extend(slots);
        let mut code = vec![];
        for i in 0..n {
            let h = sh + es * i;
            if u32_(h + 4) == 1 && u64_(h + 8) & 4 != 0 {
                code.push((u64_(h + 0x10) as i64, u64_(h + 0x18), u64_(h + 0x20)));
            }
        }
        let inside = |v: i64| {
            let k = funcs.partition_point(|f| f.0 <= v);
            (k > 0 && v < funcs[k - 1].1).then(|| k - 1)
        };
        let mut marked = vec![false; funcs.len()];
        // callers of each function
        let mut callers: Vec<Vec<usize>> = vec![vec![]; funcs.len()];
        for &(va, off, len) in &code {
            for o in 1..len.saturating_sub(4) {
                let d = u32_(off + o) as u32 as i32 as i64;
                let at = va + o as i64;
                let hit = [4, 5, 6, 8].iter().any(|e| vars.iter().any(|v| (v.0..v.1).contains(&(at + e + d))))
                    || (d < 0 && tls.iter().any(|v| (v.0..v.1).contains(&d)));
                if hit {
                    if let Some(f) = inside(at) {
                        marked[f] = true;
                    }
                }
                if matches!(b[off + o - 1], 0xe8 | 0xe9) {
                    let t = at + 4 + d;
                    if let (Some(f), Some(g)) = (inside(at), inside(t)) {
                        if funcs[g].0 == t && f != g {
                            callers[g].push(f);
                        }
                    }
                }
            }
        }
        let mut todo: Vec<usize> = (0..funcs.len()).filter(|&f| marked[f]).collect();
        while let Some(g) = todo.pop() {
            for &f in &callers[g] {
                if !marked[f] {
                    marked[f] = true;
                    todo.push(f);
                }
            }
        }
        near = (0..funcs.len()).filter(|&f| marked[f]).map(|f| (funcs[f].0 as u64, funcs[f].1 as u64)).collect();
    }
    (found, near)
}

unsafe fn set_hot(p: *mut u64, hot: &[u32], a: crate::args::Arg) {
    *p.add(2) = hot.len() as u64;
    for (i, h) in hot.iter().enumerate() {
        *p.add(3 + i) = *h as u64;
    }
    *p.add(3 + MAXHOT) = (a.seed as u64) << 16 | (a.var as u64) << 8 | a.prof as u64;
}
fn measure(cat: &[Op], nw: usize) -> Vec<[Len; 5]> {
    // lengths in steps of every operation, measured by parallel workers
    let n = cat.len();
    const L: usize = 5 + MAXHOT;
    let mem = map_shared(n * 5 * L * 8) as *mut u64;
    let mut pids = vec![];
    let (globals, near) = lib_globals();
    if std::env::var_os("SIM_DEBUG").is_some() {
        eprintln!("writable globals of the library: {}, functions that lead to them: {}", globals, near.len());
    }
    set_near(near);
    for w in 0..nw {
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                alloc_shm();
                let mut or = Oracle::new();
                let mut cold = vec![];
                for op in (w..n).step_by(nw) {
                    for ty in TYS {
                        if !cat[op].has(ty) {
                            continue;
                        }
                        let a = or.get(cat, op, ty, MEAS, 1 << 62);
                        let (tf, hot) = if a.ok && a.panic == 0 { tf_length(cat, op, ty, MEAS) } else { (0, vec![]) };
                        let near = tf > 0 && shm().hdr.aux[61] != 0;
                        let mut hot = hot;
                        let mut ha = MEAS;
                        if hot.is_empty() && tf > 0 && tf < 12_000 && !ty.is_sim() {
                            for (seed, prof) in PROBES {
                                let b = crate::args::Arg { seed, prof, var: 0 };
                                let o = or.get(cat, op, ty, b, 1 << 62);
                                if !o.ok || o.panic != 0 {
                                    continue;
                                }
                                let h = tf_length(cat, op, ty, b).1;
                                if !h.is_empty() {
                                    hot = h;
                                    ha = b;
                                    break;
                                }
                            }
                        }
                        let p = mem.add((op * 5 + ty as usize) * L);
                        *p = a.steps;
                        *p.add(1) = tf;
                        *p.add(4 + MAXHOT) = near as u64;
                        if hot.is_empty() && tf > 0 && !ty.is_sim() {
                            cold.push((tf, op, ty, near));
                        }
                        set_hot(p, &hot, ha);
                    }
                }
                if globals > 0 {
                    // short calls first; a fixed amount of work per worker
                    cold.sort_by_key(|x| x.0);
                    if cold.iter().any(|x| x.3) {
                        cold.retain(|x| x.3);
                    }
                    let mut work = 0;
                    let mut pr = Rng::derive(11, "probe", 0);
                    for k in 0..1500u32 {
                        cold.retain(|&(tf, op, ty, near)| {
                            let prof = if k < 36 { [3, 2, 14, 9, 3, 14, 5, 1, 14, 3, 0, 4][k as usize % 12] } else { *pr.pick(&[3, 3, 3, 2, 5, 0, 1, 4, 8, 9, 6, 7, 14, 14, 14, 14, 14, 14]) };
                            let b = crate::args::Arg { seed: 11 + k, prof, var: if k < 36 { 0 } else { *pr.pick(&[0, 0, 0, 1, 2, 3]) } };
                            if work > 5_000_000 || (!near && (k > 72 || (k > 5 && tf > 4000) || (k > 24 && tf > 1500))) {
                                return false;
                            }
                            let o = or.get(cat, op, ty, b, 1 << 62);
                            if !o.ok || o.panic != 0 {
                                return true;
                            }
                            work += tf + 300;
                            let h = tf_length(cat, op, ty, b).1;
                            set_hot(mem.add((op * 5 + ty as usize) * L), &h, b);
                            h.is_empty()
                        });
                    }
                }
                libc::_exit(0);
            }
            pids.push(pid);
        }
    }
    for p in pids {
        unsafe {
            let mut st = 0;
            libc::waitpid(p, &mut st, 0);
        }
    }
    (0..n)
        .map(|op| {
            core::array::from_fn(|t| unsafe {
                let p = mem.add((op * 5 + t) * L);
                let a = *p.add(3 + MAXHOT);
                let ha = crate::args::Arg { seed: (a >> 16) as u32, prof: a as u8, var: (a >> 8) as u8 };
                Len {
                    el: *p,
                    tf: *p.add(1),
                    hot: (0..*p.add(2) as usize).map(|i| *p.add(3 + i) as u32).collect(),
                    hot_arg: (*p.add(2) > 0).then_some(ha),
                    near: *p.add(4 + MAXHOT) != 0,
                }
            })
        })
        .collect()
}

pub fn world_ctx(seed: u64, thorough: bool, st: *mut Stats, lens: Vec<[Len; 5]>) -> W {
    let cat = catalogue();
    let mut w = W {
        cat,
        lens,
        oracle: Oracle::new(),
        seed,
        thorough,
        st,
        set: HashSet::new(),
        pairs_elem: vec![],
        pairs_tf: vec![],
        pairs_all: vec![],
        hot_tf: vec![],
        hot_elem: vec![],
    };
    for op in 0..w.cat.len() {
        for ty in TYS {
            if !w.cat[op].has(ty) {
                continue;
            }
            w.pairs_all.push((op, ty));
            if w.lens.is_empty() {
                continue;
            }
            if w.lens[op][ty as usize].el > 0 {
                w.pairs_elem.push((op, ty));
            }
            if w.lens[op][ty as usize].tf > 0 && !ty.is_sim() {
                w.pairs_tf.push((op, ty));
            }
        }
    }
    if !w.lens.is_empty() {
        let touched = |op: usize| w.lens[op].iter().any(|l| l.near || !l.hot.is_empty());
        w.hot_tf = w.pairs_tf.iter().copied().filter(|&(o, t)| w.lens[o][t as usize].near || !w.lens[o][t as usize].hot.is_empty()).collect();
        w.hot_elem = w.pairs_elem.iter().copied().filter(|&(o, _)| touched(o)).collect();
        if std::env::var_os("SIM_DEBUG").is_some() {
            eprintln!("calls that touch shared memory: {:?}", w.hot_tf.iter().map(|&(o, t)| format!("{}<{}>{}", w.cat[o].name, t.name(), if w.lens[o][t as usize].hot.is_empty() { "?" } else { "" })).collect::<Vec<_>>());
        }
    }
    w
}

struct Known {
    lines: Vec<(String, String)>,
}
impl Known {
    fn load() -> Known {
        let mut lines = vec![];
        if let Ok(s) = std::fs::read_to_string(verif().join("known_findings.txt")) {
            for l in s.lines() {
                // finding: property=<id> key=<violation key> <what fails>
                if let Some(r) = l.strip_prefix("finding: property=") {
                    let mut it = r.splitn(3, ' ');
                    let id = it.next().unwrap_or("").to_string();
                    let key = it.next().unwrap_or("").trim_start_matches("key=").to_string();
                    lines.push((id, key));
                }
            }
        }
        Known { lines }
    }
    fn has(&self, id: &str, v: &Viol) -> bool {
        self.lines.iter().any(|(i, k)| i == id && *k == v.class)
    }
}
pub fn verif() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

pub fn run_one(w: &mut W, p: &Prop, plan: &Plan) -> (Ran, Option<Viol>) {
    let r = execute(plan, &w.cat, p.scen);
    let v = (p.judge)(w, plan, &r);
    (r, v)
}

/// hash of everything a run did and produced
fn run_log(r: &Ran) -> u64 {
    let mut h = hash_step(r.trace, r.switches);
    for s in &r.slots {
        h = hash_step(h, s.out.hash());
        h = hash_step(h, (s.status as u64) << 32 | s.panic as u64);
        h = hash_step(h, s.steps ^ (s.tsteps << 32));
        h = hash_step(h, s.fired as u64 | (s.storm_hits as u64) << 32);
    }
    h = hash_step(h, hash_bytes(r.text.as_bytes()));
    for a in r.aux {
        h = hash_step(h, a);
    }
    hash_step(h, r.verdict as u64)
}

fn account(w: &mut W, plan: &Plan, r: &Ran) {
    let st = w.st();
    st.runs += 1;
    st.switches += r.switches;
    st.freed += r.freed as u64;
    let mut fired_any = false;
    let mut h = r.trace;
    for (c, s) in plan.calls.iter().zip(&r.slots) {
        h = hash_step(h, (c.op as u64) << 8 | c.ty as u64);
        h = hash_step(h, (c.arg.seed as u64) << 16 | (c.arg.prof as u64) << 8 | c.arg.var as u64);
        h = hash_step(h, s.fired as u64);
        for (i, e) in c.evs.iter().enumerate() {
            h = hash_step(h, e.at << 4 | e.k.idx() as u64);
            if s.fired & (1 << i) != 0 {
                fired_any = true;
                st.fired[e.k.idx()] += 1;
                if let EvK::Val(k) = e.k {
                    st.val_fired[k as usize & 15] += 1;
                }
            }
        }
        if s.status == ST_DONE || s.status == ST_PANIC {
            st.calls += s.reps as u64;
            st.reps += s.reps as u64;
            st.ops[c.op / 64 % 32] |= 1 << (c.op % 64);
        }
        st.elem_steps += s.steps;
        st.tf_steps += s.tsteps;
        st.storm_hits += s.storm_hits as u64;
        match s.panic {
            PK_LIB => st.panics_lib += 1,
            PK_INJECTED => st.panics_injected += 1,
            PK_TRAP => st.panics_trap += 1,
            _ => {}
        }
    }
    for row in &plan.rows {
        for x in row {
            h = hash_step(h, *x as u64);
        }
    }
    for i in 0..32 {
        st.extra[i] += r.aux[i];
    }
    if plan.rows.is_empty() {
        let evs = plan.calls.iter().any(|c| !c.evs.is_empty());
        let sw = plan.calls.iter().any(|c| c.evs.iter().any(|e| matches!(e.k, EvK::Switch(_))));
        if if evs { fired_any && (!sw || r.switches > 0) } else { plan.calls.len() > 1 || plan.calls.iter().any(|c| c.reps > 1) } {
            st.nontrivial += 1;
            if w.set.len() < SETCAP {
                w.set.insert(h);
            }
        }
    } else if r.aux[0] > 0 {
        st.nontrivial += 1;
        if w.set.len() < SETCAP {
            w.set.insert(h);
        }
    }
}

pub fn check(p: &Prop, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let nw = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 16);
    let nw = std::env::var("SIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(nw);
    let runs: u64 = std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let wall_cap = if thorough { 3000 } else { 420 };
    if p.id == "C21" && !crate::confs::build() {
        return 2;
    }
    let cat = catalogue();
    install_hook();
    let lens = if p.needs_len { measure(&cat, nw) } else { vec![core::array::from_fn(|_| Len::default()); cat.len()] };
    let t_measure = t0.elapsed().as_secs_f64();
    println!("{} seed={} tier={} runs={} workers={} operations={}", p.id, seed, if thorough { "thorough" } else { "quick" }, runs, nw, cat.len());
    let sz = core::mem::size_of::<Stats>();
    let mem = map_shared(sz * nw + 4096);
    let stop = unsafe { &*(mem.add(sz * nw) as *const AtomicU64) };
    let truncated = unsafe { &*(mem.add(sz * nw + 8) as *const AtomicU64) };
    let knownct = unsafe { &*(mem.add(sz * nw + 16) as *const AtomicU64) };
    stop.store(u64::MAX, SeqCst);
    let known = Known::load();
    let pipes: Vec<[i32; 2]> = (0..nw)
        .map(|_| unsafe {
            let mut f = [0i32; 2];
            libc::pipe2(f.as_mut_ptr(), libc::O_CLOEXEC);
            f
        })
        .collect();
    // a failure that does not come back under the same plan is not believed:
    // the search goes on behind it
    let mut start = 0u64;
    let mut unrepeated = 0;
    let mut code = 0;
    let mut vtext = String::new();
    let mut rep: Option<(String, String)> = None;
    loop {
    stop.store(u64::MAX, SeqCst);
    let mut pids = vec![];
    for wi in 0..nw {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            alloc_shm();
            let st = unsafe { mem.add(sz * wi) as *mut Stats };
            let mut w = world_ctx(seed, thorough, st, lens.clone());
            let mut seen_known: HashSet<String> = HashSet::new();
            let mut i = start + wi as u64;
            while i < runs && i < stop.load(SeqCst) {
                if i / nw as u64 % 8 == 0 && t0.elapsed().as_secs() > wall_cap {
                    truncated.store(1, SeqCst);
                    break;
                }
                let mut rng = Rng::derive(seed, p.id, i);
                let plan = crate::props::generate(p, &mut w, &mut rng, i);
                let (r, v) = run_one(&mut w, p, &plan);
                account(&mut w, &plan, &r);
                if i % 97 == 5 {
                    // determinism: the same seed again must do exactly the same
                    let (r2, _) = run_one(&mut w, p, &plan);
                    w.st().rechecked += 1;
                    if run_log(&r) != run_log(&r2) && r.end != End::Hang {
                        w.st().mismatched += 1;
                        if std::env::var_os("SIM_DEBUG").is_some() {
                            eprintln!("run {} differs\n{}", i, to_text(p.id, &plan, &w.cat));
                            for r in [&r, &r2] {
                                eprintln!("{:?} trace {:x} switches {} text {:?} aux {:?}", r.end, r.trace, r.switches, r.text, r.aux);
                                for s in &r.slots {
                                    eprintln!("  {:x} {} {} {} {} {} {}", s.out.hash(), s.status, s.panic, s.steps, s.tsteps, s.fired, s.storm_hits);
                                }
                            }
                        }
                    }
                }
                if let Some(v) = v {
                    if known.has(p.id, &v) {
                        w.st().known += 1;
                        if seen_known.insert(v.class.clone()) {
                            let s = format!("{}\n", v.class);
                            unsafe { libc::write(pipes[wi][1], s.as_ptr() as *const _, s.len()) };
                        }
                    } else {
                        stop.fetch_min(i, SeqCst);
                        break;
                    }
                }
                i += nw as u64;
            }
            let s = w.st();
            s.oracle += w.oracle.runs;
            for h in w.set.iter() {
                if (s.nset as usize) < SETCAP {
                    s.set[s.nset as usize] = *h;
                    s.nset += 1;
                }
            }
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    let mut bad = false;
    for p in &pids {
        unsafe {
            let mut s = 0;
            libc::waitpid(*p, &mut s, 0);
            if !(libc::WIFEXITED(s) && libc::WEXITSTATUS(s) == 0) {
                bad = true;
            }
        }
    }
    if bad {
        eprintln!("a worker died");
        return 2;
    }
    let found = stop.load(SeqCst);
    if found == u64::MAX {
        break;
    }
    if unsafe { SHM.is_null() } {
        alloc_shm();
    }
    let mut scratch: Box<Stats> = unsafe { Box::from_raw(std::alloc::alloc_zeroed(std::alloc::Layout::new::<Stats>()) as *mut Stats) };
    let mut w = world_ctx(seed, thorough, &mut *scratch, lens.clone());
    let mut rng = Rng::derive(seed, p.id, found);
    let plan = crate::props::generate(p, &mut w, &mut rng, found);
    let (path, text, ok) = report(&mut w, p, &plan, found);
    if ok {
        rep = Some((path, text));
        break;
    }
    println!("run {} failed once and not again; not counted", found);
    unrepeated += 1;
    start = found + 1;
    if unrepeated >= 4 || start >= runs {
        break;
    }
    }
    let mut known_seen: Vec<String> = vec![];
    for f in &pipes {
        unsafe {
            libc::close(f[1]);
            let mut b = vec![0u8; 65536];
            loop {
                let n = libc::read(f[0], b.as_mut_ptr() as *mut _, b.len());
                if n <= 0 {
                    break;
                }
                known_seen.extend(String::from_utf8_lossy(&b[..n as usize]).lines().map(|x| x.to_string()));
            }
            libc::close(f[0]);
        }
    }
    known_seen.sort();
    known_seen.dedup();
    let _ = knownct;
    for k in &known_seen {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    // ------------------------------------------------------------- totals
    let mut tot: Box<Stats> = unsafe {
        let l = std::alloc::Layout::new::<Stats>();
        Box::from_raw(std::alloc::alloc_zeroed(l) as *mut Stats)
    };
    let mut all: HashSet<u64> = HashSet::new();
    for wi in 0..nw {
        let s = unsafe { &*(mem.add(sz * wi) as *const Stats) };
        macro_rules! add { ($($f:ident),*) => { $(tot.$f += s.$f;)* } }
        add!(runs, calls, elem_steps, tf_steps, storm_hits, switches, freed, panics_lib, panics_injected, panics_trap, skipped, nontrivial, oracle, compared, known, rechecked, mismatched, reps);
        for i in 0..EVNAMES.len() {
            tot.fired[i] += s.fired[i];
        }
        for i in 0..16 {
            tot.val_fired[i] += s.val_fired[i];
        }
        for i in 0..32 {
            tot.extra[i] += s.extra[i];
            tot.ops[i] |= s.ops[i];
        }
        for k in 0..s.nset as usize {
            all.insert(s.set[k]);
        }
    }
    if let Some((path, text)) = rep {
        println!("{}", text);
        println!("VIOLATION property={} replay={}", p.id, path);
        vtext = text;
        code = 1;
    }
    if code == 0 {
        if let Some(f) = p.extern_check {
            if let Err(e) = f(&cat, seed, thorough, &mut tot) {
                let path = save(p.id, seed, &format!("property {}\n# {}\nextern 1\n", p.id, e));
                println!("{}", e);
                println!("VIOLATION property={} replay={}", p.id, path);
                vtext = e;
                code = 1;
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(p, seed, thorough, &tot, all.len(), wall, t_measure, code, truncated.load(SeqCst) != 0, &vtext, &cat, lens);
    println!(
        "{} {} runs, {} calls, {} distinct, {:.1}s{}",
        p.id,
        tot.runs,
        tot.calls,
        all.len(),
        wall,
        if tot.mismatched > 0 { format!(", {} runs not repeatable", tot.mismatched) } else { String::new() }
    );
    code
}

fn save(id: &str, seed: u64, text: &str) -> String {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{}-{}-{:08x}.txt", id, seed, hash_bytes(text.as_bytes()) as u32));
    let _ = std::fs::write(&f, text);
    f.to_string_lossy().into_owned()
}

fn report(w: &mut W, p: &Prop, plan: &Plan, idx: u64) -> (String, String, bool) {
    let first = run_one(w, p, plan).1;
    let Some(v) = first else {
        // once more, then give up
        for _ in 0..3 {
            if let Some(v) = run_one(w, p, plan).1 {
                return finish(w, p, plan, v, idx);
            }
        }
        return (String::new(), String::new(), false);
    };
    finish(w, p, plan, v, idx)
}
fn finish(w: &mut W, p: &Prop, plan: &Plan, v: Viol, idx: u64) -> (String, String, bool) {
    let hang = v.class.contains("hang");
    if hang {
        // a run that did not end is confirmed with four times the time before it is believed
        HANG_S.store(32, SeqCst);
        let again = run_one(w, p, plan).1;
        HANG_S.store(8, SeqCst);
        if again.map(|x| x.class) != Some(v.class.clone()) {
            return (String::new(), String::new(), false);
        }
        HANG_S.store(3, SeqCst);
    }
    let (min, v, tried) = shrink(w, p, plan.clone(), v, if hang { 25 } else { 600 });
    HANG_S.store(8, SeqCst);
    let text = format!(
        "# {} seed {} run {}: {}\n# minimised with {} attempts; replay with: target/release/sim replay <this file>\n# class {}\n{}",
        p.id, w.seed, idx, v.text.replace('\n', "\n# "), tried, v.class, to_text(p.id, &min, &w.cat)
    );
    let path = save(p.id, w.seed, &text);
    (path, format!("seed {} run {}: {}", w.seed, idx, v.text), true)
}

fn drop_call(p: &Plan, i: usize) -> Plan {
    // remove a call everywhere; nested calls only reachable from it go too
    let mut q = p.clone();
    for t in q.tasks.iter_mut() {
        t.retain(|&x| x != i);
    }
    for c in q.calls.iter_mut() {
        c.evs.retain(|e| e.k.inner() != Some(i));
    }
    compact(q)
}
fn compact(mut q: Plan) -> Plan {
    // drop unreachable calls and renumber
    let mut keep = vec![false; q.calls.len()];
    let mut todo: Vec<usize> = q.tasks.iter().flatten().copied().collect();
    while let Some(i) = todo.pop() {
        if i < keep.len() && !keep[i] {
            keep[i] = true;
            for e in &q.calls[i].evs {
                todo.extend(e.k.inner());
            }
        }
    }
    let mut map = vec![0usize; q.calls.len()];
    let mut n = 0;
    for i in 0..q.calls.len() {
        if keep[i] {
            map[i] = n;
            n += 1;
        }
    }
    let calls = std::mem::take(&mut q.calls);
    for (i, mut c) in calls.into_iter().enumerate() {
        if keep[i] {
            for e in c.evs.iter_mut() {
                if let Some(x) = e.k.inner() {
                    e.k = e.k.with_inner(map[x]);
                }
            }
            q.calls.push(c);
        }
    }
    for t in q.tasks.iter_mut() {
        for x in t.iter_mut() {
            *x = map[*x];
        }
    }
    q
}
fn drop_task(p: &Plan, t: usize) -> Plan {
    let mut q = p.clone();
    if p.guard == Guard::Life {
        // the position of a task is its stage
        q.tasks[t].clear();
        return compact(q);
    }
    q.tasks.remove(t);
    for c in q.calls.iter_mut() {
        c.evs.retain(|e| !matches!(e.k, EvK::Switch(x) if x as usize == t));
        for e in c.evs.iter_mut() {
            if let EvK::Switch(x) = e.k {
                if x as usize > t {
                    e.k = EvK::Switch(x - 1);
                }
            }
        }
    }
    compact(q)
}

fn shrink(w: &mut W, p: &Prop, mut best: Plan, mut v: Viol, max: usize) -> (Plan, Viol, usize) {
    let t0 = Instant::now();
    let mut tried = 0;
    loop {
        let mut progress = false;
        let mut cands: Vec<Plan> = vec![];
        if best.tasks.len() > 1 {
            for t in 0..best.tasks.len() {
                cands.push(drop_task(&best, t));
            }
        }
        let n = best.calls.len();
        if n > 4 {
            // drop halves and quarters of the top-level calls first
            for parts in [2usize, 4] {
                for k in 0..parts {
                    let mut q = best.clone();
                    for t in q.tasks.iter_mut() {
                        let (lo, hi) = (t.len() * k / parts, t.len() * (k + 1) / parts);
                        let mut j = 0;
                        t.retain(|_| {
                            j += 1;
                            !(j - 1 >= lo && j - 1 < hi)
                        });
                    }
                    cands.push(compact(q));
                }
            }
        }
        for i in 0..n {
            if n > 1 {
                cands.push(drop_call(&best, i));
            }
        }
        for i in 0..n {
            for e in 0..best.calls[i].evs.len() {
                let mut q = best.clone();
                q.calls[i].evs.remove(e);
                cands.push(compact(q));
            }
        }
        let nr = best.rows.len();
        let mut step = nr / 2;
        while step >= 1 {
            let mut i = 0;
            while i < nr {
                let mut q = best.clone();
                q.rows.drain(i..(i + step).min(nr));
                if !q.rows.is_empty() {
                    cands.push(q);
                }
                i += step;
            }
            step /= 2;
        }
        for i in 0..n {
            let c = &best.calls[i];
            if c.reps > 1 {
                for r in [1, 2, c.reps / 2, c.reps - 1] {
                    if r < c.reps && r > 0 {
                        let mut q = best.clone();
                        q.calls[i].reps = r;
                        cands.push(q);
                    }
                }
            }
            for a in [(0u32, 1u8, 0u8), (0, 0, 0), (c.arg.seed, c.arg.prof, 0), (c.arg.seed, 0, c.arg.var)] {
                let na = crate::args::Arg { seed: a.0, prof: a.1, var: a.2 };
                let rank = |x: crate::args::Arg| (x.var != 0) as u32 * 4 + (x.prof > 1) as u32 * 2 + (x.seed != 0) as u32;
                if rank(na) < rank(c.arg) {
                    let mut q = best.clone();
                    q.calls[i].arg = na;
                    cands.push(q);
                }
            }
            for e in 0..c.evs.len() {
                let at = c.evs[e].at;
                for na in [1, at / 2, at - at / 8, at.saturating_sub(1)] {
                    if na < at && na >= 1 {
                        let mut q = best.clone();
                        q.calls[i].evs[e].at = na;
                        cands.push(q);
                    }
                }
            }
        }
        for i in 0..nr {
            for f in 0..8 {
                let x = best.rows[i][f];
                for nx in [0, x / 2] {
                    if nx != x {
                        let mut q = best.clone();
                        q.rows[i][f] = nx;
                        cands.push(q);
                    }
                }
            }
        }
        for c in cands {
            if tried >= max || t0.elapsed().as_secs() > 60 {
                return (best, v, tried);
            }
            if c.rows.is_empty() && c.calls.is_empty() || c == best {
                continue;
            }
            tried += 1;
            if let (_, Some(nv)) = run_one(w, p, &c) {
                if nv.class == v.class {
                    best = c;
                    v = nv;
                    progress = true;
                    break;
                }
            }
        }
        if !progress {
            return (best, v, tried);
        }
    }
}

pub fn replay(path: &str) -> i32 {
    install_hook();
    alloc_shm();
    let cat = catalogue();
    let Ok(t) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path);
        return 2;
    };
    let Some((id, plan)) = from_text(&t, &cat) else {
        eprintln!("cannot parse {}", path);
        return 2;
    };
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        return 2;
    };
    if p.id == "C21" && !crate::confs::build() {
        return 2;
    }
    let mut st: Box<Stats> = unsafe { Box::from_raw(std::alloc::alloc_zeroed(std::alloc::Layout::new::<Stats>()) as *mut Stats) };
    if t.lines().any(|l| l == "extern 1") {
        if let Some(f) = p.extern_check {
            return match f(&cat, 1, false, &mut st) {
                Err(e) => {
                    println!("{}\nVIOLATION property={} replay={}", e, id, path);
                    1
                }
                Ok(_) => 0,
            };
        }
    }
    let mut w = world_ctx(1, false, &mut *st, vec![]);
    let (r, v) = run_one(&mut w, &p, &plan);
    if std::env::var_os("SIM_DEBUG").is_some() {
        println!("{:?} trace {:x} switches {} freed {}", r.end, r.trace, r.switches, r.freed);
    }
    match v {
        Some(v) => {
            println!("{}\nclass {}\nVIOLATION property={} replay={}", v.text, v.class, id, path);
            1
        }
        None => {
            println!("{} holds on {}", id, path);
            0
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &Prop, seed: u64, thorough: bool, t: &Stats, distinct: usize, wall: f64, tm: f64, code: i32, trunc: bool, vtext: &str, cat: &[Op], lens: Vec<[Len; 5]>) {
    let mut samples = vec![];
    {
        let mut st: Box<Stats> = unsafe { Box::from_raw(std::alloc::alloc_zeroed(std::alloc::Layout::new::<Stats>()) as *mut Stats) };
        if unsafe { SHM.is_null() } {
            alloc_shm();
        }
        let mut w = world_ctx(seed, thorough, &mut *st, lens);
        for i in [0u64, 1, 2] {
            if i < t.runs {
                let mut rng = Rng::derive(seed, p.id, i);
                let plan = crate::props::generate(p, &mut w, &mut rng, i);
                let s = to_text(p.id, &plan, &w.cat);
                let s: String = s.lines().filter(|l| l.starts_with("call") || l.starts_with("task") || l.starts_with("row") || l.starts_with("mode") || l.starts_with("fds")).take(24).collect::<Vec<_>>().join("\n");
                samples.push(format!("{{\"run\":{},\"plan\":{}}}", i, js(&s)));
            }
        }
    }
    let mut faults = vec![];
    for i in 0..EVNAMES.len() {
        if t.fired[i] > 0 {
            faults.push(format!("{}:{}", js(EVNAMES[i]), t.fired[i]));
        }
    }
    let vn = ["nan", "inf", "neg_inf", "zero", "neg_zero", "huge", "tiny", "negated", "one"];
    for (i, n) in vn.iter().enumerate() {
        if t.val_fired[i] > 0 {
            faults.push(format!("{}:{}", js(&format!("value_{}", n)), t.val_fired[i]));
        }
    }
    if t.storm_hits > 0 {
        faults.push(format!("\"values_corrupted_in_storms\":{}", t.storm_hits));
    }
    for (i, n) in p.extra.iter().enumerate() {
        faults.push(format!("{}:{}", js(n), t.extra[i + 1]));
    }
    let nops: u32 = t.ops.iter().map(|x| x.count_ones()).sum();
    let hours = wall / 3600.0;
    let s = format!(
        "{{\n \"property\":{},\n \"tier\":{},\n \"seed\":{},\n \"level\":\"exploration\",\n \"coverage\":{{\n  \"evaluations\":{},\n  \"distinct_nontrivial\":{},\n  \"rule\":{},\n  \"samples\":[{}],\n  \"simulated_runs\":{},\n  \"runs_per_hour\":{},\n  \"seeds_per_hour\":{},\n  \"library_calls_completed\":{},\n  \"results_compared\":{},\n  \"simulated_time\":{{\"unit\":\"steps; the library has no clock\",\"element_steps\":{},\"machine_instructions\":{}}},\n  \"faults_fired\":{{{}}},\n  \"task_switches_taken\":{},\n  \"nontrivial_runs\":{},\n  \"distinct_measure\":\"hash of (calls, operands, events that fired, order and position of every switch/nest/stall)\",\n  \"operations_exercised\":{},\n  \"operations_in_catalogue\":{},\n  \"fresh_process_reference_runs\":{},\n  \"panics\":{{\"raised_by_simulated_caller_code\":{},\"integer_traps\":{},\"raised_by_library\":{}}},\n  \"runs_skipped\":{},\n  \"runs_repeated_for_determinism\":{},\n  \"runs_that_did_not_repeat\":{},\n  \"known_findings_met\":{},\n  \"truncated_by_wall_cap\":{},\n  \"components\":{{\"real\":\"all of static-math and num, real OS threads, real process standard streams, real allocator\",\"simulated\":{}}}\n }},\n \"assumptions\":[{}],\n \"wall_s\":{:.2},\n \"measure_s\":{:.2},\n \"violations\":{}{}\n}}\n",
        js(p.id),
        js(if thorough { "thorough" } else { "quick" }),
        seed,
        t.runs,
        distinct,
        js(p.rule),
        samples.join(","),
        t.runs,
        (t.runs as f64 / hours) as u64,
        (t.runs as f64 / hours) as u64,
        t.calls,
        t.compared,
        t.elem_steps,
        t.tf_steps,
        faults.join(","),
        t.switches,
        t.nontrivial,
        nops,
        cat.len(),
        t.oracle,
        t.panics_injected,
        t.panics_trap,
        t.panics_lib,
        t.skipped,
        t.rechecked,
        t.mismatched,
        t.known,
        trunc,
        js(p.stub),
        p.assume.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
        wall,
        tm,
        (code == 1) as u32,
        if vtext.is_empty() { String::new() } else { format!(",\n \"violation\":{}", js(vtext)) }
    );
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{}.json", p.id)), s).is_err() {
        eprintln!("cannot write evidence");
    }
}
