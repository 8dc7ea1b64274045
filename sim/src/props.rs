//! One entry per property: how runs are generated and how they are judged.
use crate::args::{raw, Arg, Raw, NEAR, NVAR};
use crate::check::*;
use crate::elem::{Ty, V_NAN, V_NUM};
use crate::engine::*;
use crate::ops::{Op, Out};
use crate::plan::*;
use crate::rng::Rng;
use crate::scen;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub needs_len: bool,
    pub gen: fn(&mut W, &mut Rng, u64) -> Plan,
    pub judge: fn(&mut W, &Plan, &Ran) -> Option<Viol>,
    pub scen: Option<Scenario>,
    pub extern_check: Option<fn(&[Op], u64, bool, &mut Stats) -> Result<(), String>>,
    pub rule: &'static str,
    pub stub: &'static str,
    pub assume: &'static [&'static str],
    pub extra: &'static [&'static str],
}

// ---------------------------------------------------------------- helpers --
fn seed(r: &mut Rng) -> u32 {
    r.below(4000) as u32
}
/// checks that compare a call with itself: there the comparisons of the simulated
/// number type may take any (consistent) outcome, so that branches guarded by
/// rarely met conditions are taken too
const WILDLY: [&str; 12] = ["C01", "C02", "C03", "C06", "C07", "C13", "C15", "C16", "C17", "C19", "C20", "C21"];
pub fn generate(prop: &Prop, w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let mut p = (prop.gen)(w, r, idx);
    if WILDLY.contains(&prop.id) && r.chance(1, 3) {
        for k in 0..p.calls.len() {
            let mut c = p.calls[k].clone();
            if c.ty != Ty::SF || c.arg == MEAS {
                continue;
            }
            c.arg.seed |= crate::args::WILD;
            if !quiet(w, &c, p.limit) {
                p.calls[k] = c;
            }
        }
    }
    p
}
/// operands: mostly ordinary, sometimes degenerate or extreme
fn arg(r: &mut Rng) -> Arg {
    let prof = *r.pick(&[0u8, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 14, 14, 14, 15]);
    let var = if r.chance(1, 3) { r.below(NVAR as u64) as u8 } else { 0 };
    Arg { seed: seed(r), prof, var }
}
/// a few operand sets that collide with each other
fn pool(r: &mut Rng, n: usize) -> Vec<Arg> {
    let a = if r.chance(1, 3) { MEAS } else { arg(r) };
    let mut v = vec![a];
    while v.len() < n {
        let b = if r.chance(2, 3) {
            Arg { var: (a.var + 1 + r.below(NVAR as u64 - 1) as u8) % NVAR, ..a }
        } else {
            arg(r)
        };
        v.push(b);
    }
    v
}
fn one(op: usize, ty: Ty, arg: Arg) -> Call {
    Call { op, ty, arg, reps: 1, evs: vec![] }
}
fn focus(list: &[(usize, Ty)], seed: u64, k: u64) -> (usize, Ty) {
    list[((k + seed.wrapping_mul(7919)) % list.len() as u64) as usize]
}
/// half of the runs go to calls that touch shared memory, if there are any
fn hot_focus(w: &W, r: &mut Rng, mode: Mode, f: (usize, Ty)) -> (usize, Ty) {
    let l = if mode == Mode::Tf { &w.hot_tf } else { &w.hot_elem };
    if !l.is_empty() && r.chance(1, 2) {
        *r.pick(l)
    } else {
        f
    }
}
fn hot_pool(w: &W, r: &mut Rng, f: (usize, Ty), n: usize) -> Vec<Arg> {
    let mut v = pool(r, n);
    if let Some(a) = w.lens.get(f.0).and_then(|l| l.iter().find_map(|x| x.hot_arg)) {
        if r.chance(1, 2) {
            v[0] = a;
            for b in v.iter_mut().skip(1) {
                if r.chance(1, 2) {
                    *b = Arg { var: r.below(NVAR as u64) as u8, ..a };
                }
            }
        }
    }
    v
}
/// a partner for the focus operation
fn partner(w: &W, r: &mut Rng, mode: Mode, f: (usize, Ty)) -> (usize, Ty) {
    let list = if mode == Mode::Tf { &w.pairs_tf } else { &w.pairs_elem };
    match r.below(20) {
        0..=9 => f,
        10..=12 => {
            // the same operation at another type
            let c: Vec<_> = list.iter().filter(|x| x.0 == f.0).collect();
            if c.is_empty() {
                f
            } else {
                **r.pick(&c)
            }
        }
        13..=16 => {
            let fam = w.family(f.0);
            let c: Vec<_> = list.iter().filter(|x| w.family(x.0) == fam).collect();
            if c.is_empty() {
                f
            } else {
                **r.pick(&c)
            }
        }
        _ => *r.pick(list),
    }
}
/// a step inside the call at which something happens
fn place(w: &W, r: &mut Rng, c: &Call, mode: Mode) -> u64 {
    let l = w.len(c.op, c.ty, mode).max(1);
    if mode == Mode::Tf {
        let hot = &w.lens[c.op][c.ty as usize].hot;
        if !hot.is_empty() && r.chance(3, 4) {
            return *r.pick(hot) as u64 + r.below(7);
        }
    }
    1 + r.below(l)
}
fn spread(w: &W, r: &mut Rng, c: &Call, mode: Mode, n: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..n).map(|_| place(w, r, c, mode)).collect();
    v.sort();
    v
}
/// calls that panic (or do not end) when made alone take no events
fn quiet(w: &mut W, c: &Call, limit: i64) -> bool {
    let a = w.oracle.get(&w.cat, c.op, c.ty, c.arg, limit);
    !a.ok || a.panic != 0
}
fn show(o: &Out) -> String {
    let v: Vec<String> = o.w[..(o.n as usize).min(12)].iter().map(|x| format!("{:x}", x)).collect();
    format!("{}[{}{}]", ["value ", "none ", "err ", "panic "][o.tag as usize & 3], v.join(" "), if o.n > 12 { " .." } else { "" })
}
fn faulty(c: &Call, s: &Slot) -> bool {
    c.evs.iter().enumerate().any(|(i, e)| {
        s.fired & (1 << i) != 0 && matches!(e.k, EvK::Panic | EvK::Unwind(_) | EvK::Val(_) | EvK::Cmp(_) | EvK::Err | EvK::Storm(..))
    })
}
fn running(w: &W, p: &Plan, r: &Ran) -> String {
    let v: Vec<String> = p
        .calls
        .iter()
        .zip(&r.slots)
        .filter(|(c, s)| s.status == ST_RUNNING && !c.evs.iter().enumerate().any(|(i, e)| s.fired & (1 << i) != 0 && e.k == EvK::Stall))
        .map(|(c, _)| w.call_str(c))
        .collect();
    v.join(", ")
}
fn ended(w: &W, p: &Plan, r: &Ran) -> Option<Viol> {
    match r.end {
        End::Exit(0) => None,
        End::Exit(c) => viol(format!("exit{}", c), format!("the run ended with exit code {}: {}", c, String::from_utf8_lossy(&r.io))),
        End::Signal(s) => viol(format!("signal{}", s), format!("the process died from signal {} inside {}", s, running(w, p, r))),
        End::Hang => viol("hang", format!("never completed: {}", running(w, p, r))),
    }
}
/// every completed call without an injected fault equals the call made alone
fn same_as_alone(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    for (i, (c, s)) in p.calls.iter().zip(&r.slots).enumerate() {
        if s.status != ST_DONE && s.status != ST_PANIC {
            continue;
        }
        if faulty(c, s) {
            continue;
        }
        let a = w.oracle.get(&w.cat, c.op, c.ty, c.arg, p.limit);
        if !a.ok {
            w.st().skipped += 1;
            continue;
        }
        w.st().compared += s.reps as u64;
        let n = w.cat[c.op].name;
        if s.out != a.out {
            let m = if s.panic == PK_LIB { format!(" ({})", cstr(&s.msg)) } else { String::new() };
            return viol(format!("result:{}", n), format!("call {} {} returned {}{} but alone returns {}", i, w.call_str(c), show(&s.out), m, show(&a.out)));
        }
        if s.diff_at != 0 {
            return viol(
                format!("repeat:{}", n),
                format!("call {} {} repetition {} returned {} but the first returned {}", i, w.call_str(c), s.diff_at, show(&s.out2), show(&s.out)),
            );
        }
    }
    None
}
fn judge_same(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    // results first: a wrong result says more than the crash that follows it
    same_as_alone(w, p, r).or_else(|| ended(w, p, r))
}

// -------------------------------------------------------------------- C01 --
fn gen_c01(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let mode = if idx % 5 < 3 { Mode::Tf } else { Mode::Elem };
    let f = focus(if mode == Mode::Tf { &w.pairs_tf } else { &w.pairs_elem }, w.seed, idx / 5 * if mode == Mode::Tf { 3 } else { 2 } + idx % 5 % 3);
    let f = hot_focus(w, r, mode, f);
    let mut p = Plan::new();
    p.mode = mode;
    p.free_ms = 1500;
    let nt = if r.chance(3, 4) { 2 } else { 3 };
    let args = hot_pool(w, r, f, 3);
    let same = r.chance(1, 2);
    for t in 0..nt {
        let mut task = vec![];
        let nc = 1 + r.us(3);
        for k in 0..nc {
            let (op, ty) = if same || (t == 0 && k == 0) { f } else { partner(w, r, mode, f) };
            let a = if r.chance(5, 6) { *r.pick(&args) } else { arg(r) };
            let mut c = one(op, ty, a);
            if !quiet(w, &c, p.limit) && (t == 0 || r.chance(1, 2)) {
                let ne = 1 + r.below(if t == 0 { 4 } else { 2 });
                for at in spread(w, r, &c, mode, ne) {
                    let to = (t + 1 + r.us(nt - 1)) % nt;
                    c.evs.push(Ev { at, k: EvK::Switch(to as u8) });
                }
            }
            task.push(p.calls.len());
            p.calls.push(c);
        }
        p.tasks.push(task);
    }
    p
}

// -------------------------------------------------------------------- C02 --
fn soak_reps(w: &W, f: (usize, Ty)) -> u32 {
    let l = w.len(f.0, f.1, Mode::Tf).max(40);
    let cap = if w.thorough { 1_200_000 } else { 70_000 };
    (if w.thorough { 4_000_000_000 } else { 250_000_000 } / (l + 300)).min(cap) as u32
}
fn gen_c02(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let mut p = Plan::new();
    let n_tf = w.pairs_tf.len() as u64;
    if idx < n_tf {
        // the same call very many times, then another one
        let f = w.pairs_tf[idx as usize];
        let a = pool(r, 2);
        let mut c = one(f.0, f.1, a[0]);
        if !quiet(w, &c, p.limit) {
            c.reps = soak_reps(w, f);
        }
        p.calls.push(c);
        p.calls.push(one(f.0, f.1, a[1]));
        p.tasks.push(vec![0, 1]);
        return p;
    }
    let f = focus(&w.pairs_all, w.seed, idx);
    let hm = if r.chance(1, 2) { Mode::Tf } else { Mode::Elem };
    let f = hot_focus(w, r, hm, f);
    let args = hot_pool(w, r, f, 3);
    let top = if r.chance(1, 8) { 40 } else { 8 };
    let n = 3 + r.us(top);
    let nt = if r.chance(1, 4) { 2 } else { 1 };
    for _ in 0..nt {
        p.tasks.push(vec![]);
    }
    for k in 0..n {
        let (op, ty) = match r.below(10) {
            0..=4 => f,
            5..=6 => {
                let c: Vec<_> = w.pairs_all.iter().filter(|x| x.0 == f.0).collect();
                **r.pick(&c)
            }
            7..=8 => {
                let fam = w.family(f.0);
                let c: Vec<_> = w.pairs_all.iter().filter(|x| w.family(x.0) == fam).collect();
                **r.pick(&c)
            }
            _ => *r.pick(&w.pairs_all),
        };
        let a = if r.chance(4, 5) { *r.pick(&args) } else { arg(r) };
        let mut c = one(op, ty, a);
        if !quiet(w, &c, p.limit) && k + 1 < n {
            let l = w.oracle.get(&w.cat, op, ty, a, p.limit).steps;
            if l > 0 && r.chance(2, 5) {
                c.evs.push(Ev { at: 1 + r.below(l), k: EvK::Panic });
            } else if l > 0 && w.cat[op].is_text() && r.chance(1, 2) {
                c.evs.push(Ev { at: 1 + r.below(l), k: EvK::Err });
            } else if ty == Ty::SF && l > 0 && r.chance(1, 4) {
                // a value the arithmetic got wrong, in an earlier call
                c.evs.push(Ev { at: 1 + r.below(l), k: EvK::Val(r.below(V_NUM as u64) as u8) });
            } else if r.chance(1, 10) {
                c.reps = 1 + r.below(40) as u32;
            }
        }
        let t = if k * nt / n < nt { k * nt / n } else { 0 };
        p.tasks[t].push(p.calls.len());
        p.calls.push(c);
    }
    p.tasks.retain(|t| !t.is_empty());
    p.budget = 20_000_000;
    p
}

// -------------------------------------------------------------------- C03 --
fn gen_c03(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let mode = if idx % 5 < 3 { Mode::Tf } else { Mode::Elem };
    let f = focus(if mode == Mode::Tf { &w.pairs_tf } else { &w.pairs_elem }, w.seed, idx / 5 * if mode == Mode::Tf { 3 } else { 2 } + idx % 5 % 3);
    let f = hot_focus(w, r, mode, f);
    let mut p = Plan::new();
    p.mode = mode;
    let args = hot_pool(w, r, f, 2);
    let stalled = if r.chance(4, 5) { 1 } else { 2 };
    for t in 0..stalled + 1 + r.us(2).min(4 - stalled - 1) {
        let mut task = vec![];
        let last = t >= stalled;
        let nc = 1 + r.us(2);
        for k in 0..nc {
            let (op, ty) = if k + 1 == nc && r.chance(4, 5) { f } else { partner(w, r, mode, f) };
            let mut c = one(op, ty, *r.pick(&args));
            if !last && k + 1 == nc && !quiet(w, &c, p.limit) {
                c.evs.push(Ev { at: place(w, r, &c, mode), k: EvK::Stall });
            }
            task.push(p.calls.len());
            p.calls.push(c);
        }
        p.tasks.push(task);
    }
    p
}
fn judge_c03(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    if r.end == End::Hang {
        let n = p.calls.iter().zip(&r.slots).find(|(_, s)| s.status == ST_RUNNING).map(|(c, _)| w.cat[c.op].name).unwrap_or("?");
        let _ = n;
        return viol("hang", format!("blocked behind a stalled caller: {}", running(w, p, r)));
    }
    judge_same(w, p, r)
}

// -------------------------------------------------------------------- C13 --
fn gen_c13(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let mode = if idx % 5 < 3 { Mode::Tf } else { Mode::Elem };
    let f = focus(if mode == Mode::Tf { &w.pairs_tf } else { &w.pairs_elem }, w.seed, idx / 5 * if mode == Mode::Tf { 3 } else { 2 } + idx % 5 % 3);
    let f = hot_focus(w, r, mode, f);
    let mut p = Plan::new();
    p.mode = mode;
    p.threads = false;
    let args = hot_pool(w, r, f, 3);
    fn build(w: &mut W, r: &mut Rng, p: &mut Plan, mode: Mode, f: (usize, Ty), args: &[Arg], depth: u32) -> usize {
        let (op, ty) = if depth == 0 { f } else { partner(w, r, mode, f) };
        let mut c = one(op, ty, *r.pick(args));
        let i = p.calls.len();
        p.calls.push(c.clone());
        if depth < 3 && p.calls.len() < 12 && !quiet(w, &c, p.limit) && (depth == 0 || r.chance(1, 3)) {
            let n = 1 + r.below(if depth == 0 { 3 } else { 1 });
            for at in spread(w, r, &c, mode, n) {
                let j = build(w, r, p, mode, f, args, depth + 1);
                c.evs.push(Ev { at, k: EvK::Nest(j as u16) });
            }
        }
        p.calls[i] = c;
        i
    }
    let mut task = vec![];
    for _ in 0..1 + r.us(2) {
        task.push(build(w, r, &mut p, mode, f, &args, 0));
    }
    p.tasks.push(task);
    p
}

// -------------------------------------------------------------------- C04 --
fn wild(r: &mut Rng) -> Arg {
    let prof = *r.pick(&[4u8, 4, 4, 5, 5, 5, 8, 8, 3, 2, 6, 0, 14, 15, 15, 15]);
    let var = if r.chance(1, 3) { r.below(NVAR as u64) as u8 } else { 0 };
    Arg { seed: seed(r), prof, var }
}
fn storms(r: &mut Rng, c: &mut Call, l: u64) {
    let l = l.max(1);
    match r.below(8) {
        0..=2 => {
            for _ in 0..1 + r.below(3) {
                c.evs.push(Ev { at: 1 + r.below(l), k: EvK::Val(r.below(V_NUM as u64) as u8) });
            }
        }
        3..=4 => {
            for _ in 0..1 + r.below(3) {
                c.evs.push(Ev { at: 1 + r.below(l), k: EvK::Cmp(r.below(3) as u8) });
            }
            if r.chance(1, 2) {
                c.evs.push(Ev { at: 1 + r.below(l), k: EvK::Val(r.below(V_NUM as u64) as u8) });
            }
        }
        5..=6 => c.evs.push(Ev { at: 1 + r.below(l), k: EvK::Storm(r.next() as u32, *r.pick(&[1u16, 2, 3, 8, 30])) }),
        _ => {}
    }
}
const C04_STEP_FIX: u64 = 4_000;
const C04_INSN_FIX: u64 = 60_000;
fn gen_c04(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let f = focus(&w.pairs_all, w.seed, idx);
    let mut p = Plan::new();
    p.threads = false;
    p.budget = 2_000_000;
    // concrete types: count machine instructions on part of the runs
    let step = !f.1.is_sim() && !w.cat[f.0].is_text() && r.chance(1, 2);
    if step {
        p.guard = Guard::Step;
    }
    let n = if step { 3 } else { 24 };
    let mut task = vec![];
    for _ in 0..n {
        let mut c = one(f.0, f.1, wild(r));
        if f.1.is_sim() {
            let l = w.len(f.0, f.1, Mode::Elem);
            storms(r, &mut c, l);
        }
        task.push(p.calls.len());
        p.calls.push(c);
    }
    if f.1 == Ty::SI {
        p.limit = *r.pick(&[i64::MAX, 1 << 40, 1 << 20, 100]);
    }
    p.tasks.push(task);
    p
}
fn judge_c04(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    if r.end == End::Hang {
        return viol("hang", format!("never ends: {}", running(w, p, r)));
    }
    if let Some(v) = ended(w, p, r) {
        return Some(v);
    }
    for (c, s) in p.calls.iter().zip(&r.slots) {
        let n = w.cat[c.op].name;
        w.st().compared += 1;
        let (el, tf) = {
            let l = &w.lens.get(c.op).map(|l| l[c.ty as usize].clone()).unwrap_or_default();
            (l.el, l.tf)
        };
        // on replay the lengths are measured on the spot
        let (el, tf) = if w.lens.iter().all(|l| l.iter().all(|x| x.el == 0 && x.tf == 0)) {
            (w.oracle.get(&w.cat, c.op, c.ty, MEAS, 1 << 62).steps, tf_length(&w.cat, c.op, c.ty, MEAS).0)
        } else {
            (el, tf)
        };
        if s.panic == PK_BUDGET || s.steps > el * 8 + C04_STEP_FIX {
            return viol(format!("steps:{}", n), format!("{} took {} element operations; an ordinary call takes {}", w.call_str(c), s.steps, el));
        }
        if p.guard == Guard::Step && tf > 0 && s.tsteps > tf * 8 + C04_INSN_FIX {
            return viol(format!("instructions:{}", n), format!("{} took {} machine instructions; an ordinary call takes {}", w.call_str(c), s.tsteps, tf));
        }
    }
    None
}

// -------------------------------------------------------------------- C06 --
fn batch(w: &mut W, r: &mut Rng, idx: u64, n: usize, list_all: bool) -> Plan {
    let mut p = Plan::new();
    p.threads = false;
    let mut task = vec![];
    let f = if list_all { focus(&w.pairs_all, w.seed, idx) } else { focus(&w.pairs_tf, w.seed, idx) };
    for k in 0..n {
        let (op, ty) = if k % 2 == 0 { f } else { focus(&w.pairs_all, w.seed, idx.wrapping_mul(31) + k as u64 * 17) };
        let c = one(op, ty, arg(r));
        if quiet(w, &c, p.limit) {
            continue;
        }
        task.push(p.calls.len());
        p.calls.push(c);
    }
    p.tasks.push(task);
    p
}
fn gen_c06(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let mut p = batch(w, r, idx / 4, 12, true);
    p.fds = [Fds::Pipe, Fds::Full, Fds::Closed, Fds::Broken][(idx % 4) as usize];
    p
}
fn judge_c06(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    if p.fds == Fds::Pipe && !r.io.is_empty() {
        return viol(
            "output",
            format!("{:?} reached the process's own streams during {}", String::from_utf8_lossy(&r.io), p.calls.iter().map(|c| w.call_str(c)).collect::<Vec<_>>().join(", ")),
        );
    }
    judge_same(w, p, r)
}

// -------------------------------------------------------------------- C07 --
fn gen_c07(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let step = idx % 4 == 3;
    let mut p = batch(w, r, idx, if step { 2 } else { 16 }, !step);
    if step {
        p.calls.retain(|c| !c.ty.is_sim());
        p.tasks[0] = (0..p.calls.len()).collect();
    }
    p.guard = if step { Guard::Step } else { Guard::Seccomp };
    p
}
fn judge_c07(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    for (c, s) in p.calls.iter().zip(&r.slots) {
        if s.status != ST_DONE {
            continue;
        }
        let n = w.cat[c.op].name;
        if s.allocs > 0 {
            return viol(format!("heap:{}", n), format!("{} made {} heap allocations", w.call_str(c), s.allocs));
        }
        if s.sys > 0 {
            let what = match s.sysnr {
                100_001 => "read the time-stamp counter".into(),
                100_002 => "read the hardware random source".into(),
                100_003 => "read the environment".into(),
                100_004 => "asked what processor it runs on".into(),
                x => format!("made system call {}", x),
            };
            return viol(format!("system:{}", n), format!("{} {} ({} in all)", w.call_str(c), what, s.sys));
        }
    }
    judge_same(w, p, r)
}

// -------------------------------------------------------------------- C10 --
fn c10_list(w: &W) -> Vec<(usize, Ty)> {
    let vec_ops = ["add", "sub", "add_assign", "sub_assign", "dot", "scale", "div", "neg", "norm_l", "norm2", "normalize"];
    let mat_ops = ["add", "sub", "add_assign", "sub_assign", "mul", "scale", "div", "neg", "mulvec", "vecmul", "trace", "norm2", "det", "inverse", "qr"];
    let others = [
        "v3.cross", "slices.norm2", "slices.norm2_70", "slices.norm_l_70", "slices.dot_70", "slices.project_70", "slices.dot_1030", "slices.norm_l", "slices.dot", "slices.normalize", "slices.project",
        "quat.dot", "quat.abs2", "quat.to_rotation", "quat.add", "quat.sub", "quat.mul", "quat.scale", "quat.divs", "quat.div", "quat.neg",
        "quat.conj", "quat.rotate", "quat.norm2", "quat.normalize", "quat.abs_imag", "quat.inverse", "quat.rotation", "quat.from_euler_angles",
        "quat.derivative", "dq.add", "dq.sub", "dq.mul", "dq.scale", "dq.neg", "dq.conj", "dq.conj_as_dual", "dq.conj_combined", "dq.norm",
        "dq.to_rotation_translation", "dq.get_translation", "dq.to_quaternion_translation", "dq.transform_point", "dq.div", "dq.to_homogeneous",
        "dq.inverse", "dq.normalize", "dq.new_from_array", "dq.new_from_translation", "dq.new_from_rot_trans",
        "tf.rot2", "tf.rotx", "tf.roty", "tf.rotz", "tf.euler_to_rotation", "tf.euler_zyx", "tf.homogeneous_from_rotation",
        "tf.homogeneous_from_quaternion", "tf.homogeneous_inverse", "tf.homogeneous_inverse_transform", "tf.rotation_from_axis_angle", "tf.se3_from_parts",
        "tf.skew_from_vec", "tf.ksi", "tf.screw_to_axis", "tf.adjoint", "tf.translation", "tf.rotation_inverse", "tf.skew_v6", "tf.skew_from_vec_aug", "tf.skew_scalar",
    ];
    let mut v = vec![];
    for (i, o) in w.cat.iter().enumerate() {
        if o.sf.is_none() {
            continue;
        }
        let (fam, m) = o.name.split_once('.').unwrap_or((o.name, ""));
        let hit = match fam {
            "v2" | "v3" | "v4" | "v5" | "v6" => vec_ops.contains(&m),
            "m22" | "m33" | "m44" | "m55" | "m66" => mat_ops.contains(&m),
            _ => false,
        };
        if hit || others.contains(&o.name) {
            v.push((i, Ty::SF));
        }
    }
    v
}
fn gen_c10(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let list = c10_list(w);
    let f = focus(&list, w.seed, idx);
    let mut p = Plan::new();
    p.threads = false;
    p.budget = 5_000_000;
    let a = Arg { seed: seed(r), prof: *r.pick(&[0u8, 0, 0, 1, 1, 2, 3, 3, 7, 8, 14, 14]), var: if r.chance(1, 4) { r.below(NVAR as u64) as u8 } else { 0 } };
    let alone = w.oracle.get(&w.cat, f.0, f.1, a, p.limit);
    let v = alone.vsteps;
    let mut task = vec![];
    let k = if v <= 48 { v } else { 48 };
    let off = r.below(v.max(1));
    for i in 0..k {
        let at = if v <= 48 { i + 1 } else { 1 + (off + i * v / 48 + r.below(v / 48 + 1)) % v };
        let mut c = one(f.0, f.1, a);
        c.evs.push(Ev { at, k: EvK::Val(V_NAN) });
        task.push(p.calls.len());
        p.calls.push(c);
    }
    if p.calls.is_empty() {
        p.calls.push(one(f.0, f.1, a));
        task.push(0);
    }
    p.tasks.push(task);
    p
}
fn judge_c10(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    if let Some(v) = ended(w, p, r) {
        if v.class != "hang" {
            return Some(v);
        }
        w.st().skipped += 1;
        return None;
    }
    for (i, (c, s)) in p.calls.iter().zip(&r.slots).enumerate() {
        if s.status != ST_DONE || s.fired == 0 || s.out.tag != 0 {
            continue;
        }
        let a = w.oracle.get(&w.cat, c.op, c.ty, c.arg, p.limit);
        if !a.ok {
            w.st().skipped += 1;
            continue;
        }
        w.st().compared += 1;
        if a.out.tag != 0 {
            // refused without the fault: here the fault may hit the refusal test itself
            continue;
        }
        let f = |x: u64| f64::from_bits(x);
        let got = &s.out.w[..s.out.n as usize];
        if got.iter().any(|x| !f(*x).is_finite()) {
            continue;
        }
        let same = a.out.tag == 0 && a.out.n == s.out.n && {
            let m = a.out.w[..a.out.n as usize].iter().map(|x| f(*x).abs()).fold(0.0f64, |m, x| if x.is_finite() { m.max(x) } else { m });
            got.iter().zip(&a.out.w).all(|(x, y)| f(*x) == f(*y) || (f(*x) - f(*y)).abs() <= 1e-6 * m)
        };
        if !same {
            let v: Vec<String> = got.iter().take(9).map(|x| format!("{:.6e}", f(*x))).collect();
            let e: Vec<String> = a.out.w[..a.out.n as usize].iter().take(9).map(|x| format!("{:.6e}", f(*x))).collect();
            let e = if a.out.tag == 0 { format!("[{}]", e.join(" ")) } else { show(&a.out) };
            let n = w.cat[c.op].name;
            return viol(
                format!("masked:{}", n),
                format!("call {} {} with its arithmetic step {} giving NaN returned the finite result [{}] instead of {}", i, w.call_str(c), c.evs[0].at, v.join(" "), e),
            );
        }
    }
    None
}

// -------------------------------------------------------------------- C11 --
/// operations that may panic when an intermediate zero appears (documented misuse)
const MISUSE: [&str; 10] = [
    "quat.div", "dq.div", "quat.rotation", "dq.inverse", "dq.screw_lerp", "dq.new_from_rot_trans", "dq.new_from_homogeneous", "tf.axis_angle", "dq.screw_lerp_flagged", "dq.inverse_flagged",
];
fn is_lu(n: &str) -> bool {
    n.ends_with(".lu")
}
fn misuse(n: &str, ty: Ty, a: Arg) -> bool {
    let x = raw(a).x;
    let rd = |v: f64| if ty == Ty::F32 { v as f32 as f64 } else { v };
    // zero, or so small that its square vanishes at this precision
    let below = |s: &[f64], lim: f64| {
        let m = s.iter().map(|v| rd(*v).abs()).fold(0.0, f64::max);
        let any_nan = s.iter().any(|v| rd(*v).is_nan());
        !any_nan && m < lim
    };
    let tiny = |s: &[f64]| below(s, if ty == Ty::F32 { 1e-3 } else { 1e-7 });
    if is_lu(n) {
        let k = n.as_bytes()[1] as usize - b'0' as usize;
        // a first row with no usable scale
        return !(0..k).any(|j| rd(x[26 + j]).abs() > 0.0);
    }
    match n {
        "quat.div" => tiny(&x[152..156]),
        // divides by the square of the real part
        "dq.div" => below(&x[152..156], if ty == Ty::F32 { 0.1 } else { 1e-3 }),
        "quat.rotation" | "tf.axis_angle" => tiny(&x[8..11]),
        "dq.inverse" | "dq.new_from_rot_trans" | "dq.screw_lerp" => tiny(&x[148..152]),
        _ => false,
    }
}
/// is the call's operand so degenerate that the only answer is the failure value
fn refused(n: &str, a: Arg) -> bool {
    let x = raw(a).x;
    let small = |s: &[f64]| s.iter().all(|v| v.fract() == 0.0 && v.abs() <= 8.0);
    let zero = |s: &[f64]| s.iter().all(|v| *v == 0.0);
    let b = n.as_bytes();
    let dim = b[1].wrapping_sub(b'0') as usize;
    if b[0] == b'm' && (2..=6).contains(&dim) && (n.ends_with(".inverse") || n.ends_with(".qr")) {
        let e = |i: usize, j: usize| x[26 + 6 * i + j];
        let most = (0..dim).flat_map(|i| (0..dim).map(move |j| (i, j))).map(|(i, j)| if e(i, j).is_nan() { f64::INFINITY } else { e(i, j).abs() }).fold(0.0, f64::max);
        if most > 1e6 {
            return false;
        }
        let z = (0..dim).any(|i| (0..dim).all(|j| e(i, j) == 0.0) || (0..dim).all(|j| e(j, i) == 0.0));
        let q = (0..dim).any(|i| (0..i).any(|k| (0..dim).all(|j| e(i, j) == e(k, j)) || (0..dim).all(|j| e(j, i) == e(j, k))));
        let whole = (0..dim).all(|i| small(&x[26 + 6 * i..26 + 6 * i + dim]));
        return z || (q && (whole || most <= 0.2));
    }
    if b[0] == b'v' && (2..=6).contains(&dim) && n.ends_with(".normalize") {
        return zero(&x[8..8 + dim]);
    }
    match n {
        "quat.normalize" | "quat.inverse" | "dq.normalize" => zero(&x[148..152]),
        "quat.get_axis" => zero(&x[149..152]) && x[148] == 1.0,
        _ => false,
    }
}
fn c11_list(w: &W) -> Vec<(usize, Ty)> {
    w.pairs_all.iter().copied().filter(|x| x.1 != Ty::I32).collect()
}
fn gen_c11(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let list = c11_list(w);
    let f = focus(&list, w.seed, idx);
    let mut p = Plan::new();
    p.threads = false;
    p.budget = 5_000_000;
    let n = w.cat[f.0].name;
    let mut task = vec![];
    for _ in 0..32 {
        let a = match r.below(8) {
            0..=1 => arg(r),
            2 => Arg { seed: seed(r), prof: 9 + r.below(2) as u8, var: 0 },
            _ => wild(r),
        };
        let mut c = one(f.0, f.1, a);
        if f.1.is_sim() && !MISUSE.contains(&n) && !is_lu(n) {
            // arithmetic that is wrong, but wrong the same way every time: code that
            // checks a value and computes it again still sees the same value
            if r.chance(3, 4) {
                let n = *r.pick(&[1u16, 2, 3, 5, 8, 20, 60]);
                c.evs.push(Ev { at: 1, k: EvK::Storm(r.next() as u32, n | KEYED as u16) });
            }
        }
        task.push(p.calls.len());
        p.calls.push(c);
    }
    p.tasks.push(task);
    p
}
fn judge_c11(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    if r.end == End::Hang {
        w.st().skipped += 1;
        return None;
    }
    if let Some(v) = ended(w, p, r) {
        return Some(v);
    }
    for (c, s) in p.calls.iter().zip(&r.slots) {
        w.st().compared += 1;
        let n = w.cat[c.op].name;
        if s.panic == PK_LIB && !misuse(n, c.ty, c.arg) {
            return viol(format!("panic:{}", n), format!("{} panicked: {}", w.call_str(c), cstr(&s.msg)));
        }
        if c.evs.is_empty() && s.status == ST_DONE && s.out.tag == 0 && refused(n, c.arg) {
            return viol(format!("unrefused:{}", n), format!("{} gave {} for a degenerate operand instead of the failure value", w.call_str(c), show(&s.out)));
        }
    }
    None
}

// -------------------------------------------------------------------- C21 --
fn gen_c21(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let f = focus(&w.pairs_all, w.seed, idx);
    let mut p = Plan::new();
    p.threads = false;
    p.budget = 5_000_000;
    if f.1 == Ty::SI {
        p.limit = *r.pick(&[12i64, 100, 30_000, i32::MAX as i64, 1 << 40, i64::MAX]);
    }
    let mut task = vec![];
    for _ in 0..32 {
        let a = match r.below(8) {
            0..=3 => arg(r),
            4 => Arg { seed: seed(r), prof: 9 + r.below(2) as u8, var: 0 },
            _ => wild(r),
        };
        let mut c = one(f.0, f.1, a);
        if f.1.is_sim() && r.chance(1, 2) {
            let n = *r.pick(&[1u16, 2, 3, 5, 8, 20, 60]);
            c.evs.push(Ev { at: 1, k: EvK::Storm(r.next() as u32, n | KEYED as u16) });
        }
        task.push(p.calls.len());
        p.calls.push(c);
    }
    p.tasks.push(task);
    p
}
fn judge_c21(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    let text = crate::plan::to_text("C21", p, &w.cat);
    let here = crate::confs::code(r);
    if here == 1 || r.slots.iter().any(|s| s.panic == PK_BUDGET) {
        w.st().skipped += 1;
        return None;
    }
    for (k, peer) in crate::confs::peers().iter_mut().enumerate() {
        let name = crate::confs::PEERS[k].0;
        let (end, got) = peer.ask(&text);
        for ((c, s), g) in p.calls.iter().zip(&r.slots).zip(&got) {
            let msg = cstr(&s.msg);
            if c.ty == Ty::I32 && s.panic == PK_LIB && msg.contains("overflow") {
                continue; // what the element type does then is up to the build
            }
            w.st().compared += 1;
            if (s.status, s.panic) != (g.status, g.panic) || s.out != g.out {
                let tell = |st: u32, pk: u32, o: &Out, m: &str| {
                    if pk != 0 { format!("panics ({})", m) } else if st != ST_DONE { format!("does not end (status {})", st) } else { format!("tag {} {}", o.tag, show(o)) }
                };
                return viol(
                    format!("build:{}", w.cat[c.op].name),
                    format!("{}: release build with debug assertions: {}; {} build: {}", w.call_str(c), tell(s.status, s.panic, &s.out, &msg), name, tell(g.status, g.panic, &g.out, &g.msg)),
                );
            }
        }
        if end != here {
            return viol(format!("build-end:{}", name), format!("the run ends differently in the {} build ({} / {})", name, here, end));
        }
    }
    None
}

// -------------------------------------------------------------------- C22 --
fn c22_list(w: &W) -> Vec<(usize, Ty)> {
    let k = [0u8; 8];
    w.pairs_all.iter().copied().filter(|x| x.1 != Ty::SI && crate::dep::deps(w.cat[x.0].name, &k).is_some()).collect()
}
fn gen_c22(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let list = c22_list(w);
    let f = focus(&list, w.seed, idx);
    let mut p = Plan::new();
    p.threads = false;
    p.budget = 5_000_000;
    let mut task = vec![];
    for _ in 0..4 {
        let mut a = Arg { seed: seed(r), prof: *r.pick(&[0u8, 0, 0, 1, 2, 5, 6, 14, 14]), var: if r.chance(1, 3) { r.below(NVAR as u64) as u8 } else { 0 } };
        if f.1 == Ty::I32 {
            a.prof = *r.pick(&[1u8, 1, 2, 6]);
        }
        let raw = crate::args::raw(a);
        let Some(d) = crate::dep::deps(w.cat[f.0].name, &raw.k) else { continue };
        let read = crate::dep::read(&d);
        task.push(p.calls.len());
        p.calls.push(one(f.0, f.1, a));
        for _ in 0..10 {
            let i = match r.below(10) {
                0..=5 if !read.is_empty() => *r.pick(&read),
                6..=7 => crate::args::M + r.below(36) as usize,
                8 => crate::args::V + r.below(18) as usize,
                _ => r.below(crate::args::N as u64) as usize,
            };
            let k = if f.1 == Ty::I32 { *r.pick(&[3u8, 6, 7]) } else { r.below(crate::args::SPOILS as u64) as u8 };
            let mut c = one(f.0, f.1, a);
            c.evs.push(Ev { at: i as u64, k: EvK::Spoil(k) });
            task.push(p.calls.len());
            p.calls.push(c);
        }
    }
    p.tasks.push(task);
    p
}
fn judge_c22(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    if r.end == End::Hang {
        w.st().skipped += 1;
        return None;
    }
    if let Some(v) = ended(w, p, r) {
        return Some(v);
    }
    for (c, s) in p.calls.iter().zip(&r.slots) {
        let Some(e) = c.evs.iter().find(|e| matches!(e.k, EvK::Spoil(_))) else { continue };
        // the same call on good operands
        let Some(b) = p.calls.iter().position(|b| b.evs.is_empty() && b.op == c.op && b.ty == c.ty && b.arg == c.arg) else { continue };
        let b = &r.slots[b];
        if s.status != ST_DONE || b.status != ST_DONE || s.out.tag != b.out.tag || s.out.n != b.out.n {
            w.st().skipped += 1; // refused, or an integer overflow
            continue;
        }
        let Some(d) = crate::dep::deps(w.cat[c.op].name, &crate::args::raw(c.arg).k) else { continue };
        w.st().compared += 1;
        for (j, x) in d.iter().enumerate().take(s.out.n as usize) {
            if !x.has(e.at as usize) && s.out.w[j] != b.out.w[j] {
                return viol(
                    format!("spread:{}", w.cat[c.op].name),
                    format!("{}: component {} of the result changes with operand component {}, on which it does not depend: {} / {}", w.call_str(c), j, e.at, show(&b.out), show(&s.out)),
                );
            }
        }
    }
    None
}

// -------------------------------------------------------------------- C23 --
fn gen_c23(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let list: Vec<(usize, Ty)> = w.pairs_all.iter().copied().filter(|x| x.1.is_sim()).collect();
    let f = focus(&list, w.seed, idx);
    let mut p = Plan::new();
    p.threads = false;
    p.budget = 5_000_000;
    let real = if f.1 == Ty::SF { Ty::F64 } else { Ty::I32 };
    if real == Ty::I32 {
        p.limit = i32::MAX as i64;
    }
    let mut task = vec![];
    for _ in 0..12 {
        let a = match r.below(8) {
            0..=4 => arg(r),
            5 => Arg { seed: seed(r), prof: 9 + r.below(2) as u8, var: 0 },
            _ => wild(r),
        };
        let mut v = vec![one(f.0, f.1, a)];
        if w.cat[f.0].has(real) {
            v.push(one(f.0, real, a));
        }
        if f.1 == Ty::SF {
            let mut c = one(f.0, f.1, a);
            c.evs.push(Ev { at: 1, k: EvK::Lie(r.below(crate::elem::LIES as u64) as u8) });
            v.push(c);
        }
        for c in v {
            task.push(p.calls.len());
            p.calls.push(c);
        }
    }
    p.tasks.push(task);
    p
}
fn judge_c23(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    if r.end == End::Hang {
        w.st().skipped += 1;
        return None;
    }
    if let Some(v) = ended(w, p, r) {
        return Some(v);
    }
    for (c, s) in p.calls.iter().zip(&r.slots) {
        if c.ty.is_sim() && c.evs.is_empty() {
            continue;
        }
        let Some(b) = p.calls.iter().position(|b| b.evs.is_empty() && b.op == c.op && b.ty.is_sim() && b.arg == c.arg) else { continue };
        let b = &r.slots[b];
        if b.panic == PK_TRAP || s.panic == PK_BUDGET || b.panic == PK_BUDGET || (c.ty == Ty::I32 && s.panic == PK_LIB) {
            continue;
        }
        if w.cat[c.op].is_text() && c.operands().x.iter().any(|x| (7e5..701e3).contains(x)) {
            continue; // rendered as a tag by the simulated type
        }
        w.st().compared += 1;
        if (s.status, s.panic) != (b.status, b.panic) || s.out != b.out {
            let tell = |s: &Slot| if s.panic != 0 { format!("panics ({})", cstr(&s.msg)) } else { format!("tag {} {}", s.out.tag, show(&s.out)) };
            let what = if c.evs.is_empty() { format!("on {}", c.ty.name()) } else { "when the type's conversions to primitive numbers are wrong".into() };
            return viol(
                format!("type:{}:{}", c.evs.is_empty(), w.cat[c.op].name),
                format!("{}: {} {}; on a caller's type that behaves the same {}", w.call_str(c), what, tell(s), tell(b)),
            );
        }
    }
    None
}

// -------------------------------------------------------------------- C14 --
fn gen_c14(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let list: Vec<(usize, Ty)> = w.pairs_all.iter().copied().filter(|x| (x.1 == Ty::SI || x.1 == Ty::I32) && crate::model::has(w.cat[x.0].name)).collect();
    let f = focus(&list, w.seed, idx);
    let mut p = Plan::new();
    p.threads = false;
    p.budget = 5_000_000;
    p.limit = *r.pick(&[2i64, 5, 12, 40, 100, 1000, 30_000, 1_000_000, i32::MAX as i64, 1 << 40, i64::MAX, i64::MAX]);
    let mut task = vec![];
    for _ in 0..40 {
        let a = Arg { seed: seed(r), prof: *r.pick(&[1u8, 1, 1, 0, 2, 6, 8, 8, 4, 14]), var: if r.chance(1, 3) { r.below(NVAR as u64) as u8 } else { 0 } };
        task.push(p.calls.len());
        p.calls.push(one(f.0, f.1, a));
    }
    p.tasks.push(task);
    p
}
fn judge_c14(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    if r.end == End::Hang {
        w.st().skipped += 1;
        return None;
    }
    if let Some(v) = ended(w, p, r) {
        return Some(v);
    }
    for (c, s) in p.calls.iter().zip(&r.slots) {
        let n = w.cat[c.op].name;
        w.st().compared += 1;
        let over = c.ty == Ty::I32 && {
            let m = cstr(&s.msg);
            s.panic == PK_LIB && (m.contains("overflow") || m.contains("divide by zero"))
        };
        if s.panic == PK_BUDGET {
            continue;
        }
        if s.panic == PK_TRAP || over {
            continue;
        }
        if s.panic != 0 {
            return viol(format!("panic:{}", n), format!("{} panicked although the element type did not trap: {}", w.call_str(c), cstr(&s.msg)));
        }
        if s.traps > 0 {
            return viol(format!("swallowed:{}", n), format!("{} returned {} although its element type trapped", w.call_str(c), show(&s.out)));
        }
        let want = crate::model::exact(n, &raw(c.arg));
        let got: Vec<i128> = s.out.w[..s.out.n as usize].iter().map(|x| *x as i64 as i128).collect();
        if got != want {
            return viol(format!("inexact:{}", n), format!("{} returned {:?}; exact result {:?}", w.call_str(c), &got, &want));
        }
    }
    None
}

// -------------------------------------------------------------------- C15 --
fn gen_c15(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let f = focus(&w.pairs_elem, w.seed, idx);
    let mut p = Plan::new();
    p.threads = false;
    p.budget = 20_000_000;
    let a = arg(r);
    if f.1 == Ty::SI {
        p.limit = *r.pick(&[i64::MAX, i64::MAX, 1 << 40, 1000]);
    }
    let alone = w.oracle.get(&w.cat, f.0, f.1, a, p.limit);
    let n = if alone.ok { alone.steps } else { 0 };
    let mut task = vec![];
    for i in 0..n.min(48) {
        let at = if n <= 48 { i + 1 } else { 1 + i * n / 48 + r.below(n / 48) };
        let mut c = one(f.0, f.1, a);
        c.evs.push(Ev { at: at.min(n), k: EvK::Panic });
        task.push(p.calls.len());
        p.calls.push(c);
    }
    if p.calls.is_empty() {
        p.calls.push(one(f.0, f.1, a));
        task.push(0);
    }
    p.tasks.push(task);
    p
}
fn judge_c15(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    if r.end == End::Hang {
        // work per call is another property's matter
        w.st().skipped += 1;
        return None;
    }
    for (c, s) in p.calls.iter().zip(&r.slots) {
        if s.fired == 0 {
            continue;
        }
        let n = w.cat[c.op].name;
        w.st().compared += 1;
        if s.status == ST_RUNNING {
            // the process died between the panic and the caller
            let how = match r.end {
                End::Signal(s) => format!("signal {}", s),
                _ => "exit".into(),
            };
            return viol(format!("died:{}", n), format!("{} died ({}) from a panic raised by the caller's code at step {}", w.call_str(c), how, c.evs[0].at));
        }
        if s.status == ST_DONE {
            return viol(format!("swallowed:{}", n), format!("{} returned {} although the caller's code panicked at step {}", w.call_str(c), show(&s.out), c.evs[0].at));
        }
        if s.panic != PK_INJECTED {
            return viol(format!("replaced:{}", n), format!("{} raised another panic ({}) than the one of the caller's code at step {}", w.call_str(c), cstr(&s.msg), c.evs[0].at));
        }
        if s.steps != c.evs[0].at {
            return viol(format!("further:{}", n), format!("{} ran the caller's code {} more times after it had panicked at step {}", w.call_str(c), s.steps - c.evs[0].at, c.evs[0].at));
        }
    }
    ended(w, p, r)
}

// -------------------------------------------------------------------- C16 --
fn gen_c16(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let f = focus(&w.pairs_all, w.seed, idx);
    let mut p = Plan::new();
    p.threads = false;
    p.budget = 2_000_000;
    p.guard = Guard::Stack;
    let mut task = vec![0];
    // an ordinary call to compare the others with
    p.calls.push(one(f.0, f.1, MEAS));
    for _ in 0..24 {
        let mut c = one(f.0, f.1, if r.chance(1, 4) { arg(r) } else { wild(r) });
        if f.1.is_sim() {
            let l = w.len(f.0, f.1, Mode::Elem);
            storms(r, &mut c, l);
        }
        task.push(p.calls.len());
        p.calls.push(c);
    }
    p.tasks.push(task);
    p
}
const STACK_LIMIT: u32 = 16 << 10;
const STACK_SPREAD: u32 = 4 << 10;
fn judge_c16(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    if r.end == End::Hang {
        w.st().skipped += 1;
        return None;
    }
    for (c, s) in p.calls.iter().zip(&r.slots) {
        if s.status != ST_DONE {
            // unwinding has its own needs
            continue;
        }
        w.st().compared += 1;
        if s.stack > STACK_LIMIT {
            return viol(format!("stack:{}", w.cat[c.op].name), format!("{} used {} bytes of stack{}", w.call_str(c), s.stack, if s.stack as usize >= STACK_WATCH { " or more" } else { "" }));
        }
        let (c0, s0) = (&p.calls[0], &r.slots[0]);
        if c0.arg == MEAS && c0.op == c.op && c0.ty == c.ty && s0.status == ST_DONE && s.stack > s0.stack + STACK_SPREAD {
            return viol(format!("grows:{}", w.cat[c.op].name), format!("{} used {} bytes of stack; an ordinary call uses {}", w.call_str(c), s.stack, s0.stack));
        }
    }
    ended(w, p, r)
}

// -------------------------------------------------------------------- C17 --
fn gen_c17(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let f = focus(&w.pairs_all, w.seed, idx);
    let mut p = Plan::new();
    p.threads = false;
    p.budget = 2_000_000;
    p.guard = Guard::Ambient(if r.chance(1, 4) { 0 } else { r.below(16) as u8 });
    let mut task = vec![];
    for _ in 0..16 {
        let a = if r.chance(1, 2) { arg(r) } else { wild(r) };
        let mut c = one(f.0, f.1, a);
        let l = w.len(f.0, f.1, Mode::Elem).max(1);
        match r.below(6) {
            0 if f.1.is_sim() => storms(r, &mut c, l),
            1..=3 if w.len(f.0, f.1, Mode::Elem) > 0 => c.evs.push(Ev { at: 1 + r.below(l), k: EvK::Panic }),
            4 if w.cat[f.0].is_text() => c.evs.push(Ev { at: 1 + r.below(l), k: EvK::Err }),
            _ => {}
        }
        task.push(p.calls.len());
        p.calls.push(c);
    }
    p.tasks.push(task);
    p
}
fn judge_c17(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    if r.end == End::Hang {
        w.st().skipped += 1;
        return None;
    }
    for (c, s) in p.calls.iter().zip(&r.slots) {
        w.st().compared += 1;
        if s.amb != 0 {
            let how = match s.status {
                ST_PANIC => ", aborted by a panic,",
                _ if s.out.tag != 0 => ", refusing its operand,",
                _ => "",
            };
            return viol(format!("left{}:{}", s.amb, w.cat[c.op].name), format!("{}{} changed {}", w.call_str(c), how, crate::ambient::WHAT[s.amb as usize % 13]));
        }
    }
    ended(w, p, r)
}

// -------------------------------------------------------------------- C19 --
fn gen_c19(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let tf = idx % 4 == 3;
    let list = if tf { &w.pairs_tf } else { &w.pairs_all };
    let mut f = focus(list, w.seed, if tf { idx / 4 } else { idx / 4 * 3 + idx % 4 });
    let mode = if tf { Mode::Tf } else { Mode::Elem };
    f = hot_focus(w, r, mode, f);
    let mut p = Plan::new();
    p.mode = mode;
    p.guard = Guard::Life;
    p.budget = 20_000_000;
    let args = hot_pool(w, r, f, 3);
    let other = |w: &W, r: &mut Rng| match r.below(4) {
        0 => partner(w, r, mode, f),
        _ => f,
    };
    for st in 0..crate::life::STAGES.len() {
        let mut task = vec![];
        let n = match st {
            0 => 1 + r.us(3),
            5 => r.us(3),
            _ => (r.chance(3, 4)) as usize * (1 + r.us(2)),
        };
        for k in 0..n {
            let (op, ty) = if k == 0 { f } else { other(w, r) };
            let mut c = one(op, ty, *r.pick(&args));
            if quiet(w, &c, p.limit) {
                if st == 0 {
                    task.push(p.calls.len());
                    p.calls.push(c);
                }
                continue;
            }
            if (st == 0 || st == 5) && p.calls.len() < 40 {
                let g = other(w, r);
                let d = one(g.0, g.1, *r.pick(&args));
                let el = w.oracle.get(&w.cat, op, ty, c.arg, p.limit).steps;
                if !quiet(w, &d, p.limit) {
                    let inner = p.calls.len() as u16;
                    let k = match r.below(4) {
                        0 | 1 if el > 0 => Some(Ev { at: 1 + r.below(el), k: EvK::Unwind(inner) }),
                        2 if tf || el > 0 => Some(Ev { at: place(w, r, &c, mode).min(if tf { u64::MAX } else { el }), k: EvK::Fork(inner) }),
                        3 if el > 0 && st == 0 => {
                            c.evs.push(Ev { at: 1 + r.below(el), k: EvK::Panic });
                            None
                        }
                        _ => None,
                    };
                    if let Some(e) = k {
                        p.calls.push(d);
                        c.evs.push(e);
                    }
                }
            }
            task.push(p.calls.len());
            p.calls.push(c);
        }
        p.tasks.push(task);
    }
    p
}
fn judge_c19(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    let stage = |i: usize| p.tasks.iter().position(|t| t.contains(&i));
    for (i, (c, s)) in p.calls.iter().zip(&r.slots).enumerate() {
        if s.status == ST_DIED {
            return viol(format!("fork:{}", w.cat[c.op].name), format!("{} {} in a child forked inside another call", w.call_str(c), cstr(&s.msg)));
        }
        if let (Some(k), ST_DONE | ST_PANIC) = (stage(i), s.status) {
            w.st().extra[k + 1] += 1;
        }
    }
    if let Some(mut v) = same_as_alone(w, p, r) {
        if let Some(k) = v.text.split(' ').nth(1).and_then(|x| x.parse().ok()).map(|i: usize| stage(i)) {
            v.text.push_str(&format!(" ({})", k.map_or("inside another call", |k| crate::life::STAGES[k])));
        }
        return Some(v);
    }
    if let Some(mut v) = ended(w, p, r) {
        if let Some(i) = r.slots.iter().position(|s| s.status == ST_RUNNING) {
            v.text.push_str(&format!(" ({})", stage(i).map_or("inside another call", |k| crate::life::STAGES[k])));
        }
        return Some(v);
    }
    // every call of every stage was made
    for (i, (c, s)) in p.calls.iter().zip(&r.slots).enumerate() {
        if s.status == ST_NOTRUN && stage(i).is_some() {
            return viol(format!("lost:{}", w.cat[c.op].name), format!("{} was never made", w.call_str(c)));
        }
    }
    None
}

// -------------------------------------------------------------------- C20 --
fn gen_c20(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let f = focus(&w.pairs_all, w.seed, idx);
    let mut p = Plan::new();
    p.threads = false;
    p.budget = 2_000_000;
    let mut task = vec![];
    for _ in 0..4 {
        let a = if r.chance(1, 4) { wild(r) } else { arg(r) };
        for _ in 0..7 {
            let mut c = one(f.0, f.1, a);
            c.evs.push(Ev { at: 1 + r.below(crate::place::CODES - 1), k: EvK::Place });
            task.push(p.calls.len());
            p.calls.push(c);
        }
    }
    p.tasks.push(task);
    p
}
fn judge_c20(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    for (c, s) in p.calls.iter().zip(&r.slots) {
        use crate::place::*;
        if let (ST_DONE, Some(e)) = (s.status, c.evs.iter().find(|e| e.k == EvK::Place)) {
            let x = &mut w.st().extra;
            x[1] += at_page_end(e.at) as u64;
            x[2] += (!at_page_end(e.at)) as u64;
            x[3] += alias(e.at) as u64;
            x[4] += (stack_shift(e.at) != 0) as u64;
        }
    }
    judge_same(w, p, r)
}

// -------------------------------------------------------------------- C18 --
const C18_NEAR: u8 = 6;
const C18_ROUGH: u32 = 8;
const C18_BITS: u8 = 40;
/// one unit in the last place just below 1
const C18_UNIT: u8 = 53;
/// discontinuous on purpose, or known to lose digits: not promised
fn c18_excluded(n: &str) -> bool {
    n.ends_with(".lu") || n.ends_with(".qr") || n.starts_with("utils.") || n.contains("is_rotation")
}
fn c18_list(w: &W) -> Vec<(usize, Ty)> {
    let c = |o: &Op| o.sf.is_some() && !o.is_text() && !c18_excluded(o.name);
    w.cat.iter().enumerate().filter(|(_, o)| c(o)).map(|(i, _)| (i, Ty::SF)).collect()
}
/// sums of products and quotients, which do not need operands in general position
fn c18_plain(w: &W) -> Vec<usize> {
    c10_list(w).into_iter().map(|x| x.0).filter(|i| !c18_excluded(w.cat[*i].name)).collect()
}
fn dot4(a: &Raw) -> f64 {
    (0..4).map(|i| a.x[148 + i] * a.x[152 + i]).sum()
}
fn gen_c18(w: &mut W, r: &mut Rng, idx: u64) -> Plan {
    let list = c18_list(w);
    let slerp = list.iter().copied().find(|x| w.cat[x.0].name == "quat.slerp");
    let f = match slerp {
        Some(s) if r.chance(1, 40) => s,
        _ => focus(&list, w.seed, idx),
    };
    let mut p = Plan::new();
    p.threads = false;
    p.budget = 5_000_000;
    let plain = c18_plain(w).contains(&f.0) || Some(f) == slerp;
    // not for angles and axes of mixed sizes
    let n = w.cat[f.0].name;
    let screw = n.contains("screw");
    let graded = !(n.contains("exponential") || n.contains("axis_angle") || n.contains("screw") || n.contains("log") || n.contains("get_axis") || ["dq.transform_point", "dq.norm", "quat.sin", "quat.cos"].contains(&n));
    let mut task = vec![];
    for _ in 0..4 {
        let prof = if plain && r.chance(2, 5) {
            *r.pick(&[1u8, 2, 3])
        } else {
            // general position: ordinary, large, of mixed sizes, small; small and nearly half turns
            *r.pick(&[0u8, 0, 8, if graded { 11 } else { 8 }, 12, if screw { 0 } else { 13 }])
        };
        let a = Arg { seed: r.below(1 << 30) as u32, prof, var: 0 };
        let mut add = |p: &mut Plan, a: Arg, e: Option<EvK>| {
            let mut c = one(f.0, f.1, a);
            c.evs.extend(e.map(|k| Ev { at: 1, k }));
            task.push(p.calls.len());
            p.calls.push(c);
        };
        add(&mut p, a, None);
        for k in 0..C18_NEAR {
            add(&mut p, Arg { var: NEAR + k, ..a }, None);
        }
        for _ in 0..C18_ROUGH {
            add(&mut p, a, Some(EvK::Rough(r.next() as u32 >> 1, if Some(f) == slerp && prof != 0 { C18_UNIT } else { C18_BITS })));
        }
    }
    p.tasks.push(task);
    p
}
fn judge_c18(w: &mut W, p: &Plan, r: &Ran) -> Option<Viol> {
    if r.end == End::Hang {
        w.st().skipped += 1;
        return None;
    }
    let value = |i: usize| -> Option<Vec<f64>> {
        let s = &r.slots[i];
        let v: Vec<f64> = s.out.w[..s.out.n as usize].iter().map(|x| f64::from_bits(*x)).collect();
        (s.status == ST_DONE && s.out.tag == 0 && v.iter().all(|x| x.is_finite())).then_some(v)
    };
    let dist = |a: &[f64], b: Option<Vec<f64>>| match b {
        Some(b) if a.len() == b.len() => a.iter().zip(&b).fold(0.0f64, |m, (x, y)| m.max((x - y).abs())),
        _ => f64::INFINITY,
    };
    for (i, c) in p.calls.iter().enumerate() {
        let Some(e) = c.evs.first() else { continue };
        let EvK::Rough(_, bits) = e.k else { continue };
        if r.slots[i].fired == 0 {
            continue;
        }
        let find = |var: u8| p.calls.iter().position(|x| x.op == c.op && x.evs.is_empty() && x.arg == Arg { var, ..c.arg });
        let (Some(z), n) = (find(0), w.cat[c.op].name) else { continue };
        let Some(exact) = value(z) else { continue };
        let size = exact.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        // whole numbers cancel exactly: what is left is not the scale
        let scale = if c.arg.prof == 1 { size.max(1.0) } else { size };
        let mut allowed = scale * 0.5f64.powi(C18_BITS as i32);
        let near: Vec<Option<usize>> = (0..C18_NEAR).map(|k| find(NEAR + k)).collect();
        if near.iter().any(|x| x.is_none()) {
            continue;
        }
        for k in near.into_iter().flatten() {
            allowed = allowed.max(dist(&exact, value(k)));
        }
        allowed *= 1e4;
        let a = raw(c.arg);
        if n == "quat.slerp" {
            // the shorter way round is a matter of the sign of the dot product
            let d = dot4(&a).abs();
            let unit = |o: usize| ((0..4).map(|i| a.x[148 + o + i] * a.x[148 + o + i]).sum::<f64>() - 1.0).abs() < 1e-9;
            if d < 0.05 || !(unit(0) && unit(4)) {
                continue;
            }
            if d > 0.9 {
                // nearly equal or opposite ends: square roots of the error
                allowed = 1e-4;
            }
        }
        if !allowed.is_finite() || (matches!(c.arg.prof, 1..=3) && value(i).is_none()) {
            // at the border of what is refused
            w.st().skipped += 1;
            continue;
        }
        w.st().compared += 1;
        let d = dist(&exact, value(i));
        if d > allowed {
            return viol(
                format!("amplified:{}", n),
                format!("call {} {} with every arithmetic step off by at most 2^-{} gave {}; without, {} (difference {:.2e}, allowed {:.2e})", i, w.call_str(c), bits, nums(&r.slots[i].out), nums(&r.slots[z].out), d, allowed),
            );
        }
    }
    if let End::Exit(0) = r.end { None } else { ended(w, p, r) }
}
fn nums(o: &Out) -> String {
    if o.tag != 0 {
        return show(o);
    }
    let v: Vec<String> = o.w[..o.n as usize].iter().take(9).map(|x| format!("{:.9e}", f64::from_bits(*x))).collect();
    format!("[{}]", v.join(" "))
}

pub fn all() -> Vec<Prop> {
    const ALONE: &str = "the reference is the same build run as the first call of a fresh process";
    const TFA: &str = "single-stepped switches happen at user-space instruction boundaries of this executable (not inside the C maths library), one processor, sequentially consistent";
    vec![
        Prop {
            id: "C01", quick: 26_000, thorough: 1_200_000, needs_len: true, gen: gen_c01, judge: judge_same, scen: None, extern_check: None,
            rule: "runs in which a task was actually preempted inside a call and resumed, distinct by calls, operands and the exact steps of all preemptions",
            stub: "scheduler (every hand-over between threads), the element type in elem mode",
            assume: &[ALONE, TFA], extra: &[],
        },
        Prop {
            id: "C02", quick: 24_000, thorough: 900_000, needs_len: true, gen: gen_c02, judge: judge_same, scen: None, extern_check: None,
            rule: "histories of at least two calls, distinct by calls, operands and the steps at which earlier calls were aborted",
            stub: "element type, closures and sinks of the aborted calls",
            assume: &[ALONE], extra: &[],
        },
        Prop {
            id: "C03", quick: 40000, thorough: 900_000, needs_len: true, gen: gen_c03, judge: judge_c03, scen: None, extern_check: None,
            rule: "runs in which at least one thread really stopped inside a call for ever, distinct by calls, operands and stopping step",
            stub: "scheduler; the stalled thread never runs again", assume: &[ALONE, TFA, "a survivor that makes no progress for 32 s counts as blocked"], extra: &[],
        },
        Prop {
            id: "C04", quick: 30000, thorough: 500_000, needs_len: true, gen: gen_c04, judge: judge_c04, scen: None, extern_check: None,
            rule: "batches of calls with corrupted arithmetic, comparisons or extreme operands, distinct by operation, operands and corruption steps",
            stub: "element arithmetic and comparisons (SimF, SimI)",
            assume: &["the fixed budget is 8 times an ordinary call plus 4000 element operations (60000 instructions for concrete types)"], extra: &[],
        },
        Prop {
            id: "C06", quick: 20000, thorough: 400_000, needs_len: true, gen: gen_c06, judge: judge_c06, scen: None, extern_check: None,
            rule: "batches of calls made with the standard streams captured, full, closed or broken, distinct by operations, operands and stream state",
            stub: "descriptors 1 and 2", assume: &[ALONE], extra: &[],
        },
        Prop {
            id: "C07", quick: 10000, thorough: 300_000, needs_len: true, gen: gen_c07, judge: judge_c07, scen: None, extern_check: Some(crate::twoconf::compare),
            rule: "batches of calls during which every system call fails (seccomp) or every instruction is inspected, distinct by operations and operands",
            stub: "kernel (every system call is counted and fails), allocator (counted), getenv, time-stamp counter",
            assume: &[ALONE, "calls that panic are excluded: unwinding itself allocates"], extra: &["calls_compared_across_std_and_no_std_builds"],
        },
        Prop {
            id: "C10", quick: 120000, thorough: 600_000, needs_len: false, gen: gen_c10, judge: judge_c10, scen: None, extern_check: None,
            rule: "batches of executions of one call, each with one different arithmetic step corrupted to NaN, distinct by operation, operands and step",
            stub: "element arithmetic (SimF)", assume: &["'what it would have been' allows 1e-6 of the largest component"], extra: &[],
        },
        Prop {
            id: "C11", quick: 150000, thorough: 600_000, needs_len: true, gen: gen_c11, judge: judge_c11, scen: None, extern_check: None,
            rule: "batches of calls with corrupted arithmetic, comparisons or extreme operands, distinct by operation, operands and corruption steps",
            stub: "element arithmetic and comparisons (SimF, SimI)",
            assume: &["operations listed as able to panic on misuse are run on extreme operands but without corrupted steps"], extra: &[],
        },
        Prop {
            id: "C13", quick: 26_000, thorough: 1_000_000, needs_len: true, gen: gen_c13, judge: judge_same, scen: None, extern_check: None,
            rule: "runs in which a call was really interrupted and another call made inside it on the same thread, distinct by calls, operands and interruption steps",
            stub: "interrupts (trap flag), element type, closures, sinks", assume: &[ALONE, TFA], extra: &[],
        },
        Prop {
            id: "C14", quick: 250000, thorough: 500_000, needs_len: false, gen: gen_c14, judge: judge_c14, scen: None, extern_check: None,
            rule: "batches of calls on an integer type of one width, distinct by operation, operands and width",
            stub: "integer element type with a chosen width (SimI); also real i32 with overflow checks", assume: &["point transform and rotation by a non-unit quaternion mean their documented polynomial"], extra: &[],
        },
        Prop {
            id: "C15", quick: 60_000, thorough: 1_000_000, needs_len: true, gen: gen_c15, judge: judge_c15, scen: None, extern_check: None,
            rule: "batches of executions of one call, each with the caller's code panicking at one different step, distinct by operation, operands and step",
            stub: "element type, closures and sinks, which panic", assume: &["dropping the caller's values is not counted as caller code"], extra: &[],
        },
        Prop {
            id: "C16", quick: 40_000, thorough: 600_000, needs_len: true, gen: gen_c16, judge: judge_c16, scen: None, extern_check: None,
            rule: "batches of calls with corrupted arithmetic, comparisons or extreme operands on a measured stack, distinct by operation, operands and corruption steps",
            stub: "element arithmetic and comparisons (SimF, SimI); the stack below each call is filled with a pattern and read back",
            assume: &["the limit applies to an optimised build, element arithmetic and harness frames included"], extra: &[],
        },
        Prop {
            id: "C17", quick: 40_000, thorough: 1_000_000, needs_len: true, gen: gen_c17, judge: judge_c17, scen: None, extern_check: None,
            rule: "batches of calls, aborted and refused ones included, made under one floating-point mode, distinct by operation, operands and abort step",
            stub: "the caller's floating-point mode and panic hook; element type, closures and sinks, which panic",
            assume: &["sticky floating-point status flags and errno are not part of the ambient state"], extra: &[],
        },
        Prop {
            id: "C18", quick: 200_000, thorough: 1_500_000, needs_len: false, gen: gen_c18, judge: judge_c18, scen: None, extern_check: None,
            rule: "batches of calls with every arithmetic step off by a small relative error, distinct by operation, operands and errors",
            stub: "element arithmetic (SimF)",
            assume: &["the error is a function of the exact result of the step and of the seed", "what errors in the operands can do is estimated from six random errors"], extra: &[],
        },
        Prop {
            id: "C19", quick: 30_000, thorough: 1_000_000, needs_len: true, gen: gen_c19, judge: judge_c19, scen: None, extern_check: None,
            rule: "lives of a thread and a process with calls at several stages, distinct by calls, operands and the steps of panics and forks",
            stub: "the panicking number type, closure or sink; destructors, panic hook, exit handlers of the caller",
            assume: &[ALONE, "the forked child inherits memory as fork leaves it; other threads do not exist in it"],
            extra: &crate::life::STAGES,
        },
        Prop {
            id: "C20", quick: 60_000, thorough: 1_000_000, needs_len: false, gen: gen_c20, judge: judge_c20, scen: None, extern_check: None,
            rule: "batches of calls with operands and stack frames at different addresses, distinct by operation, operands and addresses",
            stub: "placement of operands passed by reference, start and left-over contents of the stack",
            assume: &[ALONE, "operands passed by value lie where the compiler puts them, relative to the stack's start"],
            extra: &["operands_ending_at_an_inaccessible_page", "operands_at_odd_offsets", "equal_operands_at_one_address", "stack_start_moved"],
        },
        Prop {
            id: "C21", quick: 40_000, thorough: 600_000, needs_len: true, gen: gen_c21, judge: judge_c21, scen: None, extern_check: None,
            rule: "batches of calls executed in three builds, distinct by operation, operands and corruption",
            stub: "element arithmetic and comparisons (SimF, SimI)",
            assume: &["an i32 overflow may trap in one build and wrap in another: such calls are not compared", "NaN sign and payload are not compared"],
            extra: &[],
        },
        Prop {
            id: "C22", quick: 100_000, thorough: 1_500_000, needs_len: true, gen: gen_c22, judge: judge_c22, scen: None, extern_check: None,
            rule: "batches of one call on good operands and on the same with one bad component, distinct by operation, operands, component and bad value",
            stub: "operand components",
            assume: &["what a component depends on is taken from the operations' definitions", "calls that refuse the bad operand are not compared"],
            extra: &[],
        },
        Prop {
            id: "C23", quick: 100_000, thorough: 1_500_000, needs_len: true, gen: gen_c23, judge: judge_c23, scen: None, extern_check: None,
            rule: "batches of calls on a caller's number type, on the primitive type it behaves like, and with wrong conversions, distinct by operation, operands and conversion fault",
            stub: "the caller's number type (SimF, SimI)",
            assume: &["i32 overflow, which panics, is not compared"],
            extra: &[],
        },
    ]
    .into_iter()
    .chain(scen::props())
    .collect()
}
