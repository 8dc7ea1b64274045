//! The two feature configurations: builds this simulator against the library's
//! documented no-std configuration and compares, call by call, results that
//! depend on the element arithmetic only (SimF, SimI, i32).
use crate::args::Arg;
use crate::check::Stats;
use crate::elem::Ty;
use crate::engine::*;
use crate::ops::{catalogue, Op};
use crate::plan::*;
use crate::rng::Rng;
use std::process::{Command, Stdio};

fn calls(cat: &[Op], seed: u64, n: u64) -> Vec<Call> {
    let mut v = vec![];
    for (op, o) in cat.iter().enumerate() {
        for ty in [Ty::SF, Ty::SI, Ty::I32] {
            if !o.has(ty) {
                continue;
            }
            for k in 0..n {
                let mut r = Rng::derive(seed, o.name, k * 8 + ty as u64);
                let arg = Arg { seed: r.below(4000) as u32, prof: [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 14][r.us(10)], var: 0 };
                v.push(Call { op, ty, arg, reps: 1, evs: vec![] });
            }
        }
    }
    v
}
fn label(cat: &[Op], c: &Call) -> String {
    format!("{}<{}>(seed={},prof={},var={})", cat[c.op].name, c.ty.name(), c.arg.seed, c.arg.prof, c.arg.var)
}
/// one line per call: label, outcome
pub fn dump(seed: u64, n: u64) {
    install_hook();
    alloc_shm();
    let cat = catalogue();
    let all = calls(&cat, seed, n);
    for chunk in all.chunks(48) {
        let mut p = Plan::new();
        p.threads = false;
        p.budget = 2_000_000;
        p.calls = chunk.to_vec();
        p.tasks.push((0..chunk.len()).collect());
        let r = execute(&p, &cat, None);
        for (c, s) in chunk.iter().zip(&r.slots) {
            let o = if s.status == ST_DONE || s.status == ST_PANIC { format!("{:016x}", s.out.hash()) } else { "none".into() };
            println!("{} {}", label(&cat, c), o);
        }
    }
}
pub fn compare(cat: &[Op], seed: u64, thorough: bool, st: &mut Stats) -> Result<(), String> {
    let n: u64 = if thorough { 600 } else { 40 };
    let dir = std::env::var("SIM_DIR").unwrap_or_else(|_| crate::check::verif().join("sim").to_string_lossy().into_owned());
    let tgt = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into()) + "/nostd";
    let b = Command::new("cargo")
        .args(["build", "--release", "--offline", "--no-default-features", "--features", "nostd-conf", "--message-format", "short"])
        .current_dir(&dir)
        .env("CARGO_TARGET_DIR", &tgt)
        .env("CARGO_NET_OFFLINE", "true")
        .stdin(Stdio::null())
        .output();
    let b = match b {
        Ok(b) => b,
        Err(e) => {
            eprintln!("cannot run cargo: {}", e);
            std::process::exit(2);
        }
    };
    if !b.status.success() {
        let e = String::from_utf8_lossy(&b.stderr);
        let lib: Vec<&str> = e.lines().filter(|l| l.contains("error") && (l.contains("/repo/") || l.contains("static-math") || l.starts_with("src/"))).take(4).collect();
        if lib.is_empty() {
            eprintln!("{}", e);
            std::process::exit(2);
        }
        return Err(format!("the crate does not build with features=[\"no-std\"], default-features=false: {}", lib.join(" | ")));
    }
    let other = Command::new(format!("{}/release/sim", tgt))
        .args(["dump", &seed.to_string(), &n.to_string()])
        .stdin(Stdio::null())
        .output();
    let mine = Command::new(std::env::current_exe().unwrap()).args(["dump", &seed.to_string(), &n.to_string()]).stdin(Stdio::null()).output();
    let (Ok(o), Ok(m)) = (other, mine) else {
        eprintln!("cannot run the two configurations");
        std::process::exit(2);
    };
    let (o, m) = (String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&m.stdout).into_owned());
    let lines = calls(cat, seed, n).len();
    if o.lines().count() != lines || m.lines().count() != lines {
        eprintln!("incomplete dump: {} {} {}", lines, o.lines().count(), m.lines().count());
        std::process::exit(2);
    }
    for (a, b) in m.lines().zip(o.lines()) {
        st.extra[1] += 1;
        if a != b {
            return Err(format!("the same call with the same element arithmetic differs between configurations: std {} / no-std {}", a, b));
        }
    }
    Ok(())
}
