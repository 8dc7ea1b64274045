//! The same plan in differently built simulators: every check of C21 executes its plans here, in a
//! development build (no optimisation, debug assertions) and in a fully optimised build without
//! overflow checks and debug assertions, for this machine's processor with all its features. The two peers are processes of those builds that read plans
//! and answer with outcomes.
use crate::engine::*;
use crate::ops::{catalogue, Op, Out};
use crate::plan::*;
use std::io::{BufReader, BufWriter, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// cargo profile, its directory, flags for the compiler
pub const PEERS: [(&str, &str, &str); 2] = [("dev", "debug", ""), ("fast", "native/fast", "-C target-cpu=native")];

/// the path of a peer's build; builds for a processor are told apart by it
fn place(at: &str) -> String {
    let cpu = std::fs::read_to_string("/proc/cpuinfo").unwrap_or_default();
    let cpu: String = cpu.lines().take_while(|l| !l.is_empty()).filter(|l| l.starts_with("model") || l.starts_with("flags")).collect();
    format!("{}/{}", target(), at.replace("native", &format!("native-{:08x}", crate::rng::hash_bytes(cpu.as_bytes()) as u32)))
}
fn target() -> String {
    std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into())
}
/// builds the peers; false if that is not possible
pub fn build() -> bool {
    let dir = std::env::var("SIM_DIR").unwrap_or_else(|_| crate::check::verif().join("sim").to_string_lossy().into_owned());
    let jobs: Vec<_> = PEERS
        .iter()
        .map(|(prof, at, flags)| {
            let mut c = Command::new("cargo");
            let p = place(at);
            let t = p.rsplit_once('/').map_or(target(), |x| x.0.to_string());
            if !flags.is_empty() {
                c.env("RUSTFLAGS", flags);
            }
            c.args(["build", "--offline", "--profile", prof, "--message-format", "short"])
                .current_dir(&dir)
                .env("CARGO_TARGET_DIR", t)
                .env("CARGO_NET_OFFLINE", "true")
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::piped())
                .spawn()
        })
        .collect();
    let mut ok = true;
    for j in jobs {
        match j.and_then(|j| j.wait_with_output()) {
            Ok(o) if o.status.success() => {}
            Ok(o) => {
                eprintln!("{}", String::from_utf8_lossy(&o.stderr));
                ok = false;
            }
            Err(e) => {
                eprintln!("cannot run cargo: {}", e);
                ok = false;
            }
        }
    }
    ok
}

pub struct Peer {
    _c: Child,
    i: BufWriter<ChildStdin>,
    o: BufReader<ChildStdout>,
}
impl Peer {
    fn start(dir: &str) -> Peer {
        let mut c = match Command::new(format!("{}/sim", place(dir))).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn() {
            Ok(c) => c,
            Err(e) => {
                eprintln!("no {} build of the simulator: {}", dir, e);
                unsafe { libc::_exit(2) }
            }
        };
        Peer { i: BufWriter::new(c.stdin.take().unwrap()), o: BufReader::new(c.stdout.take().unwrap()), _c: c }
    }
    fn num(&mut self) -> u64 {
        let mut b = [0; 8];
        if self.o.read_exact(&mut b).is_err() {
            eprintln!("a peer process died");
            unsafe { libc::_exit(2) }
        }
        u64::from_le_bytes(b)
    }
    /// executes the plan there
    pub fn ask(&mut self, text: &str) -> (u64, Vec<Got>) {
        let _ = self.i.write_all(&(text.len() as u64).to_le_bytes());
        let _ = self.i.write_all(text.as_bytes());
        let _ = self.i.flush();
        let end = self.num();
        let n = self.num();
        let mut v = vec![];
        for _ in 0..n {
            let (status, panic) = (self.num() as u32, self.num() as u32);
            let mut out = Out::new();
            out.tag = self.num() as u32;
            for _ in 0..self.num() {
                let x = self.num();
                out.raw(x);
            }
            let mut msg = vec![0; self.num() as usize];
            if self.o.read_exact(&mut msg).is_err() {
                unsafe { libc::_exit(2) }
            }
            v.push(Got { status, panic, out, msg: String::from_utf8_lossy(&msg).into_owned() });
        }
        (end, v)
    }
}
pub struct Got {
    pub status: u32,
    pub panic: u32,
    pub out: Out,
    pub msg: String,
}
static mut RUNNING: Option<Vec<Peer>> = None;
pub fn peers() -> &'static mut Vec<Peer> {
    unsafe {
        let r = &mut *core::ptr::addr_of_mut!(RUNNING);
        r.get_or_insert_with(|| PEERS.iter().map(|(_, d, _)| Peer::start(d)).collect())
    }
}

pub fn cstr(m: &[u8]) -> &[u8] {
    &m[..m.iter().position(|c| *c == 0).unwrap_or(m.len())]
}
fn end_code(e: &End) -> u64 {
    match e {
        End::Exit(0) => 0,
        End::Hang => 1,
        _ => 2,
    }
}
pub fn code(r: &Ran) -> u64 {
    end_code(&r.end)
}
pub fn serve() {
    install_hook();
    alloc_shm();
    let cat: Vec<Op> = catalogue();
    // what the library may print must not get into the answers
    let mut o = unsafe {
        use std::os::fd::FromRawFd;
        let o = std::fs::File::from_raw_fd(libc::dup(1));
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
        libc::close(n);
        o
    };
    let mut i = std::io::stdin().lock();
    loop {
        let mut b = [0; 8];
        if i.read_exact(&mut b).is_err() {
            return;
        }
        let mut t = vec![0; u64::from_le_bytes(b) as usize];
        if i.read_exact(&mut t).is_err() {
            return;
        }
        let Some((_, p)) = from_text(&String::from_utf8_lossy(&t), &cat) else { return };
        let r = execute(&p, &cat, None);
        let mut a: Vec<u8> = vec![];
        put(&mut a, code(&r));
        put(&mut a, r.slots.len() as u64);
        for s in &r.slots {
            put(&mut a, s.status as u64);
            put(&mut a, s.panic as u64);
            put(&mut a, s.out.tag as u64);
            put(&mut a, s.out.n as u64);
            s.out.w[..s.out.n as usize].iter().for_each(|x| put(&mut a, *x));
            put(&mut a, cstr(&s.msg).len() as u64);
            a.extend(cstr(&s.msg));
        }
        if o.write_all(&a).is_err() {
            return;
        }
    }
}
fn put(a: &mut Vec<u8>, x: u64) {
    a.extend(x.to_le_bytes())
}
