//! Symbolic interpreter.
use crate::expr::{self, *};
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    W([u64; 2]),
    S(N),
    A(Arc<[Val]>),
}
impl Val {
    pub fn from_u128(v: u128, w: u32) -> Val {
        if w <= 64 {
            Val::I(v as u64 & maskw(w as u8) as u64)
        } else {
            let v = v & maskw(w as u8);
            Val::W([v as u64, (v >> 64) as u64])
        }
    }
    pub fn u128(&self) -> u128 {
        match self {
            Val::I(v) => *v as u128,
            Val::W(w) => w[0] as u128 | (w[1] as u128) << 64,
            Val::S(n) => panic!("u128 of symbolic {:?}", n),
            Val::A(_) => panic!("u128 of aggregate"),
        }
    }
    pub fn node(&self, w: u32) -> N {
        match self {
            Val::S(n) => n,
            _ => cst(self.u128(), w as u8),
        }
    }
    pub fn of(n: N) -> Val {
        match n.konst() {
            Some(k) => Val::from_u128(k, n.w as u32),
            None => Val::S(n),
        }
    }
    fn is_conc(&self) -> bool {
        matches!(self, Val::I(_) | Val::W(_))
    }
}

#[derive(Clone)]
pub struct Frame {
    f: u32,
    pc: u32,
    base: u32,
    ret: u32, // u32::MAX none
    sp: u64,
}
#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    regs: Vec<Val>,
    mem: MemBox,
    sp: u64,
    brk: u64,
    cons: Vec<N>,
    multi: u128,
    dom: Vec<TTab>,
    vars: Vec<N>,
    model: Vec<u8>,
    pending: Option<N>,
    icount: u64,
    forks: u32,
    notes: Vec<Arc<Vec<N>>>,
}
struct MemBox(Mem);
impl Clone for MemBox {
    fn clone(&self) -> Self {
        unreachable!()
    }
}
impl State {
    fn fork(&mut self) -> State {
        State {
            frames: self.frames.clone(),
            regs: self.regs.clone(),
            mem: MemBox(self.mem.0.fork()),
            sp: self.sp,
            brk: self.brk,
            cons: self.cons.clone(),
            multi: self.multi,
            dom: self.dom.clone(),
            vars: self.vars.clone(),
            model: self.model.clone(),
            pending: self.pending,
            icount: self.icount,
            forks: self.forks + 1,
            notes: self.notes.clone(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum OutKind {
    Ok,
    Assume,
    Check(String),
    Panic(String),
    Fault(String),
    Limit(String),
    Inconclusive(String),
}
#[derive(Clone, Debug)]
pub struct PathEnd {
    pub kind: OutKind,
    pub draws: Vec<u8>,
    pub notes: Vec<Vec<u8>>,
    pub icount: u64,
    pub cons: usize,
    pub stack: Vec<String>,
}
enum Stop {
    End(OutKind),
}
type R<T> = Result<T, Stop>;
fn end<T>(k: OutKind) -> R<T> {
    Err(Stop::End(k))
}
fn inc<T>(s: impl Into<String>) -> R<T> {
    end(OutKind::Inconclusive(s.into()))
}
impl From<Fault> for Stop {
    fn from(f: Fault) -> Stop {
        Stop::End(OutKind::Fault(format!("invalid memory access at {:#x}", f.0)))
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub ok: u64,
    pub assume: u64,
    pub insts: u64,
    pub forks: u64,
    pub dec_table: u64,
    pub certs: u64,
    pub cert_hits: u64,
    pub dec_multi: u64,
    pub dec_syn: u64,
    pub dec_local: u64,
    pub checks_const: u64,
    pub checks_solver: u64,
    pub checks_table: u64,
    pub luts: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub qcache: u64,
    pub fd: u64,
    pub fd_unsat: u64,
    pub fd_cross: u64,
    pub solver_s: f64,
    pub max_q_s: f64,
    pub maxcons: u64,
    pub max_path_insts: u64,
}

pub struct Shared {
    pub m: &'static Module,
    pub queue: Mutex<Vec<State>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub nthreads: usize,
    pub stop: AtomicBool,
    pub deadline: Instant,
    pub max_path: u64,
    pub thorough: bool,
    pub ends: Mutex<Vec<PathEnd>>,    // violations / inconclusive
    pub samples: Mutex<Vec<PathEnd>>, // ok paths
    pub nsamples: usize,
    pub paths: AtomicU64,
    pub reached: Mutex<HashMap<String, u64>>,
    pub stats: Mutex<Stats>,
    pub max_bad: usize,
    pub qcache: Vec<Mutex<FxMap<u128, Option<Vec<(u8, u8)>>>>>,
    pub prof: bool,
    pub forkprof: Mutex<HashMap<String, u64>>,
    pub seed: u64,
}

const FD_LIMIT: u64 = 1024;
/// per worker: how long infeasibility verdicts of the evaluator are re-proved by Z3
const FD_REPROVE: std::time::Duration = std::time::Duration::from_secs(6);
pub const HEAP: u64 = 0x1000_0000;
pub const STACK: u64 = 0x8000_0000;
pub const STACK_MAX: u64 = 64 << 20;

// external function kinds
macro_rules! kinds { ($($n:ident = $v:expr),* $(,)?) => { $(pub const $n: u32 = $v;)* } }
kinds! {
    X_NONE=0, X_BYTE=1, X_PICK=2, X_ASSUME=3, X_FAIL=4, X_CHECK=5, X_REACH=6, X_NOTE=7, X_THOROUGH=8,
    X_MALLOC=10, X_CALLOC=11, X_REALLOC=12, X_FREE=13, X_MEMALIGN=14, X_BCMP=15, X_MEMCMP=16, X_STRLEN=17,
    X_HASH=20, X_PANIC=21, X_ABORT=22, X_RANDOM=23, X_ZERO=24, X_WRITE=25, X_ERRNO=26, X_DEFINED=27, X_MEMCHR=28, X_ENOENT=29, X_SYSCONF=30, X_ENOENT64=31,
}
pub fn ext_kind(n: &str) -> u32 {
    match n {
        "sx_byte" => X_BYTE,
        "sx_pick" => X_PICK,
        "sx_assume_" => X_ASSUME,
        "sx_fail_" => X_FAIL,
        "sx_check_" => X_CHECK,
        "sx_reach_" => X_REACH,
        "sx_note_" => X_NOTE,
        "sx_is_thorough" => X_THOROUGH,
        "malloc" => X_MALLOC,
        "calloc" => X_CALLOC,
        "realloc" => X_REALLOC,
        "free" => X_FREE,
        "posix_memalign" => X_MEMALIGN,
        "bcmp" => X_BCMP,
        "memcmp" => X_MEMCMP,
        "strlen" => X_STRLEN,
        "abort" => X_ABORT,
        "getrandom" => X_RANDOM,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific"
        | "gettid" | "sched_yield" => X_ZERO,
        "open64" | "open" | "sched_getaffinity" | "statx" | "stat64" => X_ENOENT,
        "readlink" | "syscall" => X_ENOENT64,
        "sysconf" => X_SYSCONF,
        "write" => X_WRITE,
        "__errno_location" => X_ERRNO,
        _ => {
            if n.contains("8hash_one") {
                X_HASH
            } else if n.contains("rust_begin_unwind") {
                X_PANIC
            } else {
                X_NONE
            }
        }
    }
}
kinds! {
    I_NONE=0, I_MEMCPY=1, I_MEMMOVE=2, I_MEMSET=3, I_UMIN=4, I_UMAX=5, I_SMIN=6, I_SMAX=7, I_ABS=8, I_CTLZ=9, I_CTTZ=10,
    I_CTPOP=11, I_BSWAP=12, I_BITREV=13, I_FSHL=14, I_FSHR=15, I_UADDO=16, I_USUBO=17, I_UMULO=18, I_SADDO=19, I_SSUBO=20,
    I_SMULO=21, I_UADDS=22, I_USUBS=23, I_SADDS=24, I_SSUBS=25, I_TLS=26, I_ISCONST=27, I_UCMP=28, I_SCMP=29, I_TRAP=30,
    I_EXPECT=31, I_OBJSIZE=32, I_PTRMASK=33, I_VREDOR=34, I_VREDAND=35, I_VREDADD=36, I_VREDUMAX=37, I_STACKSAVE=38, I_XGETBV=39,
    I_LOADREL=40,
}
pub fn intr_kind(n: &str) -> u32 {
    let s = |p: &str| n.starts_with(p);
    if s("llvm.memcpy") {
        I_MEMCPY
    } else if s("llvm.memmove") {
        I_MEMMOVE
    } else if s("llvm.memset") {
        I_MEMSET
    } else if s("llvm.umin.") {
        I_UMIN
    } else if s("llvm.umax.") {
        I_UMAX
    } else if s("llvm.smin.") {
        I_SMIN
    } else if s("llvm.smax.") {
        I_SMAX
    } else if s("llvm.abs.") {
        I_ABS
    } else if s("llvm.ctlz.") {
        I_CTLZ
    } else if s("llvm.cttz.") {
        I_CTTZ
    } else if s("llvm.ctpop.") {
        I_CTPOP
    } else if s("llvm.bswap.") {
        I_BSWAP
    } else if s("llvm.bitreverse.") {
        I_BITREV
    } else if s("llvm.fshl.") {
        I_FSHL
    } else if s("llvm.fshr.") {
        I_FSHR
    } else if s("llvm.uadd.with") {
        I_UADDO
    } else if s("llvm.usub.with") {
        I_USUBO
    } else if s("llvm.umul.with") {
        I_UMULO
    } else if s("llvm.sadd.with") {
        I_SADDO
    } else if s("llvm.ssub.with") {
        I_SSUBO
    } else if s("llvm.smul.with") {
        I_SMULO
    } else if s("llvm.uadd.sat") {
        I_UADDS
    } else if s("llvm.usub.sat") {
        I_USUBS
    } else if s("llvm.threadlocal") {
        I_TLS
    } else if s("llvm.is.constant") {
        I_ISCONST
    } else if s("llvm.ucmp") {
        I_UCMP
    } else if s("llvm.scmp") {
        I_SCMP
    } else if s("llvm.trap") {
        I_TRAP
    } else if s("llvm.expect") {
        I_EXPECT
    } else if s("llvm.vector.reduce.or") {
        I_VREDOR
    } else if s("llvm.vector.reduce.and") {
        I_VREDAND
    } else if s("llvm.vector.reduce.add") {
        I_VREDADD
    } else if s("llvm.vector.reduce.umax") {
        I_VREDUMAX
    } else if s("llvm.load.relative") {
        I_LOADREL
    } else {
        I_NONE
    }
}

pub fn init_state(m: &'static Module, entry: &str) -> State {
    let mut mem = Mem::new();
    let last = m.globals.last().map(|g| g.addr + g.size + 64).unwrap_or(GLOB_BASE);
    mem.glob = (GLOB_BASE, last);
    mem.heap = (HEAP, HEAP);
    mem.stack = (STACK, STACK + STACK_MAX);
    {
        let mut ts = m.types.lock().unwrap();
        for g in &m.globals {
            if g.external {
                continue;
            }
            let mut lx = Lx::new(&m.text[..g.init.1], g.init.0);
            let k = Module::kind_of(&ts, g.ty);
            let v = m.constant(&mut lx, &mut ts, g.ty);
            write_const(&mut mem, g.addr, &k, &v);
        }
    }
    let f = m.fmap[entry];
    let code = m.code(f);
    assert_eq!(code.nparams, 0);
    State {
        frames: vec![Frame { f: f as u32, pc: 0, base: 0, ret: u32::MAX, sp: STACK + 4096 }],
        regs: vec![Val::I(0); code.nregs as usize],
        mem: MemBox(mem),
        sp: STACK + 4096,
        brk: HEAP,
        cons: vec![],
        multi: 0,
        dom: vec![],
        vars: vec![],
        model: vec![],
        pending: None,
        icount: 0,
        forks: 0,
        notes: vec![],
    }
}
fn write_const(mem: &mut Mem, a: u64, k: &Kind, v: &Val) {
    match (k, v) {
        (Kind::Int(w), v) => {
            let n = (*w as usize + 7) / 8;
            let x = v.u128();
            for i in 0..n {
                let b = (x >> (8 * i)) as u64 & 255;
                if b != 0 && mem.write(a + i as u64, 1, b).is_err() {
                    panic!("init");
                }
            }
        }
        (Kind::Agg(fs, _), Val::A(vs)) => {
            for ((o, k), v) in fs.iter().zip(vs.iter()) {
                write_const(mem, a + o, k, v);
            }
        }
        (Kind::Vec(w, _), Val::A(vs)) => {
            for (i, v) in vs.iter().enumerate() {
                write_const(mem, a + i as u64 * (*w as u64 / 8), &Kind::Int(*w), v);
            }
        }
        _ => panic!("write_const"),
    }
}

pub struct Worker {
    pub sh: Arc<Shared>,
    pub stack: Vec<State>,
    pub sol: Solver,
    pub st: Stats,
    reached: HashMap<String, u64>,
    forkprof: HashMap<String, u64>,
    nextsample: u64,
    rng: u64,
    certified: FxMap<(TTab, TTab), ()>,
}

fn bit(t: &TTab, i: u8) -> bool {
    (t[i as usize >> 6] >> (i & 63)) & 1 == 1
}
fn tand(a: &TTab, b: &TTab) -> TTab {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn tandn(a: &TTab, b: &TTab) -> TTab {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
fn tempty(a: &TTab) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
fn tfirst(a: &TTab) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i * 64) as u8 + a[i].trailing_zeros() as u8;
        }
    }
    0
}
fn vid(v: N) -> usize {
    match v.op {
        Op::Var { id, .. } => id as usize,
        _ => panic!("vid"),
    }
}
fn icmp_c(p: Pred, a: u64, b: u64, w: u8) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        _ => {
            let (x, y) = (sext64(a, w as u32) as i64, sext64(b, w as u32) as i64);
            match p {
                Pred::Sgt => x > y,
                Pred::Sge => x >= y,
                Pred::Slt => x < y,
                _ => x <= y,
            }
        }
    }
}
fn icmp_n(p: Pred, a: N, b: N) -> N {
    match p {
        Pred::Eq => eq(a, b),
        Pred::Ne => not(eq(a, b)),
        Pred::Ugt => ult(b, a),
        Pred::Uge => not(ult(a, b)),
        Pred::Ult => ult(a, b),
        Pred::Ule => not(ult(b, a)),
        Pred::Sgt => slt(b, a),
        Pred::Sge => not(slt(a, b)),
        Pred::Slt => slt(a, b),
        Pred::Sle => not(slt(b, a)),
    }
}
#[inline(always)]
fn bin_c(op: BinOp, x: u64, y: u64, w: u8) -> Option<u64> {
    let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
    Some(
        m & match op {
            BinOp::Add => x.wrapping_add(y),
            BinOp::Sub => x.wrapping_sub(y),
            BinOp::Mul => x.wrapping_mul(y),
            BinOp::And => x & y,
            BinOp::Or => x | y,
            BinOp::Xor => x ^ y,
            BinOp::Shl => {
                if y >= w as u64 {
                    0
                } else {
                    x << y
                }
            }
            BinOp::LShr => {
                if y >= w as u64 {
                    0
                } else {
                    x >> y
                }
            }
            BinOp::AShr => ((sext64(x, w as u32) as i64) >> y.min(w as u64 - 1)) as u64,
            BinOp::UDiv => {
                if y == 0 {
                    return None;
                }
                x / y
            }
            BinOp::URem => {
                if y == 0 {
                    return None;
                }
                x % y
            }
            BinOp::SDiv | BinOp::SRem => {
                if y == 0 {
                    return None;
                }
                fold_bin(op, x as u128, y as u128, w) as u64
            }
        },
    )
}

impl Worker {
    pub fn new(sh: Arc<Shared>, i: usize) -> Worker {
        let rng = sh.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ ((i as u64 + 1) << 32);
        Worker {
            sh,
            stack: vec![],
            sol: Solver::new(60_000),
            st: Stats::default(),
            reached: HashMap::new(),
            forkprof: HashMap::new(),
            nextsample: 1,
            rng,
            certified: FxMap::default(),
        }
    }
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    pub fn main_loop(&mut self) {
        loop {
            if self.sh.stop.load(Ordering::Relaxed) {
                break;
            }
            let s = match self.stack.pop() {
                Some(s) => s,
                None => {
                    let mut q = self.sh.queue.lock().unwrap();
                    self.sh.idle.fetch_add(1, Ordering::SeqCst);
                    let got = loop {
                        if self.sh.stop.load(Ordering::Relaxed) {
                            break None;
                        }
                        if let Some(s) = q.pop() {
                            self.sh.idle.fetch_sub(1, Ordering::SeqCst);
                            break Some(s);
                        }
                        if self.sh.idle.load(Ordering::SeqCst) == self.sh.nthreads {
                            self.sh.stop.store(true, Ordering::SeqCst);
                            self.sh.cv.notify_all();
                            break None;
                        }
                        q = self.sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                    };
                    match got {
                        Some(s) => s,
                        None => break,
                    }
                }
            };
            self.run_path(s);
        }
        self.st.queries = self.sol.queries;
        self.st.sat = self.sol.sat;
        self.st.unsat = self.sol.unsat;
        self.st.unknown = self.sol.unknown;
        self.st.solver_s = self.sol.time.as_secs_f64();
        self.st.max_q_s = self.sol.max_time.as_secs_f64();
        let mut g = self.sh.stats.lock().unwrap();
        let a = &self.st;
        g.paths += a.paths;
        g.ok += a.ok;
        g.assume += a.assume;
        g.insts += a.insts;
        g.forks += a.forks;
        g.dec_table += a.dec_table;
        g.certs += a.certs;
        g.cert_hits += a.cert_hits;
        g.dec_multi += a.dec_multi;
        g.dec_syn += a.dec_syn;
        g.dec_local += a.dec_local;
        g.checks_const += a.checks_const;
        g.checks_solver += a.checks_solver;
        g.checks_table += a.checks_table;
        g.luts += a.luts;
        g.queries += a.queries;
        g.sat += a.sat;
        g.unsat += a.unsat;
        g.unknown += a.unknown;
        g.qcache += a.qcache;
        g.fd += a.fd;
        g.fd_cross += a.fd_cross;
        g.fd_unsat += a.fd_unsat;
        g.solver_s += a.solver_s;
        g.max_q_s = g.max_q_s.max(a.max_q_s);
        g.maxcons = g.maxcons.max(a.maxcons);
        g.max_path_insts = g.max_path_insts.max(a.max_path_insts);
        drop(g);
        let mut r = self.sh.reached.lock().unwrap();
        for (k, v) in &self.reached {
            *r.entry(k.clone()).or_insert(0) += v;
        }
        let mut r = self.sh.forkprof.lock().unwrap();
        for (k, v) in &self.forkprof {
            *r.entry(k.clone()).or_insert(0) += v;
        }
    }

    fn run_path(&mut self, mut s: State) {
        let i0 = s.icount;
        let r = if Instant::now() > self.sh.deadline { inc("time limit") } else { self.run(&mut s) };
        self.st.insts += s.icount - i0;
        let Err(Stop::End(kind)) = r else { return };
        // the maintained model must satisfy the path condition
        if !matches!(kind, OutKind::Inconclusive(_)) {
            for c in &s.cons {
                if expr::eval(c, &s.model) != 1 {
                    panic!("engine invariant: model does not satisfy the path condition: {:?}", c);
                }
            }
            for (i, d) in s.dom.iter().enumerate() {
                assert!(bit(d, s.model[i]), "engine invariant: model outside domain");
            }
        }
        self.st.maxcons = self.st.maxcons.max(s.cons.len() as u64);
        self.st.max_path_insts = self.st.max_path_insts.max(s.icount);
        let pe = |s: &State, kind: OutKind| PathEnd {
            kind,
            draws: s.model.clone(),
            notes: s.notes.iter().map(|n| n.iter().map(|b| expr::eval(b, &s.model) as u8).collect()).collect(),
            icount: s.icount,
            cons: s.cons.len(),
            stack: vec![],
        };
        match kind {
            OutKind::Assume => {
                self.st.assume += 1;
            }
            OutKind::Ok => {
                self.st.paths += 1;
                self.st.ok += 1;
                self.sh.paths.fetch_add(1, Ordering::Relaxed);
                if self.st.ok >= self.nextsample {
                    // geometric spacing plus jitter so that samples spread over the run
                    let j = self.rnd() % 4;
                    self.nextsample = self.st.ok + 1 + self.st.ok / 6 + j;
                    let e = pe(&s, OutKind::Ok);
                    self.sh.samples.lock().unwrap().push(e);
                }
            }
            k => {
                self.st.paths += 1;
                self.sh.paths.fetch_add(1, Ordering::Relaxed);
                let mut e = pe(&s, k);
                e.stack = s.frames.iter().rev().take(14).map(|fr| short(&self.sh.m.funcs[fr.f as usize].name)).collect();
                let mut g = self.sh.ends.lock().unwrap();
                g.push(e);
                if g.len() >= self.sh.max_bad {
                    self.sh.stop.store(true, Ordering::SeqCst);
                    self.sh.cv.notify_all();
                }
            }
        }
    }

    fn push_fork(&mut self, st: State) {
        self.st.forks += 1;
        if self.sh.prof {
            let mut key = String::new();
            for fr in st.frames.iter().rev().take(3) {
                key.push_str(&short(&self.sh.m.funcs[fr.f as usize].name));
                key.push_str(" < ");
            }
            *self.forkprof.entry(key).or_insert(0) += 1;
        }
        self.stack.push(st);
        if self.sh.idle.load(Ordering::Relaxed) > 0 && self.stack.len() > 0 {
            let s = self.stack.remove(0);
            self.sh.queue.lock().unwrap().push(s);
            self.sh.cv.notify_one();
        }
    }

    // ------------------------------------------------ constraints
    fn assume_into(s: &mut State, c: N) {
        if c.konst().is_some() {
            return;
        }
        match c.op {
            Op::TT(v, t) => {
                let i = vid(v);
                s.dom[i] = tand(&s.dom[i], &t);
            }
            Op::Bin(BinOp::And, a, b) => {
                Self::assume_into(s, a);
                Self::assume_into(s, b);
            }
            Op::Bin(BinOp::Xor, x, k) if k.konst() == Some(1) => {
                if let Op::Bin(BinOp::Or, a, b) = x.op {
                    Self::assume_into(s, not(a));
                    Self::assume_into(s, not(b));
                } else {
                    s.multi |= c.mask;
                    s.cons.push(c);
                }
            }
            _ => {
                s.multi |= c.mask;
                s.cons.push(c);
            }
        }
    }
    fn slice(s: &State, mask0: u128) -> (Vec<N>, u128) {
        let mut mask = mask0;
        let mut taken = vec![false; s.cons.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in s.cons.iter().enumerate() {
                if !taken[i] && c.mask & mask != 0 {
                    taken[i] = true;
                    mask |= c.mask;
                    out.push(*c);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        (out, mask)
    }
    /// is PC && cond satisfiable? returns variable updates
    fn feasible(&mut self, s: &State, cond: N) -> R<Option<Vec<(u8, u8)>>> {
        let (mut conj, mask) = Self::slice(s, cond.mask);
        // local search: change one variable of cond
        let mut model = s.model.clone();
        let mut m = cond.mask;
        let mut tries = 0;
        while m != 0 && tries < 48 {
            let v = m.trailing_zeros() as usize;
            m &= m - 1;
            let old = model[v];
            let mut d = s.dom[v];
            if let Op::TT(_, t) = cond.op {
                d = tand(&d, &t);
            }
            let mut k = 0;
            while !tempty(&d) && k < 12 {
                // spread the candidates
                let b = if k == 0 { tfirst(&d) } else { self.pick_bit(&d) };
                d[b as usize >> 6] &= !(1 << (b & 63));
                model[v] = b;
                k += 1;
                tries += 1;
                if expr::eval(cond, &model) == 1 && conj.iter().all(|c| expr::eval(c, &model) == 1) {
                    self.st.dec_local += 1;
                    return Ok(Some(vec![(v as u8, b)]));
                }
            }
            model[v] = old;
        }
        conj.push(cond);
        self.query(s, conj, mask)
    }
    fn pick_bit(&mut self, d: &TTab) -> u8 {
        let r = self.rnd();
        for k in 0..4 {
            let i = ((r as usize) + k) & 3;
            if d[i] != 0 {
                let sh = (r >> 8) as u32 & 63;
                let x = d[i].rotate_right(sh);
                return (i * 64) as u8 + ((x.trailing_zeros() + sh) & 63) as u8;
            }
        }
        tfirst(d)
    }
    fn query(&mut self, s: &State, mut conj: Vec<N>, mask: u128) -> R<Option<Vec<(u8, u8)>>> {
        conj.sort_by_key(|c| c.id);
        conj.dedup_by_key(|c| c.id);
        let mut vars = vec![];
        let mut m = mask;
        while m != 0 {
            let v = m.trailing_zeros() as usize;
            m &= m - 1;
            vars.push((v as u8, s.dom[v]));
        }
        // cache key
        let mut h = [0u64; 2];
        for (j, hh) in h.iter_mut().enumerate() {
            use std::hash::Hasher;
            let mut f = Fx::default();
            f.write_u64(j as u64 * 77 + 1);
            for c in &conj {
                f.write_u64(c.id as u64)
            }
            for (v, d) in &vars {
                f.write_u64(*v as u64 + 1000);
                for x in d {
                    f.write_u64(*x)
                }
            }
            *hh = f.finish();
        }
        let key = (h[0] as u128) << 64 | h[1] as u128;
        let sh = self.sh.clone();
        let shard = &sh.qcache[(h[1] >> 5) as usize % sh.qcache.len()];
        if let Some(r) = shard.lock().unwrap().get(&key) {
            self.st.qcache += 1;
            return Ok(r.clone());
        }
        let mut prod = 1u64;
        for (_, d) in &vars {
            prod = prod.saturating_mul(d.iter().map(|x| x.count_ones() as u64).sum());
        }
        // Small slices: look for a witness by evaluation first (a witness is its own
        // proof of satisfiability).  An infeasibility verdict is Z3's; once the time
        // set aside for these re-proofs is used up (only nonlinear arithmetic does
        // that), one in 32 is still given to Z3 and must agree.
        let small = prod <= FD_LIMIT;
        let mut fd = None;
        if small {
            self.st.fd += 1;
            fd = Some(Self::fd_solve(s, &conj, &vars));
            self.st.fd_unsat += matches!(fd, Some(None)) as u64;
        }
        let r = if !small || (matches!(fd, Some(None)) && (h[0] % 32 == 0 || self.sol.time < FD_REPROVE)) {
            let z = match self.sol.check(&conj, &vars) {
                Res::Sat(v) => Some(v),
                Res::Unsat => None,
                Res::Unknown => return inc("solver returned unknown (timeout)"),
            };
            if let Some(f) = &fd {
                self.st.fd_cross += 1;
                assert!(f.is_some() == z.is_some(), "finite-domain procedure and Z3 disagree");
            }
            z
        } else {
            fd.unwrap()
        };
        shard.lock().unwrap().insert(key, r.clone());
        Ok(r)
    }
    fn fd_solve(s: &State, conj: &[N], vars: &[(u8, [u64; 4])]) -> Option<Vec<(u8, u8)>> {
        let vals: Vec<Vec<u8>> = vars.iter().map(|(_, d)| (0..=255u8).filter(|&b| bit(d, b)).collect()).collect();
        if vals.iter().any(|v| v.is_empty()) {
            return None;
        }
        let mut cs: Vec<N> = conj.to_vec();
        // the newest constraint is the most likely to fail
        cs.sort_by_key(|c| std::cmp::Reverse(c.id));
        let mut ix = vec![0usize; vars.len()];
        let mut model = s.model.clone();
        loop {
            for (i, (v, _)) in vars.iter().enumerate() {
                model[*v as usize] = vals[i][ix[i]];
            }
            if expr::eval_all(&cs, &model) {
                return Some(vars.iter().map(|(v, _)| (*v, model[*v as usize])).collect());
            }
            let mut i = 0;
            loop {
                if i == ix.len() {
                    return None;
                }
                ix[i] += 1;
                if ix[i] < vals[i].len() {
                    break;
                }
                ix[i] = 0;
                i += 1;
            }
        }
    }
    /// replace subterms that are constant under the current constraints
    fn simp(&self, s: &State, n: N, memo: &mut FxMap<u32, N>) -> N {
        if n.konst().is_some() {
            return n;
        }
        if let Some(v) = n.var {
            if n.w <= 64 {
                let d = &s.dom[vid(v)];
                if let Op::TT(_, t) = n.op {
                    if tempty(&tand(d, &t)) {
                        return bool_(false);
                    }
                    if tempty(&tandn(d, &t)) {
                        return bool_(true);
                    }
                    return n;
                }
                let one = d.iter().map(|x| x.count_ones()).sum::<u32>() == 1;
                if one {
                    let b = tfirst(d);
                    return cst(table(n)[b as usize] as u128, n.w);
                }
                let t = table(n);
                let f = t[tfirst(d) as usize];
                let (l, h) = (v.lo as usize, v.hi as usize);
                for i in l..=h {
                    if bit(d, i as u8) && t[i] != f {
                        return n;
                    }
                }
                return cst(f as u128, n.w);
            }
        }
        if let Some(r) = memo.get(&n.id) {
            return r;
        }
        let r = self.simp1(s, n, memo);
        memo.insert(n.id, r);
        r
    }
    fn simp1(&self, s: &State, n: N, memo: &mut FxMap<u32, N>) -> N {
        if n.w == 1 {
            for c in s.cons.iter().rev() {
                if c.id == n.id {
                    return bool_(true);
                }
                if let Op::Bin(BinOp::Xor, x, k) = c.op {
                    if x.id == n.id && k.konst() == Some(1) {
                        return bool_(false);
                    }
                }
                if let Op::Bin(BinOp::Xor, x, k) = n.op {
                    if k.konst() == Some(1) && x.id == c.id {
                        return bool_(false);
                    }
                }
            }
        }
        match n.op {
            Op::Bin(o, a, b) => {
                let (x, y) = (self.simp(s, a, memo), self.simp(s, b, memo));
                if x.id == a.id && y.id == b.id {
                    n
                } else {
                    bin(o, x, y)
                }
            }
            Op::Eq(a, b) => {
                let (x, y) = (self.simp(s, a, memo), self.simp(s, b, memo));
                if x.id == a.id && y.id == b.id {
                    n
                } else {
                    eq(x, y)
                }
            }
            Op::Ult(a, b) => {
                let (x, y) = (self.simp(s, a, memo), self.simp(s, b, memo));
                if x.id == a.id && y.id == b.id {
                    n
                } else {
                    ult(x, y)
                }
            }
            Op::Slt(a, b) => {
                let (x, y) = (self.simp(s, a, memo), self.simp(s, b, memo));
                if x.id == a.id && y.id == b.id {
                    n
                } else {
                    slt(x, y)
                }
            }
            Op::Ite(c, a, b) => {
                let k = self.simp(s, c, memo);
                if let Some(k) = k.konst() {
                    return self.simp(s, if k != 0 { a } else { b }, memo);
                }
                let (x, y) = (self.simp(s, a, memo), self.simp(s, b, memo));
                if k.id == c.id && x.id == a.id && y.id == b.id {
                    n
                } else {
                    ite(k, x, y)
                }
            }
            Op::Concat(a, b) => {
                let (x, y) = (self.simp(s, a, memo), self.simp(s, b, memo));
                if x.id == a.id && y.id == b.id {
                    n
                } else {
                    concat(x, y)
                }
            }
            Op::Extract(a, l) => {
                let x = self.simp(s, a, memo);
                if x.id == a.id {
                    n
                } else {
                    extract(x, l, n.w)
                }
            }
            Op::Zext(a) => {
                let x = self.simp(s, a, memo);
                if x.id == a.id {
                    n
                } else {
                    zext(x, n.w)
                }
            }
            Op::Sext(a) => {
                let x = self.simp(s, a, memo);
                if x.id == a.id {
                    n
                } else {
                    sext(x, n.w)
                }
            }
            _ => n,
        }
    }
    fn simplify(&self, s: &State, n: N) -> N {
        if n.konst().is_some() {
            return n;
        }
        let mut memo = FxMap::default();
        self.simp(s, n, &mut memo)
    }

    /// The solver's verdict on a decision over one variable: which of
    /// "x in d and x in t" and "x in d and x not in t" are satisfiable.  Equal
    /// questions are asked once per worker.
    fn certify(&mut self, i: u8, d: &TTab, cond: N, t: &TTab, want_t: bool, want_f: bool) -> R<()> {
        if self.certified.contains_key(&(*d, *t)) {
            self.st.cert_hits += 1;
            return Ok(());
        }
        let c = cond;
        for (c, want) in [(c, want_t), (not(c), want_f)] {
            if c.konst().is_some() {
                continue;
            }
            let r = match self.sol.check(&[c], &[(i, *d)]) {
                Res::Sat(_) => true,
                Res::Unsat => false,
                Res::Unknown => return inc("solver gave no verdict"),
            };
            if r != want {
                return inc("solver disagrees with a table");
            }
            self.st.certs += 1;
        }
        self.certified.insert((*d, *t), ());
        Ok(())
    }
    /// Decide a branch; the current state follows its model, the other side
    /// (if feasible) is queued and re-executes the current instruction.
    fn decide(&mut self, s: &mut State, cond: N) -> R<bool> {
        let cond = match cond.op {
            Op::Const(k) => return Ok(k != 0),
            Op::TT(v, t) => {
                let i = vid(v);
                let d = s.dom[i];
                let (pt, pf) = (tand(&d, &t), tandn(&d, &t));
                self.certify(i as u8, &d, cond, &t, !tempty(&pt), !tempty(&pf))?;
                if tempty(&pf) {
                    return Ok(true);
                }
                if tempty(&pt) {
                    return Ok(false);
                }
                self.st.dec_table += 1;
                let side = bit(&t, s.model[i]);
                let other = if side { pf } else { pt };
                if s.multi & v.mask == 0 {
                    let mut o = s.fork();
                    o.dom[i] = other;
                    o.model[i] = tfirst(&other);
                    self.push_fork(o);
                    s.dom[i] = if side { pt } else { pf };
                    return Ok(side);
                }
                let oc = if side { not(cond) } else { cond };
                if let Some(up) = self.feasible(s, oc)? {
                    let mut o = s.fork();
                    o.dom[i] = other;
                    for (v, x) in up {
                        o.model[v as usize] = x;
                    }
                    self.push_fork(o);
                }
                s.dom[i] = if side { pt } else { pf };
                return Ok(side);
            }
            _ => self.simplify(s, cond),
        };
        if let Op::Const(k) = cond.op {
            self.st.dec_syn += 1;
            return Ok(k != 0);
        }
        if let Op::TT(..) = cond.op {
            return self.decide(s, cond);
        }
        // conjunction/disjunction with single-variable parts: still one decision
        self.st.dec_multi += 1;
        let side = expr::eval(cond, &s.model) == 1;
        let oc = if side { not(cond) } else { cond };
        if let Some(up) = self.feasible(s, oc)? {
            let mut o = s.fork();
            Self::assume_into(&mut o, oc);
            for (v, x) in up {
                o.model[v as usize] = x;
            }
            self.push_fork(o);
            let c = if side { cond } else { not(cond) };
            Self::assume_into(s, c);
        } else {
            // implied: remember it so that later tests of it are syntactic
            let c = if side { cond } else { not(cond) };
            if s.cons.len() < 400 {
                Self::assume_into(s, c);
            }
        }
        Ok(side)
    }
    /// Fork over the values of n; returns the value on this path.
    fn concretize(&mut self, s: &mut State, n: N) -> R<u128> {
        let mut n = self.simplify(s, n);
        loop {
            if let Some(k) = n.konst() {
                return Ok(k);
            }
            if n.var.is_some() {
                let v = expr::eval(n, &s.model);
                let c = eq(n, cst(v, n.w));
                self.decide(s, c)?;
                return Ok(v);
            }
            // multi-variable: decide an ite condition or a single-variable part
            let sub = pick_sub(n);
            if sub.id == n.id {
                let v = expr::eval(n, &s.model);
                let c = eq(n, cst(v, n.w));
                self.decide(s, c)?;
                return Ok(v);
            }
            if sub.w == 1 {
                self.decide(s, sub)?;
            } else {
                let v = expr::eval(sub, &s.model);
                let c = eq(sub, cst(v, sub.w));
                self.decide(s, c)?;
            }
            let n2 = self.simplify(s, n);
            if n2.id == n.id {
                let v = expr::eval(n, &s.model);
                let c = eq(n, cst(v, n.w));
                self.decide(s, c)?;
                return Ok(v);
            }
            n = n2;
        }
    }
    fn conc(&mut self, s: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::S(n) => Ok(self.concretize(s, n)? as u64),
            _ => inc("conc of wide"),
        }
    }

    // ------------------------------------------------ memory values
    fn load_int(&mut self, s: &mut State, a: u64, w: u32) -> R<Val> {
        let n = (w as usize + 7) / 8;
        if n <= 8 {
            if let Some(v) = s.mem.0.read(a, n)? {
                return Ok(Val::I(if w < 64 { v & maskw(w as u8) as u64 } else { v }));
            }
        } else if let (Some(l), Some(h)) = (s.mem.0.read(a, 8)?, s.mem.0.read(a + 8, n - 8)?) {
            return Ok(Val::from_u128(l as u128 | (h as u128) << 64, w));
        }
        Ok(Val::of(s.mem.0.read_sym(a, n, w as u8)?))
    }
    fn store_int(&mut self, s: &mut State, a: u64, w: u32, v: &Val) -> R<()> {
        let n = (w as usize + 7) / 8;
        match v {
            Val::I(x) => s.mem.0.write(a, n, *x)?,
            Val::W(x) => {
                s.mem.0.write(a, 8, x[0])?;
                s.mem.0.write(a + 8, n - 8, x[1])?;
            }
            Val::S(x) => s.mem.0.write_node(a, n, x)?,
            Val::A(_) => return inc("store aggregate as int"),
        }
        Ok(())
    }
    fn load_k(&mut self, s: &mut State, a: u64, k: &Kind) -> R<Val> {
        Ok(match k {
            Kind::Int(w) => self.load_int(s, a, *w)?,
            Kind::Agg(fs, _) => {
                let mut v = vec![];
                for (o, k) in fs {
                    v.push(self.load_k(s, a + o, k)?);
                }
                Val::A(Arc::from(v))
            }
            Kind::Vec(w, n) => {
                if w % 8 != 0 {
                    return inc("bit vector load");
                }
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_int(s, a + (i * w / 8) as u64, *w)?);
                }
                Val::A(Arc::from(v))
            }
        })
    }
    fn store_k(&mut self, s: &mut State, a: u64, k: &Kind, v: &Val) -> R<()> {
        match (k, v) {
            (Kind::Int(w), v) => self.store_int(s, a, *w, v),
            (Kind::Agg(fs, _), Val::A(vs)) => {
                for ((o, k), v) in fs.iter().zip(vs.iter()) {
                    self.store_k(s, a + o, k, v)?;
                }
                Ok(())
            }
            (Kind::Vec(w, _), Val::A(vs)) => {
                if w % 8 != 0 {
                    return inc("bit vector store");
                }
                for (i, v) in vs.iter().enumerate() {
                    self.store_int(s, a + i as u64 * (*w as u64 / 8), *w, v)?;
                }
                Ok(())
            }
            _ => inc("store kind"),
        }
    }
    /// load through a symbolic address
    fn load_sym_addr(&mut self, s: &mut State, addr: N, w: u32) -> R<Val> {
        let mut addr = self.simplify(s, addr);
        loop {
            if let Some(k) = addr.konst() {
                return self.load_int(s, k as u64, w);
            }
            if let Some(v) = addr.var {
                if w <= 64 {
                    let t = table(addr);
                    let d = s.dom[vid(v)];
                    let mut out = [0u64; 256];
                    let mut ok = true;
                    let mut last: Option<(u64, u64)> = None;
                    for i in v.lo as usize..=v.hi as usize {
                        if !bit(&d, i as u8) {
                            continue;
                        }
                        let a = t[i];
                        if let Some((la, lv)) = last {
                            if la == a {
                                out[i] = lv;
                                continue;
                            }
                        }
                        match s.mem.0.read(a, (w as usize + 7) / 8) {
                            Ok(Some(x)) => {
                                let x = if w < 64 { x & maskw(w as u8) as u64 } else { x };
                                out[i] = x;
                                last = Some((a, x));
                            }
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        // fill don't-care entries
                        let f = out[tfirst(&d) as usize];
                        for i in v.lo as usize..=v.hi as usize {
                            if !bit(&d, i as u8) {
                                out[i] = f;
                            }
                        }
                        self.st.luts += 1;
                        return Ok(Val::of(mk_lut(v, &out, w as u8)));
                    }
                }
                let k = self.concretize(s, addr)?;
                return self.load_int(s, k as u64, w);
            }
            let sub = pick_sub(addr);
            if sub.id == addr.id {
                let k = self.concretize(s, addr)?;
                return self.load_int(s, k as u64, w);
            }
            if sub.w == 1 {
                self.decide(s, sub)?;
            } else {
                let v = expr::eval(sub, &s.model);
                let c = eq(sub, cst(v, sub.w));
                self.decide(s, c)?;
            }
            let n2 = self.simplify(s, addr);
            if n2.id == addr.id {
                let k = self.concretize(s, addr)?;
                return self.load_int(s, k as u64, w);
            }
            addr = n2;
        }
    }

    // ------------------------------------------------ values
    fn bin_val(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut v = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.bin_val(op, w, p, q)?);
                }
                Ok(Val::A(Arc::from(v)))
            }
            (Val::I(x), Val::I(y)) if w <= 64 => match bin_c(op, *x, *y, w as u8) {
                Some(v) => Ok(Val::I(v)),
                None => end(OutKind::Fault("division by zero".into())),
            },
            _ => {
                if a.is_conc() && b.is_conc() {
                    return Ok(Val::from_u128(fold_bin(op, a.u128(), b.u128(), w as u8), w));
                }
                Ok(Val::of(bin(op, a.node(w), b.node(w))))
            }
        }
    }
    fn icmp_val(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let v: Vec<Val> = x.iter().zip(y.iter()).map(|(p1, q)| self.icmp_val(p, w, p1, q)).collect();
                Val::A(Arc::from(v))
            }
            (Val::I(x), Val::I(y)) => Val::I(icmp_c(p, *x, *y, w as u8) as u64),
            _ => Val::of(icmp_n(p, a.node(w), b.node(w))),
        }
    }
    fn cast_val(&mut self, op: CastOp, fw: u32, tw: u32, a: &Val) -> Val {
        match a {
            Val::I(x) if tw <= 64 => Val::I(match op {
                CastOp::Sext => sext64(*x, fw) & maskw(tw as u8) as u64,
                _ => *x & maskw(tw as u8) as u64,
            }),
            Val::S(n) => Val::of(match op {
                CastOp::Zext => zext(n, tw as u8),
                CastOp::Sext => sext(n, tw as u8),
                CastOp::Trunc => extract(n, 0, tw as u8),
                CastOp::Bit => n,
            }),
            Val::A(v) => {
                let r: Vec<Val> = v.iter().map(|x| self.cast_val(op, fw, tw, x)).collect();
                Val::A(Arc::from(r))
            }
            _ => {
                let x = a.u128();
                Val::from_u128(if op == CastOp::Sext { sx(x, fw as u8) as u128 } else { x }, tw)
            }
        }
    }
    /// bitcast through bits
    fn bitcast(&mut self, from: &Kind, to: &Kind, a: &Val) -> R<Val> {
        // split into elements of gcd width
        let (fw, fv): (u32, Vec<Val>) = match (from, a) {
            (Kind::Int(w), v) => (*w, vec![v.clone()]),
            (Kind::Vec(w, _), Val::A(v)) => (*w, v.to_vec()),
            _ => return inc("bitcast"),
        };
        let (tw, tn) = match to {
            Kind::Int(w) => (*w, 1),
            Kind::Vec(w, n) => (*w, *n),
            _ => return inc("bitcast"),
        };
        let mut out = vec![];
        if tw >= fw {
            let k = (tw / fw) as usize;
            for i in 0..tn as usize {
                let part = &fv[i * k..(i + 1) * k];
                if part.iter().all(|v| v.is_conc()) {
                    let mut x = 0u128;
                    for (j, p) in part.iter().enumerate() {
                        x |= p.u128() << (j as u32 * fw);
                    }
                    out.push(Val::from_u128(x, tw));
                } else {
                    let mut n: Option<N> = None;
                    for p in part {
                        let q = p.node(fw);
                        n = Some(match n {
                            None => q,
                            Some(l) => concat(q, l),
                        });
                    }
                    out.push(Val::of(n.unwrap()));
                }
            }
        } else {
            let k = fw / tw;
            for v in &fv {
                for j in 0..k {
                    out.push(match v {
                        Val::S(n) => Val::of(extract(n, (j * tw) as u8, tw as u8)),
                        _ => Val::from_u128(v.u128() >> (j * tw), tw),
                    });
                }
            }
        }
        Ok(match to {
            Kind::Int(_) => out.pop().unwrap(),
            _ => Val::A(Arc::from(out)),
        })
    }

    fn malloc(&mut self, s: &mut State, n: u64, align: u64) -> u64 {
        let al = align.max(16);
        let mut a = s.brk + 16;
        a = (a + al - 1) / al * al;
        s.brk = a + n.max(1);
        s.mem.0.heap.1 = s.brk;
        let _ = s.mem.0.write(a - 8, 8, n);
        a
    }

    fn pop_dst(&mut self, s: &mut State, base: usize, dst: Option<u32>, v: Val) {
        if let Some(d) = dst {
            s.regs[base + d as usize] = v;
        }
    }

    fn msg(&mut self, s: &mut State, p: u64, n: u64) -> R<String> {
        let mut v = vec![];
        for i in 0..n {
            v.push(s.mem.0.byte(p + i)?.0);
        }
        Ok(String::from_utf8_lossy(&v).into_owned())
    }

    // ------------------------------------------------ main loop
    fn run(&mut self, s: &mut State) -> R<()> {
        s.mem.0.clear_tlb();
        let m = self.sh.m;
        let mut tmp: Vec<Val> = Vec::new();
        let mut budget: u64 = 0;
        'frame: loop {
            let fi = s.frames.len() - 1;
            let (fidx, mut pc, base) = {
                let f = &s.frames[fi];
                (f.f as usize, f.pc as usize, f.base as usize)
            };
            let code: &'static Code = m.code(fidx);
            if !m.funcs[fidx].hits.load(Ordering::Relaxed) {
                m.funcs[fidx].hits.store(true, Ordering::Relaxed);
            }
            let insts: &'static [Inst] = &code.insts;
            let consts: &'static [Val] = &code.consts;
            macro_rules! g {
                ($o:expr) => {{
                    let o = $o;
                    if o & CONST != 0 {
                        unsafe { consts.get_unchecked((o & !CONST) as usize) }
                    } else {
                        unsafe { &*(s.regs.as_ptr().add(base + o as usize)) }
                    }
                }};
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    s.regs[base + $d as usize] = v;
                }};
            }
            macro_rules! sync {
                () => {
                    s.frames[fi].pc = pc as u32
                };
            }
            macro_rules! edge {
                ($e:expr) => {{
                    let e: &Edge = $e;
                    match e.copies.len() {
                        0 => {}
                        1 => {
                            let (d, o) = e.copies[0];
                            let v = g!(o).clone();
                            set!(d, v);
                        }
                        _ => {
                            tmp.clear();
                            for (_, o) in &e.copies {
                                tmp.push(g!(*o).clone());
                            }
                            for ((d, _), v) in e.copies.iter().zip(tmp.drain(..)) {
                                s.regs[base + *d as usize] = v;
                            }
                        }
                    }
                    pc = e.pc as usize;
                    continue;
                }};
            }
            loop {
                s.icount += 1;
                budget += 1;
                if budget & 0xfffff == 0 {
                    if self.sh.stop.load(Ordering::Relaxed) {
                        return end(OutKind::Assume);
                    }
                    if Instant::now() > self.sh.deadline {
                        return inc("time limit");
                    }
                    if s.icount > self.sh.max_path {
                        return end(OutKind::Limit("path instruction limit".into()));
                    }
                }
                let ins = unsafe { insts.get_unchecked(pc) };
                match ins {
                    Inst::Bin { op, w, dst, a, b } => {
                        let (x, y) = (g!(*a), g!(*b));
                        if let (Val::I(x), Val::I(y)) = (x, y) {
                            match bin_c(*op, *x, *y, *w) {
                                Some(v) => set!(*dst, Val::I(v)),
                                None => return end(OutKind::Fault("division by zero".into())),
                            }
                        } else {
                            let v = Val::of(bin(*op, x.node(*w as u32), y.node(*w as u32)));
                            set!(*dst, v);
                        }
                    }
                    Inst::Icmp { p, w, dst, a, b } => {
                        let (x, y) = (g!(*a), g!(*b));
                        if let (Val::I(x), Val::I(y)) = (x, y) {
                            set!(*dst, Val::I(icmp_c(*p, *x, *y, *w) as u64));
                        } else {
                            let v = Val::of(icmp_n(*p, x.node(*w as u32), y.node(*w as u32)));
                            set!(*dst, v);
                        }
                    }
                    Inst::BinV { op, w, dst, a, b } => {
                        let v = self.bin_val(*op, *w as u32, g!(*a), g!(*b))?;
                        set!(*dst, v);
                    }
                    Inst::IcmpV { p, w, dst, a, b } => {
                        let v = match (g!(*a), g!(*b)) {
                            (x, y) if x.is_conc() && y.is_conc() => {
                                let (x, y) = (x.u128(), y.u128());
                                let (sx_, sy) = (sx(x, *w), sx(y, *w));
                                Val::I(match p {
                                    Pred::Eq => x == y,
                                    Pred::Ne => x != y,
                                    Pred::Ugt => x > y,
                                    Pred::Uge => x >= y,
                                    Pred::Ult => x < y,
                                    Pred::Ule => x <= y,
                                    Pred::Sgt => sx_ > sy,
                                    Pred::Sge => sx_ >= sy,
                                    Pred::Slt => sx_ < sy,
                                    Pred::Sle => sx_ <= sy,
                                } as u64)
                            }
                            (x, y) => self.icmp_val(*p, *w as u32, x, y),
                        };
                        set!(*dst, v);
                    }
                    Inst::Cast { op, fw, tw, dst, a } => {
                        let x = g!(*a);
                        let v = if let (Val::I(x), true) = (x, *tw <= 64) {
                            let m = if *tw >= 64 { u64::MAX } else { (1u64 << *tw) - 1 };
                            Val::I(match op {
                                CastOp::Sext => sext64(*x, *fw as u32) & m,
                                _ => *x & m,
                            })
                        } else {
                            self.cast_val(*op, *fw as u32, *tw as u32, x)
                        };
                        set!(*dst, v);
                    }
                    Inst::CastV { op, from, to, dst, a } => {
                        let x = g!(*a).clone();
                        let v = if *op == CastOp::Bit {
                            self.bitcast(from, to, &x)?
                        } else {
                            match (&**from, &**to) {
                                (Kind::Vec(f, _), Kind::Vec(t, _)) => self.cast_val(*op, *f, *t, &x),
                                _ => return inc("castv"),
                            }
                        };
                        set!(*dst, v);
                    }
                    Inst::Move { dst, a } => {
                        let v = g!(*a).clone();
                        set!(*dst, v);
                    }
                    Inst::Select { dst, c, a, b, ptr, w } => {
                        match g!(*c) {
                            Val::I(k) => {
                                let v = if *k != 0 { g!(*a).clone() } else { g!(*b).clone() };
                                set!(*dst, v);
                            }
                            Val::S(n) => {
                                let (x, y) = (g!(*a).clone(), g!(*b).clone());
                                let scalar = !matches!(x, Val::A(_)) && !matches!(y, Val::A(_));
                                if *ptr || !scalar {
                                    let n = *n;
                                    sync!();
                                    let k = self.decide(s, n)?;
                                    set!(*dst, if k { x } else { y });
                                } else {
                                    let v = Val::of(ite(n, x.node(*w as u32), y.node(*w as u32)));
                                    set!(*dst, v);
                                }
                            }
                            Val::A(cs) => {
                                let (Val::A(x), Val::A(y)) = (g!(*a), g!(*b)) else { return inc("vector select") };
                                let mut v = vec![];
                                for i in 0..cs.len() {
                                    v.push(match &cs[i] {
                                        Val::I(k) => {
                                            if *k != 0 {
                                                x[i].clone()
                                            } else {
                                                y[i].clone()
                                            }
                                        }
                                        _ => return inc("vector select sym"),
                                    });
                                }
                                set!(*dst, Val::A(Arc::from(v)));
                            }
                            _ => return inc("select cond"),
                        }
                    }
                    Inst::GepC { dst, base: b, off } => {
                        let v = match g!(*b) {
                            Val::I(x) => Val::I(x.wrapping_add(*off)),
                            Val::S(n) => Val::of(bin(BinOp::Add, n, cst(*off as u128, 64))),
                            _ => return inc("gep"),
                        };
                        set!(*dst, v);
                    }
                    Inst::Gep1 { dst, base: b, idx, iw, scale, off } => {
                        let v = match (g!(*b), g!(*idx)) {
                            (Val::I(x), Val::I(i)) => {
                                let i = if *iw < 64 { sext64(*i, *iw as u32) } else { *i };
                                Val::I(x.wrapping_add(*off).wrapping_add(i.wrapping_mul(*scale)))
                            }
                            (x, i) => {
                                let i = sext(i.node(*iw as u32), 64);
                                let t = bin(BinOp::Mul, i, cst(*scale as u128, 64));
                                let t = bin(BinOp::Add, t, cst(*off as u128, 64));
                                Val::of(bin(BinOp::Add, t, x.node(64)))
                            }
                        };
                        set!(*dst, v);
                    }
                    Inst::GepN { dst, base: b, off, terms } => {
                        let mut acc = g!(*b).node(64);
                        acc = bin(BinOp::Add, acc, cst(*off as u128, 64));
                        for (o, iw, sc) in terms.iter() {
                            let i = sext(g!(*o).node(*iw as u32), 64);
                            acc = bin(BinOp::Add, acc, bin(BinOp::Mul, i, cst(*sc as u128, 64)));
                        }
                        set!(*dst, Val::of(acc));
                    }
                    Inst::Load { dst, p, w } => {
                        let v = match g!(*p) {
                            Val::I(a) => {
                                let a = *a;
                                let n = (*w as usize + 7) / 8;
                                match s.mem.0.read(a, n)? {
                                    Some(v) => Val::I(if *w < 64 { v & ((1u64 << *w) - 1) } else { v }),
                                    None => Val::of(s.mem.0.read_sym(a, n, *w)?),
                                }
                            }
                            Val::S(n) => {
                                let n = *n;
                                sync!();
                                self.load_sym_addr(s, n, *w as u32)?
                            }
                            _ => return inc("load ptr"),
                        };
                        set!(*dst, v);
                    }
                    Inst::Store { p, v, w } => {
                        let a = match g!(*p) {
                            Val::I(a) => *a,
                            Val::S(n) => {
                                let n = *n;
                                sync!();
                                self.concretize(s, n)? as u64
                            }
                            _ => return inc("store ptr"),
                        };
                        let n = (*w as usize + 7) / 8;
                        match g!(*v) {
                            Val::I(x) => s.mem.0.write(a, n, *x)?,
                            Val::S(x) => s.mem.0.write_node(a, n, x)?,
                            _ => return inc("store val"),
                        }
                    }
                    Inst::LoadK { dst, p, k } => {
                        let a = match g!(*p) {
                            Val::I(a) => *a,
                            Val::S(n) => {
                                let n = *n;
                                sync!();
                                self.concretize(s, n)? as u64
                            }
                            _ => return inc("load ptr"),
                        };
                        let v = self.load_k(s, a, k)?;
                        set!(*dst, v);
                    }
                    Inst::StoreK { p, v, k } => {
                        let a = match g!(*p) {
                            Val::I(a) => *a,
                            Val::S(n) => {
                                let n = *n;
                                sync!();
                                self.concretize(s, n)? as u64
                            }
                            _ => return inc("store ptr"),
                        };
                        let v = g!(*v).clone();
                        self.store_k(s, a, k, &v)?;
                    }
                    Inst::Alloca { dst, size, align, n } => {
                        let c = match g!(*n) {
                            Val::I(x) => *x,
                            _ => return inc("symbolic alloca"),
                        };
                        let al = (*align).max(1);
                        let a = (s.sp + al - 1) / al * al;
                        s.sp = a + size * c;
                        if s.sp > STACK + STACK_MAX - 65536 {
                            return end(OutKind::Limit("stack overflow".into()));
                        }
                        set!(*dst, Val::I(a));
                    }
                    Inst::Br { e } => edge!(e),
                    Inst::CondBr { c, t, f } => {
                        let k = match g!(*c) {
                            Val::I(k) => *k != 0,
                            Val::S(n) => {
                                let n = *n;
                                sync!();
                                self.decide(s, n)?
                            }
                            _ => return inc("br cond"),
                        };
                        if k {
                            edge!(t)
                        } else {
                            edge!(f)
                        }
                    }
                    Inst::Switch { v, w, def, cases } => {
                        match g!(*v) {
                            Val::I(x) => match cases.map.get(x) {
                                Some(&e) => edge!(&cases.edges[e as usize]),
                                None => edge!(def),
                            },
                            Val::S(n) => {
                                let n = *n;
                                sync!();
                                // model's target first
                                let n = self.simplify(s, n);
                                let x = expr::eval(n, &s.model) as u64;
                                let e = cases.map.get(&x).copied();
                                let mut cond = bool_(false);
                                for (k, ei) in &cases.cases {
                                    if e.is_none() || Some(*ei) == e {
                                        cond = or(cond, eq(n, cst(*k as u128, *w)));
                                    }
                                }
                                if e.is_none() {
                                    cond = not(cond);
                                }
                                let r = self.decide(s, cond)?;
                                debug_assert!(r);
                                if !r {
                                    return inc("switch decide");
                                }
                                match e {
                                    Some(e) => edge!(&cases.edges[e as usize]),
                                    None => edge!(def),
                                }
                            }
                            _ => return inc("switch"),
                        }
                    }
                    Inst::Ret { v } => {
                        let v = v.map(|o| g!(o).clone());
                        let f = s.frames.pop().unwrap();
                        s.sp = f.sp;
                        s.regs.truncate(base);
                        if s.frames.is_empty() {
                            return end(OutKind::Ok);
                        }
                        if let (Some(v), true) = (v, f.ret != u32::MAX) {
                            let b = s.frames.last().unwrap().base as usize;
                            s.regs[b + f.ret as usize] = v;
                        }
                        continue 'frame;
                    }
                    Inst::Call { .. } | Inst::CallF { .. } => {
                        let (dst, target, args) = match ins {
                            Inst::CallF { dst, f, args } => (*dst, *f, args),
                            Inst::Call { dst, callee, args } => {
                                let a = match g!(*callee) {
                                    Val::I(a) => *a,
                                    Val::S(n) => {
                                        let n = *n;
                                        sync!();
                                        self.concretize(s, n)? as u64
                                    }
                                    _ => return inc("callee"),
                                };
                                let i = a.wrapping_sub(FUNC_BASE) / 16;
                                if a < FUNC_BASE || a % 16 != 0 || i as usize >= m.funcs.len() {
                                    return end(OutKind::Fault(format!("call to bad address {:#x}", a)));
                                }
                                (*dst, i as usize, args)
                            }
                            _ => unreachable!(),
                        };
                        let func = &m.funcs[target];
                        if func.text.is_none() {
                            sync!();
                            let av: Vec<Val> = args.iter().map(|o| g!(*o).clone()).collect();
                            let r = self.external(s, &func.name, func.ext, &av)?;
                            if let Some(d) = dst {
                                set!(d, r);
                            }
                            pc += 1;
                            continue;
                        }
                        let callee = m.code(target);
                        let nb = s.regs.len();
                        s.regs.resize(nb + callee.nregs as usize, Val::I(0));
                        for (i, o) in args.iter().enumerate() {
                            let v = g!(*o).clone();
                            s.regs[nb + i] = v;
                        }
                        s.frames[fi].pc = pc as u32 + 1;
                        s.frames.push(Frame {
                            f: target as u32,
                            pc: 0,
                            base: nb as u32,
                            ret: dst.unwrap_or(u32::MAX),
                            sp: s.sp,
                        });
                        if s.frames.len() > 20_000 {
                            return end(OutKind::Limit("call depth".into()));
                        }
                        continue 'frame;
                    }
                    Inst::Intr { dst, id, args } => {
                        sync!();
                        let av: Vec<Val> = args.iter().map(|o| g!(*o).clone()).collect();
                        let r = self.intrinsic(s, id, &av)?;
                        self.pop_dst(s, base, *dst, r);
                    }
                    Inst::ExtractV { dst, a, idx } => {
                        let mut v = g!(*a);
                        for i in idx.iter() {
                            v = match v {
                                Val::A(x) => &x[*i as usize],
                                _ => return inc("extractvalue"),
                            };
                        }
                        let v = v.clone();
                        set!(*dst, v);
                    }
                    Inst::InsertV { dst, a, v, idx } => {
                        fn ins(x: &Val, idx: &[u32], v: &Val) -> Val {
                            if idx.is_empty() {
                                return v.clone();
                            }
                            match x {
                                Val::A(p) => {
                                    let mut q = p.to_vec();
                                    q[idx[0] as usize] = ins(&p[idx[0] as usize], &idx[1..], v);
                                    Val::A(Arc::from(q))
                                }
                                _ => panic!("insertvalue"),
                            }
                        }
                        let r = ins(g!(*a), idx, g!(*v));
                        set!(*dst, r);
                    }
                    Inst::ExtractE { dst, a, i } => {
                        let k = g!(*i).u128() as usize;
                        let v = match g!(*a) {
                            Val::A(x) => x[k].clone(),
                            _ => return inc("extractelement"),
                        };
                        set!(*dst, v);
                    }
                    Inst::InsertE { dst, a, v, i } => {
                        let k = g!(*i).u128() as usize;
                        let r = match g!(*a) {
                            Val::A(x) => {
                                let mut q = x.to_vec();
                                q[k] = g!(*v).clone();
                                Val::A(Arc::from(q))
                            }
                            _ => return inc("insertelement"),
                        };
                        set!(*dst, r);
                    }
                    Inst::Shuffle { dst, a, b, m } => {
                        let (Val::A(x), Val::A(y)) = (g!(*a), g!(*b)) else { return inc("shuffle") };
                        let n = x.len();
                        let r: Vec<Val> = m
                            .iter()
                            .map(|&i| {
                                let i = i as usize;
                                if i < n {
                                    x[i].clone()
                                } else if i < 2 * n {
                                    y[i - n].clone()
                                } else {
                                    Val::I(0)
                                }
                            })
                            .collect();
                        set!(*dst, Val::A(Arc::from(r)));
                    }
                    Inst::Unreachable => return end(OutKind::Fault("unreachable executed".into())),
                    Inst::Unsupported(t) => return inc(format!("unsupported instruction {} in {}", t, m.funcs[fidx].name)),
                }
                pc += 1;
            }
        }
    }
    fn intrinsic(&mut self, s: &mut State, id: &'static Intrinsic, a: &[Val]) -> R<Val> {
        let w = id.w;
        let wb = w as u8;
        let conc2 = a.len() >= 2 && matches!(a[0], Val::I(_)) && matches!(a[1], Val::I(_));
        let sxw = |v: u64| sext64(v, w) as i64;
        let pair = |v: Val, o: Val| Val::A(Arc::from(vec![v, o]));
        Ok(match id.kind {
            I_MEMCPY | I_MEMMOVE => {
                let n = self.conc(s, &a[2])?;
                let d = self.conc(s, &a[0])?;
                let p = self.conc(s, &a[1])?;
                s.mem.0.copy(d, p, n)?;
                Val::I(0)
            }
            I_MEMSET => {
                let n = self.conc(s, &a[2])?;
                let d = self.conc(s, &a[0])?;
                match &a[1] {
                    Val::I(v) => s.mem.0.fill(d, *v as u8, n)?,
                    Val::S(x) => {
                        for i in 0..n {
                            s.mem.0.write_node(d + i, 1, x)?;
                        }
                    }
                    _ => return inc("memset"),
                }
                Val::I(0)
            }
            I_UMIN | I_UMAX | I_SMIN | I_SMAX => self.minmax(id.kind, w, &a[0], &a[1])?,
            I_ABS => match &a[0] {
                Val::I(x) => Val::I((sxw(*x).unsigned_abs()) & maskw(wb) as u64),
                v => {
                    let n = v.node(w);
                    Val::of(ite(slt(n, cst(0, wb)), bin(BinOp::Sub, cst(0, wb), n), n))
                }
            },
            I_CTLZ => match &a[0] {
                Val::I(x) => Val::I(if *x == 0 { w as u64 } else { x.leading_zeros() as u64 - (64 - w as u64) }),
                v => {
                    let n = v.node(w);
                    let mut r = cst(w as u128, wb);
                    for i in 0..w {
                        // lowest first so that the highest set bit wins
                        r = ite(extract(n, i as u8, 1), cst((w - 1 - i) as u128, wb), r);
                    }
                    Val::of(r)
                }
            },
            I_CTTZ => match &a[0] {
                Val::I(x) => Val::I(if *x == 0 { w as u64 } else { x.trailing_zeros() as u64 }),
                v => {
                    let n = v.node(w);
                    let mut r = cst(w as u128, wb);
                    for i in (0..w).rev() {
                        r = ite(extract(n, i as u8, 1), cst(i as u128, wb), r);
                    }
                    Val::of(r)
                }
            },
            I_CTPOP => match &a[0] {
                Val::I(x) => Val::I(x.count_ones() as u64),
                v => {
                    let n = v.node(w);
                    let mut r = cst(0, wb);
                    for i in 0..w {
                        r = bin(BinOp::Add, r, zext(extract(n, i as u8, 1), wb));
                    }
                    Val::of(r)
                }
            },
            I_BSWAP => match &a[0] {
                Val::I(x) => Val::I(x.swap_bytes() >> (64 - w)),
                v => {
                    let n = v.node(w);
                    let mut r: Option<N> = None;
                    for i in 0..w / 8 {
                        let b = extract(n, (i * 8) as u8, 8);
                        r = Some(match r {
                            None => b,
                            Some(h) => concat(h, b),
                        });
                    }
                    Val::of(r.unwrap())
                }
            },
            I_BITREV => match &a[0] {
                Val::I(x) => Val::I(x.reverse_bits() >> (64 - w)),
                v => {
                    let n = v.node(w);
                    let mut r: Option<N> = None;
                    for i in 0..w {
                        let b = extract(n, i as u8, 1);
                        r = Some(match r {
                            None => b,
                            Some(h) => concat(h, b),
                        });
                    }
                    Val::of(r.unwrap())
                }
            },
            I_FSHL | I_FSHR => {
                let c = (self.conc(s, &a[2])? % w as u64) as u32;
                let left = id.kind == I_FSHL;
                if c == 0 {
                    return Ok(if left { a[0].clone() } else { a[1].clone() });
                }
                let k = if left { c } else { w - c };
                let hi = bin(BinOp::Shl, a[0].node(w), cst(k as u128, wb));
                let lo = bin(BinOp::LShr, a[1].node(w), cst((w - k) as u128, wb));
                Val::of(bin(BinOp::Or, hi, lo))
            }
            I_UADDO | I_USUBO | I_UMULO | I_SADDO | I_SSUBO | I_SMULO => {
                let m = maskw(wb) as u64;
                if let (Val::I(x), Val::I(y)) = (&a[0], &a[1]) {
                    let (x, y) = (*x, *y);
                    let (r, o) = match id.kind {
                        I_UADDO => {
                            let t = x as u128 + y as u128;
                            (t as u64 & m, t > m as u128)
                        }
                        I_USUBO => (x.wrapping_sub(y) & m, x < y),
                        I_UMULO => {
                            let t = x as u128 * y as u128;
                            (t as u64 & m, t > m as u128)
                        }
                        _ => {
                            let (p, q) = (sxw(x) as i128, sxw(y) as i128);
                            let t = match id.kind {
                                I_SADDO => p + q,
                                I_SSUBO => p - q,
                                _ => p * q,
                            };
                            let r = t as u64 & m;
                            (r, sext64(r, w) as i64 as i128 != t)
                        }
                    };
                    return Ok(pair(Val::I(r), Val::I(o as u64)));
                }
                let (x, y) = (a[0].node(w), a[1].node(w));
                let sb = 1u64 << (w - 1);
                let nonneg = x.hi < sb && y.hi < sb;
                match id.kind {
                    I_UADDO => {
                        let r = bin(BinOp::Add, x, y);
                        let o = if x.hi as u128 + y.hi as u128 <= m as u128 { bool_(false) } else { ult(r, x) };
                        pair(Val::of(r), Val::of(o))
                    }
                    I_USUBO => pair(Val::of(bin(BinOp::Sub, x, y)), Val::of(ult(x, y))),
                    I_UMULO => {
                        let r = bin(BinOp::Mul, x, y);
                        let o = if x.hi as u128 * y.hi as u128 <= m as u128 {
                            bool_(false)
                        } else {
                            let p = bin(BinOp::Mul, zext(x, 2 * wb), zext(y, 2 * wb));
                            not(eq(extract(p, wb, wb), cst(0, wb)))
                        };
                        pair(Val::of(r), Val::of(o))
                    }
                    _ => {
                        let op = match id.kind {
                            I_SADDO => BinOp::Add,
                            I_SSUBO => BinOp::Sub,
                            _ => BinOp::Mul,
                        };
                        let r = bin(op, x, y);
                        let safe = nonneg
                            && match id.kind {
                                I_SADDO => (x.hi as u128 + y.hi as u128) < sb as u128,
                                I_SSUBO => true,
                                _ => (x.hi as u128 * y.hi as u128) < sb as u128,
                            };
                        let o = if safe {
                            bool_(false)
                        } else {
                            let ew = if id.kind == I_SMULO { 2 * wb } else { wb + 1 };
                            let p = bin(op, sext(x, ew), sext(y, ew));
                            not(eq(p, sext(r, ew)))
                        };
                        pair(Val::of(r), Val::of(o))
                    }
                }
            }
            I_UADDS => {
                if conc2 {
                    let t = a[0].u128() + a[1].u128();
                    return Ok(Val::from_u128(t.min(maskw(wb)), w));
                }
                let (x, y) = (a[0].node(w), a[1].node(w));
                let r = bin(BinOp::Add, x, y);
                Val::of(ite(ult(r, x), cst(maskw(wb), wb), r))
            }
            I_USUBS => {
                if conc2 {
                    return Ok(Val::from_u128(a[0].u128().saturating_sub(a[1].u128()), w));
                }
                let (x, y) = (a[0].node(w), a[1].node(w));
                Val::of(ite(ult(x, y), cst(0, wb), bin(BinOp::Sub, x, y)))
            }
            I_TLS | I_EXPECT => a[0].clone(),
            I_ISCONST => Val::I(0),
            I_UCMP | I_SCMP => {
                // result i8; operand width is the last suffix (w)
                if let (Val::I(x), Val::I(y)) = (&a[0], &a[1]) {
                    let o = if id.kind == I_UCMP { x.cmp(y) } else { sxw(*x).cmp(&sxw(*y)) };
                    return Ok(Val::I(o as i8 as u8 as u64));
                }
                let (x, y) = (a[0].node(w), a[1].node(w));
                let lt = if id.kind == I_UCMP { ult(x, y) } else { slt(x, y) };
                Val::of(ite(lt, cst(255, 8), ite(eq(x, y), cst(0, 8), cst(1, 8))))
            }
            I_TRAP => return end(OutKind::Fault("trap".into())),
            I_VREDOR | I_VREDAND | I_VREDADD => {
                let Val::A(v) = &a[0] else { return inc("vred") };
                let op = match id.kind {
                    I_VREDOR => BinOp::Or,
                    I_VREDAND => BinOp::And,
                    _ => BinOp::Add,
                };
                // width from the name: v16i1 etc.
                let ew = id.name.rsplit('i').next().and_then(|x| x.parse::<u32>().ok()).unwrap_or(8);
                let mut r = v[0].clone();
                for x in v.iter().skip(1) {
                    r = self.bin_val(op, ew, &r, x)?;
                }
                r
            }
            _ => return inc(format!("intrinsic {}", id.name)),
        })
    }
    fn minmax(&mut self, k: u32, w: u32, x: &Val, y: &Val) -> R<Val> {
        Ok(match (x, y) {
            (Val::A(p), Val::A(q)) => {
                let mut v = vec![];
                // vector: element width from the lanes is not in w
                for (a, b) in p.iter().zip(q.iter()) {
                    v.push(self.minmax(k, if w == 0 { 8 } else { w }, a, b)?);
                }
                Val::A(Arc::from(v))
            }
            (Val::I(a), Val::I(b)) => {
                let (sa, sb) = (sext64(*a, w) as i64, sext64(*b, w) as i64);
                Val::I(match k {
                    I_UMIN => *a.min(b),
                    I_UMAX => *a.max(b),
                    I_SMIN => {
                        if sa < sb {
                            *a
                        } else {
                            *b
                        }
                    }
                    _ => {
                        if sa > sb {
                            *a
                        } else {
                            *b
                        }
                    }
                })
            }
            _ => {
                let (a, b) = (x.node(w), y.node(w));
                Val::of(match k {
                    I_UMIN => ite(ult(a, b), a, b),
                    I_UMAX => ite(ult(b, a), a, b),
                    I_SMIN => ite(slt(a, b), a, b),
                    _ => ite(slt(b, a), a, b),
                })
            }
        })
    }

    fn external(&mut self, s: &mut State, name: &str, kind: u32, a: &[Val]) -> R<Val> {
        Ok(match kind {
            X_BYTE => {
                let (lo, hi) = (self.conc(s, &a[0])? as u8, self.conc(s, &a[1])? as u8);
                let id = s.vars.len();
                if id >= 127 {
                    return inc("too many symbolic bytes");
                }
                if lo > hi {
                    return inc("empty byte range");
                }
                let v = expr::var(id as u8, lo, hi);
                let mut d = [0u64; 4];
                for i in lo..=hi {
                    d[i as usize >> 6] |= 1 << (i & 63);
                }
                s.vars.push(v);
                s.dom.push(d);
                s.model.push(lo);
                if lo == hi {
                    Val::I(lo as u64)
                } else {
                    Val::S(v)
                }
            }
            X_PICK => {
                let n = self.conc(s, &a[0])?;
                if n == 0 || n > 256 {
                    return inc("pick range");
                }
                let v = match s.pending {
                    Some(v) => v,
                    None => {
                        let id = s.vars.len();
                        if id >= 127 {
                            return inc("too many symbolic bytes");
                        }
                        let v = expr::var(id as u8, 0, (n - 1) as u8);
                        let mut d = [0u64; 4];
                        for i in 0..n as usize {
                            d[i >> 6] |= 1 << (i & 63);
                        }
                        s.vars.push(v);
                        s.dom.push(d);
                        s.model.push(0);
                        s.pending = Some(v);
                        v
                    }
                };
                let x = self.concretize(s, v)? as u64;
                s.pending = None;
                Val::I(x)
            }
            X_ASSUME => {
                let k = match &a[0] {
                    Val::I(x) => *x != 0,
                    Val::S(n) => {
                        let n = self.simplify(s, n);
                        let c = not(eq(n, cst(0, n.w)));
                        let c = self.simplify(s, c);
                        if let Some(k) = c.konst() {
                            k != 0
                        } else if expr::eval(c, &s.model) == 1 {
                            Self::assume_into(s, c);
                            true
                        } else {
                            match self.feasible(s, c)? {
                                Some(up) => {
                                    for (v, x) in up {
                                        s.model[v as usize] = x;
                                    }
                                    Self::assume_into(s, c);
                                    true
                                }
                                None => false,
                            }
                        }
                    }
                    _ => return inc("assume"),
                };
                if !k {
                    return end(OutKind::Assume);
                }
                Val::I(0)
            }
            X_FAIL => {
                let (p, n) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                let m = self.msg(s, p, n)?;
                return end(OutKind::Check(m));
            }
            X_CHECK => {
                match &a[0] {
                    Val::I(x) => {
                        self.st.checks_const += 1;
                        if *x == 0 {
                            let (p, n) = (self.conc(s, &a[1])?, self.conc(s, &a[2])?);
                            let m = self.msg(s, p, n)?;
                            return end(OutKind::Check(m));
                        }
                    }
                    Val::S(n) => {
                        let c = not(eq(n, cst(0, n.w)));
                        let c = self.simplify(s, c);
                        match c.konst() {
                            Some(1) => {
                                self.st.checks_table += 1;
                            }
                            Some(_) => {
                                let (p, n) = (self.conc(s, &a[1])?, self.conc(s, &a[2])?);
                                let m = self.msg(s, p, n)?;
                                return end(OutKind::Check(m));
                            }
                            None => {
                                // validity query: PC && !c
                                self.st.checks_solver += 1;
                                let nc = not(c);
                                let (mut conj, mask) = Self::slice(s, nc.mask);
                                conj.push(nc);
                                if let Some(up) = self.query(s, conj, mask)? {
                                    let (p, n) = (self.conc(s, &a[1])?, self.conc(s, &a[2])?);
                                    let m = self.msg(s, p, n)?;
                                    for (v, x) in up {
                                        s.model[v as usize] = x;
                                    }
                                    Self::assume_into(s, nc);
                                    return end(OutKind::Check(m));
                                }
                            }
                        }
                    }
                    _ => return inc("check"),
                }
                Val::I(0)
            }
            X_REACH => {
                let (p, n) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                let m = self.msg(s, p, n)?;
                *self.reached.entry(m).or_insert(0) += 1;
                Val::I(0)
            }
            X_NOTE => {
                let (p, n) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                let mut v = vec![];
                for i in 0..n {
                    v.push(s.mem.0.byte_node(p + i)?);
                }
                s.notes.push(Arc::new(v));
                Val::I(0)
            }
            X_THOROUGH => Val::I(self.sh.thorough as u64),
            X_MALLOC => {
                let n = self.conc(s, &a[0])?;
                Val::I(self.malloc(s, n, 16))
            }
            X_CALLOC => {
                let n = self.conc(s, &a[0])? * self.conc(s, &a[1])?;
                Val::I(self.malloc(s, n, 16))
            }
            X_REALLOC => {
                let p = self.conc(s, &a[0])?;
                let n = self.conc(s, &a[1])?;
                if p == 0 {
                    return Ok(Val::I(self.malloc(s, n, 16)));
                }
                let old = match s.mem.0.read(p - 8, 8)? {
                    Some(o) => o,
                    None => return inc("realloc header"),
                };
                if p + old == s.brk && n >= old {
                    s.brk = p + n;
                    s.mem.0.heap.1 = s.brk;
                    s.mem.0.write(p - 8, 8, n)?;
                    return Ok(Val::I(p));
                }
                if n <= old {
                    return Ok(Val::I(p));
                }
                let q = self.malloc(s, n, 16);
                s.mem.0.copy(q, p, old.min(n))?;
                Val::I(q)
            }
            X_FREE => Val::I(0),
            X_MEMALIGN => {
                let al = self.conc(s, &a[1])?;
                let n = self.conc(s, &a[2])?;
                let p = self.malloc(s, n, al);
                let d = self.conc(s, &a[0])?;
                s.mem.0.write(d, 8, p)?;
                Val::I(0)
            }
            X_BCMP | X_MEMCMP => {
                let n = self.conc(s, &a[2])?;
                let p = self.conc(s, &a[0])?;
                let q = self.conc(s, &a[1])?;
                // concrete prefix
                let mut diffs: Vec<(N, N)> = vec![];
                for i in 0..n {
                    let (x, sx_) = s.mem.0.byte(p + i)?;
                    let (y, sy) = s.mem.0.byte(q + i)?;
                    if sx_ == 0 && sy == 0 {
                        if x != y {
                            if kind == X_BCMP {
                                return Ok(Val::I(1));
                            }
                            diffs.push((cst(x as u128, 8), cst(y as u128, 8)));
                            break;
                        }
                        continue;
                    }
                    if sx_ == sy {
                        continue;
                    }
                    let (nx, ny) = (s.mem.0.byte_node(p + i)?, s.mem.0.byte_node(q + i)?);
                    let e = self.simplify(s, eq(nx, ny));
                    match e.konst() {
                        Some(1) => continue,
                        Some(_) => {
                            if kind == X_BCMP {
                                return Ok(Val::I(1));
                            }
                            diffs.push((nx, ny));
                            break;
                        }
                        None => diffs.push((nx, ny)),
                    }
                }
                if kind == X_BCMP {
                    let mut all = bool_(true);
                    for (x, y) in diffs {
                        all = and(all, eq(x, y));
                    }
                    Val::of(ite(all, cst(0, 32), cst(1, 32)))
                } else {
                    let mut r = cst(0, 32);
                    for (x, y) in diffs.into_iter().rev() {
                        r = ite(eq(x, y), r, ite(ult(x, y), cst(u32::MAX as u128, 32), cst(1, 32)));
                    }
                    Val::of(r)
                }
            }
            X_STRLEN => {
                let p = self.conc(s, &a[0])?;
                let mut n = 0;
                loop {
                    let (c, sy) = s.mem.0.byte(p + n)?;
                    if sy != 0 {
                        return inc("strlen of symbolic");
                    }
                    if c == 0 {
                        break;
                    }
                    n += 1;
                }
                Val::I(n)
            }
            X_HASH => Val::I(0),
            X_PANIC => return end(OutKind::Panic("panic".into())),
            X_ABORT => return end(OutKind::Panic("abort".into())),
            X_RANDOM => {
                let p = self.conc(s, &a[0])?;
                let n = self.conc(s, &a[1])?;
                s.mem.0.fill(p, 0, n)?;
                Val::I(n)
            }
            X_ZERO => Val::I(0),
            X_WRITE => a[2].clone(),
            X_ERRNO => {
                Val::I(STACK + 64)
            }
            // file system and scheduler queries fail (ENOENT); one CPU
            X_ENOENT | X_ENOENT64 => {
                s.mem.0.fill(STACK + 64, 0, 4)?;
                s.mem.0.fill(STACK + 64, 2, 1)?;
                Val::I(if kind == X_ENOENT { 0xffff_ffff } else { u64::MAX })
            }
            X_SYSCONF => Val::I(1),
            _ => return inc(format!("external function {}", name)),
        })
    }
}

/// choose a subterm to fork on: an ite condition or a single-variable part
fn pick_sub(n: N) -> N {
    if n.var.is_some() || n.konst().is_some() {
        return n;
    }
    match n.op {
        Op::Ite(c, _, _) => {
            if c.var.is_some() {
                return c;
            }
            c
        }
        Op::Bin(_, a, b) | Op::Concat(a, b) => {
            if a.konst().is_some() {
                return pick_sub(b);
            }
            if b.konst().is_some() {
                return pick_sub(a);
            }
            // prefer the part with the smaller variable index
            let (x, y) = if a.mask.trailing_zeros() <= b.mask.trailing_zeros() { (a, b) } else { (b, a) };
            if x.var.is_some() {
                return x;
            }
            if y.var.is_some() {
                return y;
            }
            pick_sub(x)
        }
        Op::Zext(a) | Op::Sext(a) => {
            if a.w == 1 {
                a
            } else {
                pick_sub(a)
            }
        }
        Op::Extract(a, _) => {
            let p = pick_sub(a);
            if p.id == a.id {
                n
            } else {
                p
            }
        }
        _ => n,
    }
}

pub fn short(n: &str) -> String {
    // crude v0 demangle: keep identifiers
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' || b[i] == b'B' {
            // disambiguator s..._ or backref B.._
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric()) {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() {
            let mut k = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 0 && j + k <= b.len() {
                out.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
