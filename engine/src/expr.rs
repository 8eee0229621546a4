//! Hash-consed bit-vector expressions over symbolic bytes.
use crate::ir::BinOp;
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Mutex, OnceLock};

pub type N = &'static Node;
pub type TTab = [u64; 4];

#[derive(Debug, Clone, Copy)]
pub enum Op {
    Const(u128),
    /// symbolic byte: draw index, inclusive range
    Var { id: u8, lo: u8, hi: u8 },
    /// truth table over one byte variable (w = 1)
    TT(N, TTab),
    /// lookup table over one byte variable
    Lut(N, &'static [u64; 256]),
    Bin(BinOp, N, N),
    Eq(N, N),
    Ult(N, N),
    Slt(N, N),
    Ite(N, N, N),
    Concat(N, N),
    Extract(N, u8),
    Zext(N),
    Sext(N),
}

pub struct Node {
    pub id: u32,
    pub w: u8,
    pub depth: u16,
    pub op: Op,
    pub mask: u128,
    pub lo: u64,
    pub hi: u64,
    /// the single variable node, if exactly one variable
    pub var: Option<N>,
    tab: OnceLock<&'static [u64; 256]>,
    can: OnceLock<&'static Node>,
}
impl std::fmt::Debug for Node {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match &self.op {
            Op::Const(k) => write!(f, "{}:{}", k, self.w),
            Op::Var { id, .. } => write!(f, "v{}", id),
            Op::TT(v, t) => write!(f, "TT({:?},{:x?})", v, t),
            Op::Lut(v, _) => write!(f, "LUT({:?},#{})", v, self.id),
            Op::Bin(o, a, b) => write!(f, "({:?} {:?} {:?})", o, a, b),
            Op::Eq(a, b) => write!(f, "(= {:?} {:?})", a, b),
            Op::Ult(a, b) => write!(f, "(u< {:?} {:?})", a, b),
            Op::Slt(a, b) => write!(f, "(s< {:?} {:?})", a, b),
            Op::Ite(a, b, c) => write!(f, "(ite {:?} {:?} {:?})", a, b, c),
            Op::Concat(a, b) => write!(f, "({:?} ++ {:?})", a, b),
            Op::Extract(a, l) => write!(f, "{:?}[{}+{}]", a, l, self.w),
            Op::Zext(a) => write!(f, "zx{}({:?})", self.w, a),
            Op::Sext(a) => write!(f, "sx{}({:?})", self.w, a),
        }
    }
}
impl PartialEq for Node {
    fn eq(&self, o: &Node) -> bool {
        self.id == o.id
    }
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 ^= self.0 >> 29;
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

type Key = [u64; 6];
const SHARDS: usize = 64;
struct Interner {
    shards: Vec<Mutex<FxMap<Key, N>>>,
    luts: Vec<Mutex<FxMap<Vec<u64>, (&'static [u64; 256], u64)>>>,
}
static NEXT: AtomicU32 = AtomicU32::new(1);
fn interner() -> &'static Interner {
    static I: OnceLock<Interner> = OnceLock::new();
    I.get_or_init(|| Interner {
        shards: (0..SHARDS).map(|_| Mutex::new(FxMap::default())).collect(),
        luts: (0..SHARDS).map(|_| Mutex::new(FxMap::default())).collect(),
    })
}
pub fn node_count() -> u32 {
    NEXT.load(Ordering::Relaxed)
}

pub fn maskw(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
fn bopn(o: BinOp) -> u64 {
    o as u8 as u64
}

fn mk(op: Op, w: u8) -> N {
    let key: Key = match &op {
        Op::Const(k) => [1 | (w as u64) << 8, *k as u64, (*k >> 64) as u64, 0, 0, 0],
        Op::Var { id, lo, hi } => [2 | (w as u64) << 8, *id as u64, *lo as u64, *hi as u64, 0, 0],
        Op::TT(v, t) => [3 | (v.id as u64) << 8, t[0], t[1], t[2], t[3], 1],
        Op::Lut(v, t) => [4 | (w as u64) << 8, v.id as u64, *t as *const _ as u64, 0, 0, 0],
        Op::Bin(o, a, b) => [5 | (w as u64) << 8 | bopn(*o) << 16, a.id as u64, b.id as u64, 0, 0, 0],
        Op::Eq(a, b) => [6, a.id as u64, b.id as u64, 0, 0, 0],
        Op::Ult(a, b) => [7, a.id as u64, b.id as u64, 0, 0, 0],
        Op::Slt(a, b) => [8, a.id as u64, b.id as u64, 0, 0, 0],
        Op::Ite(a, b, c) => [9 | (w as u64) << 8, a.id as u64, b.id as u64, c.id as u64, 0, 0],
        Op::Concat(a, b) => [10 | (w as u64) << 8, a.id as u64, b.id as u64, 0, 0, 0],
        Op::Extract(a, l) => [11 | (w as u64) << 8, a.id as u64, *l as u64, 0, 0, 0],
        Op::Zext(a) => [12 | (w as u64) << 8, a.id as u64, 0, 0, 0, 0],
        Op::Sext(a) => [13 | (w as u64) << 8, a.id as u64, 0, 0, 0, 0],
    };
    let mut h = Fx::default();
    key.hash(&mut h);
    let hv = h.finish();
    if let Some(n) = LOCAL.with(|l| {
        let l = l.borrow();
        let (k, n) = &l[(hv >> 20) as usize % LOCAL_N];
        if *k == key {
            *n
        } else {
            None
        }
    }) {
        return n;
    }
    let n = mk_slow(op, w, key, hv);
    LOCAL.with(|l| l.borrow_mut()[(hv >> 20) as usize % LOCAL_N] = (key, Some(n)));
    n
}
const LOCAL_N: usize = 1 << 14;
thread_local! {
    static LOCAL: std::cell::RefCell<Vec<(Key, Option<N>)>> = std::cell::RefCell::new(vec![([0; 6], None); LOCAL_N]);
}
fn mk_slow(op: Op, w: u8, key: Key, hv: u64) -> N {
    let sh = &interner().shards[(hv >> 7) as usize % SHARDS];
    let mut g = sh.lock().unwrap();
    if let Some(n) = g.get(&key) {
        return n;
    }
    let kids: [Option<N>; 3] = match &op {
        Op::Const(_) | Op::Var { .. } => [None, None, None],
        Op::TT(v, _) | Op::Lut(v, _) => [Some(v), None, None],
        Op::Bin(_, a, b) | Op::Eq(a, b) | Op::Ult(a, b) | Op::Slt(a, b) | Op::Concat(a, b) => [Some(a), Some(b), None],
        Op::Ite(a, b, c) => [Some(a), Some(b), Some(c)],
        Op::Extract(a, _) | Op::Zext(a) | Op::Sext(a) => [Some(a), None, None],
    };
    let mut mask = 0u128;
    let mut depth = 0;
    let mut var = None;
    for k in kids.iter().flatten() {
        mask |= k.mask;
        depth = depth.max(k.depth);
        if var.is_none() {
            var = k.var;
        }
    }
    if mask.count_ones() != 1 {
        var = None;
    }
    if let Op::Var { id, .. } = op {
        mask = 1 << id;
    }
    let (lo, hi) = range_of(&op, w);
    let n: N = Box::leak(Box::new(Node {
        id: NEXT.fetch_add(1, Ordering::Relaxed),
        w,
        depth: depth.saturating_add(1),
        op,
        mask,
        lo,
        hi,
        var,
        tab: OnceLock::new(),
        can: OnceLock::new(),
    }));
    // a Var node is its own variable; patch via leaked pointer
    if let Op::Var { .. } = n.op {
        unsafe {
            let p = n as *const Node as *mut Node;
            (*p).var = Some(n);
        }
    }
    g.insert(key, n);
    n
}

fn range_of(op: &Op, w: u8) -> (u64, u64) {
    if w > 64 {
        return (0, u64::MAX);
    }
    let m = maskw(w) as u64;
    match op {
        Op::Const(k) => (*k as u64, *k as u64),
        Op::Var { lo, hi, .. } => (*lo as u64, *hi as u64),
        Op::TT(..) | Op::Eq(..) | Op::Ult(..) | Op::Slt(..) => (0, 1),
        Op::Lut(v, t) => {
            let (l, h) = (v.lo as usize, v.hi as usize);
            let s = &t[l..=h];
            (*s.iter().min().unwrap(), *s.iter().max().unwrap())
        }
        Op::Zext(a) => (a.lo, a.hi),
        Op::Ite(_, a, b) => (a.lo.min(b.lo), a.hi.max(b.hi)),
        Op::Concat(a, b) if a.w + b.w <= 64 => ((a.lo << b.w) | b.lo.min(0), (a.hi << b.w) | maskw(b.w) as u64),
        Op::Bin(BinOp::Add, a, b) => {
            let h = a.hi as u128 + b.hi as u128;
            if h <= m as u128 {
                (a.lo + b.lo, h as u64)
            } else if a.lo as u128 + b.lo as u128 > m as u128 && h <= 2 * m as u128 + 1 {
                // always wraps
                (((a.lo as u128 + b.lo as u128) & m as u128) as u64, (h & m as u128) as u64)
            } else {
                (0, m)
            }
        }
        Op::Bin(BinOp::Sub, a, b) => {
            if a.lo >= b.hi {
                (a.lo - b.hi, a.hi - b.lo)
            } else {
                (0, m)
            }
        }
        Op::Bin(BinOp::Mul, a, b) => {
            let h = a.hi as u128 * b.hi as u128;
            if h <= m as u128 {
                (a.lo * b.lo, h as u64)
            } else {
                (0, m)
            }
        }
        Op::Bin(BinOp::And, a, b) => (0, a.hi.min(b.hi)),
        Op::Bin(BinOp::Or, a, b) => {
            let x = a.hi | b.hi;
            let bits = 64 - x.leading_zeros();
            (a.lo.max(b.lo), if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 })
        }
        Op::Bin(BinOp::Xor, a, b) => {
            let x = a.hi | b.hi;
            let bits = 64 - x.leading_zeros();
            (0, if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 })
        }
        Op::Bin(BinOp::UDiv, a, b) if b.lo > 0 => (a.lo / b.hi, a.hi / b.lo),
        Op::Bin(BinOp::URem, a, b) if b.lo > 0 => (0, a.hi.min(b.hi - 1)),
        Op::Bin(BinOp::LShr, a, b) if b.lo == b.hi && b.lo < 64 => (a.lo >> b.lo, a.hi >> b.lo),
        _ => (0, m),
    }
}

// ------------------------------------------------------------- building
pub fn cst(v: u128, w: u8) -> N {
    mk(Op::Const(v & maskw(w)), w)
}
pub fn var(id: u8, lo: u8, hi: u8) -> N {
    mk(Op::Var { id, lo, hi }, 8)
}
pub fn bool_(b: bool) -> N {
    cst(b as u128, 1)
}
impl Node {
    pub fn konst(&self) -> Option<u128> {
        if let Op::Const(k) = self.op {
            Some(k)
        } else {
            None
        }
    }
    pub fn is_zero(&self) -> bool {
        self.konst() == Some(0)
    }
    fn vrange(&self) -> (usize, usize) {
        // of a Var
        (self.lo as usize, self.hi as usize)
    }
}
fn intern_lut(t: &[u64; 256]) -> &'static [u64; 256] {
    let mut f = Fx::default();
    for x in t.iter() {
        f.write_u64(*x)
    }
    let mut g = interner().luts[(f.finish() >> 9) as usize % SHARDS].lock().unwrap();
    if let Some((p, _)) = g.get(&t[..]) {
        return p;
    }
    let p: &'static [u64; 256] = Box::leak(Box::new(*t));
    g.insert(t.to_vec(), (p, 0));
    p
}
/// value table of a single-variable node of width <= 64 (zero outside range)
pub fn table(n: N) -> &'static [u64; 256] {
    if let Op::Lut(_, t) = n.op {
        return t;
    }
    n.tab.get_or_init(|| {
        let mut t = Box::new([0u64; 256]);
        let v = match n.var {
            Some(v) => v,
            None => panic!("table of multi-var"),
        };
        let (l, h) = v.vrange();
        let ct = |x: N, t: &mut [u64; 256]| match x.op {
            Op::Const(k) => {
                for i in l..=h {
                    t[i] = k as u64
                }
            }
            _ => t.copy_from_slice(table(x)),
        };
        match n.op {
            Op::Const(_) => ct(n, &mut t),
            Op::Var { .. } => {
                for i in l..=h {
                    t[i] = i as u64
                }
            }
            Op::TT(_, tt) => {
                for i in l..=h {
                    t[i] = (tt[i >> 6] >> (i & 63)) & 1
                }
            }
            Op::Lut(_, x) => t.copy_from_slice(x),
            _ if has_wide_kid(n) => {
                for i in l..=h {
                    t[i] = eval1(n, i as u8) as u64;
                }
            }
            _ => {
                let mut a = [0u64; 256];
                let mut b = [0u64; 256];
                let mut c = [0u64; 256];
                match n.op {
                    Op::Bin(o, x, y) => {
                        ct(x, &mut a);
                        ct(y, &mut b);
                        for i in l..=h {
                            t[i] = fold_bin(o, a[i] as u128, b[i] as u128, n.w) as u64
                        }
                    }
                    Op::Eq(x, y) => {
                        ct(x, &mut a);
                        ct(y, &mut b);
                        for i in l..=h {
                            t[i] = (a[i] == b[i]) as u64
                        }
                    }
                    Op::Ult(x, y) => {
                        ct(x, &mut a);
                        ct(y, &mut b);
                        for i in l..=h {
                            t[i] = (a[i] < b[i]) as u64
                        }
                    }
                    Op::Slt(x, y) => {
                        ct(x, &mut a);
                        ct(y, &mut b);
                        for i in l..=h {
                            t[i] = (sx(a[i] as u128, x.w) < sx(b[i] as u128, x.w)) as u64
                        }
                    }
                    Op::Ite(x, y, z) => {
                        ct(x, &mut a);
                        ct(y, &mut b);
                        ct(z, &mut c);
                        for i in l..=h {
                            t[i] = if a[i] != 0 { b[i] } else { c[i] }
                        }
                    }
                    Op::Concat(x, y) => {
                        ct(x, &mut a);
                        ct(y, &mut b);
                        for i in l..=h {
                            t[i] = (a[i] << y.w) | b[i]
                        }
                    }
                    Op::Extract(x, lo) => {
                        ct(x, &mut a);
                        for i in l..=h {
                            t[i] = ((a[i] as u128 >> lo) & maskw(n.w)) as u64
                        }
                    }
                    Op::Zext(x) => ct(x, &mut t),
                    Op::Sext(x) => {
                        ct(x, &mut a);
                        for i in l..=h {
                            t[i] = (sx(a[i] as u128, x.w) as u128 & maskw(n.w)) as u64
                        }
                    }
                    _ => unreachable!(),
                }
            }
        }
        intern_lut(&t)
    })
}
fn has_wide_kid(n: N) -> bool {
    match n.op {
        Op::Bin(_, a, b) | Op::Eq(a, b) | Op::Ult(a, b) | Op::Slt(a, b) | Op::Concat(a, b) => a.w > 64 || b.w > 64,
        Op::Ite(_, a, _) | Op::Extract(a, _) | Op::Zext(a) | Op::Sext(a) => a.w > 64,
        _ => false,
    }
}
/// evaluate a single-variable node at value v (any width)
fn eval1(n: N, v: u8) -> u128 {
    match n.op {
        Op::Const(k) => k,
        Op::Var { .. } => v as u128,
        Op::TT(_, t) => ((t[v as usize >> 6] >> (v & 63)) & 1) as u128,
        Op::Lut(_, t) => t[v as usize] as u128,
        Op::Bin(o, a, b) => fold_bin(o, eval1(a, v), eval1(b, v), n.w),
        Op::Eq(a, b) => (eval1(a, v) == eval1(b, v)) as u128,
        Op::Ult(a, b) => (eval1(a, v) < eval1(b, v)) as u128,
        Op::Slt(a, b) => (sx(eval1(a, v), a.w) < sx(eval1(b, v), b.w)) as u128,
        Op::Ite(c, a, b) => {
            if eval1(c, v) != 0 {
                eval1(a, v)
            } else {
                eval1(b, v)
            }
        }
        Op::Concat(a, b) => (eval1(a, v) << b.w) | eval1(b, v),
        Op::Extract(a, l) => (eval1(a, v) >> l) & maskw(n.w),
        Op::Zext(a) => eval1(a, v),
        Op::Sext(a) => sx(eval1(a, v), a.w) as u128 & maskw(n.w),
    }
}
fn mk_tt(v: N, t: &TTab) -> N {
    // outside range bits are zero
    let (l, h) = v.vrange();
    let mut any = false;
    let mut all = true;
    let mut c = [0u64; 4];
    for i in l..=h {
        if (t[i >> 6] >> (i & 63)) & 1 == 1 {
            any = true;
            c[i >> 6] |= 1 << (i & 63);
        } else {
            all = false;
        }
    }
    if !any {
        return bool_(false);
    }
    if all {
        return bool_(true);
    }
    mk(Op::TT(v, c), 1)
}
/// canonicalise: boolean single-var to TT; deep single-var to Lut
fn canon(n: N) -> N {
    if n.var.is_none() {
        return n;
    }
    n.can.get_or_init(|| canon_(n))
}
fn canon_(n: N) -> N {
    if let Some(v) = n.var {
        if n.w == 1 {
            if let Op::TT(..) = n.op {
                return n;
            }
            let t = table(n);
            let mut tt = [0u64; 4];
            let (l, h) = v.vrange();
            for i in l..=h {
                if t[i] != 0 {
                    tt[i >> 6] |= 1 << (i & 63);
                }
            }
            return mk_tt(v, &tt);
        }
        if n.w <= 64 {
            match n.op {
                Op::Lut(..) | Op::Var { .. } => {}
                Op::Zext(a) if matches!(a.op, Op::Var { .. }) => {}
                _ => {
                    let t = table(n);
                    return mk_lut(v, t, n.w);
                }
            }
        }
    }
    n
}
pub fn mk_lut(v: N, t: &[u64; 256], w: u8) -> N {
    let (l, h) = v.vrange();
    let first = t[l];
    if (l..=h).all(|i| t[i] == first) {
        return cst(first as u128, w);
    }
    if w == 1 {
        let mut tt = [0u64; 4];
        for i in l..=h {
            if t[i] != 0 {
                tt[i >> 6] |= 1 << (i & 63);
            }
        }
        return mk_tt(v, &tt);
    }
    // identity -> zext(var)
    if w >= 8 && (l..=h).all(|i| t[i] == i as u64) {
        return if w == 8 { v } else { mk(Op::Zext(v), w) };
    }
    let mut c = [0u64; 256];
    c[l..=h].copy_from_slice(&t[l..=h]);
    mk(Op::Lut(v, intern_lut(&c)), w)
}

pub fn fold_bin(o: BinOp, a: u128, b: u128, w: u8) -> u128 {
    let m = maskw(w);
    let r = match o {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        BinOp::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        BinOp::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        BinOp::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let s = b.min(w as u128 - 1) as u32;
            (sx(a, w) >> s) as u128
        }
    };
    r & m
}

fn is_pow2m1(k: u128) -> Option<u8> {
    if k != 0 && k & (k.wrapping_add(1)) == 0 {
        Some(k.count_ones() as u8)
    } else {
        None
    }
}

pub fn not(a: N) -> N {
    debug_assert!(a.w == 1);
    bin(BinOp::Xor, a, bool_(true))
}
pub fn and(a: N, b: N) -> N {
    bin(BinOp::And, a, b)
}
pub fn or(a: N, b: N) -> N {
    bin(BinOp::Or, a, b)
}

pub fn bin(o: BinOp, a: N, b: N) -> N {
    let w = a.w;
    debug_assert!(a.w == b.w, "bin width {:?} {} {}", o, a.w, b.w);
    if let (Some(x), Some(y)) = (a.konst(), b.konst()) {
        return cst(fold_bin(o, x, y, w), w);
    }
    // const to the right for commutative
    let comm = matches!(o, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor);
    let (a, b) = if comm && (a.konst().is_some() || (b.konst().is_none() && a.id > b.id)) { (b, a) } else { (a, b) };
    let m = maskw(w);
    if let Some(k) = b.konst() {
        match o {
            BinOp::Add => {
                if k == 0 {
                    return a;
                }
                if let Op::Bin(BinOp::Add, x, y) = a.op {
                    if let Some(k2) = y.konst() {
                        return bin(BinOp::Add, x, cst(k.wrapping_add(k2), w));
                    }
                }
            }
            BinOp::Sub => return bin(BinOp::Add, a, cst(k.wrapping_neg() & m, w)),
            BinOp::Mul => {
                if k == 0 {
                    return b;
                }
                if k == 1 {
                    return a;
                }
                if k.is_power_of_two() {
                    return bin(BinOp::Shl, a, cst(k.trailing_zeros() as u128, w));
                }
            }
            BinOp::UDiv => {
                if k == 1 {
                    return a;
                }
                if k.is_power_of_two() {
                    return bin(BinOp::LShr, a, cst(k.trailing_zeros() as u128, w));
                }
                if w <= 64 && (a.hi as u128) < k {
                    return cst(0, w);
                }
            }
            BinOp::URem => {
                if k.is_power_of_two() {
                    return bin(BinOp::And, a, cst(k - 1, w));
                }
                if w <= 64 && (a.hi as u128) < k {
                    return a;
                }
            }
            BinOp::And => {
                if k == 0 {
                    return b;
                }
                if k == m {
                    return a;
                }
                if let Some(bits) = is_pow2m1(k) {
                    if w <= 64 && (a.hi as u128) <= k {
                        return a;
                    }
                    return zext(extract(a, 0, bits), w);
                }
                // mask = contiguous ones at shift
                let tz = k.trailing_zeros() as u8;
                if tz > 0 {
                    if let Some(bits) = is_pow2m1(k >> tz) {
                        let mid = extract(a, tz, bits);
                        let low = concat(mid, cst(0, tz));
                        return zext(low, w);
                    }
                }
                if let Op::Bin(BinOp::And, x, y) = a.op {
                    if let Some(k2) = y.konst() {
                        return bin(BinOp::And, x, cst(k & k2, w));
                    }
                }
            }
            BinOp::Or => {
                if k == 0 {
                    return a;
                }
                if k == m {
                    return b;
                }
            }
            BinOp::Xor => {
                if k == 0 {
                    return a;
                }
                if w == 1 {
                    match a.op {
                        Op::TT(v, t) => {
                            return mk_tt(v, &[!t[0], !t[1], !t[2], !t[3]]);
                        }
                        Op::Bin(BinOp::Xor, x, y) if y.konst() == Some(1) => return x,
                        _ => {}
                    }
                }
                if let Op::Bin(BinOp::Xor, x, y) = a.op {
                    if let Some(k2) = y.konst() {
                        return bin(BinOp::Xor, x, cst(k ^ k2, w));
                    }
                }
            }
            BinOp::Shl => {
                if k == 0 {
                    return a;
                }
                if k >= w as u128 {
                    return cst(0, w);
                }
                let s = k as u8;
                return concat(extract(a, 0, w - s), cst(0, s));
            }
            BinOp::LShr => {
                if k == 0 {
                    return a;
                }
                if k >= w as u128 {
                    return cst(0, w);
                }
                let s = k as u8;
                return zext(extract(a, s, w - s), w);
            }
            BinOp::AShr => {
                if k == 0 {
                    return a;
                }
                let s = k.min(w as u128 - 1) as u8;
                return sext(extract(a, s, w - s), w);
            }
            _ => {}
        }
    }
    if a.is_zero() {
        match o {
            BinOp::Shl | BinOp::LShr | BinOp::AShr | BinOp::UDiv | BinOp::URem => return a,
            _ => {}
        }
    }
    if a.id == b.id {
        match o {
            BinOp::And | BinOp::Or => return a,
            BinOp::Xor | BinOp::Sub => return cst(0, w),
            _ => {}
        }
    }
    if w == 1 {
        // boolean structure over TTs
        match o {
            BinOp::And | BinOp::Or | BinOp::Xor => {
                if let (Op::TT(v1, t1), Op::TT(v2, t2)) = (a.op, b.op) {
                    if v1.id == v2.id {
                        let f = |x: u64, y: u64| match o {
                            BinOp::And => x & y,
                            BinOp::Or => x | y,
                            _ => x ^ y,
                        };
                        return mk_tt(v1, &[f(t1[0], t2[0]), f(t1[1], t2[1]), f(t1[2], t2[2]), f(t1[3], t2[3])]);
                    }
                }
                // a & !a
                if let Op::Bin(BinOp::Xor, x, y) = b.op {
                    if y.konst() == Some(1) && x.id == a.id {
                        return bool_(!matches!(o, BinOp::And));
                    }
                }
                if let Op::Bin(BinOp::Xor, x, y) = a.op {
                    if y.konst() == Some(1) && x.id == b.id {
                        return bool_(!matches!(o, BinOp::And));
                    }
                }
            }
            BinOp::Add | BinOp::Sub => return bin(BinOp::Xor, a, b),
            BinOp::Mul => return bin(BinOp::And, a, b),
            _ => {}
        }
    }
    // or/add/xor of disjoint concat pieces
    if matches!(o, BinOp::Or | BinOp::Add | BinOp::Xor) && w > 1 {
        if let Some(r) = merge_disjoint(a, b).or_else(|| merge_disjoint(b, a)) {
            return r;
        }
    }
    // bitwise with concat: split
    if matches!(o, BinOp::And | BinOp::Or | BinOp::Xor) {
        if let (Op::Concat(_, l1), Op::Concat(_, l2)) = (a.op, b.op) {
            if l1.w == l2.w {
                if let (Op::Concat(h1, l1), Op::Concat(h2, l2)) = (a.op, b.op) {
                    return concat(bin(o, h1, h2), bin(o, l1, l2));
                }
            }
        }
        if let (Op::Concat(h1, l1), Some(k)) = (a.op, b.konst()) {
            return concat(bin(o, h1, cst(k >> l1.w, h1.w)), bin(o, l1, cst(k, l1.w)));
        }
        if let (Op::Zext(x), Some(k)) = (a.op, b.konst()) {
            if o == BinOp::And {
                return zext(bin(o, x, cst(k, x.w)), w);
            }
            return concat(cst(k >> x.w, w - x.w), bin(o, x, cst(k, x.w)));
        }
        if let (Op::Zext(x), Op::Zext(y)) = (a.op, b.op) {
            if x.w == y.w {
                return zext(bin(o, x, y), w);
            }
        }
    }
    // ite distribution over constants
    if let (Op::Ite(c, x, y), Some(_)) = (a.op, b.konst()) {
        if x.konst().is_some() || y.konst().is_some() {
            return ite(c, bin(o, x, b), bin(o, y, b));
        }
    }
    if let (Op::Ite(c, x, y), Some(_)) = (b.op, a.konst()) {
        if x.konst().is_some() || y.konst().is_some() {
            return ite(c, bin(o, a, x), bin(o, a, y));
        }
    }
    // signed div/rem of non-negative operands
    if matches!(o, BinOp::SDiv | BinOp::SRem) && w <= 64 {
        let sb = 1u64 << (w - 1);
        if a.hi < sb && b.hi < sb {
            return bin(if o == BinOp::SDiv { BinOp::UDiv } else { BinOp::URem }, a, b);
        }
    }
    // narrow expensive ops
    if matches!(o, BinOp::UDiv | BinOp::URem | BinOp::Mul) && w > 16 && w <= 64 {
        let h = if o == BinOp::Mul { (a.hi as u128) * (b.hi as u128) } else { a.hi.max(b.hi) as u128 };
        if b.lo > 0 || o == BinOp::Mul {
            for nw in [8u8, 16, 32] {
                if nw < w && h <= maskw(nw) {
                    return zext(bin(o, extract(a, 0, nw), extract(b, 0, nw)), w);
                }
            }
        }
    }
    if matches!(o, BinOp::Add) && w > 16 && w <= 64 {
        let h = a.hi as u128 + b.hi as u128;
        if h <= 0xffff {
            let nw = if h <= 0xff { 8 } else { 16 };
            return zext(bin(o, extract(a, 0, nw), extract(b, 0, nw)), w);
        }
    }
    canon(mk(Op::Bin(o, a, b), w))
}
/// a = concat(h, 0_k) [possibly under zext], b fits in k bits => h ++ b
fn merge_disjoint(a: N, b: N) -> Option<N> {
    let w = a.w;
    let (h, z, tw) = match a.op {
        Op::Concat(h, z) if z.is_zero() => (h, z.w, w),
        Op::Zext(x) => match x.op {
            Op::Concat(h, z) if z.is_zero() => (h, z.w, x.w),
            _ => return None,
        },
        _ => return None,
    };
    let fits = match b.op {
        Op::Zext(x) => x.w <= z,
        Op::Const(k) => k <= maskw(z),
        _ => w <= 64 && (b.hi as u128) <= maskw(z),
    };
    if !fits {
        return None;
    }
    let low = extract(b, 0, z);
    Some(zext(concat(h, low), if tw == w { w } else { w }))
}

pub fn zext(a: N, w: u8) -> N {
    if a.w == w {
        return a;
    }
    debug_assert!(a.w < w);
    match a.op {
        Op::Const(k) => return cst(k, w),
        Op::Zext(x) => return zext(x, w),
        Op::Lut(v, t) if w <= 64 => return mk(Op::Lut(v, t), w),
        _ => {}
    }
    canon(mk(Op::Zext(a), w))
}
pub fn sext(a: N, w: u8) -> N {
    if a.w == w {
        return a;
    }
    if let Op::Const(k) = a.op {
        return cst(sx(k, a.w) as u128, w);
    }
    if a.w <= 64 && a.hi < (1u64 << (a.w - 1)) {
        return zext(a, w);
    }
    if let Op::Zext(x) = a.op {
        return zext(x, w);
    }
    if let Op::Sext(x) = a.op {
        return sext(x, w);
    }
    if let Op::Ite(c, x, y) = a.op {
        if x.konst().is_some() && y.konst().is_some() {
            return ite(c, sext(x, w), sext(y, w));
        }
    }
    if a.w == 1 {
        return ite(a, cst(u128::MAX, w), cst(0, w));
    }
    canon(mk(Op::Sext(a), w))
}
pub fn extract(a: N, lo: u8, w: u8) -> N {
    if lo == 0 && w == a.w {
        return a;
    }
    debug_assert!(lo + w <= a.w);
    match a.op {
        Op::Const(k) => return cst(k >> lo, w),
        Op::Extract(x, l2) => return extract(x, lo + l2, w),
        Op::Concat(h, l) => {
            if lo >= l.w {
                return extract(h, lo - l.w, w);
            }
            if lo + w <= l.w {
                return extract(l, lo, w);
            }
            let lw = l.w - lo;
            return concat(extract(h, 0, w - lw), extract(l, lo, lw));
        }
        Op::Zext(x) => {
            if lo >= x.w {
                return cst(0, w);
            }
            if lo + w <= x.w {
                return extract(x, lo, w);
            }
            return zext(extract(x, lo, x.w - lo), w);
        }
        Op::Sext(x) => {
            if lo + w <= x.w {
                return extract(x, lo, w);
            }
        }
        Op::Ite(c, x, y) => {
            return ite(c, extract(x, lo, w), extract(y, lo, w));
        }
        Op::Bin(o, x, y) => match o {
            BinOp::And | BinOp::Or | BinOp::Xor => return bin(o, extract(x, lo, w), extract(y, lo, w)),
            BinOp::Add | BinOp::Sub | BinOp::Mul if lo == 0 => return bin(o, extract(x, 0, w), extract(y, 0, w)),
            _ => {}
        },
        _ => {}
    }
    if a.w <= 64 && lo < 64 && (a.hi >> lo) == 0 {
        return cst(0, w);
    }
    canon(mk(Op::Extract(a, lo), w))
}
pub fn concat(h: N, l: N) -> N {
    let w = h.w + l.w;
    debug_assert!(w <= 128);
    if let (Some(a), Some(b)) = (h.konst(), l.konst()) {
        return cst(a << l.w | b, w);
    }
    if h.is_zero() {
        return zext(l, w);
    }
    if let (Op::Extract(x, lx), Op::Extract(y, ly)) = (h.op, l.op) {
        if x.id == y.id && lx == ly + l.w {
            return extract(x, ly, w);
        }
    }
    // concat(a, concat(b, c)) with a,b extracts adjacent or consts
    if let Op::Concat(b, c) = l.op {
        if let (Op::Extract(x, lx), Op::Extract(y, ly)) = (h.op, b.op) {
            if x.id == y.id && lx == ly + b.w {
                return concat(extract(x, ly, h.w + b.w), c);
            }
        }
        if let (Some(a), Some(bk)) = (h.konst(), b.konst()) {
            return concat(cst(a << b.w | bk, h.w + b.w), c);
        }
    }
    if let Op::Zext(x) = l.op {
        // h ++ 0 ++ x : keep as concat(concat(h,0), x)
        return concat(concat(h, cst(0, l.w - x.w)), x);
    }
    if let Op::Zext(x) = h.op {
        return zext(concat(x, l), w);
    }
    canon(mk(Op::Concat(h, l), w))
}
pub fn ite(c: N, a: N, b: N) -> N {
    if let Some(k) = c.konst() {
        return if k != 0 { a } else { b };
    }
    if a.id == b.id {
        return a;
    }
    let w = a.w;
    debug_assert!(a.w == b.w);
    if w == 1 {
        match (a.konst(), b.konst()) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => return and(not(c), b),
            (None, Some(0)) => return and(c, a),
            (None, Some(1)) => return or(not(c), a),
            _ => {}
        }
    }
    if let Op::Bin(BinOp::Xor, x, k) = c.op {
        if k.konst() == Some(1) {
            return ite(x, b, a);
        }
    }
    if let Op::Ite(c2, x, _) = a.op {
        if c2.id == c.id {
            return ite(c, x, b);
        }
    }
    if let Op::Ite(c2, _, y) = b.op {
        if c2.id == c.id {
            return ite(c, a, y);
        }
    }
    // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
    if let Op::Ite(d, x, y) = b.op {
        if x.id == a.id {
            return ite(or(c, d), a, y);
        }
    }
    canon(mk(Op::Ite(c, a, b), w))
}
pub fn eq(a: N, b: N) -> N {
    debug_assert!(a.w == b.w, "eq width {} {}", a.w, b.w);
    if a.id == b.id {
        return bool_(true);
    }
    if let (Some(x), Some(y)) = (a.konst(), b.konst()) {
        return bool_(x == y);
    }
    if a.w <= 64 && (a.hi < b.lo || b.hi < a.lo) {
        return bool_(false);
    }
    let (a, b) = if a.konst().is_some() || (b.konst().is_none() && a.id > b.id) { (b, a) } else { (a, b) };
    if a.w == 1 {
        if let Some(k) = b.konst() {
            return if k == 1 { a } else { not(a) };
        }
        return not(bin(BinOp::Xor, a, b));
    }
    if let Some(k) = b.konst() {
        match a.op {
            Op::Zext(x) => {
                return if k > maskw(x.w) { bool_(false) } else { eq(x, cst(k, x.w)) };
            }
            Op::Concat(h, l) => {
                let e1 = eq(h, cst(k >> l.w, h.w));
                if e1.is_zero() {
                    return e1;
                }
                return and(e1, eq(l, cst(k, l.w)));
            }
            Op::Ite(c, x, y) => {
                if x.konst().is_some() || y.konst().is_some() {
                    return ite(c, eq(x, b), eq(y, b));
                }
            }
            Op::Bin(BinOp::Add, x, y) => {
                if let Some(k2) = y.konst() {
                    return eq(x, cst(k.wrapping_sub(k2), a.w));
                }
            }
            Op::Bin(BinOp::Xor, x, y) => {
                if let Some(k2) = y.konst() {
                    return eq(x, cst(k ^ k2, a.w));
                }
                if k == 0 {
                    return eq(x, y);
                }
            }
            Op::Bin(BinOp::Sub, x, y) if k == 0 => return eq(x, y),
            Op::Bin(BinOp::Or, x, y) if k == 0 => return and(eq(x, b), eq(y, b)),
            Op::Sext(x) => {
                let t = cst(k, x.w);
                if sx(t.konst().unwrap(), x.w) as u128 & maskw(a.w) != k {
                    return bool_(false);
                }
                return eq(x, t);
            }
            _ => {}
        }
    } else {
        match (a.op, b.op) {
            (Op::Zext(x), Op::Zext(y)) => {
                let w = x.w.max(y.w);
                if w < a.w {
                    return eq(zext(x, w), zext(y, w));
                }
            }
            (Op::Concat(h1, l1), Op::Concat(h2, l2)) if l1.w == l2.w => {
                return and(eq(h1, h2), eq(l1, l2));
            }
            _ => {}
        }
        if let Op::Bin(BinOp::Add, x, y) = a.op {
            if let Op::Bin(BinOp::Add, x2, y2) = b.op {
                if y.id == y2.id {
                    return eq(x, x2);
                }
                if let (Some(k1), Some(k2)) = (y.konst(), y2.konst()) {
                    return eq(bin(BinOp::Add, x, cst(k1.wrapping_sub(k2), a.w)), x2);
                }
            }
        }
    }
    canon(mk(Op::Eq(a, b), 1))
}
pub fn ult(a: N, b: N) -> N {
    if a.id == b.id {
        return bool_(false);
    }
    if let (Some(x), Some(y)) = (a.konst(), b.konst()) {
        return bool_(x < y);
    }
    if a.w <= 64 {
        if a.hi < b.lo {
            return bool_(true);
        }
        if a.lo >= b.hi {
            return bool_(false);
        }
    }
    if b.is_zero() {
        return bool_(false);
    }
    if a.w == 1 {
        return and(not(a), b);
    }
    if b.konst() == Some(1) {
        return eq(a, cst(0, a.w));
    }
    if a.is_zero() {
        return not(eq(b, a));
    }
    // narrow zext
    let aw = |n: N| match n.op {
        Op::Zext(x) => x.w,
        Op::Const(k) => (128 - k.leading_zeros()).max(1) as u8,
        _ => n.w,
    };
    let w = aw(a).max(aw(b));
    if w < a.w {
        let f = |n: N| match n.op {
            Op::Zext(x) => zext(x, w),
            _ => extract(n, 0, w),
        };
        return ult(f(a), f(b));
    }
    if let (Op::Ite(c, x, y), Some(_)) = (a.op, b.konst()) {
        if x.konst().is_some() || y.konst().is_some() {
            return ite(c, ult(x, b), ult(y, b));
        }
    }
    if let (Op::Ite(c, x, y), Some(_)) = (b.op, a.konst()) {
        if x.konst().is_some() || y.konst().is_some() {
            return ite(c, ult(a, x), ult(a, y));
        }
    }
    canon(mk(Op::Ult(a, b), 1))
}
pub fn slt(a: N, b: N) -> N {
    if a.id == b.id {
        return bool_(false);
    }
    let w = a.w;
    if let (Some(x), Some(y)) = (a.konst(), b.konst()) {
        return bool_(sx(x, w) < sx(y, w));
    }
    if w <= 64 {
        let sb = 1u64 << (w - 1);
        let (an, bn) = (a.hi < sb, b.hi < sb);
        let (aneg, bneg) = (a.lo >= sb, b.lo >= sb);
        if (an && bn) || (aneg && bneg) {
            return ult(a, b);
        }
        if an && bneg {
            return bool_(false);
        }
        if aneg && bn {
            return bool_(true);
        }
    }
    if b.is_zero() {
        return extract(a, w - 1, 1);
    }
    if w == 1 {
        return and(a, not(b));
    }
    if let (Op::Ite(c, x, y), Some(_)) = (a.op, b.konst()) {
        if x.konst().is_some() || y.konst().is_some() {
            return ite(c, slt(x, b), slt(y, b));
        }
    }
    canon(mk(Op::Slt(a, b), 1))
}

// ------------------------------------------------------------- evaluation
thread_local! {
    static MEMO: RefCell<FxMap<u32, u128>> = RefCell::new(FxMap::default());
}
pub fn eval(n: N, model: &[u8]) -> u128 {
    if let Op::Const(k) = n.op {
        return k;
    }
    if let Some(v) = n.var {
        if n.w <= 64 {
            if let Op::Var { id, .. } = v.op {
                return table_at(n, model[id as usize]);
            }
        }
    }
    MEMO.with(|m| {
        let mut m = m.borrow_mut();
        m.clear();
        ev(n, model, &mut m)
    })
}
/// all of `cs` true under `model`?
pub fn eval_all(cs: &[N], model: &[u8]) -> bool {
    MEMO.with(|m| {
        let mut m = m.borrow_mut();
        m.clear();
        cs.iter().all(|c| ev(c, model, &mut m) == 1)
    })
}
fn table_at(n: N, v: u8) -> u128 {
    match n.op {
        Op::TT(_, t) => ((t[v as usize >> 6] >> (v & 63)) & 1) as u128,
        Op::Var { .. } => v as u128,
        _ => table(n)[v as usize] as u128,
    }
}
fn ev(n: N, model: &[u8], memo: &mut FxMap<u32, u128>) -> u128 {
    if let Op::Const(k) = n.op {
        return k;
    }
    if let Some(v) = n.var {
        if n.w <= 64 {
            if let Op::Var { id, .. } = v.op {
                return table_at(n, model[id as usize]);
            }
        }
    }
    if let Some(&v) = memo.get(&n.id) {
        return v;
    }
    let r = match n.op {
        Op::Bin(o, a, b) => fold_bin(o, ev(a, model, memo), ev(b, model, memo), n.w),
        Op::Eq(a, b) => (ev(a, model, memo) == ev(b, model, memo)) as u128,
        Op::Ult(a, b) => (ev(a, model, memo) < ev(b, model, memo)) as u128,
        Op::Slt(a, b) => (sx(ev(a, model, memo), a.w) < sx(ev(b, model, memo), b.w)) as u128,
        Op::Ite(c, a, b) => {
            if ev(c, model, memo) != 0 {
                ev(a, model, memo)
            } else {
                ev(b, model, memo)
            }
        }
        Op::Concat(a, b) => (ev(a, model, memo) << b.w) | ev(b, model, memo),
        Op::Extract(a, l) => (ev(a, model, memo) >> l) & maskw(n.w),
        Op::Zext(a) => ev(a, model, memo),
        Op::Sext(a) => sx(ev(a, model, memo), a.w) as u128 & maskw(n.w),
        _ => unreachable!(),
    };
    memo.insert(n.id, r);
    r
}
