//! LLVM textual IR reader: types, globals and (lazily) function bodies,
//! compiled to a register bytecode.
use crate::exec::Val;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

pub type TyId = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vec(u64, TyId),
    Func,
    Meta,
    Label,
    Float(u32),
}

#[derive(Default)]
pub struct Types {
    pub list: Vec<Ty>,
    map: HashMap<Ty, TyId>,
    size: Vec<u64>,
    align: Vec<u64>,
    offs: Vec<Vec<u64>>,
    named: HashMap<String, TyId>,
}
fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}
impl Types {
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let id = self.list.len() as TyId;
        let (s, a, o) = match &t {
            Ty::Void | Ty::Func | Ty::Meta | Ty::Label => (0, 1, vec![]),
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = b.next_power_of_two().min(16).max(1);
                (up(b, a), a, vec![])
            }
            Ty::Float(w) => ((*w / 8) as u64, (*w / 8) as u64, vec![]),
            Ty::Ptr => (8, 8, vec![]),
            Ty::Arr(n, e) => (n * self.size(*e), self.align(*e), vec![]),
            Ty::Vec(n, e) => {
                let bits = match self.list[*e as usize] {
                    Ty::Int(w) => w as u64,
                    _ => 64,
                };
                let b = (n * bits + 7) / 8;
                let a = b.next_power_of_two().max(1);
                (up(b, a), a, vec![])
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                let mut offs = vec![];
                for &t in f {
                    let a = if *packed { 1 } else { self.align(t) };
                    al = al.max(a);
                    o = up(o, a);
                    offs.push(o);
                    o += self.size(t);
                }
                (up(o, al), al, offs)
            }
        };
        self.list.push(t.clone());
        self.size.push(s);
        self.align.push(a);
        self.offs.push(o);
        self.map.insert(t, id);
        id
    }
    pub fn size(&self, t: TyId) -> u64 {
        self.size[t as usize]
    }
    pub fn align(&self, t: TyId) -> u64 {
        self.align[t as usize]
    }
    pub fn ty(&self, t: TyId) -> &Ty {
        &self.list[t as usize]
    }
    pub fn off(&self, t: TyId, i: usize) -> u64 {
        match self.ty(t) {
            Ty::Struct(..) => self.offs[t as usize][i],
            Ty::Arr(_, e) => i as u64 * self.size(*e),
            Ty::Vec(_, e) => i as u64 * self.size(*e),
            _ => panic!("off"),
        }
    }
    pub fn elem(&self, t: TyId, i: usize) -> TyId {
        match self.ty(t) {
            Ty::Struct(f, _) => f[i],
            Ty::Arr(_, e) | Ty::Vec(_, e) => *e,
            x => panic!("elem of {:?}", x),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Zext,
    Sext,
    Trunc,
    Bit,
}

/// operand: top bit set = constant index
pub type Opd = u32;
pub const CONST: u32 = 1 << 31;

/// memory/value kind of a first class type
#[derive(Clone, Debug)]
pub enum Kind {
    Int(u32),
    Agg(Vec<(u64, Kind)>, u64),
    /// vector: element kind bits, count (bit packed)
    Vec(u32, u32),
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    pub copies: Vec<(u32, Opd)>,
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u8, dst: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u8, dst: u32, a: Opd, b: Opd },
    BinV { op: BinOp, w: u8, dst: u32, a: Opd, b: Opd },
    IcmpV { p: Pred, w: u8, dst: u32, a: Opd, b: Opd },
    Cast { op: CastOp, fw: u8, tw: u8, dst: u32, a: Opd },
    CastV { op: CastOp, from: Box<Kind>, to: Box<Kind>, dst: u32, a: Opd },
    Move { dst: u32, a: Opd },
    Select { dst: u32, c: Opd, a: Opd, b: Opd, ptr: bool, w: u8 },
    GepC { dst: u32, base: Opd, off: u64 },
    Gep1 { dst: u32, base: Opd, idx: Opd, iw: u8, scale: u64, off: u64 },
    GepN { dst: u32, base: Opd, off: u64, terms: Box<[(Opd, u8, u64)]> },
    Load { dst: u32, p: Opd, w: u8 },
    Store { p: Opd, v: Opd, w: u8 },
    LoadK { dst: u32, p: Opd, k: Box<Kind> },
    StoreK { p: Opd, v: Opd, k: Box<Kind> },
    Alloca { dst: u32, size: u64, align: u64, n: Opd },
    Br { e: Box<Edge> },
    CondBr { c: Opd, t: Box<Edge>, f: Box<Edge> },
    Switch { v: Opd, w: u8, def: Box<Edge>, cases: Box<SwitchTab> },
    Ret { v: Option<Opd> },
    Call { dst: Option<u32>, callee: Opd, args: Box<[Opd]> },
    CallF { dst: Option<u32>, f: usize, args: Box<[Opd]> },
    Intr { dst: Option<u32>, id: &'static Intrinsic, args: Box<[Opd]> },
    ExtractV { dst: u32, a: Opd, idx: Box<[u32]> },
    InsertV { dst: u32, a: Opd, v: Opd, idx: Box<[u32]> },
    ExtractE { dst: u32, a: Opd, i: Opd },
    InsertE { dst: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, a: Opd, b: Opd, m: Box<[i32]> },
    Unreachable,
    Unsupported(Box<str>),
}
#[derive(Debug)]
pub struct SwitchTab {
    pub map: HashMap<u64, u32>,
    pub edges: Vec<Edge>,
    pub cases: Vec<(u64, u32)>,
}
#[derive(Debug)]
pub struct Intrinsic {
    pub name: String,
    pub w: u32, // width suffix where relevant
    pub kind: u32,
}

pub struct Code {
    pub insts: Vec<Inst>,
    pub consts: Vec<Val>,
    pub nregs: u32,
    pub nparams: u32,
}

pub struct Func {
    pub name: String,
    pub text: Option<(usize, usize)>, // byte range of define line .. '}'
    pub code: OnceLock<Code>,
    pub addr: u64,
    pub ext: u32,
    pub hits: std::sync::atomic::AtomicBool,
}

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: (usize, usize),
    pub addr: u64,
    pub external: bool,
    pub size: u64,
}

pub struct Module {
    pub text: &'static [u8],
    pub types: Mutex<Types>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<&'static str, usize>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<&'static str, usize>,
    pub intr: Mutex<HashMap<String, &'static Intrinsic>>,
}

pub const FUNC_BASE: u64 = 0x1_0000;
pub const GLOB_BASE: u64 = 0x40_0000;

// ------------------------------------------------------------- lexing
pub struct Lx<'a> {
    pub s: &'a [u8],
    pub p: usize,
}
impl<'a> Lx<'a> {
    pub fn new(s: &'a [u8], p: usize) -> Self {
        Lx { s, p }
    }
    pub fn ws(&mut self) {
        while self.p < self.s.len() {
            match self.s[self.p] {
                b' ' | b'\t' | b'\n' | b'\r' => self.p += 1,
                b';' => {
                    while self.p < self.s.len() && self.s[self.p] != b'\n' {
                        self.p += 1
                    }
                }
                _ => break,
            }
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() {
            self.s[self.p]
        } else {
            0
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.err(&format!("expected '{}'", c as char));
        }
    }
    pub fn err(&self, m: &str) -> ! {
        let a = self.p.saturating_sub(200);
        let b = (self.p + 100).min(self.s.len());
        panic!(
            "IR parse error: {} at ...{}<<HERE>>{}...",
            m,
            String::from_utf8_lossy(&self.s[a..self.p]),
            String::from_utf8_lossy(&self.s[self.p..b])
        );
    }
    /// identifier word [A-Za-z0-9_.$-]
    pub fn word(&mut self) -> &'a [u8] {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() {
            match self.s[self.p] {
                b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'.' | b'$' | b'-' => self.p += 1,
                _ => break,
            }
        }
        &self.s[st..self.p]
    }
    pub fn peek_word(&mut self) -> &'a [u8] {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        let p = self.p;
        if self.word() == w.as_bytes() {
            true
        } else {
            self.p = p;
            false
        }
    }
    /// name after % or @
    pub fn name(&mut self) -> String {
        if self.s[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' {
                self.p += 1
            }
            let r = String::from_utf8_lossy(&self.s[st..self.p]).into_owned();
            self.p += 1;
            r
        } else {
            String::from_utf8_lossy(self.word()).into_owned()
        }
    }
    pub fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    pub fn int(&mut self) -> i128 {
        let w = self.word();
        let s = std::str::from_utf8(w).unwrap();
        match s.parse::<i128>() {
            Ok(v) => v,
            Err(_) => match s.parse::<u128>() {
                Ok(v) => v as i128,
                Err(_) => self.err("int"),
            },
        }
    }
    pub fn parse_type(&mut self, ts: &mut Types) -> TyId {
        let mut t = match self.peek() {
            b'[' => {
                self.p += 1;
                let n = self.int() as u64;
                if !self.eat_word("x") {
                    self.err("x");
                }
                let e = self.parse_type(ts);
                self.expect(b']');
                ts.get(Ty::Arr(n, e))
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    self.p += 1;
                    let f = self.type_list(ts, b'}');
                    self.expect(b'>');
                    ts.get(Ty::Struct(f, true))
                } else {
                    let n = self.int() as u64;
                    if !self.eat_word("x") {
                        self.err("x");
                    }
                    let e = self.parse_type(ts);
                    self.expect(b'>');
                    ts.get(Ty::Vec(n, e))
                }
            }
            b'{' => {
                self.p += 1;
                let f = self.type_list(ts, b'}');
                ts.get(Ty::Struct(f, false))
            }
            b'%' => {
                self.p += 1;
                let n = self.name();
                match ts.named.get(&n) {
                    Some(&t) => t,
                    None => self.err("named type"),
                }
            }
            _ => {
                let w = self.word();
                match w {
                    b"void" => ts.get(Ty::Void),
                    b"ptr" => ts.get(Ty::Ptr),
                    b"metadata" => ts.get(Ty::Meta),
                    b"label" => ts.get(Ty::Label),
                    b"float" => ts.get(Ty::Float(32)),
                    b"double" => ts.get(Ty::Float(64)),
                    _ if w.len() > 1 && w[0] == b'i' => {
                        let n = std::str::from_utf8(&w[1..]).unwrap().parse::<u32>();
                        match n {
                            Ok(n) => ts.get(Ty::Int(n)),
                            Err(_) => self.err("type"),
                        }
                    }
                    _ => self.err("type"),
                }
            }
        };
        // function type suffix
        loop {
            if self.peek() == b'(' {
                self.skip_parens();
                t = ts.get(Ty::Func);
            } else {
                break;
            }
        }
        t
    }
    fn type_list(&mut self, ts: &mut Types, end: u8) -> Vec<TyId> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.parse_type(ts));
            if self.eat(end) {
                return v;
            }
            self.expect(b',');
        }
    }
    /// is next token the start of a value?
    fn value_start(&mut self) -> bool {
        match self.peek() {
            b'%' | b'@' | b'0'..=b'9' | b'-' | b'[' | b'{' | b'<' | b'!' => true,
            _ => {
                let p = self.p;
                let w = self.word();
                let r = match w {
                    b"null" | b"true" | b"false" | b"undef" | b"poison" | b"zeroinitializer" | b"splat"
                    | b"getelementptr" | b"ptrtoint" | b"inttoptr" | b"ptrtoaddr" | b"none" | b"asm" => true,
                    b"add" | b"sub" | b"xor" | b"trunc" => true,
                    b"c" => self.s[self.p] == b'"',
                    b"float" | b"double" => true,
                    _ => false,
                };
                self.p = p;
                r
            }
        }
    }
    /// skip parameter attributes between type and value
    pub fn skip_attrs(&mut self) {
        while !self.value_start() {
            if self.peek() == b'"' {
                self.p += 1;
                while self.s[self.p] != b'"' {
                    self.p += 1
                }
                self.p += 1;
                if self.eat(b'=') {
                    continue;
                }
                continue;
            }
            let w = self.word();
            if w.is_empty() {
                self.err("attr");
            }
            if w == b"align" && self.peek() != b'(' {
                self.int();
            } else if self.p < self.s.len() && self.s[self.p] == b'(' {
                self.skip_parens();
            }
        }
    }
}

fn find_line_starts(text: &'static [u8]) -> Vec<usize> {
    let mut v = vec![0];
    let mut p = 0;
    while let Some(i) = text[p..].iter().position(|&c| c == b'\n') {
        p += i + 1;
        v.push(p);
    }
    v
}

/// strings for the module scan
pub fn load(text: &'static [u8]) -> Module {
    let mut m = Module {
        text,
        types: Mutex::new(Types::default()),
        funcs: vec![],
        fmap: HashMap::new(),
        globals: vec![],
        gmap: HashMap::new(),
        intr: Mutex::new(HashMap::new()),
    };
    let mut ts = Types::default();
    let starts = find_line_starts(text);
    let mut i = 0;
    while i < starts.len() {
        let st = starts[i];
        if st >= text.len() {
            break;
        }
        match text[st] {
            b'%' => {
                let mut lx = Lx::new(text, st + 1);
                let n = lx.name();
                lx.expect(b'=');
                lx.eat_word("type");
                if lx.eat_word("opaque") {
                } else {
                    let t = lx.parse_type(&mut ts);
                    ts.named.insert(n, t);
                }
            }
            b'@' => {
                let mut lx = Lx::new(text, st + 1);
                let n = lx.name();
                lx.expect(b'=');
                let mut external = false;
                let mut alias = false;
                loop {
                    let w = lx.word();
                    match w {
                        b"global" | b"constant" => break,
                        b"alias" => {
                            alias = true;
                            break;
                        }
                        b"external" | b"extern_weak" => external = true,
                        b"thread_local" | b"addrspace" => {
                            if lx.peek() == b'(' {
                                lx.skip_parens()
                            }
                        }
                        b"" => lx.err("global"),
                        _ => {}
                    }
                }
                if alias {
                    panic!("alias unsupported");
                }
                let ty = lx.parse_type(&mut ts);
                let size = ts.size(ty);
                let end = starts.get(i + 1).copied().unwrap_or(text.len());
                let nm: &'static str = Box::leak(n.clone().into_boxed_str());
                m.gmap.insert(nm, m.globals.len());
                m.globals.push(Global { name: n, ty, init: (lx.p, end), addr: 0, external, size });
            }
            b'd' if text[st..].starts_with(b"define") => {
                // find end
                let mut j = i + 1;
                while text[starts[j]] != b'}' {
                    j += 1;
                }
                add_func(&mut m, text, st, Some((st, starts[j])));
                i = j;
            }
            b'd' if text[st..].starts_with(b"declare") => add_func(&mut m, text, st, None),
            _ => {}
        }
        i += 1;
    }
    // addresses
    let mut a = GLOB_BASE;
    for g in m.globals.iter_mut() {
        a = up(a, 16);
        g.addr = a;
        a += g.size.max(1);
    }
    for (i, f) in m.funcs.iter_mut().enumerate() {
        f.addr = FUNC_BASE + i as u64 * 16;
    }
    assert!(FUNC_BASE + m.funcs.len() as u64 * 16 < GLOB_BASE);
    m.types = Mutex::new(ts);
    m
}

fn add_func(m: &mut Module, text: &'static [u8], st: usize, range: Option<(usize, usize)>) {
    // name: first '@' followed by name and '('
    let mut p = st;
    while text[p] != b'@' {
        p += 1;
    }
    let mut lx = Lx::new(text, p + 1);
    let n = lx.name();
    let nm: &'static str = Box::leak(n.clone().into_boxed_str());
    m.fmap.insert(nm, m.funcs.len());
    let ext = crate::exec::ext_kind(&n);
    m.funcs.push(Func {
        name: n,
        ext,
        text: range,
        code: OnceLock::new(),
        addr: 0,
        hits: std::sync::atomic::AtomicBool::new(false),
    });
}

impl Module {
    pub fn kind_of(ts: &Types, t: TyId) -> Kind {
        match ts.ty(t) {
            Ty::Int(w) => Kind::Int(*w),
            Ty::Ptr => Kind::Int(64),
            Ty::Float(w) => Kind::Int(*w),
            Ty::Vec(n, e) => match ts.ty(*e) {
                Ty::Int(w) => Kind::Vec(*w, *n as u32),
                Ty::Ptr => Kind::Vec(64, *n as u32),
                x => panic!("vec elem {:?}", x),
            },
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (i, &ft) in f.iter().enumerate() {
                    v.push((ts.off(t, i), Self::kind_of(ts, ft)));
                }
                Kind::Agg(v, ts.size(t))
            }
            Ty::Arr(n, e) => {
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push((ts.off(t, i), Self::kind_of(ts, *e)));
                }
                Kind::Agg(v, ts.size(t))
            }
            x => panic!("kind_of {:?}", x),
        }
    }
    pub fn zero(k: &Kind) -> Val {
        match k {
            Kind::Int(w) if *w <= 64 => Val::I(0),
            Kind::Int(_) => Val::W([0, 0]),
            Kind::Vec(_, n) => Val::A(Arc::from(vec![Val::I(0); *n as usize])),
            Kind::Agg(v, _) => Val::A(Arc::from(v.iter().map(|(_, k)| Self::zero(k)).collect::<Vec<_>>())),
        }
    }
    fn global_addr(&self, n: &str) -> u64 {
        if let Some(&g) = self.gmap.get(n) {
            return self.globals[g].addr;
        }
        if let Some(&f) = self.fmap.get(n) {
            return self.funcs[f].addr;
        }
        panic!("unknown global {}", n)
    }
    /// parse a constant of type t
    pub fn constant(&self, lx: &mut Lx, ts: &mut Types, t: TyId) -> Val {
        let ty = ts.ty(t).clone();
        match lx.peek() {
            b'@' => {
                lx.p += 1;
                let n = lx.name();
                return Val::I(self.global_addr(&n));
            }
            b'0'..=b'9' | b'-' => {
                let v = lx.int();
                let w = match ty {
                    Ty::Int(w) => w,
                    _ => 64,
                };
                return Val::from_u128(v as u128, w);
            }
            b'[' | b'{' => {
                let c = lx.s[lx.p];
                lx.p += 1;
                let end = if c == b'[' { b']' } else { b'}' };
                let mut v = vec![];
                if !lx.eat(end) {
                    loop {
                        let et = lx.parse_type(ts);
                        v.push(self.constant(lx, ts, et));
                        if lx.eat(end) {
                            break;
                        }
                        lx.expect(b',');
                    }
                }
                return Val::A(Arc::from(v));
            }
            b'<' => {
                lx.p += 1;
                let packed = lx.eat(b'{');
                let mut v = vec![];
                loop {
                    let et = lx.parse_type(ts);
                    v.push(self.constant(lx, ts, et));
                    if packed && lx.eat(b'}') {
                        lx.expect(b'>');
                        break;
                    }
                    if !packed && lx.eat(b'>') {
                        break;
                    }
                    lx.expect(b',');
                }
                return Val::A(Arc::from(v));
            }
            b'!' => {
                // metadata argument
                lx.p += 1;
                if lx.peek() == b'{' || lx.peek() == b'"' {
                    lx.err("metadata");
                }
                lx.word();
                return Val::I(0);
            }
            _ => {}
        }
        let w = lx.word();
        match w {
            b"null" | b"false" => Val::I(0),
            b"true" => Val::I(1),
            b"undef" | b"poison" | b"zeroinitializer" | b"none" => Self::zero(&Self::kind_of(ts, t)),
            b"c" => {
                lx.expect(b'"');
                let mut v = vec![];
                while lx.s[lx.p] != b'"' {
                    let mut c = lx.s[lx.p];
                    if c == b'\\' && lx.s[lx.p + 1] == b'\\' {
                        lx.p += 2;
                    } else if c == b'\\' {
                        let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                        c = h(lx.s[lx.p + 1]) * 16 + h(lx.s[lx.p + 2]);
                        lx.p += 3;
                    } else {
                        lx.p += 1;
                    }
                    v.push(Val::I(c as u64));
                }
                lx.p += 1;
                Val::A(Arc::from(v))
            }
            b"splat" => {
                lx.expect(b'(');
                let et = lx.parse_type(ts);
                let v = self.constant(lx, ts, et);
                lx.expect(b')');
                let n = match ty {
                    Ty::Vec(n, _) => n,
                    _ => lx.err("splat"),
                };
                Val::A(Arc::from(vec![v; n as usize]))
            }
            b"ptrtoint" | b"inttoptr" | b"ptrtoaddr" | b"trunc" => {
                lx.expect(b'(');
                let et = lx.parse_type(ts);
                let v = self.constant(lx, ts, et);
                lx.eat_word("to");
                let tt = lx.parse_type(ts);
                lx.expect(b')');
                let tw = match ts.ty(tt) {
                    Ty::Int(w) => *w,
                    _ => 64,
                };
                Val::from_u128(v.u128(), tw)
            }
            b"add" | b"sub" | b"xor" => {
                while lx.peek() != b'(' {
                    lx.word();
                }
                lx.expect(b'(');
                let t1 = lx.parse_type(ts);
                let a = self.constant(lx, ts, t1).u128();
                lx.expect(b',');
                let t2 = lx.parse_type(ts);
                let b = self.constant(lx, ts, t2).u128();
                lx.expect(b')');
                let tw = match ts.ty(t1) {
                    Ty::Int(w) => *w,
                    _ => 64,
                };
                let r = match w {
                    b"add" => a.wrapping_add(b),
                    b"sub" => a.wrapping_sub(b),
                    _ => a ^ b,
                };
                Val::from_u128(r, tw)
            }
            b"getelementptr" => {
                while lx.peek() != b'(' {
                    let w = lx.word();
                    if w == b"inrange" {
                        lx.skip_parens();
                    }
                }
                lx.expect(b'(');
                let mut et = lx.parse_type(ts);
                lx.expect(b',');
                let pt = lx.parse_type(ts);
                let base = self.constant(lx, ts, pt).u128() as u64;
                let mut off = 0u64;
                let mut first = true;
                while lx.eat(b',') {
                    let it = lx.parse_type(ts);
                    let i = self.constant(lx, ts, it).u128();
                    let iw = match ts.ty(it) {
                        Ty::Int(w) => *w,
                        _ => 64,
                    };
                    let i = sext64(i as u64, iw);
                    if first {
                        off = off.wrapping_add(i.wrapping_mul(ts.size(et)));
                        first = false;
                    } else {
                        off = off.wrapping_add(match ts.ty(et) {
                            Ty::Struct(..) => ts.off(et, i as usize),
                            _ => i.wrapping_mul(ts.size(ts.elem(et, 0))),
                        });
                        et = ts.elem(et, i as usize);
                    }
                }
                lx.expect(b')');
                Val::I(base.wrapping_add(off))
            }
            _ => lx.err("constant"),
        }
    }

    pub fn code(&self, f: usize) -> &Code {
        self.funcs[f].code.get_or_init(|| {
            let mut ts = self.types.lock().unwrap();
            FnCompiler::compile(self, &mut ts, f)
        })
    }
}

pub fn sext64(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        (((v << (64 - w)) as i64) >> (64 - w)) as u64
    }
}

struct FnCompiler<'m> {
    m: &'m Module,
    lx: Lx<'static>,
    consts: Vec<Val>,
    ccache: HashMap<u64, u32>,
    regs: HashMap<String, u32>,
    nregs: u32,
    insts: Vec<Inst>,
    blocks: HashMap<String, usize>,
    // per block: start pc and phis (dst, [(val, pred)])
    bpc: Vec<u32>,
    phis: Vec<Vec<(u32, Vec<(Opd, usize)>)>>,
    cur: usize,
    // (inst idx, pred block) recorded by position
    owner: Vec<usize>,
}

fn edge0(b: usize) -> Edge {
    Edge { pc: b as u32, copies: vec![] }
}

impl<'m> FnCompiler<'m> {
    fn block(&mut self, n: &str) -> usize {
        if let Some(&b) = self.blocks.get(n) {
            return b;
        }
        let b = self.bpc.len();
        self.blocks.insert(n.to_string(), b);
        self.bpc.push(u32::MAX);
        self.phis.push(vec![]);
        b
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn cnst(&mut self, v: Val) -> Opd {
        if let Val::I(x) = v {
            if let Some(&c) = self.ccache.get(&x) {
                return c;
            }
            let i = self.consts.len() as u32 | CONST;
            self.consts.push(v);
            self.ccache.insert(x, i);
            return i;
        }
        let i = self.consts.len() as u32 | CONST;
        self.consts.push(v);
        i
    }
    fn value(&mut self, ts: &mut Types, t: TyId) -> Opd {
        self.lx.skip_attrs();
        if self.lx.peek() == b'%' {
            self.lx.p += 1;
            let n = self.lx.name();
            return self.reg(&n);
        }
        let v = self.m.constant(&mut self.lx, ts, t);
        self.cnst(v)
    }
    fn tval(&mut self, ts: &mut Types) -> (TyId, Opd) {
        let t = self.lx.parse_type(ts);
        let v = self.value(ts, t);
        (t, v)
    }
    fn label(&mut self) -> usize {
        if !self.lx.eat_word("label") {
            self.lx.err("label");
        }
        self.lx.expect(b'%');
        let n = self.lx.name();
        self.block(&n)
    }
    fn skip_line(&mut self) {
        while self.lx.p < self.lx.s.len() && self.lx.s[self.lx.p] != b'\n' {
            self.lx.p += 1;
        }
    }
    fn flags(&mut self) {
        loop {
            let p = self.lx.p;
            let w = self.lx.word();
            match w {
                b"nuw" | b"nsw" | b"exact" | b"inbounds" | b"nneg" | b"disjoint" | b"samesign" | b"nusw"
                | b"volatile" | b"atomic" | b"inalloca" | b"contract" => {}
                _ => {
                    self.lx.p = p;
                    return;
                }
            }
        }
    }
    fn compile(m: &'m Module, ts: &mut Types, f: usize) -> Code {
        let (st, en) = m.funcs[f].text.unwrap();
        let mut c = FnCompiler {
            m,
            lx: Lx::new(&m.text[..en], st),
            consts: vec![],
            ccache: HashMap::new(),
            regs: HashMap::new(),
            nregs: 0,
            insts: vec![],
            blocks: HashMap::new(),
            bpc: vec![],
            phis: vec![],
            cur: 0,
            owner: vec![],
        };
        // header
        while c.lx.s[c.lx.p] != b'@' {
            c.lx.p += 1;
        }
        c.lx.p += 1;
        c.lx.name();
        c.lx.expect(b'(');
        let mut np = 0;
        if !c.lx.eat(b')') {
            loop {
                if c.lx.peek() == b'.' {
                    panic!("vararg define");
                }
                let _t = c.lx.parse_type(ts);
                c.lx.skip_attrs();
                c.lx.expect(b'%');
                let n = c.lx.name();
                let r = c.reg(&n);
                assert_eq!(r, np);
                np += 1;
                if c.lx.eat(b')') {
                    break;
                }
                c.lx.expect(b',');
            }
        }
        // to end of line "{"
        c.skip_line();
        // entry label: may be unnamed -> number np
        let mut first = true;
        let mut next_num = np;
        let _ = &mut next_num;
        loop {
            c.lx.ws();
            if c.lx.p >= c.lx.s.len() {
                break;
            }
            // label?
            let ls = c.lx.p;
            if c.lx.s[ls] != b'%' {
                let save = c.lx.p;
                let nm = if c.lx.s[ls] == b'"' { c.lx.name() } else { String::from_utf8_lossy(c.lx.word()).into_owned() };
                if c.lx.p < c.lx.s.len() && c.lx.s[c.lx.p] == b':' {
                    c.lx.p += 1;
                    let b = c.block(&nm);
                    c.cur = b;
                    c.bpc[b] = c.insts.len() as u32;
                    first = false;
                    c.skip_line();
                    continue;
                }
                c.lx.p = save;
            }
            if first {
                let b = c.block(&np.to_string());
                c.cur = b;
                c.bpc[b] = 0;
                first = false;
            }
            c.inst(ts);
            while c.owner.len() < c.insts.len() {
                let cur = c.cur;
                c.owner.push(cur);
            }
        }
        // resolve edges
        let bpc = std::mem::take(&mut c.bpc);
        let phis = std::mem::take(&mut c.phis);
        let fix = |e: &mut Edge, from: usize| {
            let b = e.pc as usize;
            e.pc = bpc[b];
            for (dst, ins) in &phis[b] {
                let v = ins.iter().find(|(_, p)| *p == from).map(|x| x.0);
                match v {
                    Some(v) => {
                        if v != *dst {
                            e.copies.push((*dst, v))
                        }
                    }
                    None => panic!("phi without pred in {}", m.funcs[f].name),
                }
            }
        };
        for (i, ins) in c.insts.iter_mut().enumerate() {
            let from = c.owner[i];
            match ins {
                Inst::Br { e } => fix(e, from),
                Inst::CondBr { t, f, .. } => {
                    fix(t, from);
                    fix(f, from);
                }
                Inst::Switch { def, cases, .. } => {
                    fix(def, from);
                    for e in cases.edges.iter_mut() {
                        fix(e, from)
                    }
                }
                _ => {}
            }
        }
        Code { insts: c.insts, consts: c.consts, nregs: c.nregs, nparams: np }
    }

    fn inst(&mut self, ts: &mut Types) {
        let mut dst = None;
        let start = self.lx.p;
        let mut multi = false;
        if self.lx.peek() == b'%' {
            self.lx.p += 1;
            let n = self.lx.name();
            self.lx.expect(b'=');
            dst = Some(self.reg(&n));
        }
        let op = self.lx.word();
        let d = dst.unwrap_or(0);
        match op {
            b"add" | b"sub" | b"mul" | b"udiv" | b"urem" | b"sdiv" | b"srem" | b"and" | b"or" | b"xor" | b"shl"
            | b"lshr" | b"ashr" => {
                let bop = match op {
                    b"add" => BinOp::Add,
                    b"sub" => BinOp::Sub,
                    b"mul" => BinOp::Mul,
                    b"udiv" => BinOp::UDiv,
                    b"urem" => BinOp::URem,
                    b"sdiv" => BinOp::SDiv,
                    b"srem" => BinOp::SRem,
                    b"and" => BinOp::And,
                    b"or" => BinOp::Or,
                    b"xor" => BinOp::Xor,
                    b"shl" => BinOp::Shl,
                    b"lshr" => BinOp::LShr,
                    _ => BinOp::AShr,
                };
                self.flags();
                let (t, a) = self.tval(ts);
                self.lx.expect(b',');
                let b = self.value(ts, t);
                match Module::kind_of(ts, t) {
                    Kind::Int(w) if w <= 64 => self.insts.push(Inst::Bin { op: bop, w: w as u8, dst: d, a, b }),
                    Kind::Int(w) | Kind::Vec(w, _) => self.insts.push(Inst::BinV { op: bop, w: w as u8, dst: d, a, b }),
                    _ => self.lx.err("bin type"),
                }
            }
            b"icmp" => {
                self.flags();
                let p = match self.lx.word() {
                    b"eq" => Pred::Eq,
                    b"ne" => Pred::Ne,
                    b"ugt" => Pred::Ugt,
                    b"uge" => Pred::Uge,
                    b"ult" => Pred::Ult,
                    b"ule" => Pred::Ule,
                    b"sgt" => Pred::Sgt,
                    b"sge" => Pred::Sge,
                    b"slt" => Pred::Slt,
                    b"sle" => Pred::Sle,
                    _ => self.lx.err("pred"),
                };
                let (t, a) = self.tval(ts);
                self.lx.expect(b',');
                let b = self.value(ts, t);
                match Module::kind_of(ts, t) {
                    Kind::Int(w) if w <= 64 => self.insts.push(Inst::Icmp { p, w: w as u8, dst: d, a, b }),
                    Kind::Int(w) | Kind::Vec(w, _) => self.insts.push(Inst::IcmpV { p, w: w as u8, dst: d, a, b }),
                    _ => self.lx.err("icmp type"),
                }
            }
            b"zext" | b"sext" | b"trunc" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"ptrtoaddr" => {
                self.flags();
                let (t, a) = self.tval(ts);
                if !self.lx.eat_word("to") {
                    self.lx.err("to");
                }
                let t2 = self.lx.parse_type(ts);
                let (k1, k2) = (Module::kind_of(ts, t), Module::kind_of(ts, t2));
                let cop = match op {
                    b"zext" => CastOp::Zext,
                    b"sext" => CastOp::Sext,
                    b"trunc" => CastOp::Trunc,
                    b"bitcast" => CastOp::Bit,
                    _ => match (&k1, &k2) {
                        (Kind::Int(a), Kind::Int(b)) if a < b => CastOp::Zext,
                        (Kind::Int(a), Kind::Int(b)) if a > b => CastOp::Trunc,
                        _ => CastOp::Bit,
                    },
                };
                match (&k1, &k2) {
                    (Kind::Int(x), Kind::Int(y)) => {
                        if x == y {
                            self.insts.push(Inst::Move { dst: d, a })
                        } else {
                            self.insts.push(Inst::Cast { op: cop, fw: *x as u8, tw: *y as u8, dst: d, a })
                        }
                    }
                    _ => self.insts.push(Inst::CastV { op: cop, from: Box::new(k1), to: Box::new(k2), dst: d, a }),
                }
            }
            b"freeze" => {
                let (_, a) = self.tval(ts);
                self.insts.push(Inst::Move { dst: d, a });
            }
            b"select" => {
                let (_, c) = self.tval(ts);
                self.lx.expect(b',');
                let (t, a) = self.tval(ts);
                self.lx.expect(b',');
                let (_, b) = self.tval(ts);
                let ptr = matches!(ts.ty(t), Ty::Ptr);
                let w = match ts.ty(t) {
                    Ty::Int(w) => *w as u8,
                    _ => 64,
                };
                self.insts.push(Inst::Select { dst: d, c, a, b, ptr, w });
            }
            b"getelementptr" => {
                self.flags();
                let mut et = self.lx.parse_type(ts);
                self.lx.expect(b',');
                let (_, base) = self.tval(ts);
                let mut off = 0u64;
                let mut terms: Vec<(Opd, u8, u64)> = vec![];
                let mut first = true;
                while self.lx.peek() == b',' {
                    // could be metadata: ", !dbg"
                    let save = self.lx.p;
                    self.lx.p += 1;
                    if self.lx.peek() == b'!' {
                        self.lx.p = save;
                        break;
                    }
                    let (it, i) = self.tval(ts);
                    let iw = match ts.ty(it) {
                        Ty::Int(w) => *w,
                        _ => self.lx.err("gep idx"),
                    };
                    let (scale, konst) = if first {
                        (ts.size(et), None)
                    } else {
                        match ts.ty(et) {
                            Ty::Struct(..) => {
                                let k = self.consts[(i & !CONST) as usize].u128() as usize;
                                (0, Some((ts.off(et, k), k)))
                            }
                            _ => (ts.size(ts.elem(et, 0)), None),
                        }
                    };
                    if let Some((o, k)) = konst {
                        off = off.wrapping_add(o);
                        et = ts.elem(et, k);
                    } else {
                        if i & CONST != 0 {
                            let v = sext64(self.consts[(i & !CONST) as usize].u128() as u64, iw);
                            off = off.wrapping_add(v.wrapping_mul(scale));
                        } else {
                            terms.push((i, iw as u8, scale));
                        }
                        if !first {
                            et = ts.elem(et, 0);
                        }
                    }
                    first = false;
                }
                match terms.len() {
                    0 => self.insts.push(Inst::GepC { dst: d, base, off }),
                    1 => self.insts.push(Inst::Gep1 { dst: d, base, idx: terms[0].0, iw: terms[0].1, scale: terms[0].2, off }),
                    _ => self.insts.push(Inst::GepN { dst: d, base, off, terms: terms.into_boxed_slice() }),
                }
            }
            b"load" => {
                self.flags();
                let t = self.lx.parse_type(ts);
                self.lx.expect(b',');
                let (_, p) = self.tval(ts);
                match Module::kind_of(ts, t) {
                    Kind::Int(w) if w <= 64 => self.insts.push(Inst::Load { dst: d, p, w: w as u8 }),
                    k => self.insts.push(Inst::LoadK { dst: d, p, k: Box::new(k) }),
                }
            }
            b"store" => {
                self.flags();
                let (t, v) = self.tval(ts);
                self.lx.expect(b',');
                let (_, p) = self.tval(ts);
                match Module::kind_of(ts, t) {
                    Kind::Int(w) if w <= 64 => self.insts.push(Inst::Store { p, v, w: w as u8 }),
                    k => self.insts.push(Inst::StoreK { p, v, k: Box::new(k) }),
                }
            }
            b"alloca" => {
                self.flags();
                let t = self.lx.parse_type(ts);
                let mut n = self.cnst(Val::I(1));
                let mut al = ts.align(t);
                while self.lx.eat(b',') {
                    if self.lx.eat_word("align") {
                        al = self.lx.int() as u64;
                    } else if self.lx.peek() == b'!' {
                        break;
                    } else {
                        let (_, v) = self.tval(ts);
                        n = v;
                    }
                }
                self.insts.push(Inst::Alloca { dst: d, size: ts.size(t), align: al, n });
            }
            b"br" => {
                if self.lx.peek_word() == b"label" {
                    let b = self.label();
                    self.insts.push(Inst::Br { e: Box::new(edge0(b)) });
                } else {
                    let (_, c) = self.tval(ts);
                    self.lx.expect(b',');
                    let t = self.label();
                    self.lx.expect(b',');
                    let f = self.label();
                    self.insts.push(Inst::CondBr { c, t: Box::new(edge0(t)), f: Box::new(edge0(f)) });
                }
            }
            b"switch" => {
                let (t, v) = self.tval(ts);
                let w = match ts.ty(t) {
                    Ty::Int(w) => *w as u8,
                    _ => self.lx.err("switch"),
                };
                self.lx.expect(b',');
                let def = self.label();
                self.lx.expect(b'[');
                let mut tab = SwitchTab { map: HashMap::new(), edges: vec![], cases: vec![] };
                let mut bymap: HashMap<usize, u32> = HashMap::new();
                while !self.lx.eat(b']') {
                    let ct = self.lx.parse_type(ts);
                    let k = self.m.constant(&mut self.lx, ts, ct).u128() as u64;
                    self.lx.expect(b',');
                    let b = self.label();
                    let ei = *bymap.entry(b).or_insert_with(|| {
                        tab.edges.push(edge0(b));
                        tab.edges.len() as u32 - 1
                    });
                    tab.map.insert(k, ei);
                    tab.cases.push((k, ei));
                }
                multi = true;
                self.insts.push(Inst::Switch { v, w, def: Box::new(edge0(def)), cases: Box::new(tab) });
            }
            b"phi" => {
                let t = self.lx.parse_type(ts);
                let mut ins = vec![];
                loop {
                    self.lx.expect(b'[');
                    let v = self.value(ts, t);
                    self.lx.expect(b',');
                    self.lx.expect(b'%');
                    let n = self.lx.name();
                    let b = self.block(&n);
                    self.lx.expect(b']');
                    ins.push((v, b));
                    // next "[": after comma
                    let save = self.lx.p;
                    if self.lx.eat(b',') && self.lx.peek() == b'[' {
                        continue;
                    }
                    self.lx.p = save;
                    break;
                }
                let cur = self.cur;
                self.phis[cur].push((d, ins));
            }
            b"ret" => {
                if self.lx.eat_word("void") {
                    self.insts.push(Inst::Ret { v: None });
                } else {
                    let (_, v) = self.tval(ts);
                    self.insts.push(Inst::Ret { v: Some(v) });
                }
            }
            b"unreachable" => self.insts.push(Inst::Unreachable),
            b"extractvalue" => {
                let (_, a) = self.tval(ts);
                let idx = self.idx_list();
                self.insts.push(Inst::ExtractV { dst: d, a, idx });
            }
            b"insertvalue" => {
                let (_, a) = self.tval(ts);
                self.lx.expect(b',');
                let (_, v) = self.tval(ts);
                let idx = self.idx_list();
                self.insts.push(Inst::InsertV { dst: d, a, v, idx });
            }
            b"extractelement" => {
                let (_, a) = self.tval(ts);
                self.lx.expect(b',');
                let (_, i) = self.tval(ts);
                self.insts.push(Inst::ExtractE { dst: d, a, i });
            }
            b"insertelement" => {
                let (_, a) = self.tval(ts);
                self.lx.expect(b',');
                let (_, v) = self.tval(ts);
                self.lx.expect(b',');
                let (_, i) = self.tval(ts);
                self.insts.push(Inst::InsertE { dst: d, a, v, i });
            }
            b"shufflevector" => {
                let (_, a) = self.tval(ts);
                self.lx.expect(b',');
                let (_, b) = self.tval(ts);
                self.lx.expect(b',');
                let (_, m) = self.tval(ts);
                let mv = match &self.consts[(m & !CONST) as usize] {
                    Val::A(v) => v.iter().map(|x| x.u128() as u32 as i32).collect::<Vec<_>>(),
                    _ => self.lx.err("mask"),
                };
                self.insts.push(Inst::Shuffle { dst: d, a, b, m: mv.into_boxed_slice() });
            }
            b"call" | b"tail" | b"musttail" | b"notail" => {
                if op != b"call" {
                    self.lx.eat_word("call");
                }
                self.call(ts, dst);
            }
            b"fence" => {}
            _ => {
                let s = format!("{}", String::from_utf8_lossy(op));
                self.insts.push(Inst::Unsupported(s.into_boxed_str()));
            }
        }
        if !multi {
            // sub-parsers may have peeked past the end of the line
            self.lx.p = start;
        }
        self.skip_line();
    }
    fn idx_list(&mut self) -> Box<[u32]> {
        let mut v = vec![];
        while self.lx.peek() == b',' {
            let save = self.lx.p;
            self.lx.p += 1;
            if self.lx.peek() == b'!' {
                self.lx.p = save;
                break;
            }
            v.push(self.lx.int() as u32);
        }
        v.into_boxed_slice()
    }
    fn call(&mut self, ts: &mut Types, dst: Option<u32>) {
        // flags, cc, ret attrs
        loop {
            let c = self.lx.peek();
            if matches!(c, b'[' | b'{' | b'<' | b'%') {
                break;
            }
            let p = self.lx.p;
            let w = self.lx.word();
            let is_ty = match w {
                b"void" | b"ptr" | b"float" | b"double" | b"metadata" => true,
                _ => w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()),
            };
            if is_ty {
                self.lx.p = p;
                break;
            }
            if w.is_empty() {
                self.lx.err("call attrs");
            }
            if w == b"align" || w == b"cc" {
                if self.lx.peek() != b'(' {
                    self.lx.int();
                }
            } else if self.lx.s[self.lx.p] == b'(' {
                self.lx.skip_parens();
            }
        }
        // type; careful: parse_type consumes "(...)" fn type suffix
        let _rt = {
            let save = self.lx.p;
            let t = self.lx.parse_type(ts);
            let _ = save;
            t
        };
        enum C {
            Reg(Opd),
            Fn(String),
            Asm(String),
        }
        let callee = match self.lx.peek() {
            b'%' => {
                self.lx.p += 1;
                let n = self.lx.name();
                C::Reg(self.reg(&n))
            }
            b'@' => {
                self.lx.p += 1;
                C::Fn(self.lx.name())
            }
            _ => {
                if self.lx.eat_word("asm") {
                    let mut s = String::new();
                    while self.lx.peek() != b'(' {
                        if self.lx.peek() == b'"' {
                            self.lx.p += 1;
                            while self.lx.s[self.lx.p] != b'"' {
                                s.push(self.lx.s[self.lx.p] as char);
                                self.lx.p += 1;
                            }
                            self.lx.p += 1;
                            s.push('|');
                        } else if self.lx.peek() == b',' {
                            self.lx.p += 1;
                        } else {
                            self.lx.word();
                        }
                    }
                    C::Asm(s)
                } else {
                    // constant callee (inttoptr etc.)
                    let t = ts.get(Ty::Ptr);
                    let v = self.m.constant(&mut self.lx, ts, t);
                    C::Reg(self.cnst(v))
                }
            }
        };
        let mut args = vec![];
        self.lx.expect(b'(');
        if !self.lx.eat(b')') {
            loop {
                let t = self.lx.parse_type(ts);
                if matches!(ts.ty(t), Ty::Meta) {
                    // skip metadata
                    let mut d = 0;
                    loop {
                        let c = self.lx.s[self.lx.p];
                        match c {
                            b'(' | b'{' => d += 1,
                            b')' | b'}' => {
                                if d == 0 {
                                    break;
                                }
                                d -= 1
                            }
                            b',' if d == 0 => break,
                            b'"' => {
                                self.lx.p += 1;
                                while self.lx.s[self.lx.p] != b'"' {
                                    self.lx.p += 1
                                }
                            }
                            _ => {}
                        }
                        self.lx.p += 1;
                    }
                } else {
                    let v = self.value(ts, t);
                    args.push(v);
                }
                if self.lx.eat(b')') {
                    break;
                }
                self.lx.expect(b',');
            }
        }
        let args = args.into_boxed_slice();
        match callee {
            C::Reg(r) => self.insts.push(Inst::Call { dst, callee: r, args }),
            C::Fn(n) => {
                if n.starts_with("llvm.lifetime")
                    || n.starts_with("llvm.dbg")
                    || n == "llvm.assume"
                    || n.starts_with("llvm.experimental.noalias")
                    || n.starts_with("llvm.invariant")
                    || n == "llvm.x86.sse2.pause"
                {
                    return;
                }
                if n.starts_with("llvm.") {
                    let id = self.intrinsic(&n);
                    self.insts.push(Inst::Intr { dst, id, args });
                } else {
                    let f = self.m.fmap[n.as_str()];
                    self.insts.push(Inst::CallF { dst, f, args });
                }
            }
            C::Asm(s) => {
                if s.contains("cpuid") {
                    // cpuid: report no features (baseline x86-64 / SSE2 only)
                    let v = self.cnst(Val::A(Arc::from(vec![Val::I(0); 4])));
                    self.insts.push(Inst::Move { dst: dst.unwrap(), a: v });
                } else if dst.is_none() {
                    // empty barrier
                } else {
                    self.insts.push(Inst::Unsupported(format!("asm {}", s).into_boxed_str()));
                }
            }
        }
    }
    fn intrinsic(&mut self, n: &str) -> &'static Intrinsic {
        let mut map = self.m.intr.lock().unwrap();
        if let Some(i) = map.get(n) {
            return i;
        }
        // first iN suffix
        let mut w = 0;
        for part in n.split('.') {
            if part.len() > 1 && part.starts_with('i') {
                if let Ok(x) = part[1..].parse::<u32>() {
                    w = x;
                    // scmp/ucmp: result width first, operand second -> keep last
                }
            }
        }
        let i: &'static Intrinsic =
            Box::leak(Box::new(Intrinsic { name: n.to_string(), w, kind: crate::exec::intr_kind(n) }));
        map.insert(n.to_string(), i);
        i
    }
}
