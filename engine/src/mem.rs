//! Flat copy-on-write byte memory with a per-byte symbolic overlay.
use crate::expr::*;
use std::sync::Arc;

pub const PB: u64 = 9; // page bits
pub const PS: usize = 1 << PB;
const LB: u64 = 6;
const MB: u64 = 6;
const TOPB: u64 = PB + LB + MB; // 21

pub struct Page {
    pub d: [u8; PS],
    /// 0 = concrete, else (node ptr | byte index << 56)
    pub s: Option<Box<[u64; PS]>>,
}
impl Clone for Page {
    fn clone(&self) -> Self {
        Page { d: self.d, s: self.s.clone() }
    }
}
#[derive(Clone)]
struct Leaf([Option<Arc<Page>>; 64]);
#[derive(Clone)]
struct Mid([Option<Arc<Leaf>>; 64]);

const TLB: usize = 256;
#[derive(Clone, Copy)]
struct Te {
    tag: u64,
    p: *mut Page,
    w: bool,
}
pub struct Mem {
    top: Vec<Option<Arc<Mid>>>,
    tlb: Box<[Te; TLB]>,
    /// valid ranges: globals, heap, stack
    pub glob: (u64, u64),
    pub heap: (u64, u64),
    pub stack: (u64, u64),
}
unsafe impl Send for Mem {}

static ZERO: Page = Page { d: [0; PS], s: None };

fn empty_tlb() -> Box<[Te; TLB]> {
    Box::new([Te { tag: u64::MAX, p: std::ptr::null_mut(), w: false }; TLB])
}
pub fn pack(n: N, i: u8) -> u64 {
    (n as *const Node as u64) | (i as u64) << 56
}
pub fn unpack(x: u64) -> (N, u8) {
    unsafe { (&*((x & 0x00ff_ffff_ffff_ffff) as *const Node), (x >> 56) as u8) }
}
pub struct Fault(pub u64);

impl Mem {
    pub fn new() -> Mem {
        Mem { top: vec![], tlb: empty_tlb(), glob: (0, 0), heap: (0, 0), stack: (0, 0) }
    }
    pub fn fork(&mut self) -> Mem {
        self.clear_tlb();
        Mem { top: self.top.clone(), tlb: empty_tlb(), glob: self.glob, heap: self.heap, stack: self.stack }
    }
    pub fn clear_tlb(&mut self) {
        for t in self.tlb.iter_mut() {
            t.tag = u64::MAX;
        }
    }
    fn valid(&self, a: u64) -> bool {
        let r = |x: (u64, u64)| a >= x.0 && a < x.1;
        r(self.heap) || r(self.stack) || r(self.glob)
    }
    #[inline(always)]
    fn rpage(&mut self, a: u64) -> Result<&Page, Fault> {
        let pn = a >> PB;
        let t = &self.tlb[pn as usize % TLB];
        if t.tag == pn {
            return Ok(unsafe { &*t.p });
        }
        self.rpage_slow(a)
    }
    #[inline(never)]
    fn rpage_slow(&mut self, a: u64) -> Result<&Page, Fault> {
        let pn = a >> PB;
        let p = self.lookup(a);
        let p = match p {
            Some(p) => p,
            None => {
                if self.valid(a) {
                    &ZERO as *const Page
                } else {
                    return Err(Fault(a));
                }
            }
        };
        if p != &ZERO as *const Page {
            self.tlb[pn as usize % TLB] = Te { tag: pn, p: p as *mut Page, w: false };
        }
        Ok(unsafe { &*p })
    }
    fn lookup(&self, a: u64) -> Option<*const Page> {
        let t = (a >> TOPB) as usize;
        let m = self.top.get(t)?.as_ref()?;
        let l = m.0[(a >> (PB + LB)) as usize & 63].as_ref()?;
        let p = l.0[(a >> PB) as usize & 63].as_ref()?;
        Some(&**p as *const Page)
    }
    #[inline(always)]
    fn wpage(&mut self, a: u64) -> Result<&mut Page, Fault> {
        let pn = a >> PB;
        let t = &self.tlb[pn as usize % TLB];
        if t.tag == pn && t.w {
            return Ok(unsafe { &mut *t.p });
        }
        self.wpage_slow(a)
    }
    #[inline(never)]
    fn wpage_slow(&mut self, a: u64) -> Result<&mut Page, Fault> {
        if !self.valid(a) {
            return Err(Fault(a));
        }
        let pn = a >> PB;
        let t = (a >> TOPB) as usize;
        if self.top.len() <= t {
            self.top.resize(t + 1, None);
        }
        const NL: Option<Arc<Leaf>> = None;
        const NP: Option<Arc<Page>> = None;
        let m = self.top[t].get_or_insert_with(|| Arc::new(Mid([NL; 64])));
        let m = Arc::make_mut(m);
        let l = m.0[(a >> (PB + LB)) as usize & 63].get_or_insert_with(|| Arc::new(Leaf([NP; 64])));
        let l = Arc::make_mut(l);
        let p = l.0[(a >> PB) as usize & 63].get_or_insert_with(|| Arc::new(Page { d: [0; PS], s: None }));
        let p = Arc::make_mut(p);
        self.tlb[pn as usize % TLB] = Te { tag: pn, p: p as *mut Page, w: true };
        Ok(unsafe { &mut *(p as *mut Page) })
    }
    /// read n<=8 concrete bytes; None if any is symbolic
    #[inline(always)]
    pub fn read(&mut self, a: u64, n: usize) -> Result<Option<u64>, Fault> {
        let off = a as usize & (PS - 1);
        if off + n <= PS {
            let p = self.rpage(a)?;
            if let Some(s) = &p.s {
                for i in 0..n {
                    if s[off + i] != 0 {
                        return Ok(None);
                    }
                }
            }
            let mut b = [0u8; 8];
            unsafe {
                std::ptr::copy_nonoverlapping(p.d.as_ptr().add(off), b.as_mut_ptr(), n);
            }
            return Ok(Some(u64::from_le_bytes(b)));
        }
        let mut v = 0u64;
        for i in 0..n {
            match self.read(a + i as u64, 1)? {
                Some(b) => v |= b << (8 * i),
                None => return Ok(None),
            }
        }
        Ok(Some(v))
    }
    /// one byte, possibly symbolic
    pub fn byte(&mut self, a: u64) -> Result<(u8, u64), Fault> {
        let off = a as usize & (PS - 1);
        let p = self.rpage(a)?;
        let s = match &p.s {
            Some(s) => s[off],
            None => 0,
        };
        Ok((p.d[off], s))
    }
    pub fn byte_node(&mut self, a: u64) -> Result<N, Fault> {
        let (c, s) = self.byte(a)?;
        if s == 0 {
            return Ok(cst(c as u128, 8));
        }
        let (n, i) = unpack(s);
        Ok(byte_of(n, i))
    }
    /// read n bytes as an expression of width w (w<=8n)
    pub fn read_sym(&mut self, a: u64, n: usize, w: u8) -> Result<N, Fault> {
        // fast: a whole node
        let (_, s0) = self.byte(a)?;
        if s0 != 0 {
            let (nd, i0) = unpack(s0);
            if i0 == 0 && (nd.w as usize + 7) / 8 == n {
                let mut ok = true;
                for i in 1..n {
                    let (_, s) = self.byte(a + i as u64)?;
                    if s == 0 || unpack(s).0.id != nd.id || unpack(s).1 as usize != i {
                        ok = false;
                        break;
                    }
                }
                if ok {
                    return Ok(if nd.w == w {
                        nd
                    } else if nd.w < w {
                        zext(nd, w)
                    } else {
                        extract(nd, 0, w)
                    });
                }
            }
        }
        let mut r: Option<N> = None;
        for i in 0..n {
            let b = self.byte_node(a + i as u64)?;
            r = Some(match r {
                None => b,
                Some(l) => concat(b, l),
            });
        }
        let r = r.unwrap();
        Ok(if r.w > w { extract(r, 0, w) } else { r })
    }
    #[inline(always)]
    pub fn write(&mut self, a: u64, n: usize, v: u64) -> Result<(), Fault> {
        let off = a as usize & (PS - 1);
        if off + n <= PS {
            let p = self.wpage(a)?;
            let b = v.to_le_bytes();
            unsafe {
                std::ptr::copy_nonoverlapping(b.as_ptr(), p.d.as_mut_ptr().add(off), n);
            }
            if let Some(s) = &mut p.s {
                for i in 0..n {
                    s[off + i] = 0;
                }
            }
            return Ok(());
        }
        for i in 0..n {
            self.write(a + i as u64, 1, v >> (8 * i))?;
        }
        Ok(())
    }
    pub fn write_sym_byte(&mut self, a: u64, s: u64) -> Result<(), Fault> {
        let off = a as usize & (PS - 1);
        let p = self.wpage(a)?;
        let t = p.s.get_or_insert_with(|| Box::new([0u64; PS]));
        t[off] = s;
        Ok(())
    }
    pub fn write_node(&mut self, a: u64, n: usize, v: N) -> Result<(), Fault> {
        if let Some(k) = v.konst() {
            for i in 0..n {
                self.write(a + i as u64, 1, (k >> (8 * i)) as u64)?;
            }
            return Ok(());
        }
        for i in 0..n {
            // store simple bytes directly where the piece is constant
            let b = byte_of(v, i as u8);
            if let Some(k) = b.konst() {
                if n <= 8 {
                    // keep whole-node identity: only break up when a byte is constant
                    self.write(a + i as u64, 1, k as u64)?;
                    continue;
                }
            }
            self.write_sym_byte(a + i as u64, pack(v, i as u8))?;
        }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || d == s {
            return Ok(());
        }
        let back = d > s && d < s + n;
        let mut done = 0;
        while done < n {
            // chunk inside one page on both sides
            let (sa, da, len) = if !back {
                let (sa, da) = (s + done, d + done);
                let l = (PS as u64 - (sa & (PS as u64 - 1)))
                    .min(PS as u64 - (da & (PS as u64 - 1)))
                    .min(n - done);
                (sa, da, l)
            } else {
                let (se, de) = (s + n - done, d + n - done); // exclusive ends
                let l = (((se - 1) & (PS as u64 - 1)) + 1).min(((de - 1) & (PS as u64 - 1)) + 1).min(n - done);
                (se - l, de - l, l)
            };
            let (so, dof) = (sa as usize & (PS - 1), da as usize & (PS - 1));
            let l = len as usize;
            let (mut buf, mut sb) = ([0u8; PS], None);
            {
                let p = self.rpage(sa)?;
                buf[..l].copy_from_slice(&p.d[so..so + l]);
                if let Some(sv) = &p.s {
                    if sv[so..so + l].iter().any(|&x| x != 0) {
                        let mut t = [0u64; PS];
                        t[..l].copy_from_slice(&sv[so..so + l]);
                        sb = Some(t);
                    }
                }
            }
            let p = self.wpage(da)?;
            p.d[dof..dof + l].copy_from_slice(&buf[..l]);
            match (&mut p.s, sb) {
                (Some(t), Some(b)) => t[dof..dof + l].copy_from_slice(&b[..l]),
                (Some(t), None) => t[dof..dof + l].iter_mut().for_each(|x| *x = 0),
                (None, Some(b)) => {
                    let mut t = Box::new([0u64; PS]);
                    t[dof..dof + l].copy_from_slice(&b[..l]);
                    p.s = Some(t);
                }
                (None, None) => {}
            }
            done += len;
        }
        Ok(())
    }
    pub fn fill(&mut self, d: u64, v: u8, n: u64) -> Result<(), Fault> {
        let mut done = 0;
        while done < n {
            let a = d + done;
            let off = a as usize & (PS - 1);
            let l = (PS - off).min((n - done) as usize);
            let p = self.wpage(a)?;
            p.d[off..off + l].iter_mut().for_each(|x| *x = v);
            if let Some(t) = &mut p.s {
                t[off..off + l].iter_mut().for_each(|x| *x = 0);
            }
            done += l as u64;
        }
        Ok(())
    }
}

pub fn byte_of(n: N, i: u8) -> N {
    let lo = i * 8;
    if lo >= n.w {
        return cst(0, 8);
    }
    let w = (n.w - lo).min(8);
    let e = extract(n, lo, w);
    if w < 8 {
        zext(e, 8)
    } else {
        e
    }
}
