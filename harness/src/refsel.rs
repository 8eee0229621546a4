//! Reference semantics of selectors over the model tree.
use crate::model::*;
use crate::sx;

#[derive(Clone, Default)]
pub struct Comp {
  pub tag: Option<u8>,
  pub class: Vec<u8>,
  pub id: Option<u8>,
  /// print the id before the classes
  pub id_first: bool,
  /// attribute presence `[t]`
  pub attr: Option<u8>,
  pub ps: Vec<Ps>,
}
/// pseudo classes
#[derive(Clone)]
pub enum Ps {
  First,
  Last,
  Only,
  FirstT,
  LastT,
  OnlyT,
  Nth(u8),
  NthLast(u8),
  NthT(u8),
  NthLastT(u8),
  Empty,
  Not(Vec<Cpx>),
  Has(Vec<Cpx>),
  /// printed as it is; the elements it holds for
  Table(String, Vec<bool>),
}
impl Ps {
  pub fn print(&self, s: &mut String) {
    let mut num = |p: &str, k: u8| {
      s.push_str(p);
      s.push('(');
      s.push((b'0' + k) as char);
      s.push(')');
    };
    match self {
      Ps::First => s.push_str(":first-child"),
      Ps::Last => s.push_str(":last-child"),
      Ps::Only => s.push_str(":only-child"),
      Ps::FirstT => s.push_str(":first-of-type"),
      Ps::LastT => s.push_str(":last-of-type"),
      Ps::OnlyT => s.push_str(":only-of-type"),
      Ps::Nth(k) => num(":nth-child", *k),
      Ps::NthLast(k) => num(":nth-last-child", *k),
      Ps::NthT(k) => num(":nth-of-type", *k),
      Ps::NthLastT(k) => num(":nth-last-of-type", *k),
      Ps::Empty => s.push_str(":empty"),
      Ps::Not(g) => {
        s.push_str(":not(");
        s.push_str(&print_group(g, false));
        s.push(')');
      }
      Ps::Has(g) => {
        s.push_str(":has(");
        s.push_str(&print_group(g, true));
        s.push(')');
      }
      Ps::Table(p, _) => s.push_str(p),
    }
  }
  pub fn matches(&self, d: &Doc, e: usize) -> bool {
    let sibs = d.sibs(e);
    let same: Vec<usize> = sibs.iter().copied().filter(|&q| d.n[q].tag.as_bytes()[0] | 32 == d.n[e].tag.as_bytes()[0] | 32).collect();
    let at = |v: &[usize]| v.iter().position(|&x| x == e).unwrap() + 1;
    match self {
      Ps::First => at(sibs) == 1,
      Ps::Last => at(sibs) == sibs.len(),
      Ps::Only => sibs.len() == 1,
      Ps::FirstT => at(&same) == 1,
      Ps::LastT => at(&same) == same.len(),
      Ps::OnlyT => same.len() == 1,
      Ps::Nth(k) => at(sibs) == *k as usize,
      Ps::NthLast(k) => sibs.len() + 1 - at(sibs) == *k as usize,
      Ps::NthT(k) => at(&same) == *k as usize,
      Ps::NthLastT(k) => same.len() + 1 - at(&same) == *k as usize,
      Ps::Empty => d.n[e].kids.is_empty() && (d.n[e].tail.is_empty() || d.n[e].tail.starts_with("<!--")),
      Ps::Table(_, t) => t[e],
      Ps::Not(g) => !any(g, d, e, &|_| true),
      Ps::Has(g) => (1..d.len()).any(|q| d.is_ancestor(e, q) && any(g, d, q, &|_| true)),
    }
  }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Cmb {
  Desc,
  Child,
  Next,
  NextAll,
}
#[derive(Clone, Default)]
pub struct Cpx {
  pub parts: Vec<(Cmb2, Comp)>,
}
pub type Cmb2 = Cmb;

pub fn chr(c: u8) -> String {
  let mut s = String::new();
  s.push(c as char);
  s
}
impl Comp {
  pub fn print(&self, s: &mut String) {
    if let Some(t) = self.tag {
      s.push(t as char);
    }
    if let (Some(c), true) = (self.id, self.id_first) {
      s.push('#');
      s.push(c as char);
    }
    for &c in &self.class {
      s.push('.');
      s.push(c as char);
    }
    if let (Some(c), false) = (self.id, self.id_first) {
      s.push('#');
      s.push(c as char);
    }
    if let Some(c) = self.attr {
      s.push('[');
      s.push(c as char);
      s.push(']');
    }
    if self.ps.is_empty() && self.tag.is_none() && self.class.is_empty() && self.id.is_none() && self.attr.is_none() {
      s.push('*');
    }
    for p in &self.ps {
      p.print(s);
    }
  }
  pub fn matches(&self, d: &Doc, e: usize) -> bool {
    let n = &d.n[e];
    if let Some(t) = self.tag {
      if n.tag.as_bytes()[0] | 32 != t | 32 || n.tag.len() != 1 {
        return false;
      }
    }
    for &c in &self.class {
      if !n.attrs.iter().any(|(k, v)| k == "class" && v.as_bytes().contains(&c)) {
        return false;
      }
    }
    if let Some(c) = self.id {
      if !n.attrs.iter().any(|(k, v)| k == "id" && v.as_bytes() == [c]) {
        return false;
      }
    }
    if let Some(c) = self.attr {
      if !n.attrs.iter().any(|(k, _)| k.as_bytes() == [c]) {
        return false;
      }
    }
    self.ps.iter().all(|p| p.matches(d, e))
  }
}
impl Cpx {
  pub fn print(&self, s: &mut String, tight: bool) {
    for (i, (c, p)) in self.parts.iter().enumerate() {
      if i > 0 {
        s.push_str(match (c, tight) {
          (Cmb::Desc, _) => " ",
          (Cmb::Child, false) => " > ",
          (Cmb::Next, false) => " + ",
          (Cmb::NextAll, false) => " ~ ",
          (Cmb::Child, true) => ">",
          (Cmb::Next, true) => "+",
          (Cmb::NextAll, true) => "~",
        });
      }
      p.print(s);
    }
  }
  /// `e` matches parts[..=i], the leftmost element satisfying `scope`
  fn upto(&self, d: &Doc, i: usize, e: usize, scope: &dyn Fn(usize) -> bool) -> bool {
    if e == 0 || !self.parts[i].1.matches(d, e) {
      return false;
    }
    if i == 0 {
      return scope(e);
    }
    match self.parts[i].0 {
      Cmb::Desc => {
        let mut p = d.n[e].parent;
        while p != 0 {
          if self.upto(d, i - 1, p, scope) {
            return true;
          }
          p = d.n[p].parent;
        }
        false
      }
      Cmb::Child => self.upto(d, i - 1, d.n[e].parent, scope),
      Cmb::Next => {
        let p = d.pos(e);
        p > 0 && self.upto(d, i - 1, d.sibs(e)[p - 1], scope)
      }
      Cmb::NextAll => {
        let p = d.pos(e);
        for q in 0..p {
          if self.upto(d, i - 1, d.sibs(e)[q], scope) {
            return true;
          }
        }
        false
      }
    }
  }
  pub fn matches(&self, d: &Doc, e: usize, scope: &dyn Fn(usize) -> bool) -> bool {
    self.upto(d, self.parts.len() - 1, e, scope)
  }
}
pub fn print_group(g: &[Cpx], tight: bool) -> String {
  let mut s = String::new();
  for (i, c) in g.iter().enumerate() {
    if i > 0 {
      s.push_str(if tight { "," } else { " , " });
    }
    c.print(&mut s, tight);
  }
  s
}
pub fn any(g: &[Cpx], d: &Doc, e: usize, scope: &dyn Fn(usize) -> bool) -> bool {
  g.iter().any(|c| c.matches(d, e, scope))
}
/// all elements matched by the group inside any of `ctx` (0 = document)
pub fn find(g: &[Cpx], d: &Doc, ctx: &[usize]) -> Vec<usize> {
  let scope = |e: usize| ctx.iter().any(|&c| d.is_ancestor(c, e));
  (1..d.len()).filter(|&e| any(g, d, e, &scope)).collect()
}
pub fn comb() -> Cmb {
  [Cmb::Desc, Cmb::Child, Cmb::Next, Cmb::NextAll][sx::pick(4)]
}
pub fn tagc() -> Comp {
  Comp { tag: Some(sx::byte(b'x', b'y')), ..Default::default() }
}
pub fn star() -> Comp {
  Comp::default()
}
/// An ordered forest of n elements: each new element's depth is chosen.
/// Tags are symbolic in {x,y}.
pub fn forest(n: usize, maxdepth: usize) -> Doc {
  forest_of(n, maxdepth, b"xy")
}
pub fn forest_of(n: usize, maxdepth: usize, tags: &[u8]) -> Doc {
  let mut d = Doc::new();
  let mut path = vec![0usize]; // open chain: document, ...
  for i in 0..n {
    let depth = if i == 0 { 0 } else { sx::pick(path.len().min(maxdepth)) };
    path.truncate(depth + 1);
    let t = if tags.len() == 1 { tags[0] } else { sx::byte(tags[0], tags[tags.len() - 1]) };
    let e = d.add(path[depth], &chr(t));
    path.push(e);
  }
  d
}
pub fn one(c: Comp) -> Cpx {
  Cpx { parts: vec![(Cmb::Desc, c)] }
}
pub fn two(a: Comp, c: Cmb, b: Comp) -> Cpx {
  Cpx { parts: vec![(Cmb::Desc, a), (c, b)] }
}
pub fn psc(p: Ps) -> Comp {
  Comp { ps: vec![p], ..Default::default() }
}
/// Mixed content: text, spaces, a comment between the elements.
pub fn mixed(d: &mut Doc) {
  for e in 1..d.len() {
    d.n[e].before = ["t", " ", "<!--c-->", ""][e % 4].to_string();
    if e % 3 == 1 && !d.n[e].kids.is_empty() {
      d.n[e].tail = "u".to_string();
    }
  }
}
/// Every element carries m="0" or m="1" (symbolic); `[m='1']` is the set under test.
pub fn marks(d: &mut Doc) -> Vec<bool> {
  let mut v = vec![false];
  for e in 1..d.len() {
    let b = sx::byte(b'0', b'1');
    let s = chr(b);
    d.attr(e, "m", &s);
    v.push(b == b'1');
  }
  v
}
pub const MARKED: &str = "[m='1']";
