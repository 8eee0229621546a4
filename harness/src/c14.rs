//! C14: what a selector string means, and that a wrong one is reported.
use crate::model::*;
use crate::refsel::*;
use crate::sx;
use std::cell::Cell;
use std::rc::Rc;
use visdom::types::*;
use visdom::Vis;

const TOKENS: [&str; 15] = ["x", " ", ".c", ">", "#i", ",", "y", ":not(", ")", "*", "~", "[m]", "@", ":empty", "("];
#[derive(PartialEq)]
enum Bad {
  /// no reading of the string is a selector
  Invalid,
  /// extensions and leniencies: nothing is claimed
  Open,
}
/// recursive descent over the tokens
struct P<'a> {
  t: &'a [usize],
  i: usize,
}
impl<'a> P<'a> {
  fn peek(&self) -> Option<usize> {
    self.t.get(self.i).copied()
  }
  fn space(&mut self) -> bool {
    let s = self.i;
    while self.peek() == Some(1) {
      self.i += 1;
    }
    self.i > s
  }
  fn compound(&mut self) -> Result<Comp, Bad> {
    let mut c = Comp::default();
    let s = self.i;
    loop {
      match self.peek() {
        Some(k @ (0 | 6 | 9)) => {
          if self.i > s {
            // names that run together, or a type selector that is not first
            return Err(Bad::Open);
          }
          c.tag = match k { 0 => Some(b'x'), 6 => Some(b'y'), _ => None };
          self.i += 1;
        }
        Some(2) => {
          c.class.push(b'c');
          self.i += 1;
        }
        Some(4) => {
          c.id = Some(b'i');
          self.i += 1;
        }
        Some(11) => {
          c.attr = Some(b'm');
          self.i += 1;
        }
        Some(13) => {
          c.ps.push(Ps::Empty);
          self.i += 1;
        }
        Some(7) => {
          self.i += 1;
          self.space();
          if self.peek() == Some(8) {
            return Err(Bad::Open);
          }
          let g = self.group()?;
          if self.peek() != Some(8) {
            return Err(Bad::Invalid);
          }
          self.i += 1;
          c.ps.push(Ps::Not(g));
        }
        _ => break,
      }
    }
    if self.i == s {
      return Err(Bad::Invalid);
    }
    Ok(c)
  }
  fn cpx(&mut self) -> Result<Cpx, Bad> {
    self.space();
    if self.i == self.t.len() && self.i > 0 && self.t.iter().all(|&k| k == 1) {
      // nothing but spaces
      return Err(Bad::Open);
    }
    if matches!(self.peek(), Some(3 | 10)) {
      // a leading combinator
      return Err(Bad::Open);
    }
    let mut parts = vec![(Cmb::Desc, self.compound()?)];
    loop {
      let sp = self.space();
      match self.peek() {
        Some(k @ (3 | 10)) => {
          self.i += 1;
          self.space();
          parts.push((if k == 3 { Cmb::Child } else { Cmb::NextAll }, self.compound()?));
        }
        None | Some(5) | Some(8) => break,
        Some(_) if sp => parts.push((Cmb::Desc, self.compound()?)),
        Some(_) => return Err(Bad::Invalid),
      }
    }
    Ok(Cpx { parts })
  }
  fn group(&mut self) -> Result<Vec<Cpx>, Bad> {
    let mut v = vec![self.cpx()?];
    while self.peek() == Some(5) {
      self.i += 1;
      v.push(self.cpx()?);
    }
    Ok(v)
  }
}
fn parse(t: &[usize]) -> Result<Vec<Cpx>, Bad> {
  let mut p = P { t, i: 0 };
  let g = p.group()?;
  if p.i < t.len() {
    return Err(Bad::Invalid);
  }
  Ok(g)
}
fn doc() -> Doc {
  let mut d = Doc::new();
  let a = d.add(0, "x");
  d.attr(a, "id", "i");
  let b = d.add(a, "y");
  d.attr(b, "class", "c");
  d.attr(b, "m", "1");
  d.add(b, "x");
  let e = d.add(a, "y");
  d.attr(e, "m", "2");
  let f = d.add(0, "y");
  d.attr(f, "class", "c");
  let g = d.add(f, "x");
  d.attr(g, "class", "c");
  d.n[f].tail = "t".into();
  d
}
pub fn run() {
  crate::c02::warm();
  let n = 1 + sx::pick(if sx::thorough() { 5 } else { 4 });
  let mut t = vec![];
  let mut sel = String::new();
  for _ in 0..n {
    let k = sx::pick(TOKENS.len());
    t.push(k);
    sel.push_str(TOKENS[k]);
  }
  sx::note(&sel);
  let d = doc();
  let want = parse(&t);
  let errs = Rc::new(Cell::new(0));
  let e2 = errs.clone();
  let doc = Vis::load_catch(d.html(), Box::new(move |_| e2.set(e2.get() + 1)));
  let all = doc.find("*");
  sx::check(all.length() == d.len() - 1 && errs.get() == 0, "the document");
  match want {
    Err(Bad::Invalid) => {
      // every method for the short ones, one of them for each of the longer ones
      let how = if n <= 2 { sx::pick(15) } else { t.iter().enumerate().map(|(i, k)| (i + 1) * k).sum::<usize>() % 15 };
      let r = call(how, &all, &sel);
      sx::check(errs.get() > 0, "a wrong selector is reported");
      sx::check(!r, "a wrong selector selects nothing");
      // and with no handler
      let plain = Vis::load(d.html()).unwrap();
      sx::check(plain.find(&sel).is_empty(), "a wrong selector finds nothing");
      sx::reach("wrong");
    }
    Ok(g) => {
      let hit: Vec<usize> = (1..d.len()).filter(|&e| any(&g, &d, e, &|_| true)).collect();
      let out: Vec<usize> = (1..d.len()).filter(|e| !hit.contains(e)).collect();
      same(&doc.find(&sel), &hit, "find");
      same(&all.filter(&sel), &hit, "filter");
      same(&all.not(&sel), &out, "not");
      sx::check(all.is(&sel) == !hit.is_empty(), "is");
      sx::check(all.is_all(&sel) == out.is_empty(), "is_all");
      sx::check(errs.get() == 0, "no error for a right selector");
      sx::reach(if hit.is_empty() { "none" } else { "some" });
    }
    Err(Bad::Open) => {
      // no claim but that there is an answer, and the same one each time
      let a = kids(&doc.find(&sel));
      let bad = errs.get();
      let b = kids(&doc.find(&sel));
      sx::check(a == b && errs.get() == 2 * bad, "the same answer again");
      sx::check(bad == 0 || a.is_empty(), "a reported selector selects nothing");
      sx::reach("open");
    }
  }
}
fn call(k: usize, all: &Elements, sel: &str) -> bool {
  let some = |e: Elements| !e.is_empty();
  match k {
    0 => some(all.find(sel)),
    1 => some(all.filter(sel)),
    2 => some(all.not(sel)),
    3 => all.is(sel),
    4 => all.is_all(sel),
    5 => some(all.has(sel)),
    6 => some(all.children(sel)),
    7 => some(all.parent(sel)),
    8 => some(all.parents(sel)),
    9 => some(all.next(sel)),
    10 => some(all.prev_all(sel)),
    11 => some(all.siblings(sel)),
    12 => some(all.closest(sel)),
    13 => some(all.next_until(sel, "", false)),
    _ => some(all.parents_until("x", sel, true)),
  }
}
