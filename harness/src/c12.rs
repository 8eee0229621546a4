//! C12: set algebra on element sets.
use crate::model::*;
use crate::refsel::*;
use crate::sx;
use visdom::Vis;

pub fn run() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut d = forest(if th { 6 } else { 5 }, if th { 3 } else { 2 });
  d.n[2].before = "t".into();
  // each element is in A, in B, in both or in neither
  let mut v = vec![0u8];
  for e in 1..d.len() {
    let b = sx::byte(0, 3);
    let x = (b & 1) + b'0';
    let y = (b >> 1) + b'0';
    d.attr(e, "p", &chr(x));
    d.attr(e, "q", &chr(y));
    v.push(b);
  }
  let html = d.html();
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let a = doc.find("[p='1']");
  let b = doc.find("[q='1']");
  let pick = |f: &dyn Fn(u8) -> bool| -> Vec<usize> { (1..d.len()).filter(|&e| f(v[e])).collect() };
  let (sa, sb) = (pick(&|x| x & 1 == 1), pick(&|x| x & 2 == 2));
  match sx::pick(3) {
    0 => {
      let w = pick(&|x| x != 0);
      same(&a.add(b), &w, "add");
    }
    1 => {
      same(&a.filter_in(&b), &pick(&|x| x == 3), "filter_in");
      same(&a.not_in(&b), &pick(&|x| x == 1), "not_in");
    }
    _ => {
      sx::check(a.is_in(&b) == sa.iter().any(|e| sb.contains(e)), "is_in");
      sx::check(a.is_all_in(&b) == sa.iter().all(|e| sb.contains(e)), "is_all_in");
      let w: Vec<usize> = sa.iter().copied().filter(|&e| sb.iter().any(|&q| d.is_ancestor(e, q))).collect();
      same(&a.has_in(&b), &w, "has_in");
    }
  }
  sx::reach(match (sa.is_empty(), sb.is_empty()) { (true, true) => "both empty", (false, false) => "both", _ => "one empty" });
}
/// positions: eq, get, first, last, slice with every kind of bound
pub fn slices() {
  crate::c02::warm();
  let n = sx::pick(if sx::thorough() { 6 } else { 5 });
  let mut d = Doc::new();
  for _ in 0..n {
    d.add(0, "x");
  }
  d.n[0].tail = "t".into();
  let html = d.html();
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let set = doc.find("x");
  let all: Vec<usize> = (1..=n).collect();
  let num = || -> usize {
    let b = sx::byte(0, 8);
    if b == 8 { usize::MAX } else { b as usize }
  };
  match sx::pick(7) {
    0 => {
      let i = num();
      let w: Vec<usize> = all.get(i).copied().into_iter().collect();
      same(&set.eq(i), &w, "eq");
      sx::check(set.get(i).is_some() == (i < n), "get");
    }
    1 => {
      same(&set.first(), &all[..n.min(1)], "first");
      same(&set.last(), &all[n - n.min(1)..], "last");
      sx::check(set.length() == n && set.is_empty() == (n == 0), "length");
    }
    2 => {
      let (i, j) = (num(), num());
      let w: Vec<usize> = (0..n).filter(|&q| q >= i && q < j).map(|q| q + 1).collect();
      same(&set.slice(i..j), &w, "slice i..j");
    }
    3 => {
      let (i, j) = (num(), num());
      let w: Vec<usize> = (0..n).filter(|&q| q >= i && q <= j).map(|q| q + 1).collect();
      same(&set.slice(i..=j), &w, "slice i..=j");
    }
    4 => {
      let i = num();
      let w: Vec<usize> = (0..n).filter(|&q| q >= i).map(|q| q + 1).collect();
      same(&set.slice(i..), &w, "slice i..");
    }
    5 => {
      let i = num();
      let w: Vec<usize> = (0..n).filter(|&q| q < i).map(|q| q + 1).collect();
      same(&set.slice(..i), &w, "slice ..i");
    }
    _ => {
      let i = num();
      let w: Vec<usize> = (0..n).filter(|&q| q <= i).map(|q| q + 1).collect();
      same(&set.slice(..=i), &w, "slice ..=i");
      same(&set.slice(..), &all, "slice ..");
    }
  }
  sx::reach(if n == 0 { "empty" } else { "non-empty" });
}
