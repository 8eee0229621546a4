//! C21: the methods that take a closure.
use crate::model::*;
use crate::refsel::*;
use crate::sx;
use visdom::Vis;

pub fn run() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut d = forest_of(if th { 6 } else { 5 }, 3, b"x");
  let m = marks(&mut d);
  // what the closure says about each element
  let mut yes = vec![false];
  for e in 1..d.len() {
    yes.push(m[e] && sx::pick(2) == 1);
  }
  let html = d.html();
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let mut set = doc.find(MARKED);
  let s: Vec<usize> = (1..d.len()).filter(|&e| m[e]).collect();
  let want: Vec<usize> = s.iter().copied().filter(|&e| yes[e]).collect();
  let rest: Vec<usize> = s.iter().copied().filter(|&e| !yes[e]).collect();
  let by = |i: usize, e: &visdom::types::BoxDynElement| {
    sx::check(s[i] == kid(e), "index and element given to the closure");
    yes[kid(e)]
  };
  same(&set.filter_by(by), &want, "filter_by");
  same(&set.not_by(by), &rest, "not_by");
  sx::check(set.is_by(by) == !want.is_empty(), "is_by");
  if !s.is_empty() {
    sx::check(set.is_all_by(by) == rest.is_empty(), "is_all_by");
  }
  let v = set.map(|i, e| (i, kid(e)));
  sx::check(v.len() == s.len(), "map");
  for (i, (j, k)) in v.into_iter().enumerate() {
    sx::check(i == j && k == s[i], "map");
  }
  let mut seen = vec![];
  set.for_each(|i, e| {
    sx::check(i == seen.len(), "for_each index");
    seen.push(kid(e));
    e.set_attribute("q", None);
    yes[kid(e)]
  });
  let stop = s.iter().position(|&e| !yes[e]).map_or(s.len(), |i| i + 1);
  sx::check(seen.as_slice() == &s[..stop], "for_each goes on while the handle says so");
  same(&doc.find("[q]"), &s[..stop], "changes made by for_each");
  let mut n = 0;
  for e in set {
    sx::check(kid(&e) == s[n], "iteration");
    n += 1;
  }
  sx::check(n == s.len(), "iteration length");
  sx::reach(match (want.is_empty(), rest.is_empty()) {
    (true, true) => "empty",
    (false, true) => "all",
    (true, false) => "none",
    _ => "some",
  });
}
