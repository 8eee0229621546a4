//! C11: tree traversal of sets.
use crate::model::*;
use crate::refsel::*;
use crate::sx;
use visdom::Vis;

fn anc(d: &Doc, e: usize) -> Vec<usize> {
  let mut v = vec![];
  let mut p = d.n[e].parent;
  while p != 0 {
    v.push(p);
    p = d.n[p].parent;
  }
  v
}
/// nearest first
pub fn walk(d: &Doc, e: usize, dir: usize) -> Vec<usize> {
  let sibs = d.sibs(e);
  let p = d.pos(e);
  match dir {
    0 => sibs[p + 1..].to_vec(),
    1 => sibs[..p].iter().rev().copied().collect(),
    _ => anc(d, e),
  }
}
fn ordered(mut v: Vec<usize>) -> Vec<usize> {
  v.sort();
  v.dedup();
  v
}
pub fn run() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut d = forest(if th { 5 } else { 4 }, 3);
  mixed(&mut d);
  let m = marks(&mut d);
  // no filter, a tag, a group of two tags, or a position
  let (sel, g): (String, Option<Vec<Cpx>>) = match sx::pick(3) {
    0 => (String::new(), None),
    1 => {
      let g = vec![one(tagc())];
      (print_group(&g, false), Some(g))
    }
    _ => {
      let g = vec![one(tagc()), one(psc(Ps::First))];
      (print_group(&g, false), Some(g))
    }
  };
  let html = d.html();
  sx::note(&sel);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let set = doc.find(MARKED);
  let s: Vec<usize> = (1..d.len()).filter(|&e| m[e]).collect();
  let ok = |e: usize| match &g {
    None => true,
    Some(g) => any(g, &d, e, &|_| true),
  };
  let mut w: Vec<usize> = vec![];
  let op = sx::pick(8);
  for &e in &s {
    match op {
      0 => w.extend(&d.n[e].kids),
      1 => w.extend(anc(&d, e).first()),
      2 => w.extend(anc(&d, e)),
      3 => w.extend(walk(&d, e, 0).first()),
      4 => w.extend(walk(&d, e, 0)),
      5 => w.extend(walk(&d, e, 1).first()),
      6 => w.extend(walk(&d, e, 1)),
      _ => {
        w.extend(walk(&d, e, 0));
        w.extend(walk(&d, e, 1));
      }
    }
  }
  let w: Vec<usize> = ordered(w).into_iter().filter(|&e| ok(e)).collect();
  match op {
    0 => same(&set.children(&sel), &w, "children"),
    1 => same(&set.parent(&sel), &w, "parent"),
    2 => same(&set.parents(&sel), &w, "parents"),
    3 => same(&set.next(&sel), &w, "next"),
    4 => same(&set.next_all(&sel), &w, "next_all"),
    5 => same(&set.prev(&sel), &w, "prev"),
    6 => same(&set.prev_all(&sel), &w, "prev_all"),
    _ => same(&set.siblings(&sel), &w, "siblings"),
  }
  sx::reach(match w.len() { 0 => "none", 1 => "one", _ => "several" });
}
/// more elements, no filter: overlapping relations in wide and deep trees
pub fn wide() {
  crate::c02::warm();
  let n = if sx::thorough() { 7 } else { 6 };
  let mut d = forest_of(n, n, b"x");
  d.n[n].before = "t".into();
  let m = marks(&mut d);
  let html = d.html();
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let set = doc.find(MARKED);
  let s: Vec<usize> = (1..d.len()).filter(|&e| m[e]).collect();
  let op = sx::pick(9);
  let mut w: Vec<usize> = vec![];
  for &e in &s {
    match op {
      0 => w.extend(&d.n[e].kids),
      1 => w.extend(anc(&d, e).first()),
      2 => w.extend(anc(&d, e)),
      3 => w.extend(walk(&d, e, 0).first()),
      4 => w.extend(walk(&d, e, 0)),
      5 => w.extend(walk(&d, e, 1).first()),
      6 => w.extend(walk(&d, e, 1)),
      7 => w.extend(anc(&d, e).last()),
      _ => {
        w.extend(walk(&d, e, 0));
        w.extend(walk(&d, e, 1));
      }
    }
  }
  let w = ordered(w);
  match op {
    0 => same(&set.children(""), &w, "children"),
    1 => same(&set.parent(""), &w, "parent"),
    2 => same(&set.parents(""), &w, "parents"),
    3 => same(&set.next(""), &w, "next"),
    4 => same(&set.next_all(""), &w, "next_all"),
    5 => same(&set.prev(""), &w, "prev"),
    6 => same(&set.prev_all(""), &w, "prev_all"),
    7 => same(&set.parents(":nth-last-child(n)").not("x x"), &w, "outermost parents"),
    _ => same(&set.siblings(""), &w, "siblings"),
  }
  sx::reach(match w.len() { 0 => "none", 1 => "one", _ => "several" });
}
/// next_until, prev_until, parents_until
pub fn until() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut d = forest(if th { 5 } else { 4 }, 3);
  mixed(&mut d);
  let m = marks(&mut d);
  let stop = vec![one(tagc())];
  let filt = if sx::pick(2) == 1 { Some(vec![one(tagc())]) } else { None };
  let contains = sx::pick(2) == 1;
  let ssel = print_group(&stop, false);
  let fsel = filt.as_ref().map_or(String::new(), |f| print_group(f, false));
  let html = d.html();
  sx::note(&ssel);
  sx::note(&fsel);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let set = doc.find(MARKED);
  let dir = sx::pick(3);
  let mut w: Vec<usize> = vec![];
  for e in (1..d.len()).filter(|&e| m[e]) {
    for q in walk(&d, e, dir) {
      let hit = any(&stop, &d, q, &|_| true);
      if hit && !contains {
        break;
      }
      if filt.as_ref().map_or(true, |f| any(f, &d, q, &|_| true)) {
        w.push(q);
      }
      if hit {
        break;
      }
    }
  }
  let w = ordered(w);
  match dir {
    0 => same(&set.next_until(&ssel, &fsel, contains), &w, "next_until"),
    1 => same(&set.prev_until(&ssel, &fsel, contains), &w, "prev_until"),
    _ => same(&set.parents_until(&ssel, &fsel, contains), &w, "parents_until"),
  }
  sx::reach(match w.len() { 0 => "none", 1 => "one", _ => "several" });
}
