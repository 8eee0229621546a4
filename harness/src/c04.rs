//! C04: filter, not, is, is_all, has, closest and find agree on what matches.
use crate::model::*;
use crate::refsel::*;
use crate::sx;
use visdom::Vis;

pub fn selector(th: bool) -> Vec<Cpx> {
  match sx::pick(if th { 12 } else { 10 }) {
    0 => vec![one(tagc())],
    1 => vec![two(tagc(), comb(), tagc())],
    2 => vec![two(star(), comb(), tagc())],
    3 => vec![one(tagc()), two(tagc(), comb(), star())],
    4 => vec![one(psc(Ps::Not(vec![one(tagc())])))],
    5 => vec![one(psc(Ps::Has(vec![one(tagc())])))],
    6 => vec![one(psc([Ps::First, Ps::Last, Ps::Only, Ps::FirstT, Ps::LastT, Ps::OnlyT, Ps::Empty][sx::pick(7)].clone()))],
    7 => vec![two(psc(Ps::First), comb(), tagc())],
    8 => vec![one(Comp { tag: Some(sx::byte(b'x', b'y')), ps: vec![[Ps::Nth(2), Ps::NthLast(1), Ps::NthT(2), Ps::NthLastT(2)][sx::pick(4)].clone()], ..Default::default() })],
    9 => vec![two(tagc(), comb(), psc(Ps::LastT))],
    10 => vec![Cpx { parts: vec![(Cmb::Desc, tagc()), (comb(), star()), (comb(), tagc())] }],
    _ => vec![one(psc(Ps::Not(vec![two(tagc(), comb(), tagc())])))],
  }
}
pub fn run() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut d = forest(if th { 4 } else { 3 }, 3);
  mixed(&mut d);
  let m = marks(&mut d);
  let g = selector(th);
  let sel = print_group(&g, false);
  let html = d.html();
  sx::note(&sel);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let set = doc.find(MARKED);
  let s: Vec<usize> = (1..d.len()).filter(|&e| m[e]).collect();
  same(&set, &s, "the set under test");
  let hit: Vec<usize> = (1..d.len()).filter(|&e| any(&g, &d, e, &|_| true)).collect();
  let inn: Vec<usize> = s.iter().copied().filter(|e| hit.contains(e)).collect();
  let out: Vec<usize> = s.iter().copied().filter(|e| !hit.contains(e)).collect();
  match sx::pick(5) {
    0 => {
      same(&set.filter(&sel), &inn, "filter");
      same(&set.not(&sel), &out, "not");
    }
    1 => {
      sx::check(set.is(&sel) == !inn.is_empty(), "is");
      if !s.is_empty() {
        sx::check(set.is_all(&sel) == out.is_empty(), "is_all");
      }
      for e in set.get_ref() {
        let v = Vis::dom(e);
        sx::check(v.is(&sel) == hit.contains(&kid(e)), "is for one element");
      }
    }
    2 => {
      let w: Vec<usize> = s.iter().copied().filter(|&e| hit.iter().any(|&h| d.is_ancestor(e, h))).collect();
      same(&set.has(&sel), &w, "has");
    }
    3 => {
      let mut w: Vec<usize> = vec![];
      for &e in &s {
        let mut c = e;
        while c != 0 && !hit.contains(&c) {
          c = d.n[c].parent;
        }
        if c != 0 && !w.contains(&c) {
          w.push(c);
        }
      }
      w.sort();
      same(&set.closest(&sel), &w, "closest");
    }
    _ => same(&doc.find(&sel), &hit, "find"),
  }
  sx::reach(match (inn.is_empty(), out.is_empty()) { (true, true) => "empty set", (false, true) => "all", (true, false) => "none", _ => "some" });
}

/// longer selectors on deeper trees
pub fn deep() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut d = forest(if th { 5 } else { 4 }, 5);
  mixed(&mut d);
  let g = match sx::pick(3) {
    0 => {
      let a = tagc();
      vec![Cpx { parts: vec![(Cmb::Desc, a), (comb(), tagc()), (comb(), tagc())] }]
    }
    1 => vec![Cpx { parts: vec![(Cmb::Desc, star()), (comb(), tagc()), (comb(), star())] }],
    _ => vec![Cpx { parts: vec![(Cmb::Desc, tagc()), (comb(), star()), (comb(), Comp { tag: Some(sx::byte(b'x', b'y')), ..psc(Ps::Last) })] }],
  };
  let sel = print_group(&g, false);
  let html = d.html();
  sx::note(&sel);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let all = doc.find("*");
  let hit: Vec<usize> = (1..d.len()).filter(|&e| any(&g, &d, e, &|_| true)).collect();
  let out: Vec<usize> = (1..d.len()).filter(|e| !hit.contains(e)).collect();
  match sx::pick(4) {
    0 => {
      same(&all.filter(&sel), &hit, "filter");
      sx::check(all.is_all(&sel) == out.is_empty(), "is_all");
    }
    1 => same(&all.not(&sel), &out, "not"),
    2 => {
      let n = d.len() - 1;
      let last = all.last();
      sx::check(last.is(&sel) == hit.contains(&n), "is");
      let mut c = n;
      while c != 0 && !hit.contains(&c) {
        c = d.n[c].parent;
      }
      let w = if c == 0 { vec![] } else { vec![c] };
      same(&last.closest(&sel), &w, "closest");
    }
    _ => {
      let w: Vec<usize> = (1..d.len()).filter(|&e| hit.iter().any(|&h| d.is_ancestor(e, h))).collect();
      same(&all.has(&sel), &w, "has");
    }
  }
  sx::reach(if hit.is_empty() { "none" } else { "some" });
}
