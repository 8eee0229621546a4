//! Larger documents (17 to 26 elements, up to 12 levels or 14 siblings): few
//! shapes, periodic sets, a few symbolic tags and marks.
use crate::c11::walk;
use crate::model::*;
use crate::refsel::*;
use crate::sx;
use visdom::Vis;

pub fn doc(shape: usize, sym: &[usize]) -> Doc {
  let mut d = Doc::new();
  let tag = |d: &Doc| -> String {
    let e = d.len();
    if sym.contains(&e) {
      chr(sx::byte(b'x', b'y'))
    } else {
      chr(b"xyxxyzyxz"[e % 9])
    }
  };
  match shape {
    0 => {
      // a chain of 12, every third with a sibling before and one behind
      let mut p = 0;
      for i in 0..12 {
        if i % 3 == 2 {
          let t = tag(&d);
          d.add(p, &t);
        }
        let t = tag(&d);
        p = d.add(p, &t);
      }
      let mut q = p;
      for i in 0..8 {
        q = d.n[q].parent;
        if i % 3 == 1 {
          let t = tag(&d);
          d.add(q, &t);
        }
      }
      // the elements behind the chain come last in document order, the deepest first
    }
    1 => {
      for i in 0..14 {
        let t = tag(&d);
        let e = d.add(0, &t);
        if i == 4 || i == 9 {
          for _ in 0..4 {
            let t = tag(&d);
            d.add(e, &t);
          }
        }
      }
    }
    _ => {
      for i in 0..4 {
        let t = tag(&d);
        let a = d.add(0, &t);
        for j in 0..3 {
          let t = tag(&d);
          let b = d.add(a, &t);
          if (i + j) % 2 == 0 {
            let t = tag(&d);
            d.add(b, &t);
            if i == 2 {
              let t = tag(&d);
              d.add(b, &t);
            }
          }
        }
      }
    }
  }
  mixed(&mut d);
  d
}
/// periodic sets, beginnings and ends; `name` marks the elements
pub fn some(d: &mut Doc, name: &str) -> Vec<usize> {
  let n = d.len();
  let f = sx::pick(9);
  let v: Vec<usize> = (1..n)
    .filter(|&e| match f {
      0 => true,
      1 => e % 2 == 0,
      2 => e % 2 == 1,
      3 => e % 3 == 0,
      4 => e % 3 != 1,
      5 => e % 5 == 2,
      6 => e < n / 2,
      7 => e >= n / 2,
      _ => e == n - 1 || e == 1,
    })
    .collect();
  for &e in &v {
    d.attr(e, name, "1");
  }
  v
}
fn cpx(parts: usize, first: Comp) -> Cpx {
  let mut v = vec![(Cmb::Desc, first)];
  for i in 1..parts {
    let c = comb();
    v.push((c, if i % 2 == 1 && i + 1 < parts { star() } else { tagc() }));
  }
  Cpx { parts: v }
}
fn label(v: &[usize]) {
  sx::reach(match v.len() {
    0 => "none",
    1 => "one",
    _ => "several",
  });
}
/// C02: four compounds, or three from a set
pub fn find_() {
  crate::c02::warm();
  let th = sx::thorough();
  let shape = sx::pick(3);
  let mut d = doc(shape, &[3, 8]);
  let from = sx::pick(2) == 1;
  let ctx = if from { some(&mut d, "m") } else { vec![0] };
  let g = vec![cpx(if from { 2 } else if th { 5 } else { 4 }, tagc())];
  let sel = print_group(&g, shape == 1);
  let html = d.html();
  sx::note(&sel);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let want = find(&g, &d, &ctx);
  if from {
    same(&doc.find("[m]").find(&sel), &want, "find from a set");
  } else {
    same(&doc.find(&sel), &want, "find from the document");
  }
  label(&want);
}
/// C04: filter and the others
pub fn filter_() {
  crate::c02::warm();
  let shape = sx::pick(3);
  let mut d = doc(shape, &[4]);
  let s = some(&mut d, "m");
  let g = match sx::pick(5) {
    0 => vec![cpx(3, tagc())],
    1 => vec![one(tagc()), cpx(2, tagc())],
    2 => vec![one(psc(Ps::Not(vec![cpx(2, tagc())])))],
    3 => vec![cpx(2, psc(Ps::Has(vec![one(tagc())])))],
    _ => vec![cpx(2, psc([Ps::First, Ps::LastT, Ps::Nth(7), Ps::NthLast(9), Ps::NthT(4), Ps::OnlyT][sx::pick(6)].clone()))],
  };
  let sel = print_group(&g, false);
  let html = d.html();
  sx::note(&sel);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let set = doc.find("[m]");
  let hit: Vec<usize> = (1..d.len()).filter(|&e| any(&g, &d, e, &|_| true)).collect();
  let inn: Vec<usize> = s.iter().copied().filter(|e| hit.contains(e)).collect();
  let out: Vec<usize> = s.iter().copied().filter(|e| !hit.contains(e)).collect();
  same(&set.filter(&sel), &inn, "filter");
  same(&set.not(&sel), &out, "not");
  sx::check(set.is(&sel) == !inn.is_empty(), "is");
  sx::check(set.is_all(&sel) == out.is_empty(), "is_all");
  let w: Vec<usize> = s.iter().copied().filter(|&e| hit.iter().any(|&h| d.is_ancestor(e, h))).collect();
  same(&set.has(&sel), &w, "has");
  let mut w: Vec<usize> = vec![];
  for &e in &s {
    let mut c = e;
    while c != 0 && !hit.contains(&c) {
      c = d.n[c].parent;
    }
    if c != 0 && !w.contains(&c) {
      w.push(c);
    }
  }
  w.sort();
  same(&set.closest(&sel), &w, "closest");
  label(&inn);
}
/// C11
pub fn walks() {
  crate::c02::warm();
  let shape = sx::pick(3);
  let mut d = doc(shape, &[5]);
  let s = some(&mut d, "m");
  let g = match sx::pick(3) {
    0 => None,
    1 => Some(vec![one(tagc())]),
    _ => Some(vec![cpx(2, tagc())]),
  };
  let sel = g.as_ref().map_or(String::new(), |g| print_group(g, false));
  let html = d.html();
  sx::note(&sel);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let set = doc.find("[m]");
  let ok = |e: usize| g.as_ref().map_or(true, |g| any(g, &d, e, &|_| true));
  let all = |f: &dyn Fn(usize) -> Vec<usize>| -> Vec<usize> {
    let mut w: Vec<usize> = s.iter().flat_map(|&e| f(e)).filter(|&e| ok(e)).collect();
    w.sort();
    w.dedup();
    w
  };
  // a selector of several compounds starts with an element in the relation
  let from = |f: &dyn Fn(usize) -> Vec<usize>| -> Vec<usize> {
    let rel: Vec<usize> = s.iter().flat_map(|&e| f(e)).collect();
    (1..d.len()).filter(|&e| g.as_ref().map_or(rel.contains(&e), |g| any(g, &d, e, &|q| rel.contains(&q)))).collect()
  };
  let first = |v: Vec<usize>| -> Vec<usize> { v.into_iter().take(1).collect() };
  let w = from(&|e| d.n[e].kids.clone());
  same(&set.children(&sel), &w, "children");
  same(&set.parent(&sel), &from(&|e| first(walk(&d, e, 2))), "parent");
  same(&set.parents(&sel), &from(&|e| walk(&d, e, 2)), "parents");
  same(&set.next(&sel), &from(&|e| first(walk(&d, e, 0))), "next");
  same(&set.next_all(&sel), &from(&|e| walk(&d, e, 0)), "next_all");
  same(&set.prev(&sel), &from(&|e| first(walk(&d, e, 1))), "prev");
  same(&set.prev_all(&sel), &from(&|e| walk(&d, e, 1)), "prev_all");
  same(&set.siblings(&sel), &from(&|e| [walk(&d, e, 0), walk(&d, e, 1)].concat()), "siblings");
  let stop = vec![one(tagc())];
  let ssel = print_group(&stop, false);
  let contains = sx::pick(2) == 1;
  let upto = |v: Vec<usize>| -> Vec<usize> {
    let mut o = vec![];
    for e in v {
      let hit = any(&stop, &d, e, &|_| true);
      if !hit || contains {
        o.push(e);
      }
      if hit {
        break;
      }
    }
    o
  };
  same(&set.next_until(&ssel, &sel, contains), &all(&|e| upto(walk(&d, e, 0))), "next_until");
  same(&set.prev_until(&ssel, &sel, contains), &all(&|e| upto(walk(&d, e, 1))), "prev_until");
  same(&set.parents_until(&ssel, &sel, contains), &all(&|e| upto(walk(&d, e, 2))), "parents_until");
  label(&w);
}
/// C12
pub fn sets() {
  crate::c02::warm();
  let shape = sx::pick(3);
  let mut d = doc(shape, &[]);
  let sa = some(&mut d, "p");
  let sb = some(&mut d, "q");
  // one element may be in B or not
  let e = if sx::thorough() { 1 + sx::pick(d.len() - 1) } else { 1 + 3 * sx::pick((d.len() - 1) / 3) };
  let mut sb = sb;
  if !sb.contains(&e) {
    d.attr(e, "q", "1");
    sb.push(e);
    sb.sort();
  }
  let html = d.html();
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let a = doc.find("[p]");
  let b = doc.find("[q]");
  same(&a, &sa, "first set");
  same(&b, &sb, "second set");
  let both: Vec<usize> = sa.iter().copied().filter(|e| sb.contains(e)).collect();
  let only: Vec<usize> = sa.iter().copied().filter(|e| !sb.contains(e)).collect();
  same(&a.filter_in(&b), &both, "filter_in");
  same(&a.not_in(&b), &only, "not_in");
  sx::check(a.is_in(&b) == !both.is_empty(), "is_in");
  sx::check(a.is_all_in(&b) == only.is_empty(), "is_all_in");
  let w: Vec<usize> = sa.iter().copied().filter(|&e| sb.iter().any(|&q| d.is_ancestor(e, q))).collect();
  same(&a.has_in(&b), &w, "has_in");
  if e == 1 {
    let i = sx::byte(0, 20) as usize;
    same(&a.slice(i..), &sa[i.min(sa.len())..], "slice");
    same(&a.eq(i), &sa[i.min(sa.len())..(i + 1).min(sa.len())], "eq");
  }
  let w: Vec<usize> = (1..d.len()).filter(|e| sa.contains(e) || sb.contains(e)).collect();
  same(&a.add(b), &w, "add");
  label(&both);
}
