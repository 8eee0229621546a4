//! C17: copies, removed subtrees, and sets that span several trees.
use crate::c08::{by_k, grow};
use crate::model::*;
use crate::refsel::*;
use crate::sx;
use crate::tree::*;
use visdom::types::*;
use visdom::Vis;

fn below(d: &Doc, top: usize) -> Vec<usize> {
  (1..d.len()).filter(|&e| e == top || d.is_ancestor(top, e)).collect()
}
fn html_of(d: &Doc, e: usize) -> String {
  let mut s = String::new();
  let mut c = d.n[e].clone();
  c.before.clear();
  let mut q = d.clone();
  q.n[e] = c;
  q.n[0].kids = vec![e];
  q.n[0].tail.clear();
  s.push_str(&q.html());
  s
}
fn selector() -> Vec<Cpx> {
  match sx::pick(7) {
    0 => vec![one(tagc())],
    1 => vec![two(tagc(), comb(), tagc())],
    2 => vec![two(star(), comb(), star())],
    3 => vec![one(tagc()), two(tagc(), comb(), star())],
    4 => vec![one(psc(Ps::Not(vec![one(tagc())])))],
    5 => vec![one(psc(Ps::Has(vec![one(tagc())])))],
    _ => vec![one(psc(Ps::Not(vec![two(tagc(), comb(), tagc())])))],
  }
}
/// a subtree on its own answers as the same tree in a document does
pub fn run() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut d = forest(if th { 5 } else { 4 }, 4);
  mixed(&mut d);
  let g = selector();
  let sel = print_group(&g, false);
  let html = d.html();
  sx::note(&sel);
  sx::note(&html);
  let doc = Vis::load(html.clone()).unwrap();
  let top = 1 + sx::pick(d.len() - 1);
  let orig = by_k(&doc, top);
  let copy = sx::pick(2) == 1;
  let t: Elements = if copy {
    Vis::dom(&orig.get(0).unwrap().copied())
  } else {
    by_k(&doc, top).remove();
    orig.cloned()
  };
  sx::note(if copy { "copied" } else { "removed" });
  sx::check(t.get(0).unwrap().parent().is_none(), "no parent");
  sx::check(t.outer_html() == html_of(&d, top), "html of the subtree");
  sx::check(doc.find("*").length() == d.len() - 1 - if copy { 0 } else { below(&d, top).len() }, "elements left in the document");
  if copy {
    sx::check(doc.outer_html() == html, "the document is as it was");
    sx::check(!t.get(0).unwrap().is(orig.get(0).unwrap()), "a copy is another element");
  }
  // the model: the subtree alone
  let s = below(&d, top);
  let mut m = d.clone();
  m.n[0].kids = vec![top];
  m.n[top].parent = 0;
  let hit: Vec<usize> = s.iter().copied().filter(|&e| any(&g, &m, e, &|_| true)).collect();
  let all = t.add(t.find("*"));
  same(&all, &s, "all elements of the subtree");
  let rest: Vec<usize> = s.iter().copied().filter(|e| !hit.contains(e)).collect();
  match sx::pick(4) {
    0 => {
      let inside = |e: usize| m.is_ancestor(top, e);
      let w: Vec<usize> = s.iter().copied().filter(|&e| any(&g, &m, e, &inside)).collect();
      same(&t.find(&sel), &w, "find");
    }
    1 => {
      same(&all.filter(&sel), &hit, "filter");
      same(&all.not(&sel), &rest, "not");
      sx::check(all.is(&sel) == !hit.is_empty(), "is");
      sx::check(all.is_all(&sel) == rest.is_empty(), "is_all");
    }
    2 => {
      let mut w = vec![];
      for &e in &s {
        let mut c = e;
        while c != 0 && !hit.contains(&c) {
          c = m.n[c].parent;
        }
        if c != 0 && !w.contains(&c) {
          w.push(c);
        }
      }
      w.sort();
      same(&all.closest(&sel), &w, "closest");
      let w: Vec<usize> = s.iter().copied().filter(|&e| hit.iter().any(|&h| m.is_ancestor(e, h))).collect();
      same(&all.has(&sel), &w, "has");
    }
    _ => {
      let w: Vec<usize> = hit.iter().copied().filter(|&e| e != top).collect();
      same(&all.children(&sel_one(&g, &sel)), &if single(&g) { w.clone() } else { without(&s, top) }, "children");
      let par: Vec<usize> = s.iter().copied().filter(|&e| !m.n[e].kids.is_empty()).collect();
      same(&all.parent(""), &par, "parent");
      same(&all.parents(""), &par, "parents");
    }
  }
  sx::reach(if hit.is_empty() { "none" } else { "some" });
}
fn single(g: &[Cpx]) -> bool {
  g.iter().all(|c| c.parts.len() == 1)
}
fn sel_one(g: &[Cpx], sel: &str) -> String {
  if single(g) {
    sel.to_string()
  } else {
    String::new()
  }
}
fn without(s: &[usize], e: usize) -> Vec<usize> {
  s.iter().copied().filter(|&q| q != e).collect()
}
/// changes to a copy do not reach the original, and the other way round
pub fn apart() {
  crate::c02::warm();
  let mut t = Tree::new();
  let (_, els) = grow(&mut t, 0, if sx::thorough() { 5 } else { 4 });
  let html = t.html(0);
  sx::note(&html);
  let doc = Vis::load(html.clone()).unwrap();
  let a = els[sx::pick(els.len())];
  let top = by_k(&doc, a);
  let before = top.outer_html();
  let copy = Vis::dom(&top.get(0).unwrap().copied());
  let mut sub = vec![a];
  t.elements(a, &mut sub);
  let e = sub[sx::pick(sub.len())];
  let on_copy = sx::pick(2) == 1;
  let (chg, kept) = if on_copy { (copy, top) } else { (top, copy) };
  let mut x = if e == a { chg.cloned() } else { by_k(&chg, e) };
  sx::check(x.length() == 1, "the element in the copy");
  match sx::pick(6) {
    0 => drop(x.set_attr("q", Some("1"))),
    1 => drop(x.set_text("z")),
    2 => drop(x.set_html("<i></i>")),
    3 => drop(x.remove_attr("k")),
    4 => drop(x.append(&mut Vis::load("<u></u>").unwrap())),
    _ => {
      let mut ts = x.texts(0);
      ts.for_each(|_, t| {
        t.set_text("z");
        true
      });
      x.add_class("q");
    }
  }
  sx::check(chg.outer_html() != before, "changed");
  sx::check(kept.outer_html() == before, "the other one is as it was");
  if on_copy {
    sx::check(doc.outer_html() == html, "the document is as it was");
    sx::reach("copy changed");
  } else {
    sx::reach("original changed");
  }
}
/// elements with no duplicates, each tree in order; `want` in any order
fn members(t: &Tree, got: &Elements, want: &[usize], ordered: bool, what: &str) {
  let g = kids(got);
  let mut a = g.clone();
  a.sort();
  let mut b: Vec<usize> = want.to_vec();
  b.sort();
  b.dedup();
  if a != b {
    sx::note(&("got ".to_string() + &set_str(&g)));
    sx::note(&("want ".to_string() + &set_str(&b)));
    sx::fail(what);
  }
  if ordered {
    for i in 0..g.len() {
      for j in i + 1..g.len() {
        sx::check(!before(t, g[j], g[i]), "order in a tree");
      }
    }
  }
}
/// b is behind a or below it, in the same tree
fn before(t: &Tree, a: usize, b: usize) -> bool {
  let path = |mut e: usize| {
    let mut v = vec![];
    loop {
      v.insert(0, e);
      if t.n[e].parent == NONE {
        return v;
      }
      e = t.n[e].parent;
    }
  };
  let (p, q) = (path(a), path(b));
  for i in 0..p.len().min(q.len()) {
    if p[i] != q[i] {
      return i > 0 && t.pos(p[i]) < t.pos(q[i]);
    }
  }
  p.len() < q.len()
}
/// sets whose elements have been moved or removed, or come from two documents
pub fn sets() {
  crate::c02::warm();
  let th = sx::thorough();
  let with_other = sx::pick(2) == 1;
  let n = if with_other { 3 } else { 4 };
  let mut t = Tree::new();
  let (_, mut els) = grow(&mut t, 0, n);
  // a second document of two elements, side by side or nested
  let f = t.make(K::Root);
  let o1 = t.add(f, K::El("x".into()));
  let o2 = t.add(if !with_other || sx::pick(2) == 0 { f } else { o1 }, K::El("x".into()));
  let (h1, h2) = (t.html(0), t.html(f));
  sx::note(&h1);
  sx::note(&h2);
  let doc = Vis::load(h1).unwrap();
  let other = Vis::load(h2).unwrap();
  let mut hs: Vec<Elements> = els.iter().map(|&e| by_k(&doc, e)).collect();
  let mut set = doc.find("x");
  if with_other {
    set = set.add(other.find("x"));
    els.push(o1);
    els.push(o2);
    hs.push(by_k(&other, o1));
    hs.push(by_k(&other, o2));
  }
  members(&t, &set, &els, true, "add of two documents");
  for _ in 0..if th { 2 } else { 1 } {
    let a = sx::pick(els.len());
    match sx::pick(3) {
      0 => {
        sx::note("remove");
        t.detach(els[a]);
        hs[a].cloned().remove();
      }
      how => {
        sx::note(if how == 1 { "prepend to" } else { "after" });
        let b = sx::pick(els.len());
        sx::note(&b.to_string());
        let ok = if how == 1 { t.put(1, els[b], els[a]) } else { t.put(3, els[b], els[a]) };
        if ok {
          if how == 1 {
            hs[b].cloned().prepend(&mut hs[a].cloned());
          } else {
            hs[b].cloned().after(&mut hs[a].cloned());
          }
        }
      }
    }
    sx::note(&a.to_string());
  }
  // a part of the set
  let mask: Vec<bool> = els.iter().map(|_| sx::byte(0, 1) == 1).collect();
  let s: Vec<usize> = (0..els.len()).filter(|&i| mask[i]).map(|i| els[i]).collect();
  let part = set.filter_by(|i, _| mask[i]);
  let mut w: Vec<usize> = vec![];
  let up = |e: usize| t.n[e].parent;
  let is_el = |e: usize| e != NONE && t.n[e].k != K::Root;
  let sibs = |e: usize| -> Vec<usize> {
    if up(e) == NONE {
      vec![e]
    } else {
      t.n[up(e)].kids.iter().copied().filter(|&c| matches!(t.n[c].k, K::El(_))).collect()
    }
  };
  let op = sx::pick(10);
  for &e in &s {
    let v = sibs(e);
    let at = v.iter().position(|&q| q == e).unwrap();
    match op {
      0 => t.elements(e, &mut w),
      1 => w.extend(t.n[e].kids.iter().copied().filter(|&c| matches!(t.n[c].k, K::El(_)))),
      2 => w.extend(Some(up(e)).filter(|&p| is_el(p))),
      3 => {
        let mut p = up(e);
        while is_el(p) {
          w.push(p);
          p = up(p);
        }
      }
      4 => w.extend(&v[at + 1..]),
      5 => w.extend(&v[..at]),
      6 => w.extend(v.iter().copied().filter(|&q| q != e)),
      7 => w.extend(v.get(at + 1)),
      8 => {
        if at > 0 {
          w.push(v[at - 1]);
        }
      }
      _ => {}
    }
  }
  match op {
    0 => members(&t, &part.find("*"), &w, true, "find"),
    1 => members(&t, &part.children(""), &w, true, "children"),
    2 => members(&t, &part.parent(""), &w, true, "parent"),
    3 => members(&t, &part.parents(""), &w, true, "parents"),
    4 => members(&t, &part.next_all(""), &w, true, "next_all"),
    5 => members(&t, &part.prev_all(""), &w, true, "prev_all"),
    6 => members(&t, &part.siblings(""), &w, true, "siblings"),
    7 => members(&t, &part.next(""), &w, true, "next"),
    8 => members(&t, &part.prev(""), &w, true, "prev"),
    _ => {
      let now = doc.find("x");
      let mut inn = vec![];
      t.elements(0, &mut inn);
      let w: Vec<usize> = s.iter().copied().filter(|e| inn.contains(e)).collect();
      members(&t, &part.filter_in(&now), &w, false, "filter_in");
      let w: Vec<usize> = s.iter().copied().filter(|e| !inn.contains(e)).collect();
      members(&t, &part.not_in(&now), &w, false, "not_in");
      sx::check(part.is_all_in(&now) == w.is_empty(), "is_all_in");
      let mut w = s.clone();
      w.extend(&inn);
      members(&t, &part.add(now), &w, !s.is_empty() && !inn.is_empty(), "add");
      let w: Vec<usize> = s.iter().copied().filter(|&e| is_el(up(e))).collect();
      members(&t, &part.filter("x > x"), &w, false, "filter");
      let w: Vec<usize> = s.iter().copied().filter(|&e| !is_el(up(e))).collect();
      members(&t, &part.not("x > x"), &w, false, "not");
    }
  }
  sx::reach(if with_other { "two documents" } else { "one document" });
}
