//! C18: pseudo classes about the kind and the content of elements.
use crate::model::*;
use crate::refsel::*;
use crate::sx;
use visdom::Vis;

/// every use of the pseudo class `p` within a selector
fn forms(p: Ps) -> Vec<Cpx> {
  let c = psc(p.clone());
  match sx::pick(11) {
    0 => vec![one(c)],
    1 => vec![one(Comp { tag: Some(b'x'), ps: vec![p], ..Default::default() })],
    2 => vec![one(Comp { class: vec![b'c'], ps: vec![p], ..Default::default() })],
    3 => vec![one(Comp { ps: vec![p, Ps::First], ..Default::default() })],
    4 => vec![one(Comp { ps: vec![Ps::Last, p], ..Default::default() })],
    5 => vec![two(tagc(), comb(), c)],
    6 => vec![two(c, comb(), star())],
    7 => vec![one(psc(Ps::Not(vec![one(c)])))],
    8 => vec![one(psc(Ps::Has(vec![one(c)])))],
    9 => vec![one(c), one(tagc())],
    _ => vec![two(c.clone(), comb(), c)],
  }
}
/// (tag, attributes, content, may hold elements)
type Kind = (&'static str, &'static [(&'static str, &'static str)], &'static str, bool);
fn build(n: usize, kinds: &[Kind]) -> (Doc, Vec<usize>) {
  let mut d = Doc::new();
  let mut path = vec![0usize];
  let mut of = vec![0];
  for _ in 0..n {
    let depth = sx::pick(path.len());
    path.truncate(depth + 1);
    let k = sx::pick(kinds.len());
    let (tag, attrs, tail, holds) = kinds[k];
    let e = d.add(path[depth], tag);
    for (a, v) in attrs {
      d.attr(e, a, v);
    }
    d.n[e].tail = tail.to_string();
    of.push(k);
    if holds {
      path.push(e);
    }
  }
  (d, of)
}
fn compare(d: &Doc, g: &[Cpx]) {
  let sel = print_group(g, false);
  let html = d.html();
  sx::note(&sel);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let hit: Vec<usize> = (1..d.len()).filter(|&e| any(g, d, e, &|_| true)).collect();
  let miss: Vec<usize> = (1..d.len()).filter(|&e| !hit.contains(&e)).collect();
  same(&doc.find(&sel), &hit, "find");
  same(&doc.find("*").not(&sel), &miss, "not");
  sx::reach(if hit.is_empty() { "none" } else { "some" });
}
pub fn run() {
  crate::c02::warm();
  let th = sx::thorough();
  let n = if th { 4 } else { 3 };
  let x: Kind = ("x", &[("class", "c")], "", true);
  let y: Kind = ("y", &[], "", true);
  let which = sx::pick(6);
  let kinds: Vec<Kind> = match which {
    0 => vec![x, y, ("h1", &[], "", true), ("H6", &[("class", "c")], "t", true), ("h7", &[], "", true)],
    1 => vec![x, ("input", &[], "", false), ("BUTTON", &[("class", "c")], "", true), ("textarea", &[], "", false), ("select", &[], "", true)],
    2 => vec![
      x,
      ("input", &[("type", "submit")], "", false),
      ("button", &[("type", "submit"), ("class", "c")], "", true),
      ("input", &[("type", "text")], "", false),
      ("button", &[], "", true),
    ],
    3 => vec![
      x,
      ("input", &[("type", "checkbox"), ("checked", "")], "", false),
      ("input", &[("TYPE", "Radio"), ("class", "c"), ("CHECKED", "x")], "", false),
      ("input", &[("type", "radio")], "", false),
      ("input", &[("checked", ""), ("type", "text")], "", false),
    ],
    4 => vec![x, ("html", &[], "", true), ("HTML", &[("class", "c")], "t", true), y],
    _ => vec![
      x,
      ("y", &[], "t", true),
      ("y", &[("class", "c")], "<!--c-->", true),
      ("title", &[], "t", false),
      ("textarea", &[], "", false),
      ("br", &[], "", false),
    ],
  };
  let (d, of) = build(n, &kinds);
  let mut t = vec![false];
  for e in 1..d.len() {
    let k = of[e];
    t.push(match which {
      0 => k == 2 || k == 3,
      1 => k != 0,
      2 => k == 1 || k == 2,
      3 => k == 1 || k == 2,
      4 => (k == 1 || k == 2) && d.n[e].parent == 0,
      _ => d.n[e].kids.is_empty() && (d.n[e].tail.is_empty() || d.n[e].tail.starts_with("<!--")),
    });
  }
  let name = [":header", ":input", ":submit", ":checked", ":root", ":empty"][which];
  let g = forms(Ps::Table(name.to_string(), t));
  compare(&d, &g);
  sx::reach(name);
}
fn text(d: &Doc, e: usize, o: &mut String) {
  for &k in &d.n[e].kids {
    o.push_str(&d.n[k].before);
    text(d, k, o);
  }
  o.push_str(&d.n[e].tail);
}
/// :contains
pub fn contains() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut d = forest_of(3, 3, b"x");
  for e in 1..d.len() {
    d.n[e].before = chr(sx::among(b"ab"));
    if d.n[e].kids.is_empty() {
      d.n[e].tail = chr(sx::among(b"ab"));
    }
  }
  let mut s = String::new();
  let len = sx::pick(if th { 5 } else { 4 });
  for _ in 0..len {
    s.push(sx::among(b"ab") as char);
  }
  let mut t = vec![false];
  for e in 1..d.len() {
    let mut o = String::new();
    text(&d, e, &mut o);
    t.push(o.contains(s.as_str()));
  }
  let arg = match sx::pick(4) {
    0 => "'".to_string() + &s + "'",
    1 => "\"".to_string() + &s + "\"",
    2 => " '".to_string() + &s + "' ",
    _ => s.clone(),
  };
  let g = forms(Ps::Table(":contains(".to_string() + &arg + ")", t));
  compare(&d, &g);
}
