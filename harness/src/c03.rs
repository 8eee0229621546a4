//! C03: type, class, id, universal and compound selectors.
use crate::model::*;
use crate::refsel::*;
use crate::sx;
use visdom::Vis;

pub fn class_list(len: usize) -> String {
  let mut s = String::new();
  for _ in 0..len {
    s.push(sx::among(b"ab-A_0 \t\n\x0c\r") as char);
  }
  s
}
fn cls() -> u8 {
  sx::among(b"abA_")
}
fn cls2() -> u8 {
  sx::among(b"abA_-0")
}
fn words(s: &str) -> Vec<&str> {
  s.split(|c: char| c == ' ' || c == '\t' || c == '\n' || c == '\x0c' || c == '\r').filter(|w| !w.is_empty()).collect()
}
/// classes: whole words of a free class attribute, several classes, tag case
pub fn classes() {
  crate::c02::warm();
  let th = sx::thorough();
  let cl = if th { 7 } else { 5 };
  let mut d = Doc::new();
  let a = d.add(0, &chr(sx::among(b"xyX")));
  let b = d.add(a, &chr(sx::among(b"xy")));
  let ca = class_list(cl);
  let cb = class_list(if th { 4 } else { 3 });
  d.attr(a, "class", &ca);
  if sx::pick(2) == 1 {
    d.attr(b, "class", &cb);
  } else {
    d.attr(b, "id", &cb);
  }
  d.n[a].tail = ".a".into();
  // a class name of one or two letters, twice, with an optional tag
  let mut sel = String::new();
  let tag = if sx::pick(2) == 1 { Some(sx::among(b"xyXY")) } else { None };
  let mut names: Vec<String> = vec![];
  match tag {
    Some(t) => sel.push(t as char),
    None => if sx::pick(2) == 1 { sel.push('*') },
  }
  let n = sx::pick(2) + 1;
  for i in 0..n {
    let mut w = chr(cls());
    if i == 0 && sx::pick(2) == 1 {
      w.push(cls2() as char);
    }
    sel.push('.');
    sel.push_str(&w);
    names.push(w);
  }
  let html = d.html();
  sx::note(&sel);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let mut want = vec![];
  for e in 1..d.len() {
    let list = d.n[e].attrs.iter().find(|x| x.0 == "class").map(|x| words(&x.1)).unwrap_or_default();
    let ok = names.iter().all(|w| list.iter().any(|x| x == w));
    let tok = tag.map_or(true, |t| d.n[e].tag.as_bytes()[0] | 32 == t | 32);
    if ok && tok {
      want.push(e);
    }
  }
  same(&doc.find(&sel), &want, "find by class");
  let all = doc.find("*");
  same(&all.filter(&sel), &want, "filter by class");
  sx::reach(match want.len() { 0 => "none", 1 => "one", _ => "two" });
}
/// ids, alone and in compounds, under every combinator and entry point
pub fn ids() {
  crate::c02::warm();
  let th = sx::thorough();
  let form = sx::pick(7);
  let method = sx::pick(if form > 1 && !th { 2 } else { 4 });
  let n = if th { 5 } else { 4 };
  // the tags matter to some of the forms and to the context
  let mut d = if method > 1 || form == 1 || form == 3 || form == 4 { forest(n, if th { 5 } else { 3 }) } else { forest_of(n, 4, b"x") };
  // one of the elements carries the id a, another a or b, one may carry class c
  let n = d.len() - 1;
  let i = 1 + sx::pick(n);
  let j = 1 + (i - 1 + 1 + sx::pick(n - 1)) % n;
  d.attr(i, "id", "a");
  d.attr(j, "id", &chr(sx::byte(b'a', b'b')));
  if form == 1 || form > 4 {
    let cc = 1 + sx::pick(n);
    d.attr(cc, "class", "c");
  }
  let id = |c: u8| Comp { id: Some(c), ..Default::default() };
  let idv = || Comp { id: Some(sx::byte(b'a', b'c')), ..Default::default() };
  let cls = || Comp { class: vec![b'c'], ..Default::default() };
  let one = |c: Comp| Cpx { parts: vec![(Cmb::Desc, c)] };
  let g: Vec<Cpx> = match form {
    0 => vec![one(idv())],
    1 => vec![one(Comp { tag: Some(sx::byte(b'x', b'y')), id: Some(b'a'), class: vec![b'c'], id_first: sx::pick(2) == 1, ..Default::default() })],
    2 => vec![Cpx { parts: vec![(Cmb::Desc, id(b'a')), (comb(), idv())] }],
    3 => vec![Cpx { parts: vec![(Cmb::Desc, tagc()), (comb(), idv())] }],
    4 => vec![Cpx { parts: vec![(Cmb::Desc, idv()), (comb(), tagc())] }],
    5 => vec![one(idv()), one(cls())],
    _ => vec![Cpx { parts: vec![(Cmb::Desc, cls()), (comb(), id(b'b')), (comb(), star())] }],
  };
  let sel = print_group(&g, form % 2 == 1);
  let html = d.html();
  sx::note(&sel);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let want = find(&g, &d, &[0]);
  match method {
    0 => same(&doc.find(&sel), &want, "find by id"),
    1 => same(&doc.find("*").filter(&sel), &want, "filter by id"),
    2 => {
      let w: Vec<usize> = find(&g, &d, &d.with_tag(b'x'));
      same(&doc.find("x").find(&sel), &w, "find by id in a set");
    }
    _ => {
      let scope = |e: usize| d.n[d.n[e].parent].tag == "x";
      let w: Vec<usize> = (1..d.len()).filter(|&e| any(&g, &d, e, &scope)).collect();
      same(&doc.find("x").children(&sel), &w, "children by id");
    }
  }
  sx::reach(if want.is_empty() { "none" } else { "some" });
}
