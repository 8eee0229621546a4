//! C16: texts, texts_by and texts_by_rec give exactly the text nodes asked for.
use crate::sx;
use std::cell::RefCell;
use std::rc::Rc;
use visdom::types::*;
use visdom::Vis;

/// kinds: x, y hold nodes; text; title with a text; comment; script, empty
struct N {
  kind: usize,
  text: String,
  kids: Vec<usize>,
}
fn render(v: &[N], i: usize, o: &mut String) {
  let n = &v[i];
  let tag = match n.kind {
    0 => "x",
    1 => "y",
    2 => {
      o.push_str(&n.text);
      return;
    }
    3 => "title",
    4 => {
      o.push_str("<!--");
      o.push_str(&n.text);
      o.push_str("-->");
      return;
    }
    _ => "script",
  };
  o.push('<');
  o.push_str(tag);
  o.push('>');
  if n.kind == 3 {
    o.push_str(&n.text);
  }
  for &k in &n.kids {
    render(v, k, o);
  }
  o.push_str("</");
  o.push_str(tag);
  o.push('>');
}
fn is_text(k: usize) -> bool {
  k == 2 || k == 3 || k == 5
}
/// all texts below `e`, with their depth
fn walk(v: &[N], e: usize, depth: usize, limit: usize, skip_y: bool, out: &mut Vec<(usize, String)>) {
  for &k in &v[e].kids {
    if is_text(v[k].kind) {
      out.push((depth, v[k].text.clone()));
    } else if v[k].kind < 2 && (limit == 0 || depth + 1 < limit) && !(skip_y && v[k].kind == 1) {
      walk(v, k, depth + 1, limit, skip_y, out);
    }
  }
}
fn same(got: &Texts, want: &[String], what: &str) {
  let mut ok = got.length() == want.len() && got.is_empty() == want.is_empty();
  for (i, t) in got.get_ref().iter().enumerate() {
    sx::note(&t.text());
    ok = ok && t.text() == want[i];
  }
  sx::check(ok, what);
}
pub fn run() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut v = vec![N { kind: 0, text: String::new(), kids: vec![] }];
  let mut path = vec![0usize];
  for i in 0..if th { 6 } else { 5 } {
    let d = sx::pick(path.len());
    path.truncate(d + 1);
    let kind = sx::pick(6);
    let p = path[d];
    let id = v.len();
    // two texts in a row are one
    if kind == 2 {
      if let Some(&l) = v[p].kids.last() {
        sx::assume(v[l].kind != 2);
      }
    }
    let text = match kind {
      // white space is a text as well
      2 if i == 3 => " ".to_string(),
      2 | 3 | 4 => crate::refsel::chr(sx::byte(b'a', b'z')),
      _ => String::new(),
    };
    v.push(N { kind, text, kids: vec![] });
    v[p].kids.push(id);
    if kind < 2 {
      path.push(id);
    }
  }
  let mut h = String::new();
  render(&v, 0, &mut h);
  sx::note(&h);
  let doc = Vis::load(h).unwrap();
  let x = doc.children("");
  sx::check(x.length() == 1, "top");
  let limit = sx::pick(4);
  match sx::pick(3) {
    0 => {
      let mut w = vec![];
      walk(&v, 0, 0, limit, false, &mut w);
      let want: Vec<String> = w.into_iter().map(|t| t.1).collect();
      let mut got = x.texts(limit);
      same(&got, &want, "texts");
      // for_each goes on until the handle says no
      let stop = sx::pick(3);
      let mut seen = 0;
      got.for_each(|i, t| {
        sx::check(i == seen && t.text() == want[i], "for_each");
        seen += 1;
        i != stop
      });
      sx::check(seen == want.len().min(stop + 1), "for_each stops");
      let odd = got.filter_by(|i, _| i % 2 == 1);
      let w: Vec<String> = want.iter().skip(1).step_by(2).cloned().collect();
      same(&odd, &w, "filter_by");
      sx::reach("texts");
    }
    1 => {
      // by depth and by content
      let mut w = vec![];
      walk(&v, 0, 0, limit, false, &mut w);
      let log = Rc::new(RefCell::new(vec![]));
      let l2 = Rc::clone(&log);
      let got = x.texts_by(
        limit,
        Box::new(move |d, t| {
          l2.borrow_mut().push((d, t.text()));
          d == 1 || t.text().as_str() < "n"
        }),
      );
      sx::check(*log.borrow() == w, "texts and depths the handle sees");
      let want: Vec<String> = w.into_iter().filter(|(d, t)| *d == 1 || t.as_str() < "n").map(|t| t.1).collect();
      same(&got, &want, "texts_by");
      sx::reach("texts_by");
    }
    _ => {
      let mut w = vec![];
      walk(&v, 0, 0, limit, true, &mut w);
      let want: Vec<String> = w.into_iter().map(|t| t.1).collect();
      let got = x.texts_by_rec(limit, Box::new(|_, _| true), Box::new(|e| e.tag_name() != "Y"));
      same(&got, &want, "texts_by_rec");
      sx::reach("texts_by_rec");
    }
  }
}
/// the texts of a set of elements: one after the other; removing them
pub fn sets() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut d = crate::refsel::forest_of(if th { 4 } else { 3 }, 4, b"x");
  for e in 1..d.len() {
    d.n[e].before = crate::refsel::chr(sx::byte(b'a', b'z'));
    if sx::pick(2) == 1 {
      d.n[e].tail = crate::refsel::chr(sx::byte(b'a', b'z'));
    }
  }
  let m = crate::refsel::marks(&mut d);
  let html = d.html();
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let set = doc.find(crate::refsel::MARKED);
  let limit = sx::pick(3);
  fn go(d: &crate::model::Doc, e: usize, depth: usize, limit: usize, out: &mut Vec<String>) {
    for &k in &d.n[e].kids {
      out.push(d.n[k].before.clone());
      if limit == 0 || depth + 1 < limit {
        go(d, k, depth + 1, limit, out);
      }
    }
    if !d.n[e].tail.is_empty() {
      out.push(d.n[e].tail.clone());
    }
  }
  let mut want = vec![];
  for e in 1..d.len() {
    if m[e] {
      go(&d, e, 0, limit, &mut want);
    }
  }
  let got = set.texts(limit);
  same(&got, &want, "texts of a set");
  // removing the texts of the first takes away exactly these
  let first = set.first();
  if first.length() == 1 {
    let k = crate::model::kid(first.get(0).unwrap());
    first.texts(limit).remove();
    fn strip(d: &mut crate::model::Doc, e: usize, depth: usize, limit: usize) {
      d.n[e].tail = String::new();
      for k in d.n[e].kids.clone() {
        d.n[k].before = String::new();
        if limit == 0 || depth + 1 < limit {
          strip(d, k, depth + 1, limit);
        }
      }
    }
    strip(&mut d, k, 0, limit);
    let want = d.html();
    if doc.outer_html() != want {
      sx::note(&doc.outer_html());
      sx::note(&want);
      sx::fail("document without the removed texts");
    }
    sx::check(first.texts(limit).is_empty(), "no text left");
    sx::reach("removed");
  }
  sx::reach("set");
}
