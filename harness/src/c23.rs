//! C23: loading, and where errors go.
use crate::model::NONE;
use crate::sx;
use crate::tree::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use visdom::html::ParseOptions;
use visdom::types::*;
use visdom::Vis;

fn lenient() -> ParseOptions {
  ParseOptions {
    auto_fix_unclosed_tag: true,
    auto_fix_unexpected_endtag: true,
    auto_fix_unescaped_lt: true,
    allow_self_closing: true,
    allow_attr_key_starts_with_equal_sign: true,
    ..Default::default()
  }
}
fn options(k: usize) -> ParseOptions {
  match k {
    0 => ParseOptions::default(),
    1 => lenient(),
    2 => ParseOptions { case_sensitive_tagname: true, ..lenient() },
    _ => ParseOptions { auto_fix_unclosed_tag: true, auto_fix_unexpected_endtag: true, ..Default::default() },
  }
}
fn bytes(set: &'static [u8], n: usize) -> String {
  let mut s = String::new();
  for _ in 0..n {
    s.push(sx::among(set) as char);
  }
  s
}
fn source() -> String {
  let th = sx::thorough() as usize;
  let (a, n): (&str, usize) = match sx::pick(4) {
    0 => ("", 5 + 2 * th),
    1 => ("<a ", 5 + 2 * th),
    2 => ("<p>x<b>", 5 + 2 * th),
    _ => ("<!", 5 + 2 * th),
  };
  let n = 1 + sx::pick(n);
  a.to_string() + &bytes(b"<>/ab!=\"-", n)
}
type Errs = Rc<RefCell<Vec<String>>>;
fn catcher() -> (Errs, Box<dyn Fn(BoxDynError)>) {
  let errs: Errs = Default::default();
  let e2 = errs.clone();
  (errs, Box::new(move |e| e2.borrow_mut().push(e.to_string())))
}
/// load and load_catch, with and without options
pub fn loading() {
  crate::c02::warm();
  let html = source();
  let k = sx::pick(4);
  sx::note(&html);
  sx::note(&k.to_string());
  if k == 0 {
    // see unfinished() for the rest
    sx::assume(html.rfind('<') <= html.rfind('>'));
  }
  let r = Vis::load_options(html.clone(), options(k));
  let (errs, h) = catcher();
  let c = Vis::load_options_catch(html.clone(), options(k), h);
  both(r, &c, &errs);
  if k == 1 {
    let r = Vis::load(html.clone());
    let o = Vis::load_options(html.clone(), lenient());
    sx::check(
      match (&r, &o) {
        (Ok(r), Ok(o)) => r.outer_html() == o.outer_html(),
        (Err(r), Err(o)) => r.to_string() == o.to_string(),
        _ => false,
      },
      "load uses the most compatible options",
    );
    let (errs, h) = catcher();
    let c = Vis::load_catch(html, h);
    both(r, &c, &errs);
  }
}
/// the known finding: a tag name cut off by the end, read without auto fixes
pub fn unfinished() {
  crate::c02::warm();
  let html = "<".to_string() + &crate::c08::letter();
  sx::note(&html);
  sx::check(Vis::load_options(html, ParseOptions::default()).is_err(), "an unfinished tag is an error");
}
fn both(r: Result<Elements, BoxDynError>, c: &Elements, errs: &Errs) {
  match r {
    Ok(d) => {
      sx::reach("loaded");
      sx::check(errs.borrow().is_empty(), "the handler is called although the html is fine");
      sx::check(d.length() == 1 && c.length() == 1, "one root");
      sx::check(d.outer_html() == c.outer_html(), "the same document");
      sx::check(d.find("*").length() == c.find("*").length(), "the same elements");
      // later errors go to the handler
      let found = c.find("[");
      sx::check(found.is_empty() && errs.borrow().len() == 1, "a wrong selector is reported once");
    }
    Err(e) => {
      sx::reach("refused");
      sx::check(c.is_empty(), "no document");
      sx::check(errs.borrow().as_slice() == [e.to_string()], "the error goes to the handler once");
    }
  }
}
/// html set on an element: like a document loaded, or reported and no change
pub fn setting() {
  crate::c02::warm();
  let html = source();
  sx::note(&html);
  let (errs, h) = catcher();
  let doc = Vis::load_catch("<x k=\"01\">a<y></y></x><z></z>", h);
  let before = doc.outer_html();
  let mut x = doc.find("x");
  match Vis::load(html.clone()) {
    Ok(d) => {
      sx::reach("set");
      x.set_html(&html);
      sx::check(errs.borrow().is_empty(), "the handler is called although the html is fine");
      sx::check(doc.outer_html() == "<x k=\"01\">".to_string() + &d.outer_html() + "</x><z></z>", "the content set");
    }
    Err(_) => {
      sx::reach("refused");
      x.set_html(&html);
      sx::check(errs.borrow().len() == 1, "reported once");
      sx::check(doc.outer_html() == before, "nothing changes");
    }
  }
  let n = errs.borrow().len();
  sx::check(doc.find("z[").is_empty() && errs.borrow().len() == n + 1, "a wrong selector is reported once");
}
/// moves within and between two documents: an impossible one is reported to
/// the document of the target, once, and changes nothing; so are wrong
/// selectors on any element
pub fn moves() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut t = Tree::new();
  let (_, mut els) = crate::c08::grow(&mut t, 0, if th { 3 } else { 2 });
  let other = t.make(K::Root);
  let (_, more) = crate::c08::grow(&mut t, other, 2);
  let mut origin = vec![0; els.len()];
  origin.extend(vec![1; more.len()]);
  els.extend(more);
  let roots = [0, other];
  let n = [Rc::new(Cell::new(0usize)), Rc::new(Cell::new(0usize))];
  let docs: Vec<Elements> = (0..2)
    .map(|i| {
      let c = n[i].clone();
      let html = t.inner_html(roots[i]);
      sx::note(&html);
      Vis::load_catch(html, Box::new(move |_| c.set(c.get() + 1)))
    })
    .collect();
  let hs: Vec<Elements> = (0..els.len()).map(|i| crate::c08::by_k(&docs[origin[i]], els[i])).collect();
  let mut want = [0, 0];
  let mut loose = 0;
  for _ in 0..2 {
    let a = sx::pick(els.len());
    let b = sx::pick(els.len());
    let op = sx::pick(6);
    let mut x = hs[a].cloned();
    let mut y = hs[b].cloned();
    sx::note(["append", "prepend", "before", "after", "replace", "remove"][op]);
    sx::note(&(a.to_string() + " " + &b.to_string()));
    let home = top(&t, els[a]);
    if op == 5 {
      t.detach(els[a]);
      x.remove();
    } else {
      if t.covers(els[b], els[a]) {
        match roots.iter().position(|&r| r == home) {
          Some(d) => want[d] += 1,
          None => loose += 1,
        }
        sx::reach("impossible");
      } else {
        sx::reach("possible");
      }
      if op < 4 {
        t.put(op, els[a], els[b]);
      } else {
        t.replace(els[a], els[b]);
      }
      match op {
        0 => drop(x.append(&mut y)),
        1 => drop(x.prepend(&mut y)),
        2 => drop(x.before(&mut y)),
        3 => drop(x.after(&mut y)),
        _ => drop(x.replace_with(&mut y)),
      }
    }
    let got = n[0].get() + n[1].get();
    sx::check(got == want[0] + want[1] + loose, "errors reported");
    if loose == 0 {
      sx::check(n[0].get() == want[0] && n[1].get() == want[1], "errors reported to their document");
    }
  }
  for d in 0..2 {
    sx::check(docs[d].outer_html() == t.inner_html(roots[d]), "documents after the moves");
  }
  // a wrong selector
  for (i, &e) in els.iter().enumerate() {
    let was = [n[0].get(), n[1].get()];
    sx::check(hs[i].find("[").is_empty(), "a wrong selector selects nothing");
    let now = [n[0].get(), n[1].get()];
    match roots.iter().position(|&r| r == top(&t, e)) {
      Some(d) => sx::check(now[d] == was[d] + 1 && now[1 - d] == was[1 - d], "reported to the document of the element"),
      None => sx::check(now[0] + now[1] == was[0] + was[1] + 1, "reported once"),
    }
  }

}
fn top(t: &Tree, mut e: usize) -> usize {
  while t.n[e].parent != NONE {
    e = t.n[e].parent;
  }
  e
}
