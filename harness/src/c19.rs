//! C19: the document: ids, owner documents, head, body, title after changes.
use crate::c08::{by_k, grow};
use crate::model::*;
use crate::sx;
use crate::tree::*;
use visdom::types::*;
use visdom::Vis;

fn id() -> u8 {
  sx::byte(b'a', b'b')
}
fn maybe_id() -> Option<u8> {
  if sx::pick(2) == 1 {
    Some(id())
  } else {
    None
  }
}
fn all_ids(t: &Tree, doc: &Elements) {
  let d = doc.document().unwrap();
  let root = doc.get(0).unwrap();
  let mut els = vec![];
  t.elements(0, &mut els);
  for c in [b'a', b'b'] {
    let want: Vec<usize> = els.iter().filter(|&&e| t.n[e].id == Some(c)).map(|&e| t.n[e].lab).collect();
    let name = crate::refsel::chr(c);
    match d.get_element_by_id(&name) {
      None => sx::check(want.is_empty(), "get_element_by_id finds an id that is there"),
      Some(e) => {
        sx::check(want.contains(&kid(&e)), "get_element_by_id gives an element of the document with the id");
        sx::reach("found");
      }
    }
    let sel = "#".to_string() + &name;
    same(&doc.find(&sel), &want, "find by id");
    same(&doc.find("*").filter(&sel), &want, "filter by id");
    let rest: Vec<usize> = els.iter().filter(|&&e| t.n[e].id != Some(c)).map(|&e| t.n[e].lab).collect();
    same(&doc.find("*").not(&sel), &rest, "not by id");
    if want.is_empty() {
      sx::reach("not found");
    }
    if want.len() > 1 {
      sx::reach("several");
    }
  }
  for e in doc.find("*").get_ref() {
    match e.owner_document() {
      None => sx::fail("an element of a document has an owner document"),
      Some(o) => sx::check(o.get_root_node().typed().into_element().unwrap().is(root), "owner document"),
    }
    match e.root_element() {
      None => sx::fail("an element of a document has a root element"),
      Some(r) => sx::check(r.is(root), "root element"),
    }
  }
}
pub fn run() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut t = Tree::new();
  let (_, els) = grow(&mut t, 0, if th { 4 } else { 3 });
  for &e in &els {
    t.n[e].id = maybe_id();
  }
  let html = t.html(0);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  // keeps the documents alive
  let mut others: Vec<Elements> = vec![];
  let hs: Vec<Elements> = els.iter().map(|&e| by_k(&doc, e)).collect();
  all_ids(&t, &doc);
  for _ in 0..2 {
    let a = sx::pick(els.len());
    let e = els[a];
    let mut x = hs[a].cloned();
    match sx::pick(6) {
      0 => {
        let c = id();
        sx::note("set id");
        t.n[e].id = Some(c);
        x.set_attr("id", Some(&crate::refsel::chr(c)));
      }
      1 => {
        sx::note("remove id");
        t.n[e].id = None;
        x.remove_attr("id");
      }
      2 => {
        sx::note("remove");
        t.detach(e);
        x.remove();
      }
      3 => {
        let b = sx::pick(els.len());
        sx::note("move");
        if b != a {
          t.put(0, e, els[b]);
          x.append(&mut hs[b].cloned());
        }
      }
      how => {
        sx::note(if how == 4 { "other document" } else { "set_html" });
        let f = t.make(K::Root);
        let y = t.add(f, K::El("y".into()));
        t.n[y].id = Some(id());
        let html = t.html(f);
        if how == 5 {
          t.clear(e);
        }
        t.put_all(0, &[e], &[f]);
        if how == 4 {
          let mut o = Vis::load(html).unwrap();
          x.append(&mut o);
          others.push(o);
        } else {
          x.set_html(&html);
        }
      }
    }
    sx::note(&a.to_string());
    all_ids(&t, &doc);
  }
}
/// head, body, title and document element
pub fn parts() {
  crate::c02::warm();
  let th = sx::thorough();
  let c = sx::byte(b'a', b'z');
  let text = crate::refsel::chr(c);
  // what is there
  let mut kinds = vec![];
  let mut html = String::new();
  if sx::pick(2) == 1 {
    html.push_str("<!doctype html>");
  }
  html.push_str("<html>");
  let n = sx::pick(if th { 5 } else { 4 });
  for i in 0..n {
    let k = sx::pick(5);
    kinds.push(k);
    let num = "k=\"0".to_string() + &i.to_string() + "\"";
    html.push_str(&match k {
      0 => "<head ".to_string() + &num + "></head>",
      1 => "<head ".to_string() + &num + "><meta><title>" + &text + "</title></head>",
      2 => "<body ".to_string() + &num + "><title>Q</title></body>",
      3 => "text<!--c-->".to_string(),
      _ => "<div ".to_string() + &num + "><head></head><body></body><title>Q</title></div>",
    });
  }
  html.push_str("</html>");
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let d = doc.document().unwrap();
  let root = d.document_element();
  match &root {
    None => sx::fail("document element"),
    Some(e) => sx::check(e.tag_name() == "HTML", "document element is the html element"),
  }
  // a change that must be seen
  let mut gone = vec![false; n];
  let cut = sx::pick(n + 1);
  if cut < n && kinds[cut] != 3 {
    let mut e = by_k(&doc, cut);
    sx::check(e.length() == 1, "handle");
    e.remove();
    gone[cut] = true;
  }
  // the first ones in document order; those inside the div carry no number
  let first = |own: &[usize]| (0..n).filter(|&i| !gone[i]).find(|&i| own.contains(&kinds[i]) || kinds[i] == 4);
  let num = |i: usize| if kinds[i] == 4 { NONE } else { i };
  let head = first(&[0, 1]);
  let body = first(&[2]);
  sx::check(d.head().map(|e| kid(&e)) == head.map(num), "head");
  sx::check(d.body().map(|e| kid(&e)) == body.map(num), "body");
  let title = if head.map_or(false, |i| kinds[i] == 1) { Some(text) } else { None };
  sx::check(d.title() == title, "title");
  if title.is_some() {
    sx::reach("title");
  }
  sx::reach(match (head.is_some(), body.is_some()) {
    (true, true) => "both",
    (true, false) => "head",
    (false, true) => "body",
    _ => "neither",
  });
}
