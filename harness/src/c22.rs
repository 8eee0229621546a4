//! C22: the node interface (child_nodes, siblings, parent, typed, ...) of the
//! nodes of a parsed document, with text and comment nodes in between.
use crate::model::{kid, kids, set_str, NONE};
use crate::sx;
use crate::tree::*;
use visdom::types::*;
use visdom::Vis;

/// n nodes of any shape: elements hold nodes, texts and comments do not; two
/// texts are never neighbours (they would be one)
fn mixed(n: usize) -> Tree {
  let mut t = Tree::new();
  let mut path = vec![0];
  for _ in 0..n {
    let depth = sx::pick(path.len());
    path.truncate(depth + 1);
    let p = path[depth];
    let after_text = match t.n[p].kids.last() {
      Some(&l) => matches!(t.n[l].k, K::Text(_)),
      None => false,
    };
    match sx::pick(if after_text { 2 } else { 3 }) {
      0 => {
        let e = t.add(p, K::El("x".into()));
        path.push(e);
      }
      1 => {
        t.add(p, K::Comment("c".into()));
      }
      _ => {
        t.add(p, K::Text(crate::c08::letter()));
      }
    }
  }
  t
}
fn els(t: &Tree, v: &[usize]) -> Vec<usize> {
  v.iter().copied().filter(|&e| matches!(t.n[e].k, K::El(_))).collect()
}
fn eq(got: &[usize], want: &[usize], what: &str) {
  if got != want {
    sx::note(&("got ".to_string() + &set_str(got)));
    sx::note(&("want ".to_string() + &set_str(want)));
    sx::fail(what);
  }
}
fn opt(e: Option<BoxDynElement>) -> usize {
  match e {
    Some(e) => kid(&e),
    None => NONE,
  }
}
fn kind(t: &Tree, m: usize, c: &BoxDynNode) {
  let ok = match &t.n[m].k {
    K::El(_) => matches!(c.node_type(), INodeType::Element) && c.node_type().is_element(),
    K::Text(s) => matches!(c.node_type(), INodeType::Text) && !c.node_type().is_element() && &c.text_content() == s,
    K::Comment(s) => matches!(c.node_type(), INodeType::Comment) && !c.node_type().is_element() && &c.text_content() == s,
    K::Root => false,
  };
  sx::check(ok, "node type");
}
fn node(t: &Tree, e: usize, v: &BoxDynElement, root: &BoxDynElement) {
  let ks = &t.n[e].kids;
  let ek = els(t, ks);
  sx::check(v.child_nodes_length() == ks.len(), "child_nodes_length");
  sx::check(v.child_nodes_item(ks.len()).is_none(), "child_nodes_item after the end");
  let all = v.child_nodes();
  sx::check(all.len() == ks.len(), "child_nodes");
  for (i, c) in all.into_iter().enumerate() {
    let m = ks[i];
    kind(t, m, &c);
    sx::check(c.index() == i, "index");
    match c.parent() {
      Some(p) => sx::check(p.is(v), "parent"),
      None => sx::fail("no parent"),
    }
    match c.root_element() {
      Some(r) => sx::check(r.is(root), "root_element"),
      None => sx::fail("no root_element"),
    }
    let d = v.child_nodes_item(i).unwrap();
    kind(t, m, &d);
    sx::check(d.index() == i, "child_nodes_item");
    match (c.typed(), &t.n[m].k) {
      (IEnumTyped::Element(x), K::El(_)) => {
        sx::check(kid(&x) == t.n[m].lab, "typed element");
        sx::check(x.into_text().is_err(), "an element is no text");
      }
      (IEnumTyped::Text(x), K::Text(s)) => sx::check(&x.text() == s && x.text_chars().iter().collect::<String>() == *s, "typed text"),
      (IEnumTyped::UncareNode(x), K::Comment(s)) => sx::check(&x.text_content() == s, "typed comment"),
      _ => sx::fail("typed"),
    }
  }
  eq(&kids(&v.children()), &ek, "children");
  let mut seen = vec![];
  v.children_by(Box::new(|c| seen.push(kid(&c.cloned()))));
  eq(&seen, &ek, "children_by");
  for i in 0..ks.len() {
    let stop = sx::thorough() as usize + 1;
    for rev in [false, true] {
      let mut want: Vec<usize> = if rev { ks[..=i].to_vec() } else { ks[i..].to_vec() };
      if rev {
        want.reverse();
      }
      let want = els(t, &want);
      let mut seen = vec![];
      v.child_nodes_item_since_by(
        i,
        rev,
        Box::new(|c| {
          seen.push(kid(&c.cloned()));
          true
        }),
      );
      eq(&seen, &want, "child_nodes_item_since_by");
      let mut seen = vec![];
      v.child_nodes_item_since_by(
        i,
        rev,
        Box::new(|c| {
          seen.push(kid(&c.cloned()));
          seen.len() < stop
        }),
      );
      eq(&seen, &want[..want.len().min(stop)], "child_nodes_item_since_by, stopped");
    }
  }
  sx::check(e == 0 || v.inner_html() == t.inner_html(e), "inner_html");
  let mut s = String::new();
  t.text(e, &mut s);
  sx::check(v.text_content() == s && v.text() == s, "text_content");
  sx::check(e == 0 || v.text_chars().iter().collect::<String>() == s, "text_chars");
  if e == 0 {
    sx::check(v.is_root_element(), "root");
    sx::check(v.parent().is_none(), "parent of the root");
    sx::check(matches!(v.node_type(), INodeType::Document | INodeType::DocumentFragement), "type of the root");
    sx::check(v.outer_html() == t.inner_html(0), "outer_html of the root");
    sx::check(v.next_element_sibling().is_none() && v.previous_element_sibling().is_none(), "siblings of the root");
    sx::check(v.siblings().is_empty(), "siblings of the root");
  } else {
    sx::check(!v.is_root_element(), "not the root");
    sx::check(v.outer_html() == t.html(e), "outer_html");
    sx::check(v.html() == v.inner_html(), "html");
    let sib = &t.n[t.n[e].parent].kids;
    let at = t.pos(e);
    let before = els(t, &sib[..at]);
    let after = els(t, &sib[at + 1..]);
    sx::check(v.index() == at, "index");
    sx::check(opt(v.next_element_sibling()) == after.first().copied().unwrap_or(NONE), "next_element_sibling");
    sx::check(opt(v.previous_element_sibling()) == before.last().copied().unwrap_or(NONE), "previous_element_sibling");
    eq(&kids(&v.next_element_siblings()), &after, "next_element_siblings");
    eq(&kids(&v.previous_element_siblings()), &before, "previous_element_siblings");
    let mut w = before.clone();
    w.extend(&after);
    eq(&kids(&v.siblings()), &w, "siblings");
    if !w.is_empty() {
      sx::reach("siblings");
    }
    sx::check(v.tag_name() == "X", "tag_name");
    sx::check(v.tag_names() == ['x'], "tag_names");
    // a clone is the same node, a copy is another one with the same content
    let c = v.cloned();
    sx::check(c.is(v) && v.is(&c), "cloned");
    let k = v.copied();
    sx::check(!k.is(v) && !v.is(&k), "copied");
    sx::check(k.parent().is_none(), "parent of a copy");
    sx::check(k.outer_html() == t.html(e), "html of a copy");
  }
}
pub fn run() {
  crate::c02::warm();
  let t = mixed(if sx::thorough() { 8 } else { 6 });
  let html = t.html(0);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let root = doc.get(0).unwrap().cloned();
  node(&t, 0, &root, &root);
  let mut order = vec![];
  t.elements(0, &mut order);
  let found = doc.find("*");
  eq(&kids(&found), &order, "find(*)");
  for (i, &e) in order.iter().enumerate() {
    node(&t, e, found.get(i).unwrap(), &root);
    for j in 0..order.len() {
      sx::check(found.get(i).unwrap().is(found.get(j).unwrap()) == (i == j), "is");
    }
  }
}
/// remove_child: takes a child out of its parent, and does nothing with others
pub fn removal() {
  crate::c02::warm();
  let mut t = mixed(if sx::thorough() { 8 } else { 6 });
  let html = t.html(0);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let mut order = vec![];
  t.elements(0, &mut order);
  sx::assume(!order.is_empty());
  let found = doc.find("*");
  let b = sx::pick(order.len());
  let a = sx::pick(order.len() + 1);
  let mut x = if a == order.len() { doc.get(0).unwrap().cloned() } else { found.get(a).unwrap().cloned() };
  let p = if a == order.len() { 0 } else { order[a] };
  x.remove_child(found.get(b).unwrap().cloned());
  if t.n[order[b]].parent == p {
    sx::reach("removed");
    t.detach(order[b]);
  } else {
    sx::reach("kept");
  }
  same_doc(&t, &doc);
  for (i, &e) in order.iter().enumerate() {
    same_handle(&t, e, found.get(i).unwrap());
  }
}
/// names and attributes of one element
pub fn attrs() {
  crate::c02::warm();
  // up to three attributes a, b, c in any order; each with a value or without
  let n = 1 + sx::pick(3);
  let mut names: Vec<u8> = vec![];
  let mut vals: Vec<Option<String>> = vec![];
  let mut html = String::from("<p");
  for _ in 0..n {
    let c = sx::byte(b'a', b'd');
    for &o in &names {
      sx::assume(o != c);
    }
    names.push(c);
    html.push(' ');
    html.push(c as char);
    match sx::pick(3) {
      0 => vals.push(None),
      k => {
        let mut v = String::new();
        for _ in 0..k {
          v.push(sx::among(b" xy\t") as char);
        }
        html.push_str("=\"");
        html.push_str(&v);
        html.push('"');
        vals.push(Some(v));
      }
    }
  }
  html.push_str("></p>");
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let e = doc.children("").get(0).unwrap().cloned();
  let ask = sx::byte(b'a', b'd');
  let name = (ask as char).to_string();
  let at = names.iter().position(|&c| c == ask);
  sx::check(e.has_attribute(&name) == at.is_some(), "has_attribute");
  let got = e.get_attribute(&name);
  value(got, at.map(|i| &vals[i]));
  sx::check(doc.children("").has_attr(&name) == at.is_some(), "has_attr");
  value(doc.children("").attr(&name), at.map(|i| &vals[i]));
  let all = e.get_attributes();
  sx::check(all.len() == n, "get_attributes");
  for (i, (k, v)) in all.into_iter().enumerate() {
    sx::check(k.as_bytes() == [names[i]], "names in order");
    value(Some(v), Some(&vals[i]));
  }
}
fn value(got: Option<IAttrValue>, want: Option<&Option<String>>) {
  match (got, want) {
    (None, None) => sx::reach("no attribute"),
    (Some(g), Some(None)) => {
      sx::reach("no value");
      sx::check(g.is_true() && g.is_str("") && !g.is_str("x"), "attribute without value");
      sx::check(g.to_list().is_empty() && g.to_string().is_empty(), "attribute without value");
    }
    (Some(g), Some(Some(w))) => {
      sx::reach("a value");
      sx::check(!g.is_true(), "is_true");
      sx::check(g.is_str(w) && &g.to_string() == w, "value");
      let x = sx::among(b"xy \t") as char;
      let other = x.to_string();
      sx::check(g.is_str(&other) == (w == &other), "is_str");
      let words: Vec<String> = w.split(|c| c == ' ' || c == '\t').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
      sx::check(g.to_list() == words, "to_list");
    }
    _ => sx::fail("attribute there or not"),
  }
}
