//! A reference DOM with text and comment nodes as nodes: the oracle of the
//! mutation checks.  Operations follow the DOM definitions.
use crate::model::{kid, NONE};
use crate::sx;
use visdom::types::*;

#[derive(Clone, PartialEq)]
pub enum K {
  Root,
  El(String),
  Text(String),
  Comment(String),
}
#[derive(Clone)]
pub struct T {
  pub k: K,
  /// the number the element carries in attribute k
  pub lab: usize,
  /// the id of the element
  pub id: Option<u8>,
  pub parent: usize,
  pub kids: Vec<usize>,
}
#[derive(Clone)]
pub struct Tree {
  pub n: Vec<T>,
}
impl Tree {
  pub fn new() -> Tree {
    Tree { n: vec![T { k: K::Root, lab: 0, id: None, parent: NONE, kids: vec![] }] }
  }
  pub fn make(&mut self, k: K) -> usize {
    let lab = self.n.len();
    self.n.push(T { k, lab, id: None, parent: NONE, kids: vec![] });
    lab
  }
  pub fn add(&mut self, p: usize, k: K) -> usize {
    let e = self.make(k);
    self.n[e].parent = p;
    self.n[p].kids.push(e);
    e
  }
  pub fn pos(&self, e: usize) -> usize {
    self.n[self.n[e].parent].kids.iter().position(|&x| x == e).unwrap()
  }
  /// a is e or an ancestor of e
  pub fn covers(&self, a: usize, mut e: usize) -> bool {
    loop {
      if a == e {
        return true;
      }
      if self.n[e].parent == NONE {
        return false;
      }
      e = self.n[e].parent;
    }
  }
  pub fn detach(&mut self, e: usize) {
    if self.n[e].parent != NONE {
      let at = self.pos(e);
      let p = self.n[e].parent;
      self.n[p].kids.remove(at);
      self.n[e].parent = NONE;
    }
  }
  pub fn insert(&mut self, p: usize, at: usize, e: usize) {
    self.n[p].kids.insert(at, e);
    self.n[e].parent = p;
  }
  pub fn clear(&mut self, e: usize) {
    for c in self.n[e].kids.split_off(0) {
      self.n[c].parent = NONE;
    }
  }
  /// 0 append, 1 prepend, 2 before, 3 after `t`; false when not possible
  pub fn put(&mut self, how: usize, t: usize, e: usize) -> bool {
    if self.covers(e, t) {
      return false;
    }
    if how > 1 && self.n[t].parent == NONE {
      return false;
    }
    self.detach(e);
    match how {
      0 => {
        let l = self.n[t].kids.len();
        self.insert(t, l, e)
      }
      1 => self.insert(t, 0, e),
      _ => {
        let p = self.n[t].parent;
        let at = self.pos(t) + (how - 2);
        self.insert(p, at, e)
      }
    }
    true
  }
  /// `t` is replaced by `e`
  pub fn replace(&mut self, t: usize, e: usize) -> bool {
    if self.covers(e, t) || self.n[t].parent == NONE {
      return false;
    }
    self.detach(e);
    let p = self.n[t].parent;
    let at = self.pos(t);
    self.detach(t);
    self.insert(p, at, e);
    true
  }
  /// a deep copy, detached
  pub fn copy(&mut self, e: usize) -> usize {
    let c = self.make(self.n[e].k.clone());
    self.n[c].lab = self.n[e].lab;
    self.n[c].id = self.n[e].id;
    for q in self.n[e].kids.clone() {
      let d = self.copy(q);
      self.n[d].parent = c;
      self.n[c].kids.push(d);
    }
    c
  }
  /// the nodes to insert for `es`: fragments stand for their children
  fn flat(&self, es: &[usize]) -> Vec<usize> {
    let mut v = vec![];
    for &e in es {
      if self.n[e].k == K::Root {
        v.extend(&self.n[e].kids);
      } else {
        v.push(e);
      }
    }
    v
  }
  /// several elements or fragments at several targets, in order; every target
  /// but the last gets copies
  pub fn put_all(&mut self, how: usize, ts: &[usize], es: &[usize]) {
    for (i, &t) in ts.iter().enumerate() {
      let mut v = if i + 1 < ts.len() {
        let c: Vec<usize> = es.iter().map(|&e| self.copy(e)).collect();
        self.flat(&c)
      } else {
        self.flat(es)
      };
      if how == 1 || how == 3 {
        v.reverse();
      }
      for e in v {
        self.put(how, t, e);
      }
    }
  }
  pub fn replace_all(&mut self, ts: &[usize], es: &[usize]) {
    for (i, &t) in ts.iter().enumerate() {
      if self.n[t].parent == NONE {
        continue;
      }
      let v = if i + 1 < ts.len() {
        let c: Vec<usize> = es.iter().map(|&e| self.copy(e)).collect();
        self.flat(&c)
      } else {
        self.flat(es)
      };
      for &e in &v {
        self.put(2, t, e);
      }
      self.detach(t);
    }
  }
  pub fn render(&self, e: usize, out: &mut String) {
    match &self.n[e].k {
      K::Root => self.inner(e, out),
      K::Text(s) => out.push_str(s),
      K::Comment(s) => {
        out.push_str("<!--");
        out.push_str(s);
        out.push_str("-->");
      }
      K::El(t) => {
        out.push('<');
        out.push_str(t);
        out.push_str(" k=\"");
        let l = self.n[e].lab;
        out.push((b'0' + (l / 10) as u8) as char);
        out.push((b'0' + (l % 10) as u8) as char);
        out.push('"');
        if let Some(c) = self.n[e].id {
          out.push_str(" id=\"");
          out.push(c as char);
          out.push('"');
        }
        out.push('>');
        self.inner(e, out);
        out.push_str("</");
        out.push_str(t);
        out.push('>');
      }
    }
  }
  pub fn inner(&self, e: usize, out: &mut String) {
    for &c in &self.n[e].kids {
      self.render(c, out);
    }
  }
  pub fn html(&self, e: usize) -> String {
    let mut s = String::new();
    self.render(e, &mut s);
    s
  }
  pub fn inner_html(&self, e: usize) -> String {
    let mut s = String::new();
    self.inner(e, &mut s);
    s
  }
  pub fn text(&self, e: usize, out: &mut String) {
    match &self.n[e].k {
      K::Text(s) => out.push_str(s),
      K::Comment(_) => {}
      _ => {
        for &c in &self.n[e].kids {
          self.text(c, out)
        }
      }
    }
  }
  /// elements below e in document order
  pub fn elements(&self, e: usize, out: &mut Vec<usize>) {
    for &c in &self.n[e].kids {
      if let K::El(_) = self.n[c].k {
        out.push(c);
        self.elements(c, out);
      }
    }
  }
}
/// The visdom subtree `v` is exactly the model subtree `e`.
pub fn same_tree(t: &Tree, e: usize, v: &BoxDynElement) {
  let kids = v.child_nodes();
  if kids.len() != t.n[e].kids.len() {
    sx::note(&v.outer_html());
    sx::fail("number of child nodes");
  }
  for (i, c) in kids.into_iter().enumerate() {
    let m = t.n[e].kids[i];
    sx::check(c.index() == i, "child index");
    match c.parent() {
      Some(p) => sx::check(p.is(v), "parent of a child"),
      None => sx::fail("child without parent"),
    }
    match (c.node_type(), &t.n[m].k) {
      (INodeType::Element, K::El(tag)) => {
        let c = c.typed().into_element().unwrap();
        sx::check(c.tag_name().eq_ignore_ascii_case(tag), "tag");
        sx::check(kid(&c) == t.n[m].lab, "which element");
        same_tree(t, m, &c);
      }
      (INodeType::Text, K::Text(s)) | (INodeType::Comment, K::Comment(s)) => sx::check(&c.text() == s, "text of a node"),
      _ => sx::fail("kind of node"),
    }
  }
}
/// everything observable about the document agrees with the model
pub fn same_doc(t: &Tree, doc: &Elements) {
  let want = t.html(0);
  let got = doc.outer_html();
  if want != got {
    sx::note(&("want ".to_string() + &want));
    sx::note(&("got ".to_string() + &got));
    sx::fail("serialised document");
  }
  same_tree(t, 0, doc.get(0).unwrap());
  let mut all = vec![];
  t.elements(0, &mut all);
  let all: Vec<usize> = all.into_iter().map(|e| t.n[e].lab).collect();
  crate::model::same(&doc.find("*"), &all, "find(*)");
}
/// a handle taken earlier: its parent and its own subtree agree
pub fn same_handle(t: &Tree, e: usize, h: &BoxDynElement) {
  let p = t.n[e].parent;
  match h.parent() {
    None => sx::check(p == NONE, "handle lost its parent"),
    Some(q) => {
      if p == NONE {
        sx::fail("detached element still has a parent")
      } else if p != 0 {
        sx::check(kid(&q) == t.n[p].lab, "parent of a handle")
      } else {
        sx::check(q.is_root_element(), "parent of a handle is the root")
      }
    }
  }
  if p != NONE {
    sx::check(h.index() == t.pos(e), "index of a handle");
  } else {
    sx::check(h.index() == 0, "index of a detached element");
  }
  same_tree(t, e, h);
}
