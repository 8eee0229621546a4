//! A small reference DOM: the oracle side of every check.  It knows nothing of
//! visdom's implementation; it renders itself to HTML, and answers questions
//! about the tree by direct definition.
use visdom::types::*;

pub const NONE: usize = usize::MAX;

#[derive(Clone, Default)]
pub struct MNode {
  pub parent: usize,
  pub tag: String,
  pub attrs: Vec<(String, String)>,
  pub kids: Vec<usize>,
  /// text placed before this element inside its parent
  pub before: String,
  /// text placed at the end of this element's content
  pub tail: String,
}
/// Node 0 is the document; elements are 1.. in document order.
#[derive(Clone)]
pub struct Doc {
  pub n: Vec<MNode>,
}
impl Doc {
  pub fn new() -> Doc {
    Doc { n: vec![MNode { parent: NONE, ..Default::default() }] }
  }
  pub fn add(&mut self, parent: usize, tag: &str) -> usize {
    let id = self.n.len();
    self.n.push(MNode { parent, tag: tag.to_string(), ..Default::default() });
    self.n[parent].kids.push(id);
    id
  }
  pub fn attr(&mut self, e: usize, k: &str, v: &str) {
    self.n[e].attrs.push((k.to_string(), v.to_string()));
  }
  pub fn len(&self) -> usize {
    self.n.len()
  }
  /// Every element carries its number in attribute `k`.
  fn render(&self, e: usize, out: &mut String) {
    let n = &self.n[e];
    out.push_str(&n.before);
    out.push('<');
    out.push_str(&n.tag);
    out.push_str(" k=\"");
    out.push((b'0' + (e / 10) as u8) as char);
    out.push((b'0' + (e % 10) as u8) as char);
    out.push('"');
    for (k, v) in &n.attrs {
      out.push(' ');
      out.push_str(k);
      out.push_str("=\"");
      out.push_str(v);
      out.push('"');
    }
    out.push('>');
    for &c in &n.kids {
      self.render(c, out);
    }
    out.push_str(&n.tail);
    out.push_str("</");
    out.push_str(&n.tag);
    out.push('>');
  }
  pub fn html(&self) -> String {
    let mut s = String::new();
    for &c in &self.n[0].kids {
      self.render(c, &mut s);
    }
    s.push_str(&self.n[0].tail);
    s
  }
  pub fn is_ancestor(&self, a: usize, mut e: usize) -> bool {
    while e != 0 {
      e = self.n[e].parent;
      if e == a {
        return true;
      }
    }
    false
  }
  pub fn with_tag(&self, t: u8) -> Vec<usize> {
    (1..self.len()).filter(|&e| self.n[e].tag.as_bytes() == [t]).collect()
  }
  pub fn pos(&self, e: usize) -> usize {
    let p = self.n[e].parent;
    self.n[p].kids.iter().position(|&x| x == e).unwrap()
  }
  pub fn sibs(&self, e: usize) -> &[usize] {
    &self.n[self.n[e].parent].kids
  }
}
/// The number a visdom element carries.
pub fn kid(e: &BoxDynElement) -> usize {
  match e.get_attribute("k") {
    Some(v) => {
      let s = v.to_string();
      let b = s.as_bytes();
      if b.len() != 2 {
        return NONE;
      }
      (b[0] - b'0') as usize * 10 + (b[1] - b'0') as usize
    }
    None => NONE,
  }
}
pub fn kids(e: &Elements) -> Vec<usize> {
  e.get_ref().iter().map(|x| kid(x)).collect()
}
pub fn set_str(v: &[usize]) -> String {
  let mut s = String::from("{");
  for &x in v {
    s.push_str(&x.to_string());
    s.push(' ');
  }
  s.push('}');
  s
}
/// Compare a visdom result with the expected document-order list.
pub fn same(got: &Elements, want: &[usize], what: &str) {
  let g = kids(got);
  if g.as_slice() != want {
    crate::sx::note(&("got ".to_string() + &set_str(&g)));
    crate::sx::note(&("want ".to_string() + &set_str(want)));
    crate::sx::fail(what);
  }
}
