//! C05: attribute selectors.
use crate::model::*;
use crate::refsel::*;
use crate::sx;
use visdom::Vis;

fn text(n: usize, set: &'static [u8]) -> String {
  let mut s = String::new();
  for _ in 0..n {
    s.push(sx::among(set) as char);
  }
  s
}
/// n free printable characters, without the quote and the backslash
fn printable(n: usize, q: u8) -> String {
  let mut s = String::new();
  for _ in 0..n {
    let c = sx::byte(b' ', b'~');
    sx::assume(c != q && c != b'\\');
    s.push(c as char);
  }
  s
}
/// the reference meaning of an operator; `v` is None when the attribute is
/// missing, and "" when it has no value
pub fn holds(op: usize, v: Option<&str>, w: &str) -> bool {
  let (b, w) = (v.unwrap_or("").as_bytes(), w.as_bytes());
  if op == 6 {
    return v.is_none() || b != w;
  }
  if v.is_none() {
    return false;
  }
  match op {
    0 => b == w,
    1 => !w.is_empty() && b.len() >= w.len() && &b[..w.len()] == w,
    2 => !w.is_empty() && b.len() >= w.len() && &b[b.len() - w.len()..] == w,
    3 => !w.is_empty() && b.len() >= w.len() && (0..=b.len() - w.len()).any(|i| &b[i..i + w.len()] == w),
    4 => !w.is_empty() && b.split(|c| matches!(*c, b' ' | b'\t' | b'\n')).any(|x| x == w),
    5 => b.len() >= w.len() && &b[..w.len()] == w && (b.len() == w.len() || b[w.len()] == b'-'),
    _ => true,
  }
}
pub fn run() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut d = Doc::new();
  let form = sx::pick(3);
  let a = d.add(0, "x");
  let b = d.add(a, "x");
  let c = d.add(b, "y");
  // a: a free value; b: no value, empty or short value; c: no such attribute (or a different one)
  let av = if sx::pick(2) == 0 { text(if th { 4 } else { 3 }, b"abA- \t\n]") } else { printable(if th { 5 } else { 4 }, b'"') };
  d.attr(a, "at", &av);
  let bv = match form {
    0 => None,
    1 => Some(String::new()),
    _ => Some(text(1, b"ab-")),
  };
  if let Some(v) = &bv {
    d.attr(b, "aT", v);
  } else {
    d.n[b].tag = "x at".into();
  }
  d.attr(c, "att", "a");
  let mut html = d.html();
  if bv.is_none() {
    html = html.replace("</x at>", "</x>");
    d.n[b].tag = "x".into();
  }
  // selector
  let op = sx::pick(8);
  let mut sel = String::from(if sx::pick(2) == 0 { "[" } else { "x[ " });
  sel.push_str(["at", "AT"][sx::pick(2)]);
  let mut w = String::new();
  if op < 7 {
    sel.push_str(["=", "^=", "$=", "*=", "~=", "|=", "!="][op]);
    let q = sx::pick(3);
    if q == 2 {
      w = text(1 + sx::pick(2), b"abA-");
      sel.push_str(&w);
    } else {
      let n = sx::pick(if th { 4 } else { 3 });
      w = text(n, b"abA- ]=[");
      let q = ["'", "\""][q];
      sel.push_str(q);
      sel.push_str(&w);
      sel.push_str(q);
    }
  }
  let x_only = sel.as_bytes()[0] == b'x';
  sel.push_str(if x_only { " ]" } else { "]" });
  sx::note(&sel);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let val = |e: usize| if e == a { Some(av.as_str()) } else if e == b { Some(bv.as_deref().unwrap_or("")) } else { None };
  let want: Vec<usize> = [a, b, c].iter().copied().filter(|&e| holds(op, val(e), &w) && !(x_only && e == c)).collect();
  same(&doc.find(&sel), &want, "find by attribute");
  same(&doc.find("*").filter(&sel), &want, "filter by attribute");
  sx::reach(match want.len() { 0 => "none", 1 => "one", _ => "several" });
}
