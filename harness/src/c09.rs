//! C09: html is read and written faithfully.
use crate::sx;
use visdom::Vis;

fn any_html(n: usize) -> String {
  let mut s = String::new();
  for _ in 0..n {
    s.push(sx::among(b"<>/! -ab='&;") as char);
  }
  s
}
fn walk(n: &visdom::types::BoxDynElement, out: &mut String) {
  use visdom::types::INodeType::*;
  for c in n.child_nodes() {
    match c.node_type() {
      Element => {
        let e = c.typed().into_element().unwrap();
        out.push('(');
        out.push_str(&e.tag_name());
        for (k, v) in e.get_attributes() {
          out.push(' ');
          out.push_str(&k);
          out.push('=');
          out.push_str(&v.to_string());
        }
        out.push(')');
        walk(&e, out);
        out.push('^');
      }
      Text => {
        out.push('"');
        out.push_str(&c.text());
      }
      Comment => out.push('!'),
      _ => out.push('?'),
    }
  }
}
fn shape(d: &visdom::types::Elements) -> String {
  let mut s = String::new();
  walk(d.get(0).unwrap(), &mut s);
  s
}
pub fn run() {
  crate::c02::warm();
  let th = sx::thorough();
  let s = any_html(if th { 9 } else { 8 });
  sx::note(&s);
  match Vis::load(s.clone()) {
    Err(_) => {
      sx::reach("rejected");
    }
    Ok(doc) => {
      sx::check(doc.length() == 1, "the document");
      let all = doc.find("*");
      let n = all.length();
      let out = doc.outer_html();
      sx::note(&out);
      let _ = doc.html();
      let _ = doc.text();
      let _ = all.text();
      let _ = all.html();
      let _ = all.htmls();
      let _ = all.outer_htmls();
      let _ = all.attr("a");
      let _ = doc.texts(0).length();
      sx::reach(if n == 0 { "no element" } else { "elements" });
      // an attribute name that begins with an equal sign cannot be written after another name
      let mut odd = false;
      for e in all {
        for (k, _) in e.get_attributes() {
          odd |= k.starts_with('=');
        }
      }
      if odd {
        return;
      }
      match Vis::load(out.clone()) {
        Err(_) => sx::fail("serialised document does not parse"),
        Ok(again) => {
          let (a, b) = (shape(&doc), shape(&again));
          if a != b {
            sx::note(&a);
            sx::note(&b);
            sx::fail("serialise and parse");
          }
        }
      }
    }
  }
}
/// set_html gives the content that loading gives
pub fn set() {
  crate::c02::warm();
  let th = sx::thorough();
  let s = any_html(if th { 9 } else { 8 });
  sx::note(&s);
  let doc = Vis::load("<x>o<b></b></x><i></i>").unwrap();
  match Vis::load(s.clone()) {
    Err(_) => {
      let mut x = doc.find("x");
      x.set_html(&s);
      sx::check(doc.outer_html() == "<x>o<b></b></x><i></i>", "rejected html changes nothing");
      sx::reach("rejected");
    }
    Ok(frag) => {
      let want = shape(&frag);
      let text = sx::pick(2) == 1;
      let full = if text {
        let mut ts = doc.find("x").texts(1);
        sx::check(ts.length() == 1, "texts");
        ts.get_mut_ref()[0].set_html(&s);
        "(X)".to_string() + &want + "(B)^^(I)^"
      } else {
        let mut x = doc.find("x");
        x.set_html(&s);
        "(X)".to_string() + &want + "^(I)^"
      };
      sx::note(&doc.outer_html());
      let got = shape(&doc);
      if got != full {
        sx::note(&got);
        sx::note(&full);
        sx::fail("content set by set_html");
      }
      let x = doc.find("x");
      for (i, c) in x.get(0).unwrap().child_nodes().iter().enumerate() {
        sx::check(c.index() == i, "index");
        sx::check(c.parent().map_or(false, |p| p.is(x.get(0).unwrap())), "parent");
      }
      sx::reach(if text { "text" } else { "element" });
    }
  }
}
struct N {
  open: &'static str,
  own: &'static str,
  text: &'static str,
  close: &'static str,
  holds: bool,
  el: bool,
  kids: Vec<usize>,
}
fn n(open: &'static str, own: &'static str, text: &'static str, close: &'static str, holds: bool, el: bool) -> N {
  N { open, own, text, close, holds, el, kids: vec![] }
}
fn kind(k: usize) -> N {
  match k {
    0 => n("<p>", "", "", "</p>", true, true),
    1 => n("<DIV A=\"1\" b='\"' c=x d>", "", "", "</DIV>", true, true),
    2 => n("<br>", "", "", "", false, true),
    3 => n("<x />", "", "", "", false, true),
    4 => n("<title>", "a&lt;b", "a<b", "</title>", false, true),
    5 => n("<script>", "<&amp;", "<&amp;", "</script>", false, true),
    6 => n("", "t&amp;&lt;", "t&<", "", false, false),
    7 => n("<!--", "<i>", "", "-->", false, false),
    _ => n("<pre>", "", "", "</pre >", true, true),
  }
}
fn outer(v: &[N], i: usize, o: &mut String) {
  o.push_str(v[i].open);
  inner(v, i, o);
  o.push_str(v[i].close);
}
fn inner(v: &[N], i: usize, o: &mut String) {
  o.push_str(v[i].own);
  for &k in &v[i].kids {
    outer(v, k, o);
  }
}
fn text(v: &[N], i: usize, o: &mut String) {
  o.push_str(v[i].text);
  for &k in &v[i].kids {
    text(v, k, o);
  }
}
/// documents built from every kind of node: what is written is what was read
pub fn parts() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut v: Vec<N> = vec![n("", "", "", "", true, false)];
  let mut path = vec![0usize];
  for _ in 0..if th { 5 } else { 4 } {
    let d = sx::pick(path.len());
    path.truncate(d + 1);
    let k = sx::pick(9);
    let p = path[d];
    // two texts in a row are one
    if k == 6 {
      if let Some(&l) = v[p].kids.last() {
        sx::assume(v[l].el || v[l].open == "<!--");
      }
    }
    let i = v.len();
    v.push(kind(k));
    v[p].kids.push(i);
    if v[i].holds {
      path.push(i);
    }
  }
  let mut h = String::new();
  for &k in &v[0].kids.clone() {
    outer(&v, k, &mut h);
  }
  sx::note(&h);
  let doc = Vis::load(h.clone()).unwrap();
  eq(&doc.outer_html(), &h, "outer_html of the document");
  let mut t = String::new();
  text(&v, 0, &mut t);
  eq(&doc.text(), &t, "text of the document");
  let els: Vec<usize> = (0..v.len()).filter(|&i| v[i].el).collect();
  let all = doc.find("*");
  sx::check(all.length() == els.len(), "elements");
  let (mut hs, mut os, mut tx) = (String::new(), String::new(), String::new());
  for (i, &e) in els.iter().enumerate() {
    let x = all.eq(i);
    let (mut a, mut b, mut c) = (String::new(), String::new(), String::new());
    inner(&v, e, &mut a);
    outer(&v, e, &mut b);
    text(&v, e, &mut c);
    eq(&x.html(), &a, "html");
    eq(&x.outer_html(), &b, "outer_html");
    eq(&x.text(), &c, "text");
    if i == 0 {
      eq(&all.html(), &a, "html of a set");
      eq(&all.outer_html(), &b, "outer_html of a set");
    }
    hs.push_str(&a);
    os.push_str(&b);
    tx.push_str(&c);
  }
  eq(&all.htmls(), &hs, "htmls");
  eq(&all.outer_htmls(), &os, "outer_htmls");
  eq(&all.text(), &tx, "text of a set");
  sx::reach(if els.is_empty() { "no element" } else { "elements" });
}
fn eq(a: &str, b: &str, what: &str) {
  if a != b {
    sx::note(&("got ".to_string() + a));
    sx::note(&("want ".to_string() + b));
    sx::fail(what);
  }
}
/// set_html of a tag that holds text only
pub fn plain() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut s = String::new();
  for _ in 0..if th { 7 } else { 6 } {
    s.push(sx::among(b"<>/&;ltgx#3 ") as char);
  }
  let k = sx::pick(4);
  let tag = ["title", "textarea", "script", "style"][k];
  let mut h = String::from("<");
  h.push_str(tag);
  h.push('>');
  let mut end = String::from("</");
  end.push_str(tag);
  end.push('>');
  let doc = Vis::load(h.clone() + "o" + &end).unwrap();
  doc.find(tag).set_html(&s);
  let want = Vis::load(h + &s + &end).unwrap();
  sx::note(&s);
  eq(&doc.text(), &want.text(), "text after set_html");
  eq(&doc.outer_html(), &want.outer_html(), "html after set_html");
  let again = Vis::load(doc.outer_html()).unwrap();
  eq(&again.text(), &want.text(), "text after parsing again");
  if k > 1 {
    eq(&doc.text(), &s, "text of script and style");
  }
  sx::reach(tag);
}
