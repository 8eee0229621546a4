//! C06: the attributes of an element behave as an ordered map with
//! case-insensitive names, and survive serialisation.
use crate::refsel::chr;
use crate::sx;
use visdom::types::*;
use visdom::Vis;

type Attrs = Vec<(u8, Option<String>)>;

fn value(n: usize) -> String {
  let mut s = String::new();
  for _ in 0..n {
    s.push(sx::among(b"p\"' <>=&/`\n") as char);
  }
  s
}
fn quoted(n: usize) -> String {
  let mut s = String::new();
  for _ in 0..n {
    s.push(sx::among(b"p\"' >") as char);
  }
  s
}
fn both_quotes(s: &str) -> bool {
  s.contains('"') && s.contains('\'')
}
/// undo the escaping of quotes
pub fn plain(s: &str) -> String {
  s.replace("&quot;", "\"").replace("&apos;", "'").replace("&#34;", "\"").replace("&#39;", "'")
}
fn val(v: &Option<IAttrValue>) -> Option<Option<String>> {
  v.as_ref().map(val1)
}
fn val1(v: &IAttrValue) -> Option<String> {
  match v {
    IAttrValue::True => None,
    IAttrValue::Value(s, _) => Some(s.clone()),
  }
}
/// names are one letter; compare what the element says with the model
fn agree(set: &Elements, m: &Attrs, exact: bool, what: &str) {
  for (lo, up) in [("a", "A"), ("b", "B"), ("c", "C")] {
    let want = m.iter().find(|x| x.0 == lo.as_bytes()[0]).map(|x| x.1.clone());
    for name in [lo, up] {
      let got = val(&set.attr(name));
      let ok = match (&got, &want) {
        (None, None) => true,
        (Some(None), Some(None)) => true,
        (Some(Some(g)), Some(Some(w))) => g == w || !exact && both_quotes(w) && plain(g) == *w,
        _ => false,
      };
      sx::check(ok, what);
      sx::check(set.has_attr(name) == want.is_some(), what);
    }
  }
  let e = set.get(0).unwrap();
  let list = e.get_attributes();
  sx::check(list.len() == m.len(), what);
  for (i, (k, _)) in m.iter().enumerate() {
    sx::check(list[i].0.as_bytes() == [*k], what);
    let (g, w) = (val1(&list[i].1), val(&e.get_attribute(&list[i].0)).unwrap());
    sx::check(g == w, what);
  }
}
pub fn run() {
  crate::c02::warm();
  let th = sx::thorough();
  // initial attributes: one or two, in each way of writing them
  let mut m: Attrs = vec![];
  let mut html = String::from("<x");
  for i in 0..1 + sx::pick(2) {
    let key = [b"aA", b"bB"][i][sx::byte(0, 1) as usize];
    html.push(' ');
    html.push(key as char);
    let v = match sx::pick(4) {
      0 => None,
      1 => {
        html.push_str("=p");
        Some("p".to_string())
      }
      f => {
        let v = chr(sx::among(b"p <>="));
        let q = [b'"', b'\''][f - 2] as char;
        html.push('=');
        html.push(q);
        html.push_str(&v);
        html.push(q);
        Some(v)
      }
    };
    m.push((key | 32, v));
  }
  html.push_str(">t</x><x c='q'></x>");
  let mut m2: Attrs = vec![(b'c', Some("q".into()))];
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let mut set = doc.find("x");
  agree(&set.eq(0), &m, true, "attributes as parsed");
  let n = if th { 3 } else { 2 };
  for i in 0..n {
    let k = sx::among(b"abcAC");
    let name = chr(k);
    let lc = k | 32;
    let op = sx::pick(if i + 1 == n { 4 } else { 3 });
    let v = match op {
      0 | 1 => None,
      2 => Some(value(if i == 0 { sx::pick(2) } else { 2 })),
      _ => Some(quoted(if th { 4 } else { 3 })),
    };
    if op == 0 {
      set.remove_attr(&name);
    } else {
      sx::note(v.as_deref().unwrap_or("(none)"));
      set.set_attr(&name, v.as_deref());
    }
    for mm in [&mut m, &mut m2] {
      let at = mm.iter().position(|x| x.0 == lc);
      match (op, at) {
        (0, Some(p)) => {
          mm.remove(p);
        }
        (0, None) => {}
        (_, Some(p)) => mm[p].1 = v.clone(),
        (_, None) => mm.push((lc, v.clone())),
      }
    }
    sx::note(&name);
  }
  agree(&set.eq(0), &m, false, "attributes after changes");
  agree(&set.eq(1), &m2, false, "attributes of the second element after changes");
  // what is stored now (quotes possibly escaped) must survive a round trip
  let e = set.get(0).unwrap();
  let now: Attrs = e.get_attributes().iter().map(|(k, v)| (k.as_bytes()[0], val1(v))).collect();
  let out = doc.outer_html();
  sx::note(&out);
  let again = Vis::load(out).unwrap();
  let set2 = again.find("x");
  sx::check(set2.length() == 2 && again.find("*").length() == 2, "serialised attributes must not create markup");
  agree(&set2.eq(0), &now, true, "attributes after serialising and parsing again");
  sx::check(set2.text() == "t", "text after serialising");
  sx::reach(if m.is_empty() { "no attribute" } else { "attributes" });
}
