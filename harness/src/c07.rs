//! C07: class names behave as a set.
use crate::model::*;
use crate::refsel::chr;
use crate::sx;
use visdom::types::*;
use visdom::Vis;

fn list(n: usize) -> String {
  let mut s = String::new();
  for _ in 0..n {
    s.push(sx::among(b"abA \n") as char);
  }
  s
}
fn words(s: &str) -> Vec<String> {
  s.split(|c: char| c == ' ' || c == '\t' || c == '\n').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect()
}
fn set_eq(a: &[String], b: &[String]) -> bool {
  a.iter().all(|x| b.contains(x)) && b.iter().all(|x| a.contains(x))
}
fn classes(e: &Elements) -> Vec<String> {
  match e.attr("class") {
    Some(IAttrValue::Value(s, _)) => words(&s),
    _ => vec![],
  }
}
pub fn run() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut d = Doc::new();
  let a = d.add(0, "x");
  let b = d.add(a, "x");
  let mut m: Vec<Vec<String>> = vec![vec![], vec![]];
  let ca = list(if th { 5 } else { 4 });
  d.attr(a, "class", &ca);
  m[0] = words(&ca);
  match sx::pick(3) {
    0 => {}
    1 => d.attr(b, "class", ""),
    _ => {
      let cb = chr(sx::byte(b'a', b'b'));
      d.attr(b, "class", &cb);
      m[1] = words(&cb);
    }
  }
  let html = d.html();
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let mut set = doc.find("x");
  let free = sx::pick(2) == 0;
  for i in 0..if free { 1 } else { 2 } {
    let arg = match if free { 0 } else { 1 + sx::pick(2) } {
      0 => list(if th { 4 } else { 3 }),
      1 => ["b a", "a c b", " c b a c"][sx::pick(3)].to_string(),
      _ => chr(sx::byte(b'a', b'c')),
    };
    let names = words(&arg);
    sx::note(&arg);
    match sx::pick(if i == 0 { 4 } else { 3 }) {
      0 => {
        set.add_class(&arg);
        for l in m.iter_mut() {
          for w in &names {
            if !l.contains(w) {
              l.push(w.clone());
            }
          }
        }
      }
      1 => {
        set.remove_class(&arg);
        for l in m.iter_mut() {
          l.retain(|w| !names.contains(w));
        }
      }
      2 => {
        for (i, w) in names.iter().enumerate() {
          sx::assume(!names[..i].contains(w));
        }
        set.toggle_class(&arg);
        for l in m.iter_mut() {
          let had = l.clone();
          l.retain(|w| !names.contains(w));
          l.extend(names.iter().filter(|w| !had.contains(w)).cloned());
        }
      }
      _ => {
        let want = !names.is_empty() && m.iter().any(|l| names.iter().all(|w| l.contains(w)));
        sx::check(set.has_class(&arg) == want, "has_class");
      }
    }
  }
  for i in 0..2 {
    let one = set.eq(i);
    sx::check(set_eq(&classes(&one), &m[i]), "class names");
    for w in ["a", "b", "A", "c", "ab"] {
      let has = m[i].iter().any(|x| x == w);
      sx::check(one.has_class(w) == has, "has_class after changes");
    }
    sx::check(kids(&one) == vec![i + 1], "other attributes are kept");
  }
  for w in ["a", "b"] {
    let want: Vec<usize> = (0..2).filter(|&i| m[i].iter().any(|x| x == w)).map(|i| i + 1).collect();
    same(&doc.find(&(String::from(".") + w)), &want, "class selector after changes");
  }
  // and it survives serialisation
  let again = Vis::load(doc.outer_html()).unwrap();
  let s2 = again.find("x");
  sx::check(s2.length() == 2, "elements after serialising");
  for i in 0..2 {
    sx::check(set_eq(&classes(&s2.eq(i)), &m[i]), "class names after serialising");
  }
  sx::reach(match m[0].len() { 0 => "none", 1 => "one", _ => "several" });
}
