//! Longer inputs: longer words, values, lists, texts, histories and numbers,
//! made of picked pieces and a few symbolic characters.
use crate::model::*;
use crate::refsel::*;
use crate::sx;
use crate::tree::*;
use visdom::types::*;
use visdom::Vis;

fn label(n: usize) {
  sx::reach(match n {
    0 => "none",
    1 => "one",
    _ => "several",
  });
}
const WORDS: [&str; 8] = ["a", "ab", "abc", "btn-primary", "x1_y", "Z", "a-b", "a-rather-long-class-name-made-of-words"];
fn ws(s: &mut String) {
  s.push(sx::among(b" \t\n\r\x0c") as char);
}
/// C03: several and longer class names
pub fn classes() {
  crate::c02::warm();
  let mut d = Doc::new();
  let a = d.add(0, "x");
  let b = d.add(a, "y");
  let mut list = vec!["first"];
  let mut s = String::from("first");
  let n = if sx::thorough() { 3 } else { 2 };
  for _ in 0..n {
    let w = WORDS[sx::pick(8)];
    ws(&mut s);
    s.push_str(w);
    list.push(w);
  }
  s.push_str("  last\tend");
  list.push("last");
  list.push("end");
  d.attr(a, "class", &s);
  d.attr(b, "class", "end a-b first");
  let other = ["end", "a-b", "first"];
  let p = WORDS[sx::pick(8)];
  let q = ["a-b", "end", "last", "firs", "a-", "btn", "x1_y"][sx::pick(7)];
  let (sel, names): (String, Vec<&str>) = match sx::pick(4) {
    0 => (".".to_string() + q, vec![q]),
    1 => (".first.".to_string() + p, vec!["first", p]),
    2 => (".end.first.".to_string() + p + "." + q, vec!["end", "first", p, q]),
    _ => ("*.".to_string() + q + ".end." + p + ".first", vec![p, q, "end", "first"]),
  };
  let html = d.html();
  sx::note(&sel);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let mut want = vec![];
  if names.iter().all(|w| list.contains(w)) {
    want.push(a);
  }
  if names.iter().all(|w| other.contains(w)) {
    want.push(b);
  }
  same(&doc.find(&sel), &want, "find by class");
  same(&doc.find("*").filter(&sel), &want, "filter by class");
  label(want.len());
}
/// C05: longer values, of letters that repeat, of words, of other alphabets
pub fn attrs() {
  crate::c02::warm();
  let mut d = Doc::new();
  let a = d.add(0, "x");
  let b = d.add(a, "x");
  let mut v = String::new();
  let mut w = String::new();
  let ops: &[usize];
  match sx::pick(3) {
    0 => {
      for _ in 0..if sx::thorough() { 7 } else { 5 } {
        v.push(sx::byte(b'a', b'b') as char);
      }
      for _ in 0..1 + sx::pick(if sx::thorough() { 3 } else { 2 }) {
        w.push(sx::byte(b'a', b'b') as char);
      }
      ops = &[0, 1, 2, 3];
    }
    1 => {
      for _ in 0..if sx::thorough() { 7 } else { 5 } {
        v.push(sx::among(b"a -") as char);
      }
      for _ in 0..1 + sx::pick(if sx::thorough() { 3 } else { 2 }) {
        w.push(sx::among(b"a-") as char);
      }
      ops = &[0, 4, 5, 6];
    }
    _ => {
      const P: [&str; 5] = ["\u{e9}", "\u{65e5}\u{672c}", "a", " ", "\u{1f600}"];
      for _ in 0..if sx::thorough() { 4 } else { 3 } {
        v.push_str(P[sx::pick(if sx::thorough() { 5 } else { 4 })]);
      }
      w.push_str(P[sx::pick(5)]);
      if sx::pick(2) == 1 {
        w.push_str(P[sx::pick(5)]);
      }
      sx::assume(w != " ");
      ops = &[0, 1, 2, 3, 4];
    }
  }
  d.attr(a, "title", "not this");
  d.attr(a, "data-value", &v);
  d.attr(b, "data-value2", &v);
  let op = ops[sx::pick(ops.len())];
  let sel = "[data-value".to_string() + ["=", "^=", "$=", "*=", "~=", "|=", "!="][op] + "\"" + &w + "\"]";
  let html = d.html();
  sx::note(&sel);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let mut want = vec![];
  if crate::c05::holds(op, Some(&v), &w) {
    want.push(a);
  }
  if crate::c05::holds(op, None, &w) {
    want.push(b);
  }
  same(&doc.find(&sel), &want, "find by attribute");
  same(&doc.find("*").filter(&sel), &want, "filter by attribute");
  label(want.len());
}
fn name(i: usize) -> String {
  let mut s = String::from(if i % 2 == 0 { "data-" } else { "" });
  s.push((b'a' + i as u8) as char);
  s
}
/// C06: several attributes, a longer history
pub fn many_attrs() {
  crate::c02::warm();
  let mut m: Vec<(String, Option<String>)> = vec![];
  let mut html = String::from("<x");
  for i in 0..6 {
    html.push(' ');
    html.push_str(&name(i));
    m.push((name(i), if i % 3 == 0 { None } else { Some("v".into()) }));
    if i % 3 > 0 {
      html.push_str("=v");
    }
  }
  html.push_str(">t</x>");
  let doc = Vis::load(html).unwrap();
  let mut set = doc.find("x");
  for _ in 0..if sx::thorough() { 4 } else { 3 } {
    let i = sx::pick(8);
    let n = name(i);
    let at = m.iter().position(|x| x.0 == n);
    sx::note(&n);
    if sx::pick(2) == 0 {
      sx::note("remove");
      set.remove_attr(&n);
      if let Some(p) = at {
        m.remove(p);
      }
    } else {
      sx::note("set");
      let v = chr(sx::byte(b'a', b'z'));
      set.set_attr(&n, Some(&v));
      match at {
        Some(p) => m[p].1 = Some(v),
        None => m.push((n, Some(v))),
      }
    }
  }
  let text = |v: &IAttrValue| match v {
    IAttrValue::True => None,
    IAttrValue::Value(s, _) => Some(s.clone()),
  };
  let again = Vis::load(doc.outer_html()).unwrap();
  for s in [set, again.find("x")] {
    let got: Vec<(String, Option<String>)> = s.get(0).unwrap().get_attributes().iter().map(|(k, v)| (k.clone(), text(v))).collect();
    sx::check(got == m, "attributes in order");
    for i in 0..8 {
      let n = name(i);
      let want = m.iter().find(|x| x.0 == n);
      sx::check(s.attr(&n).as_ref().map(text) == want.map(|x| x.1.clone()), "attribute");
      sx::check(s.find("x").is_empty() && s.is(&("[".to_string() + &n + "]")) == want.is_some(), "attribute selector");
    }
  }
  label(m.len().saturating_sub(5));
}
/// C07: lists of class names and a longer history
pub fn class_ops() {
  crate::c02::warm();
  let lists = ["a b c d e", "c", " btn  btn-primary\tbtn-", "e d c", "btn", "f g h i j", "btn-primary a"];
  let start = ["", "a", "btn btn-primary c", "e d c b a f"][sx::pick(4)];
  let mut m: Vec<&str> = start.split_whitespace().collect();
  let doc = Vis::load("<x class=\"".to_string() + start + "\"></x>").unwrap();
  let mut set = doc.find("x");
  for _ in 0..if sx::thorough() { 3 } else { 2 } {
    let arg = lists[sx::pick(7)];
    let names: Vec<&str> = arg.split_whitespace().collect();
    sx::note(arg);
    match sx::pick(3) {
      0 => {
        set.add_class(arg);
        for w in names {
          if !m.contains(&w) {
            m.push(w);
          }
        }
      }
      1 => {
        set.remove_class(arg);
        m.retain(|w| !names.contains(w));
      }
      _ => {
        set.toggle_class(arg);
        let had = m.clone();
        m.retain(|w| !names.contains(w));
        m.extend(names.iter().filter(|w| !had.contains(w)));
      }
    }
  }
  let now = match set.attr("class") {
    Some(IAttrValue::Value(s, _)) => s,
    _ => String::new(),
  };
  let got: Vec<&str> = now.split_whitespace().collect();
  sx::check(got.len() == m.len() && got.iter().all(|w| m.contains(w)), "class names");
  for w in ["a", "b", "c", "d", "e", "f", "j", "btn", "btn-", "btn-primary", "btn-primar"] {
    sx::check(set.has_class(w) == m.contains(&w), "has_class");
    sx::check(doc.find(&(".".to_string() + w)).length() == m.contains(&w) as usize, "class selector");
  }
  label(m.len());
}
/// C08: operations in a larger document
pub fn moves() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut t = Tree::new();
  let shape = sx::pick(2);
  let mut els = vec![];
  if shape == 0 {
    // many children, texts and comments between them, two of them with children
    for i in 0..14 {
      let e = t.add(0, K::El("x".into()));
      els.push(e);
      if i % 3 == 0 {
        t.add(0, K::Text("t".into()));
      }
      if i % 4 == 0 {
        t.add(0, K::Comment("c".into()));
      }
      if i == 5 || i == 12 {
        for _ in 0..3 {
          els.push(t.add(e, K::El("x".into())));
        }
        t.add(e, K::Text("u".into()));
      }
    }
  } else {
    let mut p = 0;
    for i in 0..9 {
      if i % 2 == 1 {
        els.push(t.add(p, K::El("x".into())));
      }
      let e = t.add(p, K::El("x".into()));
      t.add(p, K::Text("t".into()));
      els.push(e);
      p = e;
    }
  }
  let html = t.html(0);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let hs: Vec<Elements> = els.iter().map(|&e| crate::c08::by_k(&doc, e)).collect();
  let some: &[usize] = if shape == 0 { &[0, 5, 7, 10, 12, 16, 19] } else { &[0, 1, 4, 7, 9, 12] };
  for step in 0..2 {
    let op = sx::pick(7);
    let a = some[sx::pick(some.len())];
    let mut x = hs[a].cloned();
    if op < 5 {
      // in the second step just one of them
      let b = if step == 0 || th { some[sx::pick(some.len())] } else { some[3] };
      let mut y = hs[b].cloned();
      sx::note(["append", "prepend", "before", "after", "replace"][op]);
      sx::note(&(a.to_string() + " " + &b.to_string()));
      if op < 4 {
        t.put(op, els[a], els[b]);
      } else {
        t.replace(els[a], els[b]);
      }
      match op {
        0 => drop(x.append(&mut y)),
        1 => drop(x.prepend(&mut y)),
        2 => drop(y.insert_before(&mut x)),
        3 => drop(y.insert_after(&mut x)),
        _ => drop(x.replace_with(&mut y)),
      }
    } else {
      sx::note(["remove", "empty"][op - 5]);
      sx::note(&a.to_string());
      if op == 5 {
        t.detach(els[a]);
        x.remove();
      } else {
        t.clear(els[a]);
        x.empty();
      }
    }
  }
  same_doc(&t, &doc);
  for (i, &e) in els.iter().enumerate() {
    if some.contains(&i) {
      same_handle(&t, e, hs[i].get(0).unwrap());
    }
  }
  sx::reach(if shape == 0 { "wide" } else { "deep" });
}
/// C10: longer texts
pub fn texts() {
  crate::c02::warm();
  const P: [&str; 12] = ["&amp;", "<b>", "&#x41;", "&notin;", "&amp", "\u{e9}\u{1f600}", "\u{a0}", "&", "</p>", "some words ", "<!--", "&#60"];
  let mut s = String::new();
  let n = if sx::thorough() { 4 } else { 3 };
  for i in 0..n {
    s.push_str(P[sx::pick(12)]);
    if i == 1 {
      s.push(sx::among(b"a;&< ") as char);
    }
  }
  let tag = ["p", "title", "textarea"][sx::pick(3)];
  sx::note(&s);
  let doc = Vis::load("<x><".to_string() + tag + ">old</" + tag + "><i></i></x>").unwrap();
  let mut e = doc.find(tag);
  e.set_text(&s);
  sx::check(e.text() == s, "text after set_text");
  let again = Vis::load(doc.outer_html()).unwrap();
  sx::check(again.find("*").length() == 3, "elements after parsing again");
  sx::check(again.find(tag).text() == s, "text after parsing again");
  sx::reach(tag);
}
/// C15: a select with many options
pub fn options() {
  crate::c02::warm();
  let n = if sx::thorough() { 12 } else { 9 };
  let multiple = sx::pick(2) == 1;
  let one = sx::pick(n + 1);
  let two = sx::pick(n + 1);
  // a group from here to there
  let (from, to) = [(n, n), (0, 2), (0, n), (2, 5), (5, n)][sx::pick(5)];
  let mut h = String::from(if multiple { "<select multiple>" } else { "<select>" });
  for i in 0..n {
    if i == from {
      h.push_str("<optgroup>");
    }
    if i == to && from != to {
      h.push_str("</optgroup>");
    }
    h.push_str("<option value=\"v");
    h.push((b'a' + i as u8) as char);
    h.push_str(if i == one || i == two { "\" selected>" } else { "\">" });
    h.push_str("</option>");
  }
  if to == n && from < n {
    h.push_str("</optgroup>");
  }
  h.push_str("</select>");
  sx::note(&h);
  let doc = Vis::load(h).unwrap();
  let v = |i: usize| "v".to_string() + &chr(b'a' + i as u8);
  let chosen: Vec<usize> = (0..n).filter(|&i| i == one || i == two).collect();
  let mut checked = chosen.clone();
  match doc.find("select").val() {
    IFormValue::Multiple(got) => {
      sx::check(multiple, "one value expected");
      let want: Vec<String> = chosen.iter().map(|&i| v(i)).collect();
      sx::check(got == want, "values");
      sx::reach("multiple");
    }
    IFormValue::Single(got) => {
      sx::check(!multiple, "list of values expected");
      let direct = (0..n).find(|&i| from == to || i < from || i >= to);
      let want = chosen.first().copied().or(direct);
      sx::check(got == want.map(v).unwrap_or_default(), "value");
      if let (true, Some(i)) = (chosen.is_empty(), want) {
        checked.push(i);
      }
      sx::reach("single");
    }
  }
  let all = doc.find("option");
  let got = doc.find(":checked");
  sx::check(got.length() == checked.len(), ":checked");
  for (i, &k) in checked.iter().enumerate() {
    sx::check(got.get(i).unwrap().is(all.get(k).unwrap()), ":checked");
  }
}
/// C16: texts at many depths
pub fn depths() {
  crate::c02::warm();
  let n = if sx::thorough() { 14 } else { 10 };
  let mut h = String::new();
  let cut = sx::pick(n);
  for i in 0..n {
    h.push_str(if i == cut { "<y>" } else { "<x>" });
    h.push((b'a' + i as u8) as char);
  }
  for i in (0..n).rev() {
    h.push_str(if i == cut { "</y>" } else { "</x>" });
    h.push((b'A' + i as u8) as char);
  }
  sx::note(&h);
  let doc = Vis::load(h).unwrap();
  let at = sx::pick(3) * 3;
  let limit = sx::pick(n + 2);
  let e = doc.find("*").eq(at);
  let want = |stop: usize| -> String {
    let end = if limit == 0 { n } else { n.min(at + limit) }.min(stop.max(at + 1));
    let mut s = String::new();
    for i in at..end {
      s.push((b'a' + i as u8) as char);
    }
    for i in (at + 1..end).rev() {
      s.push((b'A' + i as u8) as char);
    }
    // the text behind an element that is left out
    if end < n {
      s.insert(end - at, (b'A' + end as u8) as char);
    }
    s
  };
  let join = |t: &Texts| -> String { t.get_ref().iter().map(|t| t.text()).collect() };
  sx::check(join(&e.texts(limit)) == want(n), "texts");
  let got = e.texts_by_rec(limit, Box::new(|_, _| true), Box::new(|e| e.tag_name() != "Y"));
  // the element itself is not asked about
  let stop = if cut > at { cut } else { n };
  sx::check(join(&got) == want(stop), "texts_by_rec");
  sx::reach(if limit == 0 { "all" } else { "some" });
}
/// C20: closures over larger sets
pub fn closures() {
  crate::c02::warm();
  let mut d = crate::big::doc(sx::pick(3), &[]);
  let s = crate::big::some(&mut d, "p");
  let html = d.html();
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let mut set = doc.find("[p]");
  same(&set, &s, "set");
  let n = s.len();
  let i = sx::pick(n + 1);
  let j = sx::pick(n + 1);
  let flip = sx::pick(2) == 1;
  let yes = |k: usize| (k == i || k == j) != flip;
  let want: Vec<usize> = (0..n).filter(|&k| yes(k)).map(|k| s[k]).collect();
  let rest: Vec<usize> = (0..n).filter(|&k| !yes(k)).map(|k| s[k]).collect();
  let by = |k: usize, e: &BoxDynElement| {
    sx::check(s[k] == kid(e), "index and element given to the closure");
    yes(k)
  };
  same(&set.filter_by(by), &want, "filter_by");
  same(&set.not_by(by), &rest, "not_by");
  sx::check(set.is_by(by) == !want.is_empty(), "is_by");
  if n > 0 {
    sx::check(set.is_all_by(by) == rest.is_empty(), "is_all_by");
  }
  let v = set.map(|k, e| s[k] == kid(e));
  sx::check(v.len() == n && v.iter().all(|&x| x), "map");
  let mut seen = 0;
  set.for_each(|k, e| {
    sx::check(k == seen && s[k] == kid(e), "for_each");
    seen += 1;
    !yes(k)
  });
  sx::check(seen == (0..n).find(|&k| yes(k)).map_or(n, |k| k + 1), "for_each stops");
  label(want.len());
}
/// C01: very large numbers
pub fn huge() {
  crate::c02::warm();
  const H: [&str; 5] = ["99999999999999999999", "2147483648", "4294967297", "9223372036854775807", "65537"];
  let mut d = Doc::new();
  let n = 5;
  for _ in 0..n {
    d.add(0, "x");
  }
  let h = H[sx::pick(5)];
  let big = h.parse::<i128>().unwrap();
  let c = sx::byte(b'0', b'9');
  let a_first = sx::pick(2) == 0;
  let small = (c - b'0') as i128;
  // numbers out of range are as good as infinite, but lose their remainder
  sx::assume(a_first || small <= 1 || big < 1 << 40);
  let neg1 = sx::pick(2) == 1;
  let neg2 = sx::pick(2) == 1;
  let mut s = String::new();
  let (a, b) = if a_first {
    if neg1 {
      s.push('-');
    }
    s.push_str(h);
    s.push('n');
    s.push(if neg2 { '-' } else { '+' });
    s.push(c as char);
    (big, small)
  } else {
    if neg1 {
      s.push('-');
    }
    s.push(c as char);
    s.push('n');
    s.push(if neg2 { '-' } else { '+' });
    s.push_str(h);
    (small, big)
  };
  let a = if neg1 { -a } else { a };
  let b = if neg2 { -b } else { b };
  let f = sx::pick(4);
  let sel = ":".to_string() + ["nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"][f] + "(" + &s + ")";
  sx::note(&sel);
  let hit = |p: i128| {
    if a == 0 {
      p == b
    } else {
      (p - b) % a == 0 && (p - b) / a >= 0
    }
  };
  let want: Vec<usize> = (1..=n).filter(|&e| hit(if f % 2 == 0 { e as i128 } else { (n + 1 - e) as i128 })).collect();
  let doc = Vis::load(d.html()).unwrap();
  same(&doc.find(&sel), &want, "find by a large number");
  same(&doc.find("x").filter(&sel), &want, "filter by a large number");
  label(want.len());
}
