//! C10: text set is the text read, and never becomes markup.
use crate::sx;
use visdom::Vis;

fn any_text(n: usize) -> String {
  let mut s = String::new();
  for _ in 0..n {
    match sx::among(b"&<>;#'\"ltx3a \n\x01") {
      1 => s.push('\u{e9}'),
      c => s.push(c as char),
    }
  }
  s
}
fn eq(a: &str, b: &str, what: &str) {
  if a != b {
    sx::note(&("got ".to_string() + a));
    sx::note(&("want ".to_string() + b));
    sx::fail(what);
  }
}
/// set_text of elements
pub fn run() {
  crate::c02::warm();
  let th = sx::thorough();
  let s = any_text(if th { 7 } else { 6 });
  let tag = ["p", "pre", "title", "textarea"][sx::pick(4)];
  let mut h = String::from("<x><");
  h.push_str(tag);
  h.push_str(" a=\"1\">old</");
  h.push_str(tag);
  h.push_str("><i></i></x>");
  sx::note(&s);
  sx::note(&h);
  let doc = Vis::load(h).unwrap();
  let mut e = doc.find(tag);
  e.set_text(&s);
  eq(&e.text(), &s, "text after set_text");
  sx::check(e.children("").is_empty(), "no element from text");
  sx::check(doc.find("*").length() == 3, "elements of the document");
  let out = doc.outer_html();
  sx::note(&out);
  match Vis::load(out.as_str()) {
    Err(_) => sx::fail("serialised document does not parse"),
    Ok(again) => {
      sx::check(again.find("*").length() == 3, "elements after parsing again");
      let f = again.find(tag);
      sx::check(f.length() == 1, "the element after parsing again");
      eq(&f.text(), &s, "text after parsing again");
      eq(&again.outer_html(), &out, "serialising again");
    }
  }
  sx::reach(tag);
}
/// text nodes
pub fn nodes() {
  crate::c02::warm();
  let th = sx::thorough();
  let s = any_text(if th { 6 } else { 5 });
  sx::note(&s);
  let doc = Vis::load("<x>a&lt;<i></i>b</x>").unwrap();
  let mut ts = doc.find("x").texts(0);
  sx::check(ts.length() == 2, "texts");
  let i = sx::pick(2);
  let op = sx::pick(3);
  let mut want = ["a<".to_string(), "b".to_string()];
  sx::note(["set_text", "append_text", "prepend_text"][op]);
  let v = &mut ts.get_mut_ref()[i];
  match op {
    0 => {
      v.set_text(&s);
      want[i] = s.clone();
    }
    1 => {
      v.append_text(&s);
      want[i] = want[i].clone() + &s;
    }
    _ => {
      v.prepend_text(&s);
      want[i] = s.clone() + &want[i];
    }
  }
  eq(&ts.get_ref()[i].text(), &want[i], "text of the node");
  let all = want[0].clone() + &want[1];
  eq(&doc.find("x").text(), &all, "text of the element");
  sx::check(doc.find("*").length() == 2, "elements");
  let out = doc.outer_html();
  sx::note(&out);
  match Vis::load(out.as_str()) {
    Err(_) => sx::fail("serialised document does not parse"),
    Ok(again) => {
      sx::check(again.find("*").length() == 2, "elements after parsing again");
      eq(&again.find("x").text(), &all, "text after parsing again");
    }
  }
  sx::reach(if i == 0 { "first" } else { "second" });
}

/// the texts of title, textarea, script and style, edited as text nodes
pub fn tags() {
  crate::c02::warm();
  let th = sx::thorough();
  let s = any_text(if th { 6 } else { 5 });
  let k = sx::pick(4);
  let tag = ["title", "textarea", "script", "style"][k];
  let emptied = sx::pick(2) == 1;
  let mut h = String::from("<x><");
  h.push_str(tag);
  h.push_str(">o&amp;</");
  h.push_str(tag);
  h.push_str("><i></i></x>");
  sx::note(&s);
  sx::note(&h);
  let doc = Vis::load(h).unwrap();
  let mut want = if k < 2 { "o&".to_string() } else { "o&amp;".to_string() };
  eq(&doc.find(tag).text(), &want, "parsed text");
  if emptied {
    doc.find(tag).empty();
    want = String::new();
  }
  eq(&doc.find(tag).text(), &want, "text before");
  // from the element itself, or as a part of its parent
  let mut ts = if sx::pick(2) == 0 { doc.find(tag).texts(0) } else { doc.find("x").texts(0) };
  sx::check(ts.length() == 1, "texts");
  let all = ts.filter_by(|_, t| t.text() == want);
  sx::check(all.length() == 1, "filter_by");
  let op = sx::pick(3);
  sx::note(["set_text", "append_text", "prepend_text"][op]);
  let v = &mut ts.get_mut_ref()[0];
  match op {
    0 => {
      v.set_text(&s);
      want = s.clone();
    }
    1 => {
      v.append_text(&s);
      want = want.clone() + &s;
    }
    _ => {
      v.prepend_text(&s);
      want = s.clone() + &want;
    }
  }
  eq(&ts.get_ref()[0].text(), &want, "text of the node");
  eq(&doc.find(tag).text(), &want, "text of the element");
  sx::check(doc.find("*").length() == 3, "elements");
  let out = doc.outer_html();
  sx::note(&out);
  if k < 2 {
    match Vis::load(out.as_str()) {
      Err(_) => sx::fail("serialised document does not parse"),
      Ok(again) => {
        sx::check(again.find("*").length() == 3, "elements after parsing again");
        eq(&again.find(tag).text(), &want, "text after parsing again");
      }
    }
  } else {
    eq(&doc.find(tag).html(), &want, "html of script and style");
  }
  sx::reach(tag);
}
