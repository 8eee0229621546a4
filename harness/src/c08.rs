//! C08: the tree after mutations.
use crate::model::*;
use crate::sx;
use crate::tree::*;
use visdom::types::*;
use visdom::Vis;

/// a forest of n elements (tag x) of any shape with a text at a fixed place
fn start(n: usize) -> (Tree, Vec<usize>) {
  let mut t = Tree::new();
  let (path, els) = grow(&mut t, 0, n);
  let _ = path;
  (t, els)
}
pub fn grow(t: &mut Tree, root: usize, n: usize) -> (Vec<usize>, Vec<usize>) {
  let mut path = vec![root];
  let mut els = vec![];
  for i in 0..n {
    let depth = if i == 0 { 0 } else { sx::pick(path.len()) };
    path.truncate(depth + 1);
    if i == 1 {
      t.add(path[depth], K::Text(letter()));
    }
    let e = t.add(path[depth], K::El("x".into()));
    if i == 2 {
      t.add(path[depth], K::Comment("c".into()));
    }
    els.push(e);
    path.push(e);
  }
  (path, els)
}
pub fn by_k<'a>(doc: &Elements<'a>, e: usize) -> Elements<'a> {
  let mut s = String::from("[k='");
  s.push((b'0' + (e / 10) as u8) as char);
  s.push((b'0' + (e % 10) as u8) as char);
  s.push_str("']");
  doc.find(&s)
}
pub fn letter() -> String {
  crate::refsel::chr(sx::byte(b'a', b'z'))
}
/// one element onto another, several times
pub fn moves() {
  crate::c02::warm();
  let th = sx::thorough();
  let deep = th && sx::pick(2) == 1;
  let (mut t, els) = start(if deep { 3 } else if th { 5 } else { 4 });
  let html = t.html(0);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let hs: Vec<Elements> = els.iter().map(|&e| by_k(&doc, e)).collect();
  for h in &hs {
    sx::check(h.length() == 1, "handle");
  }
  let mut changed = false;
  for _ in 0..if deep { 3 } else { 2 } {
    let op = sx::pick(8);
    let a = sx::pick(els.len());
    let mut x = hs[a].cloned();
    if op < 5 {
      let b = sx::pick(els.len());
      let mut y = hs[b].cloned();
      sx::note(["append", "prepend", "before", "after", "replace"][op]);
      sx::note(&(a.to_string() + " " + &b.to_string()));
      let done = if op < 4 { t.put(op, els[a], els[b]) } else { t.replace(els[a], els[b]) };
      changed |= done;
      match op {
        0 => drop(x.append(&mut y)),
        1 => drop(y.prepend_to(&mut x)),
        2 => drop(x.before(&mut y)),
        3 => drop(y.insert_after(&mut x)),
        _ => {
          x.replace_with(&mut y);
          sx::check(kids(&x) == [t.n[els[if done { b } else { a }]].lab], "the set after replace_with");
        }
      }
    } else {
      sx::note(["remove", "empty", "set_text"][op - 5]);
      sx::note(&a.to_string());
      changed = true;
      match op {
        5 => {
          t.detach(els[a]);
          x.remove();
        }
        6 => {
          t.clear(els[a]);
          x.empty();
        }
        _ => {
          t.clear(els[a]);
          let c = letter();
          t.add(els[a], K::Text(c.clone()));
          x.set_text(&c);
        }
      }
    }
    same_doc(&t, &doc);
    for (i, &e) in els.iter().enumerate() {
      same_handle(&t, e, hs[i].get(0).unwrap());
    }
  }
  sx::reach(if changed { "changed" } else { "unchanged" });
}

/// sets and fragments, at one or two targets, then one more move
pub fn sets() {
  crate::c02::warm();
  let th = sx::thorough();
  let n = if th { 6 } else { 5 };
  let (mut t, els) = start(n);
  let html = t.html(0);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let hs: Vec<Elements> = els.iter().map(|&e| by_k(&doc, e)).collect();
  // targets: one or two elements in document order
  let a = sx::pick(n);
  let b = a + sx::pick(n - a);
  let ti: Vec<usize> = if a == b { vec![a] } else { vec![a, b] };
  let mut x = hs[a].cloned();
  if a != b {
    x = x.add(hs[b].cloned());
  }
  // what: two elements, or a fragment
  let op = sx::pick(5);
  let what = sx::pick(2);
  let mut frag_root = NONE;
  let mut y;
  let es: Vec<usize>;
  if what == 0 {
    let c = sx::pick(n - 1);
    let d = c + 1 + sx::pick(n - 1 - c);
    if op == 4 {
      // an element can't replace itself or its own ancestor
      sx::assume(ti.iter().all(|&q| !t.covers(els[c], els[q]) && !t.covers(els[d], els[q])));
    }
    y = hs[c].cloned().add(hs[d].cloned());
    es = vec![els[c], els[d]];
    sx::note(&("elements ".to_string() + &c.to_string() + " " + &d.to_string()));
  } else {
    let r = t.make(K::Root);
    match sx::pick(4) {
      0 => drop(t.add(r, K::El("y".into()))),
      1 => drop(t.add(r, K::Text("f".into()))),
      2 => {
        let e = t.add(r, K::El("y".into()));
        t.add(e, K::El("y".into()));
        t.add(e, K::Text("g".into()));
        t.add(r, K::Text("f".into()));
        t.add(r, K::El("z".into()));
      }
      _ => {}
    }
    if op == 4 {
      sx::assume(!t.n[r].kids.is_empty());
    }
    let fh = t.html(r);
    sx::note(&("fragment ".to_string() + &fh));
    y = Vis::load(fh).unwrap();
    frag_root = r;
    es = vec![r];
  }
  let new: Vec<usize> = if frag_root == NONE { vec![] } else { t.n[frag_root].kids.iter().copied().filter(|&e| matches!(t.n[e].k, K::El(_))).collect() };
  let new = if frag_root != NONE && t.n[frag_root].kids.len() == 1 { new } else { vec![] };
  let ts: Vec<usize> = ti.iter().map(|&q| els[q]).collect();
  sx::note(["append", "prepend", "before", "after", "replace"][op]);
  sx::note(&set_str(&ti));
  if op < 4 { t.put_all(op, &ts, &es) } else { t.replace_all(&ts, &es) };
  match op {
    0 => drop(y.append_to(&mut x)),
    1 => drop(x.prepend(&mut y)),
    2 => drop(y.insert_before(&mut x)),
    3 => drop(x.after(&mut y)),
    _ => drop(x.replace_with(&mut y)),
  }
  if let (4, true, [e]) = (op, ti.len() == 1, new.as_slice()) {
    // an element for an element: the set holds the new one
    sx::check(kids(&x) == [t.n[*e].lab], "the set after replace_with");
  }
  same_doc(&t, &doc);
  for (i, &e) in els.iter().enumerate() {
    same_handle(&t, e, hs[i].get(0).unwrap());
  }
  if frag_root != NONE {
    sx::check(y.get(0).unwrap().child_nodes().is_empty(), "fragment emptied");
    sx::check(y.find("*").is_empty(), "nothing left in the fragment");
  }
  sx::reach(if frag_root == NONE { "elements" } else { "fragment" });
}

fn texts_of(t: &Tree, e: usize, out: &mut Vec<usize>) {
  for &c in &t.n[e].kids {
    match t.n[c].k {
      K::Text(_) => out.push(c),
      K::Comment(_) => {}
      _ => texts_of(t, c, out),
    }
  }
}
/// a piece of html and its nodes, made in the model
fn snippet(t: &mut Tree) -> (String, Vec<usize>) {
  let r = t.make(K::Root);
  match sx::pick(5) {
    0 => {}
    1 => drop(t.add(r, K::El("y".into()))),
    2 => drop(t.add(r, K::Text(letter()))),
    3 => {
      let e = t.add(r, K::El("y".into()));
      t.add(e, K::El("y".into()));
      t.add(r, K::Text("f".into()));
      t.add(r, K::El("z".into()));
    }
    _ => {
      t.add(r, K::Text("f".into()));
      t.add(r, K::Comment("c".into()));
    }
  }
  let h = t.html(r);
  let v = t.n[r].kids.split_off(0);
  for &e in &v {
    t.n[e].parent = NONE;
  }
  (h, v)
}
fn text_handle(t: &Tree, e: usize, h: &BoxDynText) {
  match (h.parent(), t.n[e].parent) {
    (None, NONE) => {}
    (Some(p), q) if q != NONE => {
      sx::check(if q == 0 { p.is_root_element() } else { kid(&p) == t.n[q].lab }, "parent of a text");
      sx::check(h.index() == t.pos(e), "index of a text");
    }
    _ => sx::fail("a text has a parent or not"),
  }
}
/// set_html of elements and text nodes, editing and removing texts
pub fn html() {
  crate::c02::warm();
  let th = sx::thorough();
  let (mut t, els) = start(if th { 5 } else { 4 });
  let last = *els.last().unwrap();
  t.add(last, K::Text("u".into()));
  let html = t.html(0);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let hs: Vec<Elements> = els.iter().map(|&e| by_k(&doc, e)).collect();
  let mut ti = vec![];
  texts_of(&t, 0, &mut ti);
  let th = doc.texts(0);
  for step in 0..2 {
    let op = sx::pick(8);
    sx::note(["set_html", "text.set_html", "text.remove", "text.set_text", "text.append_text", "text.prepend_text", "remove", "append"][op]);
    let mut tx = vec![];
    texts_of(&t, 0, &mut tx);
    let mut texts = doc.texts(0);
    sx::check(texts.length() == tx.len(), "number of texts");
    for (i, v) in texts.get_ref().iter().enumerate() {
      match &t.n[tx[i]].k {
        K::Text(s) => sx::check(&v.text() == s, "texts"),
        _ => {}
      }
    }
    match op {
      0 => {
        let a = sx::pick(els.len());
        let (h, v) = snippet(&mut t);
        sx::note(&h);
        t.clear(els[a]);
        for e in v {
          t.put(0, els[a], e);
        }
        hs[a].cloned().set_html(&h);
      }
      6 => {
        let a = sx::pick(els.len());
        t.detach(els[a]);
        hs[a].cloned().remove();
      }
      7 => {
        let a = sx::pick(els.len());
        let b = sx::pick(els.len());
        t.put(0, els[a], els[b]);
        hs[a].cloned().append(&mut hs[b].cloned());
      }
      _ => {
        if tx.is_empty() {
          sx::assume(false);
        }
        let i = sx::pick(tx.len());
        sx::note(&i.to_string());
        let v = &mut texts.get_mut_ref()[i];
        let old = match &t.n[tx[i]].k {
          K::Text(s) => s.clone(),
          _ => String::new(),
        };
        match op {
          1 => {
            let (h, ns) = snippet(&mut t);
            sx::note(&h);
            for e in ns {
              t.put(2, tx[i], e);
            }
            t.detach(tx[i]);
            v.set_html(&h);
          }
          2 => {
            t.detach(tx[i]);
            texts.get_mut_ref().remove(i).remove();
          }
          3 => {
            let c = letter();
            v.set_text(&c);
            t.n[tx[i]].k = K::Text(c);
          }
          4 => {
            let c = letter();
            v.append_text(&c);
            t.n[tx[i]].k = K::Text(old + &c);
          }
          _ => {
            let c = letter();
            v.prepend_text(&c);
            t.n[tx[i]].k = K::Text(c + &old);
          }
        }
      }
    }
    same_doc(&t, &doc);
    for (i, &e) in els.iter().enumerate() {
      same_handle(&t, e, hs[i].get(0).unwrap());
    }
    for (i, &e) in ti.iter().enumerate() {
      text_handle(&t, e, &th.get_ref()[i]);
    }
    if step == 1 {
      sx::reach(if op == 0 || op == 6 || op == 7 { "element" } else { "text" });
    }
  }
}

/// title and textarea hold text only: what else is put into them is dropped
/// from a fragment and stays where it is as an element
pub fn plain() {
  crate::c02::warm();
  let tag = ["title", "textarea"][sx::pick(2)];
  let full = sx::pick(2) == 1;
  let html = "<".to_string() + tag + ">" + if full { "t" } else { "" } + "</" + tag + "><b></b>";
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let mut x = doc.find(tag);
  let mut want: Vec<String> = vec![];
  if full {
    want.push("t".into());
  }
  for _ in 0..2 {
    let mut fh = String::new();
    let mut new = vec![];
    let mut text = false;
    for _ in 0..1 + sx::pick(3) {
      match sx::pick(if text { 2 } else { 3 }) {
        0 => fh.push_str("<y>o</y>"),
        1 => fh.push_str("<!--c-->"),
        _ => {
          let c = letter();
          fh.push_str("&lt;");
          fh.push_str(&c);
          new.push("<".to_string() + &c);
          text = true;
          continue;
        }
      }
      text = false;
    }
    sx::note(&fh);
    let mut y = Vis::load(fh).unwrap();
    if sx::pick(2) == 0 {
      x.append(&mut y);
      want.extend(new);
    } else {
      x.prepend(&mut y);
      new.extend(want);
      want = new;
    }
    sx::check(x.get(0).unwrap().child_nodes().is_empty(), "no child nodes");
    let all = want.concat();
    sx::check(x.text() == all, "text");
    sx::check(doc.outer_html() == "<".to_string() + tag + ">" + &all.replace('<', "&lt;") + "</" + tag + "><b></b>", "html");
    sx::reach(if want.is_empty() { "empty" } else { "texts" });
  }
  if sx::pick(2) == 0 {
    let c = letter();
    x.set_text(&c);
    sx::check(x.text() == c, "text set");
    sx::check(doc.outer_html() == "<".to_string() + tag + ">" + &c + "</" + tag + "><b></b>", "html");
  }
  // an element stays where it is
  x.append(&mut doc.find("b"));
  x.prepend(&mut doc.find("b"));
  sx::check(doc.find("b").length() == 1 && doc.find(tag).find("b").is_empty(), "element not put in");
}
