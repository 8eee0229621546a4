//! C13: no selector string makes the library panic; an invalid one is reported
//! to the error handler and selects nothing.
use crate::model::*;
use crate::sx;
use std::cell::Cell;
use std::rc::Rc;
use visdom::types::*;
use visdom::Vis;

pub const HTML: &str = "<x k='01' id='a' class='a'>a<y k='02' a='a'></y><!--c--><input k='03' type='checkbox'></x><x k='04'></x>";

/// use `sel` through one of the entry points; consistent and never a panic
pub fn try_selector(sel: &str) {
  sx::note(sel);
  let n = Rc::new(Cell::new(0usize));
  let n2 = n.clone();
  let doc = Vis::load_catch(HTML, Box::new(move |_| n2.set(n2.get() + 1)));
  let all = doc.find("*");
  sx::check(n.get() == 0 && all.length() == 4, "valid selector reported");
  match sx::pick(3) {
    0 => {
      // find and filter agree, with each other and on validity
      let found = doc.find(sel);
      let bad = n.get() > 0;
      let kept = all.filter(sel);
      let bad2 = n.get() > bad as usize;
      if sel.is_empty() {
        return;
      }
      if bad {
        sx::check(found.is_empty(), "an invalid selector selects nothing");
        sx::check(kept.is_empty(), "an invalid selector keeps nothing");
        sx::reach("invalid");
      } else {
        let lead = sel.as_bytes().iter().find(|c| !c.is_ascii_whitespace() && **c != 0x0b);
        if !matches!(lead, Some(b'>') | Some(b'+') | Some(b'~')) && !sel.contains(',') {
          sx::check(kids(&found) == kids(&kept), "find and filter agree");
          sx::check(!bad2, "find and filter agree on validity");
        }
        let f = kids(&found);
        sx::check(f.windows(2).all(|w| w[0] < w[1]) && f.iter().all(|&e| e >= 1 && e <= 4), "result in document order without duplicates");
        sx::reach(if f.is_empty() { "nothing" } else { "something" });
      }
    }
    1 => {
      // every other entry point
      let set = all.slice(1..);
      set.children(sel);
      set.parent(sel);
      set.parents(sel);
      set.closest(sel);
      set.siblings(sel);
      set.next(sel);
      set.next_all(sel);
      set.prev_all(sel);
      set.next_until(sel, "", false);
      set.prev_until("y", sel, true);
      set.parents_until(sel, sel, true);
      let keeps = set.filter(sel).length();
      let nots = set.not(sel).length();
      let is = set.is(sel);
      let before = n.get();
      doc.find(sel);
      if n.get() == before && !sel.is_empty() {
        sx::check(keeps + nots == 3, "filter and not split the set");
        sx::check(is == (keeps > 0), "is means that filter keeps something");
      }
      set.is_all(sel);
      set.has(sel);
      sx::reach("entry points");
    }
    _ => {
      // on an empty set
      let set = Elements::new();
      let none = doc.find("zz");
      for s in [&set, &none] {
        sx::check(s.find(sel).is_empty() && s.filter(sel).is_empty() && s.children(sel).is_empty() && s.not(sel).is_empty(), "empty set");
        sx::check(s.closest(sel).is_empty() && s.siblings(sel).is_empty() && s.next_until(sel, "", false).is_empty(), "empty set");
        sx::check(s.parents_until("x", sel, false).is_empty() && s.has(sel).is_empty() && !s.is(sel), "empty set");
        sx::check(s.parent(sel).is_empty() && s.prev(sel).is_empty() && s.next_all(sel).is_empty(), "empty set");
      }
      sx::reach("empty set");
    }
  }
}
/// short strings of free characters
pub fn run() {
  crate::c02::warm();
  let n = if sx::thorough() { 4 } else { 3 };
  let n = 1 + sx::pick(n);
  let mut sel = String::new();
  for _ in 0..n {
    sel.push(sx::byte(b'\t', b'~') as char);
  }
  try_selector(&sel);
}
/// structured prefixes followed by free characters
pub fn forms() {
  crate::c02::warm();
  let k = sx::pick(16);
  let pre = [":not(", ":has(", "[a", "[a=", "[a='", ":nth-child(", ":nth-last-of-type(", ":contains(", ":contains('", ".a", "#a", ":not(:has(", "x:not(.a", ":c", ":nth-child(9223372036854775807", ":nth-last-child(-9223372036854775807n+922337203685477580"][k];
  let n = if sx::thorough() { 4 } else { 3 };
  let mut sel = String::from(pre);
  for _ in 0..sx::pick(n + 1) {
    let c = sx::among(b"a1x)]('\".#:, >*n-\\\x01");
    if c == 1 {
      sel.push('\u{e9}');
    } else {
      sel.push(c as char);
    }
  }
  try_selector(&sel);
}
