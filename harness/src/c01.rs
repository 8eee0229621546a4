//! C01: `an+b` position selectors.
use crate::model::*;
use crate::sx;
use visdom::Vis;

fn num(s: &mut String, two: bool) -> i64 {
  if two {
    let a = sx::byte(b'1', b'9');
    let b = sx::byte(b'0', b'9');
    s.push(a as char);
    s.push(b as char);
    (a - b'0') as i64 * 10 + (b - b'0') as i64
  } else {
    let a = sx::byte(b'0', b'9');
    s.push(a as char);
    (a - b'0') as i64
  }
}
/// writes an `an+b` expression, returns (a, b)
fn anb(s: &mut String, thorough: bool) -> (i64, i64) {
  let forms = if thorough { 12 } else { 9 };
  let f = sx::pick(forms);
  let two = |x: bool| thorough && x;
  match f {
    0 => {
      s.push_str("odd");
      (2, 1)
    }
    1 => {
      s.push_str("even");
      (2, 0)
    }
    2 => {
      let b = num(s, false);
      (0, b)
    }
    3 => {
      s.push('-');
      let b = num(s, false);
      (0, -b)
    }
    4 => {
      let a = num(s, false);
      s.push('n');
      (a, 0)
    }
    5 => {
      s.push_str("n+");
      let b = num(s, false);
      (1, b)
    }
    6 => {
      s.push_str("-n + ");
      let b = num(s, false);
      (-1, b)
    }
    7 | 9 => {
      if f == 9 {
        s.push('+');
      }
      let a = num(s, two(f == 9));
      s.push('n');
      let neg = sx::pick(2) == 1;
      s.push(if neg { '-' } else { '+' });
      let b = num(s, false);
      (a, if neg { -b } else { b })
    }
    8 | 10 => {
      s.push('-');
      let a = num(s, false);
      s.push_str("n+");
      let b = num(s, two(f == 10));
      (-a, b)
    }
    _ => {
      s.push_str(" +");
      let b = num(s, true);
      s.push(' ');
      (0, b)
    }
  }
}
fn holds(a: i64, b: i64, pos: i64) -> bool {
  // exists k >= 0: a*k + b == pos, positions are below 12
  let mut r = false;
  for k in 0..22i64 {
    r |= a * k + b == pos;
  }
  r
}
pub fn run() {
  let warm = Vis::load("<div><p></p></div>").unwrap();
  warm.find("p:nth-child(2n + 1)");
  let th = sx::thorough();
  // shape: one parent with m children; one of them has two children of its own
  let m = 1 + sx::pick(if th { 6 } else { 4 });
  let mut d = Doc::new();
  let root = d.add(0, "div");
  let mut tags = vec![];
  for i in 0..m {
    let t = sx::byte(b'x', b'y');
    tags.push(t);
    let e = d.add(root, &(t as char).to_string());
    if i == 1 {
      d.n[e].before = "t".into();
      let c = d.add(e, "x");
      d.n[c].before = "s".into();
      d.add(e, "y");
      d.n[e].tail = "u".into();
    }
  }
  let kind = sx::pick(4);
  let name = [":nth-child(", ":nth-last-child(", ":nth-of-type(", ":nth-last-of-type("][kind];
  let mut sel = String::from(name);
  let (a, b) = anb(&mut sel, th);
  sel.push(')');
  let via = sx::pick(4);
  // which elements the selector is applied to
  let mut scope: Vec<usize> = vec![];
  let doc = Vis::load(d.html()).unwrap();
  let got;
  match via {
    0 => {
      sel = String::from("*") + &sel;
      sx::note(&sel);
      scope.extend(1..d.len());
      got = doc.find(&sel);
    }
    1 => {
      sel = String::from("x") + &sel;
      sx::note(&sel);
      for e in 1..d.len() {
        if d.n[e].tag == "x" {
          scope.push(e)
        }
      }
      got = doc.find(&sel);
    }
    2 => {
      sx::note(&sel);
      scope.extend(2..d.len());
      got = doc.find("div *").filter(&sel);
    }
    _ => {
      sx::note(&sel);
      scope.extend(d.n[root].kids.iter());
      got = doc.find("div").children(&sel);
    }
  }
  sx::note(&d.html());
  let mut want = vec![];
  for &e in &scope {
    let sib = d.sibs(e);
    let p = d.pos(e);
    let mut pos = 1;
    match kind {
      0 => pos += p as i64,
      1 => pos = (sib.len() - p) as i64,
      2 => {
        for i in 0..p {
          pos += (d.n[sib[i]].tag == d.n[e].tag) as i64;
        }
      }
      _ => {
        for i in p + 1..sib.len() {
          pos += (d.n[sib[i]].tag == d.n[e].tag) as i64;
        }
      }
    }
    if holds(a, b, pos) {
      want.push(e);
    }
  }
  same(&got, &want, "an+b selection differs");
  if want.is_empty() {
    sx::reach("selects nothing");
  } else {
    sx::reach("selects something");
  }
}

fn position(d: &Doc, e: usize, kind: usize) -> i64 {
  let sib = d.sibs(e);
  let p = d.pos(e);
  match kind {
    0 => p as i64 + 1,
    1 => (sib.len() - p) as i64,
    2 => 1 + (0..p).filter(|&i| d.n[sib[i]].tag == d.n[e].tag).count() as i64,
    _ => 1 + (p + 1..sib.len()).filter(|&i| d.n[sib[i]].tag == d.n[e].tag).count() as i64,
  }
}
const NAMES: [&str; 4] = [":nth-child(", ":nth-last-child(", ":nth-of-type(", ":nth-last-of-type("];
/// filter of any subset of the siblings
pub fn subset() {
  let warm = Vis::load("<div><p></p></div>").unwrap();
  warm.find("p:nth-child(2n + 1)");
  let th = sx::thorough();
  let kind = sx::pick(4);
  let m = if th { 5 } else { 4 };
  let mut d = Doc::new();
  for i in 0..m {
    let t = if kind < 2 { b'x' } else { sx::byte(b'x', b'y') };
    let e = d.add(0, &(t as char).to_string());
    if i == 1 {
      d.n[e].before = "t".into();
      d.add(e, "x");
    }
  }
  let mk = crate::refsel::marks(&mut d);
  let mut sel = String::from(NAMES[kind]);
  let (a, b) = match sx::pick(3) {
    0 => {
      let b = sx::byte(b'0', b'5');
      sel.push(b as char);
      (0, (b - b'0') as i64)
    }
    1 => {
      let a = sx::byte(b'0', b'3');
      sel.push(a as char);
      sel.push_str("n+");
      let b = sx::byte(b'0', b'4');
      sel.push(b as char);
      ((a - b'0') as i64, (b - b'0') as i64)
    }
    _ => {
      sel.push('-');
      let a = sx::byte(b'0', b'3');
      sel.push(a as char);
      sel.push_str("n+");
      let b = sx::byte(b'0', b'5');
      sel.push(b as char);
      (-((a - b'0') as i64), (b - b'0') as i64)
    }
  };
  sel.push(')');
  let html = d.html();
  sx::note(&sel);
  sx::note(&html);
  let doc = Vis::load(html).unwrap();
  let got = doc.find(crate::refsel::MARKED).filter(&sel);
  let want: Vec<usize> = (1..d.len()).filter(|&e| mk[e] && holds(a, b, position(&d, e, kind))).collect();
  same(&got, &want, "an+b on a subset");
  sx::reach(if want.is_empty() { "selects nothing" } else { "selects something" });
}
/// a long list and two-digit numbers
pub fn long() {
  let warm = Vis::load("<div><p></p></div>").unwrap();
  warm.find("p:nth-child(2n + 1)");
  let kind = sx::pick(4);
  let mut d = Doc::new();
  let root = d.add(0, "div");
  for i in 0..13 {
    d.add(root, if i % 5 == 3 { "y" } else { "x" });
  }
  let mut sel = String::from(NAMES[kind]);
  let (a, b) = match sx::pick(4) {
    0 => (0, num(&mut sel, true)),
    1 => {
      let a = num(&mut sel, true);
      sel.push_str("n-");
      (a, -num(&mut sel, false))
    }
    2 => {
      let a = num(&mut sel, false);
      sel.push_str("n +");
      (a, num(&mut sel, true))
    }
    _ => {
      sel.push('-');
      let a = num(&mut sel, false);
      sel.push_str("n+ ");
      (-a, num(&mut sel, true))
    }
  };
  sel.push(')');
  let html = d.html();
  sx::note(&sel);
  let doc = Vis::load(html).unwrap();
  let all = (2..d.len()).filter(|&e| {
    let pos = position(&d, e, kind);
    let mut r = false;
    for k in 0..100i64 {
      r |= a * k + b == pos;
    }
    r
  });
  let (got, want): (_, Vec<usize>) = match sx::pick(2) {
    0 => (doc.find("div").find(&sel), all.collect()),
    _ => {
      sel.insert(0, 'x');
      (doc.find(&sel), all.filter(|&e| d.n[e].tag == "x").collect())
    }
  };
  same(&got, &want, "an+b in a long list");
  sx::reach(if want.is_empty() { "selects nothing" } else { "selects something" });
}
