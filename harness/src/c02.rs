//! C02: searching with tags and combinators (document and nested contexts).
use crate::model::*;
use crate::refsel::*;
use crate::sx;
use visdom::Vis;

pub fn warm() {
  let w = Vis::load("<div><p></p></div>").unwrap();
  w.find("p > p");
}
/// tags and combinators from the document
pub fn run() {
  warm();
  let th = sx::thorough();
  let form = sx::pick(if th { 6 } else { 5 });
  let n = match form {
    0 => 4,
    1 => if th { 6 } else { 5 },
    _ => 5,
  };
  let mut d = forest(n, n);
  mixed(&mut d);
  let one = |c: Comp| Cpx { parts: vec![(Cmb::Desc, c)] };
  let g: Vec<Cpx> = match form {
    0 => vec![one(tagc()), one(tagc())],
    1 => vec![Cpx { parts: vec![(Cmb::Desc, tagc()), (comb(), tagc())] }],
    2 => {
      let a = tagc();
      vec![Cpx { parts: vec![(Cmb::Desc, a), (comb(), tagc()), (comb(), star())] }]
    }
    3 => {
      let a = tagc();
      vec![Cpx { parts: vec![(Cmb::Desc, a), (comb(), tagc())] }, one(tagc())]
    }
    4 => vec![Cpx { parts: vec![(Cmb::Desc, star()), (comb(), tagc()), (comb(), tagc())] }],
    _ => vec![Cpx { parts: vec![(Cmb::Desc, tagc()), (comb(), star()), (comb(), star()), (comb(), tagc())] }],
  };
  let sel = print_group(&g, form % 2 == 0);
  let doc = Vis::load(d.html()).unwrap();
  sx::note(&sel);
  sx::note(&d.html());
  let got = doc.find(&sel);
  let want = find(&g, &d, &[0]);
  same(&got, &want, "find from the document");
  sx::reach(if want.is_empty() { "none" } else if want.len() > 1 { "several" } else { "one" });
}
/// context sets: find(A).find(B C D)
pub fn ctx() {
  warm();
  let th = sx::thorough();
  let n = if th { 6 } else { 5 };
  let mut d = forest(n, n);
  mixed(&mut d);
  let c = vec![Cpx { parts: vec![(Cmb::Desc, tagc())] }];
  let g = match sx::pick(4) {
    0 => vec![Cpx { parts: vec![(Cmb::Desc, tagc())] }],
    1 => vec![Cpx { parts: vec![(Cmb::Desc, tagc()), (comb(), star())] }],
    2 => vec![Cpx { parts: vec![(Cmb::Desc, star()), (comb(), tagc())] }],
    _ => vec![Cpx { parts: vec![(Cmb::Desc, tagc())] }, Cpx { parts: vec![(Cmb::Desc, star()), (comb(), tagc())] }],
  };
  let doc = Vis::load(d.html()).unwrap();
  let s1 = print_group(&c, false);
  let s2 = print_group(&g, false);
  sx::note(&s1);
  sx::note(&s2);
  sx::note(&d.html());
  let ctxs = find(&c, &d, &[0]);
  let got = doc.find(&s1).find(&s2);
  let want = find(&g, &d, &ctxs);
  same(&got, &want, "find from a set");
  sx::reach(if ctxs.is_empty() { "empty ctx" } else if want.len() > 1 { "several" } else { "few" });
}
