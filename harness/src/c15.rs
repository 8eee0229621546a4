//! C15: values of form controls and :checked.
use crate::model::*;
use crate::sx;
use visdom::types::*;
use visdom::Vis;

struct O {
  value: Option<String>,
  selected: bool,
  /// a child of the select itself
  direct: bool,
}
fn single(v: IFormValue, want: &str, what: &str) {
  match v {
    IFormValue::Single(s) => {
      if s != want {
        sx::note(&("got ".to_string() + &s));
        sx::note(&("want ".to_string() + want));
        sx::fail(what);
      }
    }
    IFormValue::Multiple(_) => sx::fail("one value expected"),
  }
}
/// select with options and option groups
pub fn select() {
  crate::c02::warm();
  let th = sx::thorough();
  let n = if th { 6 } else { 5 };
  let multiple = sx::pick(2) == 1;
  let mut h = String::from(if multiple { "<p><select k=\"00\" multiple>" } else { "<p><SELECT k=\"00\">" });
  let mut os: Vec<O> = vec![];
  let mut open = 0;
  for i in 0..n {
    // an option, the start or the end of a group
    match sx::pick(3) {
      1 if open < 2 => {
        h.push_str("<optgroup k=\"99\">");
        open += 1;
      }
      2 if open > 0 => {
        h.push_str("</optgroup>t");
        open -= 1;
      }
      0 => {
        h.push_str("<option k=\"0");
        h.push((b'1' + i as u8) as char);
        h.push('"');
        let sel = sx::pick(2) == 1;
        let value = if sx::pick(2) == 1 { Some(crate::refsel::chr(sx::byte(b'a', b'z'))) } else { None };
        if let Some(v) = &value {
          h.push_str(" value=\"");
          h.push_str(v);
          h.push('"');
        }
        if sel {
          h.push_str(" selected");
        }
        h.push_str(">t</option>");
        os.push(O { value, selected: sel, direct: open == 0 });
      }
      _ => sx::assume(false),
    }
  }
  for _ in 0..open {
    h.push_str("</optgroup>");
  }
  h.push_str("</select></p>");
  sx::note(&h);
  let doc = Vis::load(h).unwrap();
  let s = doc.find("select");
  sx::check(s.length() == 1, "select");
  let opts = doc.find("option");
  sx::check(opts.length() == os.len(), "options");
  // a change by the attribute interface counts as well
  if !os.is_empty() && sx::pick(2) == 1 {
    let i = sx::pick(os.len());
    let mut o = opts.eq(i);
    if os[i].selected {
      o.remove_attr("selected");
    } else {
      o.set_attr("selected", None);
    }
    os[i].selected = !os[i].selected;
    sx::note("toggled");
  }
  let val = |o: &O| o.value.clone().unwrap_or_default();
  let chosen: Vec<usize> = (0..os.len()).filter(|&i| os[i].selected).collect();
  let default = os.iter().position(|o| o.direct);
  let mut checked = chosen.clone();
  if multiple {
    match s.val() {
      IFormValue::Multiple(v) => {
        let want: Vec<String> = chosen.iter().map(|&i| val(&os[i])).collect();
        sx::check(v == want, "values of a multiple select");
      }
      IFormValue::Single(_) => sx::fail("list of values expected"),
    }
    sx::reach("multiple");
  } else {
    match (chosen.first(), default) {
      (Some(&i), _) => {
        single(s.val(), &val(&os[i]), "value of the selected option");
        sx::reach("selected");
      }
      (None, Some(i)) => {
        single(s.val(), &val(&os[i]), "value of the default option");
        checked.push(i);
        sx::reach("default");
      }
      _ => {
        single(s.val(), "", "value without option");
        sx::reach("nothing");
      }
    }
  }
  let want: Vec<usize> = checked.iter().map(|&i| kid(opts.get(i).unwrap())).collect();
  same(&doc.find(":checked"), &want, "find :checked");
  same(&opts.filter(":checked"), &want, "filter :checked");
  for (i, o) in os.iter().enumerate() {
    single(opts.eq(i).val(), &val(o), "value of an option");
  }
}
/// input, textarea and other elements, the first of a set counts
pub fn inputs() {
  crate::c02::warm();
  let th = sx::thorough();
  let mut h = String::new();
  let mut vals: Vec<String> = vec![];
  let mut checked = vec![];
  let n = if th { 5 } else { 4 };
  for i in 0..n {
    let c = crate::refsel::chr(sx::byte(b'a', b'z'));
    let k = " k=\"0".to_string() + &crate::refsel::chr(b'0' + i as u8) + "\"";
    match sx::pick(8) {
      0 => {
        h.push_str(&("<input".to_string() + &k + " value=\"" + &c + "\">"));
        vals.push(c);
      }
      1 => {
        h.push_str(&("<INPUT".to_string() + &k + " type=CheckBox checked VALUE='" + &c + "'>"));
        vals.push(c);
        checked.push(i);
      }
      2 => {
        h.push_str(&("<input".to_string() + &k + " type=radio value>"));
        vals.push(String::new());
      }
      3 => {
        h.push_str(&("<textarea".to_string() + &k + ">" + &c + "&lt;</textarea>"));
        vals.push(c + "<");
      }
      4 => {
        h.push_str(&("<p".to_string() + &k + " value=\"" + &c + "\">" + &c + "</p>"));
        vals.push(String::new());
      }
      5 => {
        h.push_str(&("<input".to_string() + &k + " type=radio checked=\"" + &c + "\"/>"));
        vals.push(String::new());
        checked.push(i);
      }
      6 => {
        h.push_str(&("<option".to_string() + &k + " selected value=\"" + &c + "\"></option>"));
        vals.push(c);
        checked.push(i);
      }
      _ => {
        h.push_str(&("<input".to_string() + &k + " checked value=\"q\">"));
        vals.push("q".to_string());
      }
    }
  }
  sx::note(&h);
  let doc = Vis::load(h).unwrap();
  let all = doc.find("*");
  sx::check(all.length() == n, "elements");
  for i in 0..n {
    single(all.slice(i..).val(), &vals[i], "value");
  }
  single(all.slice(n..).val(), "", "value of nothing");
  let want: Vec<usize> = checked;
  same(&doc.find(":checked"), &want, "find :checked");
  sx::reach(if want.is_empty() { "none" } else { "some" });
}
