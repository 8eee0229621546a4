#![allow(dead_code)]
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c10;
mod c11;
mod c12;
mod c13;
mod c09;
mod c18;
mod c14;
mod c15;
mod c16;
mod c17;
mod c19;
mod c21;
mod c22;
mod c23;
mod big;
mod long;
mod model;
mod refsel;
mod sx;
mod tree;

macro_rules! props { ($($id:ident $f:path),* $(,)?) => {
  $(#[no_mangle] pub extern "C" fn $id() { $f() })*
  fn main() {
    let name = std::env::args().nth(1).unwrap_or_default();
    $(if name == stringify!($id) { $id(); return; })*
    std::process::exit(3);
  }
} }
props!(
  prop_c01 c01::run,
  prop_c01sub c01::subset,
  prop_c01long c01::long,
  prop_c02 c02::run,
  prop_c02ctx c02::ctx,
  prop_c02big big::find_,
  prop_c04big big::filter_,
  prop_c11big big::walks,
  prop_c12big big::sets,
  prop_c03 c03::classes,
  prop_c03id c03::ids,
  prop_c04 c04::run,
  prop_c04deep c04::deep,
  prop_c05 c05::run,
  prop_c06 c06::run,
  prop_c07 c07::run,
  prop_c08 c08::moves,
  prop_c08sets c08::sets,
  prop_c08html c08::html,
  prop_c08plain c08::plain,
  prop_c10 c10::run,
  prop_c10nodes c10::nodes,
  prop_c10tags c10::tags,
  prop_c11 c11::run,
  prop_c11until c11::until,
  prop_c11wide c11::wide,
  prop_c12 c12::run,
  prop_c12slice c12::slices,
  prop_c13 c13::run,
  prop_c13forms c13::forms,
  prop_c09 c09::run,
  prop_c09set c09::set,
  prop_c09plain c09::plain,
  prop_c09parts c09::parts,
  prop_c18 c18::run,
  prop_c18contains c18::contains,
  prop_c14 c14::run,
  prop_c15 c15::select,
  prop_c15inputs c15::inputs,
  prop_c16 c16::run,
  prop_c16sets c16::sets,
  prop_c17 c17::run,
  prop_c17apart c17::apart,
  prop_c17sets c17::sets,
  prop_c19 c19::run,
  prop_c19parts c19::parts,
  prop_c21 c21::run,
  prop_c01huge long::huge,
  prop_c03long long::classes,
  prop_c05long long::attrs,
  prop_c06many long::many_attrs,
  prop_c07long long::class_ops,
  prop_c08big long::moves,
  prop_c10long long::texts,
  prop_c15long long::options,
  prop_c16deep long::depths,
  prop_c20big long::closures,
  prop_c22 c22::run,
  prop_c23loading c23::loading,
  prop_c23unfinished c23::unfinished,
  prop_c23setting c23::setting,
  prop_c23moves c23::moves,
  prop_c22removal c22::removal,
  prop_c22attrs c22::attrs,
);
