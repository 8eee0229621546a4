//! Interface to the symbolic engine.  The engine implements these; natively
//! (replay) they are provided by sx_native.c, which reads recorded values.
extern "C" {
  fn sx_byte(lo: u8, hi: u8) -> u8;
  fn sx_pick(n: u32) -> u32;
  fn sx_assume_(c: u8);
  fn sx_fail_(p: *const u8, n: usize) -> !;
  fn sx_check_(c: u8, p: *const u8, n: usize);
  fn sx_reach_(p: *const u8, n: usize);
  fn sx_note_(p: *const u8, n: usize);
  fn sx_is_thorough() -> u8;
}
/// A symbolic byte in lo..=hi.
#[inline(never)]
pub fn byte(lo: u8, hi: u8) -> u8 {
  unsafe { sx_byte(lo, hi) }
}
/// A symbolic choice 0..n: the engine forks, one path per feasible value.
pub fn pick(n: usize) -> usize {
  unsafe { sx_pick(n as u32) as usize }
}
pub fn assume(c: bool) {
  unsafe { sx_assume_(c as u8) }
}
pub fn check(c: bool, msg: &str) {
  unsafe { sx_check_(c as u8, msg.as_ptr(), msg.len()) }
}
#[allow(dead_code)]
pub fn fail(msg: &str) -> ! {
  unsafe { sx_fail_(msg.as_ptr(), msg.len()) }
}
/// Vacuity witness: every label registered for a property must be reached.
pub fn reach(label: &str) {
  unsafe { sx_reach_(label.as_ptr(), label.len()) }
}
/// Attach a readable note to the current path (shown in counterexamples).
pub fn note(s: &str) {
  unsafe { sx_note_(s.as_ptr(), s.len()) }
}
pub fn thorough() -> bool {
  unsafe { sx_is_thorough() != 0 }
}
/// A symbolic byte out of a set.
#[inline(never)]
pub fn among(set: &'static [u8]) -> u8 {
  set[byte(0, set.len() as u8 - 1) as usize]
}
