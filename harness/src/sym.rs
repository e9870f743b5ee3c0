//! The interface to the symbolic executor. In the IR these are external functions the
//! executor implements; in the native replay binary they are ordinary functions that read
//! a recorded model.

unsafe extern "C" {
  fn sym_bytes(p: *mut u8, n: usize);
  fn sym_assume(c: bool);
  fn sym_assert(c: bool, id: *const u8, n: usize);
  fn sym_fail(id: *const u8, n: usize);
  fn sym_cover(id: *const u8, n: usize);
  fn sym_out(x: u64);
  fn sym_note(p: *const u8, n: usize);
  fn sym_stub(flags: u32);
  fn sym_limit(max_alloc: u64);
  fn sym_concretize(x: u64) -> u64;
}

/// `core::fmt::write` does nothing (error texts are not observed).
pub const FMT: u32 = 1;
/// All hash values are 0 (fixes the order of hash maps).
pub const HASH: u32 = 2;
/// `core::str::from_utf8` by its summary (checked by the entry `u_utf8`).
pub const UTF8: u32 = 4;

pub fn stub(flags: u32) {
  unsafe { sym_stub(flags) }
}
/// `N` unconstrained bytes.
#[inline(never)]
pub fn bytes<const N: usize>() -> [u8; N] {
  let mut b = [0u8; N];
  unsafe { sym_bytes(b.as_mut_ptr(), N) }
  b
}
pub fn u8() -> u8 {
  bytes::<1>()[0]
}
pub fn i32() -> i32 {
  i32::from_le_bytes(bytes::<4>())
}
pub fn assume(c: bool) {
  unsafe { sym_assume(c) }
}
pub fn check(c: bool, id: &str) {
  unsafe { sym_assert(c, id.as_ptr(), id.len()) }
}
pub fn fail(id: &str) {
  unsafe { sym_fail(id.as_ptr(), id.len()) }
}
/// Marks a situation a check has to reach (otherwise it would be vacuous).
pub fn cover(id: &str) {
  unsafe { sym_cover(id.as_ptr(), id.len()) }
}
pub fn out(x: u64) {
  unsafe { sym_out(x) }
}
/// Splits into one path per value of `x`.
pub fn conc(x: u64) -> u64 {
  unsafe { sym_concretize(x) }
}
/// A value below `n`, one path per value.
pub fn choose(n: u8) -> usize {
  let x = u8();
  assume(x < n);
  conc(x as u64) as usize
}
/// No single allocation may be larger than this from here on.
pub fn limit(max_alloc: u64) {
  unsafe { sym_limit(max_alloc) }
}
/// The message under test (for the reader of a replay; nothing in the executor).
pub fn note(b: &[u8]) {
  unsafe { sym_note(b.as_ptr(), b.len()) }
}
