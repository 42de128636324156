// The interface between a harness and the symbolic executor. Under the executor these calls are intrinsics;
// in a replay they are ordinary functions that read a model's values (see replay.rs).
mod raw {
  extern "C" {
    pub fn vs_any(bits: u64, n: *const u8, l: usize) -> u64;
    pub fn vs_assume(c: bool);
    pub fn vs_assert(c: bool, n: *const u8, l: usize);
    pub fn vs_fail(n: *const u8, l: usize);
    pub fn vs_cover(n: *const u8, l: usize);
    pub fn vs_pick(k: u64, n: *const u8, l: usize) -> u64;
    pub fn vs_concretize(x: u64) -> u64;
    pub fn vs_param(i: u64, d: u64) -> u64;
    pub fn vs_catch(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> bool;
    pub fn vs_note(n: *const u8, l: usize, v: u64);
  }
}
/// Any value of the given number of bits.
pub fn any(bits: u64, n: &str) -> u64 { unsafe { raw::vs_any(bits, n.as_ptr(), n.len()) } }
pub fn any_bool(n: &str) -> bool { any(1, n) & 1 == 1 }
pub fn any_u8(n: &str) -> u8 { any(8, n) as u8 }
pub fn assume(c: bool) { unsafe { raw::vs_assume(c) } }
/// A value below k; one path per value.
pub fn pick(k: usize, n: &str) -> usize { unsafe { raw::vs_pick(k as u64, n.as_ptr(), n.len()) as usize } }
/// A value below k, kept symbolic.
pub fn below(k: u8, n: &str) -> u8 { let v = any_u8(n); assume(v < k); v }
pub fn check(c: bool, n: &str) { unsafe { raw::vs_assert(c, n.as_ptr(), n.len()) } }
pub fn fail(n: &str) { unsafe { raw::vs_fail(n.as_ptr(), n.len()) } }
pub fn cover(n: &str) { unsafe { raw::vs_cover(n.as_ptr(), n.len()) } }
pub fn concretize(x: u64) -> u64 { unsafe { raw::vs_concretize(x) } }
pub fn param(i: u64, d: u64) -> u64 { unsafe { raw::vs_param(i, d) } }
pub fn note(n: &str, v: u64) { unsafe { raw::vs_note(n.as_ptr(), n.len(), v) } }
/// Runs f; None if it panicked.
pub fn catch<T, F: FnOnce() -> T>(f: F) -> Option<T> {
  struct D<F, T> { f: Option<F>, r: Option<T> }
  extern "C-unwind" fn go<T, F: FnOnce() -> T>(d: *mut u8) {
    let d = unsafe { &mut *(d as *mut D<F, T>) };
    let f = d.f.take().unwrap();
    d.r = Some(f());
  }
  let mut d = D { f: Some(f), r: None };
  let bad = unsafe { raw::vs_catch(go::<T, F>, &mut d as *mut D<F, T> as *mut u8) };
  if bad { None } else { d.r }
}
/// Without branching: is the slice equal?
pub fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
  if a.len() != b.len() { return false; }
  let mut d = 0u8;
  let mut i = 0;
  while i < a.len() { d |= a[i] ^ b[i]; i += 1; }
  d == 0
}
/// A character of a symbolic string: ASCII, or (with wide) 2, 3 or 4 bytes long.
pub fn push_char(s: &mut Vec<u8>, wide: bool) {
  let k = if wide { pick(4, "width") } else { 0 };
  match k {
    0 => s.push(below(128, "c")),
    1 => { let a = any_u8("c"); assume(a >= 0xC2 && a <= 0xDF); s.push(a); cont(s); }
    2 => { let a = any_u8("c"); assume(a >= 0xE1 && a <= 0xEC); s.push(a); cont(s); cont(s); }
    _ => { let a = any_u8("c"); assume(a >= 0xF1 && a <= 0xF3); s.push(a); cont(s); cont(s); cont(s); }
  }
}
fn cont(s: &mut Vec<u8>) { let a = any_u8("c"); assume(a & 0xC0 == 0x80); s.push(a); }
