// Native counterparts of the executor's intrinsics: values come from the file named by the first argument, one number per line.
use std::cell::RefCell;
use std::io::Write;
thread_local! { static VALS: RefCell<(Vec<u128>, usize)> = RefCell::new((vec![], 0)); static PARAMS: RefCell<Vec<u64>> = RefCell::new(vec![]); }
fn next() -> u64 { VALS.with(|v| { let mut v = v.borrow_mut(); let i = v.1; v.1 += 1; v.0.get(i).copied().unwrap_or(0) as u64 }) }
fn s(n: *const u8, l: usize) -> String { unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(n, l)).into_owned() } }
fn out(k: &str, t: &str) { println!("{k} {t}"); let _ = std::io::stdout().flush(); }
#[no_mangle] pub extern "C" fn vs_any(bits: u64, _n: *const u8, _l: usize) -> u64 { let v = next(); if bits >= 64 { v } else { v & ((1 << bits) - 1) } }
#[no_mangle] pub extern "C" fn vs_assume(c: bool) { if !c { out("REPLAY-ASSUME", ""); std::process::exit(4); } }
#[no_mangle] pub extern "C" fn vs_assert(c: bool, n: *const u8, l: usize) { if !c { out("REPLAY-VIOLATION", &s(n, l)); std::process::exit(1); } }
#[no_mangle] pub extern "C" fn vs_fail(n: *const u8, l: usize) { vs_assert(false, n, l) }
#[no_mangle] pub extern "C" fn vs_cover(n: *const u8, l: usize) { out("REPLAY-COVER", &s(n, l)); }
#[no_mangle] pub extern "C" fn vs_pick(k: u64, _n: *const u8, _l: usize) -> u64 { if k == 0 { std::process::exit(4); } let v = next(); if v >= k { out("REPLAY-ASSUME", "pick"); std::process::exit(4); } v }
#[no_mangle] pub extern "C" fn vs_concretize(x: u64) -> u64 { x }
#[no_mangle] pub extern "C" fn vs_param(i: u64, d: u64) -> u64 { PARAMS.with(|p| p.borrow().get(i as usize).copied().unwrap_or(d)) }
#[no_mangle] pub extern "C" fn vs_note(n: *const u8, l: usize, v: u64) { out("REPLAY-NOTE", &format!("{} {v}", s(n, l))); }
#[no_mangle] pub extern "C" fn vs_catch(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> bool {
  struct P(extern "C-unwind" fn(*mut u8), *mut u8);
  let p = P(f, d);
  let p = std::panic::AssertUnwindSafe(p);
  std::panic::catch_unwind(move || { let p = p; (p.0.0)(p.0.1) }).is_err()
}
extern "C-unwind" { fn ENTRY(); }
fn main() {
  let mut a = std::env::args().skip(1);
  let f = a.next().expect("model file");
  let v = std::fs::read_to_string(f).expect("read").split_whitespace().map(|x| x.parse().unwrap()).collect();
  VALS.with(|x| *x.borrow_mut() = (v, 0));
  PARAMS.with(|p| *p.borrow_mut() = a.map(|x| x.parse().unwrap()).collect());
  std::panic::set_hook(Box::new(|i| { out("REPLAY-PANIC", &i.to_string().replace('\n', " ")); }));
  let r = std::panic::catch_unwind(|| unsafe { ENTRY() });
  match r { Ok(()) => { out("REPLAY-OK", ""); std::process::exit(0) } Err(_) => { out("REPLAY-VIOLATION", "panic"); std::process::exit(1) } }
}
