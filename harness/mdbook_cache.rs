// The cache key: what a block's hash depends on, and lookups after updates.
use super::*;
use crate::block::AquascopeBlock;
#[allow(dead_code)] mod vs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/vs.rs")); }
use vs::*;

#[no_mangle] pub extern "C" fn vstub_hash() -> u64 { 0 }

/// Records what is fed to the hash function.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
  fn finish(&self) -> u64 { 0 }
  fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
fn text(max: usize) -> String {
  let n = pick(max + 1, "length");
  let mut v = vec![];
  for _ in 0..n { v.push(below(128, "c")); }
  unsafe { String::from_utf8_unchecked(v) }
}
fn any_block() -> AquascopeBlock {
  let ops = (0..pick(param(0, 2) as usize + 1, "operations")).map(|_| text(1)).collect();
  let config = (0..pick(param(1, 1) as usize + 1, "settings")).map(|_| (text(1), text(1))).collect();
  AquascopeBlock { operations: ops, config, code: text(param(2, 1) as usize), annotations: Default::default() }
}
fn same(a: &AquascopeBlock, b: &AquascopeBlock) -> bool {
  let s = |x: &String, y: &String| bytes_eq(x.as_bytes(), y.as_bytes());
  a.operations.len() == b.operations.len() && a.config.len() == b.config.len()
    && a.operations.iter().zip(&b.operations).fold(true, |r, (x, y)| r & s(x, y))
    & a.config.iter().zip(&b.config).fold(true, |r, (x, y)| r & s(&x.0, &y.0) & s(&x.1, &y.1)) & s(&a.code, &b.code)
}
/// params: the most operations, settings and bytes of code
/// Two blocks feed the same bytes to the hash exactly when operations, settings and code agree.
#[no_mangle] pub extern "C-unwind" fn h_cache_key() {
  let (a, b) = (any_block(), any_block());
  let (mut x, mut y) = (Rec::default(), Rec::default());
  a.hash(&mut x);
  b.hash(&mut y);
  let eq = same(&a, &b);
  check(eq == bytes_eq(&x.0, &y.0), "the cache key is exactly operations, settings and code");
  if eq { cover("equal blocks"); } else { cover("different blocks"); }
  std::mem::forget((a, b, x, y));
}
/// Lookups return the last value set for the key, for any sequence of updates and lookups on keys with distinct hashes.
#[no_mangle] pub extern "C-unwind" fn h_cache_map() {
  let mut c: Cache<u64, u64> = Cache { cache_file: unsafe { std::os::fd::FromRawFd::from_raw_fd(1000) }, cache: HashMap::default(), dirty: false, _key: PhantomData };
  let mut want: [Option<u64>; 3] = [None; 3];
  let mut changed = false;
  // what an earlier run saved
  for k in 0..2 { if any_bool("saved") { let v = any(64, "value"); c.cache.insert(hash(&(k as u64)), v); want[k] = Some(v); } }
  for _ in 0..param(0, 4) {
    let k = pick(3, "key");
    if any_bool("set") {
      let v = any(64, "value");
      c.set(k as u64, v);
      if want[k] != Some(v) { changed = true; }
      want[k] = Some(v);
      cover("set");
    } else {
      let g = c.get(&(k as u64)).copied();
      check(g.is_some() == want[k].is_some(), "a lookup hits exactly the keys that were set");
      if let (Some(x), Some(y)) = (g, want[k]) { check(x == y, "a lookup returns the value set last"); cover("hit"); } else { cover("miss"); }
    }
    check(c.dirty | !changed, "a changed cache is marked for saving");
  }
  std::mem::forget(c);
}
