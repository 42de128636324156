// parse_all against a direct reading of the block grammar.
use super::*;
#[allow(dead_code)] mod vs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/vs.rs")); }
use vs::*;

#[no_mangle] pub extern "C" fn vstub_hash() -> u64 { 0 }

struct Want { from: usize, to: usize, ops: Vec<Vec<u8>>, config: Vec<(Vec<u8>, Vec<u8>)>, code: (usize, usize) }

fn sym_end(s: &[u8], mut p: usize) -> usize {
  while p < s.len() && s[p] != b',' && s[p] != b'=' && s[p] != b'\n' && s[p] != b'+' { p += 1; }
  p
}
fn starts(s: &[u8], p: usize, t: &[u8]) -> bool { p + t.len() <= s.len() && &s[p..p + t.len()] == t }
fn block(s: &[u8], from: usize) -> Option<Want> {
  let tag = b"```aquascope,";
  if !starts(s, from, tag) { return None; }
  let mut w = Want { from, to: 0, ops: vec![], config: vec![], code: (0, 0) };
  let mut p = from + tag.len();
  loop {
    let e = sym_end(s, p);
    w.ops.push(s[p..e].to_vec());
    p = e;
    if p < s.len() && s[p] == b'+' { p += 1; } else { break; }
  }
  while p < s.len() && s[p] == b',' {
    let e = sym_end(s, p + 1);
    let k = s[p + 1..e].to_vec();
    if e < s.len() && s[e] == b'=' { let f = sym_end(s, e + 1); w.config.push((k, s[e + 1..f].to_vec())); p = f; }
    else { w.config.push((k, b"true".to_vec())); p = e; }
  }
  let c = p;
  while p < s.len() && !starts(s, p, b"```") { p += 1; }
  if p >= s.len() { return None; }
  w.code = (c, p);
  w.to = p + 3;
  Some(w)
}
fn decide(s: Vec<u8>) {
  let text = unsafe { std::str::from_utf8_unchecked(&s) };
  let got = match catch(|| AquascopeBlock::parse_all(text)) { Some(g) => g, None => { fail("parse_all panics"); return; } };
  let mut n = 0;
  let mut p = 0;
  while p < s.len() {
    if let Some(w) = block(&s, p) {
      check(n < got.len(), "every block is found");
      let (r, b) = &got[n];
      check(r.start == w.from && r.end == w.to, "a block's range is its text");
      check(b.operations.len() == w.ops.len() && b.operations.iter().zip(&w.ops).all(|(x, y)| bytes_eq(x.as_bytes(), y)), "operations");
      check(b.config.len() == w.config.len() && b.config.iter().zip(&w.config).all(|(x, y)| bytes_eq(x.0.as_bytes(), &y.0) & bytes_eq(x.1.as_bytes(), &y.1)), "settings, in order");
      let code = unsafe { std::str::from_utf8_unchecked(&s[w.code.0..w.code.1]) }.trim();
      let (c, a) = crate::annotations::parse_annotations(code).unwrap();
      check(bytes_eq(c.as_bytes(), b.code.as_bytes()), "code without surrounding space or annotations");
      check(a == b.annotations, "annotations of the code");
      if w.config.len() > 0 { cover("setting"); }
      if w.ops.len() > 1 { cover("two operations"); }
      if c.len() > 0 { cover("code"); }
      if n > 0 { cover("second block"); }
      std::mem::forget((c, a));
      n += 1;
      p = w.to;
      std::mem::forget(w);
    } else { p += 1; }
  }
  check(n == got.len(), "nothing else is taken for a block");
  if n == 0 { cover("no block"); } else { cover("block"); }
  std::mem::forget((got, s));
}
fn sym(s: &mut Vec<u8>, n: u64, wide: bool) { for _ in 0..n { push_char(s, wide); } }
/// Any header and code text.
#[no_mangle] pub extern "C-unwind" fn h_block_one() {
  let mut s = vec![];
  sym(&mut s, param(1, 0), true);
  s.extend_from_slice(b"```aquascope");
  sym(&mut s, param(0, 3), false);
  s.extend_from_slice(b"```");
  sym(&mut s, param(2, 0), true);
  decide(s);
}
/// Settings and code around any characters of any width.
#[no_mangle] pub extern "C-unwind" fn h_block_code() {
  let mut s = vec![];
  sym(&mut s, 1, true);
  s.extend_from_slice(b"```aquascope,a");
  sym(&mut s, param(0, 1), true);
  s.extend_from_slice(b",k=v\n");
  sym(&mut s, param(1, 1), true);
  s.push(b'x');
  sym(&mut s, param(2, 1), true);
  s.extend_from_slice(b"```");
  sym(&mut s, 1, true);
  decide(s);
}
/// Two candidate blocks one after the other, with any one character of the first's frame replaced.
#[no_mangle] pub extern "C-unwind" fn h_block_two() {
  let mut s = b"a```aquascope,i\nb```".to_vec();
  let k = pick(s.len(), "where");
  s[k] = below(128, "c");
  sym(&mut s, param(0, 1), false);
  s.extend_from_slice(b"```aquascope,j,k\n```");
  decide(s);
}
