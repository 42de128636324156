// parse_annotations against a byte-level reading of the annotation syntax, for every text of the given shapes.
use super::*;
#[allow(dead_code)] mod vs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/vs.rs")); }
use vs::*;

#[no_mangle] pub extern "C" fn vstub_hash() -> u64 { 0 }

struct Want {
  out: Vec<u8>,
  hidden: Vec<usize>,
  interp: Vec<usize>,
  focus: Vec<usize>,
  bounds: Vec<usize>,
  paths: Vec<(usize, bool, Vec<u8>)>,
  markers: usize,
}

fn want(lines: &[Vec<u8>]) -> Want {
  let mut w = Want { out: vec![], hidden: vec![], interp: vec![], focus: vec![], bounds: vec![], paths: vec![], markers: 0 };
  for (i, l) in lines.iter().enumerate() {
    let no = i + 1;
    if i > 0 { w.out.push(b'\n'); }
    if l.len() >= 1 && l[0] == b'#' { w.hidden.push(no); w.out.extend_from_slice(&l[1..]); continue; }
    if l.len() >= 2 && l[0] == b'\\' && l[1] == b'#' { w.out.extend_from_slice(&l[1..]); continue; }
    let mut p = 0;
    while p < l.len() {
      if let Some((kind, end)) = marker(l, p) {
        w.markers += 1;
        let inner = &l[p + 2 .. end - 2];
        match kind {
          b'[' => w.interp.push(w.out.iter().filter(|b| **b & 0xC0 != 0x80).count()),
          b'{' => w.bounds.push(no),
          _ => config(inner, no, &mut w),
        }
        p = end;
      } else {
        w.out.push(l[p]);
        p += 1;
      }
    }
  }
  w
}
/// A marker starting at p: its kind and end.
fn marker(l: &[u8], p: usize) -> Option<(u8, usize)> {
  if p + 4 > l.len() || l[p] != b'`' { return None; }
  let k = l[p + 1];
  let close = if k == b'[' { b']' } else if k == b'(' { b')' } else if k == b'{' { b'}' } else { return None; };
  let mut q = p + 2;
  while q < l.len() && l[q] != close { q += 1; }
  if q + 1 < l.len() && l[q + 1] == b'`' { Some((k, q + 2)) } else { None }
}
fn config(s: &[u8], no: usize, w: &mut Want) {
  let (mut focus, mut lit, mut rx) = (false, None, None);
  let mut i = 0;
  while i <= s.len() {
    let mut j = i;
    while j < s.len() && s[j] != b',' { j += 1; }
    let e = &s[i..j];
    if !e.is_empty() {
      let mut c = 0;
      while c < e.len() && e[c] != b':' { c += 1; }
      let (k, v) = if c < e.len() { (&e[..c], &e[c + 1..]) } else { (e, &e[e.len()..]) };
      if k == b"focus" { focus = true; }
      if k == b"paths" { lit = Some(v.to_vec()); }
      if k == b"rxpaths" { rx = Some(v.to_vec()); }
    }
    i = j + 1;
  }
  if focus { w.focus.push(no); }
  if let Some(v) = lit { w.paths.push((no, false, v)); }
  if let Some(v) = rx { w.paths.push((no, true, v)); }
}

fn decide(lines: Vec<Vec<u8>>) {
  let mut code = vec![];
  for (i, l) in lines.iter().enumerate() { if i > 0 { code.push(b'\n'); } code.extend_from_slice(l); }
  let text = unsafe { std::str::from_utf8_unchecked(&code) };
  let r = match catch(|| parse_annotations(text)) { Some(r) => r, None => { fail("parse_annotations panics"); return; } };
  let (out, a) = match r { Ok(x) => x, Err(e) => { std::mem::forget(e); fail("parse_annotations refuses a text"); return; } };
  let w = want(&lines);
  check(bytes_eq(out.as_bytes(), &w.out), "cleaned code is the text without its annotations");
  check(a.hidden_lines.iter().map(|l| l.0).eq(w.hidden.iter().copied()), "hidden lines");
  check(a.boundaries.focused_lines.iter().map(|l| l.0).eq(w.bounds.iter().copied()), "boundary lines");
  check(a.stepper.focused_lines.iter().map(|l| l.0).eq(w.focus.iter().copied()), "focused lines");
  check(a.interp.state_locations.len() == w.interp.len(), "one state location per marker");
  for (x, y) in a.interp.state_locations.iter().zip(&w.interp) { check(x.0 == *y, "state locations are character positions in the cleaned code"); }
  let mut n = 0;
  for no in 1..=lines.len() {
    let want: Vec<_> = w.paths.iter().filter(|p| p.0 == no).collect();
    let got = a.stepper.focused_paths.get(&MdLinePos(no));
    check(got.map_or(0, |g| g.len()) == want.len(), "path matchers of a line");
    if let Some(g) = got {
      n += 1;
      for (g, q) in g.iter().zip(want) {
        let (rx, s) = match g { PathMatcher::Literal(s) => (false, s), PathMatcher::Regex(s) => (true, s) };
        check(rx == q.1 && bytes_eq(s.as_bytes(), &q.2), "path matcher");
      }
    }
  }
  check(a.stepper.focused_paths.len() == n, "no path matchers for other lines");
  if w.interp.len() > 0 { cover("state location"); }
  if w.bounds.len() > 0 { cover("boundary line"); }
  if w.focus.len() > 0 { cover("focused line"); }
  if w.paths.len() > 0 { cover("path matcher"); }
  if w.hidden.len() > 0 { cover("hidden line"); }
  if w.markers == 0 { cover("no marker"); }
  if w.markers > 1 { cover("two markers"); }
  if w.out.iter().any(|b| *b >= 128) { cover("wide character"); }
  std::mem::forget((out, a, w, code));
}
fn sym(s: &mut Vec<u8>, n: usize, wide: bool) {
  for _ in 0..n {
    push_char(s, wide);
    let b = s[s.len() - 1];
    assume(b != b'\n');
    assume(b != b'\r');
  }
}
/// One line of any n ASCII characters.
#[no_mangle] pub extern "C-unwind" fn h_annot_line() {
  let mut l = vec![];
  sym(&mut l, param(0, 6) as usize, false);
  decide(vec![l]);
}
/// Like sym, with characters up to U+FFFF: there, character counts and the editor's UTF-16 counts agree.
fn sym_wide(s: &mut Vec<u8>) {
  let k = s.len();
  sym(s, 1, true);
  assume(s.len() - k < 4);
}
/// Two lines, each with a marker of any kind around characters of any width.
#[no_mangle] pub extern "C-unwind" fn h_annot_wide() {
  let mut ls = vec![];
  for _ in 0..2 {
    let mut l = vec![];
    if ls.is_empty() { for _ in 0..param(0, 1) { sym_wide(&mut l); } } else { sym(&mut l, param(1, 1) as usize, false); }
    let k = any_u8("kind");
    assume(k == b'[' || k == b'(' || k == b'{');
    l.push(b'`'); l.push(k);
    let c = any_u8("close");
    assume(c == b']' || c == b')' || c == b'}');
    l.push(c); l.push(b'`');
    if ls.is_empty() { sym_wide(&mut l); }
    ls.push(l);
  }
  decide(ls);
}
/// Stepper configuration: any settings text of the given shape (without ` and `)`, which h_annot_line covers).
#[no_mangle] pub extern "C-unwind" fn h_annot_config() {
  let mut l = b"x`(".to_vec();
  let inner = |l: &mut Vec<u8>, n: usize| { let k = l.len(); sym(l, n, false); for b in &l[k..] { assume(*b != b'`' && *b != b')'); } };
  for i in 0..param(0, 2) {
    if i > 0 { l.push(b','); }
    match pick(4, "setting") {
      0 => { l.extend_from_slice(b"focu"); inner(&mut l, 1); }
      1 => { l.extend_from_slice(b"paths"); inner(&mut l, 2); }
      2 => { l.extend_from_slice(b"rxpaths"); inner(&mut l, 2); }
      _ => inner(&mut l, 2),
    }
  }
  l.extend_from_slice(b")`y");
  decide(vec![b"a".to_vec(), l]);
}
/// Lines of any ASCII characters before one with a marker: where it is depends on all of them.
/// params: characters of each of these lines
#[no_mangle] pub extern "C-unwind" fn h_annot_lines() {
  let mut ls = vec![];
  for i in 0..2 {
    let mut l = vec![];
    sym(&mut l, param(i, 2) as usize, false);
    ls.push(l);
  }
  ls.push(b"x`[]`y".to_vec());
  decide(ls);
}
/// Two markers of any kind, the first with an interior, on one line between any characters.
#[no_mangle] pub extern "C-unwind" fn h_annot_two() {
  let mut l = vec![];
  for i in 0..2 {
    sym(&mut l, param(0, 1) as usize, false);
    let k = [b"[]", b"()", b"{}"][pick(3, "kind")];
    l.push(b'`'); l.push(k[0]);
    if i == 0 { sym(&mut l, param(1, 1) as usize, false); }
    l.push(k[1]); l.push(b'`');
  }
  sym(&mut l, param(0, 1) as usize, false);
  decide(vec![b"a".to_vec(), l, b"z".to_vec()]);
}
