// parse_perms against a direct reading of the @Perm syntax.
use super::*;
#[allow(dead_code)] mod vs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/vs.rs")); }
use vs::*;

#[no_mangle] pub extern "C" fn vstub_hash() -> u64 { 0 }

const NAMES: [(&str, &str); 4] = [("read", "R"), ("write", "W"), ("own", "O"), ("flow", "F")];

enum Want { Html(usize, usize, String), Bad }

/// The reference starting at p: its end, option text and permission text.
fn at(s: &[u8], p: usize) -> Option<(usize, Option<(usize, usize)>, (usize, usize))> {
  if p + 5 > s.len() || &s[p..p + 5] != b"@Perm" { return None; }
  let mut q = p + 5;
  let mut opt = None;
  if q < s.len() && s[q] == b'[' {
    let mut e = q + 1;
    while e < s.len() && s[e] != b']' { e += 1; }
    if e >= s.len() { return None; }
    opt = Some((q + 1, e));
    q = e + 1;
  }
  if q >= s.len() || s[q] != b'{' { return None; }
  let mut e = q + 1;
  while e < s.len() && s[e] != b'}' { e += 1; }
  if e >= s.len() { return None; }
  Some((e + 1, opt, (q + 1, e)))
}
fn html(opt: Option<&[u8]>, perm: &[u8]) -> Option<String> {
  let (name, letter) = *NAMES.iter().find(|n| n.0.as_bytes() == perm)?;
  let inner = ["<span class=\"perm ", name, "\">", letter, "</span>"].concat();
  match opt {
    None => Some(inner),
    Some(b"gained") => Some(["<span><span class=\"perm-diff-add\">+</span>", &inner, "</span>"].concat()),
    Some(b"lost") => Some(["<span class=\"perm-diff-sub-container\"><div class=\"perm-diff-sub\"></div>", &inner, "</span>"].concat()),
    Some(b"missing") => Some(["<span class=\"perm missing ", name, "\">", letter, "</span>"].concat()),
    _ => None,
  }
}
fn decide(s: Vec<u8>) {
  let text = unsafe { std::str::from_utf8_unchecked(&s) };
  let mut want = vec![];
  let mut p = 0;
  while p < s.len() {
    if let Some((e, o, q)) = at(&s, p) {
      if o.is_some() { cover("option"); }
      match html(o.map(|o| &s[o.0..o.1]), &s[q.0..q.1]) {
        Some(h) => { if o.is_some() { cover("valid option"); } want.push(Want::Html(p, e, h)) }
        None => { cover("invalid"); want.push(Want::Bad) }
      }
      p = e;
    } else { p += 1; }
  }
  let got: Vec<Result<Replacement>> = match catch(|| parse_perms(text).collect()) { Some(g) => g, None => { fail("parse_perms panics"); return; } };
  check(got.len() == want.len(), "one replacement per reference");
  for (g, w) in got.iter().zip(&want) {
    match (g, w) {
      (Ok((r, h)), Want::Html(a, b, x)) => {
        check(r.start == *a && r.end == *b, "the replaced range is the reference");
        check(bytes_eq(h.as_bytes(), x.as_bytes()), "the markup of the permission");
        cover("valid");
      }
      (Err(_), Want::Bad) => {}
      (Ok(_), _) => fail("an unknown permission or option is accepted"),
      (Err(_), _) => fail("a valid reference is refused"),
    }
  }
  if want.is_empty() { cover("none"); }
  if want.len() > 1 { cover("two"); }
  std::mem::forget((got, want, s));
}
fn sym(s: &mut Vec<u8>, n: u64, wide: bool) { for _ in 0..n { push_char(s, wide); } }

/// A permission name with some characters replaced, any text around it.
#[no_mangle] pub extern "C-unwind" fn h_perm_name() {
  let mut s = vec![];
  sym(&mut s, param(1, 1), true);
  s.extend_from_slice(b"@Perm{");
  let k = pick(NAMES.len(), "name");
  let at = s.len();
  s.extend_from_slice(NAMES[k].0.as_bytes());
  for i in 0..param(0, 2) as usize { s[at + i] = below(128, "c"); }
  s.extend_from_slice(b"}");
  sym(&mut s, param(2, 0), true);
  decide(s);
}
/// Any characters where the option would be.
#[no_mangle] pub extern "C-unwind" fn h_perm_option() {
  let mut s = b"@Perm".to_vec();
  match pick(5, "shape") {
    0 => sym(&mut s, param(0, 3), false),
    k => {
      s.extend_from_slice([&b"[gained]"[..], b"[lost]", b"[missing]", b"[x]"][k - 1]);
      let i = pick(s.len() - 5, "where");
      s[5 + i] = below(128, "c");
    }
  }
  s.extend_from_slice(b"{own}");
  decide(s);
}
/// Two references with any characters between them.
#[no_mangle] pub extern "C-unwind" fn h_perm_two() {
  let mut s = b"@Perm{read}".to_vec();
  let i = pick(s.len(), "where");
  s[i] = below(128, "c");
  sym(&mut s, param(0, 1), true);
  s.extend_from_slice(b"@Perm[lost]{flow}");
  decide(s);
}
