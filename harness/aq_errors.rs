// The diagnostics of the body under analysis.
use super::*;
#[allow(dead_code)] mod vs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/vs.rs")); }
#[cfg(aquascope_stubs = "aq_errors")] mod stubs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_stubs.rs")); }
use vs::*;
use rustc_span::{BytePos, SyntaxContext};
use std::mem::MaybeUninit;

fn def(i: u8) -> LocalDefId { LocalDefId { local_def_index: rustc_span::def_id::DefIndex::from_u32(i as u32) } }
fn span(lo: u8, len: u8) -> Span { Span::new(BytePos(100 + lo as u32), BytePos(100 + lo as u32 + len as u32), SyntaxContext::root(), None) }
/// What the compiler does with a diagnostic; returns whether it went on to the compiler's own handler.
fn report(error: bool, s: Span, code: bool) -> bool {
  let mut d = vx_one_diag(error);
  let mut on = false;
  d.code = if code { Some(rustc_errors::codes::E0502) } else { None };
  d.sort_span = s;
  track_diagnostic(d, &mut |d| { on = d.sort_span == s; std::mem::forget(d); });
  on
}
/// A diagnostic: the compiler's own in replays.
#[inline(never)] #[no_mangle] pub fn vx_one_diag(error: bool) -> DiagInner {
  DiagInner::new(if error { rustc_errors::Level::Error } else { rustc_errors::Level::Note }, "")
}
static mut IS_ERROR: bool = false;
#[no_mangle] pub fn vstub_one_diag(error: bool) -> DiagInner {
  unsafe { IS_ERROR = error; MaybeUninit::zeroed().assume_init() }
}
/// `DiagInner::is_error`.
#[no_mangle] pub fn vstub_is_error(_: &DiagInner) -> bool { unsafe { IS_ERROR } }
/// For the other harnesses: the body is analysed, with an error at the span or none.
#[no_mangle] pub fn vx_diagnostics(def_id: LocalDefId, error: Option<Span>) {
  track_body_diagnostics(def_id);
  if let Some(s) = error { report(true, s, true); }
}

/// params: steps
#[no_mangle] pub extern "C-unwind" fn h_errors() {
  let n = param(0, 3) as usize;
  let mut body = below(3, "body");
  track_body_diagnostics(def(body));
  let mut errors: Vec<(u8, u8)> = vec![];
  for _ in 0..n {
    if pick(2, "step") == 0 {
      body = below(3, "body");
      track_body_diagnostics(def(body));
      errors.clear();
      cover("next body");
    } else {
      let error = any_bool("error");
      let (lo, len) = (below(16, "start"), below(4, "length"));
      check(report(error, span(lo, len), any_bool("code")), "a diagnostic is handed on as it is");
      if error { errors.push((lo, len)); cover("error"); } else { cover("no error"); }
    }
  }
  let got = get_span_of_first_error(def(body));
  check(got.is_some() == !errors.is_empty(), "there is a first error exactly if the body has an error");
  let Some(s) = got else { cover("none"); return };
  let (mut first, mut one) = (true, false);
  for (lo, len) in &errors {
    first &= s.lo().0 <= 100 + *lo as u32;
    one |= (s.lo().0 == 100 + *lo as u32) & (s.hi().0 == 100 + *lo as u32 + *len as u32);
  }
  check(one, "the first error is one of the body's");
  check(first, "no error of the body begins before the first");
  cover("first");
}
