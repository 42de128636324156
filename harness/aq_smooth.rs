// Where loans and moves are in effect in the source.
use super::*;
#[allow(dead_code)] mod vs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/vs.rs")); }
#[allow(dead_code)] mod body { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_body.rs")); }
#[allow(dead_code)] mod ctx { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_ctxt.rs")); }
#[cfg(aquascope_stubs = "aq_smooth")] mod stubs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_stubs.rs")); }
use vs::*;
use ctx::{borrow, borrows, ctxt, leak, loan, locals, mp, pt};
use body::{Kind, Term};
use polonius_engine::AllFacts;
use rustc_middle::mir::{BasicBlock, BorrowKind, Location, Operand, Rvalue, StatementKind};
use rustc_mir_dataflow::move_paths::MoveOut;
use rustc_span::{BytePos, SyntaxContext};
use std::mem::MaybeUninit;

const BASE: u32 = 100;
#[derive(Clone, Copy)]
struct S { lo: u8, hi: u8 }
impl S {
  fn span(self) -> Span { Span::new(BytePos(BASE + self.lo as u32), BytePos(BASE + self.hi as u32), SyntaxContext::root(), None) }
  fn covers(self, x: u8) -> bool { (self.lo <= x) & (x < self.hi) }
  fn empty(self) -> bool { self.lo == self.hi }
}
fn any_span(empty: bool) -> S {
  let s = S { lo: below(16, "start"), hi: below(16, "end") };
  if empty { assume(s.lo <= s.hi) } else { assume(s.lo < s.hi) }
  s
}

/// params: elements
#[no_mangle] pub extern "C-unwind" fn h_smooth_spans() {
  let n = pick(param(0, 3) as usize + 1, "elements");
  let empty = any_bool("empty ones");
  let v: Vec<S> = (0..n).map(|_| any_span(empty)).collect();
  let out = smooth_elements(v.iter().map(|s| s.span()).collect());
  let x = below(16, "position");
  let (mut was, mut is) = (false, false);
  for s in &v { was |= s.covers(x); }
  for i in 0..out.len() {
    let (lo, hi) = (out[i].lo().0, out[i].hi().0);
    is |= (lo <= BASE + x as u32) & (BASE + (x as u32) < hi);
    if i > 0 {
      check(out[i - 1].lo().0 <= lo, "the ranges are in order");
      // empty spans may lie within other ones
      if !empty { check(out[i - 1].hi().0 < lo, "the ranges are in order and apart"); cover("apart"); }
    }
  }
  check(was == is, "the ranges cover what was covered");
  if out.len() < n { cover("merged"); }
}
/// params: elements
#[no_mangle] pub extern "C-unwind" fn h_smooth_ranges() {
  let n = pick(param(0, 3) as usize + 1, "elements");
  let file = rustc_utils::source_map::filename::FilenameIndex::from_usize(0);
  let pos = || CharPos { line: below(3, "line") as usize, column: below(8, "column") as usize };
  let v: Vec<CharRange> = (0..n).map(|_| { let r = CharRange { start: pos(), end: pos(), filename: file }; assume(before(r.start, r.end)); r }).collect();
  let out = smooth_elements(v.clone());
  let x = pos();
  let covers = |r: &CharRange| !before(x, r.start) & before(x, r.end);
  let (mut was, mut is) = (false, false);
  for r in &v { was |= covers(r); }
  for i in 0..out.len() {
    is |= covers(&out[i]);
    if i > 0 { check(before(out[i - 1].end, out[i].start), "the ranges are in order and apart"); cover("apart"); }
  }
  check(was == is, "the ranges cover what was covered");
  if out.len() < n { cover("merged"); }
}
fn before(a: CharPos, b: CharPos) -> bool { (a.line < b.line) | ((a.line == b.line) & (a.column < b.column)) }

/// One block of which each location has a span of its own and is of a HIR node of its own, some of them assignments.
fn analysis(locs: &[S], assigns: &[bool]) -> &'static mut AquascopeAnalysis<'static> {
  let n = locs.len();
  let b = body::body_with_nodes(&[Term { kind: Kind::Return, t: [0, 0], cleanup: false, len: n - 1 }], n, |_, s| body::info(locs[s].span(), s));
  b.span = Span::new(BytePos(0), BytePos(1000), SyntaxContext::root(), None);
  let p = body::place(1);
  for (s, a) in assigns.iter().enumerate() {
    if *a { b.basic_blocks.as_mut_preserves_cfg()[BasicBlock::from_usize(0)].statements[s].kind = StatementKind::Assign(Box::new((p, Rvalue::Use(Operand::Copy(p))))); }
  }
  locals(b, &[]);
  let mut a: Box<MaybeUninit<AquascopeAnalysis<'static>>> = Box::new(MaybeUninit::zeroed());
  unsafe {
    std::ptr::write(std::ptr::addr_of_mut!((*a.as_mut_ptr()).permissions), ctxt(b, leak(AllFacts::default())));
    (*a.as_mut_ptr()).permissions.tcx = ctx::tcx_with_session();
    Box::leak(a).assume_init_mut()
  }
}
fn at(i: usize) -> Location { Location { block: BasicBlock::from_usize(0), statement_index: i } }
/// The spans of the HIR nodes.
static mut NODES: Vec<S> = vec![];
#[allow(static_mut_refs)] fn nodes() -> &'static mut Vec<S> { unsafe { &mut NODES } }
#[no_mangle] pub fn vstub_hir_span(_: rustc_middle::hir::map::Map<'static>, id: rustc_hir::HirId) -> Span { nodes()[id.local_id.as_usize()].span() }
fn is_range(r: &CharRange, s: S) -> bool { (r.start.column == (BASE + s.lo as u32) as usize) & (r.end.column == (BASE + s.hi as u32) as usize) }
/// The ranges are in order, apart, and cover x if and only if it is wanted.
fn ranges(out: &[CharRange], x: u8, want: bool) {
  let mut is = false;
  for i in 0..out.len() {
    let (lo, hi) = (out[i].start.column, out[i].end.column);
    is |= (lo <= (BASE + x as u32) as usize) & (((BASE + x as u32) as usize) < hi);
    if i > 0 { check(out[i - 1].end.column < lo, "the ranges of a region are in order and apart"); cover("two ranges"); }
  }
  check(is == want, "a region covers exactly the code where it is in effect");
  if want { cover("in effect"); } else { cover("not in effect"); }
}

/// params: locations, loans, facts
#[no_mangle] pub extern "C-unwind" fn h_info_loans() {
  let (np, nl, nf) = (param(0, 2) as usize, param(1, 1) as usize, param(2, 2) as usize);
  let mut locs: Vec<S> = (0..np).map(|_| any_span(false)).collect();
  *nodes() = (0..np).map(|_| any_span(true)).collect();
  let mut from = vec![];
  for _ in 0..nl { from.push(pick(np, "loan's location")); }
  // the last location, if of a loan, perhaps has an empty span
  if from.contains(&(np - 1)) && any_bool("empty") { locs[np - 1].hi = locs[np - 1].lo; }
  let a = analysis(&locs, &[]);
  let mut regions = FxHashMap::default();
  let mut ends = vec![];
  for l in 0..nl {
    borrows().push(borrow(at(from[l]), body::place(1), BorrowKind::Shared));
    let (s, e) = (pick(np, "region's start"), pick(np, "region's end"));
    assume(!locs[s].empty());
    assume(!locs[e].empty());
    ends.push((s, e));
    regions.insert(loan(l), (pt(2 * s), pt(2 * e)));
  }
  a.permissions.loan_regions = Some(regions);
  let mut live = vec![];
  for _ in 0..nf {
    let (p, l) = (pick(np, "live at"), below(nl as u8, "live"));
    a.permissions.polonius_output.loan_live_at.entry(pt(2 * p)).or_default().push(loan(l as usize));
    live.push((p, l as usize));
  }
  let (points, out) = a.construct_loan_info();
  let x = below(16, "position");
  let mut n = 0;
  for l in 0..nl {
    let own = locs[from[l]];
    let key = LoanKey(l as u32);
    check(points.get(&key).is_some() == !own.empty() && out.get(&key).is_some() == !own.empty(), "exactly the loans with a span have a point and a region");
    if own.empty() { cover("not visible"); continue; }
    n += 1;
    check(is_range(&points[&key], own), "a loan's point is where it is issued");
    let r = &out[&key];
    check(r.refiner_point == Refiner::Loan(key), "a loan's region is the loan's");
    let (s, e) = (locs[ends[l].0], locs[ends[l].1]);
    let start = if s.lo < own.lo { own } else { s };
    let shown = |t: S| (start.lo <= t.lo) & (t.hi <= e.hi) & t.covers(x);
    let mut want = shown(start) | shown(e);
    for (p, m) in &live { want |= (*m == l) & shown(nodes()[*p]); }
    ranges(&r.refined_ranges, x, want);
  }
  check(points.len() == n && out.len() == n, "there are no other loans");
}

/// params: locations, moves, facts
#[no_mangle] pub extern "C-unwind" fn h_info_moves() {
  let (np, nm, nf) = (param(0, 2) as usize, param(1, 1) as usize, param(2, 2) as usize);
  let locs: Vec<S> = (0..np).map(|_| any_span(true)).collect();
  *nodes() = (0..np).map(|_| any_span(true)).collect();
  let assigns: Vec<bool> = (0..np - 1).map(|_| any_bool("assignment")).collect();
  let a = analysis(&locs, &assigns);
  let mut from = vec![];
  for _ in 0..nm {
    let f = pick(np, "move's location");
    from.push(f);
    unsafe { (*(std::ptr::addr_of!(a.permissions.move_data.moves) as *mut rustc_index::IndexVec<permissions::Move, MoveOut>)).push(MoveOut { path: mp(0), source: at(f) }); }
  }
  let mut facts = vec![];
  for _ in 0..nf {
    let (p, path, m) = (pick(np, "moved at"), pick(2, "path"), below(nm as u8, "move"));
    // a path is refined by one move at a point
    if facts.iter().any(|f: &(usize, usize, usize)| f.0 == p && f.1 == path) { continue; }
    a.permissions.permissions_output.move_refined.entry(pt(2 * p)).or_default().insert(permissions::Path::from_usize(path), permissions::Move::from_u32(m as u32));
    facts.push((p, path, m as usize));
  }
  let (points, out) = a.construct_move_info();
  let x = below(16, "position");
  let (mut n, mut k) = (0, 0);
  for m in 0..nm {
    let own = locs[from[m]];
    let key = MoveKey(m as u32);
    let point = points.0.get(&key);
    check(point.is_some() == !own.empty(), "exactly the moves with a span have a point");
    let any = facts.iter().any(|f| f.2 == m);
    let r = out.0.get(&key);
    check(r.is_some() == (any && !own.empty()), "exactly the moves with a span that are in effect somewhere have a region");
    let Some(point) = point else { cover("not visible"); continue };
    n += 1;
    check(is_range(point, own), "a move's point is where it happens");
    let Some(r) = r else { continue };
    k += 1;
    check(r.refiner_point == Refiner::Move(key), "a move's region is the move's");
    let mut want = false;
    for (p, _, q) in &facts { let t = nodes()[*p]; want |= (*q == m) & (*p == np - 1 || assigns[*p]) & (own.lo <= t.lo) & t.covers(x); }
    ranges(&r.refined_ranges, x, want);
  }
  check(points.0.len() == n && out.0.len() == k, "there are no other moves");
}
