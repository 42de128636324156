// MIR bodies with symbolic control flow. Only the fields of Body that the code under check reads are written.
use super::vs::*;
use rustc_middle::mir::*;
use rustc_middle::ty::List;
use rustc_span::{Span, DUMMY_SP};
use rustc_index::IndexVec;
use std::mem::MaybeUninit;

/// Memory for a value of which only some fields are written.
pub fn zeroed<T>() -> &'static mut T { Box::leak(unsafe { Box::<MaybeUninit<T>>::new(MaybeUninit::zeroed()).assume_init() }) }
pub fn bb(i: usize) -> BasicBlock { BasicBlock::from_usize(i) }
pub fn info(span: Span, scope: usize) -> SourceInfo { SourceInfo { span, scope: SourceScope::from_usize(scope) } }
pub fn place(local: usize) -> Place<'static> { Place { local: Local::from_usize(local), projection: List::empty() } }

#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Return, Goto, Switch, FalseEdge, FalseUnwind, Unreachable }
use Kind::*;
/// A terminator's kind and its two possible targets, as symbolic numbers.
#[derive(Clone, Copy)]
pub struct Term { pub kind: Kind, pub t: [u8; 2], pub cleanup: bool, pub len: usize }

pub fn kind<'a>(t: &Term) -> TerminatorKind<'a> {
  let b = |i: usize| BasicBlock::from_u32(t.t[i] as u32);
  match t.kind {
    Return => TerminatorKind::Return,
    Goto => TerminatorKind::Goto { target: b(0) },
    Switch => TerminatorKind::SwitchInt { discr: Operand::Copy(Place { local: Local::from_usize(1), projection: List::empty() }), targets: SwitchTargets::new(std::iter::once((0u128, b(0))), b(1)) },
    FalseEdge => TerminatorKind::FalseEdge { real_target: b(0), imaginary_target: b(1) },
    FalseUnwind => TerminatorKind::FalseUnwind { real_target: b(0), unwind: UnwindAction::Cleanup(b(1)) },
    Unreachable => TerminatorKind::Unreachable,
  }
}
impl Term {
  pub fn edges(&self) -> usize { match self.kind { Return | Unreachable => 0, Goto => 1, _ => 2 } }
  /// Is there an edge to block j?
  pub fn to(&self, j: usize) -> bool { let mut r = false; for i in 0..self.edges() { r |= self.t[i] as usize == j; } r }
  /// Is there an edge to block j that execution can take?
  pub fn really_to(&self, j: usize) -> bool { let n = if self.kind == FalseEdge { 1 } else { self.edges() }; let mut r = false; for i in 0..n { r |= self.t[i] as usize == j; } r }
  pub fn kept(&self) -> bool { !self.cleanup & (self.kind != Unreachable) }
}
/// A terminator of one of the kinds with any targets among n blocks.
pub fn any_term(i: usize, n: usize, kinds: &[Kind], cleanup: bool) -> Term {
  let kind = kinds[pick(kinds.len(), "terminator")];
  let t = [below(n as u8, "target"), below(n as u8, "target")];
  term(i, kind, t, cleanup)
}
/// The same, with one path per choice of targets.
pub fn pick_term(i: usize, n: usize, kinds: &[Kind], cleanup: bool) -> Term {
  let kind = kinds[pick(kinds.len(), "terminator")];
  let e = Term { kind, t: [0, 0], cleanup: false, len: 0 }.edges();
  let t = [if e > 0 { pick(n, "target") as u8 } else { 0 }, if e > 1 { pick(n, "target") as u8 } else { 0 }];
  term(i, kind, t, cleanup)
}
fn term(i: usize, kind: Kind, t: [u8; 2], cleanup: bool) -> Term {
  if kind == FalseEdge { assume(t[1] as usize != i); }
  Term { kind, t, cleanup: cleanup && any_bool("cleanup"), len: 0 }
}
pub fn blocks<'a>(ts: &[Term], span: impl Fn(usize, usize) -> SourceInfo) -> IndexVec<BasicBlock, BasicBlockData<'a>> {
  let mut v = IndexVec::with_capacity(ts.len());
  for (i, t) in ts.iter().enumerate() {
    let mut d: BasicBlockData = unsafe { MaybeUninit::zeroed().assume_init() };
    let statements = (0..t.len).map(|s| Statement { source_info: span(i, s), kind: StatementKind::Nop }).collect::<Vec<_>>();
    unsafe {
      std::ptr::write(&mut d.statements, statements);
      std::ptr::write(&mut d.terminator, Some(Terminator { source_info: span(i, t.len), kind: kind(t) }));
    }
    d.is_cleanup = t.cleanup;
    v.push(d);
  }
  v
}
pub fn body(ts: &[Term], span: impl Fn(usize, usize) -> SourceInfo) -> &'static mut Body<'static> {
  let b: &'static mut Body<'static> = zeroed();
  unsafe { std::ptr::write(&mut b.basic_blocks, BasicBlocks::new(blocks(ts, span))); }
  b
}
/// A body whose source scopes stand for HIR nodes: scope i is node i of one owner.
pub fn body_with_nodes(ts: &[Term], nodes: usize, span: impl Fn(usize, usize) -> SourceInfo) -> &'static mut Body<'static> {
  let b = body(ts, span);
  let mut scopes = IndexVec::with_capacity(nodes);
  for i in 0..nodes {
    scopes.push(SourceScopeData { span: DUMMY_SP, parent_scope: None, inlined: None, inlined_parent_scope: None, local_data: ClearCrossCrate::Set(SourceScopeLocalData { lint_root: hir_id(i) }) });
  }
  let mut locals = IndexVec::with_capacity(1);
  locals.push(unsafe { MaybeUninit::<LocalDecl>::zeroed().assume_init() });
  unsafe {
    std::ptr::write(&mut b.source_scopes, scopes);
    std::ptr::write(&mut b.local_decls, locals);
    std::ptr::write(&mut b.user_type_annotations, IndexVec::new());
    std::ptr::write(&mut b.var_debug_info, vec![]);
    std::ptr::write(&mut b.required_consts, None);
    std::ptr::write(&mut b.mentioned_items, None);
  }
  b
}
pub fn hir_id(i: usize) -> rustc_hir::HirId { rustc_hir::HirId { owner: rustc_hir::OwnerId { def_id: rustc_span::def_id::CRATE_DEF_ID }, local_id: rustc_hir::ItemLocalId::from_usize(i) } }
/// A type context that nothing may look into.
pub fn tcx() -> rustc_middle::ty::TyCtxt<'static> { unsafe { std::mem::transmute::<usize, _>(4096) } }
pub fn dummy(_: usize, _: usize) -> SourceInfo { info(DUMMY_SP, 0) }
/// A chain of k switches, each with one target the next switch (or the block at the end) and the other a side. The sides and
/// the end each return or go to one of two joins, of which the first returns or goes to the second.
pub fn chain(k: usize) -> Vec<Term> {
  let mk = |kind, t0: u8, t1: u8| Term { kind, t: [t0, t1], cleanup: false, len: 0 };
  let (mut ts, mut used) = (vec![], [false; 2]);
  let first = 2 * k as u8 + 1;
  for i in 0..k {
    let (next, side) = (i as u8 + 1, (k + 1 + i) as u8);
    ts.push(if i == 0 && any_bool("swap") { mk(Kind::Switch, side, next) } else { mk(Kind::Switch, next, side) });
  }
  for _ in 0..k + 1 {
    if any_bool("returns") { ts.push(mk(Kind::Return, 0, 0)); continue; }
    let j = below(2, "join");
    for i in 0..2 { used[i] |= j as usize == i; }
    ts.push(mk(Kind::Goto, first + j, 0));
  }
  if any_bool("joined") { used[1] = true; ts.push(mk(Kind::Goto, first + 1, 0)); } else { ts.push(mk(Kind::Return, 0, 0)); }
  ts.push(mk(Kind::Return, 0, 0));
  assume(used[0] & used[1]);
  ts
}
