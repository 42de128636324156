// The segments of the MIR that permission steps are made of.
use super::*;
#[allow(dead_code)] mod vs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/vs.rs")); }
#[allow(dead_code)] mod body { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_body.rs")); }
#[cfg(aquascope_stubs = "aq_segments")] mod stubs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_stubs.rs")); }
use vs::*;
use body::*;
use crate::analysis::ir_mapper::GatherMode;
use rustc_span::DUMMY_SP;

fn l(b: usize, s: usize) -> Location { Location { block: bb(b), statement_index: s } }
/// A body of n blocks that all can be reached, where a switch is the only way to its targets.
fn any_body(n: usize, len: usize, kinds: &[Kind], symbolic: bool, ending: bool) -> Vec<Term> {
  let mut ts = vec![];
  for i in 0..n {
    let mut t = if symbolic { any_term(i, n, kinds, false) } else { pick_term(i, n, kinds, false) };
    t.len = len;
    ts.push(t);
  }
  // nothing leads to the first block, something to the others, only one edge if it is a switch's
  for j in 0..n {
    let (mut edges, mut switches) = (0u8, false);
    for i in 0..n { for e in 0..ts[i].edges() { let to = ts[i].t[e] as usize == j; edges += to as u8; switches |= to & (ts[i].kind == Kind::Switch); } }
    assume(if j == 0 { edges == 0 } else { edges > 0 });
    assume(!switches | (edges == 1));
  }
  let mut r = vec![false; n];
  r[0] = true;
  for _ in 1..n { for i in 0..n { for e in 0..ts[i].edges() { for j in 1..n { r[j] |= r[i] & (ts[i].t[e] as usize == j); } } } }
  let mut all = true;
  for i in 0..n { all &= r[i]; }
  if ending {
    let mut e = (0..n).map(|i| ts[i].kind == Kind::Return).collect::<Vec<_>>();
    for _ in 1..n { for i in 0..n { for k in 0..ts[i].edges() { for j in 0..n { e[i] |= e[j] & (ts[i].t[k] as usize == j); } } } }
    for i in 0..n { all &= e[i]; }
  }
  assume(all);
  ts
}
/// Checks everything built so far; returns the collections that are open, with their locations.
fn valid(b: &SegmentedMirBuilder, ts: &[Term]) {
  let m = b.mapper;
  let mut starts = vec![l(0, 0); b.collections.len()];
  for br in b.branches.iter() {
    let root = ts[br.reach.from.block.as_usize()];
    check(br.splits.len() == root.edges() && br.nested.len() == root.edges(), "one split and one collection per target");
    for (i, s) in br.splits.iter().enumerate() {
      let seg = b.segments[*s].segment;
      check(seg.to == l(root.t[i] as usize, 0), "a split ends at the start of its target");
      // (without a switch the one target can be an earlier block, in a loop)
      if root.kind == Kind::Switch { check(m.ldominates(seg.from, seg.to), "the start of a split dominates its end"); }
      starts[br.nested[i].as_usize()] = seg.to;
    }
  }
  for (cid, c) in b.collections.iter_enumerated() {
    let mut at = starts[cid.as_usize()];
    for d in &c.data {
      match d {
        CFKind::Linear(s) => {
          let seg = b.segments[*s].segment;
          check(seg.from == at, "a segment starts where the one before ended");
          check(m.ldominates(seg.from, seg.to), "the start of a linear segment dominates its end");
          check(m.lpost_dominates(seg.to, seg.from), "the end of a linear segment post-dominates its start");
          at = seg.to;
        }
        CFKind::Branch(i) => {
          let br = &b.branches[*i];
          for s in &br.splits { check(b.segments[*s].segment.from == at, "the splits of a branch start where the segment before ended"); }
          if br.reach.to != br.reach.from { at = br.reach.to; }
        }
      }
    }
    for o in &b.processing.0 { if o.collection == cid { check(o.current_location == at, "a collection goes on where its last segment ended"); } }
  }
}
fn blk(n: usize) -> usize { if param(4, 1) == 1 { below(n as u8, "block") as usize } else { pick(n, "block") } }
fn count(b: &SegmentedMirBuilder) -> (usize, usize, usize) { (b.segments.len(), b.branches.len(), b.collections.len()) }

/// Any insertions, branches and closings, in any body whose blocks all lead to a return.
#[no_mangle] pub extern "C-unwind" fn h_segments() {
  let (n, len, steps) = (param(0, 3) as usize, param(1, 0) as usize, param(2, 2) as usize);
  let kinds: &[Kind] = if param(3, 0) == 0 { &[Kind::Return, Kind::Goto, Kind::Switch] } else { &[Kind::Return, Kind::Goto, Kind::Switch, Kind::FalseEdge] };
  let ts = if param(5, 0) == 0 { any_body(n, len, kinds, param(4, 1) == 1, true) } else { chain(param(5, 0) as usize) };
  let n = ts.len();
  let mapper = IRMapper::new(tcx(), body_with_nodes(&ts, 1, dummy), GatherMode::IgnoreCleanup);
  let mut b = SegmentedMirBuilder::make(&mapper);
  let mut open: Vec<BranchId> = vec![];
  // with a chain: a branch at its start, then insertions, then the end of the branch
  for step in 0..steps {
    let op = if param(5, 0) == 0 { pick(if open.is_empty() { 2 } else { 3 }, "operation") } else if step == 0 { 1 } else if step + 1 < steps { 0 } else { 2 };
    let at = if op == 1 && param(5, 0) > 0 { l(0, 0) } else if op < 2 { l(blk(n), if len > 0 { pick(len + 1, "statement") } else { 0 }) } else { l(0, 0) };
    let before = count(&b);
    if op == 0 {
      let found = b.processing.0.iter().rev().find(|c| mapper.ldominates(c.current_location, at)).copied();
      let r = b.insert(at, None, DUMMY_SP);
      for k in before.1..b.branches.len() { unsafe { IMPLICIT[k] = true; } }
      match found {
        None => { check(r.is_ok() && count(&b) == before, "a location no open collection leads to is left out"); cover("left out"); }
        Some(c) if mapper.lpost_dominates(at, c.current_location) => {
          check(r.is_ok() && count(&b) == (before.0 + 1, before.1, before.2), "one segment is added");
          let s = &b.segments[SegmentId::from_usize(before.0)].segment;
          let end = match b.collections[c.collection].kind { LengthKind::Bounded { phi, .. } if mapper.ldominates(phi, at) => phi, _ => at };
          check(s.from == c.current_location && s.to == end, "the segment goes from the innermost open collection to the location, and not past a join");
          cover("linear");
        }
        Some(_) => {
          check(r.is_ok(), "a location that some of the ways lead to is not an error");
          if count(&b).1 > before.1 { cover("implicit branch"); }
          if count(&b).1 > before.1 + 1 { cover("two implicit branches"); }
        }
      }
    } else if op == 1 {
      let found = b.processing.0.iter().rev().find(|c| mapper.ldominates(c.current_location, at)).copied();
      // a branch is opened only where its switch is still to come
      assume(mapper.dominates(at.block, bb(next_switch(&ts, at.block.as_usize()))));
      let r = b.open_branch(at, |_| DUMMY_SP);
      check(r.is_ok() == (found.map(|c| c.current_location) == Some(at)), "a branch opens exactly where its collection stands");
      match r {
        Ok(i) => { open.push(i); join(&b, &ts, i, at); if ts[b.branches[i].reach.from.block.as_usize()].edges() == 2 { cover("branch"); } }
        Err(_) => { check(count(&b) == before, "a branch that does not open adds nothing"); cover("no branch"); }
      }
    } else {
      let i = open.remove(pick(open.len(), "branch"));
      let of = nested(&b, i);
      let left = b.processing.0.iter().map(|c| c.collection).filter(|c| !of.contains(c)).collect::<Vec<_>>();
      check(b.close_branch(i).is_ok(), "a branch closes");
      check(left == b.processing.0.iter().map(|c| c.collection).collect::<Vec<_>>(), "closing a branch closes its collections and no others");
      cover("closed");
    }
    valid(&b, &ts);
  }
  let one = b.processing.len() == 1;
  check(b.freeze().is_ok() == one, "the segments are final when nothing but the outermost collection is open");
}
/// The next switch in a straight line, or the block the line ends or repeats with.
fn next_switch(ts: &[Term], from: usize) -> usize {
  let mut s = from;
  for _ in 0..ts.len() { if ts[s].kind != Kind::Switch && ts[s].edges() == 1 { s = ts[s].t[0] as usize; } }
  s
}
/// The collections of a branch and of the branches opened in them on the way to a location (not by the caller).
fn nested(b: &SegmentedMirBuilder, i: BranchId) -> Vec<CollectionId> {
  let mut of = b.branches[i].nested.clone();
  let mut k = 0;
  while k < of.len() {
    for d in &b.collections[of[k]].data { if let CFKind::Branch(j) = d { if unsafe { IMPLICIT }[j.as_usize()] { of.extend(b.branches[*j].nested.iter().copied()); } } }
    k += 1;
  }
  of
}
static mut IMPLICIT: [bool; 16] = [false; 16];
/// The join of a branch: the first block after the switch that every way from it to the exits takes.
fn join(b: &SegmentedMirBuilder, ts: &[Term], i: BranchId, at: Location) {
  let n = ts.len();
  let s = next_switch(ts, at.block.as_usize());
  let from = if ts[s].kind == Kind::Switch { l(s, ts[s].len) } else { at };
  let r = b.branches[i].reach;
  check(r.from == from, "a branch is rooted at the next switch in a straight line");
  let m = b.mapper;
  if ts[s].kind != Kind::Switch || ts.iter().any(|t| t.kind == Kind::FalseEdge) { return; }
  let cand = (0..n).filter(|j| *j != s && m.dominates(bb(s), bb(*j)) && m.post_dominates(bb(*j), bb(s))).collect::<Vec<_>>();
  let first = cand.iter().find(|j| cand.iter().all(|x| m.dominates(bb(**j), bb(*x))));
  match first {
    Some(j) => { check(r.to == l(*j, 0), "a branch joins at the first block that all its paths take"); cover("join"); }
    None => check(r.to == r.from, "a branch without a join has none"),
  }
}
/// Any insertions and branches in any body at all: nothing runs forever or panics.
#[no_mangle] pub extern "C-unwind" fn h_segments_end() {
  let (n, steps) = (param(0, 3) as usize, param(1, 2) as usize);
  let ts = any_body(n, 0, &[Kind::Return, Kind::Goto, Kind::Switch, Kind::FalseEdge, Kind::Unreachable][..param(2, 5) as usize], param(4, 1) == 1, false);
  let mapper = IRMapper::new(tcx(), body_with_nodes(&ts, 1, dummy), GatherMode::IgnoreCleanup);
  let mut b = SegmentedMirBuilder::make(&mapper);
  let mut open = vec![];
  for _ in 0..steps {
    let op = pick(if open.is_empty() { 2 } else { 3 }, "operation");
    let at = if op < 2 { l(blk(n), 0) } else { l(0, 0) };
    if op == 0 { cover(if b.insert(at, None, DUMMY_SP).is_ok() { "inserted" } else { "not inserted" }); }
    else if op == 1 { if let Ok(i) = b.open_branch(at, |_| DUMMY_SP) { open.push(i); cover("branch"); } }
    else { check(b.close_branch(open.remove(pick(open.len(), "branch"))).is_ok(), "a branch closes"); }
  }
}
/// Any scopes opened and closed, with segments in between.
#[no_mangle] pub extern "C-unwind" fn h_scopes() {
  let steps = param(0, 4) as usize;
  let ts = [Term { kind: Kind::Return, t: [0, 0], cleanup: false, len: steps }];
  let mapper = IRMapper::new(tcx(), body_with_nodes(&ts, 1, dummy), GatherMode::IgnoreCleanup);
  let mut b = SegmentedMirBuilder::make(&mapper);
  let id = ScopeId::from_usize;
  // for each scope the ones around it; the scopes that are open; for each segment its scope
  let (mut around, mut open, mut of) = (vec![vec![]], vec![0usize], vec![]);
  for i in 0..steps {
    match pick(3, "operation") {
      0 => {
        let s = b.open_scope();
        check(matches!(s, Ok(s) if s == id(around.len())), "each scope is a new one");
        around.push(open.clone());
        open.push(around.len() - 1);
      }
      1 => {
        let s = below(around.len() as u8, "scope") as usize;
        let r = b.close_scope(id(s)).is_ok();
        check(r == (s != 0 && s == open[open.len() - 1]), "only the innermost scope can be closed, and never the outermost");
        if r { open.pop(); cover("closed"); } else { cover("not closed"); }
      }
      _ => {
        check(b.insert(l(0, i + 1), None, DUMMY_SP).is_ok(), "inserted");
        of.push(open[open.len() - 1]);
      }
    }
  }
  let Ok(m) = b.freeze() else { fail("the segments are final"); return };
  for (i, s) in of.iter().enumerate() { check(m.get_segment(SegmentId::from_usize(i)).scope == id(*s), "a segment belongs to the innermost open scope"); cover("segment"); }
  for (i, a) in around.iter().enumerate() {
    let p = m.parent_scopes(id(i)).collect::<Vec<_>>();
    check(p.len() == a.len() && a.iter().all(|x| p.contains(&id(*x))), "a scope's parents are the scopes open when it was opened");
    if a.len() > 1 { cover("nested"); }
  }
}
