// HIR/MIR mapping: the cleaned graph, dominance of locations, and the MIR locations of a HIR node.
use super::*;
#[allow(dead_code)] mod vs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/vs.rs")); }
#[allow(dead_code)] mod body { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_body.rs")); }
#[cfg(aquascope_stubs = "aq_ir_mapper")] mod stubs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_stubs.rs")); }
use vs::*;

/// A graph whose edges are symbolic.
struct Graph { n: usize, start: usize, e: Vec<Vec<bool>> }
impl DirectedGraph for Graph { type Node = BasicBlock; fn num_nodes(&self) -> usize { self.n } }
impl StartNode for Graph { fn start_node(&self) -> BasicBlock { BasicBlock::from_usize(self.start) } }
impl Successors for Graph {
  fn successors(&self, node: BasicBlock) -> impl Iterator<Item = BasicBlock> { (0..self.n).filter(move |j| self.e[node.as_usize()][*j]).map(BasicBlock::from_usize).collect::<Vec<_>>().into_iter() }
}
impl Predecessors for Graph {
  fn predecessors(&self, node: BasicBlock) -> impl Iterator<Item = BasicBlock> { (0..self.n).filter(move |j| self.e[*j][node.as_usize()]).map(BasicBlock::from_usize).collect::<Vec<_>>().into_iter() }
}
fn any_graph(n: usize, start: usize) -> Graph {
  let mut e = vec![vec![false; n]; n];
  for i in 0..n { for j in 0..n { if i != j { e[i][j] = any_bool("edge"); } } }
  Graph { n, start, e }
}
/// Which nodes reach `to` on a path avoiding `but`; without branching.
fn reach(g: &Graph, to: usize, but: usize) -> Vec<bool> {
  let mut r = vec![false; g.n];
  r[to] = to != but;
  for _ in 1..g.n {
    for i in 0..g.n { if i != but { for j in 0..g.n { r[i] |= g.e[i][j] & r[j]; } } }
  }
  r
}

#[no_mangle] pub extern "C-unwind" fn h_pdom() {
  let n = param(0, 3) as usize;
  let k = param(1, 1) as usize;
  let g = any_graph(n, 0);
  let exits = (0..k).map(|i| n - 1 - i).collect::<Vec<_>>();
  let p = AllPostDominators::build(&g, exits.iter().map(|e| BasicBlock::from_usize(*e)));
  let from: Vec<Vec<bool>> = exits.iter().map(|e| reach(&g, *e, n)).collect();
  for d in 0..n {
    let avoid: Vec<Vec<bool>> = exits.iter().map(|e| reach(&g, *e, d)).collect();
    for m in 0..n {
      let (mut all, mut dom) = (true, true);
      for i in 0..k { all &= from[i][m]; dom &= !avoid[i][m]; }
      let got = p.is_postdominated_by(BasicBlock::from_usize(m), BasicBlock::from_usize(d));
      check(!all | (got == dom), "a block post-dominates when every path to every exit passes it");
      check((k > 1) | all | !got, "a block that does not reach the exit has no post-dominators");
      if d != m && n - 1 != d { if got { cover("post-dominated"); } else { cover("not post-dominated"); } }
    }
  }
}

use body::*;

/// The graph without cleanup and unreachable blocks.
#[no_mangle] pub extern "C-unwind" fn h_cleaned() {
  let n = param(0, 2) as usize;
  let kinds = [Kind::Return, Kind::Goto, Kind::Switch, Kind::FalseEdge, Kind::Unreachable, Kind::FalseUnwind];
  let mut ts = vec![];
  let symbolic = param(1, 1) == 1;
  for i in 0..n {
    let mut t = if symbolic { any_term(i, n, &kinds, i > 0) } else { pick_term(i, n, &kinds[..5], i > 0) };
    if i == 0 || param(2, 0) == 1 { t.len = pick(2, "statements"); }
    ts.push(t);
  }
  let g = CleanedBody(body::body(&ts, dummy));
  check(g.num_nodes() == n, "every block is a node");
  check(g.start_node() == bb(0), "the start block is the start node");
  let at = pick(n, "block");
  let t = ts[at];
  let succ = g.successors(bb(at)).collect::<Vec<_>>();
  let has = |v: &[BasicBlock], j: usize| { let mut r = false; for b in v { r |= b.as_usize() == j; } r };
  for j in 0..n {
    let h = has(&succ, j);
    check(h | !(t.really_to(j) & ts[j].kept()), "a real edge to a kept block is kept");
    check(!h | (t.to(j) & ts[j].kept()), "no other edge");
    if h { cover("successor"); }
    if t.to(j) & !ts[j].kept() { cover("removed"); }
  }
  if t.kept() {
    let pred = g.predecessors(bb(at)).collect::<Vec<_>>();
    for j in 0..n {
      let h = has(&pred, j);
      check(h | !(ts[j].really_to(at) & ts[j].kept()), "a real edge from a kept block is kept");
      check(!h | (ts[j].to(at) & ts[j].kept()), "no other incoming edge");
      if ts[j].kept() { check(h == has(&g.successors(bb(j)).collect::<Vec<_>>(), at), "predecessors and successors agree"); }
      if h { cover("predecessor"); }
    }
  }
  let s = pick(t.len + 1, "statement");
  let next = g.location_successor(Location { block: bb(at), statement_index: s });
  let want = if s < t.len { Some((at as u64, s + 1)) } else if succ.len() == 1 { Some((succ[0].as_u32() as u64, 0)) } else { None };
  match (next, want) {
    (Some(l), Some((b, i))) => { check((l.block.as_u32() as u64 == b) & (l.statement_index == i), "the next location"); cover("next"); }
    (None, None) => cover("no next"),
    _ => fail("there is a next location when the successor is unique"),
  }
  check(g.is_false_edge(bb(at)) == (t.kind == Kind::FalseEdge), "false edges are told");
}
/// The blocks of the cleaned graph.
#[no_mangle] pub extern "C-unwind" fn h_cleaned_blocks() {
  let n = param(0, 3) as usize;
  let kinds = [Kind::Return, Kind::Goto, Kind::Switch, Kind::Unreachable];
  let mut ts = (0..n).map(|i| if param(1, 1) == 1 { any_term(i, n, &kinds, i > 0) } else { pick_term(i, n, &kinds, i > 0) }).collect::<Vec<_>>();
  if param(2, 0) == 1 { for t in &mut ts { t.len = pick(2, "statements"); } }
  let g = CleanedBody(body::body(&ts, dummy));
  let got = g.blocks().map(|b| b.as_usize()).collect::<Vec<_>>();
  let reach = |through: bool| {
    let mut r = vec![false; n];
    r[0] = true;
    for _ in 1..n { for i in 0..n { for j in 0..n { r[j] |= r[i] & ts[i].to(j) & (through | (ts[i].kept() & ts[j].kept())); } } }
    r
  };
  let (all, kept) = (reach(true), reach(false));
  for i in 0..n {
    let mut k = 0usize;
    for b in &got { k += (*b == i) as usize; }
    check(k <= 1, "a block comes once");
    check((k == 1) | !(kept[i] & ts[i].kept()), "a kept block that control reaches is there");
    check((k == 0) | (all[i] & ts[i].kept()), "no other block is there");
    if k == 1 && i > 0 { cover("kept"); }
    if k == 0 { cover("left out"); }
  }
}

/// The MIR locations of a HIR node.
#[no_mangle] pub extern "C-unwind" fn h_locations() {
  let n = param(0, 2) as usize;
  let (m, len) = (param(1, 2) as usize, param(2, 1) as usize);
  let kinds: &[Kind] = if param(3, 0) == 0 { &[Kind::Return, Kind::Goto, Kind::Switch, Kind::FalseEdge, Kind::Unreachable] } else { &[Kind::Return, Kind::Goto, Kind::Switch] };
  let mut ts = vec![];
  for i in 0..n {
    let mut t = if param(4, 1) == 1 { any_term(i, n, kinds, param(3, 0) == 0 && i > 0) } else { pick_term(i, n, kinds, param(3, 0) == 0 && i > 0) };
    t.len = if len > 0 { pick(len + 1, "statements") } else { 0 };
    ts.push(t);
  }
  for i in 1..m { unsafe { stubs::PARENT[i] = pick(i, "parent"); } }
  let node = ts.iter().map(|t| (0..=t.len).map(|_| if m > 1 { pick(m, "node") } else { 0 }).collect::<Vec<_>>()).collect::<Vec<_>>();
  let b = body_with_nodes(&ts, m, |i, s| info(rustc_span::DUMMY_SP, node[i][s]));
  let all = any_bool("cleanup too");
  let mapper = IRMapper::new(tcx(), b, if all { GatherMode::All } else { GatherMode::IgnoreCleanup });
  let id = if m > 1 { pick(m, "id") } else { 0 };
  let nested = m > 1 && any_bool("nested");
  let got = mapper.get_mir_locations(hir_id(id), if nested { GatherDepth::Nested } else { GatherDepth::Outer });
  let under = |mut k: usize| { while nested && k != id && k > 0 { k = unsafe { stubs::PARENT[k] }; } k == id };
  let (mut any, mut used) = (false, vec![false; n]);
  for i in 0..n {
    let here = (0..=ts[i].len).filter(|s| under(node[i][*s]) && (all || !ts[i].cleanup)).collect::<Vec<_>>();
    any |= !here.is_empty();
    let alone = ts[i].len == 0 && (ts[i].kind == Kind::FalseEdge || ts[i].kind == Kind::FalseUnwind);
    used[i] = !here.is_empty() && !alone && ts[i].kind != Kind::Unreachable;
    if let Some(l) = &got {
      match l.locations.get(&bb(i)) {
        Some(v) => { check(used[i], "only blocks of the node"); check(*v == here, "exactly the node's locations of a block, in order"); }
        None => check(!used[i], "every block of the node"),
      }
    }
  }
  check(got.is_some() == any, "there are locations when the node has some");
  let Some(got) = got else { cover("no location"); return };
  // which block dominates all others, by the cleaned graph's paths
  let keep = |i: usize, j: usize| ts[i].kept() & ts[j].kept();
  let false_edge = (0..n).any(|i| ts[i].kind == Kind::FalseEdge);
  if !false_edge {
    let flow = |from: usize, to: usize, but: usize| {
      let mut r = vec![false; n];
      r[from] = from != but;
      for _ in 1..n { for i in 0..n { for j in 0..n { if j != but && i != but { r[j] |= r[i] & ts[i].to(j) & keep(i, j); } } } }
      r[to]
    };
    let start = ts[0].kept() || true;
    let mut entry = None;
    for d in 0..n { if used[d] && (0..n).all(|b| !used[b] || (start && flow(0, b, n) && !flow(0, b, d))) { entry = Some(d); } }
    check(got.entry_block.map(|b| b.as_usize()) == entry, "the entry is the block that dominates all");
    let exits = (0..n).filter(|i| ts[*i].kind == Kind::Return).collect::<Vec<_>>();
    let reach_all = (0..n).all(|b| !used[b] || exits.iter().all(|e| flow(b, *e, n)));
    let mut exit = None;
    for d in 0..n { if used[d] && (0..n).all(|b| !used[b] || exits.iter().all(|e| !flow(b, *e, d))) { exit = Some(d); } }
    if reach_all && !exits.is_empty() { check(got.exit_block.map(|b| b.as_usize()) == exit, "the exit is the block that post-dominates all"); }
    if entry.is_some() && got.exit_block.is_some() { cover("entry and exit"); }
    if entry.is_none() { cover("no entry"); }
  }
  let mut k = 0;
  for l in got.values() { check(used[l.block.as_usize()], "the locations are those of the blocks"); k += 1; }
  check(k == (0..n).map(|i| got.locations.get(&bb(i)).map_or(0, |v| v.len())).sum::<usize>(), "every location comes once");
  if let Some(b) = got.entry_block { check(got.entry_location().map(|l| (l.block, l.statement_index)) == Some((b, got.locations[&b][0])), "the entry location is the entry block's first"); }
  else { check(got.entry_location().is_none(), "no entry location without an entry block"); }
  if let Some(b) = got.exit_block { let v = &got.locations[&b]; check(got.exit_location().map(|l| (l.block, l.statement_index)) == Some((b, v[v.len() - 1])), "the exit location is the exit block's last"); }
  else { check(got.exit_location().is_none(), "no exit location without an exit block"); }
  check(got.get_entry_exit_locations().is_some() == (got.entry_block.is_some() && got.exit_block.is_some()), "both or none");
}
/// Dominance of blocks and locations in a body.
#[no_mangle] pub extern "C-unwind" fn h_dominance() {
  let n = param(0, 2) as usize;
  let kinds: &[Kind] = if param(1, 1) == 1 { &[Kind::Return, Kind::Goto, Kind::Switch, Kind::Unreachable, Kind::FalseUnwind] } else { &[Kind::Return, Kind::Goto, Kind::Switch] };
  let ts = (0..n).map(|i| if param(2, 1) == 1 { any_term(i, n, kinds, param(1, 1) == 1 && i > 0) } else { pick_term(i, n, kinds, param(1, 1) == 1 && i > 0) }).collect::<Vec<_>>();
  let b = body_with_nodes(&ts, 1, dummy);
  let mapper = IRMapper::new(tcx(), b, GatherMode::IgnoreCleanup);
  let edge = |i: usize, j: usize| ts[i].to(j) & ts[i].kept() & ts[j].kept();
  let flow = |from: usize, but: usize| {
    let mut r = vec![false; n];
    r[from] = from != but;
    for _ in 1..n { for i in 0..n { for j in 0..n { if i != but && j != but { r[j] |= r[i] & edge(i, j); } } } }
    r
  };
  let exits = (0..n).map(|i| ts[i].kind == Kind::Return).collect::<Vec<_>>();
  let start = flow(0, n);
  let l = |b: usize, s: usize| Location { block: bb(b), statement_index: s };
  let (x, y) = (any(3, "statement") as usize, any(3, "statement") as usize);
  for d in 0..n {
    let avoid = flow(0, d);
    for m in 0..n {
      let want = start[m] & !avoid[m];
      check(mapper.dominates(bb(d), bb(m)) == want, "a block dominates when every path from the start passes it");
      let (to, past) = (flow(m, n), flow(m, d));
      let (mut all, mut some, mut pd) = (true, false, true);
      for e in 0..n { if exits[e] { some = true; all &= to[e]; pd &= !past[e]; } }
      let got = mapper.post_dominates(bb(d), bb(m));
      check(!(all & some) | (got == pd), "a block post-dominates when every path to every return passes it");
      if m != d {
        check(mapper.ldominates(l(d, x), l(m, y)) == want, "locations of different blocks dominate as their blocks do");
        check(mapper.lpost_dominates(l(d, x), l(m, y)) == got, "locations of different blocks post-dominate as their blocks do");
        if want { cover("dominated"); } else { cover("not dominated"); }
        if some & got { cover("post-dominated"); }
      } else {
        check(mapper.ldominates(l(d, x), l(m, y)) == (x <= y), "within a block the earlier location dominates");
        check(mapper.lpost_dominates(l(d, x), l(m, y)) == (x >= y), "within a block the later location post-dominates");
      }
    }
  }
}
