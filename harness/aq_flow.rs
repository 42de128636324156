// The flows between regions.
use super::*;
#[allow(dead_code)] mod vs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/vs.rs")); }
#[allow(dead_code)] mod body { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_body.rs")); }
#[allow(dead_code)] mod ctx { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_ctxt.rs")); }
#[cfg(aquascope_stubs = "aq_flow")] mod stubs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_stubs.rs")); }
use vs::*;
use ctx::{borrow, borrows, ctxt, field, leak, loan, locals, project, pt, ty, world};
use body::{Kind, Term};
use polonius_engine::AllFacts;
use rustc_middle::mir::{BorrowKind, Local, Location, ProjectionElem};
use rustc_middle::ty::{self, GenericArg, Region, RegionVid, TyKind};

fn origin(i: usize) -> Origin { Origin::from_usize(i) }
/// A region variable's origin, for the symbolic execution only, as what follows.
#[no_mangle] pub fn vstub_origin(v: RegionVid) -> Origin { origin(v.as_usize()) }
fn region(kind: rustc_type_ir::RegionKind<ty::TyCtxt<'static>>) -> Region<'static> { unsafe { std::mem::transmute(leak(kind)) } }
/// The regions in the return type, in replays too.
static mut RETURNED: Vec<Region<'static>> = vec![];
#[allow(static_mut_refs)]
#[no_mangle] pub fn vstub_walk_next(_: *mut u8) -> Option<GenericArg<'static>> { unsafe { RETURNED.pop() }.map(GenericArg::from) }
#[no_mangle] pub fn vstub_no_time() -> std::time::Instant { unsafe { std::mem::zeroed() } }
/// `LocalDecl::is_ref_to_thread_local`, in replays too.
#[no_mangle] pub fn vstub_no_thread_local(_: *const u8) -> bool { false }
/// `Place::is_indirect` and `Region`'s, for the symbolic execution only.
#[no_mangle] pub fn vstub_is_var(r: Region<'static>) -> bool { unsafe { matches!(*std::mem::transmute::<_, &rustc_type_ir::RegionKind<ty::TyCtxt<'static>>>(r), rustc_type_ir::RegionKind::ReVar(_)) } }
#[no_mangle] pub fn vstub_as_var(r: Region<'static>) -> RegionVid {
  match unsafe { *std::mem::transmute::<_, &rustc_type_ir::RegionKind<ty::TyCtxt<'static>>>(r) } { rustc_type_ir::RegionKind::ReVar(v) => v, _ => panic!("a region variable") }
}

#[no_mangle] pub fn vstub_walk(_: ty::Ty<'static>) -> ty::walk::TypeWalker<'static> { unsafe { std::mem::MaybeUninit::zeroed().assume_init() } }

fn put<T>(at: usize, x: T) { unsafe { std::ptr::write(at as *mut T, x); } }
struct Graph { n: usize, reach: Vec<Vec<bool>> }
impl Graph {
  fn new(n: usize) -> Graph { Graph { n, reach: (0..n).map(|i| (0..n).map(|j| i == j).collect()).collect() } }
  fn add(&mut self, a: usize, b: usize) { self.reach[a][b] = true; }
  fn close(&mut self) { for k in 0..self.n { for i in 0..self.n { for j in 0..self.n { if self.reach[i][k] && self.reach[k][j] { self.reach[i][j] = true; } } } } }
  fn same(&self, a: usize, b: usize) -> bool { self.reach[a][b] && self.reach[b][a] }
}

/// params: origins, subsets, placeholders, known subsets, loans, whether references may be returned, whether references are returned, places
#[no_mangle] pub extern "C-unwind" fn h_flow() {
  let (n, k, np, nk, nl) = (param(0, 3) as usize, param(1, 2) as usize, param(2, 2) as usize, param(3, 1) as usize, param(4, 1) as usize);
  let facts = leak(AllFacts::default());
  let mut g = Graph::new(n);
  let mut vertex = vec![false; n];
  let mut last = 0;
  for i in 0..k {
    // in order; the order of facts carries no meaning
    let e = pick(n * n, "subset");
    assume(i == 0 || e > last);
    last = e;
    let (a, b) = (e / n, e % n);
    facts.subset_base.push((origin(a), origin(b), pt(0)));
    g.add(a, b);
    vertex[a] = true;
    vertex[b] = true;
  }
  g.close();
  for p in 0..np { facts.placeholder.push((origin(p), loan(100 + p))); }
  let mut known = Graph::new(n);
  for i in 0..n { for j in 0..n { if g.same(i, j) { known.add(i, j); } } }
  let mut last = 0;
  for i in 0..nk {
    let e = pick(np * np, "known");
    assume(i == 0 || e > last);
    last = e;
    facts.known_placeholder_subset.push((origin(e / np), origin(e % np)));
    known.add(e / np, e % np);
  }
  known.close();
  let mut is_abstract: Vec<bool> = (0..n).map(|i| i < np && vertex[i]).collect();
  let u = ty(TyKind::Bool);
  let t = Term { kind: Kind::Return, t: [0, 0], cleanup: false, len: 3 };
  let b = body::body_with_nodes(&[t], 1, |_, _| body::dummy(0, 0));
  locals(b, &[(false, u), (false, u)]);
  let mut c = ctxt(b, facts);
  unsafe {
    RETURNED = vec![];
    if param(5, 1) == 1 && any_bool("returns a reference") {
      let r = pick(n, "returned");
      assume(vertex[r]);
      RETURNED = vec![region(rustc_type_ir::RegionKind::ReVar(RegionVid::from_usize(r))), region(rustc_type_ir::RegionKind::ReErased)];
      is_abstract[r] = true;
    }
  }
  // 0: the local, 1: a field of it, 2: what it points to, 3: what its field points to, 4: a field of what it points to
  world().places = vec![project(1, &[]), project(1, &[field(0, u)]), project(1, &[ProjectionElem::Deref]), project(1, &[field(0, u), ProjectionElem::Deref]), project(1, &[ProjectionElem::Deref, field(0, u)])];
  world().conflict = (0..5).map(|_| vec![true; 5]).collect();
  c.locals_are_invalidated_at_exit = any_bool("invalidated");
  world().conflict[1][0] = any_bool("conflict");
  let mut map = rustc_data_structures::fx::FxIndexMap::default();
  let (mut local, mut dangling) = (vec![], vec![]);
  for l in 0..nl {
    let (r, p) = (pick(n, "loan"), pick(param(6, 3) as usize, "place"));
    assume(vertex[r]);
    let at = Location { block: body::bb(0), statement_index: l };
    let make = || {
      let mut b = borrow(at, world().places[p], BorrowKind::Shared);
      unsafe { *((&mut b as *mut BorrowData as *mut u8).add(64) as *mut u32) = r as u32; }
      assert!(b.region().as_usize() == r);
      b
    };
    borrows().push(make());
    map.insert(at, make());
    if p < 2 { local.push(r); }
    if any_bool("error") {
      c.polonius_output.errors.entry(pt(l)).or_default().push(loan(l));
      if c.locals_are_invalidated_at_exit && world().conflict[p][0] { dangling.push(r); }
    }
  }
  let at = c.borrow_set.location_map() as *const _ as usize;
  put(at, map);
  compute_flows(&mut c);
  let f = c.region_flows();
  for a in 0..n { for b in 0..n { check(c.is_universal_subset((origin(a), origin(b))) == (a < np || b < np), "subsets of placeholders are told apart"); } }
  for a in 0..n {
    if !vertex[a] { continue; }
    let o = origin(a);
    check(f.is_abstract_member(o) == (0..n).any(|p| is_abstract[p] && g.same(p, a)), "a region is abstract exactly if it equals a placeholder or a returned region");
    check(f.has_abstract_member(o) == (0..n).any(|p| is_abstract[p] && g.reach[p][a]), "a region contains an abstract one exactly if one flows into it");
    check(f.has_local_member(o) == local.iter().any(|l| g.reach[*l][a]), "a region contains a local one exactly if a borrow of a local flows into it");
    for b in 0..n {
      if !vertex[b] { continue; }
      let to_abstract = (0..n).any(|p| is_abstract[p] && g.same(p, b));
      let kind = f.flow_kind(o, origin(b));
      check(f.scc(o) == f.scc(origin(b)) || !g.same(a, b), "equal regions are one");
      check(f.scc(o) != f.scc(origin(b)) || g.same(a, b), "different regions are two");
      check(kind.is_valid_flow() == matches!(kind, FlowEdgeKind::Ok), "only Ok is valid");
      if g.same(a, b) { check(kind.is_valid_flow(), "data flows within a region"); cover("same"); }
      else if to_abstract && local.iter().any(|l| g.reach[*l][a]) { check(matches!(kind, FlowEdgeKind::LocalOutlivesUniversal), "a local does not outlive an abstract region"); cover("local"); }
      else if to_abstract && (0..n).any(|p| is_abstract[p] && g.reach[p][a] && !known.reach[p][b]) { check(matches!(kind, FlowEdgeKind::MissingUniversalConstraint), "an abstract region flows only into those it outlives"); cover("missing"); }
      else if dangling.iter().any(|l| local.contains(l) && g.reach[*l][a]) { check(matches!(kind, FlowEdgeKind::LocalInvalidatedAtExit), "a dangling local flows nowhere"); cover("dangling"); }
      else { check(kind.is_valid_flow(), "other flows are valid"); cover("valid"); }
    }
  }
}
