// Derivation of the permission facts: moves, loans, initialization and declared mutability.
use super::*;
#[allow(dead_code)] mod vs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/vs.rs")); }
#[allow(dead_code)] mod body { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_body.rs")); }
#[allow(dead_code)] mod ctx { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_ctxt.rs")); }
#[cfg(aquascope_stubs = "aq_facts")] mod stubs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_stubs.rs")); }
use vs::*;
use ctx::*;
use body::{blocks, dummy, zeroed, Kind, Term};
use polonius_engine::AllFacts;
use rustc_borrowck::consumers::RustcFacts;
use rustc_middle::mir::{BorrowKind, FakeBorrowKind, Location, MutBorrowKind, BasicBlock, Local};
use rustc_mir_dataflow::move_paths::MoveOut;

/// One block of `n` locations: points 0, 2, .. are their starts.
fn line(n: usize, ls: &[(bool, rustc_middle::ty::Ty<'static>)]) -> &'static mut rustc_middle::mir::Body<'static> {
  let b = body::body(&[Term { kind: Kind::Return, t: [0, 0], cleanup: false, len: n - 1 }], dummy);
  locals(b, ls);
  b
}
fn two() -> [(bool, rustc_middle::ty::Ty<'static>); 2] { [(false, ty(ty_bool())), (false, ty(ty_bool()))] }
fn at(i: usize) -> Location { Location { block: BasicBlock::from_usize(0), statement_index: i } }
/// Places _0, _1, _1.0, _1.1 and _1.2 (deep: _1.0.2), the last only a move path; the move paths are _0, _1, _1.0 and the last.
const MPS: [usize; 4] = [0, 1, 2, 4];
static mut PARENT: [Option<usize>; 4] = [None, None, Some(1), Some(1)];
fn parent(i: usize) -> Option<usize> { unsafe { PARENT[i] } }
fn places(deep: bool) {
  let u = ty(rustc_middle::ty::TyKind::Bool);
  let w = world();
  w.places = vec![project(0, &[]), project(1, &[]), project(1, &[field(0, u)]), project(1, &[field(1, u)]), if deep { project(1, &[field(0, u), field(2, u)]) } else { project(1, &[field(2, u)]) }];
  if deep { unsafe { PARENT[3] = Some(2); } }
  w.interior = vec![vec![0], vec![1, 2, 3], vec![2], vec![3], vec![4]];
}
/// Any symmetric conflicts between the places, each conflicting with itself.
fn any_conflicts(n: usize) {
  let mut c = vec![vec![true; n]; n];
  for i in 0..n { for j in 0..i { let x = any_bool("conflict"); c[i][j] = x; c[j][i] = x; } }
  world().conflict = c;
}
/// The edges from each point to the next, and `n` more.
fn edges(f: &mut AllFacts<RustcFacts>, n: usize, points: usize) -> Vec<(u8, u8)> {
  let mut v = vec![];
  for i in 1..points { f.cfg_edge.push((pt(i - 1), pt(i))); v.push((i as u8 - 1, i as u8)); }
  for _ in 0..n {
    let e = (below(points as u8, "edge"), below(points as u8, "edge"));
    f.cfg_edge.push((pt(e.0 as usize), pt(e.1 as usize)));
    v.push(e);
  }
  v
}
/// The move paths, each with its parent, its first child and its next sibling.
fn move_paths(c: &mut PermissionsCtxt<'static>) {
  for (i, p) in MPS.iter().enumerate() {
    let mut m = move_path(world().places[*p], parent(i));
    if i == 1 { m.first_child = Some(mp(2)); }
    if i == 2 { if parent(3) == Some(2) { m.first_child = Some(mp(3)); } else { m.next_sibling = Some(mp(3)); } }
    c.move_data.move_paths.push(m);
  }
}
fn path_of(c: &PermissionsCtxt<'static>, i: usize) -> Path { c.place_to_path(&world().places[i]) }

/// params: loans, points, live facts, kinds of loans
#[no_mangle] pub extern "C-unwind" fn h_facts_loans() {
  let (nl, np, nf, nk) = (param(0, 2) as usize, param(1, 2) as usize, param(2, 2) as usize, param(3, 3) as u32);
  places(false);
  any_conflicts(5);
  let mut f = AllFacts::default();
  let mut loans = vec![];
  for i in 0..nl {
    let p = pick(5, "borrowed");
    let k = pick(nk as _, "kind");
    borrows().push(borrow(at(0), world().places[p], match k { 0 => BorrowKind::Shared, 1 => BorrowKind::Mut { kind: MutBorrowKind::Default }, 2 => BorrowKind::Fake(FakeBorrowKind::Shallow), 3 => BorrowKind::Mut { kind: MutBorrowKind::TwoPhaseBorrow }, 4 => BorrowKind::Mut { kind: MutBorrowKind::ClosureCapture }, _ => BorrowKind::Fake(FakeBorrowKind::Deep) }));
    check(borrows()[i].borrowed_place() == world().places[p], "harness: borrow data");
    f.loan_issued_at.push((rustc_borrowck::consumers::PoloniusRegionVid::from_usize(0), loan(i), pt(0)));
    loans.push((p, k == 1 || k == 3 || k == 4));
  }
  let mut c = ctxt(line(np, &two()), leak(f));
  move_paths(&mut c);
  let mut live = vec![];
  for _ in 0..nf {
    let (p, l) = (below(np as u8, "live at"), below(nl as u8, "live"));
    c.polonius_output.loan_live_at.entry(pt(p as usize * 2)).or_default().push(loan(l as usize));
    live.push((p, l));
  }
  derive_permission_facts(&mut c);
  let o = &c.permissions_output;
  for point in 0..np {
    for (i, _) in world().places.iter().enumerate() {
      let path = path_of(&c, i);
      for which in 0..3 {
        let m = [&o.loan_read_refined, &o.loan_write_refined, &o.loan_drop_refined][which];
        let got = m.get(&pt(2 * point)).and_then(|m| m.get(&path)).copied();
        let by = |l: usize| { let mut r = false; for x in &live { r |= (x.0 as usize == point) & (x.1 as usize == l); } r & world().conflict[loans[l].0][i] & (which != 0 || loans[l].1) };
        let mut want = false;
        for l in 0..nl { want |= by(l); }
        check(got.is_some() == want, ["a path cannot be read exactly when a mutable loan of it is live", "a path cannot be written exactly when a loan of it is live", "a path cannot be owned exactly when a loan of it is live"][which]);
        if let Some(l) = got { check(l.as_usize() < nl && by(l.as_usize()), "the loan named is one that refines the path"); }
        if want { cover(["not readable", "not writeable", "not ownable"][which]); } else { cover("not refined"); }
      }
    }
    check(o.loan_read_refined.get(&pt(2 * point + 1)).is_none() && o.loan_write_refined.get(&pt(2 * point + 1)).is_none() && o.loan_drop_refined.get(&pt(2 * point + 1)).is_none(), "no other point is refined");
  }
}
fn ty_bool() -> rustc_middle::ty::TyKind<'static> { rustc_middle::ty::TyKind::Bool }

/// params: moves, locations, further edges, assignments, whether the move paths nest
#[no_mangle] pub extern "C-unwind" fn h_facts_moves() {
  let (nm, nl, ne, na) = (param(0, 1) as usize, param(1, 2) as usize, param(2, 2) as usize, param(3, 1) as usize);
  let np = 2 * nl;
  places(param(4, 0) == 1);
  any_conflicts(5);
  let mut f = AllFacts::default();
  let es = edges(&mut f, ne, np);
  let mut assigned = vec![];
  for _ in 0..na {
    let (p, m) = (below(np as u8, "assigned at"), pick(4, "assigned"));
    f.path_assigned_at_base.push((mp(m), pt(p as usize)));
    assigned.push((p, MPS[m]));
  }
  let mut c = ctxt(line(nl, &two()), leak(f));
  move_paths(&mut c);
  let mut moves = vec![];
  for _ in 0..nm {
    let (m, l) = (pick(4, "moved"), below(nl as u8, "moved at"));
    c.move_data.moves.push(MoveOut { path: mp(m), source: at(l as usize) });
    moves.push((m, l));
  }
  derive_permission_facts(&mut c);
  let o = &c.permissions_output;
  // live[m][p]: the move m is in effect after point p
  let mut live = vec![vec![false; np]; nm];
  for m in 0..nm {
    let place = MPS[moves[m].0];
    for p in 0..np { live[m][p] = p == 2 * moves[m].1 as usize; }
    for _ in 0..np {
      for e in &es {
        let mut from = false;
        for p in 0..np { from |= live[m][p] & (e.0 as usize == p); }
        let mut kill = false;
        for a in &assigned { kill |= (a.0 == e.1) & world().conflict[a.1][place]; }
        for p in 0..np { live[m][p] |= from & !kill & (e.1 as usize == p); }
      }
    }
  }
  for p in 0..np {
    let mut entry = vec![false; nm];
    for m in 0..nm { for e in &es { for q in 0..np { entry[m] |= (e.0 as usize == q) & (e.1 as usize == p) & live[m][q]; } } }
    let got = o.move_live_at.get(&pt(p));
    for m in 0..nm {
      let n = got.map_or(0, |v| v.iter().filter(|x| x.as_usize() == m).count());
      check((n == 1) == entry[m] && n <= 1, "a move is in effect at the points it reaches without an assignment in between");
      if entry[m] { cover("in effect"); } else { cover("not in effect"); }
    }
    for i in 0..world().places.len() {
      let by = |m: usize| {
        let mut r = world().interior[MPS[moves[m].0]].contains(&i);
        let mut a = parent(moves[m].0);
        while let Some(q) = a { r |= MPS[q] == i; a = parent(q); }
        r & entry[m]
      };
      let got = o.move_refined.get(&pt(p)).and_then(|m| m.get(&path_of(&c, i))).copied();
      let mut want = false;
      for m in 0..nm { want |= by(m); }
      check(got.is_some() == want, "a path is moved exactly where a move of it, of what contains it or of its part is in effect");
      if let Some(m) = got { check(m.as_usize() < nm && by(m.as_usize()), "the move named is one that moves the path"); }
      if want { cover("moved"); }
    }
  }
}

/// params: points, facts, further edges, child facts, whether the move paths nest
#[no_mangle] pub extern "C-unwind" fn h_facts_init() {
  let (np, nf, ne, nc) = (param(0, 3) as usize, param(1, 2) as usize, param(2, 2) as usize, param(3, 2) as usize);
  places(param(4, 0) == 1);
  any_conflicts(5);
  let mut f = AllFacts::default();
  let es = edges(&mut f, ne, np);
  // the child facts of the move paths, each there or not
  let mut child = vec![];
  for (a, b) in [(2, 1), (3, parent(3).unwrap())].iter().take(nc) {
    if pick(2, "child") == 1 { f.child_path.push((mp(*a), mp(*b))); child.push((MPS[*a], MPS[*b])); }
  }
  let mut c = ctxt(line((np + 1) / 2, &two()), leak(f));
  move_paths(&mut c);
  let mut un = vec![];
  for _ in 0..nf {
    let (p, m) = (below(np as u8, "uninitialized at"), pick(4, "uninitialized"));
    c.polonius_output.path_maybe_uninitialized_on_exit.entry(pt(p as usize)).or_default().push(mp(m));
    un.push((p, MPS[m]));
  }
  derive_permission_facts(&mut c);
  for p in 0..np {
    let entry = |i: usize| { let mut r = false; for e in &es { for u in &un { r |= (u.1 == i) & (u.0 == e.0) & (e.1 as usize == p); } } r };
    for i in 0..world().places.len() {
      let mut want = entry(i);
      for (a, b) in &child { if *b == i { want |= entry(*a); for (x, y) in &child { if y == a { want |= entry(*x); } } } }
      let got = c.permissions_output.path_maybe_uninitialized_on_entry.get(&pt(p)).is_some_and(|s| s.contains(&path_of(&c, i)));
      check(got == want, "a path may be uninitialized exactly where it, or a part of it, is so after a preceding point");
      if want { cover("uninitialized"); } else { cover("initialized"); }
    }
  }
}

/// params: the most projections, kinds of locals
#[no_mangle] pub extern "C-unwind" fn h_facts_write() {
  let n = pick(param(0, 2) as usize + 1, "projections");
  let leaf = ty(ty_bool());
  let mut kinds = vec![];
  let mut elems = vec![];
  let mut t = leaf;
  // from the place's own type outwards to the local's
  for _ in 0..n {
    let k = pick(6, "projection");
    let mutable = k % 2 == 1;
    elems.insert(0, match k { 4 => ProjectionElem::Deref, 5 => field(0, t), _ => ProjectionElem::Deref });
    t = match k { 0 | 1 => ty_ref(t, mutable), 2 | 3 => ty_ptr(t, mutable), 4 => ty_box(t), _ => ty_adt(0) };
    kinds.insert(0, k);
  }
  let place = project(1, &elems);
  let w = world();
  w.places = vec![project(0, &[]), project(1, &[]), place];
  w.interior = vec![vec![0], if n == 0 { vec![1] } else { vec![1, 2] }, vec![2]];
  if n == 0 { w.places.pop(); w.interior.pop(); }
  any_conflicts(3);
  let m = any_bool("mutable");
  let b = line(1, &[(false, leaf), (m, t)]);
  local_info(b, 1, pick(param(1, 6) as _, "what the local is"));
  let mut c = ctxt(b, leak(AllFacts::default()));
  derive_permission_facts(&mut c);
  // Rust's rule: the innermost pointer the place lies behind decides, but for mutable references, which a shared one overrules.
  let mut write = true;
  let mut decided = false;
  for k in kinds.iter().rev() {
    if decided { continue; }
    match k { 0 | 2 => { write = false; decided = true; } 3 => decided = true, _ => {} }
  }
  let behind = kinds.contains(&1);
  let want = if decided { write } else { behind | m };
  let path = path_of(&c, world().places.len() - 1);
  check(c.permissions_output.never_write.contains(&path) == !want, "a path is never writeable exactly when Rust's mutability rules forbid it");
  if want { cover("writeable"); } else { cover("not writeable"); }
  if n > 1 && kinds.contains(&4) { cover("box"); }
  check(c.permissions_output.never_write.contains(&path_of(&c, 1)) == !m, "a local is writeable exactly when declared so");
  check(c.permissions_output.never_write.contains(&path_of(&c, 0)), "each path is judged by its own local");
}
