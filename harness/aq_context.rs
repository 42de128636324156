// What a permissions context says about a path at a point, given the derived facts.
use super::*;
#[allow(dead_code)] mod vs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/vs.rs")); }
#[allow(dead_code)] mod body { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_body.rs")); }
#[allow(dead_code)] mod ctx { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_ctxt.rs")); }
#[cfg(aquascope_stubs = "aq_context")] mod stubs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_stubs.rs")); }
use vs::*;
use ctx::*;
use body::{dummy, Kind, Term};
use rustc_middle::mir::BasicBlock;
use rustc_middle::ty::TyKind;

fn line(n: usize, ls: &[(bool, Ty<'static>)]) -> &'static mut rustc_middle::mir::Body<'static> {
  let b = body::body(&[Term { kind: Kind::Return, t: [0, 0], cleanup: false, len: n - 1 }], dummy);
  locals(b, ls);
  b
}
/// The paths _1, _1.0, _2 and _1.0 once more.
fn paths(c: &mut PermissionsCtxt<'static>) -> Ty<'static> {
  let u = ty(TyKind::Bool);
  world().places = vec![project(1, &[]), project(1, &[field(0, u)]), project(2, &[])];
  for i in [0, 1, 2, 1] { c.new_path(world().places[i]); }
  u
}
fn key(x: &[(u8, u8, u32)], path: usize, point: usize) -> (bool, u32) {
  let mut r = (false, 0);
  for (p, q, k) in x { let h = (*p as usize == path) & (*q as usize == point); r = (r.0 | h, if h { *k } else { r.1 }); }
  r
}

/// params: points
#[no_mangle] pub extern "C-unwind" fn h_ctx_data() {
  let np = param(0, 2) as usize;
  let (t, u, v) = (ty(TyKind::Bool), ty(TyKind::Char), ty(TyKind::Str));
  let mut c = ctxt(line(np, &[(false, t), (false, u), (false, v)]), leak(AllFacts::default()));
  let w = paths(&mut c);
  // of _0, _1, _1.0 and _2
  let copyable = [any_bool("copyable"), any_bool("copyable"), any_bool("copyable"), any_bool("copyable")];
  world().copyable = [t, u, w, v].iter().zip(copyable).map(|(t, c)| (unsafe { std::mem::transmute(*t) }, c)).collect();
  let mut x: [Vec<(u8, u8, u32)>; 5] = Default::default();
  for i in 0..5 {
    let (p, q, k) = (below(3, "path"), below(np as u8 + 1, "point"), below(200, "key") as u32);
    x[i].push((p, q, k));
    let (path, point) = (Path::from_usize(p as usize), pt(q as usize));
    let o = &mut c.permissions_output;
    match i {
      0 => { o.path_maybe_uninitialized_on_entry.entry(point).or_default().insert(path); }
      1 => { o.move_refined.entry(point).or_default().insert(path, Move::from_u32(k)); }
      2 => { o.loan_read_refined.entry(point).or_default().insert(path, Loan::from_u32(k)); }
      3 => { o.loan_write_refined.entry(point).or_default().insert(path, Loan::from_u32(k)); }
      _ => { o.loan_drop_refined.entry(point).or_default().insert(path, Loan::from_u32(k)); }
    }
  }
  let readonly = below(3, "never written");
  c.permissions_output.never_write.insert(Path::from_usize(readonly as usize));
  let (lv, lp) = (below(2, "live") + 1, below(np as u8, "live at"));
  c.polonius_output.var_live_on_entry.entry(pt(lp as usize)).or_default().push(Local::from_usize(lv as usize));
  let (path, point) = (pick(3, "path"), pick(np, "point"));
  let d = c.permissions_data_at_point(Path::from_usize(path), pt(point));
  check(d.is_live == ((lv as usize == if path == 2 { 2 } else { 1 }) & (lp as usize == point)), "a path is live exactly where its variable is");
  check(d.type_writeable == (readonly as usize != path), "a path is of a writeable type unless it is never written");
  check(d.type_droppable, "locals and their fields can be owned");
  check(d.type_copyable == copyable[path + 1], "a path is copyable exactly when its type is");
  check(d.path_uninitialized == key(&x[0], path, point).0, "a path is uninitialized exactly where derived");
  for i in 1..5 {
    let got = match i { 1 => d.path_moved.map(|k| k.0), 2 => d.loan_read_refined.map(|k| k.0), 3 => d.loan_write_refined.map(|k| k.0), _ => d.loan_drop_refined.map(|k| k.0) };
    let want = key(&x[i], path, point);
    check(got.is_some() == want.0, ["", "a path is moved exactly where derived", "reading is refined exactly where derived", "writing is refined exactly where derived", "owning is refined exactly where derived"][i]);
    if let Some(k) = got { check(k == want.1, "the move or loan is the derived one"); cover("refined"); } else { cover("not refined"); }
  }
  let m = c.max_permissions(Path::from_usize(path));
  check(m.read & m.drop & (m.write == (readonly as usize != path)), "the most permissions a path can have");
}

/// params: the most projections
#[no_mangle] pub extern "C-unwind" fn h_ctx_drop() {
  let n = pick(param(0, 2) as usize + 1, "projections");
  let mut t = ty(TyKind::Bool);
  let (mut elems, mut kinds) = (vec![], vec![]);
  world().dtor = vec![];
  // from the place's own type outwards to the local's
  for _ in 0..n {
    let k = pick(8, "projection");
    elems.insert(0, match k { 0..=2 => ProjectionElem::Deref, 3 => field(0, t), 4 => field(1, t), 5 => ProjectionElem::Index(Local::from_usize(1)), 6 => ProjectionElem::ConstantIndex { offset: 0, min_length: 1, from_end: false }, _ => ProjectionElem::Downcast(None, rustc_abi::VariantIdx::from_usize(0)) });
    t = match k {
      0 => ty_ref(t, any_bool("mutable")),
      1 => ty_ptr(t, any_bool("mutable")),
      2 => ty_box(t),
      3 => ty_adt(0),
      4 => {
        // an ADT that perhaps has a destructor
        let a = ty_adt(0);
        let TyKind::Adt(d, _) = a.kind() else { panic!() };
        let has = any_bool("destructor");
        world().dtor.push((unsafe { std::mem::transmute(*d) }, has));
        kinds.insert(0, (4, has));
        t = a;
        continue;
      }
      5 | 6 => ty(TyKind::Slice(t)),
      _ => t,
    };
    kinds.insert(0, (k, false));
  }
  let readonly = any_bool("never written");
  let mut c = ctxt(line(1, &[(false, ty(TyKind::Bool)), (false, t)]), leak(AllFacts::default()));
  let path = c.new_path(project(1, &elems));
  if readonly { c.permissions_output.never_write.insert(path); }
  let mut owned = true;
  for (k, has) in &kinds { owned &= match k { 0 | 1 | 5 | 6 => false, 4 => !*has, _ => true }; }
  check(c.is_path_drop_enabled(path) == owned, "a path can be owned exactly when Rust's rules let it be moved out of");
  let m = c.max_permissions(path);
  check(m.read & (m.drop == owned) & (m.write == !readonly), "the most permissions a path can have");
  if owned { cover("can be owned"); } else { cover("cannot be owned"); }
  if kinds.iter().any(|k| k.0 == 2) { cover("box"); }
}

/// params: blocks, statements
#[no_mangle] pub extern "C-unwind" fn h_ctx_points() {
  let (n, len) = (param(0, 2) as usize, param(1, 1) as usize);
  let mut ts = vec![];
  for i in 0..n {
    let kind = [Kind::Return, Kind::Unreachable][pick(2, "terminator")];
    ts.push(Term { kind, t: [0, 0], cleanup: any_bool("cleanup"), len: pick(len + 1, "statements") });
    let _ = i;
  }
  let b = body::body(&ts, dummy);
  locals(b, &[]);
  let mut assigns = vec![];
  for (i, t) in ts.iter().enumerate() {
    for s in 0..t.len {
      let a = pick(2, "assignment") == 1;
      if a {
        let p = body::place(1);
        b.basic_blocks.as_mut_preserves_cfg()[BasicBlock::from_usize(i)].statements[s].kind = rustc_middle::mir::StatementKind::Assign(Box::new((p, rustc_middle::mir::Rvalue::Use(rustc_middle::mir::Operand::Copy(p)))));
      }
      assigns.push((i, s, a));
    }
  }
  let c = ctxt(b, leak(AllFacts::default()));
  let mut next = 0;
  for (i, t) in ts.iter().enumerate() {
    for s in 0..=t.len {
      let l = Location { block: BasicBlock::from_usize(i), statement_index: s };
      let ps = c.location_to_points(l);
      check(ps.len() == 2 && ps[0] == pt(next) && ps[1] == pt(next + 1), "a location has two points");
      check(c.location_to_point(l) == pt(next), "a location's point is its start");
      check(c.point_to_location(pt(next)) == l && c.point_to_location(pt(next + 1)) == l, "both points of a location lead back to it");
      let real = s == t.len || assigns.iter().any(|a| *a == (i, s, true));
      let want = !t.cleanup & !(t.len == 0 && t.kind == Kind::Unreachable) & real;
      check(c.is_location_operational(l) == want, "operational locations are the assignments and terminators of real blocks");
      check(c.is_point_operational(pt(next)) == want && c.is_point_operational(pt(next + 1)) == want, "points are operational as their locations are");
      if want { cover("operational"); } else { cover("not operational"); }
      next += 2;
    }
  }
}

/// params: paths
#[no_mangle] pub extern "C-unwind" fn h_ctx_paths() {
  let n = param(0, 3) as usize;
  let u = ty(TyKind::Bool);
  world().places = vec![project(1, &[]), project(1, &[field(0, u)]), project(2, &[]), project(2, &[field(0, u)])];
  let mut c = ctxt(line(1, &[(false, u), (false, u), (false, u)]), leak(AllFacts::default()));
  let mut new = vec![];
  for _ in 0..n {
    let i = pick(4, "place");
    let p = c.new_path(world().places[i]);
    check(p.as_usize() == new.len(), "paths are numbered in order");
    new.push(i);
  }
  for (k, i) in new.iter().enumerate() {
    let path = Path::from_usize(k);
    check(c.path_to_place(path) == world().places[*i], "a path stands for its place");
    check(c.path_to_variable(path).as_usize() == [1, 1, 2, 2][*i], "a path belongs to its place's variable");
    let first = new.iter().position(|j| j == i).unwrap();
    check(c.place_to_path(&world().places[*i]).as_usize() == first, "all that is known of a place is known of one path");
    if first < k { cover("place given twice"); }
  }
  cover("paths");
}

/// params: loans, live facts, locations, subset facts
#[no_mangle] pub extern "C-unwind" fn h_ctx_regions() {
  let (nl, nf, np) = (param(0, 2) as usize, param(1, 3) as usize, param(2, 3) as usize);
  let mut sp = vec![];
  for i in 0..np {
    let lo = below(16, "span start");
    let hi = below(16, "span end");
    assume(lo <= hi);
    sp.push((lo, hi));
    let _ = i;
  }
  let span = |i: usize| Span::new(rustc_span::BytePos(100 + sp[i].0 as u32), rustc_span::BytePos(100 + sp[i].1 as u32), rustc_span::SyntaxContext::root(), None);
  let b = body::body(&[Term { kind: Kind::Return, t: [0, 0], cleanup: false, len: np - 1 }], |_, s| body::info(span(s), 0));
  b.span = Span::new(rustc_span::BytePos(0), rustc_span::BytePos(1000), rustc_span::SyntaxContext::root(), None);
  locals(b, &[]);
  let mut c = ctxt(b, leak(AllFacts::default()));
  let mut live = vec![];
  for _ in 0..nf {
    let (p, l) = (pick(np, "live at"), below(nl as u8, "live"));
    c.polonius_output.loan_live_at.entry(pt(2 * p)).or_default().push(loan(l as usize));
    live.push((p, l as usize));
  }
  c.construct_loan_regions();
  let r = c.loan_regions.as_ref().unwrap();
  for l in 0..nl {
    let got = r.get(&loan(l)).map(|(a, b)| (c.point_to_location(*a).statement_index, c.point_to_location(*b).statement_index));
    let any = live.iter().any(|x| x.1 == l);
    check(got.is_some() == any, "exactly the loans that are live somewhere have a region");
    if let Some((a, e)) = got {
      let (mut first, mut last, mut ina, mut ine) = (true, true, false, false);
      for (p, m) in &live {
        let me = *m == l;
        first &= !me | (sp[a].0 <= sp[*p].0);
        last &= !me | (sp[e].1 >= sp[*p].1);
        ina |= me & (*p == a);
        ine |= me & (*p == e);
      }
      check(first, "a loan's region starts where the first code begins at which it is live");
      check(last, "a loan's region ends where the last code ends at which it is live");
      check(ina & ine, "a loan's region starts and ends where it is live");
      cover("region");
    } else { cover("never live"); }
  }
}
