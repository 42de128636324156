// The tables of permission steps, made of the segments of a body and collected per line.
use super::*;
#[allow(dead_code)] mod vs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/vs.rs")); }
#[allow(dead_code)] mod body { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_body.rs")); }
#[allow(dead_code)] mod ctx { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_ctxt.rs")); }
#[cfg(aquascope_stubs = "aq_tables")] mod stubs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_stubs.rs")); }
use vs::*;
use ctx::{ctxt, def_id, field, leak, locals, project, pt, ty, world};
use body::{bb, Kind, Term};
use crate::analysis::ir_mapper::{GatherMode, IRMapper};
use crate::analysis::permissions::{Loan, Move, Path};
use polonius_engine::AllFacts;
use rustc_middle::ty::TyKind;
use rustc_span::{BytePos, SyntaxContext};
use std::mem::MaybeUninit;

extern "Rust" { fn vx_diagnostics(def_id: rustc_hir::def_id::LocalDefId, error: Option<Span>); }
fn l(b: usize) -> Location { Location { block: bb(b), statement_index: 0 } }
fn span(lo: u32, hi: u32) -> Span { Span::new(BytePos(lo), BytePos(hi), SyntaxContext::root(), None) }

/// The places _1, _1.0 and _2, with facts that tell all points apart.
fn setup(ts: &[Term], at: impl Fn(usize, usize) -> rustc_middle::mir::SourceInfo) -> PermissionsCtxt<'static> {
  let u = ty(TyKind::Bool);
  let b = body::body_with_nodes(ts, 1, at);
  b.span = span(0, 1000);
  locals(b, &[(false, u), (false, u), (false, u)]);
  let mut c = ctxt(b, leak(AllFacts::default()));
  world().places = vec![project(1, &[]), project(1, &[field(0, u)]), project(2, &[])];
  world().interior = vec![vec![0, 1], vec![1], vec![2]];
  for i in 0..3 { c.new_path(world().places[i]); }
  c
}
fn facts(c: &mut PermissionsCtxt<'static>, points: usize) {
  for b in 0..points / 2 { if b % 3 == 1 { c.polonius_output.var_live_on_entry.entry(pt(2 * b)).or_default().push(Local::from_usize(1)); } }
  for p in 0..points / 2 {
    let p = pt(2 * p);
    for i in 0..3 { c.permissions_output.move_refined.entry(p).or_default().insert(Path::from_usize(i), Move::from_u32((p.as_usize() * 3 + i) as u32)); }
    if p.as_usize() % 4 == 0 { c.permissions_output.loan_write_refined.entry(p).or_default().insert(Path::from_usize(2), Loan::from_u32(p.as_usize() as u32)); }
  }
}

struct Want { segment: MirSegment, span: Option<Span>, hidden: Vec<Local>, shown: Option<Vec<Local>> }
/// All segments of a collection and what is in it.
fn wanted(mir: &SegmentedMir, c: CollectionId, at: &HashMap<ScopeId, Vec<Local>>, out: &mut Vec<Want>) {
  let seg = |s: SegmentId, out: &mut Vec<Want>| {
    let d = mir.get_segment(s);
    let mut hidden = vec![];
    for p in mir.parent_scopes(d.scope) { if let Some(v) = at.get(&p) { hidden.extend(v.iter().copied()); } }
    if d.segment.from != d.segment.to { out.push(Want { segment: d.segment, span: Some(d.span), hidden, shown: None }); }
  };
  for d in &mir.get_collection(c).data {
    match d {
      CFKind::Linear(s) => seg(*s, out),
      CFKind::Branch(b) => {
        let br = mir.get_branch(*b);
        for s in &br.splits { seg(*s, out); }
        for c in &br.nested { wanted(mir, *c, at, out); }
        let here = at.get(&mir.get_segment(br.splits[0]).scope).cloned().unwrap_or_default();
        out.push(Want { segment: br.reach, span: None, hidden: vec![], shown: Some(here) });
      }
    }
  }
}

/// params: switches, insertions
#[no_mangle] pub extern "C-unwind" fn h_tables_body() {
  let (k, steps) = (param(0, 2) as usize, param(1, 2) as usize);
  let ts = body::chain(k);
  let n = ts.len();
  let mut c = setup(&ts, |_, _| body::info(span(50, 51), 0));
  let mapper = IRMapper::new(body::tcx(), &c.body_with_facts.body, GatherMode::IgnoreCleanup);
  let mut b = SegmentedMirBuilder::make(&mapper);
  let mut locals_at_scope: HashMap<ScopeId, Vec<Local>> = HashMap::default();
  let scoped = pick(3, "scope");
  let mut scope = None;
  if scoped > 0 {
    let s = b.open_scope().unwrap();
    locals_at_scope.insert(s, vec![Local::from_usize(scoped)]);
    scope = Some(s);
  }
  let outer = b.open_branch(l(0), |_| span(60, 61));
  assume(outer.is_ok());
  let inner_scope = if scoped > 0 && any_bool("inner scope") { Some(b.open_scope().unwrap()) } else { None };
  let mut inner = None;
  for i in 0..steps {
    // into the second switch of the chain, or anywhere
    if inner.is_none() && any_bool("branch") { match b.open_branch(l(1), |_| span(70, 71)) { Ok(x) => { inner = Some(x); } Err(_) => { assume(false); } } }
    else { let at = pick(n - 1, "block") + 1; assume(b.insert(l(at), None, span(100 + i as u32, 101 + i as u32)).is_ok()); }
  }
  if let Some(x) = inner { assume(b.close_branch(x).is_ok()); }
  if let Some(s) = inner_scope { b.close_scope(s).unwrap(); }
  assume(b.close_branch(outer.unwrap()).is_ok());
  if let Some(s) = scope { b.close_scope(s).unwrap(); }
  let Ok(mir) = b.freeze() else { assume(false); return };
  facts(&mut c, 2 * n);
  let mut a: Box<MaybeUninit<AquascopeAnalysis<'static>>> = Box::new(MaybeUninit::zeroed());
  unsafe { std::ptr::write(std::ptr::addr_of_mut!((*a.as_mut_ptr()).permissions), c); }
  let a = unsafe { Box::leak(a).assume_init_ref() };
  let mut want = vec![];
  wanted(&mir, mir.first_collection, &locals_at_scope, &mut want);
  let t = TableBuilder { analysis: a, ctxt: &a.permissions, mir: &mir, locals_at_scope };
  let mut got = Tables::default();
  t.insert_collection(&mut got, mir.first_collection);

  let total: usize = got.values().map(|v| v.len()).sum();
  check(total == want.len(), "every segment and branch of the body has one table");
  let same = |x: &Table, w: &Want| x.segment == w.segment && w.span.map_or(true, |s| s == x.span);
  for w in &want {
    let n = want.iter().filter(|v| v.segment == w.segment && v.span == w.span && v.shown == w.shown && v.hidden == w.hidden).count();
    let tables: Vec<&Table> = got.get(&w.segment.to).map(|v| v.iter().filter(|x| same(x, w)).collect()).unwrap_or_default();
    check(tables.len() >= n, "the table of a segment is among those of the location where it ends");
    if tables.len() > 1 { continue; }
    let Some(x) = tables.first() else { continue };
    for i in 0..3 {
      let p = world().places[i];
      let before = a.permissions.permissions_data_at_point(Path::from_usize(i), a.permissions.location_to_point(w.segment.from));
      let after = a.permissions.permissions_data_at_point(Path::from_usize(i), a.permissions.location_to_point(w.segment.to));
      let show = match &w.shown { None => !w.hidden.contains(&p.local), Some(v) => v.contains(&p.local) };
      match x.data.get(&p) {
        Some(d) => { check(show, "locals declared for a whole branch are left out within it"); check(*d == before.diff(after), "a table tells the differences between the ends of its segment"); cover("place"); }
        None => { check(!show, "a table has all other places"); cover("left out"); }
      }
    }
  }
  if want.iter().filter(|w| w.shown.is_some()).count() > 1 { cover("two branches"); }
  if got.values().any(|v| v.len() > 1) { cover("several tables at a location"); }
}

const LINE: u32 = 8;
#[no_mangle] pub fn vstub_extend_to_line(_: &rustc_span::source_map::SourceMap, s: Span) -> Span {
  let lo = s.lo().0 / LINE * LINE;
  span(lo, s.hi().0 / LINE * LINE + LINE - 1)
}
#[no_mangle] pub fn vstub_lookup_line(_: &rustc_span::source_map::SourceMap, p: BytePos) -> Result<rustc_span::SourceFileAndLine, rustc_data_structures::sync::Lrc<rustc_span::SourceFile>> {
  let file = Vec::leak(vec![1_000_000usize; std::mem::size_of::<rustc_span::SourceFile>() / 8 + 2]);
  Ok(rustc_span::SourceFileAndLine { sf: unsafe { std::mem::transmute(file.as_ptr()) }, line: concretize((p.0 / LINE) as u64) as usize })
}
static mut VISIBLE: [bool; 3] = [true; 3];
#[no_mangle] pub fn vstub_source_visible(p: &Place<'static>, _: rustc_middle::ty::TyCtxt<'static>, _: &rustc_middle::mir::Body<'static>) -> bool { unsafe { VISIBLE[ctx::index_of(*p)] } }
#[no_mangle] pub fn vstub_place_name(p: &Place<'static>, _: rustc_middle::ty::TyCtxt<'static>, _: &rustc_middle::mir::Body<'static>) -> Option<String> {
  match ctx::index_of(*p) { 0 => Some("a".into()), 1 => Some("b".into()), _ => None }
}
fn step(i: usize) -> ValueStep<bool> { match i { 0 => ValueStep::None { value: Some(false) }, 1 => ValueStep::None { value: Some(true) }, 2 => ValueStep::Low, _ => ValueStep::High { value: true } } }
/// A difference of which the read permission and the liveness are any.
fn diff(key: u32) -> PermissionsDataDiff {
  let (live, read) = (step(pick(3, "live")), step(pick(3, "read") + 1));
  let none = ValueStep::None { value: Some(true) };
  PermissionsDataDiff { is_live: live, type_droppable: none, type_writeable: none, path_moved: ValueStep::High { value: MoveKey(key) }, path_uninitialized: none, loan_read_refined: ValueStep::None { value: None },
    loan_write_refined: ValueStep::None { value: None }, loan_drop_refined: ValueStep::None { value: None }, permissions: PermissionsDiff { read, write: none, drop: none } }
}
fn opposite(a: &PermissionsDataDiff, b: &PermissionsDataDiff) -> bool {
  let c = |s: &ValueStep<bool>| match s { ValueStep::High { .. } => 1, ValueStep::Low => -1, ValueStep::None { .. } => 0 };
  c(&a.permissions.read) + c(&b.permissions.read) == 0
}

/// params: tables, entries
#[no_mangle] pub extern "C-unwind" fn h_tables_lines() {
  let (nt, ne) = (param(0, 2) as usize, param(1, 2) as usize);
  let at = |i: usize| (800 + i as u32, 801 + i as u32);
  let mut c = setup(&[Term { kind: Kind::Return, t: [0, 0], cleanup: false, len: 3 }], |_, s| body::info(span(at(s).0, at(s).1), 0));
  c.tcx = ctx::tcx_with_session();
  let all = any_bool("all");
  let error = if any_bool("error") { Some(below(32, "first error")) } else { None };
  unsafe {
    vx_diagnostics(def_id().expect_local(), error.map(|e| span(200 + e as u32, 201 + e as u32)));
    for i in 0..3 { VISIBLE[i] = i == 0 || any_bool("visible"); }
  }
  let mut a: Box<MaybeUninit<AquascopeAnalysis<'static>>> = Box::new(MaybeUninit::zeroed());
  unsafe { std::ptr::write(std::ptr::addr_of_mut!((*a.as_mut_ptr()).permissions), c); }
  let a = unsafe { Box::leak(a).assume_init_ref() };
  let mut tables = Tables::default();
  // (line, table's locations, entries that may be shown)
  let mut want: Vec<(usize, usize, usize, PermissionsDataDiff)> = vec![];
  for t in 0..nt {
    let (line, offset) = (pick(2, "line"), below(6, "column"));
    let lo = 200 + line as u32 * LINE + offset as u32;
    let mut data = HashMap::default();
    let late = match error { Some(e) => { let hi = 201 + e as u32; hi < 200 + (line as u32 + 1) * LINE - 1 } None => false };
    for e in 0..ne {
      let p = pick(4, "place");
      if p == 3 || data.contains_key(&world().places[p]) { continue; }
      let d = diff((t * ne + e) as u32);
      data.insert(world().places[p], d);
      let dead = matches!(d.is_live, ValueStep::None { value: Some(false) });
      let nothing = matches!(d.permissions.read, ValueStep::None { .. });
      if unsafe { VISIBLE[p] } && !dead && (all || !nothing) && !late { want.push((line, t, p, d)); }
    }
    let loc = Location { block: bb(0), statement_index: t };
    tables.entry(loc).or_default().push(Table { segment: MirSegment::new(loc, Location { block: bb(0), statement_index: t + 1 }), span: span(lo, lo + 1), data });
  }
  let out = prettify_permission_steps(a, tables, if all { PermIncludeMode::All } else { PermIncludeMode::Changes });
  let name = |p: usize| ["a", "b", "<var>"][p];
  let mut lines = 0;
  for line in 0..2 {
    let end = (200 + (line as u32 + 1) * LINE - 1) as usize;
    let shown: Vec<_> = out.iter().filter(|d| d.location.start.column == end && d.location.end.column == end).collect();
    check(shown.len() <= 1, "a line has one display");
    let mut n = 0;
    for p in 0..3 {
      let of: Vec<_> = want.iter().filter(|w| w.0 == line && w.2 == p).collect();
      let got: Vec<_> = shown.iter().flat_map(|d| d.state.iter()).flat_map(|t| t.state.iter()).filter(|x| x.0 == name(p)).collect();
      check(got.len() <= 1, "a place is shown once on a line");
      if of.len() == 1 {
        check(got.len() == 1 && got[0].1 == of[0].3, "a line shows each difference on it that is visible");
        cover("shown");
      } else if of.len() == 2 {
        if opposite(&of[0].3, &of[1].3) { check(got.is_empty(), "opposite differences on a line cancel out"); cover("cancelled"); }
        else { check(got.len() == 1 && of.iter().any(|w| got[0].1 == w.3), "a line shows one of its differences of a place"); cover("clash"); }
      } else if of.is_empty() {
        check(got.is_empty(), "a line shows only differences on it that are visible");
        cover("hidden");
      }
      n += got.len();
    }
    check(shown.is_empty() == (n == 0), "a line without differences is not displayed");
    if let Some(d) = shown.first() {
      lines += 1;
      check(d.state.len() == 1, "a line has one table");
      let t = &d.state[0];
      check(t.state.len() == n, "a line shows nothing else");
      let from = |i: usize| at(i).0 as usize;
      check(want.iter().any(|w| w.0 == line && t.from.start.column == from(w.1) && t.to.start.column == from(w.1 + 1)), "a table's range is that of one of its segments");
      let order: Vec<usize> = t.state.iter().map(|x| (0..3).find(|p| x.0 == name(*p)).unwrap()).collect();
      check(order.windows(2).all(|w| w[0] < w[1]), "places are in order");
    }
  }
  check(out.len() == lines, "there are no other displays");
}
