// A permissions context with symbolic facts. Only the fields that the code under check reads are written; what asks the compiler about
// types (which places a place contains, whether two places conflict) is answered by tables of the harness, in replays too.
use super::vs::*;
use super::body::*;
use crate::analysis::permissions::*;
use polonius_engine::AllFacts;
use rustc_borrowck::consumers::*;
use rustc_data_structures::fx::{FxHashMap as HashMap, FxHashSet as HashSet};
use rustc_hir::def_id::{DefId, LocalDefId, CRATE_DEF_ID};
use rustc_index::IndexVec;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, List, Ty, TyCtxt, TyKind};
use rustc_mir_dataflow::move_paths::{MoveOut, MovePath, MovePathIndex};
use std::mem::{transmute, MaybeUninit};

pub fn leak<T>(x: T) -> &'static mut T { Box::leak(Box::new(x)) }
/// An interned type that is not interned.
pub fn ty(kind: TyKind<'static>) -> Ty<'static> {
  let w: &'static mut rustc_type_ir::WithCachedTypeInfo<TyKind<'static>> = zeroed();
  unsafe { std::ptr::write(&mut w.internee, kind); transmute(&*w) }
}
pub fn region() -> ty::Region<'static> { unsafe { transmute(&*leak(rustc_type_ir::RegionKind::<TyCtxt<'static>>::ReStatic)) } }
pub fn ty_ref(to: Ty<'static>, mutable: bool) -> Ty<'static> { ty(TyKind::Ref(region(), to, if mutable { Mutability::Mut } else { Mutability::Not })) }
pub fn ty_ptr(to: Ty<'static>, mutable: bool) -> Ty<'static> { ty(TyKind::RawPtr(to, if mutable { Mutability::Mut } else { Mutability::Not })) }
/// An algebraic data type with the given flags (64: Box).
pub fn ty_adt(flags: u16) -> Ty<'static> {
  let d: &'static mut ty::AdtDefData = zeroed();
  assert!(std::mem::size_of::<ty::AdtDefData>() == 56);
  unsafe {
    *((d as *mut _ as *mut u8).add(48) as *mut u16) = flags;
    ty(TyKind::Adt(transmute(&*d), List::empty()))
  }
}
/// What a box, made by ty_adt, contains.
pub static mut BOXES: Vec<(usize, usize)> = vec![];
pub fn ty_box(to: Ty<'static>) -> Ty<'static> {
  let t = ty_adt(64);
  unsafe { #[allow(static_mut_refs)] BOXES.push((transmute(t), transmute(to))); }
  t
}
/// A list of places' projections that is not interned; its address is its identity.
pub fn projection(e: &[PlaceElem<'static>]) -> &'static List<PlaceElem<'static>> {
  if e.is_empty() { return List::empty(); }
  #[repr(C)] struct L { len: usize, e: [MaybeUninit<PlaceElem<'static>>; 4] }
  let mut l = L { len: e.len(), e: [const { MaybeUninit::uninit() }; 4] };
  for i in 0..e.len() { l.e[i].write(e[i]); }
  unsafe { transmute(&*leak(l)) }
}
pub fn project(local: usize, e: &[PlaceElem<'static>]) -> Place<'static> { Place { local: Local::from_usize(local), projection: projection(e) } }
pub fn field(i: usize, t: Ty<'static>) -> PlaceElem<'static> { ProjectionElem::Field(rustc_abi::FieldIdx::from_usize(i), t) }

/// What the harness says about places: each has an index.
pub struct World { pub places: Vec<Place<'static>>, pub interior: Vec<Vec<usize>>, pub conflict: Vec<Vec<bool>>, pub strict: bool, pub copyable: Vec<(usize, bool)>, pub dtor: Vec<(usize, bool)> }
pub static mut WORLD: World = World { places: vec![], interior: vec![], conflict: vec![], strict: false, copyable: vec![], dtor: vec![] };
#[allow(static_mut_refs)] pub fn world() -> &'static mut World { unsafe { &mut WORLD } }
pub fn index_of(p: Place<'static>) -> usize { world().places.iter().position(|q| *q == p).expect("a place of the harness") }

/// A body with the given local variables: (mutable, type).
pub fn locals(b: &mut Body<'static>, ls: &[(bool, Ty<'static>)]) {
  let mut v = IndexVec::with_capacity(ls.len());
  for (m, t) in ls {
    let mut d: LocalDecl<'static> = unsafe { MaybeUninit::zeroed().assume_init() };
    d.mutability = if *m { Mutability::Mut } else { Mutability::Not };
    unsafe { std::ptr::write(&mut d.ty, *t); std::ptr::write(&mut d.local_info, ClearCrossCrate::Set(Box::new(LocalInfo::Boring))); }
    v.push(d);
  }
  unsafe { std::ptr::write(&mut b.local_decls, v); }
}
/// What a local is: without interest, a variable (bound by value or by reference), an implicit self, a reborrow.
pub fn local_info(b: &mut Body<'static>, l: usize, k: usize) {
  use rustc_hir::{BindingMode, ByRef, ImplicitSelfKind};
  let var = |by: ByRef| LocalInfo::User(BindingForm::Var(VarBindingForm { binding_mode: BindingMode(by, Mutability::Not), opt_ty_info: None, opt_match_place: None, pat_span: rustc_span::DUMMY_SP }));
  let i = match k { 0 => LocalInfo::Boring, 1 => var(ByRef::No), 2 => var(ByRef::Yes(Mutability::Not)), 3 => LocalInfo::User(BindingForm::ImplicitSelf(ImplicitSelfKind::RefImm)), 4 => LocalInfo::DerefTemp, _ => LocalInfo::User(BindingForm::ImplicitSelf(ImplicitSelfKind::Imm)) };
  unsafe { std::ptr::write(&mut b.local_decls[Local::from_usize(l)].local_info, ClearCrossCrate::Set(Box::new(i))); }
}
#[no_mangle] pub fn vstub_local_info<'a>(d: &'a LocalDecl<'static>) -> &'a LocalInfo<'static> { match &d.local_info { ClearCrossCrate::Set(i) => i, _ => panic!("no local info") } }
#[no_mangle] pub fn vstub_can_be_made_mutable(d: &LocalDecl<'static>) -> bool {
  use rustc_hir::{BindingMode, ByRef, ImplicitSelfKind};
  matches!(vstub_local_info(d), LocalInfo::User(BindingForm::Var(VarBindingForm { binding_mode: BindingMode(ByRef::No, _), .. }) | BindingForm::ImplicitSelf(ImplicitSelfKind::Imm)))
}
#[no_mangle] pub fn vstub_is_user_variable(d: &LocalDecl<'static>) -> bool { matches!(vstub_local_info(d), LocalInfo::User(_)) }
#[no_mangle] pub fn vstub_is_ref_for_guard(d: &LocalDecl<'static>) -> bool { matches!(vstub_local_info(d), LocalInfo::User(BindingForm::RefForGuard)) }
#[no_mangle] pub fn vstub_is_nonref_binding(d: &LocalDecl<'static>) -> bool { vstub_can_be_made_mutable(d) || matches!(vstub_local_info(d), LocalInfo::User(BindingForm::ImplicitSelf(_))) }
/// The points of a body: two per location.
#[repr(C)] pub struct Table { before: IndexVec<BasicBlock, usize>, points: usize }
pub fn table(b: &Body<'static>) -> LocationTable {
  let (mut before, mut points) = (IndexVec::with_capacity(b.basic_blocks.len()), 0);
  for d in b.basic_blocks.iter() { before.push(points); points += 2 * (d.statements.len() + 1); }
  unsafe { transmute(Table { before, points }) }
}
pub fn borrow(at: Location, place: Place<'static>, kind: BorrowKind) -> BorrowData<'static> {
  assert!(std::mem::size_of::<BorrowData>() == 72 && std::mem::size_of::<BorrowKind>() == 2);
  unsafe {
    let mut b: MaybeUninit<BorrowData<'static>> = MaybeUninit::zeroed();
    let p = b.as_mut_ptr() as *mut u8;
    std::ptr::write(p.add(16) as *mut Location, at);
    std::ptr::write(p.add(32) as *mut Place, place);
    std::ptr::write(p.add(68) as *mut BorrowKind, kind);
    b.assume_init()
  }
}
pub static mut BORROWS: Vec<BorrowData<'static>> = vec![];
#[allow(static_mut_refs)] pub fn borrows() -> &'static mut Vec<BorrowData<'static>> { unsafe { &mut BORROWS } }
pub fn def_id() -> DefId { CRATE_DEF_ID.to_def_id() }
pub fn pt(i: usize) -> Point { Point::from_usize(i) }
pub fn loan(i: usize) -> BorrowIndex { BorrowIndex::from_usize(i) }
pub fn mp(i: usize) -> MovePathIndex { MovePathIndex::from_usize(i) }

/// A context with no facts.
pub fn ctxt(b: &'static mut Body<'static>, facts: &'static AllFacts<RustcFacts>) -> PermissionsCtxt<'static> {
  let bf: &'static mut BodyWithBorrowckFacts<'static> = zeroed();
  unsafe {
    let t = table(b);
    std::ptr::copy_nonoverlapping(b, &mut bf.body, 1);
    std::ptr::write(&mut bf.location_table, Some(t));
    let mut c: Box<MaybeUninit<PermissionsCtxt<'static>>> = Box::new(MaybeUninit::zeroed());
    let p = c.as_mut_ptr();
    macro_rules! put { ($f:ident, $v:expr) => { std::ptr::write(std::ptr::addr_of_mut!((*p).$f), $v) } }
    put!(tcx, tcx());
    put!(polonius_input_facts, facts);
    put!(permissions_output, Output::default());
    put!(body_id, rustc_hir::BodyId { hir_id: hir_id(0) });
    put!(def_id, def_id());
    put!(body_with_facts, &*bf);
    put!(loan_regions, None);
    put!(place_data, IndexVec::new());
    put!(rev_lookup, HashMap::default());
    put!(region_flows, None);
    macro_rules! out { ($($f:ident)*) => { $( std::ptr::write(std::ptr::addr_of_mut!((*p).polonius_output.$f), Default::default()); )* } }
    out!(errors loan_live_at var_live_on_entry path_maybe_uninitialized_on_exit known_contains);
    std::ptr::write(std::ptr::addr_of_mut!((*p).move_data.moves), IndexVec::new());
    std::ptr::write(std::ptr::addr_of_mut!((*p).move_data.move_paths), IndexVec::new());
    *c.assume_init()
  }
}
pub fn move_path(place: Place<'static>, parent: Option<usize>) -> MovePath<'static> { MovePath { next_sibling: None, first_child: None, parent: parent.map(mp), place } }

// What is asked of the compiler, answered by the harness (in replays too).
#[no_mangle] pub fn vstub_interior_paths(p: &Place<'static>, _: TyCtxt<'static>, _: &Body<'static>, _: DefId) -> HashSet<Place<'static>> {
  let mut s = HashSet::default();
  if let Some(i) = world().places.iter().position(|q| q == p) { for j in &world().interior[i] { s.insert(world().places[*j]); } }
  s
}
#[no_mangle] pub fn vstub_normalize(p: &Place<'static>, _: TyCtxt<'static>, _: DefId) -> Place<'static> { *p }
#[no_mangle] pub fn vstub_places_conflict(_: TyCtxt<'static>, _: &Body<'static>, a: Place<'static>, b: Place<'static>, bias: PlaceConflictBias) -> bool {
  // without the overlap bias, fewer places conflict: only equal ones here
  let (i, j) = (index_of(a), index_of(b));
  world().conflict[i][j] & (matches!(bias, PlaceConflictBias::Overlap) | (i == j))
}
#[no_mangle] pub fn vstub_mk_place_elems(_: TyCtxt<'static>, e: &[PlaceElem<'static>]) -> &'static List<PlaceElem<'static>> { if e.is_empty() { List::empty() } else { panic!("places are made by the harness") } }
#[no_mangle] pub fn vstub_body_owner(_: rustc_middle::hir::map::Map<'static>, _: rustc_hir::BodyId) -> LocalDefId { CRATE_DEF_ID }
#[no_mangle] pub fn vstub_borrow<'a>(_: &'a BorrowSet<'static>, l: BorrowIndex) -> &'a BorrowData<'static> { &borrows()[l.as_usize()] }
#[allow(static_mut_refs)]
#[no_mangle] pub fn vstub_builtin_deref(t: Ty<'static>, _: bool) -> Option<Ty<'static>> {
  match t.kind() {
    TyKind::Ref(_, t, _) | TyKind::RawPtr(t, _) => Some(*t),
    _ => unsafe { BOXES.iter().find(|b| b.0 == transmute::<_, usize>(t)).map(|b| transmute::<usize, Ty<'static>>(b.1)) },
  }
}
#[no_mangle] pub fn vstub_is_copyable(t: Ty<'static>, _: TyCtxt<'static>, _: ty::TypingEnv<'static>) -> bool {
  let w: usize = unsafe { transmute(t) };
  let mut r = false;
  for c in &world().copyable { if c.0 == w { r = c.1; } }
  r
}
#[no_mangle] pub fn vstub_has_dtor(a: ty::AdtDef<'static>, _: TyCtxt<'static>) -> bool {
  let w: usize = unsafe { transmute(a) };
  let mut r = false;
  for c in &world().dtor { if c.0 == w { r = c.1; } }
  r
}
// `LocationTable`'s functions, for the symbolic execution only.
#[no_mangle] pub fn vstub_start_index(t: &Table, l: Location) -> Point { pt(t.before[l.block] + 2 * l.statement_index) }
#[no_mangle] pub fn vstub_mid_index(t: &Table, l: Location) -> Point { pt(t.before[l.block] + 2 * l.statement_index + 1) }
#[no_mangle] pub fn vstub_to_location(t: &Table, i: Point) -> RichLocation {
  let mut block = t.before.len() - 1;
  while t.before[bb(block)] > i.as_usize() { block -= 1; }
  let d = i.as_usize() - t.before[bb(block)];
  let l = Location { block: bb(block), statement_index: d / 2 };
  if d % 2 == 0 { RichLocation::Start(l) } else { RichLocation::Mid(l) }
}
/// `PlaceTy::projection_ty`, in replays too: the harness's boxes have no type arguments.
#[no_mangle] pub fn vstub_projection_ty(t: rustc_middle::mir::tcx::PlaceTy<'static>, _: TyCtxt<'static>, e: PlaceElem<'static>) -> rustc_middle::mir::tcx::PlaceTy<'static> {
  rustc_middle::mir::tcx::PlaceTy::from_ty(match e {
    ProjectionElem::Deref => vstub_builtin_deref(t.ty, true).expect("a pointer"),
    ProjectionElem::Field(_, t) => t,
    ProjectionElem::Index(_) | ProjectionElem::ConstantIndex { .. } => match t.ty.kind() { TyKind::Slice(t) => *t, _ => panic!("not a slice") },
    _ => t.ty,
  })
}
/// A type context with nothing but a session, with nothing but a source map, with nothing.
pub fn tcx_with_session() -> TyCtxt<'static> {
  let s: &'static mut [usize] = Vec::leak(vec![0; std::mem::size_of::<rustc_session::Session>() / 8]);
  let at = s.as_ptr() as usize;
  for w in s.iter_mut() { *w = at; }
  let offset = std::mem::offset_of!(ty::GlobalCtxt<'static>, sess);
  let g = Vec::leak(vec![0usize; offset / 8 + 1]);
  g[offset / 8] = at;
  unsafe { transmute(g.as_ptr()) }
}
#[no_mangle] pub fn vstub_char_range(s: rustc_span::Span, _: &rustc_span::source_map::SourceMap) -> anyhow::Result<rustc_utils::source_map::range::CharRange> {
  let p = |b: rustc_span::BytePos| rustc_utils::source_map::range::CharPos { line: 0, column: b.0 as usize };
  Ok(rustc_utils::source_map::range::CharRange { start: p(s.lo()), end: p(s.hi()), filename: rustc_utils::source_map::filename::FilenameIndex::from_usize(0) })
}
#[no_mangle] pub fn vstub_source_callsite(s: rustc_span::Span) -> rustc_span::Span { s }
