// Functions of the compiler's own libraries whose bitcode is not available (they live in librustc_driver.so), written out from
// rustc's sources for the symbolic execution. Replays run the real ones.
pub type Raw = (*mut u8, usize);

/// The most bytes that an element of a foreign type takes.
const MOST: usize = 256;
const _: () = assert!(core::mem::size_of::<rustc_middle::mir::BasicBlockData>() <= MOST && core::mem::size_of::<rustc_middle::mir::LocalDecl>() <= MOST);
unsafe fn bytes(n: usize) -> *mut u8 { std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n, 16)) }
/// `RawVec<T>::grow_one` for any foreign T. Its size is not known here, so that every element gets as much memory as any needs;
/// the symbolic memory is flat, reading past the old elements is harmless.
#[no_mangle] pub unsafe extern "C" fn vstub_grow_any(v: *mut usize) {
  let (old, cap) = (*v.add(1) as *const u8, *v);
  let new = if cap < 4 { 4 } else { 2 * cap };
  let p = bytes(new * MOST);
  core::ptr::copy_nonoverlapping(old, p, cap * MOST);
  *v.add(1) = p as usize;
  *v = new;
}
/// `RawTable<T>::reserve_rehash` for any foreign T: the entries stay at their indices, where a search finds them when there are
/// at most 16 buckets or all keys hash to 0. The result is the encoding of Ok(()).
#[no_mangle] pub unsafe extern "C" fn vstub_rehash_any(t: *mut usize, n: usize, _: usize, _: bool) -> [usize; 2] {
  let (ctrl, mask, items) = (*t as *const u8, *t.add(1), *t.add(3));
  let full = |mask: usize| if mask < 8 { mask } else { (mask + 1) / 8 * 7 };
  let want = core::cmp::max(items + n, full(mask) + 1);
  let buckets = if want < 4 { 4 } else if want < 8 { 8 } else { (want * 8 / 7).next_power_of_two() };
  let new = bytes(buckets * MOST + buckets + 16).add(buckets * MOST);
  core::ptr::write_bytes(new, 0xFF, buckets + 16);
  let mut used = 0;
  if mask > 0 { core::ptr::copy_nonoverlapping(ctrl.sub((mask + 1) * MOST), new.sub((mask + 1) * MOST), (mask + 1) * MOST); }
  for i in 0..mask + 1 {
    let c = *ctrl.add(i);
    if c == 0xFF { continue; }
    if c >= 0x80 { continue; }
    // up to 16 buckets are searched at once, wherever the search begins
    assert!(buckets <= 16 || c == 0, "stub: the keys of a large table must hash to 0");
    *new.add(i) = c;
    *new.add((i.wrapping_sub(16) & (buckets - 1)) + 16) = c;
    used += 1;
  }
  *t = new as usize;
  *t.add(1) = buckets - 1;
  *t.add(2) = full(buckets - 1) - used;
  [0x8000_0000_0000_0001, 0]
}
/// `rustc_index::bit_set::clear_excess_bits_in_final_word`.
#[no_mangle] pub unsafe extern "C" fn vstub_clear_excess(domain_size: usize, words: *mut u64, len: usize) {
  let bits = domain_size % 64;
  if bits > 0 { *words.add(len - 1) &= (1u64 << bits) - 1; }
}
/// `<() as rustc_middle::mir::traversal::Customization>::successors`.
#[no_mangle] pub fn vstub_successors<'a>(data: &'a rustc_middle::mir::BasicBlockData<'static>, _: ()) -> rustc_middle::mir::Successors<'a> { data.terminator().successors() }
/// `Body::source_info`.
#[no_mangle] pub fn vstub_source_info<'a>(body: &'a rustc_middle::mir::Body<'static>, l: rustc_middle::mir::Location) -> &'a rustc_middle::mir::SourceInfo {
  let b = &body.basic_blocks[l.block];
  if l.statement_index < b.statements.len() { &b.statements[l.statement_index].source_info } else { &b.terminator().source_info }
}
/// The HIR tree of a harness: the parent of each node is an earlier one.
pub static mut PARENT: [usize; 8] = [0; 8];
// The HIR map, replaced in replays too: there is no crate to look into.
#[no_mangle] pub fn vstub_node_to_string(_: rustc_middle::hir::map::Map<'static>, _: rustc_hir::HirId) -> String { String::new() }
/// `ParentHirIterator::next`: of its three words one is the map (the type context), one an empty cache and one the current node.
#[no_mangle] pub fn vstub_parent_next(it: *mut usize) -> Option<rustc_hir::HirId> {
  unsafe {
    for i in 0..3 {
      let w = *it.add(i);
      if w != 0 && w != 4096 {
        let id = it.add(i) as *mut rustc_hir::HirId;
        (*id).local_id = rustc_hir::ItemLocalId::from_usize(PARENT[(*id).local_id.as_usize()]);
        return Some(*id);
      }
    }
    None
  }
}
/// `Debug` of locations and blocks: nothing but messages depends on it.
#[no_mangle] pub fn vstub_debug(_: *const u8, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
/// `datafrog::Iteration::changed`: an iteration is a vector of variables, whose trait has one method.
trait Variable { fn changed(&mut self) -> bool; }
#[no_mangle] pub unsafe fn vstub_changed(it: *mut u8) -> bool {
  let v = &mut *(it as *mut Vec<Box<dyn Variable>>);
  let mut r = false;
  for x in v.iter_mut() { if x.changed() { r = true; } }
  r
}
/// `MovePath::parents`.
#[repr(C)] pub struct Parents { next: Option<(rustc_mir_dataflow::move_paths::MovePathIndex, &'static rustc_mir_dataflow::move_paths::MovePath<'static>)>, all: &'static [rustc_mir_dataflow::move_paths::MovePath<'static>] }
#[no_mangle] pub fn vstub_parents(m: &rustc_mir_dataflow::move_paths::MovePath<'static>, all: &'static [rustc_mir_dataflow::move_paths::MovePath<'static>]) -> Parents {
  Parents { next: m.parent.map(|i| (i, &all[i.as_usize()])), all }
}
/// `Body::stmt_at`.
#[no_mangle] pub fn vstub_stmt_at<'a>(body: &'a rustc_middle::mir::Body<'static>, l: rustc_middle::mir::Location) -> either::Either<&'a rustc_middle::mir::Statement<'static>, &'a rustc_middle::mir::Terminator<'static>> {
  let b = &body.basic_blocks[l.block];
  if l.statement_index < b.statements.len() { either::Either::Left(&b.statements[l.statement_index]) } else { either::Either::Right(b.terminator()) }
}
/// `Span::contains`.
#[no_mangle] pub fn vstub_span_contains(a: rustc_span::Span, b: rustc_span::Span) -> bool { (a.lo() <= b.lo()) & (b.hi() <= a.hi()) }
/// `Span::overlaps` and `Span::to`, for spans outside macros.
#[no_mangle] pub fn vstub_span_overlaps(a: rustc_span::Span, b: rustc_span::Span) -> bool { (a.lo() < b.hi()) & (b.lo() < a.hi()) }
#[no_mangle] pub fn vstub_span_to(a: rustc_span::Span, b: rustc_span::Span) -> rustc_span::Span {
  rustc_span::Span::new(core::cmp::min(a.lo(), b.lo()), core::cmp::max(a.hi(), b.hi()), rustc_span::SyntaxContext::root(), None)
}
/// Other comparisons and combinations of spans outside macros.
#[no_mangle] pub fn vstub_span_adjacent(a: rustc_span::Span, b: rustc_span::Span) -> bool { (a.lo() <= b.hi()) & (b.lo() <= a.hi()) }
#[no_mangle] pub fn vstub_span_equal(a: rustc_span::Span, b: rustc_span::Span) -> bool { (a.lo() == b.lo()) & (a.hi() == b.hi()) }
#[no_mangle] pub fn vstub_span_cmp(a: &rustc_span::Span, b: &rustc_span::Span) -> core::cmp::Ordering { (a.lo(), a.hi()).cmp(&(b.lo(), b.hi())) }
fn span_of(lo: rustc_span::BytePos, hi: rustc_span::BytePos) -> rustc_span::Span { rustc_span::Span::new(lo, hi, rustc_span::SyntaxContext::root(), None) }
#[no_mangle] pub fn vstub_span_trim(a: rustc_span::Span, b: rustc_span::Span) -> Option<rustc_span::Span> { (a.hi() > b.hi()).then(|| span_of(core::cmp::max(a.lo(), b.hi()), a.hi())) }
#[no_mangle] pub fn vstub_span_between(a: rustc_span::Span, b: rustc_span::Span) -> rustc_span::Span { span_of(core::cmp::min(a.hi(), b.hi()), core::cmp::max(a.lo(), b.lo())) }
#[no_mangle] pub fn vstub_span_until(a: rustc_span::Span, b: rustc_span::Span) -> rustc_span::Span { span_of(core::cmp::min(a.lo(), b.lo()), core::cmp::max(a.lo(), b.lo())) }
#[no_mangle] pub fn vstub_span_ancestor_inside(a: rustc_span::Span, b: rustc_span::Span) -> Option<rustc_span::Span> { vstub_span_contains(b, a).then_some(a) }
#[no_mangle] pub fn vstub_span_ancestor_same(a: rustc_span::Span, _: rustc_span::Span) -> Option<rustc_span::Span> { Some(a) }
#[no_mangle] pub fn vstub_span_not(_: rustc_span::Span) -> bool { false }
/// `is_indirect` and `is_indirect_first_projection`, of places and of references to them.
#[no_mangle] pub fn vstub_place_indirect(p: &rustc_middle::mir::Place<'static>) -> bool { p.projection.iter().any(|e| matches!(e, rustc_middle::mir::ProjectionElem::Deref)) }
#[no_mangle] pub fn vstub_place_indirect_first(p: &rustc_middle::mir::Place<'static>) -> bool { matches!(p.projection.first(), Some(rustc_middle::mir::ProjectionElem::Deref)) }
#[no_mangle] pub fn vstub_ref_indirect(p: &rustc_middle::mir::PlaceRef<'static>) -> bool { p.projection.iter().any(|e| matches!(e, rustc_middle::mir::ProjectionElem::Deref)) }
#[no_mangle] pub fn vstub_ref_indirect_first(p: &rustc_middle::mir::PlaceRef<'static>) -> bool { matches!(p.projection.first(), Some(rustc_middle::mir::ProjectionElem::Deref)) }
/// `BasicBlocks::dominators`: of all of a body's blocks.
#[no_mangle] pub fn vstub_dominators<'a>(b: &'a rustc_middle::mir::BasicBlocks<'static>) -> &'a rustc_data_structures::graph::dominators::Dominators<rustc_middle::mir::BasicBlock> {
  Box::leak(Box::new(rustc_data_structures::graph::dominators::dominators(b)))
}
/// `Location::is_predecessor_of`.
#[no_mangle] pub fn vstub_is_predecessor(a: &rustc_middle::mir::Location, b: rustc_middle::mir::Location, body: &rustc_middle::mir::Body<'static>) -> bool {
  if a.block == b.block && a.statement_index < b.statement_index { return true; }
  let preds = body.basic_blocks.predecessors();
  let mut queue = preds[b.block].to_vec();
  let mut seen = vec![false; body.basic_blocks.len()];
  while let Some(x) = queue.pop() {
    if seen[x.as_usize()] { continue; }
    seen[x.as_usize()] = true;
    if x == a.block { return true; }
    queue.extend(preds[x].iter().copied());
  }
  false
}
/// The name of any item, where the harness has none.
#[no_mangle] pub fn vstub_item_name(_: usize, _: rustc_hir::def_id::DefId) -> u32 { 0 }
#[no_mangle] pub fn vstub_ident_string(_: u32) -> String { String::from("S") }
#[no_mangle] pub extern "C-unwind" fn vstub_native() -> bool { false }
